------------------------------ MODULE MCSelect ------------------------------
(* Life of the runs of a small grid: submitted, started, stopped, continued,  *)
(* finished, importance sampled again, analysed; with batch submission by     *)
(* different options at any time.                                             *)
EXTENDS Select, Json
CONSTANTS Depth, Emit
VARIABLES st, last, ops
Run(n, dt, imp, parent, filter) == [name |-> n, par |-> <<"mnu">>, data |-> IF imp THEN <<"a", "z">> ELSE <<"a">>, ptag |-> "base_mnu", dtag |-> dt, group |-> "main",
    imp |-> imp, itag |-> IF imp THEN "z" ELSE "", inames |-> IF imp THEN <<"z">> ELSE <<>>, parent |-> parent, pimp |-> FALSE, pparent |-> "", filter |-> filter, wantmin |-> TRUE]
Items == <<Run("m1", "a", FALSE, "", FALSE), Run("m1_post_z", "a_post_z", TRUE, "m1", FALSE), Run("m2", "b", FALSE, "", FALSE)>>
Names == {"m1", "m2", "m1_post_z"}
None == [ch |-> <<>>, min |-> "none", cst |-> [r |-> -1, done |-> FALSE], chk |-> FALSE, cv |-> -1, marge |-> -1, queued |-> <<>>, burned |-> FALSE]
NoFilter == [imp |-> "both", itag |-> <<>>, inames |-> <<>>, name |-> <<>>, param |-> <<>>, ptag |-> <<>>, skippar |-> <<>>, data |-> <<>>, dtag |-> <<>>, must |-> <<>>,
             skipdata |-> <<>>, group |-> <<>>, skipgroup |-> <<>>]
NoOpts == [minimize |-> FALSE, impmin |-> FALSE, impgiven |-> FALSE, impchanged |-> FALSE, impready |-> FALSE, filters |-> FALSE, notexist |-> FALSE, minfailed |-> FALSE, notall |-> 0,
           pconv |-> 0, conv |-> 0, checkpoint |-> -1, pstopped |-> FALSE, chainexists |-> FALSE, notqueued |-> TRUE]
Opts == {[NoOpts EXCEPT !.notexist = TRUE],
         [NoOpts EXCEPT !.checkpoint = 0],
         [NoOpts EXCEPT !.conv = 100, !.chainexists = TRUE],
         [NoOpts EXCEPT !.impgiven = TRUE, !.notexist = TRUE, !.pstopped = TRUE],
         [NoOpts EXCEPT !.impready = TRUE, !.impchanged = TRUE],
         [NoOpts EXCEPT !.minimize = TRUE, !.notexist = TRUE]}
NamesOf(ss) == MapSeq(LAMBDA x: x.name, ss)
Queue(s, v) == [s EXCEPT !.queued = Append(@, v)]
Chain(s, age) == [s EXCEPT !.ch = <<[n |-> 1, full |-> TRUE, age |-> age]>>]
Log(e) == ops' = Append(ops, e)
Init == st = [n \in Names |-> None] /\ last = [o |-> NoOpts, names |-> <<>>, st |-> [n \in Names |-> None]] /\ ops = <<>>
Submit(o) ==
    LET l == NamesOf(Submitted(Items, st, NoFilter, o)) IN
    /\ st' = [n \in Names |-> IF n \in Range_(l) THEN Queue(st[n], Variant(o)) ELSE st[n]]
    /\ last' = [o |-> o, names |-> l, st |-> st]
    /\ Log([op |-> "submit", o |-> o, n |-> ""])
Env(n, s, what) == st' = [st EXCEPT ![n] = s] /\ UNCHANGED last /\ Log([op |-> what, n |-> n, o |-> NoOpts])
Parent(n) == (CHOOSE x \in Range_(Items): x.name = n).parent
\* a queued run starts (or continues), and writes chains
Start(n) == /\ "" \in Range_(st[n].queued)
            /\ (Parent(n) # "" => Exists(st[Parent(n)]))
            /\ Env(n, [Chain(st[n], 10) EXCEPT !.queued = SelectSeq(@, LAMBDA v: v # ""), !.cst = IF Parent(n) = "" THEN [r |-> 200, done |-> FALSE] ELSE @, !.chk = (Parent(n) = "")], "start")
Minimized(n) == \E r \in {"ok", "fail"}: "_minimize" \in Range_(st[n].queued) /\ Env(n, [st[n] EXCEPT !.queued = SelectSeq(@, LAMBDA v: v # "_minimize"), !.min = r], "minimized")
Finish(n) == /\ Exists(st[n]) /\ st[n].cst.r > 0 /\ ~st[n].cst.done /\ AgeOf(st[n], 1) <= 300
             /\ Env(n, [Chain(st[n], 10) EXCEPT !.cst = [r |-> 20, done |-> TRUE]], "finish")
Analyse(n) == Exists(st[n]) /\ Parent(n) = "" /\ st[n].cv # st[n].cst.r /\ Env(n, [st[n] EXCEPT !.cv = st[n].cst.r, !.marge = 0], "analyse")
Tick == /\ \E n \in Names: Exists(st[n]) /\ AgeOf(st[n], 1) < 1000
        /\ st' = [n \in Names |-> IF Exists(st[n]) THEN Chain(st[n], AgeOf(st[n], 1) + 1000) ELSE st[n]]
        /\ UNCHANGED last /\ Log([op |-> "tick", n |-> "", o |-> NoOpts])
Next == /\ Len(ops) < Depth
        /\ \/ \E o \in Opts: Submit(o)
           \/ \E n \in Names: Start(n) \/ Minimized(n) \/ Finish(n) \/ Analyse(n)
           \/ Tick
Spec == Init /\ [][Next]_<<st, last, ops>>
StateView == <<st, last>>
Active(s, v) == v \in Range_(s.queued) \/ (v = "" /\ Exists(s) /\ AgeOf(s, 1) <= 300 /\ ~s.cst.done)
\* a run that is queued, or running, is not submitted again
NotTwice == LET o == last.o IN \A n \in Range_(last.names): o.notexist \/ o.checkpoint >= 0 => ~Active(last.st[n], Variant(o)) \/ (Parent(n) # "" /\ ~o.notexist)
\* what a run needs is there
HasParent == \A n \in Range_(last.names): Parent(n) # "" => Exists(last.st[Parent(n)])
\* nothing that is finished is done again, unless what it depends on changed
NotFinished == \A n \in Range_(last.names): ~last.o.minimize => IF Parent(n) = "" THEN ~(last.st[n].cv \in 0..20 /\ Done(last.st[n]) /\ last.o.conv > 0) /\ ~(Done(last.st[n]) /\ last.o.checkpoint >= 0)
                                              ELSE Changed(last.st[n], last.st[Parent(n)])
\* none is missed
NoneMissed == /\ (last.o.notexist /\ Kind(last.o) = "no" /\ ~last.o.minimize => \A n \in {"m1", "m2"}: n \in Range_(last.names) \/ Exists(last.st[n]) \/ "" \in Range_(last.st[n].queued)) \/ ops = <<>>
              /\ (last.o.impready => "m1_post_z" \in Range_(last.names) \/ ~Done(last.st["m1"]) \/ "" \in Range_(last.st["m1_post_z"].queued) \/ ~Changed(last.st["m1_post_z"], last.st["m1"]))
              /\ (last.o.checkpoint = 0 => \A n \in {"m1", "m2"}: n \in Range_(last.names) \/ ~NotRunning(last.st[n]) \/ Done(last.st[n]) \/ "" \in Range_(last.st[n].queued))
\* criteria only ever restrict
Weaker(o) == {[o EXCEPT !.notexist = FALSE], [o EXCEPT !.checkpoint = -1], [o EXCEPT !.conv = 0], [o EXCEPT !.chainexists = FALSE], [o EXCEPT !.pstopped = FALSE], [o EXCEPT !.notqueued = FALSE]}
OnlyRestrict == \A w \in Weaker(last.o): Range_(NamesOf(Submitted(Items, last.st, NoFilter, last.o))) \subseteq Range_(NamesOf(Submitted(Items, last.st, NoFilter, w)))
EmitBehaviours == (Emit /\ Len(ops) = Depth) => PrintT("@@" \o ToJson([ops |-> ops]))
=============================================================================
