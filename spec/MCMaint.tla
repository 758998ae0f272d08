------------------------------ MODULE MCMaint ------------------------------
(* All short histories of maintenance of a small grid with importance runs   *)
(* whose names extend each other.                                            *)
EXTENDS Maint, Json
CONSTANTS Depth, Emit
VARIABLES fs, tgt, ops, last
Run(n, dt, imp) == [name |-> n, par |-> <<>>, data |-> <<"a">>, ptag |-> "base", dtag |-> dt, group |-> "g", imp |-> imp, itag |-> "", inames |-> <<>>, rel |-> "base/a/", nname |-> n]
Items == <<Run("base_a", "a", FALSE), Run("base_a_post_b", "a_post_b", TRUE), Run("base_a_post_b_c", "a_post_b_c", TRUE)>>
Fl(d, f, c, n, cv) == [d |-> d, f |-> f, c |-> c, from |-> 0, n |-> n, age |-> 0, cv |-> cv, burn |-> FALSE]
C == "base/a/"
D == "base/a/dist/"
Files == {Fl(C, "base_a_1.txt", 1, 8, -1), Fl(C, "base_a_2.txt", 2, 4, -1), Fl(C, "base_a.paramnames", 3, 2, -1), Fl(C, "base_a_1.chk", 4, 0, -1), Fl(C, "base_a_post_b_1.txt", 5, 8, -1),
          Fl(C, "base_a_post_b.paramnames", 6, 2, -1), Fl(C, "base_a_post_b_c_1.txt", 7, 0, -1), Fl(D, "base_a.converge", 8, 5, 100), Fl(D, "base_a_2D.py", 9, 1, -1),
          Fl(D, "base_a_post_b.converge", 10, 5, 10), Fl(D, "base_a_post_b_2D.py", 11, 1, -1), Fl(C, "base_ab.txt", 12, 1, -1), Fl("config/", "set.py", 13, 1, -1)}
NoFilter == [imp |-> "both", itag |-> <<>>, inames |-> <<>>, name |-> <<>>, param |-> <<>>, ptag |-> <<>>, skippar |-> <<>>, data |-> <<>>, dtag |-> <<>>, must |-> <<>>,
             skipdata |-> <<>>, group |-> <<>>, skipgroup |-> <<>>]
Filters == {NoFilter, [NoFilter EXCEPT !.imp = "no"], [NoFilter EXCEPT !.name = <<"base_a_post_b">>]}
CleanOpts == [ext : {<<"*">>, <<"txt", "chk">>}, chainnum : {"", "1"}, empty : BOOLEAN, dist : BOOLEAN, conv : {0, 50}, confirm : {TRUE}] \cup {[ext |-> <<"*">>, chainnum |-> "", empty |-> FALSE, dist |-> FALSE, conv |-> 0, confirm |-> FALSE]}
CopyOpts == [chains : BOOLEAN, dist : {TRUE}, ext : {<<".*">>, <<".paramnames", ".conv*">>}, skip : {<<".chk", ".py">>}, maxage : {0}, conv : {0, 50}, burn : {0, 2}, link : {FALSE}, config : {TRUE}, dryrun : {FALSE}]
            \cup {[chains |-> TRUE, dist |-> FALSE, ext |-> <<".*">>, skip |-> <<".log">>, maxage |-> 0, conv |-> 0, burn |-> 0, link |-> TRUE, config |-> FALSE, dryrun |-> FALSE]}
ExtOpts == [ext : {<<"converge">>, <<".py", "_2D.py">>, <<"_*.py">>}, conv : {0, 50}, norm : BOOLEAN]
Init == fs = Files /\ tgt = {} /\ ops = <<>> /\ last = [op |-> "none", f |-> NoFilter, before |-> {}]
Do(e, nfs, ntgt) == fs' = nfs /\ tgt' = ntgt /\ ops' = Append(ops, e) /\ last' = [op |-> e.op, f |-> e.f, o |-> e.o, before |-> fs]
Next == /\ Len(ops) < Depth
        /\ \E f \in Filters:
           \/ \E o \in CleanOpts: Do([op |-> "clean", f |-> f, o |-> o], Cleaned(Items, fs, f, o), tgt)
           \/ \E o \in CopyOpts: Do([op |-> "copy", f |-> f, o |-> o], fs, Onto(tgt, Copied(Items, fs, f, o)))
           \/ \E o \in ExtOpts: Len(ops) = Depth - 1 /\ Do([op |-> "extract", f |-> f, o |-> o], fs, Extracted(Items, fs, f, o))
Spec == Init /\ [][Next]_<<fs, tgt, ops, last>>
\* a file belongs to at most one run, and every file named for a run to one
OneOwner == \A u \in fs: LET own == {k \in 1..Len(Items): Owns(Items[k], u.f, Items)} IN Cardinality(own) <= 1 /\ ((\E k \in 1..Len(Items): NamedFor(u.f, Items[k].name)) => own # {})
CleanSafe == last.op = "clean" =>
    /\ (~last.o.confirm => fs = last.before)
    /\ \A u \in last.before \ fs: \E k \in 1..Len(Items): Matches(Items[k], last.f) /\ Owns(Items[k], u.f, Items)
    /\ Fl("config/", "set.py", 13, 1, -1) \in fs /\ Fl(C, "base_ab.txt", 12, 1, -1) \in fs
    /\ (last.o.empty => \A u \in last.before \ fs: u.n = 0)
CleanTwice == last.op = "clean" /\ last.o.confirm => Cleaned(Items, fs, last.f, last.o) = fs \/ last.o.conv > 0
CopySafe == last.op \in {"copy", "extract"} => fs = last.before
NoClash == \A u, v \in tgt: u.d = v.d /\ u.f = v.f => u = v
\* the content of a copy is that of its source, possibly without its first lines
Faithful == last.op = "copy" => \A v \in Copied(Items, fs, last.f, last.o): (v.c = 0 /\ v.burn) \/ \E u \in fs: u.d = v.d /\ u.f = v.f /\ u.c = v.c /\ u.n - v.n = v.from - u.from
EmitBehaviours == (Emit /\ Len(ops) = Depth) => PrintT("@@" \o ToJson([ops |-> ops]))
=============================================================================
