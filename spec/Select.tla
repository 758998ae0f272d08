------------------------------ MODULE Select ------------------------------
(* Which runs of a grid are selected by criteria, and which are submitted,   *)
(* given what is on disk for every run.                                      *)
(* run: [name, par, data, ptag, dtag, group, imp, itag, inames, parent,      *)
(*       filter, wantmin];  status of a run (st[name]):                      *)
(*   ch: <<[n, full, age], ..>> chain files;  min: "none", "ok", "fail"      *)
(*   cst: [r, done] (r = -1: no file);  chk: checkpoint file                 *)
(*   cv: R-1 of the analysis (-1: no file, -2: file that cannot be read)     *)
(*   marge: age of the analysis (-1: none);  queued: <<variants in queue>>   *)
(*   burned: burn in is recorded as removed                                  *)
(* convergence values are in units of 0.0001, ages in seconds                *)
EXTENDS Str

\* shell patterns
RECURSIVE Glob(_, _)
Glob(p, s) == IF p = "" THEN s = ""
              ELSE LET c == Ch(p, 1)
                       q == Mid(p, 2, Len(p)) IN
                   CASE c = "*" -> \E k \in 0..Len(s): Glob(q, Mid(s, k + 1, Len(s)))
                     [] c = "?" -> Len(s) > 0 /\ Glob(q, Mid(s, 2, Len(s)))
                     [] OTHER -> Len(s) > 0 /\ Ch(s, 1) = c /\ Glob(q, Mid(s, 2, Len(s)))
Meets(A, B) == Range_(A) \cap Range_(B) # {}

(* -------- criteria on what a run is.  An empty list: criterion not given; for importance runs *)
(* imp = "no": none, "both": with the others, "only": those and no others                       *)
OfKind(x, f) ==
    IF ~x.imp THEN f.imp # "only"
    ELSE /\ f.imp # "no"
         /\ (f.itag = <<>> \/ x.itag \in Range_(f.itag))
         /\ (f.inames = <<>> \/ Meets(f.inames, x.inames))
Matches(x, f) ==
    /\ OfKind(x, f)
    /\ (f.name = <<>> \/ \E k \in 1..Len(f.name): Glob(f.name[k], x.name))
    /\ (f.param = <<>> \/ Meets(f.param, x.par))
    /\ (f.ptag = <<>> \/ x.ptag \in Range_(f.ptag))
    /\ ~Meets(f.skippar, x.par)
    /\ (f.data = <<>> \/ Meets(f.data, x.data))
    /\ (f.dtag = <<>> \/ x.dtag \in Range_(f.dtag))
    /\ Range_(f.must) \subseteq Range_(x.data)
    /\ ~Meets(f.skipdata, x.data)
    /\ (f.group = <<>> \/ x.group \in Range_(f.group))
    /\ ~(x.group \in Range_(f.skipgroup))
Filtered(items, f) == SelectSeq(items, LAMBDA x: Matches(x, f))

(* -------- what state a run is in *)
Has(s, n) == \E k \in 1..Len(s.ch): s.ch[k].n = n /\ s.ch[k].full
Exists(s) == Has(s, 1)
\* chains 1, 2, .. up to the first that is missing or empty
RECURSIVE ChainsFrom(_, _)
ChainsFrom(s, n) == IF Has(s, n) THEN <<n>> \o ChainsFrom(s, n + 1) ELSE <<>>
ChainsThere(s) == ChainsFrom(s, 1)
File(s, n) == \E k \in 1..Len(s.ch): s.ch[k].n = n
AgeOf(s, n) == (CHOOSE c \in Range_(s.ch): c.n = n).age
NotRunning(s) == Exists(s) /\ AgeOf(s, 1) > 300
Converged(s, r, unknown) == IF s.cv < 0 THEN unknown ELSE s.cv <= r
CanContinue(s, r) == s.cst.r >= 0 /\ s.chk /\ ~s.cst.done /\ s.cst.r > r
Done(s) == s.cst.r >= 0 /\ s.cst.done
Changed(s, p) == ~Exists(s) \/ ~Exists(p) \/ AgeOf(s, 1) > AgeOf(p, 1)      \* since the run was importance sampled
Finished(x, st) == IF x.imp THEN Done(st[x.parent]) /\ ~Changed(st[x.name], st[x.parent]) /\ NotRunning(st[x.name]) ELSE Done(st[x.name])
\* chains written at very different times, or with one missing
Stuck(s) == LET m == CHOOSE m \in 0..20: (\A n \in 1..m: File(s, n)) /\ ~File(s, m + 1)
                ages == {AgeOf(s, n) : n \in 1..m} IN
            m > 0 /\ (File(s, m + 2) \/ \E a, b \in ages: a - b > 600)
AnalysisExists(s) == s.marge >= 0
AnalysisOld(s) == Exists(s) /\ (~AnalysisExists(s) \/ AgeOf(s, 1) < s.marge)

(* -------- batch submission.  o: options *)
Minim(o) == o.minimize \/ o.impmin
\* whether importance sampled runs are submitted
Kind(o) == IF o.minimize THEN "no" ELSE IF o.impgiven \/ o.impmin \/ o.impchanged \/ o.impready \/ o.filters THEN "only" ELSE "no"
Selected(x, f, o) == Matches(x, [f EXCEPT !.imp = Kind(o)])
Eligible(x, st, o) ==
    LET s == st[x.name] IN
    /\ (o.notexist => IF Minim(o) THEN s.min = "none" ELSE ~Exists(s))
    /\ (o.minfailed => s.min # "ok")
    /\ (o.notall > 0 /\ ~Minim(o) => \E n \in 1..o.notall: ~Has(s, n))
    /\ (Minim(o) => x.wantmin)
    /\ (o.pconv > 0 /\ x.imp => Converged(st[x.parent], o.pconv, FALSE))
    /\ (o.conv > 0 => ~Converged(s, o.conv, TRUE))
    /\ (o.checkpoint >= 0 => CanContinue(s, o.checkpoint) /\ NotRunning(s))
    /\ (x.imp /\ ~Minim(o) =>
        LET p == st[x.parent]
            px == [name |-> x.parent, imp |-> x.pimp, parent |-> x.pparent] IN
        /\ (Exists(p) \/ o.filters)
        /\ (o.impready => Finished(px, st))
        /\ (o.impchanged => Changed(s, p))
        /\ (o.pstopped => NotRunning(p)))
    /\ (o.chainexists => Exists(s))
Variant(o) == IF Minim(o) THEN "_minimize" ELSE ""
Submits(x, st, f, o) == Selected(x, f, o) /\ Eligible(x, st, o) /\ ~x.filter /\ ~o.filters /\ (o.notqueued => ~(Variant(o) \in Range_(st[x.name].queued)))
Submitted(items, st, f, o) == SelectSeq(items, LAMBDA x: Submits(x, st, f, o))
\* filters that are applied directly
Applies(x, st, f, o) == o.filters /\ Selected(x, f, o) /\ Eligible(x, st, o) /\ x.filter /\ Exists(st[x.parent])
Applied(items, st, f, o) == SelectSeq(items, LAMBDA x: Applies(x, st, f, o))

(* -------- lists of runs, and runs to analyse *)
\* sorted by parameter combination
ByParams(items, sorted) == FoldLeft(LAMBDA a, t: a \o SelectSeq(items, LAMBDA x: x.ptag = t), <<>>, sorted)
Listed(x, st, f, o) == Matches(x, f) /\ (o.exists => Exists(st[x.name])) /\ (o.notexist => ~Exists(st[x.name]))
                       /\ (o.conv > 0 => Converged(st[x.name], o.conv, FALSE))
Analysed(x, st, f, o) == /\ Matches(x, f)
                         /\ ~o.norun /\ Exists(st[x.name])
                         /\ (o.notexist => ~AnalysisExists(st[x.name]))
                         /\ (o.updateonly => AnalysisOld(st[x.name]))
\* settings given to the analysis of a run
BurnRemoved(x, st, o) == x.imp \/ o.burnremoved \/ st[x.name].burned
IniFor(x, st, o) == [n |-> x.name, root |-> x.name, ign |-> IF BurnRemoved(x, st, o) THEN "0" ELSE o.burn, cmp |-> x.parent]
\* convergence check: runs without chains, and those not converged
Missing(x, st, f, o) == Matches(x, f) /\ ~Exists(st[x.name]) /\ ~o.exist
NotConverged(x, st, f, o) == Matches(x, f) /\ Exists(st[x.name]) /\ (o.conv > 0 => ~Converged(st[x.name], o.conv, TRUE)) /\ (o.notrunning => NotRunning(st[x.name]))
Unfinished(x, st, f, o) == LET s == st[x.name] IN Matches(x, f) /\ s.cst.r >= 0 /\ ~s.cst.done /\ (o.notrunning => NotRunning(s)) /\ (o.running => ~NotRunning(s))
StuckRun(x, st, f, o) == Matches(x, f) /\ Exists(st[x.name]) /\ Stuck(st[x.name])
StuckUnfinished(x, st, f, o) == LET s == st[x.name] IN Matches(x, f) /\ o.running /\ s.cst.r >= 0 /\ ~s.cst.done /\ Exists(s) /\ Stuck(s)
=============================================================================
