------------------------------- MODULE CmdLine -------------------------------
(* The command-line analysis of chains: what it uses, and what it writes.        *)
(* A request o is a record                                                       *)
(*   chains  numbers of the chain files there are (0: one file without a number) *)
(*   first, last, excl   which of them to use (last = -1: to the end)            *)
(*   cutini, cutarg  rows to cut at the start in the settings file and in the    *)
(*           command (-1: not given); burned: cut before the chains were written *)
(*   cool    temperature;  thin: thin factor of thinned output                   *)
(*   notests, noplots, plotsonly, pca;  ini: a settings file is used             *)
(*   pars    names of the parameters; fixed: those that are constant;            *)
(*           derived: those that are functions of the others                     *)
(*   one     parameters of 1D plots asked for (patterns; <<>>: all)              *)
(*   against the parameter 2D plots are against (""), two: pairs of 2D plots     *)
(*   tri     wanted: <<>>, or << patterns >> (<< <<>> >>: of all parameters)     *)
(*   three   triples of 3D plots                                                 *)
EXTENDS Str
RECURSIVE Matches(_, _)
Matches(p, s) == IF p = "" THEN s = ""
                 ELSE LET c == Ch(p, 1) q == Mid(p, 2, Len(p)) IN
                      CASE c = "*" -> \E k \in 0..Len(s): Matches(q, Mid(s, k + 1, Len(s)))
                        [] c = "?" -> Len(s) > 0 /\ Matches(q, Mid(s, 2, Len(s)))
                        [] OTHER -> Len(s) > 0 /\ Ch(s, 1) = c /\ Matches(q, Mid(s, 2, Len(s)))
\* the parameters that are not constant
Varying(o) == SelectSeq(o.pars, LAMBDA p: p \notin Range_(o.fixed))
\* those that are not derived: of the covariance matrix
Basic(o) == SelectSeq(Varying(o), LAMBDA p: p \notin Range_(o.derived))
\* those asked for by names and patterns, in the order asked for (all of them when none)
Named(o, l) == IF l = <<>> THEN Varying(o)
               ELSE Flat(MapSeq(LAMBDA x: SelectSeq(Varying(o), LAMBDA p: Matches(x, p)), l))
DefaultCut(o) == IF o.ini THEN 0 ELSE 9      \* default settings: 0.3 (of 30 rows)
UsedChains(o) == SelectSeq(o.chains, LAMBDA k: k >= o.first /\ (o.last < 0 \/ k <= o.last) /\ k \notin Range_(o.excl))
CutOf(o) == IF o.burned THEN 0 ELSE IF o.cutarg >= 0 THEN o.cutarg ELSE IF o.cutini >= 0 THEN o.cutini ELSE DefaultCut(o)
Used(o) == [chains |-> UsedChains(o), cut |-> CutOf(o), cool |-> o.cool]
Triangle(o) == IF o.tri = <<>> THEN <<>> ELSE LET n == Named(o, o.tri[1]) IN IF Len(n) > 1 THEN n ELSE <<>>
Pairs(o) == IF o.against # "" THEN MapSeq(LAMBDA p: <<p, o.against>>, SelectSeq(Varying(o), LAMBDA p: p # o.against))
            ELSE SelectSeq(MapSeq(LAMBDA l: Named(o, l), o.two), LAMBDA l: Len(l) = 2)
Triples(o) == SelectSeq(MapSeq(LAMBDA l: Named(o, l), o.three), LAMBDA l: Len(l) = 3)
When(c, x) == IF c THEN {x} ELSE {}
\* endings of the files written
Files(o) ==
    {".covmat", ".corr"} \cup When(~o.plotsonly, ".margestats") \cup When(~o.plotsonly, ".likestats")
    \cup When(~o.plotsonly /\ ~o.notests, ".converge") \cup When(o.thin > 1, "_thin.txt") \cup When(o.pca /\ ~o.plotsonly, ".PCA")
    \cup (IF o.noplots THEN {} ELSE {".py"} \cup When(Pairs(o) # <<>>, "_2D.py") \cup When(Triangle(o) # <<>>, "_tri.py")
                                    \cup When(Triples(o) # <<>>, "_3D.py"))
\* panels the plots of the scripts have: sets of << x, y >>
OnePanels(o) == {<<p, "">> : p \in Range_(IF Named(o, o.one) = <<>> THEN Varying(o) ELSE Named(o, o.one))}
TwoPanels(o) == Range_(Pairs(o))
TriPanels(o) == LET n == Triangle(o) IN {<<n[k], "">> : k \in 1..Len(n)} \cup {<<n[m[1]], n[m[2]]>> : m \in {x \in (1..Len(n)) \X (1..Len(n)) : x[1] < x[2]}}
ThreePanels(o) == {<<t[1], t[2]>> : t \in Range_(Triples(o))}
=============================================================================
