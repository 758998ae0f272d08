----------------------------- MODULE StatFiles -----------------------------
(* Results as objects and as files.  Values are texts that stand for them at  *)
(* the precision of the file; labels are sequences of words, possibly empty.  *)
(*   marge:  [kind, limits, pars], pars: [name, der, mean, err, lims, label,  *)
(*           best]; lims: [lo, hi, tag]; best = "" unless a best fit is added *)
(*   best:   [kind, like, pars, chis], pars: [name, val, label, der, fixed],  *)
(*           chis: [kind, tag, name, val]                                      *)
(*   like:   [kind, sample, inv, mean, log]; inv = "" if not known            *)
(*   conv:   [kind, eigs, worst, steps, corr], corr: [name, vals]                    *)
EXTENDS VBase
Sorts == {"marge", "best", "like", "conv"}
NameIn(name, pars) == \E k \in 1..Len(pars): pars[k].name = name
PosOf(name, pars) == CHOOSE k \in 1..Len(pars): pars[k].name = name /\ \A j \in 1..(k - 1): pars[j].name # name
Pick(s, Keep_(_)) == SelectIdx(s, LAMBDA j: Keep_(s[j]))
\* what a file read back gives: everything but the best fit that was added to marginalized results
Stored(o) == IF o.kind = "marge" THEN [o EXCEPT !.pars = MapSeq(LAMBDA p: [p EXCEPT !.best = ""], o.pars)] ELSE o
\* labels from a list of parameters replace those of the same name
Relabel(o, pn) == [o EXCEPT !.pars = MapSeq(LAMBDA p: IF NameIn(p.name, pn) THEN [p EXCEPT !.label = pn[PosOf(p.name, pn)].label] ELSE p, o.pars)]
\* a best-fit file has three lists of parameters: varied, fixed, derived
FromBest(f, fixed) ==
    LET Mk(l, der, fx) == MapSeq(LAMBDA p: [name |-> p.name, val |-> p.val, label |-> p.label, der |-> der, fixed |-> fx], l)
    IN [kind |-> "best", like |-> f.like, chis |-> f.chis,
        pars |-> Mk(f.varied, FALSE, FALSE) \o (IF fixed THEN Mk(f.fixed, FALSE, TRUE) ELSE <<>>) \o Mk(f.derived, TRUE, FALSE)]
\* parameters without a best fit are removed
AddBest(m, b) ==
    LET both == Pick(m.pars, LAMBDA p: NameIn(p.name, b.pars))
    IN [m EXCEPT !.pars = MapSeq(LAMBDA p: LET z == b.pars[PosOf(p.name, b.pars)] IN [p EXCEPT !.best = z.val, !.der = z.der], both)]
\* the values by name
DictOf(b, derived) == [n \in {b.pars[k].name : k \in {j \in 1..Len(b.pars): derived \/ ~b.pars[j].der}} |-> b.pars[PosOf(n, b.pars)].val]
ChiOf(b, kind, name) == LET s == {k \in 1..Len(b.chis): b.chis[k].kind = kind /\ b.chis[k].name = name} IN IF s = {} THEN "" ELSE b.chis[MinOf(s)].val
\* contributions of one kind, in the order of the file
KindOf(b, kind) == Pick(b.chis, LAMBDA c: c.kind = kind)
=============================================================================
