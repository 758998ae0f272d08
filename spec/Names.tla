------------------------------- MODULE Names -------------------------------
(* Ordered lists of parameters [name, label, comment, derived, ren], where   *)
(* ren is the set of aliases of a parameter.                                 *)
EXTENDS Str
Names_(ps) == MapSeq(LAMBDA p: p.name, ps)
OfName(ps, n) == IndexIn(Names_(ps), n)            \* 0 if there is none
\* d is a table of renames: a sequence of [n, l]
Others(d, n) == UNION {Range_(d[k].l) : k \in {j \in 1..Len(d): d[j].n = n}}
Aliased(ps, d, n) == LET given == {n} \cup Others(d, n) IN
    {i \in 1..Len(ps): (({ps[i].name} \cup ps[i].ren \cup Others(d, ps[i].name)) \cap given) # {}}
\* the parameters that a look-up may return (as indices)
Lookup(ps, d, n) == IF OfName(ps, n) > 0 THEN {OfName(ps, n)} ELSE Aliased(ps, d, n)
\* wildcards
RECURSIVE Glob(_, _)
Glob(pat, s) == IF pat = "" THEN s = ""
                ELSE IF Ch(pat, 1) = "*" THEN \E k \in 0..Len(s): Glob(Mid(pat, 2, Len(pat)), Mid(s, k + 1, Len(s)))
                ELSE s # "" /\ (Ch(pat, 1) = "?" \/ Ch(pat, 1) = Ch(s, 1)) /\ Glob(Mid(pat, 2, Len(pat)), Mid(s, 2, Len(s)))
Matches(ps, pat) == SelectIdx([i \in 1..Len(ps) |-> i], LAMBDA i: Glob(pat, ps[i].name))
IsGlob(n) == \E k \in 1..Len(n): Ch(n, k) \in {"*", "?"}
\* possible results of looking up a list of names and patterns (0: not found)
LookupList(ps, d, ns) == FoldLeft(LAMBDA acc, n:
     IF IsGlob(n) THEN {a \o Matches(ps, n) : a \in acc}
     ELSE {Append(a, i) : a \in acc, i \in IF Lookup(ps, d, n) = {} THEN {0} ELSE Lookup(ps, d, n)}, {<<>>}, ns)
MissingName(ps, d, ns) == \E k \in 1..Len(ns): ~IsGlob(ns[k]) /\ Lookup(ps, d, ns[k]) = {}
\* edits
DelIdx(ps, I) == SelectIdx(ps, LAMBDA i: (i - 1) \notin I)
Filter(ps, keep) == SelectIdx(ps, LAMBDA i: ps[i].name \in keep)
Relabel(ps, labels) == [i \in 1..Len(ps) |-> IF i <= Len(labels) THEN [ps[i] EXCEPT !.label = labels[i]] ELSE ps[i]]
\* labels (and derived flags) taken from another list, by name (aliases of ps allowed)
RECURSIVE LabelsFrom(_, _, _)
LabelsFrom(ps, qs, der) ==
    IF qs = <<>> THEN {ps}
    ELSE LET q == Head(qs) L == Lookup(ps, <<>>, q.name) IN
         IF L = {} THEN LabelsFrom(ps, Tail(qs), der)
         ELSE UNION {LabelsFrom([ps EXCEPT ![i].label = q.label, ![i].derived = IF der THEN q.derived ELSE @], Tail(qs), der) : i \in L}
\* aliases: names belong together if a parameter or the table says so
Groups(ps, d) == {{ps[i].name} \cup ps[i].ren : i \in 1..Len(ps)} \cup {{d[k].n} \cup Range_(d[k].l) : k \in 1..Len(d)}
RECURSIVE Grow(_, _)
Grow(S, G) == LET T == S \cup UNION {g \in G: g \cap S # {}} IN IF T = S THEN S ELSE Grow(T, G)
Class(ps, d, n) == Grow({n}, Groups(ps, d))
OwnIn(ps, C) == {i \in 1..Len(ps): ps[i].name \in C}
\* new aliases qs of the parameters ps after an update with table d: all names of its group for the only parameter of a group;
\* of several parameters in one group at least one gets them, none gets others
Updated(ps, d, qs) ==
    /\ Len(qs) = Len(ps)
    /\ \A i \in 1..Len(ps): LET C == Class(ps, d, ps[i].name) IN
         /\ qs[i].ren = C \ {ps[i].name} \/ (Cardinality(OwnIn(ps, C)) > 1 /\ qs[i].ren = ps[i].ren)
         /\ \E j \in OwnIn(ps, C): qs[j].ren = C \ {ps[j].name}
         /\ [qs[i] EXCEPT !.ren = {}] = [ps[i] EXCEPT !.ren = {}]
\* saving as text keeps all but the aliases
AsFile(ps) == MapSeq(LAMBDA p: [p EXCEPT !.ren = {}], ps)
=============================================================================
