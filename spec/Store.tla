------------------------------- MODULE Store -------------------------------
(* Samples in memory and chain files on disk.                               *)
(* An object is [st, info, bounds, label, burned]: the sample state of      *)
(* Chains, the parameters (name, label, derived flag) in column order,      *)
(* hard bounds of parameters (4 * value, NoB if there is none), the label   *)
(* and whether the files it came from were marked as burn-in removed.       *)
(* A disk entry holds the same for a root, its chains as files.             *)
EXTENDS Chains
NoB == 999999
NoBounds == <<NoB, NoB>>
\* bounds are partial functions on names: the default is NoBounds
BoundOf(b, name) == IF name \in DOMAIN b THEN b[name] ELSE NoBounds
SetBound(b, name, v) == [n \in DOMAIN b \cup {name} |-> IF n = name THEN v ELSE b[n]]
\* setting a range changes the ends that are given
MergeBound(old, new) == <<IF new[1] = NoB THEN old[1] ELSE new[1], IF new[2] = NoB THEN old[2] ELSE new[2]>>
AddBound(b, name, v) == SetBound(b, name, MergeBound(BoundOf(b, name), v))

NonEmpty(chs) == SelectIdx(chs, LAMBDA c: Len(chs[c]) > 0)
\* columns that do not vary become fixed parameters
FixCols(ob) ==
    LET J == FixedCols(ob.st) r == Rows(ob.st)[1] nm == ob.st.names
        fixed == {nm[j] : j \in J}
        b == [n \in DOMAIN ob.bounds \cup fixed |->
                IF n \in fixed THEN LET v == 4 * r.x[IndexIn(nm, n)] IN <<v, v>> ELSE ob.bounds[n]]
    IN [ob EXCEPT !.st = DropCols(@, J), !.info = SelectIdx(@, LAMBDA j: j \notin J), !.bounds = b]

\* rows that burn-in removal leaves of the files: ign = [num, den], den = 0: num rows, else the fraction num/den
CutChains(chs, ign) ==
    IF ign.num = 0 THEN {chs}
    ELSE IF ign.den = 0 THEN {MapSeq(LAMBDA c: DropN(c, ign.num), chs)}
    ELSE {[c \in 1..Len(chs) |-> DropN(chs[c], f[c])] :
            f \in SeqProd([c \in 1..Len(chs) |-> Rounds(Len(chs[c]), ign.num, ign.den)])}
NoCut == [num |-> 0, den |-> 0]
\* loading: burn-in is removed unless the files are marked, or the job they belong to is known to have no burn-in
LoadCut(d, ign, jobburned) == IF d.burned \/ jobburned THEN NoCut ELSE ign
MkObj(d, chs) ==
    FixCols([st |-> [mode |-> "combined", chains |-> NonEmpty(chs), names |-> MapSeq(LAMBDA p: p.name, d.info), hasL |-> TRUE,
                     wden |-> d.wden, prop |-> FALSE, minw |-> TRUE],
             info |-> d.info, bounds |-> d.bounds, label |-> d.label, burned |-> d.burned])
\* samples of which burn-in was removed are marked, so that it is not removed again once they are saved
Load(d, ign, jobburned) == {[MkObj(d, chs) EXCEPT !.burned = @ \/ ign.num > 0] : chs \in CutChains(d.chains, LoadCut(d, ign, jobburned))}
\* the rows given to a script that only reports numbers
LoadRaw(d, ign) == CutChains(d.chains, LoadCut(d, ign, FALSE))

Save(ob, single, mark) ==
    [chains |-> IF single THEN <<Rows(ob.st)>> ELSE ob.st.chains, info |-> ob.info, bounds |-> ob.bounds, label |-> ob.label,
     burned |-> ob.burned \/ mark, wden |-> ob.st.wden]

\* operations in memory: those of Chains, with the parameter information following the columns
MemOps(ob, e) ==
    IF e.op = "addcol" THEN {[ob EXCEPT !.st = AddCol(@, e.name, e.vec),
                                !.info = Append(@, [name |-> e.name, label |-> e.label, derived |-> TRUE]),
                                !.bounds = AddBound(@, e.name, e.range)]}
    ELSE IF e.op = "setrange" THEN {[ob EXCEPT !.bounds = AddBound(@, e.name, e.range)]}
    ELSE IF e.op = "setlabel" THEN {[ob EXCEPT !.label = e.label]}
    ELSE IF e.op = "delfixed" THEN {FixCols(ob)}
    ELSE {[ob EXCEPT !.st = s] : s \in Do(ob.st, e)}
=============================================================================
