------------------------------ MODULE MCLookup ------------------------------
(* All short sessions over two locations.                                      *)
EXTENDS Lookup, Json
CONSTANTS Depth, Emit
VARIABLES locsdef, st, ops, out
None == <<>>
S1 == << [k |-> "ignore_rows", v |-> 2] >>
S2 == << [k |-> "ignore_rows", v |-> 3], [k |-> "my_setting", v |-> 7] >>
L(kind, here, sub, ini, own) == [kind |-> kind, here |-> here, sub |-> sub, ini |-> ini, own |-> own]
Plains == {L("plain", h, s, i, <<>>) : h \in {<<"a">>, <<"b">>}, s \in {<<>>, <<"a">>, <<"b">>}, i \in {None, S1}}
Trees == {L("tree", <<>>, s, S1, <<>>) : s \in {<<"a">>, <<"a", "b">>}}
Grids == {L("grid", <<"a", "b">>, <<>>, S1, << [r |-> "a", set |-> S2] >>)}
Init == /\ \E x \in Plains \cup Trees, y \in Plains \cup Grids: locsdef = <<x, y>>
        /\ \E s \in {None, S1}, ls \in {<<1>>, <<2, 1>>}: st = Fresh(ls, s) /\ ops = << [op |-> "new", locs |-> ls, set |-> s] >>
        /\ out = [err |-> FALSE, src |-> <<>>, set |-> <<>>, id |-> 0]
Do(o, r) == ops' = Append(ops, o) /\ out' = r.out /\ st' = r.st
Quiet(o, s) == ops' = Append(ops, o) /\ st' = s /\ UNCHANGED out
Next ==
    /\ Len(ops) < Depth /\ UNCHANGED locsdef
    /\ \/ \E n \in {"a", "b"}, m \in BOOLEAN: Do([op |-> "load", n |-> n, mem |-> m, set |-> None], Load(locsdef, st, n, m, None, Len(ops)))
       \/ \E n \in {"a"}: Do([op |-> "load", n |-> n, mem |-> FALSE, set |-> S2], Load(locsdef, st, n, FALSE, S2, Len(ops)))
       \/ \E n \in {"a", "b"}: InMem(st, n) /\ Quiet([op |-> "remove", n |-> n], Forget(st, n))
       \/ \E s \in {None, S1}, f \in BOOLEAN: Quiet([op |-> "reset", set |-> s, first |-> f], Reset(st, s, f))
       \/ st.locs = <<1>> /\ Quiet([op |-> "add", loc |-> 2], AddLoc(st, 2))
Spec == Init /\ [][Next]_<<locsdef, st, ops, out>>
\* samples in memory come from the first location holding them (locations are only ever added at the end)
FromFirst == \A i \in 1..Len(st.mem): LET m == st.mem[i] IN
    /\ Holds(locsdef[m.src[1]], m.n)
    /\ \A j \in 1..Len(st.locs): st.locs[j] = m.src[1] \/ ~Holds(locsdef[st.locs[j]], m.n) \/ IndexIn(st.locs, m.src[1]) < j
OneOfEach == \A i, j \in 1..Len(st.mem): i # j => st.mem[i].n # st.mem[j].n /\ st.mem[i].id # st.mem[j].id
\* settings of a location without the samples have no influence on them
ForeignSettings == \A i \in 1..Len(st.mem): LET m == st.mem[i] k == m.src[1]
                                              other == [locsdef EXCEPT ![3 - k].ini = <<>>, ![3 - k].own = <<>>] IN
    Find(other, st.locs, m.n) = m.src /\ Kept(other[k], m.n) = Kept(locsdef[k], m.n)
Wanted == Len(ops) = Depth /\ ops[Depth].op = "load"
EmitBehaviours == (Emit /\ Wanted) => PrintT("@@" \o ToJson([locs |-> locsdef, ops |-> ops]))
=============================================================================
