------------------------------- MODULE MCGrid -------------------------------
(* All small grid settings.                                                   *)
EXTENDS Grid, Json
CONSTANTS Emit, NGroups
VARIABLE s
ParSets == {<<<<>>>>, <<<<>>, <<"p">>>>, <<<<"q", "p">>>>}
DataSets == {<<<<"a">>>>, <<<<"a">>, <<"b", "a">>>>, <<<<"b">>, <<"a">>>>, <<<<"a", "b">>, <<"c">>>>}
R(n, w) == [names |-> n, want |-> w]
Imps == {<<>>, <<R(<<"b">>, "")>>, <<R(<<"a">>, ""), R(<<"b", "c">>, "")>>, <<R(<<"c">>, "a")>>}
Group(n) == {[name |-> n, params |-> p, data |-> d, imps |-> i] : p \in ParSets, d \in DataSets, i \in Imps}
Alls == {<<>>, <<R(<<"b">>, "")>>, <<R(<<"c">>, "")>>}
Filters == {<<>>, <<R(<<"f">>, "")>>}
Skips == {<<>>, <<"base_a">>, <<"base_a_post_b_f", "base_p_b">>}
Shared == [all : Alls, filters : Filters, skip : Skips, jobs : {<<>>, <<[base |-> "other", par |-> <<"p">>, data |-> <<"a">>]>>}]
With(h, gs) == [groups |-> gs, all |-> h.all, filters |-> h.filters, skip |-> h.skip, jobs |-> h.jobs]
Init == s = With([all |-> <<>>, filters |-> <<>>, skip |-> <<>>, jobs |-> <<>>], <<>>)
\* the groups and the shared settings are chosen one after the other
Next == \/ s.groups = <<>> /\ \E h \in Shared: \E g \in Group("g1"): s' = With(h, <<g>>)
        \/ NGroups = 2 /\ Len(s.groups) = 1 /\ s.skip = <<>> /\ s.jobs = <<>> /\ \E h \in Group("g2"): h.imps # <<>> /\ s' = With(s, Append(s.groups, h))
Spec == Init /\ [][Next]_s
NamesOnce(it) == NoDup(MapSeq(LAMBDA x: x.name, it))
PlacesOnce(it) == NoDup(MapSeq(LAMBDA x: Chain(x), it)) /\ NoDup(MapSeq(LAMBDA x: IniOf(x), it)) /\ NoDup(MapSeq(LAMBDA x: Dist(x), it))
\* a combination that is run is not also importance sampled; each combination is importance sampled once
ImpOnce(it, keys) == \A i, j \in 1..Len(it): (i # j /\ keys[i] = keys[j]) => ~it[i].imp /\ ~it[j].imp
MainComplete(it) == LET m == SelectSeq(it, LAMBDA x: ~x.imp) IN
    {x.name : x \in Range_(m)} = ({x.name : x \in Range_(Requested(s))} \ Range_(s.skip)) \cup {NameOf(j.base, j.par, j.data) : j \in Range_(s.jobs)}
\* every importance run of a run of the grid is there, in this or another order, unless skipped
ImpComplete(it, keys) == LET c == MapSeq(LAMBDA z: z.item, Flat(MapSeq(LAMBDA x: Candidates(s, x), MainItems(s))))
                             sk == {Key(y) : y \in {z \in Range_(c): z.name \in Range_(s.skip)}} IN
    \A k \in 1..Len(c): Key(c[k]) \in Range_(keys) \cup sk
Found(it, keys) == \A k \in 1..Len(it): it[k].imp => Find(it, it[k].base, Range_(it[k].par), Range_(it[k].data)) = it[k].name
Holds == LET it == AllItems(s) keys == MapSeq(LAMBDA x: Key(x), it) IN
    NamesOnce(it) /\ PlacesOnce(it) /\ ImpOnce(it, keys) /\ MainComplete(it) /\ ImpComplete(it, keys) /\ Found(it, keys)
EmitBehaviours == (Emit /\ s.groups # <<>>) => PrintT("@@" \o ToJson(s))
=============================================================================
