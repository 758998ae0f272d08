------------------------------ MODULE TraceGrid ------------------------------
(* Grids made by the code.                                                    *)
EXTENDS GridIni, Json, IOUtils
VARIABLES i, s, items
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
View(x) == [name |-> x.name, par |-> x.par, data |-> x.data, imp |-> x.imp, parent |-> x.parent, group |-> x.group, base |-> x.base, paramtag |-> x.paramtag,
            datatag |-> x.datatag, rel |-> x.rel, chain |-> Chain(x), dist |-> Dist(x), ini |-> IniOf(x)]
Existing(e) == LET keep == {items[k].name : k \in {j \in 1..Len(items): ~items[j].imp /\ items[j].name \in Range_(e.exist)}} IN
    SelectSeq(items, LAMBDA x: LET m == IF x.nested THEN items[CHOOSE j \in 1..Len(items): items[j].name = x.parent].parent ELSE IF x.imp THEN x.parent ELSE x.name IN m \in keep)
AsFn(kv) == [k \in {x.k : x \in Range_(kv)} |-> (CHOOSE x \in Range_(kv): x.k = k).v]
Expected(e) == CASE e.op = "make" -> MapSeq(LAMBDA x: View(x), AllItems(e.s))
    [] e.op = "read" -> MapSeq(LAMBDA x: View(x), Existing(e))
    [] e.op = "items" -> MapSeq(LAMBDA x: x.name, SelectSeq(items, LAMBDA x: e.imp \/ ~x.imp))
    [] e.op = "has" -> \E k \in 1..Len(items): items[k].name = e.name /\ ~items[k].imp
    [] e.op = "root" -> IF \E k \in 1..Len(items): items[k].name = e.name THEN e.name ELSE ""
    [] e.op = "find" -> Find(SelectSeq(items, LAMBDA x: e.imp \/ ~x.imp), e.base, Range_(e.par), Range_(e.data))
    [] e.op = "files" -> MapSeq(LAMBDA w: w.f, Written(s))
    [] e.op = "file" -> LET W == {w \in Range_(Written(s)): w.f = e.f} IN IF W = {} THEN [k \in {"unexpected file"} |-> ""] ELSE (CHOOSE w \in W: TRUE).c
Agrees(e) == CASE e.op = "files" -> Range_(e.obs) = Range_(Expected(e)) /\ Len(e.obs) = Len(Expected(e))
    [] e.op = "file" -> AsFn(e.obs) = Expected(e)
    [] OTHER -> e.obs = Expected(e)
Init == i = 1 /\ s = <<>> /\ items = <<>>
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       /\ IF e.op = "make" THEN s' = e.s /\ items' = AllItems(e.s) ELSE UNCHANGED <<s, items>>
       /\ IF ~e.err /\ Agrees(e) THEN TRUE ELSE PrintT(<<"MISMATCH", i, Expected(e)>>)
Spec == Init /\ [][Step]_<<i, s, items>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
