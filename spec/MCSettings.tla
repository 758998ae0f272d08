----------------------------- MODULE MCSettings -----------------------------
(* Histories of two settings objects and the files they are saved to.        *)
EXTENDS Ini, Json
CONSTANTS Depth, Emit
VARIABLES objs, disk, hist
V(t, s) == [t |-> t, s |-> s]
E0 == [params |-> [k \in {} |-> V("s", "")], order |-> <<>>]
Init == objs = <<SetKey(SetKey(E0, "b", V("s", "x %T%")), "a", V("i", "3")), E0>> /\ disk = <<>> /\ hist = <<>>
Ops == {[op |-> "set", o |-> o, k |-> k, v |-> v] : o \in 1..2, k \in {"a", "c"}, v \in {V("b", "T"), V("b", "F"), V("l", "1 2"), V("s", ""), V("f", "0.5")}}
       \cup {[op |-> "del", o |-> o, ks |-> <<"b">>] : o \in 1..2} \cup {[op |-> "tags", o |-> 1, tag |-> "%T%", txt |-> "y"]}
Do(e) == objs' = CASE e.op = "set" -> [objs EXCEPT ![e.o] = SetKey(@, e.k, e.v)]
                   [] e.op = "del" -> [objs EXCEPT ![e.o] = DelKey(@, "b")]
                   [] e.op = "tags" -> [objs EXCEPT ![e.o] = Tags(@, e.tag, e.txt)]
Next == /\ Len(hist) < Depth
        /\ \/ \E e \in Ops: Do(e) /\ hist' = Append(hist, e) /\ disk' = disk
           \/ \E o \in 1..2: Len(disk) < 2 /\ (\E r \in FileKeyOrders(objs[o]): disk' = Append(disk, Reload(objs[o], r))) /\ objs' = objs
                  /\ hist' = Append(hist, [op |-> "save", o |-> o, f |-> Len(disk) + 1])
           \/ \E o \in 1..2, f \in 1..Len(disk): objs' = [objs EXCEPT ![o] = disk[f]] /\ disk' = disk /\ hist' = Append(hist, [op |-> "load", o |-> o, f |-> f])
Spec == Init /\ [][Next]_<<objs, disk, hist>>
\* reading back a saved object gives the same keys and texts, in the order read
RoundTrip == \A o \in 1..2: \A r \in FileKeyOrders(objs[o]): LET x == Reload(objs[o], r) IN
    /\ DOMAIN x.params = DOMAIN objs[o].params /\ \A k \in DOMAIN x.params: x.params[k].s = objs[o].params[k].s
    /\ SelectSeq(x.order, LAMBDA k: k \in Range_(ReadKeys(objs[o]))) = ReadKeys(objs[o])
\* and saving what was read gives the same file again
Stable == \A f \in 1..Len(disk): LET d == disk[f] IN FileKeyOrders(d) = {d.order} /\ Reload(d, d.order) = [d EXCEPT !.params = [k \in DOMAIN d.params |-> AsText(d.params[k])]]
EmitBehaviours == (Emit /\ Len(hist) = Depth /\ hist[Depth].op = "load") => PrintT("@@" \o ToJson(hist))
=============================================================================
