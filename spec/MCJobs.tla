------------------------------- MODULE MCJobs -------------------------------
(* Histories of submissions, progress of the batch system and deletions.      *)
EXTENDS Jobs, Json
CONSTANTS Depth, Emit
VARIABLES index, queue, hist, gone, before
vars == <<index, queue, hist, gone, before>>
NumIds == 3
Id(k) == <<"101", "102", "103">>[k]
Sub == Len(SelectSeq(hist, LAMBDA h: h.op = "submit"))
Batches == {[name |-> "a", roots |-> <<"a">>], [name |-> "ab", roots |-> <<"a", "b">>], [name |-> "a", roots |-> <<"b">>]}
Init == index = <<>> /\ queue = <<>> /\ hist = <<>> /\ gone = {} /\ before = <<index, queue>>
D(ids, roots, names, byrange, mn, mx, confirm, running, queued) == [op |-> "delete", ids |-> ids, roots |-> roots, names |-> names, byrange |-> byrange,
   mn |-> mn, mx |-> mx, confirm |-> confirm, running |-> running, queued |-> queued]
Dels == {D(<<Id(k)>>, <<>>, <<>>, FALSE, 0, 0, TRUE, r, q) : k \in 1..2, r \in {FALSE, TRUE}, q \in {FALSE}}
     \cup {D(<<>>, <<r>>, <<>>, FALSE, 0, 0, c, FALSE, FALSE) : r \in {"a", "b"}, c \in BOOLEAN}
     \cup {D(<<>>, <<>>, <<"a">>, FALSE, 0, 0, TRUE, FALSE, FALSE), D(<<>>, <<>>, <<>>, TRUE, 101, 102, TRUE, FALSE, TRUE), D(<<>>, <<>>, <<>>, TRUE, 102, 999, TRUE, FALSE, FALSE)}
Next == /\ Len(hist) < Depth /\ before' = <<index, queue>>
        /\ \/ \E b \in Batches: Sub < NumIds /\ LET id == Id(Sub + 1) IN
                /\ index' = AddJob(index, [id |-> id, num |-> 101 + Sub, name |-> b.name, roots |-> b.roots])
                /\ queue' = Append(queue, [id |-> id, st |-> "Q", own |-> TRUE]) /\ gone' = gone
                /\ hist' = Append(hist, [op |-> "submit", name |-> b.name, roots |-> b.roots])
           \/ \E k \in 1..Len(queue): queue[k].st = "Q" /\ queue' = [queue EXCEPT ![k].st = "R"] /\ UNCHANGED <<index, gone>> /\ hist' = Append(hist, [op |-> "start", id |-> queue[k].id])
           \/ \E k \in 1..Len(queue): queue' = SelectIdx(queue, LAMBDA j: j # k) /\ UNCHANGED <<index, gone>> /\ hist' = Append(hist, [op |-> "finish", id |-> queue[k].id])
           \/ \E e \in Dels: /\ index # <<>> /\ index' = AfterDelete(index, queue, e) /\ queue' = Cancel(queue, ToCancel(index, queue, e))
                             /\ gone' = gone \cup ToCancel(index, queue, e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
Ids == Range_(IdsOf(index))
\* every active job stays reachable by id, and by the name of each of its runs unless a later job has it
NoDupIds == NoDup(IdsOf(index))
ActiveIndexed == \A k \in 1..Len(queue): HasId(index, queue[k].id)
Reachable == \A k \in 1..Len(index): \A r \in Range_(index[k].roots): \E m \in k..Len(index): IdOfRoot(index, r) = {index[m].id}
NamesLive == \A r \in {"a", "b"}: IdOfRoot(index, r) \subseteq Ids /\ IdOfName(index, r) \subseteq Ids
\* a job disappears from the queue only if it finished or was named and cancelled; nothing happens without confirmation
CancelOnlyNamed == (Len(hist) > 0 /\ hist[Len(hist)].op = "delete") => LET e == hist[Len(hist)] b == before IN
    /\ \A k \in 1..Len(b[2]): (~HasId(queue, b[2][k].id)) => b[2][k].id \in Named(b[1], e)
    /\ (~e.confirm => index = b[1] /\ queue = b[2])
    /\ \A k \in 1..Len(b[1]): b[1][k].id \notin Named(b[1], e) => HasId(index, b[1][k].id)
EmitBehaviours == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson([ops |-> hist]))
=============================================================================
