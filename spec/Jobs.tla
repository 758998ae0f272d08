-------------------------------- MODULE Jobs --------------------------------
(* The job index of a grid and the batch system.                              *)
(* index: jobs in order of submission [id, num, name, roots]; queue: what the *)
(* batch system lists, in order: [id, st, user] (st "Q" queued, "R" running;  *)
(* own: belongs to the user).                                                 *)
EXTENDS Str
IdsOf(index) == MapSeq(LAMBDA j: j.id, index)
AddJob(index, j) == Append(index, j)
DelIds(index, S) == SelectSeq(index, LAMBDA j: j.id \notin S)
\* the job of a name or run is the one submitted last
LastWith(index, P(_)) == LET S == {k \in 1..Len(index): P(index[k])} IN IF S = {} THEN {} ELSE {index[MaxOf(S)].id}
IdOfName(index, n) == LastWith(index, LAMBDA j: j.name = n)
IdOfRoot(index, r) == LastWith(index, LAMBDA j: \E k \in 1..Len(j.roots): j.roots[k] = r)
AllRoots(index) == UNION {Range_(index[k].roots) : k \in 1..Len(index)}
AllNames(index) == {index[k].name : k \in 1..Len(index)}
HasId(index, id) == \E k \in 1..Len(index): index[k].id = id
\* what a query of the queue reports: the user's listed jobs that are in the index
Listed(index, queue, run, que) == SelectSeq(queue, LAMBDA q: q.own /\ HasId(index, q.id) /\ (IF q.st = "R" THEN run ELSE que))
JobOf(index, id) == index[CHOOSE k \in 1..Len(index): index[k].id = id]
\* ids that a request to delete names
Named(index, e) == ({x : x \in Range_(e.ids)}
    \cup UNION {IdOfRoot(index, r) : r \in Range_(e.roots)} \cup UNION {IdOfName(index, n) : n \in Range_(e.names)}
    \cup {index[k].id : k \in {i \in 1..Len(index): e.byrange /\ index[i].num >= e.mn /\ index[i].num <= e.mx}})
    \cap Range_(IdsOf(index))
\* cancelled: named and active (of the requested kind); active jobs of the other kind stay in the index
ToCancel(index, queue, e) == IF ~e.confirm THEN {} ELSE Named(index, e) \cap {q.id : q \in Range_(Listed(index, queue, ~e.queued, ~e.running))}
Kept(index, queue, e) == {q.id : q \in Range_(Listed(index, queue, TRUE, TRUE))} \ ToCancel(index, queue, e)
AfterDelete(index, queue, e) == IF ~e.confirm THEN index ELSE DelIds(index, Named(index, e) \ Kept(index, queue, e))
Cancel(queue, S) == SelectSeq(queue, LAMBDA q: q.id \notin S)
\* resources of a submission of n runs: per node "cores" cores and "chains" chains of each run
Accepts(r) == r.cores % (r.chains * r.perjob) = 0
Res(r, n, seq) == LET runs == IF seq THEN 1 ELSE n omp == r.cores \div (r.chains * runs) IN
    [NUMNODES |-> r.nodes, NUMRUNS |-> runs, OMP |-> omp, NUMMPI |-> r.nodes * r.chains, CHAINSPERNODE |-> r.chains,
     MPIPERNODE |-> r.chains * runs, PPN |-> r.chains * runs * omp, NUMTASKS |-> r.nodes * r.chains * runs,
     NUMSLOTS |-> r.chains * runs * omp * r.nodes, ONERUN |-> IF n = 1 \/ seq THEN 1 ELSE 0, MEM |-> r.mem]
\* a value that may be given as argument, in the template, in the environment (in that order), else the default
PickN(v) == LET S == {k \in 1..3: v[k] # -1} IN IF S = {} THEN v[4] ELSE v[MinOf(S)]
ResOf(r) == [nodes |-> PickN(r.nodes), chains |-> PickN(r.chains), cores |-> PickN(r.cores), perjob |-> PickN(r.perjob), mem |-> PickN(r.mem)]
\* runs submitted by runbatch: in groups of "per" runs, or all in one job "comb"; not those that are queued or running if asked
QueuedRoots(index, queue) == UNION {Range_(JobOf(index, q.id).roots) : q \in Range_(Listed(index, queue, TRUE, TRUE))}
ToRun(index, queue, e) == SelectSeq(e.items, LAMBDA r: ~(e.notq /\ r \in QueuedRoots(index, queue)))
Groups(s, n) == [k \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (k - 1) * n + 1, Min2(k * n, Len(s)))]
Batches_(index, queue, e) == LET r == ToRun(index, queue, e) IN IF e.comb # "" THEN (IF r = <<>> THEN <<>> ELSE <<r>>) ELSE Groups(r, e.per)
NewJobs(index, queue, e) == LET b == Batches_(index, queue, e) IN
    [k \in 1..Len(b) |-> [id |-> e.ids[k], num |-> e.nums[k], name |-> IF e.comb # "" THEN e.comb ELSE Join(b[k], "-"), roots |-> b[k]]]
Pick(v) == LET S == {k \in 1..3: v[k] # ""} IN IF S = {} THEN v[4] ELSE v[MinOf(S)]
=============================================================================
