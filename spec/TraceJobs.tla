------------------------------ MODULE TraceJobs ------------------------------
(* Job submissions, queries and deletions recorded from the code, with a      *)
(* stand-in for the batch system.                                             *)
EXTENDS Jobs, Json, IOUtils
VARIABLES i, index, queue, dead
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Job(e) == [id |-> e.id, num |-> e.num, name |-> e.name, roots |-> e.roots]
\* possible indexes after an event
Nxt(e) == CASE e.op = "submit" -> IF e.kind = "ok" THEN {AddJob(index, Job(e))} ELSE {index}
    [] e.op = "delete" -> {AfterDelete(index, queue, e)}
    [] e.op = "delnames" -> {DelIds(index, UNION {IdOfName(index, n) : n \in Range_(e.names)})}
    [] e.op = "runbatch" -> {index \o NewJobs(index, queue, e)}
    [] e.op = "add" -> {AddJob(index, Job(e))}
    [] e.op = "crashadd" -> {index, AddJob(index, Job(e))}
    [] e.op = "crashdel" -> {index, DelIds(index, UNION {IdOfName(index, n) : n \in Range_(e.names)})}
    [] e.op = "crashdelete" -> {index, AfterDelete(index, queue, e)}
    [] OTHER -> {index}
NxtQ(e) == CASE e.op = "submit" /\ e.kind = "ok" -> Append(queue, [id |-> e.id, st |-> "Q", own |-> TRUE])
    [] e.op = "delete" -> Cancel(queue, ToCancel(index, queue, e))
    [] e.op = "runbatch" -> queue \o MapSeq(LAMBDA j: [id |-> j.id, st |-> "Q", own |-> TRUE], NewJobs(index, queue, e))
    [] e.op = "crashdelete" -> Cancel(queue, Range_(e.obs.cancelledids))
    [] e.op = "env" -> e.queue
    [] OTHER -> queue
IdxOK(ix, o) ==
    /\ o.seq = IdsOf(ix) /\ Range_(o.ids) = Range_(IdsOf(ix))
    /\ {x.n : x \in Range_(o.names)} = AllNames(ix) /\ \A x \in Range_(o.names): {x.id} = IdOfName(ix, x.n)
    /\ {x.n : x \in Range_(o.roots)} = AllRoots(ix) /\ \A x \in Range_(o.roots): {x.id} = IdOfRoot(ix, x.n)
    /\ \A x \in Range_(o.jobs): x.name = JobOf(ix, x.id).name /\ x.roots = JobOf(ix, x.id).roots
\* a job script o runs exactly the runs of j, with the requested resources
ScriptOK(e, o, j, inis, seq) == LET R == Res(ResOf(e.res), Len(j.roots), seq) IN
    /\ Len(o.cmds) = Len(j.roots)
    /\ \A k \in 1..Len(o.cmds): LET c == o.cmds[k] IN c.ini = inis[k] /\ c.prog = Pick(e.prog) /\ c.np = R.NUMMPI /\ c.bg = ~seq /\ c.base = j.roots[k]
    /\ o.res = R /\ o.wall = Pick(e.wall) /\ o.queue = Pick(e.que) /\ o.jobname = j.name
SubmitOK(e, o) ==
    IF e.kind = "bad" THEN o.err /\ ~o.called
    ELSE IF e.kind = "fail" THEN o.err
    ELSE /\ ~o.err /\ o.called = (e.kind \in {"ok", "empty"}) /\ Len(o.subs) = (IF e.kind = "dry" THEN 0 ELSE 1)
         /\ (e.kind # "dry") => ScriptOK(e, o.subs[1], e, e.inis, e.seq)
RunOK(e, o) == LET jobs == NewJobs(index, queue, e) IN
    /\ ~o.err /\ Len(o.subs) = Len(jobs)
    /\ \A k \in 1..Len(jobs): ScriptOK(e, o.subs[k], jobs[k], MapSeq(LAMBDA r: e.dir \o r \o ".ini", jobs[k].roots), e.comb # "")
Reply(ix, e) == LET l == Listed(ix, queue, e.running, e.queued) IN
    /\ ~e.obs.err /\ e.obs.lids = MapSeq(LAMBDA q: q.id, l)
    /\ e.obs.lnames = MapSeq(LAMBDA q: JobOf(ix, q.id).name, l) /\ e.obs.lroots = MapSeq(LAMBDA q: JobOf(ix, q.id).roots, l)
OK(ix, e) == LET o == e.obs IN
    /\ IdxOK(ix, o.index)
    /\ CASE e.op = "submit" -> SubmitOK(e, o)
         [] e.op = "delete" -> ~o.err /\ o.cancelled = SetToSortSeq({JobOf(index, id).num : id \in ToCancel(index, queue, e)}, <)
         [] e.op = "crashdelete" -> ~o.err /\ NoDup(o.cancelled) /\ Range_(o.cancelled) \subseteq {JobOf(index, id).num : id \in ToCancel(index, queue, e)}
         [] e.op = "runbatch" -> RunOK(e, o)
         [] e.op = "query" -> Reply(ix, e)
         [] e.op = "qnames" -> ~o.err /\ o.lroots = Flat(MapSeq(LAMBDA q: JobOf(ix, q.id).roots, Listed(ix, queue, e.running, e.queued)))
         [] e.op = "running" -> ~o.err /\ o.lids = MapSeq(LAMBDA q: q.id, SelectSeq(Listed(ix, queue, e.running, e.queued),
                                    LAMBDA q: e.all \/ \E r \in Range_(JobOf(ix, q.id).roots): r \in Range_(e.items)))
         [] OTHER -> ~o.err
Init == i = 1 /\ index = <<>> /\ queue = <<>> /\ dead = FALSE
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       IF e.op = "start" THEN index' = <<>> /\ queue' = <<>> /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<index, queue, dead>>
       ELSE LET S == {ix \in Nxt(e): OK(ix, e)} IN
            IF S # {} THEN index' = (CHOOSE ix \in S: TRUE) /\ queue' = NxtQ(e) /\ dead' = dead
            ELSE UNCHANGED <<index, queue>> /\ dead' = TRUE /\ PrintT(<<"MISMATCH", i, Nxt(e)>>)
Spec == Init /\ [][Step]_<<i, index, queue, dead>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
