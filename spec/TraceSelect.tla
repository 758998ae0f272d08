------------------------------ MODULE TraceSelect ------------------------------
(* Runs selected, listed, submitted and analysed by the code.                   *)
EXTENDS Select, Json, IOUtils
VARIABLES i, items, tags, st
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
NamesOf(ss) == MapSeq(LAMBDA x: x.name, ss)
Where(T(_)) == NamesOf(SelectSeq(items, LAMBDA x: T(x)))
KOf(obs, n) == IF \E m \in 1..Len(obs): obs[m].n = n THEN obs[CHOOSE m \in 1..Len(obs): obs[m].n = n].k ELSE 0
Expected(e) ==
    CASE e.op = "api" -> Where(LAMBDA x: Matches(x, e.f) /\ (e.exist => Exists(st[x.name])))
      [] e.op = "tags" -> LET l == SelectSeq(items, LAMBDA x: Matches(x, e.f) /\ (e.exist => Exists(st[x.name]))) IN
                          MapSeq(LAMBDA t: [t |-> t, l |-> NamesOf(SelectSeq(l, LAMBDA x: x.ptag = t))], SelectSeq(tags, LAMBDA t: \E k \in 1..Len(l): l[k].ptag = t))
      [] e.op = "files" -> MapSeq(LAMBDA x: LET k == KOf(e.obs, x.name) IN
                             [n |-> x.name, k |-> k, there |-> ChainsThere(st[x.name]), first |-> [m \in 1..k |-> m],
                              all |-> Len(ChainsThere(st[x.name])) >= k], items)
      [] e.op = "listgrid" -> MapSeq(LAMBDA x: [n |-> x.name, g |-> x.group], ByParams(SelectSeq(items, LAMBDA x: Listed(x, st, e.f, e.o)), tags))
      [] e.op = "check" -> [missing |-> Where(LAMBDA x: Missing(x, st, e.f, e.o)), unconv |-> Where(LAMBDA x: NotConverged(x, st, e.f, e.o)), unfinished |-> <<>>, stuck |-> <<>>]
      [] e.op = "unfinished" -> [missing |-> <<>>, unconv |-> <<>>, unfinished |-> Where(LAMBDA x: Unfinished(x, st, e.f, e.o)), stuck |-> Where(LAMBDA x: StuckUnfinished(x, st, e.f, e.o))]
      [] e.op = "stuck" -> [missing |-> <<>>, unconv |-> <<>>, unfinished |-> <<>>, stuck |-> Where(LAMBDA x: StuckRun(x, st, e.f, e.o))]
      [] e.op = "getdist" -> [ran |-> Where(LAMBDA x: Analysed(x, st, e.f, e.o)), inis |-> MapSeq(LAMBDA x: IniFor(x, st, e.o), SelectSeq(items, LAMBDA x: Matches(x, e.f)))]
      [] e.op = "runbatch" -> [subs |-> MapSeq(LAMBDA x: (IF x.imp THEN "postIniFiles/" ELSE "iniFiles/") \o x.name \o Variant(e.o), Submitted(items, st, e.f, e.o)),
                               applied |-> NamesOf(Applied(items, st, e.f, e.o))]
      [] OTHER -> e.obs
Init == i = 1 /\ items = <<>> /\ tags = <<>> /\ st = <<>>
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       /\ IF e.op = "grid" THEN items' = e.items /\ tags' = e.tags ELSE UNCHANGED <<items, tags>>
       /\ IF e.op = "status" THEN st' = e.st ELSE UNCHANGED st
       /\ IF ~e.err /\ e.obs = Expected(e) THEN TRUE ELSE PrintT(<<"MISMATCH", i, Expected(e)>>)
Spec == Init /\ [][Step]_<<i, items, tags, st>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
