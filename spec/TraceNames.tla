----------------------------- MODULE TraceNames -----------------------------
(* Edits and look-ups of parameter lists recorded from the code.             *)
EXTENDS Names, Json, IOUtils
VARIABLES i, st, dead            \* st: possible states of the list
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
ToPs(l) == MapSeq(LAMBDA p: [name |-> p.name, label |-> p.label, comment |-> p.comment, derived |-> p.derived, ren |-> Range_(p.ren)], l)
Next_(ps, e) == CASE e.op = "new" -> {ToPs(e.ps)}
    [] e.op = "add" -> {Append(ps, ToPs(<<e.p>>)[1])}
    [] e.op = "del" -> {DelIdx(ps, Range_(e.idx))}
    [] e.op = "filter" -> {Filter(ps, Range_(e.keep))}
    [] e.op = "filterby" -> {SelectIdx(ps, LAMBDA k: Lookup(ToPs(e.by), <<>>, ps[k].name) # {})}
    [] e.op = "renames" -> IF Updated(ps, e.d, ToPs(e.obs.ps)) THEN {ToPs(e.obs.ps)} ELSE {}
    [] e.op = "reload" -> {AsFile(ps)}
    [] e.op = "labels" -> {Relabel(ps, e.labels)}
    [] e.op = "labelsfrom" -> LabelsFrom(ps, ToPs(e.by), e.der)
    [] OTHER -> {ps}
NonDer(ps) == SelectSeq(ps, LAMBDA p: ~p.derived)
Query(ps, e) == CASE e.op = "par" -> IF Lookup(ps, e.d, e.n) = {} THEN (IF e.error THEN e.obs.err ELSE ~e.obs.err /\ e.obs.i = 0) ELSE ~e.obs.err /\ e.obs.i \in Lookup(ps, e.d, e.n)
    [] e.op = "pars" -> IF e.error /\ MissingName(ps, e.d, e.ns) THEN e.obs.err ELSE ~e.obs.err /\ e.obs.l \in LookupList(ps, e.d, e.ns)
    [] e.op = "num" -> e.obs.i = OfName(ps, e.n) - 1 /\ e.obs.has = (OfName(ps, e.n) > 0)
    [] e.op = "lists" -> /\ e.obs.names = Names_(ps) /\ e.obs.labels = MapSeq(LAMBDA p: p.label, ps)
                         /\ e.obs.running = Names_(NonDer(ps)) /\ e.obs.nder = Len(ps) - Len(NonDer(ps)) /\ e.obs.n = Len(ps)
                         /\ e.obs.derived = Names_(SelectSeq(ps, LAMBDA p: p.derived))
    [] OTHER -> ~e.obs.err /\ ToPs(e.obs.ps) = ps
Init == i = 1 /\ st = {} /\ dead = FALSE
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       IF e.op = "start" THEN st' = {<<>>} /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<st, dead>>
       ELSE LET nx == UNION {Next_(ps, e) : ps \in st} IN
            /\ st' = {ps \in nx: Query(ps, e)}
            /\ IF st' # {} THEN dead' = dead ELSE dead' = TRUE /\ PrintT(<<"MISMATCH", i, nx>>)
Spec == Init /\ [][Step]_<<i, st, dead>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
