--------------------------- MODULE TraceStatFiles ---------------------------
(* Results written and read by the code: after every step all the objects are *)
(* observed (fixed parameters of a best fit: whether derived is not).         *)
EXTENDS StatFiles, Json, IOUtils
VARIABLES i, objs, files, dead
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Nxt(e) == CASE e.op = "mk" -> Put(objs, e.o, e.v)
    [] e.op = "load" -> Put(objs, e.o, IF e.pn = <<>> THEN files[e.f] ELSE Relabel(files[e.f], e.pn))
    [] e.op = "best" -> Put(objs, e.o, IF e.pn = <<>> THEN FromBest(e.b, e.fixed) ELSE Relabel(FromBest(e.b, e.fixed), e.pn))
    [] e.op = "addbest" -> Put(objs, e.o, AddBest(objs[e.o], FromBest(e.b, e.fixed)))
    [] OTHER -> objs
ParOK(p, q, kind) == IF kind = "best" /\ q.fixed THEN [p EXCEPT !.der = FALSE] = [q EXCEPT !.der = FALSE] ELSE p = q
ObjOK(x, o) == /\ x.kind = o.kind
               /\ IF o.kind \in {"marge", "best"}
                  THEN /\ Len(x.pars) = Len(o.pars) /\ \A k \in 1..Len(x.pars): ParOK(x.pars[k], o.pars[k], o.kind)
                       /\ IF o.kind = "marge" THEN x.limits = o.limits ELSE x.like = o.like /\ x.chis = o.chis
                  ELSE x = o
Pairs(d) == {<<k, d[k]>> : k \in DOMAIN d}
QueryOK(e, ob) == CASE e.op = "dict" -> {<<x.n, x.v>> : x \in Range_(e.obs.d)} = Pairs(DictOf(ob[e.o], e.derived)) /\ e.obs.like = ob[e.o].like
    [] e.op = "chi" -> e.obs.v = ChiOf(ob[e.o], e.kind, e.name)
    [] e.op = "kinds" -> /\ {e.obs.l[k].kind : k \in 1..Len(e.obs.l)} = {ob[e.o].chis[k].kind : k \in 1..Len(ob[e.o].chis)}
                         /\ NoDup([k \in 1..Len(e.obs.l) |-> e.obs.l[k].kind])
                         /\ \A k \in 1..Len(e.obs.l): e.obs.l[k].c = KindOf(ob[e.o], e.obs.l[k].kind)
    [] e.op = "point" -> {<<x.n, x.v>> : x \in Range_(e.obs.d)} =
                            {<<p.n, p.v>> : p \in {z \in Range_(e.vals): e.derived \/ ~z.der}} \cup (IF e.fixed THEN {<<p.n, p.v>> : p \in Range_(e.fx)} ELSE {})
    [] OTHER -> TRUE
OK(e, ob) == IF e.obs.err THEN FALSE
             ELSE /\ {x.o : x \in Range_(e.obs.all)} = DOMAIN ob
                  /\ \A k \in 1..Len(e.obs.all): ObjOK(e.obs.all[k].v, ob[e.obs.all[k].o])
                  /\ QueryOK(e, ob)
                  /\ (e.op = "save" => e.f = Len(files) + 1 \/ e.f \in 1..Len(files))
E0 == [o \in {} |-> 0]
Init == i = 1 /\ objs = E0 /\ files = <<>> /\ dead = FALSE
SetFile(k, v) == IF k = Len(files) + 1 THEN Append(files, v) ELSE [files EXCEPT ![k] = v]
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       IF e.op = "start" THEN objs' = E0 /\ files' = <<>> /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<objs, files, dead>>
       ELSE LET nx == Nxt(e) IN
            /\ objs' = nx /\ files' = IF e.op = "save" THEN SetFile(e.f, Stored(objs[e.o])) ELSE files
            /\ IF OK(e, nx) THEN dead' = dead ELSE dead' = TRUE /\ PrintT(<<"MISMATCH", i, nx>>)
Spec == Init /\ [][Step]_<<i, objs, files, dead>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
