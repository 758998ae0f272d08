---------------------------- MODULE TraceBounds ----------------------------
(* Executions of bounds operations recorded from the code: after every step   *)
(* the bounds of every object are observed.                                   *)
EXTENDS Bounds, Json, IOUtils
VARIABLES i, objs, files, dead
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
E0 == [o \in {} |-> Empty]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Upd(e, v) == Put(objs, e.o, ApplyLim(v))
Nxt(e) == CASE e.op = "set" -> Upd(e, SetAll(objs[e.o], e.l))
    [] e.op = "new" -> Upd(e, FromLines(e.lines))
    [] e.op = "load" -> Upd(e, FromLines(files[e.f]))
    [] e.op = "mc" -> Upd(e, MkSamples(SetAll(FromLines(e.lines), e.l), e.cols, e.fixed, e.lim, e.all))
    [] e.op = "replace" -> Upd(e, [objs[e.o] EXCEPT !.b = objs[e.from].b, !.order = objs[e.from].order])
    [] e.op = "copy" -> Put(objs, e.o, objs[e.from])
    [] e.op = "lim" -> Upd(e, [objs[e.o] EXCEPT !.lim = Append(@, [n |-> e.n, r |-> e.r])])
    [] e.op = "all" -> Upd(e, [objs[e.o] EXCEPT !.all = e.r])
    [] e.op = "add" -> Upd(e, Set1([objs[e.o] EXCEPT !.cols = Append(@, e.n)], e.n, e.r))
    [] OTHER -> objs                                \* save, and operations that must fail
Want(e) == e.op = "bad"
ObOK(o, x) ==
    /\ \A k \in 1..Len(x.r): BoundOf(o, x.r[k].n) = x.r[k].r
    /\ x.order = o.order
    /\ {f.n : f \in Range_(x.fixed)} = Fixed(o) /\ \A f \in Range_(x.fixed): f.v = o.b[f.n][1]
    /\ o.kind = "mc" => /\ x.cols = o.cols
                        /\ \A k \in 1..Len(x.own): BoundOf(o, x.own[k].n) = x.own[k].r /\ InSeq(x.own[k].n, o.cols)
                        /\ Len(x.own) = Len(o.cols)
OK(e, ob) == /\ e.obs.err = Want(e)
             /\ {x.o : x \in Range_(e.obs.all)} = DOMAIN ob
             /\ \A k \in 1..Len(e.obs.all): ObOK(ob[e.obs.all[k].o], e.obs.all[k])
Init == i = 1 /\ objs = E0 /\ files = <<>> /\ dead = FALSE
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       IF e.op = "start" THEN objs' = E0 /\ files' = <<>> /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<objs, files, dead>>
       ELSE LET nx == Nxt(e) IN
            /\ objs' = nx /\ files' = IF e.op = "save" THEN Append(files, ToLines(objs[e.o])) ELSE files
            /\ IF OK(e, nx) THEN dead' = dead ELSE dead' = TRUE /\ PrintT(<<"MISMATCH", i, nx>>)
Spec == Init /\ [][Step]_<<i, objs, files, dead>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
