----------------------------- MODULE TraceStore -----------------------------
(* Executions of save, load and in-memory operations recorded from the code. *)
EXTENDS Store, Json, IOUtils
VARIABLES i, disk, obs, dead
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Has(e, f) == f \in DOMAIN e
ToBounds(l) == FoldLeft(LAMBDA b, x: AddBound(b, x.n, x.r), [n \in {} |-> NoBounds], l)
ToDisk(e) == [chains |-> e.chains, info |-> e.info, bounds |-> ToBounds(e.bounds), label |-> e.label, burned |-> e.burned, wden |-> e.wden]
\* an object made from arrays: no files, no burn-in marks
ToObj(e) == LET d == ToDisk(e) IN
    IF e.mode = "single" THEN LET o == MkObj(d, e.chains) IN [o EXCEPT !.st.mode = "single"] ELSE MkObj(d, e.chains)
RowEq(r, o) == r.w = o.w /\ r.l = o.l /\ r.x = o.x
ChainsEq(a, b) == Len(a) = Len(b) /\ \A c \in 1..Len(a): Len(a[c]) = Len(b[c]) /\ \A k \in 1..Len(a[c]): RowEq(a[c][k], b[c][k])
Match(ob, o) ==
    /\ o.err = ""
    /\ Has(o, "chains") => ChainsEq(IF ob.st.mode = "single" THEN <<Rows(ob.st)>> ELSE NonEmpty(ob.st.chains), NonEmpty(o.chains))
    /\ ob.info = o.info
    /\ \A k \in 1..Len(o.bounds): BoundOf(ob.bounds, o.bounds[k].n) = o.bounds[k].r
    /\ ob.label = o.label /\ ob.burned = o.burned
\* what a script reports about the samples it used
MatchRaw(d, chs, o) ==
    LET r == Flat(chs) IN o.err = "" /\ o.rows = Len(r) /\ o.weight = SumSeq(MapSeq(LAMBDA x: x.w, r))
\* files written when a chain set is copied (n leading rows gone from each, rounding of the fraction either way)
CopyChains(d, ign) ==
    IF ign.num = 0 \/ d.burned THEN {d.chains}
    ELSE {[c \in 1..Len(d.chains) |-> DropN(d.chains[c], f[c])] : f \in SeqProd([c \in 1..Len(d.chains) |->
              {n \in 0..Len(d.chains[c]): n * ign.den <= Len(d.chains[c]) * ign.num + ign.den - 1
                                         /\ n * ign.den >= Len(d.chains[c]) * ign.num - ign.den + 1}])}
CopyOK(d, e) == LET o == e.obs c == IF e.imp THEN NoCut ELSE e.ign IN
    /\ o.err = "" /\ o.chains \in CopyChains(d, c) /\ o.same
    /\ o.burned = (d.burned \/ c.num > 0)
Init == i = 1 /\ disk = [r \in {} |-> 0] /\ obs = {} /\ dead = FALSE
Fail(x) == dead' = TRUE /\ PrintT(<<"MISMATCH", i, x>>)
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       IF e.op = "start" THEN disk' = [r \in {} |-> 0] /\ obs' = {} /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<disk, obs, dead>>
       ELSE IF e.op = "disk" THEN /\ disk' = [r \in DOMAIN disk \cup {e.root} |-> IF r = e.root THEN ToDisk(e) ELSE disk[r]]
                                  /\ UNCHANGED <<obs, dead>>
       ELSE IF e.op = "script" THEN
           /\ UNCHANGED <<disk, obs>>
           /\ IF \E chs \in LoadRaw(disk[e.root], e.ign): MatchRaw(disk[e.root], chs, e.obs) THEN dead' = dead
              ELSE Fail(LoadRaw(disk[e.root], e.ign))
       ELSE IF e.op = "copygrid" THEN
           /\ UNCHANGED <<disk, obs>>
           /\ IF CopyOK(disk[e.root], e) THEN dead' = dead ELSE Fail(CopyChains(disk[e.root], e.ign))
       ELSE IF e.op = "save" THEN
           /\ obs' = {o \in obs: Match(o, e.obs)}          \* the object itself must be unchanged
           /\ disk' = [r \in DOMAIN disk \cup {e.root} |-> IF r = e.root THEN Save(CHOOSE o \in obs: TRUE, e.single, e.mark) ELSE disk[r]]
           /\ IF obs' # {} THEN dead' = dead ELSE Fail(obs)
       ELSE LET nx == CASE e.op = "mem" -> {ToObj(e)}
                        [] e.op = "load" -> Load(disk[e.root], e.ign, e.jb)
                        [] OTHER -> UNION {MemOps(o, e) : o \in obs}
            IN /\ disk' = disk /\ obs' = {o \in nx: Match(o, e.obs)}
               /\ IF obs' # {} THEN dead' = dead ELSE Fail(nx)
Spec == Init /\ [][Step]_<<i, disk, obs, dead>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
