----------------------------- MODULE TraceFiles -----------------------------
(* Recorded look-ups of chain files.  "tree" sets the directory tree; the    *)
(* other events are queries whose observed result must be the specified one. *)
EXTENDS Files, Json, IOUtils
VARIABLES i, tree, dead
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == i = 1 /\ tree = [d \in {""} |-> {}] /\ dead = FALSE
ToTree(ds) == [d \in {ds[k].d : k \in 1..Len(ds)} |-> UNION {Range_(ds[k].files) : k \in {j \in 1..Len(ds): ds[j].d = d}}]
NamedRoot(t, r) == {p \in AllChains(t): BaseName(p) = r}
Exp(e) ==
    CASE e.op = "chainfiles" -> ChainFilesOf(tree[DirName(e.root)], BaseName(e.root), e.sep, e.ext, e.first, e.last, e.incl, e.excl)
      [] e.op = "has" -> HasChain(tree, e.root)
      [] e.op = "find" -> IF HasChain(tree, e.root) THEN {e.root}
                          ELSE IF e.sub THEN {PathJoin(d, e.root) : d \in Found(tree, e.root)} ELSE {}
      [] e.op = "roots" -> RootsIn(tree, e.d)
      [] e.op = "naming" -> AllChains(tree)
      [] e.op = "resolve" -> {p \in AllChains(tree): Normed(BaseName(p)) = Normed(e.name)}
Good(e) == e.obs.err = "" /\
    CASE e.op = "chainfiles" -> NoDup(e.obs.files) /\ Range_(e.obs.files) = Exp(e)
      [] e.op = "has" -> e.obs.has = Exp(e)
      [] e.op = "find" -> IF Exp(e) = {} THEN e.obs.path = "" ELSE e.obs.path \in Exp(e)
      [] e.op = "roots" -> NoDup(e.obs.roots) /\ Range_(e.obs.roots) = Exp(e)
      [] e.op = "naming" -> /\ GoodNaming(tree, e.obs.naming)
                            \* the names listed for each first-level folder are those of the chains in it
                            /\ \A k \in 1..Len(e.obs.bydir): Range_(e.obs.bydir[k].names) =
                                 {e.obs.naming[j][1] : j \in {j \in 1..Len(e.obs.naming):
                                       StartsWith(e.obs.naming[j][2], e.obs.bydir[k].d \o "/")}}
      \* a name with its tags in another order finds the chain if there is just one such
      [] e.op = "resolve" -> IF Exp(e) = {} THEN e.obs.path = ""
                             ELSE IF Cardinality(Exp(e)) = 1 THEN e.obs.path \in Exp(e)
                             ELSE e.obs.path \in {"", "ambiguous"}
Step ==
    /\ i <= Len(Trace) /\ i' = i + 1
    /\ LET e == Trace[i] IN
       IF e.op = "tree" THEN tree' = ToTree(e.dirs) /\ dead' = FALSE
       ELSE /\ tree' = tree
            /\ IF dead \/ Good(e) THEN dead' = dead
               ELSE dead' = TRUE /\ PrintT(<<"MISMATCH", i, Exp(e)>>)
Spec == Init /\ [][Step]_<<i, tree, dead>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
