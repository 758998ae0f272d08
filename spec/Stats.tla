------------------------------- MODULE Stats -------------------------------
(* Statistics of a sample set as seen through its caches: ver counts the     *)
(* modifications made so far; a query reports the version its result was     *)
(* computed from.  The specified design drops every cached result whenever   *)
(* anything they depend on changes, so that a query always reports ver.      *)
EXTENDS VBase, Json
CONSTANTS Mods, Queries, Depth, Emit
VARIABLES ver, cache, hist, last
NoVer == -1
Init == ver = 0 /\ cache = [q \in Queries |-> NoVer] /\ hist = <<>> /\ last = 0
Modify(m) == /\ ver' = ver + 1
             /\ cache' = [q \in Queries |-> NoVer]
             /\ hist' = Append(hist, [k |-> "mod", a |-> m])
             /\ last' = ver'
Query(q) == /\ cache' = [cache EXCEPT ![q] = IF @ = NoVer THEN ver ELSE @]
            /\ last' = cache'[q]
            /\ ver' = ver
            /\ hist' = Append(hist, [k |-> "query", a |-> q])
\* histories that start and end with a query and modify in between: q m q, q m q' m' q''
Next == /\ Len(hist) < Depth
        /\ \/ \E m \in Mods: Len(hist) % 2 = 1 /\ Modify(m)
           \/ \E q \in Queries: Len(hist) % 2 = 0 /\ Query(q)
Spec == Init /\ [][Next]_<<ver, cache, hist, last>>
Fresh == last = ver
CacheFresh == \A q \in Queries: cache[q] \in {NoVer, ver}
EmitBehaviours == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
