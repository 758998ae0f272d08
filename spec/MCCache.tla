------------------------------ MODULE MCCache ------------------------------
EXTENDS Cache, Json
CONSTANTS Depth, Emit
VARIABLES hist
H(e) == hist' = Append(hist, e)
vars == <<chains, aux, cache, clock, ver, last, hist>>
Init == CInit /\ hist = <<>>
Ld == \E s \in Settings, n \in BOOLEAN: Load(s, n) /\ H([op |-> "load", set |-> s, nocache |-> n])
Next == /\ Len(hist) < Depth
        /\ \/ Ld
           \/ /\ Len(hist) \in 1..Depth - 2
              /\ \/ \E s \in Settings, c \in 1..MaxChain: LoadRace(s, c) /\ H([op |-> "race", set |-> s, c |-> c])
                 \/ \E c \in 1..MaxChain, o \in BOOLEAN: Write(c, o) /\ H([op |-> "write", c |-> c, old |-> o])
                 \/ \E c \in 1..MaxChain: RemoveFile(c) /\ H([op |-> "remove", c |-> c])
                 \/ \E x \in BOOLEAN: Aux(x) /\ H([op |-> "aux", exists |-> x])
                 \/ \E h \in {"delete", "empty", "truncate", "garbage", "foreign", "oldversion"}: Damage(h) /\ H([op |-> "damage", how |-> h])
Spec == Init /\ [][Next]_vars
\* the result of the load just made is what a load without cache would give
LoadStep == hist' # hist /\ hist'[Len(hist')].op = "load" =>
    last' = [files |-> [c \in DOMAIN chains |-> chains[c].v], aux |-> aux.v, set |-> hist'[Len(hist')].set]
Transparent == [][LoadStep]_vars
\* the cache never claims stamps for content that is not that of the files with these stamps
CacheHonest == cache.k = "ok" => (cache.stamps = Stamps => cache.content = Contents)
EmitBehaviours == (Emit /\ Len(hist) = Depth /\ hist[Depth].op = "load" /\ ~hist[Depth].nocache) => PrintT("@@" \o ToJson(hist))
=============================================================================
