------------------------------- MODULE Cache -------------------------------
(* Loading a chain root through the sample cache.                            *)
(*                                                                           *)
(* chains : chain number |-> [v: content version, t: modification time], the *)
(*          chain files that exist                                           *)
(* aux    : the .ranges file ([v, t], v = 0 if it does not exist)            *)
(* cache  : "none", "bad" (unreadable or foreign) or a saved load: the       *)
(*          stamps of the files recorded BEFORE they were read, their        *)
(*          contents and the settings.                                       *)
(* last   : what the most recent load returned                               *)
(* The design that is specified: use the cache only if the stamps of exactly *)
(* the files that now exist, and the settings, are those it was made from.   *)
EXTENDS VBase
CONSTANTS MaxChain, Settings
VARIABLES chains, aux, cache, clock, ver, last

NoCache == [k |-> "none"]
BadCache == [k |-> "bad"]
Stamps == <<[c \in DOMAIN chains |-> chains[c].t], aux.v > 0, aux.t>>
Contents == [files |-> [c \in DOMAIN chains |-> chains[c].v], aux |-> aux.v]
\* what a load with settings s must return
FreshLoad(s) == [files |-> Contents.files, aux |-> Contents.aux, set |-> s]

CInit == /\ chains = [c \in 1..2 |-> [v |-> c, t |-> c]]
         /\ aux = [v |-> 3, t |-> 3] /\ cache = NoCache /\ clock = 4 /\ ver = 4
         /\ last = [files |-> <<>>, aux |-> 0, set |-> "-"]

Usable(s) == cache.k = "ok" /\ cache.stamps = Stamps /\ cache.set = s
Load(s, nocache) ==
    /\ DOMAIN chains # {}
    /\ last' = IF ~nocache /\ Usable(s) THEN [files |-> cache.content.files, aux |-> cache.content.aux, set |-> cache.set]
               ELSE FreshLoad(s)
    /\ cache' = IF nocache THEN NoCache
                ELSE IF Usable(s) THEN cache ELSE [k |-> "ok", stamps |-> Stamps, content |-> Contents, set |-> s]
    /\ clock' = clock + 1
    /\ UNCHANGED <<chains, aux, ver>>
\* another process rewrites chain c after it was read, before the cache is saved
LoadRace(s, c) ==
    /\ c \in DOMAIN chains
    /\ last' = IF Usable(s) THEN [files |-> cache.content.files, aux |-> cache.content.aux, set |-> cache.set] ELSE FreshLoad(s)
    /\ cache' = IF Usable(s) THEN cache ELSE [k |-> "ok", stamps |-> Stamps, content |-> Contents, set |-> s]
    /\ chains' = IF Usable(s) THEN chains ELSE [chains EXCEPT ![c] = [v |-> ver, t |-> clock]]
    /\ ver' = ver + 1 /\ clock' = clock + 2 /\ aux' = aux
\* (re)write chain file c; old: with a modification time before all others (as when restored from an archive)
Write(c, old) ==
    /\ chains' = [x \in DOMAIN chains \cup {c} |-> IF x = c THEN [v |-> ver, t |-> IF old THEN -ver ELSE clock] ELSE chains[x]]
    /\ ver' = ver + 1 /\ clock' = clock + 1 /\ UNCHANGED <<aux, cache, last>>
RemoveFile(c) ==
    /\ c \in DOMAIN chains /\ Cardinality(DOMAIN chains) > 1
    /\ chains' = [x \in DOMAIN chains \ {c} |-> chains[x]]
    /\ UNCHANGED <<aux, cache, clock, ver, last>>
Aux(exists) ==
    /\ aux' = IF exists THEN [v |-> ver, t |-> clock] ELSE [v |-> 0, t |-> 0]
    /\ ver' = ver + 1 /\ clock' = clock + 1 /\ UNCHANGED <<chains, cache, last>>
Damage(how) ==
    /\ cache.k # "none"
    /\ cache' = IF how = "delete" THEN NoCache ELSE BadCache
    /\ UNCHANGED <<chains, aux, clock, ver, last>>
=============================================================================
