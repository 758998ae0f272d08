------------------------------- MODULE Lookup -------------------------------
(* Samples asked for by name: where they come from and with which settings.    *)
(* A location is a record                                                      *)
(*   kind  "plain" (directory with chains, searched with its subdirectories),  *)
(*         "tree" (directories with chains), "grid" (grid of runs)             *)
(*   here, sub  names of chains in it and below it                             *)
(*   ini   settings kept with it: of all its chains                            *)
(*   own   settings of single runs of a grid: <<[r, set], ..>>                 *)
(* settings are <<[k, v], ..>> (of different keys); locations are searched in  *)
(* the order they were added.  The state of the analysis is                    *)
(*   locs   indices of the locations searched                                  *)
(*   ana    settings of the analysis;  chainfirst: settings kept with the      *)
(*          chains come before those of the analysis and of the request        *)
(*   mem    <<[n, src, set, id], ..>> samples in memory                        *)
EXTENDS VBase
Defaults == << [k |-> "ignore_rows", v |-> 6], [k |-> "max_scatter_points", v |-> 2000] >>
Get(s, k) == IF \E i \in 1..Len(s): s[i].k = k THEN <<s[CHOOSE i \in 1..Len(s): s[i].k = k].v>> ELSE <<>>
\* the first of the lists of settings that has the key
RECURSIVE First(_, _)
First(ss, k) == IF ss = <<>> THEN <<>> ELSE IF Get(ss[1], k) # <<>> THEN Get(ss[1], k) ELSE First(Tail(ss), k)
Keys == <<"ignore_rows", "max_scatter_points", "my_setting">>
Effective(ss) == [i \in 1..Len(Keys) |-> First(ss, Keys[i])]

Holds(L, n) == n \in Range_(L.here) \cup Range_(L.sub)
\* where the name is found: <<location, "here" or "sub">>, <<>> if nowhere
Find(Locs, locs, n) ==
    LET c == SelectIdx(locs, LAMBDA i: Holds(Locs[locs[i]], n)) IN
    IF c = <<>> THEN <<>> ELSE <<c[1], IF n \in Range_(Locs[c[1]].here) THEN "here" ELSE "sub">>
OwnOf(L, n) == IF \E i \in 1..Len(L.own): L.own[i].r = n THEN L.own[CHOOSE i \in 1..Len(L.own): L.own[i].r = n].set ELSE <<>>
\* the settings, most important first
Order(st, kept, asked) == IF st.chainfirst THEN kept \o <<asked, st.ana, Defaults>> ELSE <<asked, st.ana, Defaults>> \o kept
Kept(L, n) == <<OwnOf(L, n), L.ini>>
InMem(st, n) == \E i \in 1..Len(st.mem): st.mem[i].n = n
MemOf(st, n) == st.mem[CHOOSE i \in 1..Len(st.mem): st.mem[i].n = n]
Without(st, n) == SelectIdx(st.mem, LAMBDA i: st.mem[i].n # n)
\* the outcome of a request: [err, src, set, id] and the state after it
Loaded(st, n, src, set, id) == [out |-> [err |-> FALSE, src |-> src, set |-> set, id |-> id],
                                st |-> [st EXCEPT !.mem = Append(Without(st, n), [n |-> n, src |-> src, set |-> set, id |-> id])]]
FromMem(st, n) == LET m == MemOf(st, n) IN [out |-> [err |-> FALSE, src |-> m.src, set |-> m.set, id |-> m.id], st |-> st]
NotFound(st) == [out |-> [err |-> TRUE, src |-> <<>>, set |-> <<>>, id |-> 0], st |-> st]
Load(Locs, st, n, usemem, asked, id) ==
    IF usemem /\ InMem(st, n) THEN FromMem(st, n)
    ELSE LET f == Find(Locs, st.locs, n) IN
         IF f = <<>> THEN NotFound(st)
         ELSE Loaded(st, n, f, Effective(Order(st, Kept(Locs[f[1]], n), asked)), id)
\* files given by their path: nothing but the analysis settings apply
LoadFile(st, n, src, usemem, asked, id) ==
    IF usemem /\ InMem(st, n) THEN FromMem(st, n) ELSE Loaded(st, n, src, Effective(Order(st, <<>>, asked)), id)
Forget(st, n) == [st EXCEPT !.mem = Without(st, n)]
Reset(st, set, first) == [st EXCEPT !.mem = <<>>, !.ana = set, !.chainfirst = first]
AddLoc(st, i) == IF i \in Range_(st.locs) THEN st ELSE [st EXCEPT !.locs = Append(st.locs, i)]
\* Names in a tree: an item is [dirs, toks] (directories above it, parts of its name);
\* items of one name are told apart by as many directories as that takes
Whole(x) == Append([i \in 1..Len(x.dirs) |-> <<x.dirs[i]>>], x.toks)
LastOf(s, k) == IF k >= Len(s) THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))
Alike(items, x) == {j \in 1..Len(items): items[j].toks = x.toks}
Enough(items, x, k) == \A i, j \in Alike(items, x): i # j => LastOf(Whole(items[i]), k) # LastOf(Whole(items[j]), k)
TreeName(items, j) ==
    LET x == items[j] IN
    IF Cardinality(Alike(items, x)) = 1 THEN <<x.toks>>
    ELSE LET ks == {k \in 2..10: Enough(items, x, k)} IN LastOf(Whole(x), CHOOSE k \in ks: \A m \in ks: k <= m)
CountIn(s, t) == Cardinality({i \in 1..Len(s): s[i] = t})
\* the same parts in any order, but for "post" after the first
Parts(s) == <<Head(s)>> \o SelectSeq(Tail(s), LAMBDA t: t # "post")
SameParts(a, b) == LET p == Parts(a) q == Parts(b) IN Len(p) = Len(q) /\ \A t \in Range_(p): CountIn(p, t) = CountIn(q, t)
\* what a name in the tree stands for: <<item>>, <<>> (nothing) or <<0>> (several)
InTree(items, dirs, toks, literal) ==
    LET w == Whole([dirs |-> dirs, toks |-> toks])
        exact == {j \in 1..Len(items): literal /\ TreeName(items, j) = w}
        like == {j \in 1..Len(items): dirs = <<>> /\ SameParts(items[j].toks, toks)} IN
    IF exact # {} THEN <<CHOOSE j \in exact: TRUE>>
    ELSE IF like = {} THEN <<>> ELSE IF Cardinality(like) = 1 THEN <<CHOOSE j \in like: TRUE>> ELSE <<0>>
Fresh(locs, set) == [locs |-> locs, ana |-> set, chainfirst |-> TRUE, mem |-> <<>>]
=============================================================================
