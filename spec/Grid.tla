-------------------------------- MODULE Grid --------------------------------
(* Which runs a grid has. Settings s: groups (params: parameter sets; data:   *)
(* lists of data names; imps: importance runs [names, want], want a data name *)
(* required in the parent or ""), all: importance runs of all groups,         *)
(* filters: importance filters, skip: names of runs left out, jobs: single    *)
(* items [base, par, data].                                                   *)
(* Data, parameter and filter names are distinct and without "_".             *)
EXTENDS Str
Tag(base, par) == Join(<<base>> \o par, "_")
NameOf(base, par, data) == Tag(base, par) \o "_" \o Join(data, "_")
Key(x) == <<x.base, Range_(x.par), Range_(x.data)>>
Main(base, par, data, group, imps) == LET t == Tag(base, par) d == Join(data, "_") IN
    [base |-> base, par |-> par, data |-> data, name |-> t \o "_" \o d, imp |-> FALSE, parent |-> "", group |-> group, paramtag |-> t, datatag |-> d,
     rel |-> t \o "/" \o d \o "/", nested |-> FALSE, imps |-> imps]
Requested(s) == Flat(MapSeq(LAMBDA g: Flat(MapSeq(LAMBDA d: MapSeq(LAMBDA p: Main("base", p, d, g.name, g.imps), g.params), g.data)), s.groups))
\* a combination that is asked for again only adds its importance runs
MainItems(s) == LET
    req == SelectSeq(Requested(s), LAMBDA x: x.name \notin Range_(s.skip))
    first(k) == \A j \in 1..(k - 1): req[j].name # req[k].name
    again(k) == Flat([j \in 1..Len(req) |-> IF j > k /\ req[j].name = req[k].name THEN req[j].imps ELSE <<>>])
    grp == SelectIdx([k \in 1..Len(req) |-> [req[k] EXCEPT !.imps = req[k].imps \o s.all \o again(k)]], first)
    IN grp \o MapSeq(LAMBDA j: Main(j.base, j.par, j.data, "", s.all), s.jobs)
\* importance runs of item x: not of data it already has
Imp(x, r) == LET t == (IF x.imp THEN "_" ELSE "_post_") \o Join(r.names, "_") IN
    [x EXCEPT !.data = x.data \o r.names, !.name = x.name \o t, !.datatag = x.datatag \o t, !.imp = TRUE, !.parent = x.name, !.imps = <<>>, !.nested = x.imp]
Wants(x, r) == (r.want = "" \/ r.want \in Range_(x.data)) /\ Range_(r.names) \cap Range_(x.data) = {}
ImpsOf(x, runs) == MapSeq(LAMBDA r: Imp(x, r), SelectSeq(runs, LAMBDA r: Wants(x, r)))
\* candidates: importance runs, filtered ones, and filtered importance runs (di: number of an importance run, pi: of the one filtered)
Candidates(s, x) == LET d == ImpsOf(x, x.imps) c(y, di, pi) == [item |-> y, of |-> x.name, di |-> di, pi |-> pi] IN
    [k \in 1..Len(d) |-> c(d[k], k, 0)] \o MapSeq(LAMBDA y: c(y, 0, 0), ImpsOf(x, s.filters))
    \o Flat([k \in 1..Len(d) |-> MapSeq(LAMBDA y: c(y, 0, k), ImpsOf(d[k], s.filters))])
\* a combination that is run in full is not importance sampled; of those importance sampled more than once the last is kept
AllItems(s) == LET
    main == MainItems(s)
    cand == Flat(MapSeq(LAMBDA x: Candidates(s, x), main))
    keys == MapSeq(LAMBDA c: Key(c.item), cand)
    mainkeys == {Key(x) : x \in Range_(main)}
    skipped(k) == cand[k].item.name \in Range_(s.skip)
    with(k) == {k} \cup {j \in 1..Len(cand): cand[k].di # 0 /\ cand[j].pi = cand[k].di /\ cand[j].of = cand[k].of}
    present == (1..Len(cand)) \ UNION {with(k) : k \in {j \in 1..Len(cand): keys[j] \in mainkeys}}
    final == FoldLeft(LAMBDA P, k: IF k \in P /\ \E j \in P \ {k}: keys[j] = keys[k] /\ ~skipped(j) THEN P \ with(k) ELSE P, present, [k \in 1..Len(cand) |-> k])
    kept == SelectIdx(cand, LAMBDA k: k \in final /\ ~skipped(k))
    IN Flat(MapSeq(LAMBDA x: <<x>> \o MapSeq(LAMBDA c: c.item, SelectSeq(kept, LAMBDA c: c.of = x.name)), main))
Chain(x) == x.rel \o x.name
Dist(x) == x.rel \o "dist/" \o x.name
IniOf(x) == (IF x.imp THEN "postIniFiles/" ELSE "iniFiles/") \o x.name \o ".ini"
\* the item with this combination, in any order of the names
Find(items, base, P, D) == LET S == {k \in 1..Len(items): Key(items[k]) = <<base, P, D>>} IN IF S = {} THEN "" ELSE items[MinOf(S)].name
=============================================================================
