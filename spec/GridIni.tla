------------------------------ MODULE GridIni ------------------------------
(* The settings files of the runs of a grid. Settings s (see Grid) also has   *)
(* prior, pextra, extra (kv lists, a kv is [k, v]), gopts/gpextra by group,   *)
(* datas: what is known of each data set [names, dicts, files, cov], impd: of *)
(* each importance run [names, dicts, files, min], lists of default files,    *)
(* content of the files, and the covariance matrices there are (names).       *)
EXTENDS Grid
\* value of key k in layers of kv lists, in order of precedence: a list of functions from keys to values
Fn(kv) == [k \in {x.k : x \in Range_(kv)} |-> LET S == {i \in 1..Len(kv): kv[i].k = k} IN kv[MaxOf(S)].v]
Over(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN f THEN f[k] ELSE g[k]]     \* f has precedence
Strongest(l) == FoldLeft(LAMBDA a, b: Over(a, b), [k \in {} |-> ""], l)       \* first has precedence
Latest(l) == FoldLeft(LAMBDA a, b: Over(b, a), [k \in {} |-> ""], l)          \* last has precedence
ByName(l, n) == LET S == {i \in 1..Len(l): l[i].n = n} IN IF S = {} THEN <<>> ELSE l[MinOf(S)].kv
Files(s, fs) == Strongest(MapSeq(LAMBDA f: Fn(ByName(s.content, f)), fs))
DataOf(l, names) == l[CHOOSE i \in 1..Len(l): l[i].names = names]
One(k, v) == (k :> v)
\* settings of a group: of the first group that asked for the run
Group_(s, n) == LET S == {i \in 1..Len(s.groups): s.groups[i].name = n} IN IF S = {} THEN [opts |-> <<>>, pextra |-> <<>>] ELSE s.groups[MinOf(S)]
\* --- covariance matrix to start from
SortBy(s, l) == LET S == {i \in 1..Len(s.order): s.order[i] \in Range_(l)} IN MapSeq(LAMBDA i: s.order[i], SetToSortSeq(S, <))
Mapped(s, m, n) == LET S == {i \in 1..Len(m): m[i].k = n} IN IF S = {} THEN n ELSE m[MaxOf(S)].v
Normed(s, x, m) == Join(<<x.base>> \o SortBy(s, x.par) \o <<Join(SortBy(s, SelectSeq(MapSeq(LAMBDA n: Mapped(s, m, n), x.data), LAMBDA n: n # "")), "_")>>, "_")
RepFirst(s, old, new) == LET S == {i \in 1..(Len(s) - Len(old) + 1): SubSeq(s, i, i + Len(old) - 1) = old} IN
    IF S = {} THEN s ELSE Mid(s, 1, MinOf(S) - 1) \o new \o Mid(s, MinOf(S) + Len(old), Len(s))
Has(s, old) == \E i \in 1..(Len(s) - Len(old) + 1): SubSeq(s, i, i + Len(old) - 1) = old
Renamed(s, n) == LET app == SelectSeq(s.renames, LAMBDA r: Has(n, r.k)) IN MapSeq(LAMBDA r: RepFirst(n, r.k, r.v), app)
Renames(s, n) == Renamed(s, n) \o Flat(MapSeq(LAMBDA r: Renamed(s, RepFirst(n, r.v, r.k)), SelectSeq(s.renames, LAMBDA r: Has(n, r.v))))
Removals(s, x) == LET l == SelectSeq(s.without, LAMBDA n: n \in Range_(x.data)) IN
    Flat([i \in 1..Len(l) |-> <<Normed(s, x, <<[k |-> l[i], v |-> ""]>>), Normed(s, x, s.maps \o MapSeq(LAMBDA n: [k |-> n, v |-> ""], SubSeq(l, 1, i)))>>])
Direct(s, x) == <<x.name, Normed(s, x, s.maps)>> \o (IF s.hasmaps THEN <<Join(MapSeq(LAMBDA n: Mapped(s, s.maps, n), Split(x.name, "_")), "_")>> ELSE <<>>)
    \o SelectSeq(<<DataOf(s.datas, x.data).cov, s.covmat>>, LAMBDA n: n # "")
Others(s, x) == (IF s.renames # <<>> THEN Renames(s, x.name) \o Renames(s, Normed(s, x, s.maps)) ELSE <<>>) \o Removals(s, x)
First_(s, l) == LET e == SelectSeq(l, LAMBDA n: n \in Range_(s.covs)) IN IF e = <<>> THEN "" ELSE e[1]
CovPart(s, x) == LET d == First_(s, Direct(s, x)) o == First_(s, Others(s, x)) IN
    IF d # "" THEN One("propose_matrix", d) @@ (IF s.newcov THEN One("MPI_Max_R_ProposeUpdate", "20") ELSE [k \in {} |-> ""])
    ELSE One("MPI_Max_R_ProposeUpdate", "20") @@ (IF o # "" THEN One("propose_matrix", o) ELSE [k \in {} |-> ""])
\* --- main runs
Explicit(s, x) == LET g == Group_(s, x.group) d == DataOf(s.datas, x.data) IN Latest(
    Flat(MapSeq(LAMBDA p: <<One("param[" \o p \o "]", Fn(s.prior)[p]), Fn(ByName(s.pextra, p)), Fn(ByName(g.pextra, p))>>, x.par))
    \o <<Fn(s.extra), Fn(g.opts), One("file_root", Chain(x)), CovPart(s, x), One("start_at_bestfit", s.bestfit)>>
    \o MapSeq(LAMBDA kv: Fn(kv), d.dicts) \o <<One("action", "0")>>)
Defaults(s, x) == Files(s, s.override \o DataOf(s.datas, x.data).files \o s.defaults)
Minimize(x) == One("action", "2") @@ One("lmin_store_all_cmb", "2500") @@ (IF "omegak" \in Range_(x.par) THEN One("accuracy_level", "1.2") ELSE [k \in {} |-> ""])
    @@ (IF "meffsterile" \in Range_(x.par) THEN One("sterile_mphys_max", "10000") ELSE [k \in {} |-> ""])
MainIni(s, x) == Over(Explicit(s, x), Defaults(s, x))
MainMin(s, x) == Over(Minimize(x), MainIni(s, x))
\* --- importance runs y of x
ImpD(s, x, y) == DataOf(s.impd, SubSeq(y.data, Len(x.data) + 1, Len(y.data)))
ImpIni(s, x, y) == LET d == ImpD(s, x, y) IN
    Strongest(<<One("redo_outroot", Chain(y)) @@ One("action", "1"), Latest(MapSeq(LAMBDA kv: Fn(kv), d.dicts)), Files(s, d.files), Files(s, s.impdefaults), MainIni(s, x)>>)
ImpMin(s, x, y) == LET d == ImpD(s, x, y) IN
    Strongest(<<Minimize(x), One("file_root", Chain(y)), Latest(MapSeq(LAMBDA kv: Fn(kv), d.dicts)), Files(s, d.files), MainIni(s, x)>>)
\* every file of the grid: path -> what is read from it
IsFilter(s, x, y) == Range_(y.data) \cap UNION {Range_(f.names) : f \in Range_(s.filters)} # {}
Written(s) == LET items == AllItems(s) IN Flat([k \in 1..Len(items) |-> LET x == items[k] IN
    IF ~x.imp THEN <<[f |-> "iniFiles/" \o x.name \o ".ini", c |-> MainIni(s, x)]>>
        \o (IF s.bestfit = "F" THEN <<[f |-> "iniFiles/" \o x.name \o "_minimize.ini", c |-> MainMin(s, x)]>> ELSE <<>>)
    ELSE IF IsFilter(s, x, x) THEN <<>>
    ELSE LET m == items[CHOOSE j \in 1..Len(items): items[j].name = x.parent] IN
        <<[f |-> "postIniFiles/" \o x.name \o ".ini", c |-> ImpIni(s, m, x)]>>
        \o (IF ImpD(s, m, x).min THEN <<[f |-> "postIniFiles/" \o x.name \o "_minimize.ini", c |-> ImpMin(s, m, x)]>> ELSE <<>>)])
=============================================================================
