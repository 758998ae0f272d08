-------------------------------- MODULE Ini --------------------------------
(* Settings files. A file system maps paths to sequences of lines:           *)
(*  [t |-> "key", k, v], [t |-> "inc" / "def", p] (a path relative to the    *)
(*  file, or absolute from "/"), or [t |-> "end"] and other kinds of line    *)
(*  (comments, blank or malformed ones), which mean nothing.                 *)
EXTENDS Str
Undef == "<undefined>"
Norm(p) == LET parts == SelectSeq(Split(p, "/"), LAMBDA x: x # "" /\ x # ".") IN
    Join(FoldLeft(LAMBDA acc, x: IF x = ".." THEN SubSeq(acc, 1, Len(acc) - 1) ELSE Append(acc, x), <<>>, parts), "/")
Target(f, p) == IF StartsWith(p, "/") THEN Norm(p) ELSE Norm(PathJoin(DirName(f), p))
\* nothing after END is used
Live(ls) == LET e == {i \in 1..Len(ls): ls[i].t = "end"} IN IF e = {} THEN ls ELSE SubSeq(ls, 1, MinOf(e) - 1)
\* environment variables in values: VERIF_VAR is "env x", VERIF_NONE is not set, $$ is one $
RECURSIVE Scan(_)
Scan(v) == IF v = "" THEN ""
           ELSE IF StartsWith(v, "$$") THEN "$" \o Scan(Mid(v, 3, Len(v)))
           ELSE IF StartsWith(v, "$(VERIF_VAR)") THEN "env x" \o Scan(Mid(v, 13, Len(v)))
           ELSE IF StartsWith(v, "$(VERIF_NONE)") THEN Scan(Mid(v, 14, Len(v)))
           ELSE Ch(v, 1) \o Scan(Mid(v, 2, Len(v)))
Expand(v) == IF \E k \in 1..Len(v): StartsWith(Mid(v, k, Len(v)), "$(") THEN Scan(v) ELSE v
Own(fs, f) == MapSeq(LAMBDA x: [x EXCEPT !.v = Expand(@)], SelectSeq(Live(fs[f]), LAMBDA x: x.t = "key"))
Links(fs, f, t) == MapSeq(LAMBDA x: Target(f, x.p), SelectSeq(Live(fs[f]), LAMBDA x: x.t = t))
OwnValue(fs, f, k) == LET s == SelectSeq(Own(fs, f), LAMBDA x: x.k = k) IN IF s = <<>> THEN Undef ELSE s[1].v
\* value of a key: from the file itself, else from a file it includes, else from its default files, in order
RECURSIVE Value(_, _, _)
Value(fs, f, k) ==
    IF OwnValue(fs, f, k) # Undef THEN OwnValue(fs, f, k)
    ELSE LET first(l) == FoldLeft(LAMBDA a, g: IF a # Undef THEN a ELSE Value(fs, g, k), Undef, l)
             i == first(Links(fs, f, "inc"))
         IN IF i # Undef THEN i ELSE first(Links(fs, f, "def"))
RECURSIVE Reach(_, _)
Reach(fs, f) == IF f \notin DOMAIN fs THEN {f} ELSE {f} \cup UNION {Reach(fs, g) : g \in Range_(Links(fs, f, "inc") \o Links(fs, f, "def"))}
Missing(fs, f) == \E g \in Reach(fs, f): g \notin DOMAIN fs
Keys(fs, f) == UNION {{x.k : x \in Range_(Own(fs, g))} : g \in Reach(fs, f)}
\* keys set at non-default level: by the file or the files it includes
RECURSIVE NonDefault(_, _)
NonDefault(fs, f) == MapSeq(LAMBDA x: x.k, Own(fs, f)) \o Flat(MapSeq(LAMBDA g: NonDefault(fs, g), Links(fs, f, "inc")))
SetTwice(fs, f) == ~NoDup(NonDefault(fs, f))
\* a default of an included file for a key that a later included file sets: whether that is an error is not specified
RECURSIVE Clash(_, _)
Clash(fs, f) == LET inc == Links(fs, f, "inc") IN
    \/ \E a, b \in 1..Len(inc): a < b /\ \E k \in Range_(NonDefault(fs, inc[b])): k \notin Range_(NonDefault(fs, inc[a])) /\ Value(fs, inc[a], k) # Undef
    \/ \E a \in 1..Len(inc): Clash(fs, inc[a])
Result(fs, f) == [k \in Keys(fs, f) |-> Value(fs, f, k)]
\* the same as an algorithm: read files in turn, remembering what is defined
RECURSIVE Read(_, _, _, _)
Read(fs, f, default, acc) ==
    IF acc.err THEN acc
    ELSE IF f \notin DOMAIN fs THEN [acc EXCEPT !.err = TRUE]
    ELSE LET own == FoldLeft(LAMBDA a, x: IF x.k \in DOMAIN a.p THEN (IF default THEN a ELSE [a EXCEPT !.err = TRUE])
                                          ELSE [a EXCEPT !.p = [k \in DOMAIN a.p \cup {x.k} |-> IF k = x.k THEN x.v ELSE a.p[k]]], acc, Own(fs, f))
             inc == FoldLeft(LAMBDA a, g: Read(fs, g, default, a), own, Links(fs, f, "inc"))
         IN FoldLeft(LAMBDA a, g: Read(fs, g, TRUE, a), inc, Links(fs, f, "def"))
ReadAll(fs, f) == Read(fs, f, FALSE, [p |-> [k \in {} |-> ""], err |-> FALSE])

(* Typed look-ups. A stored setting is Undef or a text; text to number:      *)
Sign(s) == IF Len(s) > 0 /\ Ch(s, 1) \in {"+", "-"} THEN Ch(s, 1) ELSE ""
Unsigned(s) == Mid(s, Len(Sign(s)) + 1, Len(s))
Signed(s, n) == IF Sign(s) = "-" THEN 0 - n ELSE n
IsInt(s) == IsDigits(Unsigned(s))
IntOf(s) == Signed(s, ToNat(Unsigned(s)))
Lower(c) == IF c = "E" THEN "e" ELSE c
ExpAt(s) == LET a == IndexFrom(s, "e", 1) b == IndexFrom(s, "E", 1) IN IF a = 0 THEN b ELSE a
Mantissa(s) == IF ExpAt(s) = 0 THEN s ELSE Mid(s, 1, ExpAt(s) - 1)
Expo(s) == IF ExpAt(s) = 0 THEN "0" ELSE Mid(s, ExpAt(s) + 1, Len(s))
Dot(m) == IndexFrom(m, ".", 1)
WholeOf(m) == IF Dot(m) = 0 THEN m ELSE Mid(m, 1, Dot(m) - 1)
FracOf(m) == IF Dot(m) = 0 THEN "" ELSE Mid(m, Dot(m) + 1, Len(m))
IsFloat(s) == LET u == Unsigned(s) m == Mantissa(u) w == WholeOf(m) f == FracOf(m) IN
    (IsDigits(w) \/ (w = "" /\ f # "")) /\ (f = "" \/ IsDigits(f)) /\ IsInt(Expo(u))
\* a million times the value (for values with at most six decimals)
RECURSIVE Shift(_, _)
Shift(n, e) == IF e = 0 THEN n ELSE IF e > 0 THEN Shift(10 * n, e - 1) ELSE Shift(n \div 10, e + 1)
FloatOf(s) == LET u == Unsigned(s) m == Mantissa(u) IN
    Signed(s, Shift(ToNat(WholeOf(m) \o FracOf(m)), 6 - Len(FracOf(m)) + IntOf(Expo(u))))
Tokens(s) == SelectSeq(Split(s, " "), LAMBDA x: x # "")
Bad == [ok |-> FALSE]
Ok(x) == [ok |-> TRUE, v |-> x]
BoolOf(s) == IF StartsWith(s, "T") THEN Ok(TRUE) ELSE IF StartsWith(s, "F") THEN Ok(FALSE) ELSE Bad
Conv(kind, s) == CASE kind = "string" -> Ok(s)
                   [] kind = "int" -> IF IsInt(s) THEN Ok(IntOf(s)) ELSE Bad
                   [] kind = "float" -> IF IsFloat(s) THEN Ok(FloatOf(s)) ELSE Bad
                   [] kind = "bool" -> BoolOf(s)
ListKinds == {"list", "int_list", "float_list", "bool_list"}
ElemKind(k) == CASE k = "list" -> "string" [] k = "int_list" -> "int" [] k = "float_list" -> "float" [] k = "bool_list" -> "bool"
ConvList(kind, s) == LET t == MapSeq(LAMBDA x: Conv(ElemKind(kind), x), Tokens(s)) IN
    IF \A i \in 1..Len(t): t[i].ok THEN Ok(MapSeq(LAMBDA x: x.v, t)) ELSE Bad
\* def = Bad: no default given
Get(kind, s, def) ==
    IF kind \in ListKinds THEN IF s = Undef THEN (IF def.ok THEN def ELSE Ok(<<>>)) ELSE ConvList(kind, s)
    ELSE IF s = Undef \/ (s = "" /\ kind # "string") THEN def
    ELSE Conv(kind, s)

(* Settings objects in memory: params maps keys to values in memory,          *)
(* [t, s] with type t and text s; order lists keys in the order read.         *)
AsText(v) == IF v.t = "b" THEN [t |-> "bs", s |-> v.s] ELSE IF v.t = "l" THEN [t |-> "ls", s |-> v.s] ELSE [t |-> "s", s |-> Trim(v.s)]
SetKey(o, k, v) == [o EXCEPT !.params = [x \in DOMAIN o.params \cup {k} |-> IF x = k THEN v ELSE o.params[x]]]
DelKey(o, k) == [o EXCEPT !.params = [x \in DOMAIN o.params \ {k} |-> o.params[x]]]
\* only texts can contain a tag
Tags(o, tag, txt) == [o EXCEPT !.params = [x \in DOMAIN o.params |-> IF o.params[x].t \in {"s", "bs", "ls"} THEN [o.params[x] EXCEPT !.s = StrReplace(@, tag, txt)] ELSE o.params[x]]]
ReadKeys(o) == SelectSeq(o.order, LAMBDA k: k \in DOMAIN o.params)
\* the file written by saving, for a set of possible key orders
FileKeyOrders(o) == {p \in SetToSeqs(DOMAIN o.params): SelectSeq(p, LAMBDA k: k \in Range_(ReadKeys(o))) = ReadKeys(o)}
Reload(o, order) == [params |-> [k \in DOMAIN o.params |-> AsText(o.params[k])], order |-> order]
=============================================================================
