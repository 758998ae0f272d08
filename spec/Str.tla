-------------------------------- MODULE Str --------------------------------
(* String operators (TLC evaluates Len, SubSeq and \o on strings).           *)
EXTENDS VBase
Ch(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5
                 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
IsDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s): Ch(s, i) \in Digits
ToNat(s) == FoldLeft(LAMBDA a, i: 10 * a + DigitVal(Ch(s, i)), 0, [i \in 1..Len(s) |-> i])
Mid(s, from, to) == IF from > to THEN "" ELSE SubSeq(s, from, to)
IndexFrom(s, c, k) == IF \E i \in k..Len(s): Ch(s, i) = c THEN CHOOSE i \in k..Len(s): Ch(s, i) = c /\ \A j \in k..(i - 1): Ch(s, j) # c ELSE 0
LastIndex(s, c) == IF \E i \in 1..Len(s): Ch(s, i) = c THEN CHOOSE i \in 1..Len(s): Ch(s, i) = c /\ \A j \in (i + 1)..Len(s): Ch(s, j) # c ELSE 0
\* split s at every single character c
Split(s, c) == FoldLeft(LAMBDA acc, i: IF Ch(s, i) = c THEN Append(acc, "") ELSE [acc EXCEPT ![Len(acc)] = @ \o Ch(s, i)],
                        <<"">>, [i \in 1..Len(s) |-> i])
Join(ss, sep) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b: a \o sep \o b, Head(ss), Tail(ss))
\* replace non-overlapping occurrences of p (from the left) by q
RECURSIVE StrReplace(_, _, _)
StrReplace(s, p, q) == IF Len(s) < Len(p) THEN s
                       ELSE IF StartsWith(s, p) THEN q \o StrReplace(Mid(s, Len(p) + 1, Len(s)), p, q)
                       ELSE Ch(s, 1) \o StrReplace(Mid(s, 2, Len(s)), p, q)
RECURSIVE Trim(_)
Trim(s) == IF StartsWith(s, " ") THEN Trim(Mid(s, 2, Len(s))) ELSE IF EndsWith(s, " ") THEN Trim(Mid(s, 1, Len(s) - 1)) ELSE s
BagOf(ss) == [x \in Range_(ss) |-> Cardinality({i \in 1..Len(ss): ss[i] = x})]
\* directory part and last part of a path with "/" separators
DirName(p) == LET k == LastIndex(p, "/") IN IF k = 0 THEN "" ELSE Mid(p, 1, k - 1)
BaseName(p) == LET k == LastIndex(p, "/") IN Mid(p, k + 1, Len(p))
PathJoin(d, f) == IF d = "" THEN f ELSE d \o "/" \o f
=============================================================================
