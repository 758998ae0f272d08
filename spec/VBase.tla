------------------------------- MODULE VBase -------------------------------
(* Helper operators shared by all the specification modules.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

SumSeq(s) == FoldLeft(LAMBDA a, b: a + b, 0, s)
MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
MaxOf(S) == CHOOSE m \in S: \A z \in S: z <= m
MinOf(S) == CHOOSE m \in S: \A z \in S: z >= m
Flat(ss) == FoldLeft(LAMBDA a, b: a \o b, <<>>, ss)
Range_(s) == {s[i] : i \in 1..Len(s)}
\* keep s[i] where Keep(i)
SelectIdx(s, Keep(_)) ==
    FoldLeft(LAMBDA acc, i: IF Keep(i) THEN Append(acc, s[i]) ELSE acc, <<>>, [i \in 1..Len(s) |-> i])
RepeatSeq(x, n) == [i \in 1..n |-> x]
IndexIn(s, v) == IF \E i \in 1..Len(s): s[i] = v THEN CHOOSE i \in 1..Len(s): s[i] = v /\ \A j \in 1..(i-1): s[j] # v ELSE 0
NoDup(s) == \A i, j \in 1..Len(s): i # j => s[i] # s[j]
DropN(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
TakeN(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Pow2(k) == 2^k
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE Gcd(b, a % b)
\* rational n/d (d > 0) in lowest terms
Reduce(n, d) == LET g == Gcd(IF n < 0 THEN -n ELSE n, d) IN <<n \div g, d \div g>>
\* all sequences whose i-th element is in the i-th set
SeqProd(sets) == FoldLeft(LAMBDA acc, S: {Append(a, x) : a \in acc, x \in S}, {<<>>}, sets)
=============================================================================
