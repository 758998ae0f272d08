------------------------------- MODULE MCFmt -------------------------------
(* Small numbers and layouts: what is printed can be read back to within half *)
(* of the last digit, and a layout holds every parameter exactly once.        *)
EXTENDS Fmt, Json
CONSTANTS MaxM, MaxN, Emit
VARIABLES v, u, l, e, kind
vars == <<v, u, l, e, kind>>
Ms == {0, 1, 5, 9, 15, 49, 50, 95, 99, 100, 105, 149, 150, 995, 999, 1049} \cap 0..MaxM
Init == kind = "start" /\ v = 0 /\ u = 0 /\ l = 0 /\ e = 0
Next == /\ kind = "start"
        /\ \/ kind' = "num" /\ v' \in (Ms \cup {-a : a \in Ms}) /\ u' \in Ms \ {0} /\ l' \in {-a : a \in Ms \ {0}} /\ e' \in -3..2
           \/ kind' = "layout" /\ v' \in 1..MaxN /\ u' \in 1..5 /\ l' \in 1..3 /\ e' = 0
Spec == Init /\ [][Next]_vars
\* |k * 10^P - m * 10^e| <= 10^P / 2
HalfDigit(k, P, d) == LET lo == IF P < d.e THEN P ELSE d.e IN 2 * Abs(k * 10^(P - lo) - d.m * 10^(d.e - lo)) <= 10^(P - lo)
RoundOK == kind = "num" => \A P \in (e - 3)..(e + 5): \A k \in RoundAt(Num(v, e), P): HalfDigit(k, P, Num(v, e))
SigOK == (kind = "num") => \A sf \in 1..4: \A kp \in Sig(Num(u, e), sf): HalfDigit(kp[1], kp[2], Num(u, e)) /\ NDig(Abs(kp[1])) = sf
\* at least one way to print exists whatever the numbers
Printed(k, P, plus) == [M |-> Shown(k, P).M, dp |-> Shown(k, P).dp, sgn |-> SgnOf(k, plus)]
Possible == kind = "num" =>
    LET us == {Printed(kp[1], kp[2], TRUE) : kp \in Sig(Num(u, e), 2)}
        ls == {Printed(kp[1], kp[2], TRUE) : kp \in Sig(Num(l, e), 2)}
        P == CHOOSE P \in {kp[2] : kp \in Sig(Num(u, e), 2)}: TRUE
        vs == {Printed(k, P, FALSE) : k \in RoundAt(Num(v, e), P)}
    IN \E a \in us, b \in ls, c \in vs: WithErr(c, a, b, Num(v, e), Num(u, e), Num(l, e), 0, 2, TRUE, 0)
Once == kind = "layout" =>
    LET n == v
        pos == {<<i, c>> : i \in 1..NumRow(n, u), c \in 1..u}
    IN /\ \A p \in 1..n: Cardinality({ic \in pos: At(n, u, ic[1], ic[2]) = p}) = 1
       /\ \A ic, jd \in pos: (At(n, u, ic[1], ic[2]) # 0 /\ At(n, u, jd[1], jd[2]) # 0 /\ (ic[2] < jd[2] \/ (ic[2] = jd[2] /\ ic[1] < jd[1]))) =>
                                 At(n, u, ic[1], ic[2]) < At(n, u, jd[1], jd[2])
EmitBehaviours == (Emit /\ kind # "start") => PrintT("@@" \o ToJson([kind |-> kind, v |-> v, u |-> u, l |-> l, e |-> e]))
=============================================================================
