------------------------------- MODULE MCIni -------------------------------
(* All small sets of three files that may include or default each other.     *)
EXTENDS Ini, Json
CONSTANTS L1, L2, L3, Emit
VARIABLE fs
K(k, v) == [t |-> "key", k |-> k, v |-> v]
Lk(t, p) == [t |-> t, p |-> p]
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
A1 == {K("a", "1"), K("b", "1"), Lk("inc", "f2"), Lk("def", "f2"), Lk("inc", "d/f3"), Lk("def", "d/f3")}
A2 == {K("a", "2"), K("b", "2"), Lk("inc", "d/f3"), Lk("def", "/d/f3"), [t |-> "end"]}
A3 == {K("a", "3"), K("a", "4"), Lk("def", "../f4")}
Init == \E x \in SeqsUpTo(A1, L1), y \in SeqsUpTo(A2, L2), z \in SeqsUpTo(A3, L3): fs = ("f1" :> x) @@ ("f2" :> y) @@ ("d/f3" :> z)
            @@ (IF \E i \in 1..Len(z): z[i].t = "def" THEN "f4" :> <<K("b", "5")>> ELSE [n \in {} |-> <<>>])
Next == UNCHANGED fs
Spec == Init /\ [][Next]_fs
R == ReadAll(fs, "f1")
\* the reading algorithm gives the declared values
Agrees == /\ (SetTwice(fs, "f1") \/ Missing(fs, "f1")) => R.err
          /\ (~SetTwice(fs, "f1") /\ ~Missing(fs, "f1") /\ ~Clash(fs, "f1")) => ~R.err /\ R.p = Result(fs, "f1")
OwnWins == ~R.err => \A x \in Range_(Own(fs, "f1")): R.p[x.k] = x.v
EmitBehaviours == Emit => PrintT("@@" \o ToJson([n \in DOMAIN fs |-> fs[n]]))
=============================================================================
