----------------------------- MODULE MCChains -----------------------------
(* Exhaustive exploration of Chains for small sample sets: the invariants    *)
(* below are the specification-level properties C01, C02, C03, C05; every    *)
(* complete behaviour is also emitted (as JSON) to be replayed into the code *)
EXTENDS Chains, Json
CONSTANTS Depth, Ops, Emit
VARIABLES st, hist, init

Row(w, l, id, y, z) == [w |-> w, l |-> l, x |-> <<id, y, z>>]
\* column 1 identifies the row; column 2 varies; column 3 is constant within chain 1 only or overall
Mk(mode, chs) == [mode |-> mode, chains |-> chs, names |-> <<"a", "b", "c">>, hasL |-> TRUE, wden |-> 1,
                  prop |-> FALSE, minw |-> FALSE]
C1 == <<Row(1, 2, 1, 5, 7), Row(3, 0, 2, 4, 7)>>
C2 == <<Row(2, 4, 3, 5, 7)>>
C3 == <<Row(0, 2, 4, 1, 7), Row(2, 2, 5, 5, 9), Row(5, 4, 6, 1, 7)>>
C4 == <<Row(1, 2, 7, 5, 7), Row(1, 0, 8, 5, 7)>>
Inits == { Mk("single", <<C3>>), Mk("combined", <<C1, C2>>), Mk("combined", <<C2, C3>>), Mk("separate", <<C4, C1>>),
           Mk("separate", <<C1, C3>>), [Mk("combined", <<C1, C2>>) EXCEPT !.wden = 2],
           [Mk("separate", <<C4, C3>>) EXCEPT !.minw = TRUE], Mk("combined", <<C1, C2, C4>>) }

Masks(n) == {[k \in 1..n |-> (k % 2) = 1], [k \in 1..n |-> k > 1], [k \in 1..n |-> k < n], [k \in 1..n |-> k \notin 2..3]}
Ixs(n) == {<<0>>, [k \in 1..(n-1) |-> k]} \cup (IF n > 2 THEN {<<0, n-1>>} ELSE {})
Evs(s) ==
    LET n == NRows(s) IN
    (IF n = 0 THEN {} ELSE
       {[op |-> "filter", mask |-> m] : m \in Masks(n)}
       \cup {[op |-> "filterix", ix |-> x] : x \in Ixs(n)}
       \cup {[op |-> "delzeros"]} \cup {[op |-> "minweight", num |-> 1, den |-> d] : d \in {2, 4}}
       \cup {[op |-> "burnrows", n |-> k] : k \in {1, 2}}
       \cup {[op |-> "burnfrac", num |-> p[1], den |-> p[2]] : p \in {<<3, 10>>, <<1, 2>>}}
       \cup {[op |-> "thin", k |-> k, kden |-> 1] : k \in {1, 2, 3}} \cup {[op |-> "thin", k |-> 3, kden |-> 2]}
       \cup {[op |-> "wthin", k |-> k, kden |-> 1] : k \in {1, 2, 4}}
       \cup {[op |-> "reweight", d |-> [k \in 1..n |-> (k * 3) % 4]], [op |-> "reweight", d |-> [k \in 1..n |-> 1]]}
       \cup {[op |-> "cool", num |-> 2, den |-> 1], [op |-> "cool", num |-> 1, den |-> 2]}
       \cup {[op |-> "addcol", name |-> nm, vec |-> [k \in 1..n |-> k * k]] : nm \in {"d", "b"}}
       \cup {[op |-> "delfixed"], [op |-> "copy"]})
    \cup (IF IsSeparate(s) THEN {[op |-> "makesingle"]} ELSE {})
\* operations whose effect the documentation leaves undefined in that state are not called
Defined(s, e) ==
    /\ e.op \in Ops
    /\ (e.op \in {"delzeros", "minweight", "thin", "reweight", "cool", "addcol", "filterix", "burnrows"}) => ~IsSeparate(s)
    /\ (e.op \in {"thin", "wthin"}) => ~s.prop /\ (\A c \in 1..Len(s.chains): Len(s.chains[c]) > 0)
                   /\ (\E k \in 1..NRows(s): Rows(s)[k].w > 0)
    /\ (e.op = "wthin") => \A c \in 1..Len(s.chains): \E k \in 1..Len(s.chains[c]): s.chains[c][k].w > 0
    /\ (e.op = "minweight") => ~s.prop
    /\ (e.op = "cool") => s.hasL /\ \A k \in 1..NRows(s): (Rows(s)[k].l * e.num) % e.den = 0
    /\ (e.op = "burnfrac") => IsSeparate(s) \/ NRows(s) > 1
\* keep the exploration to states in which every chain still has a row (statistics are undefined otherwise)
Live(s) == NRows(s) > 0 /\ (IsSeparate(s) => \A c \in 1..Len(s.chains): Len(s.chains[c]) > 0) /\ Len(s.names) > 0
Init == init \in Inits /\ st = init /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E e \in {f \in Evs(st) : Defined(st, f)}: \E s2 \in Succ(st, e):
              Live(s2) /\ st' = s2 /\ hist' = Append(hist, [e |-> e, n |-> NRows(st)]) /\ init' = init
Spec == Init /\ [][Next]_<<st, hist, init>>

Ids(s) == MapSeq(LAMBDA r: r.x[1], Rows(s))
HasId == "a" \in Range_(st.names) /\ st.names[1] = "a"
OrigRow(id) == LET r == Rows(init) IN r[CHOOSE k \in 1..Len(r): r[k].x[1] = id]
\* C01: every row is an original row (same remaining columns), and rows stay in order
RowIntegrity == HasId => \A k \in 1..NRows(st):
      LET r == Rows(st)[k] IN \A j \in 1..Len(st.names):
          LET o == IndexIn(init.names, st.names[j]) IN o > 0 => r.x[j] = OrigRow(r.x[1]).x[o]
InOrder == HasId => LET q == Ids(st) IN \A a, b \in 1..Len(q): a < b => q[a] <= q[b] \/
              \* chains are not ordered among each other, only rows within a chain
              (\E c, d \in 1..Len(init.chains): c # d /\ (\E k \in 1..Len(init.chains[c]): init.chains[c][k].x[1] = q[a])
                                                  /\ (\E k \in 1..Len(init.chains[d]): init.chains[d][k].x[1] = q[b]))
\* C02: each chain only has rows of the original chain
ChainIdentity == HasId => /\ Len(st.chains) = Len(init.chains)
    /\ \A c \in 1..Len(st.chains): \A k \in 1..Len(st.chains[c]):
          \E m \in 1..Len(init.chains[c]): init.chains[c][m].x[1] = st.chains[c][k].x[1]
\* C05: log likes change only by reweighting/cooling; two reweightings compose
LikeKept == HasId => ((\A k \in 1..Len(hist): hist[k].e.op \notin {"reweight", "cool"}) =>
       \A k \in 1..NRows(st): Rows(st)[k].l = OrigRow(Rows(st)[k].x[1]).l)
Composes == \A a, b \in {0, 1, 3}: LET n == NRows(st)
                                    d1 == [k \in 1..n |-> (k * a) % 4] d2 == [k \in 1..n |-> (k + b) % 3]
                                    s1 == Reweight(Reweight(st, d1), d2) s2 == Reweight(st, [k \in 1..n |-> d1[k] + d2[k]])
                                IN n > 0 => \A k \in 1..n: Rows(s1)[k].l = Rows(s2)[k].l
                                               /\ Rows(s1)[k].w * Rows(s2)[1].w = Rows(s1)[1].w * Rows(s2)[k].w
\* C03: thinning conserves weight up to the factor
ThinConserves == (ThinIntegral(st) /\ ~st.prop) => \A k \in 1..4: \A h \in ThinAlts(WsOf(Rows(st), st.wden), k):
       LET tot == SumSeq(WsOf(Rows(st), st.wden)) IN SumSeq(h) \in {tot \div k, tot \div k + 1} /\ ThinOK(WsOf(Rows(st), st.wden), k, h)
Inv == RowIntegrity /\ InOrder /\ ChainIdentity /\ LikeKept
EmitBehaviours == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson([init |-> init, ops |-> hist]))
=============================================================================
