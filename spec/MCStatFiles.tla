---------------------------- MODULE MCStatFiles ----------------------------
(* Histories of writing results to files, reading them and combining them     *)
(* with best fits and other labels.                                           *)
EXTENDS StatFiles, Json
CONSTANTS Depth, Emit
VARIABLES obj, files, hist
vars == <<obj, files, hist>>
P(n, d, b, l, t) == [name |-> n, der |-> d, mean |-> "1.5", err |-> "0.5", label |-> l, best |-> b,
                     lims |-> <<[lo |-> "1.0", hi |-> "2.0", tag |-> t]>>]
Marges == {[kind |-> "marge", limits |-> <<"0.68">>, pars |-> <<P("a", FALSE, "", <<"A">>, t), P("b", TRUE, "", l, "two")>>]
             : t \in {"two", ">", "<", "none"}, l \in {<<>>, <<"B", "b">>}}
Q(n, v) == [name |-> n, val |-> v, label |-> <<n>>]
Bests == {[like |-> "3.5", varied |-> <<Q("a", "1.25")>>, fixed |-> fx, derived |-> dr, chis |-> ch]
            : fx \in {<<>>, <<Q("c", "7.0")>>}, dr \in {<<>>, <<Q("b", "2.0")>>, <<Q("d", "4.0")>>},
              ch \in {<<>>, <<[kind |-> "CMB", tag |-> "", name |-> "x", val |-> "2.0"], [kind |-> "", tag |-> "t", name |-> "x", val |-> "5.0"]>>}}
Init == obj \in Marges /\ files = <<>> /\ hist = <<[op |-> "mk", o |-> 1, v |-> obj]>>
Next == /\ Len(hist) <= Depth
        /\ \/ Len(files) < 2 /\ files' = Append(files, Stored(obj)) /\ obj' = obj /\ hist' = Append(hist, [op |-> "save", o |-> 1, f |-> Len(files) + 1])
           \/ \E f \in 1..Len(files): obj' = files[f] /\ files' = files /\ hist' = Append(hist, [op |-> "load", o |-> 1, f |-> f, pn |-> <<>>])
           \/ \E b \in Bests: /\ ~\E k \in 1..Len(hist): hist[k].op = "addbest"
                              /\ obj' = AddBest(obj, FromBest(b, FALSE)) /\ files' = files
                              /\ hist' = Append(hist, [op |-> "addbest", o |-> 1, b |-> b, fixed |-> FALSE])
Spec == Init /\ [][Next]_vars
\* reading what was stored gives it again; nothing is invented, values stay with their names
Stable == \A f \in 1..Len(files): Stored(files[f]) = files[f]
Once == NoDup([k \in 1..Len(obj.pars) |-> obj.pars[k].name])
Kept == \A k \in 1..Len(obj.pars): LET p == obj.pars[k]
                                       z == hist[1].v.pars[PosOf(p.name, hist[1].v.pars)]
                                   IN p.mean = z.mean /\ p.lims = z.lims /\ p.label = z.label
BestKept == \A k \in 1..Len(obj.pars): obj.pars[k].best # "" => \E j \in 1..Len(hist): hist[j].op = "addbest" /\
              \/ \E q \in Range_(hist[j].b.varied): q.name = obj.pars[k].name /\ q.val = obj.pars[k].best /\ ~obj.pars[k].der
              \/ \E q \in Range_(hist[j].b.derived): q.name = obj.pars[k].name /\ q.val = obj.pars[k].best /\ obj.pars[k].der
EmitBehaviours == (Emit /\ Len(hist) = Depth + 1) => PrintT("@@" \o ToJson([ops |-> hist]))
=============================================================================
