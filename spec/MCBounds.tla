------------------------------ MODULE MCBounds ------------------------------
(* Histories of setting, saving, reading and copying bounds of two objects.   *)
EXTENDS Bounds, Json
CONSTANTS Depth, Emit
VARIABLES objs, files, hist, before
vars == <<objs, files, hist, before>>
Names == {"x", "y"}
Vals == {"N", "1.0", "2.0"}
Init == objs = <<Empty, MkSamples(Empty, <<"x">>, <<>>, <<>>, None)>> /\ files = <<>> /\ hist = <<>> /\ before = objs
Upd(o, v) == [objs EXCEPT ![o] = ApplyLim(v)]
Next == /\ Len(hist) < Depth /\ before' = objs
        /\ \/ \E o \in 1..2, n \in Names, a, b \in Vals: objs' = Upd(o, Set1(objs[o], n, <<a, b>>)) /\ files' = files
                /\ hist' = Append(hist, [op |-> "set", o |-> o, n |-> n, r |-> <<a, b>>])
           \/ \E o \in 1..2: Len(files) < 2 /\ files' = Append(files, ToLines(objs[o])) /\ objs' = objs /\ hist' = Append(hist, [op |-> "save", o |-> o])
           \/ \E f \in 1..Len(files): objs' = [objs EXCEPT ![1] = FromLines(files[f])] /\ files' = files /\ hist' = Append(hist, [op |-> "load", o |-> 1, f |-> f])
           \/ objs' = Upd(2, [objs[2] EXCEPT !.b = objs[1].b, !.order = objs[1].order]) /\ files' = files /\ hist' = Append(hist, [op |-> "replace", o |-> 2, from |-> 1])
           \/ \E r \in {<<"1.0", "2.0">>, <<"N", "1.0">>}: objs' = Upd(2, [objs[2] EXCEPT !.lim = Append(@, [n |-> "x", r |-> r])]) /\ files' = files
                /\ hist' = Append(hist, [op |-> "lim", o |-> 2, n |-> "x", r |-> r])
Spec == Init /\ [][Next]_vars
\* saving and reading back gives the same bounds; only the named parameter of the named object ever changes
RoundTrip == \A o \in 1..2: LET r == FromLines(ToLines(objs[o])) IN r.b = objs[o].b /\ r.order = objs[o].order
LastOp == hist[Len(hist)]
OnlyNamed == Len(hist) > 0 => \A o \in 1..2: \A n \in Names:
    BoundOf(objs[o], n) # BoundOf(before[o], n) => LastOp.op # "save" /\ LastOp.o = o /\ (LastOp.op = "set" => LastOp.n = n \/ (\E k \in 1..Len(objs[o].lim): objs[o].lim[k].n = n)) /\ (LastOp.op = "lim" => LastOp.n = n)
LastWins == (Len(hist) > 0 /\ LastOp.op = "set" /\ objs[LastOp.o].kind = "plain") => \A k \in 1..2: LastOp.r[k] # "N" => BoundOf(objs[LastOp.o], LastOp.n)[k] = LastOp.r[k]
LimitsWin == \A n \in {"x"}: LET l == LimOf(objs[2], n) IN \A k \in 1..2: l[k] # "N" => BoundOf(objs[2], n)[k] = l[k]
EmitBehaviours == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson([ops |-> hist]))
=============================================================================
