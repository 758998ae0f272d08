------------------------------ MODULE MCCmdLine ------------------------------
(* All combinations of a small set of options.                                  *)
EXTENDS CmdLine, Json
CONSTANTS Emit
VARIABLES o, done
Base == [chains |-> <<1, 2, 3>>, first |-> 0, last |-> -1, excl |-> <<>>, cutini |-> -1, cutarg |-> -1, burned |-> FALSE, cool |-> 1, thin |-> 0,
         notests |-> FALSE, noplots |-> TRUE, plotsonly |-> FALSE, pca |-> FALSE, ini |-> TRUE, pars |-> <<"xa", "xb", "f", "yc">>, fixed |-> <<"f">>,
         one |-> <<>>, against |-> "", two |-> <<>>, tri |-> <<>>, three |-> <<>>]
Init == o = Base /\ done = 0
\* which samples are used
Data == \E ch \in {<<0>>, <<1>>, <<1, 2>>, <<1, 2, 3>>}, f \in {0, 2}, l \in {-1, 2}, x \in {<<>>, <<1>>, <<2>>}, ci \in {-1, 0, 2}, ca \in {-1, 3}, b \in BOOLEAN, t \in {1, 2}:
          o' = [o EXCEPT !.chains = ch, !.first = f, !.last = l, !.excl = x, !.cutini = ci, !.cutarg = ca, !.burned = b, !.cool = t]
\* what is written
Outs == \E th \in {0, 2}, nt \in BOOLEAN, np \in BOOLEAN, po \in BOOLEAN, pc \in BOOLEAN, ag \in {"", "xb"}, tr \in {<<>>, << <<>> >>, << <<"x*">> >>, << <<"yc">> >>},
           tw \in {<<>>, << <<"yc", "xa">>, <<"xa", "zz">> >>}, td \in {<<>>, << <<"yc", "xb", "xa">> >>, << <<"xa", "f", "xb">> >>}, on \in {<<>>, <<"yc", "x?">>}:
          o' = [o EXCEPT !.thin = th, !.notests = nt, !.noplots = np, !.plotsonly = po, !.pca = pc, !.against = ag, !.tri = tr, !.two = tw, !.three = td, !.one = on]
Next == done = 0 /\ done' = 1 /\ (Data \/ Outs)
Spec == Init /\ [][Next]_<<o, done>>
UsedAreThere == Range_(UsedChains(o)) \subseteq Range_(o.chains) /\ NoDup(UsedChains(o))
NoPlotFiles == o.noplots => \A f \in Files(o): f \notin {".py", "_2D.py", "_tri.py", "_3D.py"}
NoFixed == \A p \in OnePanels(o) \cup TwoPanels(o) \cup TriPanels(o) \cup ThreePanels(o): p[1] # "f" /\ p[2] # "f"
EmitBehaviours == (Emit /\ done = 1 /\ UsedChains(o) # <<>>) => PrintT("@@" \o ToJson(o))
=============================================================================
