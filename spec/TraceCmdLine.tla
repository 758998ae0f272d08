----------------------------- MODULE TraceCmdLine -----------------------------
(* Command-line analyses as run by the code.                                    *)
EXTENDS CmdLine, Json, IOUtils
VARIABLES i
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
SetOf(s) == Range_(s)
DataOK(o, b) ==
    /\ b.cov = Used(o) /\ b.covpars = Basic(o)
    /\ ~o.plotsonly => (b.marge = Used(o) /\ b.margepars = Varying(o) /\ b.limits /\ b.like)
    /\ o.thin > 1 => b.thin
PlotsOK(o, b) ==
    ~o.noplots =>
    /\ SetOf(b.one) = OnePanels(o) /\ Len(b.one) = Cardinality(OnePanels(o))
    /\ Pairs(o) # <<>> => IF o.against # "" THEN {{p[1], p[2]} : p \in SetOf(b.two)} = {{p[1], p[2]} : p \in TwoPanels(o)}
                          ELSE SetOf(b.two) = TwoPanels(o)
    /\ Triangle(o) # <<>> => SetOf(b.tri) = TriPanels(o)
    /\ Triples(o) # <<>> => SetOf(b.three) = ThreePanels(o)
\* other chains there, and their files, are left alone (others: TRUE)
OK(e) == /\ e.obs.err = ""
         /\ SetOf(e.obs.files) = Files(e.o)
         /\ e.obs.others
         /\ DataOK(e.o, e.obs)
         /\ PlotsOK(e.o, e.obs)
Init == i = 1
Step == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i] IN IF OK(e) THEN TRUE ELSE PrintT(<<"MISMATCH", i, [used |-> Used(e.o), files |-> Files(e.o), one |-> OnePanels(e.o), two |-> TwoPanels(e.o),
                                                                              tri |-> TriPanels(e.o), three |-> ThreePanels(e.o)]>>)
Spec == Init /\ [][Step]_i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
