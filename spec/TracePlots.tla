------------------------------ MODULE TracePlots ------------------------------
(* Plots as drawn by the code.                                                 *)
EXTENDS Plots, Json, IOUtils
VARIABLES i
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
DrawEq(d, o) == d.s = o.s /\ d.x = o.x /\ d.y = o.y
ColourOf(q, s) == LET k == IndexIn(AllSets(q), s) IN IF k > 0 /\ k <= Len(q.cols) THEN q.cols[k] ELSE ""
StyleOf(q, s) == LET k == IndexIn(AllSets(q), s) IN IF k > 0 /\ k <= Len(q.ls) THEN q.ls[k] ELSE ""

\* a hard lower bound of one of the sets (of set 3 on p1) may cut what is drawn of the others
Low(q, p, v) == IF p = "p1" /\ 3 \in Range_(AllSets(q)) THEN Max2(v, 9200) ELSE v
Within(q, p, lim, ext) == lim[1] <= Low(q, p, ext[1]) + 5 /\ ext[2] <= lim[2] + 5
NearL(a, b) == (a[1] - b[1] \in -2..2) /\ (a[2] - b[2] \in -2..2)
PanelOK(q, p, o) ==
    /\ p.r = o.r /\ p.c = o.c
    /\ Len(p.draws) = Len(o.draws)
    /\ \A k \in 1..Len(p.draws): DrawEq(p.draws[k], o.draws[k])
    /\ p.xl = o.xl /\ (p.yl = o.yl \/ p.yl = "?")
    /\ p.xm = o.xm /\ p.ym = o.ym
    /\ (q.title \/ o.title = <<>>) => p.title = o.title
    /\ IF Lims(q, p.x) # <<>> THEN NearL(Lims(q, p.x), o.xlim) ELSE \A k \in 1..Len(o.draws): Within(q, p.x, o.xlim, o.draws[k].xe)
    /\ p.y # "" => IF Lims(q, p.y) # <<>> THEN NearL(Lims(q, p.y), o.ylim) ELSE \A k \in 1..Len(o.draws): Within(q, p.y, o.ylim, o.draws[k].ye)
\* panels above the diagonal may have labels of their own (not checked)
Loose(q, p) == IF q.kind = "tri" /\ q.upper # <<>> /\ (p.c > p.r \/ (p.c = 0 /\ p.r = 0)) THEN [p EXCEPT !.yl = "?"] ELSE p
\* one range for every parameter of a triangle, and for the columns and rows of a rectangle
SharedOK(q, P, O) == q.kind \in {"tri", "rect"} => \A k, m \in 1..Len(P):
    /\ P[k].x = P[m].x => NearL(O[k].xlim, O[m].xlim)
    /\ (P[k].y # "" /\ P[k].y = P[m].y) => NearL(O[k].ylim, O[m].ylim)
    /\ (q.kind = "tri" /\ P[k].y # "" /\ P[k].y = P[m].x) => NearL(O[k].ylim, O[m].xlim)
\* a set has the same colour (and style) everywhere: the one it was asked to have, and that of its legend entry
LookOK(q, O, leg, lobs) ==
    LET ds == {O[k].draws[m] : <<k, m>> \in {<<k, m>> \in (1..Len(O)) \X (1..8) : m <= Len(O[k].draws)}} IN
    /\ \A d \in ds: /\ ColourOf(q, d.s) # "" => d.col = ColourOf(q, d.s)
                    /\ (StyleOf(q, d.s) # "" /\ d.kind # "fill") => d.ls = StyleOf(q, d.s)
                    /\ \A k \in 1..Len(leg): (leg[k] = d.s) => (lobs[k].col = d.col /\ (d.kind = "fill" \/ q.fill \/ lobs[k].ls = d.ls))
    /\ \A c, d \in ds: (c.s = d.s) => c.col = d.col
    /\ \A c, d \in ds: (c.s # d.s /\ q.cols = <<>> /\ q.ls = <<>>) => (c.col # d.col \/ c.ls # d.ls)
LegendOK(q, leg, o) == Len(leg) = Len(o) /\ \A k \in 1..Len(leg): o[k].label = LegendText(q, leg[k])
PlotOK(e) ==
    LET q == e.q  o == e.obs IN
    /\ o.err = ""
    /\ (q.nx > 0 => o.nc = q.nx) /\ o.nc > 0
    /\ LET P == Panels(e.names, q, o.nc)  L == InLegend(e.names, q, o.nc) IN
       /\ Len(P) = Len(o.panels)
       /\ \A k \in 1..Len(P): PanelOK(q, Loose(q, P[k]), o.panels[k])
       /\ SharedOK(q, P, o.panels)
       /\ LegendOK(q, L, o.legend)
       /\ LookOK(q, o.panels, L, o.legend)
\* coloured scatter plots: points of the first set with the third parameter, contours of the others
ScatterOK(e) ==
    LET q == e.q  o == e.obs IN
    /\ o.err = ""
    /\ LET P == Panels(e.names, q, o.nc) IN
       /\ Len(P) = Len(o.panels)
       /\ \A k \in 1..Len(P): LET p == P[k] b == o.panels[k] IN
            /\ p.r = b.r /\ p.c = b.c /\ p.xl = b.xl /\ p.yl = b.yl
            /\ Len(b.draws) = Len(p.draws)
            /\ \A m \in 1..Len(p.draws): DrawEq(p.draws[m], b.draws[m])
            /\ b.draws[1].kind = "points" /\ b.draws[1].z = q.pairs[k][3]
            /\ \A m \in 2..Len(b.draws): b.draws[m].kind = "line"
            /\ \A m \in 1..Len(b.draws): Within(q, p.x, b.xlim, b.draws[m].xe) /\ Within(q, p.y, b.ylim, b.draws[m].ye)
       /\ q.pairs[1][3] # "" => (Len(o.bars) = Len(P) /\ \A k \in 1..Len(P): o.bars[k] = Label(q.sets[1], q.pairs[k][3]))
OK(e) == CASE e.op = "start" -> TRUE
    [] e.op = "plot" -> PlotOK(e)
    [] e.op = "scatter" -> ScatterOK(e)
    [] e.op = "axes" -> /\ e.obs.err = ""
                        /\ \E k \in 1..Len(Panels(e.names, e.q, e.nc)): LET p == Panels(e.names, e.q, e.nc)[k] IN
                              p.x = e.x /\ p.y = e.y /\ e.obs.at = <<p.r, p.c>>
Init == i = 1
Step == /\ i <= Len(Trace) /\ i' = i + 1
        /\ IF OK(Trace[i]) THEN TRUE ELSE PrintT(<<"MISMATCH", i, IF Trace[i].op = "plot" /\ Trace[i].obs.err = "" THEN Panels(Trace[i].names, Trace[i].q, Trace[i].obs.nc) ELSE <<>> >>)
Spec == Init /\ [][Step]_i
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
