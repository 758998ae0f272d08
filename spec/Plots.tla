-------------------------------- MODULE Plots --------------------------------
(* Plots of sample sets: which panel shows which densities.                   *)
(* A request q is a record                                                    *)
(*   kind    "1d" (array of 1D plots), "2d" (array of 2D plots), "rect"       *)
(*           (rectangle), "tri" (triangle), "3d" (coloured scatter plots)     *)
(*   sets    the sample sets (numbers), in order                              *)
(*   upper   the sets for the upper half of a triangle (<<>>: none)           *)
(*   px, py  parameters (py: of the rows of a rectangle); pairs: of 2D plots  *)
(*   nx      requested number of columns (0: any)                             *)
(*   ren     pairs <<name, other name>> of renamed parameters                 *)
(*   cols, ls  requested colours and line styles, by set (<<>>: default)      *)
(*   labels  requested legend labels (<<>>: default); order: of the legend    *)
(*   mx, my  markers <<parameter, value>>; lims: <<parameter, low, high>>     *)
(*   title   mark the limits of the first set as titles of the 1D panels      *)
(* names: parameter names of every set (set s is names[s + 1])                *)
EXTENDS VBase
\* the name under which set s has parameter p ("" if it does not)
NameIn(names, ren, s, p) ==
    IF p \in Range_(names[s + 1]) THEN p
    ELSE LET alt == SelectIdx(ren, LAMBDA k: ren[k][1] = p /\ ren[k][2] \in Range_(names[s + 1]))
         IN IF alt = <<>> THEN "" ELSE alt[1][2]
Having(names, ren, sets, ps) == SelectIdx(sets, LAMBDA k: \A p \in Range_(ps): NameIn(names, ren, sets[k], p) # "")
Label(s, p) == "$P" \o ToString(s) \o "_{" \o p \o "}$"
Val(ms, p) == IF \E k \in 1..Len(ms): ms[k][1] = p THEN <<ms[CHOOSE k \in 1..Len(ms): ms[k][1] = p][2]>> ELSE <<>>
Lims(q, p) == IF \E k \in 1..Len(q.lims): q.lims[k][1] = p
              THEN LET l == q.lims[CHOOSE k \in 1..Len(q.lims): q.lims[k][1] = p] IN <<l[2], l[3]>> ELSE <<>>

\* the draws of a panel: set, its parameter along x and along y ("" in 1D)
Draws1(names, q, sets, p) ==
    LET h == Having(names, q.ren, sets, <<p>>) IN
    [k \in 1..Len(h) |-> [s |-> h[k], x |-> NameIn(names, q.ren, h[k], p), y |-> ""]]
Draws2(names, q, sets, p, r) ==
    LET h == Having(names, <<>>, sets, <<p, r>>) IN [k \in 1..Len(h) |-> [s |-> h[k], x |-> p, y |-> r]]
Panel1(names, q, sets, r, c, p, lab) ==
    [r |-> r, c |-> c, x |-> p, y |-> "", draws |-> Draws1(names, q, sets, p),
     xl |-> IF lab THEN Label(sets[1], p) ELSE "", yl |-> "?",
     xm |-> Val(q.mx, p), ym |-> <<>>, title |-> IF q.title THEN <<sets[1], p>> ELSE <<>>]
Panel2(names, q, sets, r, c, p, w, labx, laby) ==
    [r |-> r, c |-> c, x |-> p, y |-> w, draws |-> Draws2(names, q, sets, p, w),
     xl |-> IF labx THEN Label(q.sets[1], p) ELSE "", yl |-> IF laby THEN Label(q.sets[1], w) ELSE "",
     xm |-> Val(q.mx, p), ym |-> Val(q.my, w), title |-> <<>>]

\* sets of the one-dimensional panels of a triangle: also those that are only in its upper half
Sets1(q) == q.sets \o SelectIdx(q.upper, LAMBDA k: q.upper[k] \notin Range_(q.sets))
\* the panels, given the number of columns nc of arrays
Panels(names, q, nc) ==
    CASE q.kind = "1d" -> [k \in 1..Len(q.px) |-> Panel1(names, q, q.sets, (k - 1) \div nc, (k - 1) % nc, q.px[k], TRUE)]
      [] q.kind \in {"2d", "3d"} ->
           [k \in 1..Len(q.pairs) |-> Panel2(names, q, q.sets, (k - 1) \div nc, (k - 1) % nc, q.pairs[k][1], q.pairs[k][2], TRUE, TRUE)]
      [] q.kind = "rect" ->
           [k \in 1..(Len(q.px) * Len(q.py)) |->
              LET c == (k - 1) % Len(q.px)   r == (k - 1) \div Len(q.px)
              IN Panel2(names, q, q.sets, r, c, q.px[c + 1], q.py[r + 1], r = Len(q.py) - 1, c = 0)]
      [] q.kind = "tri" ->
           LET n == Len(q.px)
               at(k) == <<(k - 1) \div n, (k - 1) % n>>
               cell(k) == LET r == at(k)[1] c == at(k)[2] IN
                   IF r = c THEN Panel1(names, q, Sets1(q), r, c, q.px[r + 1], r = n - 1)
                   ELSE IF r > c THEN Panel2(names, q, q.sets, r, c, q.px[c + 1], q.px[r + 1], r = n - 1, c = 0)
                   ELSE Panel2(names, q, q.upper, r, c, q.px[c + 1], q.px[r + 1], FALSE, FALSE)
               ks == SelectIdx([k \in 1..(n * n) |-> k], LAMBDA k: at(k)[1] >= at(k)[2] \/ q.upper # <<>>)
           IN MapSeq(cell, ks)
\* the sets listed in the legend, in the order they are listed
AllSets(q) == IF q.kind = "tri" THEN Sets1(q) ELSE q.sets
InLegend(names, q, nc) ==
    LET ps == Panels(names, q, nc)
        drawn2 == {ps[k].draws[m].s : <<k, m>> \in {<<k, m>> \in (1..Len(ps)) \X (1..Len(AllSets(q))) : ps[k].y # "" /\ m <= Len(ps[k].draws)}}
        all == AllSets(q)
        ord == IF q.order = <<>> THEN [k \in 1..Len(all) |-> k] ELSE MapSeq(LAMBDA k: k + 1, q.order)
        listed == [k \in 1..Len(ord) |-> all[ord[k]]]
    IN IF q.labels = <<>> /\ Len(all) < 2 THEN <<>>
       ELSE IF q.kind = "1d" THEN listed ELSE SelectIdx(listed, LAMBDA k: listed[k] \in drawn2)
LegendText(q, s) == IF q.labels = <<>> THEN "set " \o ToString(s) ELSE q.labels[IndexIn(AllSets(q), s)]
=============================================================================
