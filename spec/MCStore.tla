------------------------------ MODULE MCStore ------------------------------
(* Save, modify and load histories of small chain sets.                      *)
EXTENDS Store, Json
CONSTANTS Depth, Emit
VARIABLES disk, ob, hist, did
vars == <<disk, ob, hist, did>>
Row(w, l, id, y) == [w |-> w, l |-> l, x |-> <<id, 7, y>>]
Ch(a, n) == [k \in 1..n |-> Row(1 + ((a + k) % 3), k % 4, 10 * a + k, (a * k) % 5)]
Info == <<[name |-> "a", label |-> "a_1", derived |-> FALSE], [name |-> "f", label |-> "f", derived |-> FALSE],
          [name |-> "y", label |-> "Y", derived |-> TRUE]>>
D(lens, b) == [chains |-> [c \in 1..Len(lens) |-> Ch(c, lens[c])], info |-> Info,
               bounds |-> [n \in {"a"} |-> <<-8, NoB>>], label |-> "lab", burned |-> b, wden |-> 1]
None == [none |-> TRUE]
Init == /\ disk \in {<<D(<<5, 4>>, b)>> : b \in BOOLEAN} \cup {<<D(<<2, 7>>, FALSE)>>}
        /\ ob = None /\ hist = <<>> /\ did = disk
Igns == {[num |-> 0, den |-> 0], [num |-> 1, den |-> 0], [num |-> 2, den |-> 0], [num |-> 3, den |-> 10], [num |-> 1, den |-> 2]}
Enough(d, g, j) == \A chs \in CutChains(d.chains, LoadCut(d, g, j)): Len(Flat(chs)) >= 2
Ld == \E r \in 1..Len(disk), g \in Igns, j \in BOOLEAN: Enough(disk[r], g, j) /\ \E o \in Load(disk[r], g, j):
        ob' = o /\ disk' = disk /\ hist' = Append(hist, [op |-> "load", root |-> r, ign |-> g, jb |-> j])
Sv == /\ ob # None /\ Len(disk) < 3
      /\ \E s \in BOOLEAN, m \in BOOLEAN: (s => ~m) /\ disk' = Append(disk, Save(ob, s, m)) /\ ob' = ob
             /\ hist' = Append(hist, [op |-> "save", single |-> s, mark |-> m])
Mem == /\ ob # None /\ NRows(ob.st) > 2
       /\ \E e \in {[op |-> "filter", mask |-> [k \in 1..NRows(ob.st) |-> k # 2]], [op |-> "wthin", k |-> 2, kden |-> 1],
                    [op |-> "setrange", name |-> "y", range |-> <<NoB, 40>>], [op |-> "setlabel", label |-> "new"],
                    [op |-> "burnrows", n |-> 1],
                    [op |-> "addcol", name |-> "z", label |-> "zz", vec |-> [k \in 1..NRows(ob.st) |-> k], range |-> <<0, NoB>>]}:
            /\ CanDo(ob.st, e) /\ \E o \in MemOps(ob, e): ob' = o /\ NRows(o.st) >= 2
            /\ disk' = disk /\ hist' = Append(hist, e)
Next == Len(hist) < Depth /\ (Ld \/ Sv \/ Mem) /\ did' = did
Spec == Init /\ [][Next]_vars
\* C09: loading what was just saved, with no burn-in to remove, gives the object again
SameMeta(a, b) == a.info = b.info /\ a.bounds = b.bounds /\ a.label = b.label
RoundTrip == ob # None => \A s \in BOOLEAN: Load(Save(ob, s, FALSE), NoCut, FALSE) = {FixCols([ob EXCEPT !.st.mode = "combined",
      !.st.chains = IF s THEN <<Rows(ob.st)>> ELSE NonEmpty(ob.st.chains), !.st.minw = TRUE])}
\* C10: marked files are never cut; a cut only removes leading rows of each chain, about the requested number, whatever else happens
MarkedWhole == \A r \in 1..Len(disk): disk[r].burned => \A g \in Igns: LoadRaw(disk[r], g) = {disk[r].chains}
IsSuffix_(a, b) == \E k \in 0..Len(b): a = DropN(b, k)
CutOnce == \A r \in 1..Len(disk): \A g \in Igns: \A chs \in LoadRaw(disk[r], g):
     /\ Len(chs) = Len(disk[r].chains)
     /\ \A c \in 1..Len(chs): IsSuffix_(chs[c], disk[r].chains[c])
          /\ (~disk[r].burned /\ g.den > 0) => LET n == Len(disk[r].chains[c]) - Len(chs[c]) IN
                   n * g.den >= Len(disk[r].chains[c]) * g.num - g.den /\ n * g.den <= Len(disk[r].chains[c]) * g.num + g.den
\* samples that had burn-in removed are never cut again after saving and loading them
OnceOnly == ob # None /\ ob.burned => \A g \in Igns, s \in BOOLEAN: \A o \in Load(Save(ob, s, FALSE), g, FALSE): Rows(o.st) = Rows(FixCols(ob).st)
FilesKept == disk[1] = did[1]
EmitBehaviours == (Emit /\ Len(hist) = Depth /\ hist[Depth].op = "load" /\ \E k \in 1..Depth: hist[k].op = "save") => PrintT("@@" \o ToJson([disk |-> did[1], ops |-> hist]))
=============================================================================
