------------------------------ MODULE JobCrash ------------------------------
(* Updating the index file when the process may die or a write may fail at   *)
(* any step. main and tmp are what the two files hold: a list of jobs, "none" *)
(* (no file) or "torn" (incomplete). An update reads main, changes it in      *)
(* memory, writes tmp and replaces main by it.                                *)
EXTENDS VBase, Json
CONSTANTS Depth, Emit
VARIABLES main, tmp, pc, mem, hist, old, new, jobs
vars == <<main, tmp, pc, mem, hist, old, new, jobs>>
None == [f |-> "none", l |-> <<>>]
Torn == [f |-> "torn", l |-> <<>>]
File(l) == [f |-> "ok", l |-> l]
Loaded(m) == IF m.f = "none" THEN <<>> ELSE m.l
Init == main = None /\ tmp = None /\ pc = "idle" /\ mem = <<>> /\ hist = <<>> /\ old = <<>> /\ new = <<>> /\ jobs = 0
Begin == /\ pc = "idle" /\ Len(hist) < Depth
         /\ \/ mem' = Append(Loaded(main), jobs + 1) /\ jobs' = jobs + 1 /\ hist' = Append(hist, [op |-> "add", job |-> jobs + 1, at |-> "end"])
            \/ \E k \in 1..Len(Loaded(main)): mem' = SelectIdx(Loaded(main), LAMBDA i: i # k) /\ jobs' = jobs
                   /\ hist' = Append(hist, [op |-> "del", job |-> Loaded(main)[k], at |-> "end"])
         /\ pc' = "open" /\ old' = Loaded(main) /\ new' = mem' /\ UNCHANGED <<main, tmp>>
Open == pc = "open" /\ tmp' = Torn /\ pc' = "write" /\ UNCHANGED <<main, mem, hist, old, new, jobs>>
Write == pc = "write" /\ tmp' = File(mem) /\ pc' = "rename" /\ UNCHANGED <<main, mem, hist, old, new, jobs>>
Rename == pc = "rename" /\ main' = tmp /\ tmp' = None /\ pc' = "idle" /\ UNCHANGED <<mem, hist, old, new, jobs>>
\* the process dies, or a write fails, wherever it is: memory is lost, files stay as they are
Crash == pc # "idle" /\ hist' = [hist EXCEPT ![Len(hist)].at = pc] /\ pc' = "idle" /\ mem' = <<>> /\ UNCHANGED <<main, tmp, old, new, jobs>>
Next == Begin \/ Open \/ Write \/ Rename \/ Crash
Spec == Init /\ [][Next]_vars
OldOrNew == main.f # "torn" /\ Loaded(main) \in {old, new}
Committed == (pc = "idle" /\ Len(hist) > 0 /\ hist[Len(hist)].at = "end") => Loaded(main) = new
EmitBehaviours == (Emit /\ pc = "idle" /\ Len(hist) = Depth) => PrintT("@@" \o ToJson([ops |-> hist]))
=============================================================================
