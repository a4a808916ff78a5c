------------------------------- MODULE Machines -----------------------------
(* The two machines that do not look at their instructions: the counting machine adds one for every instruction that runs,
   the null machine does nothing. A section of a rule is one instruction for both, whatever it says. m: which machine;
   n[k]: the number of instructions of production k. *)
EXTENDS Parser
VARIABLES count     \* the machine's state
Counts(m, n) == count' = IF m = "count" /\ AtDone THEN count + n[Top.sym[2]] ELSE count
MStep(tab, w, m, n) == (Predict(tab, w) \/ Match(w) \/ Complete \/ Accept(w) \/ Reject(tab, w)) /\ Counts(m, n)
=============================================================================
