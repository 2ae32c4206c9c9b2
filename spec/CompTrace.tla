----------------------------- MODULE CompTrace -----------------------------
(* Validation of a recorded trace: every recorded step must be a step of the  *)
(* component machine with the recorded result and observation.                *)
EXTENDS CompUtil
\* Trace: the recorded steps, read from the file by the module that instantiates this one
CONSTANTS Trace, CInit, CLegal(_, _), CNext(_, _, _), CCheck(_, _, _, _), CInv(_)
VARIABLES s, l, skip
Init == s = CInit /\ l = 1 /\ skip = FALSE
TraceFail(t, why) == PrintT(<<"MISMATCH", "line", l, why, t>>) /\ FALSE
TraceStep(op, t) ==
  /\ IF t.x = "crash" THEN TraceFail(op, "the code failed during a legal call") ELSE TRUE
  /\ LET u == CNext(s, op, t) IN
     /\ IF CCheck(s, op, u, t) THEN TRUE ELSE TraceFail(t, "not a step of the specification")
     /\ s' = u
Next ==
  /\ l <= Len(Trace)
  /\ LET t == Trace[l]  op == Op(t.n, t.a) IN
     CASE t.n = "end" -> PrintT(<<"ACCEPTED", l>>) /\ UNCHANGED <<s, skip>>
       [] t.n = "reset" -> s' = CInit /\ skip' = FALSE
       [] t.n \notin {"end", "reset"} /\ (skip \/ ~CLegal(s, op)) ->
            (IF skip THEN TRUE ELSE PrintT(<<"ILLEGAL", l, op>>)) /\ skip' = TRUE /\ UNCHANGED s
       [] OTHER -> TraceStep(op, t) /\ skip' = FALSE
  /\ l' = l + 1
Spec == Init /\ [][Next]_<<s, l, skip>>
Inv == CInv(s)
=============================================================================
