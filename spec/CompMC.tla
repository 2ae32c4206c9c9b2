------------------------------- MODULE CompMC ------------------------------
(* Exhaustive exploration of a component machine to a given depth, with       *)
(* every transition optionally written out as a call sequence.                *)
EXTENDS CompUtil
CONSTANTS CInit, COps(_), CLegal(_, _), CNext(_, _, _), CModel(_, _), CInv(_), Depth, Emit
VARIABLES s, hist
RECURSIVE JoinLines(_)
JoinLines(q) == IF q = <<>> THEN "" ELSE Line(Head(q)) \o ";" \o JoinLines(Tail(q))
Init == s = CInit /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E op \in COps(s) :
       /\ CLegal(s, op)
       /\ s' = CNext(s, op, CModel(s, op))
       /\ hist' = Append(hist, op)
       /\ (Emit => PrintT("SEQ " \o JoinLines(hist')))
Spec == Init /\ [][Next]_<<s, hist>>
View == s
Inv == CInv(s)
=============================================================================
