------------------------------ MODULE CompGen ------------------------------
(* Random behaviours of a component machine, as call sequences.               *)
EXTENDS CompUtil
CONSTANTS CInit, CRand(_), CLegal(_, _), CNext(_, _, _), CModel(_, _), CInv(_), SeqLen
VARIABLES s, n
RECURSIVE GenTry(_, _)
GenTry(st, k) == IF k = 0 THEN Op("reset", <<>>) ELSE LET o == CRand(st) IN IF CLegal(st, o) THEN o ELSE GenTry(st, k - 1)
Init == s = CInit /\ n = 0
Next ==
  \E op \in {IF n = 0 THEN Op("reset", <<>>) ELSE GenTry(s, 30)} :
    /\ PrintT("OP " \o Line(op))
    /\ n' = IF op.n = "reset" THEN 1 ELSE (n + 1) % SeqLen
    /\ s' = IF op.n = "reset" THEN CInit ELSE CNext(s, op, CModel(s, op))
Spec == Init /\ [][Next]_<<s, n>>
Inv == CInv(s)
=============================================================================
