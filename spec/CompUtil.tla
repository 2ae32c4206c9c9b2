------------------------------ MODULE CompUtil -----------------------------
(* Vocabulary shared by the component specifications.                        *)
(*                                                                           *)
(* A component specification describes one class (or a few that belong       *)
(* together) as a machine whose transitions are its public calls:            *)
(*   CInit            initial state                                          *)
(*   COps(s)          a finite set of calls, for exhaustive exploration       *)
(*   CRand(s)         one randomly chosen call                                *)
(*   CLegal(s, op)    may a user make this call in this state                 *)
(*   CNext(s, op, t)  the state after the call (t: what the call returned,    *)
(*                    used only where the interface leaves a choice)          *)
(*   CModel(s, op)    a return record the interface allows (used when there   *)
(*                    is no implementation to ask)                            *)
(*   CCheck(s,op,u,t) is the recorded step allowed                            *)
(*   CInv(s)          what the component guarantees in every state            *)
(* The modules CompMC, CompGen and CompTrace explore it exhaustively,         *)
(* generate call sequences from it, and validate recorded traces against it.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Facets

Op(n, a) == [n |-> n, a |-> a]
R(S) == RandomElement(S)
\* an element of a sequence: what is listed more often is chosen more often
RS(q) == q[RandomElement(DOMAIN q)]
Check(f, what, cond, info) ==
  IF f \notin Facets THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"WHY", f, what, info>>) /\ FALSE
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* arguments evaluated once (TLC passes them by name)
Strict1(F(_), a) == CHOOSE y \in {F(x[1]) : x \in {<<a>>}} : TRUE
Strict2(F(_, _), a, b) == CHOOSE y \in {F(x[1], x[2]) : x \in {<<a, b>>}} : TRUE
Strict3(F(_, _, _), a, b, c) == CHOOSE y \in {F(x[1], x[2], x[3]) : x \in {<<a, b, c>>}} : TRUE
Near(a, b, tol) == Abs(a - b) <= tol
\* integer division rounding to minus infinity is TLA's \div
Rest1(q) == SubSeq(q, 2, Len(q))
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE ISqrtF(_, _, _)
ISqrtF(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrtF(n, m, hi) ELSE ISqrtF(n, lo, m)
ISqrt(n) == ISqrtF(n, 0, 46341)      \* floor of the square root
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
DropAt(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
SameBagSeq(p, q) == /\ Len(p) = Len(q)
                    /\ \A i \in 1..Len(p) : Cardinality({j \in 1..Len(p) : p[j] = p[i]}) = Cardinality({j \in 1..Len(q) : q[j] = p[i]})
\* a weighted random choice of one of the names in <<name, weight>> pairs
Pick(ws) == LET RECURSIVE B(_)
                B(i) == IF i > Len(ws) THEN <<>> ELSE [j \in 1..ws[i][2] |-> ws[i][1]] \o B(i + 1)
                b == B(1)
            IN b[R(1..Len(b))]
RECURSIVE JoinA(_)
JoinA(q) == IF q = <<>> THEN "" ELSE " " \o ToString(Head(q)) \o JoinA(Tail(q))
Line(op) == op.n \o JoinA(op.a)
=============================================================================
