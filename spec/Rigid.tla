------------------------------- MODULE Rigid -------------------------------
(* Exact rigid transforms: rotations by multiples of 90 degrees, written as   *)
(* signed permutations <<p1, p2, p3>> (the image of axis j is sign(pj) times  *)
(* axis |pj|), and integer translations.  [m |-> matrix, t |-> translation]   *)
EXTENDS CompUtil
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Id3 == <<1, 2, 3>>
\* matrix of a signed permutation
Mat(p) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> IF Abs(p[j]) = i THEN Sgn(p[j]) ELSE 0]])
Det(p) == LET m == Mat(p) IN
   m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2]) - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
   + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
AllRots == {p \in [1..3 -> {-3, -2, -1, 1, 2, 3}] : Cardinality({Abs(p[i]) : i \in 1..3}) = 3 /\ Det(p) = 1}
Dot3(a, B, j) == a[1] * B[1][j] + a[2] * B[2][j] + a[3] * B[3][j]
Dot(a, B, j, n) == IF n = 3 THEN Dot3(a, B, j) ELSE Dot3(a, B, j) + a[4] * B[4][j] + a[5] * B[5][j] + a[6] * B[6][j]
MM0(A, B, n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> Dot(A[i], B, j, n)]])
MM(A, B, n) == Strict3(MM0, A, B, n)
Tr0(A, n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> A[j][i]]])
Tr(A, n) == Strict2(Tr0, A, n)
MV0(A, v) == TLCEval([i \in 1..3 |-> A[i][1] * v[1] + A[i][2] * v[2] + A[i][3] * v[3]])
MV(A, v) == Strict2(MV0, A, v)
Add30(v, w) == TLCEval([i \in 1..3 |-> v[i] + w[i]])
Add3(v, w) == Strict2(Add30, v, w)
Neg30(v) == TLCEval([i \in 1..3 |-> -v[i]])
Neg3(v) == Strict1(Neg30, v)
AddM0(A, B, n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> A[i][j] + B[i][j]]])
AddM(A, B, n) == Strict3(AddM0, A, B, n)
I3 == Mat(Id3)
A3(a, i) == <<a[i], a[i + 1], a[i + 2]>>
RotOk(p) == p[1] # 0 /\ p[2] # 0 /\ p[3] # 0 /\ Cardinality({Abs(p[1]), Abs(p[2]), Abs(p[3])}) = 3 /\ Det(p) = 1
RV(lo, hi) == <<R(lo..hi), R(lo..hi), R(lo..hi)>>
\* without uncertainty
RMake(p, t) == [m |-> Mat(p), t |-> t]
RId == RMake(Id3, <<0, 0, 0>>)
RComp0(a, b) == [m |-> MM(a.m, b.m, 3), t |-> Add3(MV(a.m, b.t), a.t)]
RComp(a, b) == Strict2(RComp0, a, b)
RInv0(a) == LET mt == Tr(a.m, 3) IN [m |-> mt, t |-> Neg3(MV(mt, a.t))]
RInv(a) == Strict1(RInv0, a)
RPt0(a, p) == Add3(MV(a.m, p), a.t)
RPt(a, p) == Strict2(RPt0, a, p)
=============================================================================
