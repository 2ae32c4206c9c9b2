------------------------------ MODULE KMeansC ------------------------------
(* KMeans: clustering of weighted samples in the plane.  One object is used    *)
(* again and again.  A call carries its whole input:                           *)
(*   cluster <<k, hasw, x1, y1, w1, x2, y2, w2, ...>>                          *)
(* and returns mean and covariance of the clusters, in 1/1024.                 *)
EXTENDS CompUtil
CONSTANTS MCoord, MN, MK, MW

CInit == [in |-> <<>>, out |-> <<>>]
Pts(op) == [i \in 1..((Len(op.a) - 2) \div 3) |-> <<op.a[3 * i], op.a[3 * i + 1], IF op.a[2] = 1 THEN op.a[3 * i + 2] ELSE 1>>]
CLegal(s, op) == op.n = "cluster" /\ op.a[1] >= 1 /\ Len(Pts(op)) >= op.a[1] /\ SumSeq([i \in 1..Len(Pts(op)) |-> Pts(op)[i][3]]) > 0

\* sums over the samples that f assigns to cluster c
Sum(p, f, c, g(_)) == SumSeq([i \in 1..Len(p) |-> IF f[i] = c THEN p[i][3] * g(p[i]) ELSE 0])
One(q) == 1
X(q) == q[1]
Y(q) == q[2]
XX(q) == q[1] * q[1]
XY(q) == q[1] * q[2]
YY(q) == q[2] * q[2]
Sq(x) == x * x
\* every sample is in the cluster whose mean is nearest (exact, no division)
Fixpoint(p, f, k) ==
  LET W == [c \in 1..k |-> Sum(p, f, c, One)]  SX == [c \in 1..k |-> Sum(p, f, c, X)]  SY == [c \in 1..k |-> Sum(p, f, c, Y)]
      D(i, c) == Sq(p[i][1] * W[c] - SX[c]) + Sq(p[i][2] * W[c] - SY[c])         \* times W[c]^2
  IN /\ \A c \in 1..k : W[c] > 0
     /\ \A i \in 1..Len(p) : \A c \in 1..k : D(i, f[i]) * Sq(W[c]) <= D(i, c) * Sq(W[f[i]])
\* the reported clusters are the exact statistics of the assignment
StatsOk(p, f, out) ==
  \A c \in 1..Len(out) :
    LET W == Sum(p, f, c, One)  sx == Sum(p, f, c, X)  sy == Sum(p, f, c, Y)  o == out[c]
        Ok2(v, sxx, a, b) == Near(v * W * W, (sxx * W - a * b) * 1024, W * W * 2)
    IN /\ Near(o[1] * W, sx * 1024, W) /\ Near(o[2] * W, sy * 1024, W)
       /\ Ok2(o[3], Sum(p, f, c, XX), sx, sx) /\ Ok2(o[4], Sum(p, f, c, XY), sx, sy)
       /\ Ok2(o[5], Sum(p, f, c, XY), sx, sy) /\ Ok2(o[6], Sum(p, f, c, YY), sy, sy)

\* assignments that could be meant by reported means
Cands(q, out) == LET d(c) == Sq(q[1] * 1024 - out[c][1]) + Sq(q[2] * 1024 - out[c][2])
                     m == MinOf({d(c) : c \in 1..Len(out)})
                 IN {c \in 1..Len(out) : d(c) <= m + 150000}
RECURSIVE Assigns(_, _)
Assigns(p, out) == IF p = <<>> THEN {<<>>} ELSE {<<c>> \o f : c \in Cands(Head(p), out), f \in Assigns(Tail(p), out)}

Plain(out) == \A c \in 1..Len(out) : \A i \in 1..6 : Abs(out[c][i]) <= 16 * 16 * 1024
CCheck(s, op, u, t) ==
  LET p == Pts(op)  out == t.r IN
  /\ Check("all", "result", t.x = "ok", op)
  /\ Check("all", "number of clusters", Len(out) >= 1 /\ Len(out) <= op.a[1], <<op, out>>)
  /\ Check("all", "finite means", \A c \in 1..Len(out) : \A i \in 1..2 : out[c][i] >= 0 /\ out[c][i] <= 16 * 1024, <<op, out>>)
  /\ Check("all", "finite covariances", Plain(out), <<op, out>>)
  /\ Check("all", "clusters are the statistics of a nearest-mean partition",
           \E f \in Assigns(p, out) : StatsOk(p, f, out) /\ Fixpoint(p, f, Len(out)), <<op, out>>)

---------------------------------------------------------------------------
(* The algorithm itself, for exploration: associate and recompute until the    *)
(* assignment is stable; classes that lose all samples are dropped.            *)
Near1(p, i, W, SX, SY, live) ==      \* nearest live class of sample i; lowest index on ties
  LET D(c) == Sq(p[i][1] * W[c] - SX[c]) + Sq(p[i][2] * W[c] - SY[c])
      best == {c \in live : \A d \in live : D(c) * Sq(W[d]) <= D(d) * Sq(W[c])}
  IN MinOf(best)
RECURSIVE Lloyd(_, _, _, _, _, _, _)
Lloyd(p, k, f, W, SX, SY, fuel) ==
  LET live == {c \in 1..k : W[c] > 0}
      f2 == [i \in 1..Len(p) |-> Near1(p, i, W, SX, SY, live)]
  IN IF f2 = f THEN [f |-> f, done |-> TRUE]
     ELSE IF fuel = 0 THEN [f |-> f, done |-> FALSE]
     ELSE Lloyd(p, k, f2, [c \in 1..k |-> Sum(p, f2, c, One)], [c \in 1..k |-> Sum(p, f2, c, X)], [c \in 1..k |-> Sum(p, f2, c, Y)], fuel - 1)
Solve(op) ==
  LET p == Pts(op)  k == op.a[1]  st == Len(p) \div k IN
  Lloyd(p, k, [i \in 1..Len(p) |-> 1], [c \in 1..k |-> 1], [c \in 1..k |-> p[(c - 1) * st + 1][1]], [c \in 1..k |-> p[(c - 1) * st + 1][2]], 12)
Renum(f) == LET used == {f[i] : i \in 1..Len(f)} IN [i \in 1..Len(f) |-> Cardinality({c \in used : c <= f[i]})]
\* a model step carries the solution found by the algorithm above
CNext(s, op, t) == [in |-> op.a, out |-> IF "md" \in DOMAIN t THEN <<t.md>> ELSE <<>>]
CModel(s, op) == [r |-> <<>>, md |-> Solve(op)]
CInv(s) == s.out = <<>> \/
           LET p == Pts(Op("cluster", s.in))  f == Renum(s.out[1].f)
               wsum(c) == Sum(p, f, c, One)
           IN /\ s.out[1].done
              /\ (\A c \in 1..MaxOf({f[i] : i \in 1..Len(f)}) : wsum(c) > 0) => Fixpoint(p, f, MaxOf({f[i] : i \in 1..Len(f)}))

SeqsOf(S, n) == [1..n -> S]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
COps(s) == UNION {{Op("cluster", <<k, 1>> \o Flat([i \in 1..n |-> <<x[i] \div MCoord, x[i] % MCoord, w[i]>>])) :
                     x \in SeqsOf(0..(MCoord * MCoord - 1), n), w \in SeqsOf(MW, n)} : n \in MN, k \in MK} 
Fresh(s) ==
  LET n == R(1..9)  k == R(1..Min2(n, 4))  m == R({1, 3, 8, 15})
      p == [i \in 1..n |-> <<R(0..m), R(0..m), RS(<<1, 1, 2, 3, 0>>)>>]
  IN Op("cluster", <<k, R({0, 1})>> \o Flat(p))
\* a used object is often given a similar problem again
Again(s) == Op("cluster", [i \in 1..Len(s.in) |-> IF i <= 2 \/ i % 3 = 2 THEN s.in[i] ELSE Max2(0, Min2(15, s.in[i] + RS(<<-1, 0, 0, 1>>)))])
\* evenly spread samples with the initial means close together: many iterations
Long(s) ==
  LET n == R(11..16)  k == RS(<<2, 2, 3>>)  st == n \div k  m == R({3, 15})
      p == [i \in 1..n |-> IF (i - 1) % st = 0 /\ (i - 1) \div st < k THEN <<R(0..1), R(0..1), 1>> ELSE <<R(0..15), R(0..m), 1>>]
  IN Op("cluster", <<k, 0>> \o Flat(p))
CRand(s) == IF R(1..3) = 1 THEN Long(s) ELSE IF s.in # <<>> /\ R(1..2) = 1 THEN Again(s) ELSE Fresh(s)
=============================================================================
