------------------------------ MODULE KalmanC ------------------------------
(* Fusing two estimates (Numeric.hpp): the result is the average weighted by  *)
(* the inverse variances.  Means in 1/16, deviations in whole units; results  *)
(* are recorded with means in 1/1024 and deviations in 1/8.                   *)
EXTENDS CompUtil
CONSTANTS Means, Devs, Shs, NSeq
CInit == 0
\* kal: type (1 double, 2 float), m1, d1, m2, d2, e: everything in units of 2^e.     seq: type, number, m, d: the same measurement n times
CLegal(s, op) == op.n \in {"kal", "seq", "sq"}
CNext(s, op, t) == 0
CModel(s, op) == [r |-> <<>>]
CCheck(s, op, u, t) ==
  LET a == op.a IN
  /\ Check("all", "result", t.x = "ok", op)
  /\ op.n = "sq" => Check("all", "square", t.r = <<a[1] * a[1], a[1] * a[1]>>, <<op, t.r>>)
  /\ op.n = "kal" =>
       LET v == a[3] * a[3]  w == a[5] * a[5]  m == t.r[1]  d == t.r[2] IN
       IF v + w = 0
       THEN /\ Check("all", "two certain estimates are averaged", m = 32 * (a[2] + a[4]), <<op, t.r>>)
            /\ Check("all", "and stay certain", d = 0, <<op, t.r>>)
       ELSE /\ Check("all", "fused mean", Abs(m * (v + w) - 64 * (a[2] * w + a[4] * v)) <= (v + w), <<op, t.r>>)
            /\ Check("all", "fused deviation", Near(d, ISqrt((64 * v * w) \div (v + w)), 1), <<op, t.r>>)
            /\ Check("all", "fusing is symmetric", Near(t.r[3], m, 1) /\ Near(t.r[4], d, 1), <<op, t.r>>)
  /\ op.n = "seq" =>   \* n equal measurements: the mean stays, the variance is divided by n
       /\ Check("all", "mean of equal measurements", Near(t.r[1], 64 * a[3], 1), <<op, t.r>>)
       /\ Check("all", "deviation of n measurements", Near(t.r[2], ISqrt((64 * a[4] * a[4]) \div a[2]), 1), <<op, t.r>>)
COps(s) == {Op("kal", <<ty, m, d, n, e, sh>>) : sh \in Shs, ty \in {1, 2}, m \in Means, d \in Devs, n \in Means, e \in Devs}
           \cup {Op("sq", <<m>>) : m \in Means}
CRand(s) ==
  IF R(1..8) = 1 THEN Op("seq", <<R({1, 2}), R(1..20), R(-2000..2000), R(1..60)>>)
  ELSE Op("kal", <<R({1, 2}), R(-1600..1600), R(0..60), R(-1600..1600), R(0..60), R({0, -20, -12, -8, 6, 14})>>)
CInv(s) == TRUE
=============================================================================
