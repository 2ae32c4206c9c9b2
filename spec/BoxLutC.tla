------------------------------ MODULE BoxLutC ------------------------------
(* BoxLookUpTable: distance of a point to an axis-aligned box around the      *)
(* origin, tabulated.  All lengths are in units of 1/64.                      *)
(* The table is a cell-wise upper estimate: never more than a sampling step   *)
(* below the true distance and never more than a cell diagonal above it.      *)
EXTENDS CompUtil
CONSTANTS Scales, Sizes, Dists, Q      \* Q: query coordinates for exploration

CInit == [on |-> FALSE, sc |-> 0, sx |-> 0, sy |-> 0, md |-> 0, cov |-> 0]
CLegal(s, op) == CASE op.n = "recompute" -> op.a[1] > 0 /\ op.a[2] >= 0 /\ op.a[3] >= 0 /\ op.a[4] >= 0 /\ op.a[2] + op.a[4] > 0 /\ op.a[3] + op.a[4] > 0
                   [] op.n = "dist" -> TRUE
                   [] OTHER -> FALSE
CNext(s, op, t) ==
  IF op.n # "recompute" THEN s
  ELSE LET a == op.a  same == s.on /\ s.sc = a[1] /\ s.sx = a[2] /\ s.sy = a[3] IN
       [on |-> TRUE, sc |-> a[1], sx |-> a[2], sy |-> a[3], md |-> a[4], cov |-> IF same THEN Max2(s.cov, a[4]) ELSE a[4]]
CModel(s, op) == [r |-> <<0>>]

\* true distance in units of 1/1024 (the driver reports this unit); half sizes are in 1/128
Excess(p, size) == Max2(0, 2 * Abs(p) - size)       \* in 1/128
Dist(s, x, y) == LET dx == Excess(x, s.sx) * 8  dy == Excess(y, s.sy) * 8 IN
                 IF dx = 0 THEN dy ELSE IF dy = 0 THEN dx ELSE ISqrt(dx * dx + dy * dy)
Inside(s, x, y, m) == 2 * Abs(x) <= s.sx + 2 * m /\ 2 * Abs(y) <= s.sy + 2 * m
\* the border itself may fall just outside through rounding
Within(s, x, y) == 2 * Abs(x) < s.sx + 2 * s.md /\ 2 * Abs(y) < s.sy + 2 * s.md
Diag(s) == (s.sc * 16 * 142) \div 100 + 2           \* a cell diagonal in 1/1024
Step(s) == (s.sc * 16 * 15) \div 100 + 2            \* a sampling step, diagonally
CCheck(s, op, u, t) ==
  IF op.n = "recompute" THEN Check("all", "recompute", t.x = "ok", op)
  ELSE LET x == op.a[1]  y == op.a[2]  d == Dist(s, x, y) IN
    IF ~s.on THEN Check("all", "lookup without a table is refused", t.x = "throw", op)
    ELSE IF t.x = "throw" THEN Check("all", "refused inside the requested area", ~Within(s, x, y), <<s, op>>)
    ELSE /\ Check("all", "far outside must be refused", Inside(s, x, y, s.cov + 2 * s.sc), <<s, op, t.r, d>>)
         /\ Check("all", "not below the distance", Within(s, x, y) => t.r[1] >= d - Step(s), <<s, op, t.r, d>>)
         /\ Check("all", "not far above the distance", Within(s, x, y) => t.r[1] <= d + Diag(s), <<s, op, t.r, d>>)
         /\ Check("all", "plausible near the border", t.r[1] >= 0 /\ t.r[1] <= d + Diag(s), <<s, op, t.r, d>>)
COps(s) == {Op("recompute", <<a, b, c, d>>) : a \in Scales, b \in Sizes, c \in Sizes, d \in Dists}
           \cup {Op("dist", <<x, y>>) : x \in Q, y \in Q}
CRand(s) ==
  IF R(1..6) = 1 \/ (~s.on /\ R(1..4) # 1) THEN
    LET keep == s.on /\ R(1..2) = 1 IN       \* often only one parameter changes
    IF keep THEN LET k == R(1..4) IN Op("recompute", [i \in 1..4 |-> IF i = k THEN (CASE i = 1 -> R(Scales) [] i = 4 -> R(Dists) [] OTHER -> R(Sizes))
                                                            ELSE <<s.sc, s.sx, s.sy, s.md>>[i]])
    ELSE Op("recompute", <<R(Scales), R(Sizes), R(Sizes), R(Dists)>>)
  ELSE LET bx == (s.sx \div 2) + s.md + 3 * s.sc  by == (s.sy \div 2) + s.md + 3 * s.sc IN
       Op("dist", <<R(-bx..bx), R(-by..by)>>)
CInv(s) == s.cov >= s.md
=============================================================================
