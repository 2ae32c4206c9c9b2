------------------------------ MODULE RadLutC ------------------------------
(* RadialLookUpTable: distance and direction of a cell offset from the        *)
(* origin.  Lengths in 1/64; results in 1/1024.                               *)
EXTENDS CompUtil
CONSTANTS Scales, Radii
CInit == [on |-> FALSE, sc |-> 0, r |-> 0]
CLegal(s, op) == CASE op.n = "recompute" -> op.a[1] > 0 /\ op.a[2] >= op.a[1]
                   [] op.n = "get" -> s.on /\ Abs(op.a[1]) * s.sc <= s.r /\ Abs(op.a[2]) * s.sc <= s.r
                   [] OTHER -> FALSE
CNext(s, op, t) == IF op.n = "recompute" THEN [on |-> TRUE, sc |-> op.a[1], r |-> op.a[2]] ELSE s
CModel(s, op) == [r |-> <<0, 0, 0, 0>>]
CCheck(s, op, u, t) ==
  IF op.n = "recompute" THEN Check("all", "recompute", t.x = "ok", op)
  ELSE LET xs == op.a[1] * s.sc * 16  ys == op.a[2] * s.sc * 16  d == ISqrt(xs * xs + ys * ys) IN
    /\ Check("all", "result", t.x = "ok", op)
    /\ Check("all", "distance", Near(t.r[1], d, 1), <<s, op, t.r, d>>)
    /\ Check("all", "direction", Near(t.r[2], xs, 2) /\ Near(t.r[3], ys, 2), <<s, op, t.r, xs, ys>>)
    /\ Check("all", "angle range", Abs(t.r[4]) <= 3142, <<s, op, t.r>>)
COps(s) == {Op("recompute", <<a, b>>) : a \in Scales, b \in Radii}
           \cup {Op("get", <<x, y>>) : x \in -3..3, y \in -3..3}
CRand(s) == IF ~s.on \/ R(1..8) = 1 THEN
              (IF s.on /\ R(1..2) = 1 THEN (IF R(1..2) = 1 THEN Op("recompute", <<R(Scales), s.r>>) ELSE Op("recompute", <<s.sc, R(Radii)>>))
               ELSE Op("recompute", <<R(Scales), R(Radii)>>))
            ELSE LET m == s.r \div s.sc IN Op("get", <<R(-m..m), R(-m..m)>>)
CInv(s) == TRUE
=============================================================================
