------------------------------- MODULE LinesC ------------------------------
(* Lines and rectangles on a grid.                                             *)
(* s = [a, b, i, p]: the line from a to b, i points of it delivered, p the last *)
(* one.  Rectangle lengths are in tenths; an orientation is the direction of a  *)
(* vector with integer coordinates and length.                                  *)
EXTENDS CompUtil
CONSTANTS Ends, Long, Names, EOps

CInit == [a |-> <<0, 0>>, b |-> <<0, 0>>, i |-> 0, p |-> <<0, 0>>]
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Len1(a, b) == Max2(Abs(b[1] - a[1]), Abs(b[2] - a[2]))
\* the k-th point after a: along the longer axis one step each, across it within half a cell of the line
IsPoint(a, b, k, p) ==
  LET m == Len1(a, b) IN
  IF m = 0 THEN p = a
  ELSE \A d \in {1, 2} : IF Abs(b[d] - a[d]) = m /\ (d = 1 \/ Abs(b[1] - a[1]) < m \/ TRUE)
                         THEN p[d] = a[d] + k * Sgn(b[d] - a[d])
                         ELSE 2 * Abs((p[d] - a[d]) * m - k * (b[d] - a[d])) <= m
APoint(a, b, k) == LET m == Len1(a, b) IN
  IF m = 0 THEN a ELSE [d \in {1, 2} |-> a[d] + ((2 * k * (b[d] - a[d]) + m) \div (2 * m))]
Near1(p, q) == Abs(p[1] - q[1]) <= 1 /\ Abs(p[2] - q[2]) <= 1
\* a list of points is the line from its k-th point on
IsLine(a, b, k, last, L) ==
  /\ Len(L) = Max2(0, Len1(a, b) + 1 - k)
  /\ \A j \in 1..Len(L) : IsPoint(a, b, k + j - 1, L[j])
  /\ \A j \in 2..Len(L) : Near1(L[j - 1], L[j])
  /\ (k > 0 /\ Len(L) > 0) => Near1(last, L[1])

\* ---- rectangles: a = <<w, h, cx, cy, ox, oy, px, py, dx, dy, d, sizes...>>
Dirs == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>,
         <<3, 4, 5>>, <<-3, 4, 5>>, <<3, -4, 5>>, <<-3, -4, 5>>, <<4, 3, 5>>, <<-4, 3, 5>>, <<4, -3, 5>>, <<-4, -3, 5>>,
         <<12, 5, 13>>, <<-12, 5, 13>>, <<12, -5, 13>>, <<-12, -5, 13>>, <<5, 12, 13>>, <<-5, 12, 13>>, <<5, -12, 13>>, <<-5, -12, 13>>,
         <<99, 20, 101>>, <<-20, 99, 101>>, <<-99, -20, 101>>, <<20, -99, 101>>}
Legal(a) == a[1] >= 1 /\ a[2] >= 1 /\ a[3] >= 1 /\ a[4] >= 1 /\ <<a[9], a[10], a[11]>> \in Dirs /\ a[12] >= 0 /\ a[13] >= 0
\* corners, times 2 d, relative to the corner of the grid
Corner(a, sx, sy, i, j) == <<2 * a[11] * (a[7] - a[5]) + i * sx * a[9] - j * sy * a[10], 2 * a[11] * (a[8] - a[6]) + i * sx * a[10] + j * sy * a[9]>>
Corners(a, sx, sy) == {Corner(a, sx, sy, i, j) : i \in {-1, 1}, j \in {-1, 1}}
\* a corner on the border of the grid may count either way
Inside(a, sx, sy) == \A c \in Corners(a, sx, sy) : c[1] > 0 /\ c[2] > 0 /\ c[1] < 2 * a[11] * a[1] * a[3] /\ c[2] < 2 * a[11] * a[2] * a[4]
Outside(a, sx, sy) == \E c \in Corners(a, sx, sy) : c[1] < 0 \/ c[2] < 0 \/ c[1] > 2 * a[11] * a[1] * a[3] \/ c[2] > 2 * a[11] * a[2] * a[4]
\* does the rectangle (sizes sx, sy) touch cell q; all in units of 1 / (2 d) tenths (2 d^2 on its own axes)
Touch(a, sx, sy, q) ==
  LET d == a[11]  u == a[9]  v == a[10]
      ex == (2 * q[1] + 1) * a[3] - 2 * (a[7] - a[5])      \* twice the offset of the centres
      ey == (2 * q[2] + 1) * a[4] - 2 * (a[8] - a[6])
  IN /\ Abs(ex) * d <= sx * Abs(u) + sy * Abs(v) + d * a[3]
     /\ Abs(ey) * d <= sx * Abs(v) + sy * Abs(u) + d * a[4]
     /\ Abs(ex * u + ey * v) <= sx * d + a[3] * Abs(u) + a[4] * Abs(v)
     /\ Abs(ey * u - ex * v) <= sy * d + a[3] * Abs(v) + a[4] * Abs(u)
\* the border is located up to a fifth of a cell
Slack(a) == 2 * (Max2(a[3], a[4]) \div 5 + 1)
Must(a, sx, sy, q) == sx > Slack(a) /\ sy > Slack(a) /\ Touch(a, sx - Slack(a), sy - Slack(a), q)
May(a, sx, sy, q) == Touch(a, sx + Slack(a), sy + Slack(a), q)
Cells(a) == {<<x, y>> : x \in 0..(a[1] - 1), y \in 0..(a[2] - 1)}
Ran(L) == {L[i] : i \in 1..Len(L)}

CLegal(s, op) ==
  LET a == op.a IN
  CASE op.n = "init" -> a[1] \in {0, 2} \/ (a[2] >= 0 /\ a[3] >= 0 /\ a[4] >= 0 /\ a[5] >= 0)
    [] op.n = "line" -> a[1] >= 0 /\ a[2] >= 0 /\ a[3] >= 0 /\ a[4] >= 0
    [] op.n = "next" -> a[1] = 0 \/ (s.a[1] >= 0 /\ s.a[2] >= 0 /\ s.b[1] >= 0 /\ s.b[2] >= 0)
    [] op.n = "rest" -> s.a[1] >= 0 /\ s.a[2] >= 0 /\ s.b[1] >= 0 /\ s.b[2] >= 0
    [] op.n = "rect" -> Legal(a)
    [] op.n = "rects" -> Legal(a) /\ a[14] >= a[12] /\ a[15] >= a[13]
    [] OTHER -> FALSE
CNext(s, op, t) ==
  LET a == op.a  n == Len1(s.a, s.b) + 1 IN
  CASE op.n = "init" -> [a |-> <<a[2], a[3]>>, b |-> <<a[4], a[5]>>, i |-> 0, p |-> <<a[2], a[3]>>]
    [] op.n = "next" -> IF s.i < n THEN [s EXCEPT !.i = @ + 1, !.p = IF Len(t.r) = 3 THEN <<t.r[2], t.r[3]>> ELSE @] ELSE s
    [] op.n = "rest" -> [s EXCEPT !.i = n, !.p = s.b]
    [] OTHER -> s
Pts(a, b, k) == [j \in 1..Max2(0, Len1(a, b) + 1 - k) |-> APoint(a, b, k + j - 1)]
CModel(s, op) ==
  LET a == op.a IN
  [r |-> CASE op.n = "next" -> IF s.i <= Len1(s.a, s.b) THEN LET p == APoint(s.a, s.b, s.i) IN <<1, p[1], p[2]>> ELSE <<0>>
           [] op.n = "rest" -> Pts(s.a, s.b, s.i)
           [] op.n = "line" -> Pts(<<a[1], a[2]>>, <<a[3], a[4]>>, 0)
           [] op.n = "rect" -> IF Inside(a, a[12], a[13]) THEN <<1, {q \in Cells(a) : Touch(a, a[12], a[13], q)}>> ELSE <<0, {}>>
           [] OTHER -> <<>>]
Once(L) == \A i, j \in 1..Len(L) : i # j => L[i] # L[j]
CCheck(s, op, u, t) ==
  LET a == op.a IN
  /\ Check("all", "result", t.x = "ok", op)
  /\ op.n = "next" =>
       IF s.i <= Len1(s.a, s.b)
       THEN Check("all", "next point of the line", Len(t.r) = 3 /\ t.r[1] = 1 /\ IsPoint(s.a, s.b, s.i, <<t.r[2], t.r[3]>>) /\ (s.i = 0 \/ Near1(s.p, <<t.r[2], t.r[3]>>)), <<op, s, t.r>>)
       ELSE Check("all", "end of the line", t.r = <<0>>, <<op, s, t.r>>)
  /\ op.n = "rest" => Check("all", "rest of the line", IsLine(s.a, s.b, s.i, s.p, t.r), <<op, s, t.r>>)
  /\ op.n = "line" => Check("all", "points of a line", IsLine(<<a[1], a[2]>>, <<a[3], a[4]>>, 0, <<>>, t.r), <<op, t.r>>)
  /\ op.n = "rect" =>
       LET L == t.r[2]  C == Ran(L) IN
       /\ Check("all", "rectangle in the grid", (Inside(a, a[12], a[13]) => t.r[1] = 1) /\ (Outside(a, a[12], a[13]) => t.r[1] = 0), <<op, t.r>>)
       /\ Check("all", "nothing visited for a rectangle that leaves the grid", t.r[1] = 1 \/ L = <<>>, <<op, t.r>>)
       /\ Check("all", "cells visited once", Once(L), <<op, t.r>>)
       /\ Check("all", "cells visited are in the grid", C \subseteq Cells(a), <<op, t.r>>)
       /\ t.r[1] = 1 => /\ Check("all", "cells of the rectangle visited", \A q \in Cells(a) : Must(a, a[12], a[13], q) => q \in C, <<op, {q \in Cells(a) \ C : Must(a, a[12], a[13], q)}>>)
                        /\ Check("all", "cells outside the rectangle not visited", \A q \in C : May(a, a[12], a[13], q), <<op, {q \in C : ~May(a, a[12], a[13], q)}>>)
  /\ op.n = "rects" =>
       LET I == Ran(t.r[2])  O == Ran(t.r[3]) IN
       /\ Check("all", "rectangles in the grid", (Inside(a, a[12], a[13]) /\ Inside(a, a[14], a[15]) => t.r[1] = 1) /\ (Outside(a, a[12], a[13]) \/ Outside(a, a[14], a[15]) => t.r[1] = 0), <<op, t.r>>)
       /\ Check("all", "nothing visited for a rectangle that leaves the grid", t.r[1] = 1 \/ (I = {} /\ O = {}), <<op, t.r>>)
       /\ Check("all", "cells visited once", Once(t.r[2]) /\ Once(t.r[3]) /\ I \cap O = {}, <<op, t.r>>)
       /\ Check("all", "cells visited are in the grid", (I \cup O) \subseteq Cells(a), <<op, t.r>>)
       /\ t.r[1] = 1 =>
            /\ Check("all", "cells of the inner rectangle visited", \A q \in Cells(a) : Must(a, a[12], a[13], q) => q \in I, <<op, I, {q \in Cells(a) \ I : Must(a, a[12], a[13], q)}>>)
            /\ Check("all", "cells outside the inner rectangle not visited as inner ones", \A q \in I : May(a, a[12], a[13], q), <<op, I, {q \in I : ~May(a, a[12], a[13], q)}>>)
            /\ Check("all", "cells of the outer rectangle visited", \A q \in Cells(a) : Must(a, a[14], a[15], q) => q \in I \cup O, <<op, I, O, {q \in Cells(a) \ (I \cup O) : Must(a, a[14], a[15], q)}>>)
            /\ Check("all", "cells outside the outer rectangle not visited", \A q \in O : May(a, a[14], a[15], q), <<op, O, {q \in O : ~May(a, a[14], a[15], q)}>>)

COps(s) ==
  UNION {
    IF "init" \in EOps THEN {Op("init", <<m, x, y, x + dx, y + dy>>) : m \in {1, 3}, x \in {4}, y \in {5}, dx \in Ends, dy \in Ends} ELSE {},
    IF "line" \in EOps THEN {Op("line", <<9, 8, 9 + dx, 8 + dy>>) : dx \in Ends, dy \in Ends} ELSE {},
    IF "next" \in EOps THEN {Op("next", <<m>>) : m \in {0}} ELSE {},
    IF "rest" \in EOps THEN {Op("rest", <<>>)} ELSE {},
    IF "rect" \in EOps THEN {Op("rect", <<4, 4, 10, 10, 0, 0, px, 21, d[1], d[2], d[3], sx, sy>>) : px \in {16, 23}, d \in Dirs, sx \in {0, 7, 15}, sy \in {4, 20}} ELSE {},
    IF "rects" \in EOps THEN {Op("rects", <<5, 5, 10, 10, 0, 0, px, 24, d[1], d[2], d[3], sx, 7, sx + e, 7 + e>>) : px \in {25}, d \in Dirs, sx \in {0, 7, 15}, e \in {0, 6, 15}} ELSE {}
  }
RectArgs(n) ==
  LET cx == RS(<<10, 10, 5, 20>>)  cy == RS(<<cx, cx, 10>>)
      w == R(3..12)  h == R(3..12)
      o == R({<<0, 0>>, <<-33, 17>>})
      d == R(Dirs)
      px == o[1] + R((w * cx) \div 4..(3 * w * cx) \div 4)
      py == o[2] + R((h * cy) \div 4..(3 * h * cy) \div 4)
      m == Min2(w * cx, h * cy)
      sx == R(0..((2 * m) \div 3))  sy == R(0..((2 * m) \div 3))
      ex == R({0, 1, m \div 6, m \div 3})  ey == R({ex, 0, m \div 4})
  IN <<w, h, cx, cy, o[1], o[2], px, py, d[1], d[2], d[3]>> \o (IF n = "rect" THEN <<sx, sy>> ELSE <<sx, sy, sx + ex, sy + ey>>)
CRand(s) ==
  LET n == RS(Names)
      m == RS(<<0, 0, 1, 2, 3>>)
      lo == IF m \in {0, 2} THEN -Long ELSE 0
      e == R({3, 10, Long})
      x == R(lo..Long)  y == R(lo..Long)
      q == <<Max2(lo, x + R(-e..e)), Max2(lo, y + R({0, R(-e..e)}))>>
      z == RS(<<q, q, <<x, y>>, <<Max2(lo, x + e), Max2(lo, y - e)>>>>)
      k == <<Abs(x), Abs(y), Abs(z[1]), Abs(z[2])>>
      neg == s.a[1] < 0 \/ s.a[2] < 0 \/ s.b[1] < 0 \/ s.b[2] < 0
  IN CASE n = "init" -> Op(n, <<m, x, y, z[1], z[2]>>)
       [] n = "next" -> Op(n, <<IF neg THEN 0 ELSE R({0, 1})>>)
       [] n = "rest" -> IF neg THEN Op("next", <<0>>) ELSE Op(n, <<>>)
       [] n = "line" -> Op(n, k)
       [] n = "rect" -> Op(n, RectArgs(n))
       [] OTHER -> Op("rects", RectArgs("rects"))
CInv(s) == s.i <= Len1(s.a, s.b) + 1
=============================================================================
