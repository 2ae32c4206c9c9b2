------------------------------- MODULE GridC -------------------------------
(* Geometry of regular grids: conversions between coordinates and cells, the  *)
(* area covered, and alignment of two grids.  Two grids are placed in a       *)
(* chain of frames: root (0), 1 below the root, 2 below 1.                    *)
(* All lengths are in units of 1/32 (unit 0, exact in floating point) or 1/20 *)
(* (unit 1, where points on the border between two cells are not queried).    *)
EXTENDS Rigid
CONSTANTS Sizes, Scales, Offs, Q, TR, Names, EOps

Fresh == [n |-> <<2, 2>>, sc |-> <<32, 32>>, off |-> <<0, 0>>]
CInit == [u |-> 0, g |-> <<Fresh, Fresh>>, at |-> <<0, 0>>, tf |-> <<RId, RId>>]
Top(s, f) == CASE f = 0 -> RId [] f = 1 -> s.tf[1] [] f = 2 -> RComp(s.tf[1], s.tf[2])
\* takes coordinates of frame f to coordinates of frame h
Rel(s, f, h) == RComp(RInv(Top(s, h)), Top(s, f))
Cell(g, i, x) == (x - g.off[i]) \div g.sc[i]
Inside(g, x, y) == Cell(g, 1, x) \in 0..(g.n[1] - 1) /\ Cell(g, 2, y) \in 0..(g.n[2] - 1)
Sharp(s, g, x, y) == s.u = 0 \/ ((x - g.off[1]) % g.sc[1] # 0 /\ (y - g.off[2]) % g.sc[2] # 0)
ToMap(s, k, f, p) == RPt(Rel(s, f, s.at[k]), p)

\* unit u | new k how nx ny sx sy ox oy | put k f | frame f p t | to k x y | tof k f x y z | huge k i j
\* from k xi yi f | geom k | has k xi yi | ext k f | align k j
CLegal(s, op) ==
  LET a == op.a IN
  CASE op.n = "new" -> \A i \in 3..6 : a[i] >= 1
    [] op.n = "frame" -> RotOk(A3(a, 2))
    [] op.n = "to" -> Sharp(s, s.g[a[1]], a[2], a[3])
    [] op.n = "tof" -> LET p == ToMap(s, a[1], a[2], A3(a, 3)) IN Sharp(s, s.g[a[1]], p[1], p[2])
    [] op.n = "from" -> a[2] >= 0 /\ a[3] >= 0
    [] op.n = "huge" -> ~(a[2] = 0 /\ a[3] = 0)
    [] op.n \in {"unit", "put", "geom", "has", "ext", "align"} -> TRUE
    [] OTHER -> FALSE
CNext(s, op, t) ==
  LET a == op.a IN
  CASE op.n = "unit" -> [CInit EXCEPT !.u = a[1]]
    [] op.n = "new" -> [s EXCEPT !.g[a[1]] = [n |-> <<a[3], a[4]>>, sc |-> <<a[5], a[6]>>, off |-> <<a[7], a[8]>>]]
    [] op.n = "put" -> [s EXCEPT !.at[a[1]] = a[2]]
    [] op.n = "frame" -> [s EXCEPT !.tf[a[1]] = RMake(A3(a, 2), A3(a, 5))]
    [] OTHER -> s
CModel(s, op) == [r |-> <<>>]

\* what every form of the conversion reports: found and cell; an untouched marker when outside
Found(g, x, y) == IF Inside(g, x, y) THEN <<1, Cell(g, 1, x), Cell(g, 2, y)>> ELSE <<0, 77, 77>>
\* position inside the cell
Rest(g, x, y) == IF Inside(g, x, y) THEN <<(x - g.off[1]) % g.sc[1], (y - g.off[2]) % g.sc[2]>> ELSE <<-1, -1>>
\* centre of a cell, in half units
Mid(g, i, c) == (2 * c + 1) * g.sc[i] + 2 * g.off[i]
Corners(g) == {<<g.off[1] + x * g.sc[1], g.off[2] + y * g.sc[2], 0>> : x \in {0, g.n[1]}, y \in {0, g.n[2]}}
Area(g, x) == LET cs == {RPt(x, c) : c \in Corners(g)} IN
   <<MinOf({c[1] : c \in cs}), MinOf({c[2] : c \in cs}), MaxOf({c[1] : c \in cs}), MaxOf({c[2] : c \in cs})>>

\* alignment: the largest deviation of a corner, by axis, in units
Dev(s, k, j, i) ==
  LET g == s.g[k]  h == s.g[j]  x == Rel(s, s.at[k], s.at[j]) IN
  MaxOf({Abs(RPt(x, <<g.off[1] + cx * g.sc[1], g.off[2] + cy * g.sc[2], 0>>)[i] - (h.off[i] + (IF i = 1 THEN cx ELSE cy) * h.sc[i])) :
          cx \in {0, g.n[1]}, cy \in {0, g.n[2]}})
AlignOk(s, k, j, v) ==
  LET g == s.g[k]  h == s.g[j] IN
  IF g.n # h.n THEN v = 0
  ELSE LET small == \A i \in {1, 2} : 2 * Dev(s, k, j, i) < Min2(g.sc[i], h.sc[i])
           large == \E i \in {1, 2} : 2 * Dev(s, k, j, i) > Max2(g.sc[i], h.sc[i])
       IN (small => v = 1) /\ (large => v = 0)
\* on the cell level: same scale, and the cells of one grid are cells of the other (half units)
CellAlignOk(s, k, j, v) ==
  LET g == s.g[k]  h == s.g[j]  x == Rel(s, s.at[j], s.at[k])
      mid(q, c) == <<(2 * c[1] + 1) * q.sc[1] + 2 * q.off[1], (2 * c[2] + 1) * q.sc[2] + 2 * q.off[2], 0>>
      at(c) == Add3(MV(x.m, mid(h, c)), <<2 * x.t[1], 2 * x.t[2], 2 * x.t[3]>>)
      whole(c) == \A i \in {1, 2} : (at(c)[i] - mid(g, <<0, 0>>)[i]) % (2 * g.sc[i]) = 0
      ax(i) == Abs(x.m[i][i]) = 1
  IN IF g.sc # h.sc THEN v = 0
     ELSE /\ (\E c \in {<<0, 0>>, <<h.n[1], 0>>, <<0, h.n[2]>>} : ~whole(c)) => v = 0
          /\ whole(<<0, 0>>) /\ ((ax(1) /\ ax(2)) \/ (Abs(x.m[1][2]) = 1 /\ Abs(x.m[2][1]) = 1 /\ g.sc[1] = g.sc[2])) => v = 1

Expect(s, op) ==
  LET a == op.a  g == s.g[a[1]] IN
  CASE op.n = "to" -> LET f == Found(g, a[2], a[3]) IN f \o Rest(g, a[2], a[3]) \o f \o f \o f
    [] op.n = "tof" -> LET p == ToMap(s, a[1], a[2], A3(a, 3)) IN Found(g, p[1], p[2])
    [] op.n = "huge" -> <<0, 77, 77, 0, 77, 77>>
    [] op.n = "from" -> LET x == Mid(g, 1, a[2])  y == Mid(g, 2, a[3])
                            c == Rel(s, s.at[a[1]], a[4])
                            p == Add3(MV(c.m, <<x, y, 0>>), <<2 * c.t[1], 2 * c.t[2], 2 * c.t[3]>>)
                        IN <<x, y, x, y, x, y, x, y, 0>> \o p
    [] op.n = "geom" -> <<g.n[1], g.n[2], g.n[1], g.n[2], g.sc[1], g.sc[2], g.off[1], g.off[2], g.n[1] * g.sc[1], g.n[2] * g.sc[2],
                          g.n[1] * g.sc[1] + 2 * g.off[1], g.n[2] * g.sc[2] + 2 * g.off[2],
                          0, 0, g.n[1] - 1, g.n[2] - 1,
                          g.off[1], g.off[2], g.off[1] + g.n[1] * g.sc[1], g.off[2] + g.n[2] * g.sc[2]>>
    [] op.n = "has" -> <<IF a[2] \in 0..(g.n[1] - 1) /\ a[3] \in 0..(g.n[2] - 1) THEN 1 ELSE 0>>
    [] op.n = "ext" -> Area(g, Rel(s, s.at[a[1]], a[2]))
    [] OTHER -> <<>>
CCheck(s, op, u, t) ==
  /\ Check("all", "result", t.x = "ok", <<op, t.x>>)
  /\ IF op.n = "align" THEN /\ Check("all", "same cells", Len(t.r) = 2 /\ AlignOk(s, op.a[1], op.a[2], t.r[1]), <<op, s, t.r>>)
                            /\ Check("all", "aligned on the cell level", CellAlignOk(s, op.a[1], op.a[2], t.r[2]), <<op, s, t.r>>)
     ELSE Check("all", "value", t.r = Expect(s, op), <<op, t.r, Expect(s, op)>>)

COps(s) ==
  UNION {
   IF "to" \in EOps THEN {Op("to", <<1, x, y>>) : x \in Q, y \in Q} ELSE {},
   IF "new" \in EOps THEN {Op("new", <<1, 0, n[1], n[2], c[1], c[2], o[1], o[2]>>) : n \in Sizes, c \in Scales, o \in Offs} ELSE {},
   IF "new2" \in EOps THEN {Op("new", <<2, 0, n[1], n[2], c[1], c[2], o[1], o[2]>>) : n \in Sizes, c \in Scales, o \in Offs} ELSE {},
   IF "frame" \in EOps THEN {Op("frame", <<f>> \o p \o t) : f \in {1, 2}, p \in {<<1, 2, 3>>, <<2, -1, 3>>, <<1, -2, -3>>, <<-1, -2, 3>>}, t \in TR} ELSE {},
   IF "put" \in EOps THEN {Op("put", <<k, f>>) : k \in {1, 2}, f \in 0..2} ELSE {},
   IF "align" \in EOps THEN {Op("align", <<k, 3 - k>>) : k \in {1, 2}} ELSE {},
   IF "misc" \in EOps THEN {Op("geom", <<1>>)} \cup {Op("ext", <<1, f>>) : f \in 0..2} \cup {Op("has", <<1, x, y>>) : x \in -1..3, y \in -1..3}
                          \cup {Op("from", <<1, x, y, f>>) : x \in 0..3, y \in 0..3, f \in 0..2} \cup {Op("huge", <<1, x, y>>) : x \in 0..14, y \in 0..14} ELSE {}
  }
\* a coordinate in or near the grid
Coord(g, i) == R((g.off[i] - g.sc[i] - 1)..(g.off[i] + (g.n[i] + 1) * g.sc[i] + 1))
Border(g, i) == g.off[i] + R({-1, 0, 1, g.n[i] - 1, g.n[i]}) * g.sc[i] + R({-1, 0, 1})
Near1(g, i) == IF R(1..2) = 1 THEN Coord(g, i) ELSE Border(g, i)
NewG(s, k, n, c, o) == Op("new", <<k, R(0..3)>> \o n \o c \o o)
CRand(s) ==
  LET n == RS(Names)  k == R({1, 2})  g == s.g[k]  h == s.g[3 - k]  f == R(0..2) IN
  CASE n = "unit" -> Op(n, <<RS(<<0, 0, 1>>)>>)
    [] n = "new" -> LET c == IF R(1..2) = 1 THEN <<R({4, 8, 16, 32}), R({4, 8, 16, 32})>> ELSE <<R(1..40), R(1..40)>>
                    IN NewG(s, k, <<R(1..7), R(1..7)>>, IF s.u = 0 THEN <<R({4, 8, 16, 32, 64}), R({4, 8, 16, 32, 64})>> ELSE c, <<R(-70..70), R(-70..70)>>)
    \* a grid much like the other one
    [] n = "like" -> NewG(s, k, IF R(1..3) = 1 THEN <<R(1..7), h.n[2]>> ELSE h.n, IF R(1..3) = 1 THEN <<h.sc[1], R({16, 32})>> ELSE h.sc,
                          IF R(1..2) = 1 THEN h.off ELSE <<h.off[1] + R({-1, 0, 1, 2}) * h.sc[1] + R(0..3), h.off[2] + R({-1, 0, 1, 2}) * h.sc[2]>>)
    \* a grid placed close to the other one through the frames between them
    [] n = "close" -> LET c == IF R(1..2) = 1 THEN h.sc ELSE <<R({8, 16, 32}), R({8, 16, 32})>>
                          d(i) == IF R(1..3) = 1 THEN 0 ELSE IF R(1..2) = 1 THEN R(-3..3) * h.sc[i] ELSE R(-(Max2(h.sc[1], h.sc[2]))..Max2(h.sc[1], h.sc[2]))
                          o == RPt(Rel(s, s.at[3 - k], s.at[k]), <<h.off[1] + d(1), h.off[2] + d(2), 0>>)
                      IN NewG(s, k, h.n, c, <<o[1], o[2]>>)
    [] n = "put" -> Op(n, <<k, f>>)
    [] n = "frame" -> Op(n, <<R({1, 2})>> \o RS(<<Id3, Id3, <<2, -1, 3>>, <<-1, -2, 3>>, <<-2, 1, 3>>, <<1, -2, -3>>, R(AllRots)>>)
                          \o (IF R(1..2) = 1 THEN RV(-40, 40) ELSE <<R(-3..3) * g.sc[1], R(-3..3) * g.sc[2], R(-1..1)>>))
    \* the frame that brings the grids close to each other
    [] n = "to" -> Op(n, <<k, Near1(g, 1), Near1(g, 2)>>)
    [] n = "tof" -> LET p == RPt(Rel(s, s.at[k], f), <<Near1(g, 1), Near1(g, 2), R(-9..9)>>) IN Op(n, <<k, f>> \o p)
    [] n = "huge" -> Op(n, <<k, R(0..14), R(0..14)>>)
    [] n = "from" -> Op(n, <<k, R(0..8), R(0..8), f>>)
    [] n = "geom" -> Op(n, <<k>>)
    [] n = "has" -> Op(n, <<k, R(-1..8), R(-1..8)>>)
    [] n = "ext" -> Op(n, <<k, f>>)
    [] n = "align" -> Op(n, <<k, 3 - k>>)
\* converting the centre of a cell back gives the cell (in half units), and alignment is symmetric
CInv(s) ==
  \A k \in {1, 2} : LET g == s.g[k]  g2 == [n |-> g.n, sc |-> <<2 * g.sc[1], 2 * g.sc[2]>>, off |-> <<2 * g.off[1], 2 * g.off[2]>>] IN
    \A x \in 0..(g.n[1] - 1), y \in 0..(g.n[2] - 1) : Found(g2, Mid(g, 1, x), Mid(g, 2, y)) = <<1, x, y>>
=============================================================================
