------------------------------- MODULE BandsC -------------------------------
(* The bands of the templated grids: two grids g[1], g[2] and raster files      *)
(* f[0..2].  A grid has a type (7 cell types and four named kinds), a geometry, *)
(* bands (name -> values in row order), no-data values (name -> value) and, if  *)
(* it is in the environment, the frame it is in.  Values of real bands are      *)
(* counted in halves.                                                          *)
EXTENDS CompUtil
CONSTANTS Types, Sizes, Bs, Names, EOps

BT(t) == CASE t \in {7, 9, 10} -> 2 [] t = 8 -> 0 [] OTHER -> t
CellBytes(t) == CASE BT(t) \in {0, 5, 6} -> 4 [] BT(t) = 1 -> 8 [] BT(t) = 2 -> 1 [] OTHER -> 2
DefB(t) == CASE t = 7 -> <<2, 3, 4>> [] t = 8 -> <<5, 6>> [] t = 9 -> <<7>> [] t = 10 -> <<6>> [] OTHER -> <<0>>
Vals(t) == CASE BT(t) \in {0, 1} -> {0, 1, -1, 7, -300, 123456, -2000000}
             [] BT(t) = 2 -> {0, 1, 127, 128, 255}
             [] BT(t) = 3 -> {0, -1, 300, -32768, 32767}
             [] BT(t) = 4 -> {0, 1, 255, 256, 65535}
             [] BT(t) = 5 -> {0, -1, 70000, -2147483647, 2147483647}
             [] OTHER -> {0, 1, 70000, 2147483647}
NegVals(t) == {v \in Vals(t) : v < 0} \cup (IF \E v \in Vals(t) : v < 0 THEN {} ELSE {255})
Offset(t) == t \notin {9, 10}
Grd(t, w, h, cx, cy, ox, oy) == [t |-> t, w |-> w, h |-> h, cx |-> cx, cy |-> cy, ox |-> ox, oy |-> oy, at |-> <<>>, b |-> <<>>, nd |-> <<>>]
NoFile == [t |-> -1, w |-> 0, h |-> 0, gt |-> <<>>, b |-> <<>>]
CInit == [g |-> [k \in {1, 2} |-> Grd(0, 2, 2, 1, 1, 0, 0)], f |-> [i \in 0..2 |-> NoFile]]
Zero(g) == [i \in 1..(g.w * g.h) |-> 0]
Ix(g, x, y) == y * g.w + x + 1
Put(F, k, v) == [x \in DOMAIN F \cup {k} |-> IF x = k THEN v ELSE F[x]]
Has(g, b) == b \in DOMAIN g.b
\* asking a grid that may be changed for a band makes the band
With(g, b) == IF Has(g, b) THEN g ELSE [g EXCEPT !.b = Put(@, b, Zero(g))]
RECURSIVE WithAll(_, _)
WithAll(g, q) == IF q = <<>> THEN g ELSE WithAll(With(g, Head(q)), Tail(q))
SetCell(g, b, x, y, v) == LET h == With(g, b) IN [h EXCEPT !.b[b][Ix(h, x, y)] = v]
In(g, x, y) == x >= 0 /\ y >= 0 /\ x < g.w /\ y < g.h
\* axes of the frame a grid is in, in the plane: <<xx, xy, yx, yy>>
Plane(m) == CASE m = 1 -> <<0, -1, 1, 0>> [] m = 2 -> <<-1, 0, 0, -1>> [] m = 3 -> <<0, 1, -1, 0>> [] m = 4 -> <<1, 0, 0, -1>> [] m = 5 -> <<-1, 0, 0, 1>> [] OTHER -> <<1, 0, 0, 1>>
GeoT(g) == LET at == IF g.at = <<>> THEN <<0, 0, 0>> ELSE g.at  A == Plane(at[1]) IN
  <<A[1] * g.ox + A[2] * g.oy + at[2], A[1] * g.cx, A[2] * g.cy, A[3] * g.ox + A[4] * g.oy + at[3], A[3] * g.cx, A[4] * g.cy>>
FileOf(g, q) == LET h == WithAll(g, q) IN
  [t |-> BT(g.t), w |-> g.w, h |-> g.h, gt |-> GeoT(g),
   b |-> [i \in 1..Len(q) |-> [v |-> h.b[q[i]], nd |-> IF q[i] \in DOMAIN g.nd THEN <<g.nd[q[i]]>> ELSE <<>>]]]
Rotated(f) == f.gt[3] # 0 \/ f.gt[5] # 0
\* values of a file's band as they belong into a grid that takes its axes from the file
Flip(f, v) == LET fx == f.gt[2] < 0  fy == f.gt[6] < 0 IN
  [i \in 1..(f.w * f.h) |-> LET x == (i - 1) % f.w  y == (i - 1) \div f.w IN
     v[(IF fy THEN f.h - 1 - y ELSE y) * f.w + (IF fx THEN f.w - 1 - x ELSE x) + 1]]
RECURSIVE Load(_, _, _, _, _)
Load(g, f, base, q, flip) ==
  IF q = <<>> THEN g
  ELSE LET e == f.b[base]
           h == [g EXCEPT !.b = Put(@, Head(q), IF flip THEN Flip(f, e.v) ELSE e.v), !.nd = IF e.nd = <<>> THEN @ ELSE Put(@, Head(q), e.nd[1])]
       IN Load(h, f, base + 1, Tail(q), flip)
EnoughBands(f, base, n) == base >= 1 /\ base + n - 1 <= Len(f.b)
\* may t2 be assigned a grid of type t
Assignable(t2, t) == t2 = t \/ (t2 \in 0..6 /\ BT(t) = t2)

Throws(s, op) ==
  LET a == op.a  g == s.g[a[1]] IN
  CASE op.n = "setw" -> ~In(g, a[3], a[4])
    [] op.n = "get" -> ~In(g, a[3], a[4]) \/ ~Has(g, a[2])
    [] op.n = "getm" -> ~In(g, a[3], a[4])
    [] op.n = "cdef" -> ~Has(g, DefB(g.t)[1])
    [] op.n = "copyb" -> BT(g.t) # BT(s.g[a[3]].t)
    [] op.n = "rd" -> LET f == s.f[a[2]] IN f.t < 0 \/ f.w # g.w \/ f.h # g.h \/ f.t # BT(g.t) \/ ~EnoughBands(f, a[3], Len(a) - 3)
    [] op.n = "rde" -> LET f == s.f[a[3]] IN f.t < 0 \/ f.t # BT(a[2]) \/ ~EnoughBands(f, a[4], Len(a) - 4) \/ Rotated(f)
    [] op.n = "gdal" -> LET f == s.f[a[2]] IN f.t < 0 \/ ~EnoughBands(f, a[3], 1) \/ Rotated(f)
    [] OTHER -> FALSE
CLegal(s, op) ==
  LET a == op.a  g == s.g[a[1]]  ok == a[1] \in {1, 2} IN
  ok /\
  CASE op.n = "new" -> a[4] >= 1 /\ a[5] >= 1 /\ a[6] >= 1 /\ a[7] >= 1 /\ (Offset(a[2]) \/ (a[8] = 0 /\ a[9] = 0))
    [] op.n \in {"set", "def", "cdef"} -> IF op.n = "set" THEN In(g, a[3], a[4]) ELSE In(g, a[2], a[3])
    [] op.n = "get" -> In(g, a[3], a[4]) \/ TRUE
    [] op.n = "fill" -> Len(a) = 2 + g.w * g.h
    [] op.n = "fromf" -> g.t = 7 /\ Len(a) = 1 + 3 * g.w * g.h
    [] op.n = "fromd" -> g.t = 8 /\ Len(a) = 1 + g.w * g.h
    [] op.n = "copyb" -> LET o == s.g[a[3]] IN BT(g.t) # BT(o.t) \/ (g.w = o.w /\ g.h = o.h /\ Has(o, IF a[4] < 0 THEN a[2] ELSE a[4]))
    [] op.n = "str" -> LET o == s.g[a[3]] IN BT(g.t) = BT(o.t) /\ g.w = o.w /\ g.h = o.h
    [] op.n = "wr" -> Len(a) >= 3
    [] op.n = "rd" -> Len(a) >= 4
    [] op.n = "rde" -> Len(a) >= 5
    [] op.n = "gdal" -> a[3] >= 1
    [] op.n \in {"clone", "assign", "ser"} -> a[1] # a[2] \/ op.n = "clone"
    [] op.n \in {"band", "setw", "getm", "in", "nod", "nodall", "minmax", "frame", "put"} -> TRUE
    [] OTHER -> FALSE
Rest(q, n) == SubSeq(q, n + 1, Len(q))
NdOf(r) == [b \in {r[i][1] : i \in 1..Len(r)} |-> LET i == CHOOSE i \in 1..Len(r) : r[i][1] = b IN r[i][2]]
CNext(s, op, t) ==
  LET a == op.a  k == a[1]  g == s.g[k]
      G(h) == [s EXCEPT !.g[k] = h]
  IN
  IF Throws(s, op) THEN s
  ELSE
  CASE op.n = "new" -> G(Grd(a[2], a[4], a[5], a[6], a[7], a[8], a[9]))
    [] op.n \in {"band", "minmax", "frame"} -> G(With(g, a[2]))
    [] op.n \in {"set", "setw"} -> G(SetCell(g, a[2], a[3], a[4], a[5]))
    [] op.n = "getm" -> G(With(g, a[2]))
    [] op.n = "def" -> G(With(g, DefB(g.t)[1]))
    [] op.n = "fill" -> G([g EXCEPT !.b = Put(@, a[2], Rest(a, 2))])
    [] op.n = "nod" -> G([g EXCEPT !.nd = Put(@, a[2], a[3])])
    [] op.n = "nodall" -> G([g EXCEPT !.nd = [b \in DOMAIN @ \cup DOMAIN g.b |-> IF b \in DOMAIN g.b THEN a[2] ELSE @[b]]])
    [] op.n = "fromf" -> G([g EXCEPT !.b = [b \in DOMAIN @ \cup {2, 3, 4} |-> IF b \in {2, 3, 4} THEN [i \in 1..(g.w * g.h) |-> a[1 + 3 * (i - 1) + b - 1]] ELSE @[b]]])
    [] op.n = "fromd" -> G([g EXCEPT !.b = Put(@, 5, Rest(a, 1))])
    [] op.n = "copyb" -> LET o == s.g[a[3]]  sb == IF a[4] < 0 THEN a[2] ELSE a[4] IN
                         G([g EXCEPT !.b = Put(@, a[2], o.b[sb]), !.nd = IF sb \in DOMAIN o.nd THEN Put(@, a[2], o.nd[sb]) ELSE @])
    [] op.n = "clone" -> [s EXCEPT !.g[a[2]] = [g EXCEPT !.at = <<>>]]
    [] op.n = "assign" -> IF Assignable(s.g[a[2]].t, g.t) THEN [s EXCEPT !.g[a[2]] = [g EXCEPT !.t = s.g[a[2]].t, !.at = s.g[a[2]].at]] ELSE s
    [] op.n = "put" -> G([g EXCEPT !.at = Rest(a, 1)])
    [] op.n = "str" -> LET o == With(s.g[a[3]], a[4])  s1 == [s EXCEPT !.g[a[3]] = o] IN
                       [s1 EXCEPT !.g[k] = [@ EXCEPT !.b = Put(@, a[2], o.b[a[4]])]]
    [] op.n = "wr" -> [s EXCEPT !.g[k] = WithAll(g, Rest(a, 2)), !.f[a[2]] = FileOf(g, Rest(a, 2))]
    [] op.n = "rd" -> G(Load(g, s.f[a[2]], a[3], Rest(a, 3), FALSE))
    [] op.n = "rde" -> LET f == s.f[a[3]] IN G(Load(Grd(a[2], f.w, f.h, Abs(f.gt[2]), Abs(f.gt[6]), 0, 0), f, a[4], Rest(a, 4), TRUE))
    [] op.n = "gdal" -> LET f == s.f[a[2]] IN G(Load(Grd(f.t, f.w, f.h, Abs(f.gt[2]), Abs(f.gt[6]), 0, 0), f, a[3], <<a[4]>>, TRUE))
    [] op.n = "ser" -> [s EXCEPT !.g[a[2]] = [g EXCEPT !.at = <<>>, !.nd = NdOf(t.r[2])]]
    [] OTHER -> s
\* no-data values survive in files; in memory they may
RECURSIVE NdList(_, _)
NdList(nd, S) == IF S = {} THEN <<>> ELSE LET b == MinOf(S) IN <<<<b, nd[b]>>>> \o NdList(nd, S \ {b})
MinMax(v) == <<MinOf({v[i] : i \in 1..Len(v)}), MaxOf({v[i] : i \in 1..Len(v)})>>
Result(s, op) ==
  LET a == op.a  k == a[1]  g == s.g[k] IN
  IF Throws(s, op) THEN <<>>
  ELSE
  CASE op.n = "get" -> LET v == g.b[a[2]][Ix(g, a[3], a[4])] IN <<v, v, v>>
    [] op.n = "getm" -> LET v == With(g, a[2]).b[a[2]][Ix(g, a[3], a[4])] IN <<v, v, v>>
    [] op.n = "def" -> <<With(g, DefB(g.t)[1]).b[DefB(g.t)[1]][Ix(g, a[2], a[3])]>>
    [] op.n = "cdef" -> <<g.b[DefB(g.t)[1]][Ix(g, a[2], a[3])]>>
    [] op.n = "in" -> <<IF a[2] >= 0 /\ a[3] >= 0 /\ a[2] < 2 * g.w /\ a[3] < 2 * g.h THEN 1 ELSE 0>>
    [] op.n = "minmax" -> MinMax(With(g, a[2]).b[a[2]])
    [] op.n = "frame" -> <<g.w, g.h, 8 * CellBytes(g.t), 1, 1, 1, With(g, a[2]).b[a[2]]>>
    [] op.n = "str" -> <<CellBytes(g.t) * g.w * g.h>>
    [] op.n = "gdal" -> LET f == s.f[a[2]] IN <<IF f.gt[2] < 0 THEN f.gt[1] + f.w * f.gt[2] ELSE f.gt[1], IF f.gt[6] < 0 THEN f.gt[4] + f.h * f.gt[6] ELSE f.gt[4], 0, 1>>
    [] op.n = "ser" -> <<1, NdList(g.nd, IF a[3] = 0 THEN DOMAIN g.nd \cap DOMAIN g.b ELSE {})>>
    [] OTHER -> <<>>
CModel(s, op) == [r |-> Result(s, op)]
RECURSIVE BList(_, _)
BList(g, S) == IF S = {} THEN <<>> ELSE LET b == MinOf(S) IN <<<<b, g.w, g.h, g.b[b]>>>> \o BList(g, S \ {b})
ObsOf(g) == <<g.t, g.w, g.h, g.cx, g.cy, g.ox, g.oy, BList(g, DOMAIN g.b), NdList(g.nd, DOMAIN g.nd), DefB(g.t),
              IF DefB(g.t)[1] \in DOMAIN g.nd THEN <<1, g.nd[DefB(g.t)[1]]>> ELSE <<0>>, CellBytes(g.t)>>
CCheck(s, op, u, t) ==
  LET a == op.a IN
  /\ Check("all", "result", t.x = (IF Throws(s, op) THEN "throw" ELSE "ok"), <<op, s.g, s.f>>)
  /\ IF op.n = "ser"
     THEN LET g == s.g[a[1]]  nd == NdOf(t.r[2]) IN
          /\ Check("all", "read back under its id", t.r[1] = 1, op)
          /\ Check("all", "no-data values", (\A b \in DOMAIN nd : b \in DOMAIN g.nd /\ nd[b] = g.nd[b]) /\ (a[3] = 0 => \A b \in DOMAIN g.nd \cap DOMAIN g.b : b \in DOMAIN nd), <<op, g.nd, nd>>)
     ELSE Check("all", "returned", t.r = Result(s, op), <<op, t.r, Result(s, op), s.g>>)
  /\ \A k \in {1, 2} : \A i \in 1..12 :
       Check("all", <<"type", "width", "height", "scale", "scale", "offset", "offset", "bands", "no-data values", "default bands", "no-data value of the default band", "depth">>[i], t.o[k][i] = ObsOf(u.g[k])[i], <<op, k, t.o[k][i], ObsOf(u.g[k])[i]>>)

NewArgs(k, t, how, z, c, o) == <<k, t, how, z[1], z[2], c, c, IF Offset(t) THEN o ELSE 0, 0>>
FillArgs(g, k, b) == <<k, b>> \o [i \in 1..(g.w * g.h) |-> R(Vals(g.t))]
COps(s) ==
  UNION {
    IF "new" \in EOps THEN {Op("new", NewArgs(k, t, 0, z, 1, 0)) : k \in {1}, t \in Types, z \in Sizes} ELSE {},
    IF "create" \in EOps THEN {Op("new", NewArgs(k, t, 1, z, 2, 3)) : k \in {1}, t \in Types, z \in Sizes} ELSE {},
    IF "set" \in EOps THEN {Op("set", <<1, b, s.g[1].w - 1, 0, MaxOf(Vals(s.g[1].t))>>) : b \in Bs} ELSE {},
    IF "fill" \in EOps THEN {Op("fill", <<1, b>> \o [i \in 1..(s.g[1].w * s.g[1].h) |-> IF BT(s.g[1].t) \in {0, 1} THEN -i ELSE i]) : b \in Bs} ELSE {},
    IF "read" \in EOps THEN {Op("minmax", <<1, b>>) : b \in Bs} \cup {Op("frame", <<1, b>>) : b \in Bs} \cup {Op("get", <<1, b, 1, 0>>) : b \in Bs} ELSE {},
    IF "nod" \in EOps THEN {Op("nod", <<1, b, MaxOf(Vals(s.g[1].t))>>) : b \in Bs} \cup {Op("nodall", <<1, MinOf(Vals(s.g[1].t))>>)} ELSE {},
    IF "copy" \in EOps THEN {Op("clone", <<1, 2>>), Op("assign", <<1, 2>>), Op("assign", <<2, 1>>)} ELSE {},
    IF "copyb" \in EOps THEN {Op("copyb", <<2, b, 1, -1>>) : b \in Bs} \cup {Op("copyb", <<1, 1, 1, b>>) : b \in Bs} ELSE {},
    IF "put" \in EOps THEN {Op("put", <<1, m, 10, 20>>) : m \in 0..5} ELSE {},
    IF "file" \in EOps THEN {Op("wr", <<1, 0, b>>) : b \in Bs} \cup {Op("rd", <<1, 0, 1, b>>) : b \in Bs} \cup {Op("rde", <<2, s.g[1].t, 0, 1, b>>) : b \in Bs} \cup {Op("gdal", <<2, 0, 1, 1>>)} ELSE {},
    IF "ser" \in EOps THEN {Op("ser", <<1, 2, m>>) : m \in {0, 1}} ELSE {}
  }
CRand(s) ==
  LET n == RS(Names)
      k == R({1, 2})  j == R({1, 2})
      g == s.g[k]  o == s.g[j]
      t == R(Types)
      own == DOMAIN g.b \cup {DefB(g.t)[R(1..Len(DefB(g.t)))]}
      b == R(own \cup {R(0..7)})
      x == R(0..(g.w - 1))  y == R(0..(g.h - 1))
      far == RS(<<0, 0, 0, 0, -1, g.w, g.h, 9>>)
      q == RS(<<<<b>>, <<b>>, <<b, R(own)>>, <<R(own), 0, 1>>, DefB(g.t)>>)
      i == R(0..2)
  IN CASE n = "new" -> LET z == R({R(Sizes), <<o.w, o.h>>}) IN Op(n, <<k, t, RS(<<0, 0, 1>>), z[1], z[2], R({1, 2, 3}), R({1, 2}), IF Offset(t) THEN R({0, 5, -3}) ELSE 0, IF Offset(t) THEN R({0, 2}) ELSE 0>>)
       [] n = "like" -> Op("new", <<k, R({o.t, BT(o.t), t}), 0, o.w, o.h, 1, 2, 0, 0>>)
       [] n = "set" -> Op(n, <<k, b, x, y, R(Vals(g.t))>>)
       [] n = "setw" -> Op(n, <<k, b, IF far = 0 THEN x ELSE far, y, R(Vals(g.t))>>)
       [] n \in {"get", "getm"} -> IF far # 0 /\ n = "get" THEN Op("getm", <<k, b, x, far>>) ELSE Op(n, <<k, b, x, y>>)
       [] n \in {"def", "cdef"} -> Op(n, <<k, x, y>>)
       [] n = "fill" -> LET N == NegVals(g.t) IN Op(n, R({FillArgs(g, k, b), <<k, b>> \o [c \in 1..(g.w * g.h) |-> R(N)]}))
       [] n = "in" -> Op(n, <<k, R(-2..(2 * g.w + 2)), R(-2..(2 * g.h + 2))>>)
       [] n = "nod" -> Op(n, <<k, b, R(Vals(g.t))>>)
       [] n = "nodall" -> Op(n, <<k, R(Vals(g.t))>>)
       [] n \in {"band", "minmax", "frame"} -> Op(n, <<k, b>>)
       [] n = "from" -> IF g.t = 7 THEN Op("fromf", <<k>> \o [c \in 1..(3 * g.w * g.h) |-> R(0..255)])
                        ELSE IF g.t = 8 THEN Op("fromd", <<k>> \o [c \in 1..(g.w * g.h) |-> R(-20..20)])
                        ELSE Op("new", <<k, R({7, 8}), 0, x + 1, y + 2, 1, 1, 0, 0>>)
       [] n = "copyb" -> LET c == DOMAIN o.b IN IF BT(g.t) # BT(o.t) THEN Op(n, <<k, b, j, -1>>)
                         ELSE IF g.w = o.w /\ g.h = o.h /\ c # {} THEN LET d == R(c) IN Op(n, R({<<k, b, j, d>>, <<k, d, j, -1>>}))
                         ELSE Op("clone", <<j, k>>)
       [] n = "clone" -> Op(n, <<k, 3 - k>>)
       [] n = "assign" -> Op(n, <<k, 3 - k>>)
       [] n = "str" -> IF BT(g.t) = BT(o.t) /\ g.w = o.w /\ g.h = o.h THEN Op(n, <<k, b, j, R(DOMAIN o.b \cup {0})>>) ELSE Op("new", <<j, g.t, 0, g.w, g.h, 1, 1, 0, 0>>)
       [] n = "put" -> Op(n, <<k, R(0..5), R({0, 10, -4}), R({0, 20, 3})>>)
       [] n = "wr" -> Op(n, <<k, i>> \o q)
       [] n = "rd" -> LET c == {l \in 0..2 : s.f[l].w = g.w /\ s.f[l].h = g.h /\ s.f[l].t = BT(g.t)}
                          l == IF c = {} THEN i ELSE R(c) IN Op(n, <<k, l, RS(<<1, 1, 1, 2, 0, 3, 7>>)>> \o q)
       [] n = "rde" -> LET l == i  ft == s.f[i].t IN Op(n, <<k, IF ft < 0 THEN t ELSE RS(<<ft, ft, ft, IF ft = 2 THEN 7 ELSE IF ft = 0 THEN 8 ELSE ft, t>>), l, RS(<<1, 1, 1, 2, 3>>)>> \o R({<<R(0..7)>>, <<0, 1>>, <<2, 3, 4>>}))
       [] n = "gdal" -> Op(n, <<k, i, RS(<<1, 1, 1, 2, 3>>), R(0..7)>>)
       [] OTHER -> Op("ser", <<k, 3 - k, R({0, 1})>>)
CInv(s) == \A k \in {1, 2} : LET g == s.g[k] IN g.w >= 1 /\ g.h >= 1 /\ g.cx >= 1 /\ g.cy >= 1 /\ \A b \in DOMAIN g.b : Len(g.b[b]) = g.w * g.h
=============================================================================
