-------------------------------- MODULE ConvC -------------------------------
(* Operators that turn one kind of map into another: float grid to surface      *)
(* grid, surface grid to elevation grid and to point cloud, point cloud to      *)
(* surface grid, and surface grids merged into one.  Lengths are in eighths of  *)
(* a metre, heights in levels of ten metres, turns are quarter turns about z.   *)
(* A patch is <<level, variance, colour>>: hundredths of a square metre and a   *)
(* colour number, -1 where several sources were fused or none was given.        *)
EXTENDS CompUtil, Rigid
CONSTANTS Names, EOps

TurnP(q) == CASE q = 0 -> <<1, 2, 3>> [] q = 1 -> <<2, -1, 3>> [] q = 2 -> <<-1, -2, 3>> [] OTHER -> <<-2, 1, 3>>
TF(a, i) == RMake(TurnP(a[i]), <<a[i + 1], a[i + 2], a[i + 3]>>)
Geo(w, h, sx, sy, ox, oy, f) == [w |-> w, h |-> h, sx |-> sx, sy |-> sy, ox |-> ox, oy |-> oy, f |-> f]
Mls(g) == [g |-> g, c |-> [i \in 1..(g.w * g.h) |-> {}]]
Flt(g) == [g |-> g, v |-> [i \in 1..(g.w * g.h) |-> 0]]
G0 == Geo(2, 2, 8, 8, 0, 0, 1)
CInit == [fr |-> <<[p |-> 0, x |-> RId, z |-> 0], [p |-> 0, x |-> RId, z |-> 0], [p |-> 1, x |-> RId, z |-> 0]>>,
          F |-> Flt(G0), M |-> <<Mls(G0), Mls(G0), Mls(G0)>>, E |-> Flt(G0), P |-> [f |-> 1, q |-> <<>>, v |-> <<>>, c |-> <<>>]]
RECURSIVE Up(_, _)
Up(s, f) == IF f = 0 THEN RId ELSE LET u == Up(s, s.fr[f].p) IN RComp(u, s.fr[f].x)
Rel(s, f, h) == RComp(RInv(Up(s, h)), Up(s, f))      \* from f to h
\* variance of the heights of a transform: both ways up to the root count
RECURSIVE ZUp(_, _)
ZUp(s, f) == IF f = 0 THEN 0 ELSE s.fr[f].z + ZUp(s, s.fr[f].p)
ZRel(s, f, h) == IF f = h THEN 0 ELSE ZUp(s, f) + ZUp(s, h)
Lv(S) == {e[1] : e \in S}
Ix(g, x, y) == y * g.w + x + 1
N(g) == g.w * g.h
CX(g, i) == (i - 1) % g.w
CY(g, i) == (i - 1) \div g.w
\* centre of a cell; sizes of cells are even
Centre(g, i) == <<g.ox + CX(g, i) * g.sx + g.sx \div 2, g.oy + CY(g, i) * g.sy + g.sy \div 2>>
\* cell of a point, 0: outside
CellAt(g, x, y) == LET cx == (x - g.ox) \div g.sx  cy == (y - g.oy) \div g.sy IN
                   IF cx \in 0..(g.w - 1) /\ cy \in 0..(g.h - 1) THEN Ix(g, cx, cy) ELSE 0
At(t, p, z) == RPt(t, <<p[1], p[2], z>>)

\* what reaches the cells of d from the surface grid k: <<cell, level, variance, colour, source>>
Forward(s, k, d) ==
  LET t == Rel(s, s.M[k].g.f, s.M[d].g.f) IN
  UNION {LET p == At(t, Centre(s.M[k].g, i), 0) IN {<<CellAt(s.M[d].g, p[1], p[2]), e[1] + p[3], e[2], e[3], i>> : e \in s.M[k].c[i]} : i \in 1..N(s.M[k].g)}
Backward(s, k, d) ==
  LET t == Rel(s, s.M[d].g.f, s.M[k].g.f) IN
  UNION {LET p == At(t, Centre(s.M[d].g, i), 0)  j == CellAt(s.M[k].g, p[1], p[2]) IN IF j = 0 THEN {} ELSE {<<i, e[1] - p[3], e[2], e[3], j>> : e \in s.M[k].c[j]} : i \in 1..N(s.M[d].g)}
FromFloat(s, d) ==
  LET t == Rel(s, s.M[d].g.f, s.F.g.f) IN
  UNION {LET p == At(t, Centre(s.M[d].g, i), 0)  j == CellAt(s.F.g, p[1], p[2]) IN IF j = 0 THEN {} ELSE {<<i, s.F.v[j] - p[3], 0, -1, j>>} : i \in 1..N(s.M[d].g)}
\* un: the uncertainty of the transform counts
FromPoints(s, d, un, area) ==
  LET t == Rel(s, s.P.f, s.M[d].g.f)
      z == IF un = 1 THEN ZRel(s, s.P.f, s.M[d].g.f) ELSE 0
      In(p) == area = <<>> \/ (p[1] >= area[1] /\ p[1] <= area[2] /\ p[2] >= area[3] /\ p[2] <= area[4] /\ p[3] >= area[5] /\ p[3] <= area[6])
      J == {j \in 1..Len(s.P.q) : In(RPt(t, s.P.q[j]))}
  IN {LET p == RPt(t, s.P.q[j]) IN <<CellAt(s.M[d].g, p[1], p[2]), p[3], (IF Len(s.P.v) = Len(s.P.q) THEN s.P.v[j] ELSE 1) + z, IF s.P.c = <<>> THEN -1 ELSE s.P.c[1][j], j>> : j \in J}
Points(s, k) ==
  LET t == Rel(s, s.M[k].g.f, s.P.f) IN
  UNION {{At(t, Centre(s.M[k].g, i), e[1]) : e \in s.M[k].c[i]} : i \in 1..N(s.M[k].g)}
\* levels that meet are fused
FuseCell(old, H) ==
  {LET S == {<<e[2], e[3], 0>> : e \in {e \in old : e[1] = l}} \cup {<<h[3], h[4], h[5]>> : h \in {h \in H : h[2] = l}}
   IN IF Cardinality(S) = 1 THEN LET e == CHOOSE e \in S : TRUE IN <<l, e[1], e[2]>> ELSE <<l, -1, -1>> : l \in Lv(old) \cup {h[2] : h \in H}}
Fuse0(s, d, H) == [s EXCEPT !.M[d].c = TLCEval([i \in 1..N(s.M[d].g) |-> FuseCell(s.M[d].c[i], {h \in H : h[1] = i})])]
Fuse(s, d, H) == Strict3(Fuse0, s, d, H)
Fits(s, k) == LET m == s.M[k].g  e == s.E.g IN m.w = e.w /\ m.h = e.h /\ m.sx = e.sx /\ m.sy = e.sy

GeoOk(a, i) == a[i] >= 1 /\ a[i + 1] >= 1 /\ a[i + 2] \in {2, 4, 8, 16} /\ a[i + 3] \in {2, 4, 8, 16}
CLegal(s, op) ==
  LET a == op.a IN
  CASE op.n = "new" -> GeoOk(a, 2) /\ a[8] \in 1..3
    [] op.n = "fgrid" -> GeoOk(a, 2) /\ a[8] \in 1..3
    [] op.n = "egrid" -> GeoOk(a, 1)
    [] op.n = "fset" -> a[1] \in 0..(s.F.g.w - 1) /\ a[2] \in 0..(s.F.g.h - 1)
    [] op.n = "eset" -> a[1] \in 0..(s.E.g.w - 1) /\ a[2] \in 0..(s.E.g.h - 1)
    [] op.n = "ins" -> a[2] \in 0..(s.M[a[1]].g.w - 1) /\ a[3] \in 0..(s.M[a[1]].g.h - 1)
    [] op.n = "pts" -> Len(a) % 3 = 1
    [] op.n = "unc" -> TRUE
    [] op.n = "proj" -> IF s.P.c = <<>> THEN TRUE ELSE Len(s.P.c[1]) = Len(s.P.q)
    [] op.n = "merge" -> a[2] \notin {a[1], a[3]} /\ a[1] # a[3]
    [] OTHER -> TRUE
CNext(s, op, t) ==
  LET a == op.a IN
  CASE op.n = "new" -> [s EXCEPT !.M[a[1]] = Mls(Geo(a[2], a[3], a[4], a[5], a[6], a[7], a[8]))]
    [] op.n = "fgrid" -> [s EXCEPT !.F = Flt(Geo(a[2], a[3], a[4], a[5], a[6], a[7], a[8]))]
    [] op.n = "egrid" -> [s EXCEPT !.E = Flt(Geo(a[1], a[2], a[3], a[4], 0, 0, 1))]
    [] op.n = "fset" -> [s EXCEPT !.F.v[Ix(s.F.g, a[1], a[2])] = a[3]]
    [] op.n = "eset" -> [s EXCEPT !.E.v[Ix(s.E.g, a[1], a[2])] = a[3]]
    [] op.n = "ins" -> [s EXCEPT !.M[a[1]].c[Ix(s.M[a[1]].g, a[2], a[3])] = FuseCell(@, {<<1, a[4], 1, -1, 1>>})]
    [] op.n = "pts" -> [s EXCEPT !.P = [f |-> a[1], q |-> [j \in 1..(Len(a) \div 3) |-> A3(a, 3 * j - 1)], v |-> <<>>, c |-> <<>>]]
    [] op.n = "pvar" -> [s EXCEPT !.P.v = [j \in 1..Len(s.P.q) |-> 1 + ((j * a[1]) % 5)]]
    [] op.n = "pcol" -> [s EXCEPT !.P.c = <<[j \in 1..Len(s.P.q) |-> (j + a[1]) % 5]>>]
    [] op.n = "unc" -> [s EXCEPT !.fr[a[1]].z = a[2]]
    [] op.n = "move" -> [s EXCEPT !.fr[a[1]].x = TF(a, 2), !.fr[a[1]].z = 0]
    [] op.n = "f2m" -> Fuse(s, a[1], FromFloat(s, a[1]))
    [] op.n = "m2g" -> IF Fits(s, a[1]) THEN [s EXCEPT !.E.v = [i \in 1..N(s.E.g) |-> IF s.M[a[1]].c[i] = {} THEN s.E.v[i] ELSE MaxOf(Lv(s.M[a[1]].c[i]))]] ELSE s
    [] op.n = "merge" -> LET H(k) == IF k = 0 THEN {} ELSE IF a[4] = 1 THEN Backward(s, k, a[2]) ELSE Forward(s, k, a[2]) IN
         Fuse(Fuse(s, a[2], H(a[1])), a[2], H(a[3]))
    [] op.n = "proj" -> Fuse(s, a[1], FromPoints(s, a[1], a[2], SubSeq(a, 3, Len(a))))
    [] op.n = "m2p" -> [s EXCEPT !.P.v = <<>>, !.P.c = IF @ = <<>> THEN @ ELSE <<<<>>>>, !.P.q = IF "o" \in DOMAIN t THEN t.o[5] ELSE LET S == Points(s, a[1]) IN CHOOSE q \in {[j \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y[1] < x[1] \/ (y[1] = x[1] /\ (y[2] < x[2] \/ (y[2] = x[2] /\ y[3] < x[3])))}) = j - 1]} : TRUE]
    [] OTHER -> s
CModel(s, op) == [r |-> <<>>]
Elems(q) == {q[j] : j \in 1..Len(q)}
SetOk(q, S) == Elems(q) = S /\ Len(q) = Cardinality(S)
PatchesOk(q, S) == Len(q) = Cardinality(S) /\ \A e \in S : \E j \in 1..Len(q) : q[j][1] = e[1] /\ (e[2] = -1 \/ q[j][2] = e[2]) /\ (e[3] = -1 \/ q[j][3] = e[3])
CCheck(s, op, u, t) ==
  LET a == op.a  n == op.n IN
  /\ Check("all", "result", t.x = (IF n = "m2g" /\ ~Fits(s, a[1]) THEN "throw" ELSE "ok"), <<op, s, t.x>>)
  /\ \A k \in 1..3 : \A i \in 1..N(u.M[k].g) : Check("all", "patches of the cells", PatchesOk(t.o[k][i], u.M[k].c[i]), <<op, k, i, t.o[k], u, s>>)
  /\ Check("all", "heights of the grid", t.o[4] = u.E.v, <<op, t.o[4], u, s>>)
  /\ n = "m2p" => Check("all", "points of the surface", SetOk(t.o[5], Points(s, a[1])), <<op, t.o[5], Points(s, a[1]), s>>)
  /\ n # "m2p" => Check("all", "points", t.o[5] = u.P.q, <<op, t.o[5], u>>)

COps(s) ==
  UNION {
    IF "new" \in EOps THEN {Op("new", <<2, 2, 1, 8, 4, 0, -4, f>>) : f \in {1, 2}} ELSE {},
    IF "ins" \in EOps THEN {Op("ins", <<1, x, 0, l>>) : x \in {0, 1}, l \in {0, 2}} ELSE {},
    IF "fset" \in EOps THEN {Op("fset", <<x, 1, 3>>) : x \in {0, 1}} ELSE {},
    IF "pts" \in EOps THEN {Op("pts", <<f, 3, 5, 0, 9, 5, 1>>) : f \in {1, 2}} ELSE {},
    IF "data" \in EOps THEN {Op("pvar", <<2>>), Op("pcol", <<1>>), Op("unc", <<1, 2>>), Op("unc", <<2, 1>>)} ELSE {},
    IF "move" \in EOps THEN {Op("move", <<f, q, 8, -4, 1>>) : f \in {1, 2}, q \in {0, 1}} ELSE {},
    IF "f2m" \in EOps THEN {Op("f2m", <<k>>) : k \in {1, 2}} ELSE {},
    IF "m2g" \in EOps THEN {Op("m2g", <<k>>) : k \in {1, 2}} ELSE {},
    IF "merge" \in EOps THEN {Op("merge", <<1, 2, 0, r, v>>) : r \in {0, 1}, v \in {0, 1}} ELSE {},
    IF "proj" \in EOps THEN {Op("proj", <<k, un>>) : k \in {1, 2}, un \in {0, 1}} \cup {Op("proj", <<1, 0, 0, 5, 0, 9, 0, 1>>)} ELSE {},
    IF "m2p" \in EOps THEN {Op("m2p", <<k>>) : k \in {1, 2}} ELSE {}
  }
CRand(s) ==
  LET n == RS(Names)
      k == RS(<<1, 1, 2, 2, 3>>)
      f == R(1..3)
      geo == <<R(1..4), R(1..4), RS(<<8, 8, 4, 16>>), RS(<<8, 8, 4, 2>>), RS(<<0, 0, -16, R(-9..9)>>), RS(<<0, 0, -16, R(-9..9)>>)>>
      lv == RS(<<0, 0, 1, 2, 3, -1>>)
      g == s.M[k].g
      \* points near the grid
      t == Rel(s, g.f, f)
      pt(i) == IF R(1..3) = 1 THEN <<R(-30..30), R(-30..30), lv>> ELSE At(t, <<g.ox + R(0..(g.w * g.sx)), g.oy + R(0..(g.h * g.sy))>>, RS(<<0, 0, 1, 2, -1>>))
      RECURSIVE Cat(_)
      Cat(i) == IF i = 0 THEN <<>> ELSE pt(i) \o Cat(i - 1)
      e == RS(<<<<g.w, g.h, g.sx, g.sy>>, <<g.w, g.h, g.sx, g.sy>>, <<g.w, g.h, g.sx, g.sy>>, <<g.w + 1, g.h, g.sx, g.sy>>, <<g.w, g.h + 1, g.sx, g.sy>>, <<g.w, g.h, 16, g.sy>>, <<g.w, g.h, g.sx, 16>>>>)
      x1 == g.ox + R(0..(g.w * g.sx))  y1 == g.oy + R(0..(g.h * g.sy))
  IN CASE n = "new" -> Op(n, <<k>> \o geo \o <<f>>)
       [] n = "fgrid" -> Op(n, <<R({0, 1})>> \o geo \o <<f>>)
       [] n = "egrid" -> Op(n, e)
       [] n = "fset" -> Op(n, <<R(0..(s.F.g.w - 1)), R(0..(s.F.g.h - 1)), R(-9..9)>>)
       [] n = "eset" -> Op(n, <<R(0..(s.E.g.w - 1)), R(0..(s.E.g.h - 1)), R(-9..9)>>)
       [] n = "ins" -> Op(n, <<k, R(0..(g.w - 1)), R(0..(g.h - 1)), lv>>)
       [] n = "pts" -> Op(n, <<f>> \o Cat(R({0, 1, 3, 5})))
       [] n = "pvar" -> Op(n, <<R(0..4)>>)
       [] n = "pcol" -> Op(n, <<R(0..4)>>)
       [] n = "unc" -> Op(n, <<f, RS(<<0, 1, 2, 4>>)>>)
       [] n = "move" -> Op(n, <<f, RS(<<0, 0, 1, 2, 3>>), R({0, 8, R(-20..20)}), R({0, -8, R(-20..20)}), RS(<<0, 0, 1, -1>>)>>)
       [] n = "f2m" -> Op(n, <<k, R({0, 1})>>)
       [] n = "merge" -> Op(n, RS(<<<<1, 2, 0>>, <<2, 1, 0>>, <<1, 3, 2>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 0>>, <<2, 3, 1>>>>) \o <<R({0, 1}), RS(<<0, 0, 1>>)>>)
       [] n = "proj" -> Op(n, <<k, R({0, 1})>> \o R({<<>>, <<x1, x1 + R(0..12), y1, y1 + R(0..12), R({-1, 0}), R({0, 1})>>}))
       [] n = "m2p" -> Op(n, <<k>>)
       [] OTHER -> Op("m2g", <<k>>)
CInv(s) == \A k \in 1..3 : Len(s.M[k].c) = N(s.M[k].g)
=============================================================================
