-------------------------------- MODULE ScanC --------------------------------
(* Laser scans: their lines of distances and reflectivities, their text form,   *)
(* their storage, and the surface that ScanMeshing spans over their points.     *)
(* Angles are in degrees, distances in millimetres; positions of vertices are   *)
(* in tenths of a millimetre and compared with a tolerance.                     *)
EXTENDS CompUtil, Rigid
CONSTANTS Names, EOps

NewScan == [dp |-> 0, op |-> 0, of |-> 0, co |-> <<0, 0, 0>>, xf |-> 0, ls |-> <<>>]
\* mel: longest edge, mn..mx: ranges that count (all half a millimetre more), rs: reflectivity that is white, us: colours wanted
NewCfg == [mel |-> 499, mn |-> 99, mx |-> 100000, rs |-> 10000, us |-> 0]
CInit == [sc |-> NewScan, cf |-> NewCfg]

\* <<line>> of a call: angle, with reflectivities, number of points, distances, reflectivities
LineOf(a, i) == LET n == a[i + 2] IN
  [ph |-> a[i], r |-> SubSeq(a, i + 3, i + 2 + n), m |-> IF a[i + 1] = 1 THEN SubSeq(a, i + 3 + n, i + 2 + 2 * n) ELSE <<>>]
\* the text form keeps reflectivities where every point has one
Stored(l) == [l EXCEPT !.m = IF Len(l.m) = Len(l.r) THEN @ ELSE <<>>]
StoredScan(c) == [c EXCEPT !.ls = [i \in 1..Len(c.ls) |-> Stored(c.ls[i])]]

\* trigonometry in ten thousandths
SinTab == <<0,175,349,523,698,872,1045,1219,1392,1564,1736,1908,2079,2250,2419,2588,2756,2924,3090,3256,3420,3584,3746,3907,4067,4226,4384,4540,4695,4848,5000,5150,5299,5446,5592,5736,5878,6018,6157,6293,6428,6561,6691,6820,6947,7071,7193,7314,7431,7547,7660,7771,7880,7986,8090,8192,8290,8387,8480,8572,8660,8746,8829,8910,8988,9063,9135,9205,9272,9336,9397,9455,9511,9563,9613,9659,9703,9744,9781,9816,9848,9877,9903,9925,9945,9962,9976,9986,9994,9998,10000>>
Sin0(d) == IF d <= 90 THEN SinTab[d + 1] ELSE SinTab[181 - d]
Sin(d) == LET e == d % 360 IN IF e <= 180 THEN Sin0(e) ELSE -Sin0(e - 180)
Cos(d) == Sin(d + 90)
\* product of a length in tenths (up to 10^5) and a ratio
Times(l, c) == IF l < 0 THEN -((-l * Abs(c)) \div 10000) * (IF c < 0 THEN -1 ELSE 1) ELSE ((l * Abs(c)) \div 10000) * (IF c < 0 THEN -1 ELSE 1)
Pos(c, i, j) ==
  LET l == c.ls[i]
      ph == c.of + l.ph
      ps == c.op + (j - 1) * c.dp
      r == 10 * l.r[j]
      xx == Times(r, Cos(ps))
      yy == Times(r, Sin(ps))
      h == Times(xx, Cos(ph))
      v == Times(xx, Sin(ph))
      o == <<10 * c.co[1], Times(10 * c.co[2], Cos(ph)) - Times(10 * c.co[3], Sin(ph)), Times(10 * c.co[2], Sin(ph)) + Times(10 * c.co[3], Cos(ph))>>
      p == IF c.xf = 1 THEN <<h, yy, v>> ELSE <<-yy, h, v>>
  IN <<p[1] + o[1], p[2] + o[2], p[3] + o[3]>>
\* the step between two neighbouring distances: the angle between ray and surface (seen over twice the resolution) is within 85 degrees of a right one
StepL(c, r, n) == Abs(r * 10000 - n * Cos(2 * c.dp))
StepR(c, r, n) == ((n * Abs(Sin(2 * c.dp))) \div 100) * 1143
Flat(c, r, n) == r > 0 /\ StepL(c, r, n) < StepR(c, r, n)
StepClear(c, r, n) == r = 0 \/ n = 0 \/ Abs(StepL(c, r, n) - StepR(c, r, n)) > 20000 + (StepR(c, r, n) \div 50)
StepOk(c, l, j) == j < 1 \/ j >= Len(l.r) \/ Flat(c, l.r[j], l.r[j + 1])
IsPoint(s, i, j) ==
  /\ j >= 1 /\ j <= Len(s.sc.ls[i].r)
  /\ LET l == s.sc.ls[i] IN l.r[j] > s.cf.mn /\ l.r[j] <= s.cf.mx /\ StepOk(s.sc, l, j) /\ StepOk(s.sc, l, j - 1)
\* the points in their order
RECURSIVE Keys(_, _, _)
Keys(s, i, j) == IF i > Len(s.sc.ls) THEN <<>>
                 ELSE IF j > Len(s.sc.ls[i].r) THEN Keys(s, i + 1, 1)
                 ELSE (IF IsPoint(s, i, j) THEN <<<<i, j>>>> ELSE <<>>) \o Keys(s, i, j + 1)
EdgeOf(s, k) == LET i == k[1] j == k[2] IN j = 1 \/ j = Len(s.sc.ls[i].r) \/ i = 1 \/ i = Len(s.sc.ls)
HasM(l) == Len(l.m) = Len(l.r)
Sq(p, q) == LET d(e) == (p[e] - q[e]) \div 10 IN d(1) * d(1) + d(2) * d(2) + d(3) * d(3)
Corner(i, j) == <<<<i - 1, j - 1>>, <<i - 1, j>>, <<i, j>>, <<i, j - 1>>>>
\* the triangle without corner n
Tri(i, j, n) == LET q == Corner(i, j) IN DropAt(q, n + 1)
Quads(s) == UNION {{<<i, j>> : j \in 2..Len(s.sc.ls[i].r)} : i \in 2..Len(s.sc.ls)}
Idx(K, k) == CHOOSE x \in 1..Len(K) : K[x] = k
\* what is computed once for a mesh
Mesh(s) ==
  LET K == TLCEval(Keys(s, 1, 1))
      D == TLCEval({K[x] : x \in 1..Len(K)})
      P == TLCEval([k \in D |-> Pos(s.sc, k[1], k[2])])
      Pairs(t) == {<<t[1], t[2]>>, <<t[1], t[3]>>, <<t[2], t[3]>>}
      In(t) == \A e \in 1..3 : t[e] \in D
      ShortE(k, h) == Sq(P[k], P[h]) < (s.cf.mel - 6) * (s.cf.mel - 6)
      LongE(k, h) == Sq(P[k], P[h]) > (s.cf.mel + 6) * (s.cf.mel + 6)
      Ok(i, j, n) == In(Tri(i, j, n)) /\ \A e \in Pairs(Tri(i, j, n)) : ShortE(e[1], e[2])
      \* two triangles of a quad share a diagonal; the one that comes first decides which
      Ns(i, j) == LET O == {n \in 0..3 : Ok(i, j, n)} IN
                  IF O = {} THEN {} ELSE LET f == MinOf(O) IN {n \in O : (n - f) % 2 = 0}
      Fc(i, j, n) == LET t == Tri(i, j, n)  ps == s.sc.op + (j - 1) * s.sc.dp
                         u == <<Idx(K, t[1]) - 1, Idx(K, t[2]) - 1, Idx(K, t[3]) - 1>>
                     IN IF Abs(ps) > 90 THEN <<u[1], u[3], u[2]>> ELSE u
  IN [k |-> K, p |-> P,
      clear |-> \A q \in Quads(s) : \A n \in 0..3 : In(Tri(q[1], q[2], n)) =>
                  /\ \A e \in Pairs(Tri(q[1], q[2], n)) : (ShortE(e[1], e[2]) \/ LongE(e[1], e[2])) /\ Sq(P[e[1]], P[e[2]]) > 25,
      f |-> UNION {{Fc(q[1], q[2], n) : n \in Ns(q[1], q[2])} : q \in Quads(s)}]
Rot3(f) == IF f[1] <= f[2] /\ f[1] <= f[3] THEN f ELSE IF f[2] <= f[1] /\ f[2] <= f[3] THEN <<f[2], f[3], f[1]>> ELSE <<f[3], f[1], f[2]>>
Colour(s, k) == Min2(1000, (s.sc.ls[k[1]].m[k[2]] * 1000) \div s.cf.rs)
Var(r) == IF r >= 2000 THEN 400000 ELSE (r * r) \div 10

\* a mesh <<what it had before>>
MeshOk(s) ==
  LET c == s.sc IN
  /\ c.dp > 0 \/ \A i \in 1..Len(c.ls) : Len(c.ls[i].r) <= 1
  /\ (c.xf = 1 => c.co = <<0, 0, 0>>)
  \* colours for all or for none
  /\ (s.cf.us = 1 => \A i \in 1..Len(c.ls) : HasM(c.ls[i]) = HasM(c.ls[1]))
  /\ \A i \in 1..Len(c.ls) : \A j \in 1..(Len(c.ls[i].r) - 1) : StepClear(c, c.ls[i].r[j], c.ls[i].r[j + 1])
  /\ \A i \in 1..Len(c.ls) : \A j \in 1..Len(c.ls[i].r) : Abs(c.op + (j - 1) * c.dp) # 90
  /\ Mesh(s).clear
CLegal(s, op) ==
  LET a == op.a  n == op.n IN
  CASE n = "new" -> TRUE
    [] n = "set" -> TRUE
    [] n = "fwd" -> TRUE
    [] n = "line" -> Len(s.sc.ls) < 6 /\ a[1] \in -180..180
    [] n = "conf" -> a[1] > 20
    [] n = "text" -> TRUE
    [] n = "import" -> RotOk(SubSeq(a, 1, 3))
    [] n = "bad" -> TRUE
    [] n = "nofile" -> TRUE
    [] n = "store" -> TRUE
    [] n = "clone" -> TRUE
    [] n = "two" -> TRUE
    [] n = "mesh" -> MeshOk(s)
    [] OTHER -> FALSE
CNext(s, op, t) ==
  LET a == op.a  n == op.n IN
  CASE n = "new" -> [s EXCEPT !.sc = NewScan]
    [] n = "set" -> [s EXCEPT !.sc.dp = a[1], !.sc.op = a[2], !.sc.of = a[3], !.sc.co = SubSeq(a, 4, 6)]
    [] n = "fwd" -> [s EXCEPT !.sc.xf = a[1]]
    [] n = "line" -> LET l == LineOf(a, 3) IN
         IF s.sc.ls = <<>> THEN [s EXCEPT !.sc.op = a[1], !.sc.dp = a[2], !.sc.ls = <<l>>] ELSE [s EXCEPT !.sc.ls = Append(@, l)]
    [] n = "conf" -> [s EXCEPT !.cf = [mel |-> a[1], mn |-> a[2], mx |-> a[3], rs |-> a[4], us |-> a[5]]]
    [] n \in {"text", "store", "import"} -> [s EXCEPT !.sc = StoredScan(@)]
    [] OTHER -> s
CModel(s, op) == [r |-> <<>>]
Bad(n) == n \in {"bad", "nofile", "two"}
NearV(p, q, tol) == \A e \in 1..3 : Near(p[e], q[e], tol)
CheckMesh(s, op, r) ==
  LET M == Mesh(s)  K == M.k
      vs == r[1]  vr == r[2]  cl == r[3]  at == r[4]  fc == r[5]  nm == r[6]
      U == UNION {{f[1], f[2], f[3]} : f \in M.f}
  IN /\ Check("all", "number of points", Len(vs) = Len(K), <<op, Len(vs), K, s>>)
     /\ Check("all", "points", \A x \in 1..Len(K) : NearV(vs[x], M.p[K[x]], 12), <<op, vs, [x \in 1..Len(K) |-> M.p[K[x]]], s>>)
     /\ Check("all", "variances", Len(vr) = Len(K) /\ \A x \in 1..Len(K) : Near(vr[x], Var(s.sc.ls[K[x][1]].r[K[x][2]]), 3), <<op, vr, s>>)
     /\ LET has == s.cf.us = 1 /\ K # <<>> /\ HasM(s.sc.ls[1]) IN
        Check("all", "colours", IF has THEN Len(cl) = 1 /\ Len(cl[1]) = Len(K) /\ \A x \in 1..Len(K) : \A e \in 1..3 : Near(cl[1][x][e], Colour(s, K[x]), 1)
                                ELSE cl = <<>>, <<op, cl, s>>)
     /\ Check("all", "edge marks", Len(at) = Len(K) /\ \A x \in 1..Len(K) : at[x] = (IF EdgeOf(s, K[x]) THEN 1 ELSE 0), <<op, at, K, s>>)
     /\ Check("all", "triangles", {Rot3(fc[x]) : x \in 1..Len(fc)} = {Rot3(f) : f \in M.f} /\ Len(fc) = Cardinality(M.f), <<op, fc, M.f, K, s>>)
     /\ Check("all", "normals", Len(nm) = Len(K) /\ \A x \in 1..Len(K) : nm[x] = (IF (x - 1) \in U THEN 1 ELSE 0), <<op, nm, M.f>>)
     /\ Check("all", "meshing again", r[7] = 1, <<op, s>>)
LineO(l) == <<l.ph * 100, l.r, l.m>>
CCheck(s, op, u, t) ==
  LET a == op.a  n == op.n  c == u.sc IN
  /\ Check("all", "result", t.x = (IF Bad(n) THEN "throw" ELSE "ok"), <<op, t.x, s>>)
  /\ (n = "mesh" /\ t.x = "ok") => CheckMesh(s, op, t.r)
  /\ n = "import" => Check("all", "pose of the scan", t.r = LET x == RMake(SubSeq(a, 1, 3), SubSeq(a, 4, 6)) IN <<x.m[1], x.m[2], x.m[3], x.t>>, <<op, t.r>>)
  /\ Check("all", "angles", SubSeq(t.o, 1, 3) = <<c.dp * 100, c.op * 100, c.of * 100>>, <<op, t.o, c>>)
  /\ Check("all", "offset", t.o[4] = c.co, <<op, t.o, c>>)
  /\ Check("all", "forward axis", t.o[5] = c.xf, <<op, t.o, c>>)
  /\ Check("all", "lines", t.o[6] = [i \in 1..Len(c.ls) |-> LineO(c.ls[i])], <<op, t.o, c>>)
  /\ Check("all", "points per line", c.ls = <<>> \/ (\E i \in 2..Len(c.ls) : Len(c.ls[i].r) # Len(c.ls[1].r)) \/ t.o[7] = Len(c.ls[1].r), <<op, t.o, c>>)

\* exhaustive exploration: a few lines
ELine(ph, m, r) == Op("line", <<-10, 10, ph, m, Len(r)>> \o r \o (IF m = 1 THEN [i \in 1..Len(r) |-> 3000 * i] ELSE <<>>))
COps(s) ==
  UNION {
    IF "line" \in EOps THEN {ELine(10 * Len(s.sc.ls), m, r) : m \in {0, 1}, r \in {<<1000, 1000, 1000>>, <<1000, 0, 1000>>, <<2000, 1050, 1000>>}} ELSE {},
    IF "grid" \in EOps THEN {ELine(10 * Len(s.sc.ls), 0, <<r1, r2, 1000>>) : r1 \in {0, 1000, 1500}, r2 \in {0, 1000}} ELSE {},
    IF "odd" \in EOps THEN {ELine(10 * Len(s.sc.ls), m, r) : m \in {0, 1}, r \in {<<>>, <<1000>>, <<1000, 1000>>}} ELSE {},
    IF "set" \in EOps THEN {Op("set", <<10, -10, 5, 100, 20, 300>>), Op("fwd", <<1>>)} ELSE {},
    IF "conf" \in EOps THEN {Op("conf", <<300, 99, 1200, 6000, 1>>)} ELSE {},
    IF "text" \in EOps THEN {Op("text", <<e>>) : e \in 0..5} \cup {Op("store", <<0>>)} ELSE {},
    IF "mesh" \in EOps THEN {Op("mesh", <<0>>)} ELSE {}
  }
RECURSIVE RDists(_, _)
\* surfaces with steps and holes
RDists(n, d) == IF n = 0 THEN <<>> ELSE LET e == RS(<<d, d, d + R(-30..30), d + R(-200..200), R(0..3000), 0, d, d + R(-60..60)>>)  f == Max2(0, Min2(3900, e)) IN <<f>> \o RDists(n - 1, IF f = 0 THEN d ELSE f)
RECURSIVE RRem(_)
RRem(n) == IF n = 0 THEN <<>> ELSE <<RS(<<0, 1, R(0..2000), R(0..20000)>>)>> \o RRem(n - 1)
CRand(s) ==
  LET n == RS(Names)
      c == s.sc
      L == Len(c.ls)
      np == IF L = 0 \/ R(1..8) = 1 THEN RS(<<0, 1, 2, 3, 4, 5, 6>>) ELSE Len(c.ls[1].r)
      d0 == IF L = 0 \/ c.ls[L].r = <<>> THEN R(300..2500) ELSE RS(<<R(300..2500), c.ls[L].r[1], c.ls[L].r[1]>>)
      m == IF L = 0 \/ R(1..10) = 1 THEN R({0, 1}) ELSE IF HasM(c.ls[1]) THEN 1 ELSE 0
      ph == IF L = 0 THEN R(-40..40) ELSE c.ls[L].ph + RS(<<1, 2, 3, 5, 10, 10, -5, -7>>)
      \* a distance that occurs
      rg == LET W == {i \in 1..L : c.ls[i].r # <<>>} IN IF W = {} THEN 500 ELSE Max2(99, RS(c.ls[R(W)].r))
      rot == LET p == R(AllRots) IN <<p[1], p[2], p[3]>>
  IN CASE n = "new" -> Op(n, <<0>>)
       [] n = "set" -> Op(n, <<RS(<<1, 2, 3, 5, 10, 15>>), R(-60..40), RS(<<0, 0, R(-60..60)>>), R(-200..200), R(-200..200), R(-200..200)>>)
       [] n = "fwd" -> Op(n, <<R({0, 1})>>)
       [] n = "line" -> LET k == np IN
            Op(n, <<IF R(1..6) = 1 THEN R(-175..150) ELSE R(-60..30), RS(<<1, 2, 3, 5, 5, 10, 10, 15>>), ph, m, k>> \o RDists(k, d0) \o (IF m = 1 THEN RRem(k) ELSE <<>>))
       [] n = "conf" -> Op(n, <<RS(<<100, 200, 300, 500, 1000, 3000>>), RS(<<99, 49, 500, rg, rg - 1>>), RS(<<100000, 100000, 3000, 1500, rg, rg - 1>>), RS(<<10000, 1000, 255, 20000>>), R({0, 1, 1})>>)
       [] n = "text" -> Op(n, <<R(0..5)>>)
       [] n = "import" -> Op(n, rot \o <<R(-50..50), R(-50..50), R(-50..50), R({0, 1})>>)
       [] n = "bad" -> Op(n, <<R({0, 1})>>)
       [] OTHER -> Op(n, <<0>>)
CInv(s) == s.cf.mel > 0
=============================================================================
