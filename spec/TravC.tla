-------------------------------- MODULE TravC -------------------------------
(* Traversability grids: classes (drivability in percent, -1 a placeholder),    *)
(* a class and a probability per cell, statistics over rectangles.              *)
(* s.g[k]: c = cell size, lengths in tenths; t, p = the bands (empty: not yet    *)
(* made).  s.st[j]: the statistic j: klass -> <<count, smallest distance>> with  *)
(* distances in hundredths of a tenth, as bounds <<lo, hi>>.                     *)
EXTENDS CompUtil
CONSTANTS Names, EOps, Sizes
L == INSTANCE LinesC WITH Ends <- {}, Long <- 1

Grd(w, h, c, ox, oy) == [w |-> w, h |-> h, c |-> c, ox |-> ox, oy |-> oy, cls |-> <<>>, t |-> <<>>, p |-> <<>>]
NoStat == <<>>
CInit == [g |-> [k \in {1, 2} |-> Grd(2, 2, 10, 0, 0)], st |-> [j \in {1, 2} |-> NoStat]]
Zero(g) == [i \in 1..(g.w * g.h) |-> 0]
Ix(g, x, y) == y * g.w + x + 1
In(g, x, y) == x >= 0 /\ y >= 0 /\ x < g.w /\ y < g.h
T(g) == IF g.t = <<>> THEN Zero(g) ELSE g.t
P(g) == IF g.p = <<>> THEN Zero(g) ELSE g.p
Registered(g, v) == v + 1 <= Len(g.cls)
Driv(d) == Max2(d, 0)
Grow(q, n) == [i \in 1..Max2(Len(q), n) |-> IF i <= Len(q) THEN q[i] ELSE -1]
SetClass(g, n, d) == [g EXCEPT !.cls = [Grow(@, n + 1) EXCEPT ![n + 1] = d]]
SetT(g, v, x, y) == [g EXCEPT !.t = [T(g) EXCEPT ![Ix(g, x, y)] = v]]
SetP(g, v, x, y) == [g EXCEPT !.p = [P(g) EXCEPT ![Ix(g, x, y)] = v]]
Prob(m) == Min2(255, (m * 255) \div 1000)
Show(d) == <<Driv(d), IF d > 0 THEN 1 ELSE 0, IF d >= 0 THEN 1 ELSE 0>>
\* ---- rectangles: op.a = <<k, px, py, dx, dy, d, sx, sy>>
RA(g, a) == <<g.w, g.h, g.c, g.c, g.ox, g.oy, a[2], a[3], a[4], a[5], a[6], a[7], a[8]>>
Dirs == L!Dirs
RLegal(g, a) == <<a[4], a[5], a[6]>> \in Dirs /\ a[7] >= 0 /\ a[8] >= 0
CellOf(p, o, c) == (p - o) \div c
Radial(g, a, q) == LET dx == q[1] - CellOf(a[2], g.ox, g.c)  dy == q[2] - CellOf(a[3], g.oy, g.c) IN ISqrt(10000 * g.c * g.c * (dx * dx + dy * dy))
\* the cell of the centre when it lies on a cell border may be either
RadialB(g, a, q) == LET d == Radial(g, a, q)
                        onb == (a[2] - g.ox) % g.c = 0 \/ (a[3] - g.oy) % g.c = 0
                    IN <<IF onb THEN d - 142 * g.c - 2 ELSE d - 2, IF onb THEN d + 142 * g.c + 2 ELSE d + 2>>
BoxDist(g, a, q) ==
  LET ex == (2 * q[1] + 1) * g.c + 2 * (g.ox - a[2])
      ey == (2 * q[2] + 1) * g.c + 2 * (g.oy - a[3])
      X == Max2(0, (Abs(ex * a[4] + ey * a[5]) * 100) \div a[6] - 100 * a[7])
      Y == Max2(0, (Abs(ey * a[4] - ex * a[5]) * 100) \div a[6] - 100 * a[8])
  IN ISqrt(X * X + Y * Y) \div 2
BoxB(g, a, q) == LET d == BoxDist(g, a, q) IN <<Max2(0, d - 2 * g.c - 3), d + 15 * g.c + 3>>
Join(b, c) == <<Min2(b[1], c[1]), Min2(b[2], c[2])>>
Meas(S, v, b) == [x \in DOMAIN S \cup {v} |-> IF x # v THEN S[x] ELSE IF v \in DOMAIN S THEN <<S[v][1] + 1, Join(S[v][2], b)>> ELSE <<1, b>>]
\* all measurements of the cells q of g, added to S
AddAll(S, g, a, q, box) ==
  LET V == TLCEval([i \in 1..Len(q) |-> g.t[Ix(g, q[i][1], q[i][2])]])
      B == TLCEval([i \in 1..Len(q) |-> IF box THEN BoxB(g, a, q[i]) ELSE RadialB(g, a, q[i])])
      Of(v) == {i \in 1..Len(q) : V[i] = v}
      All(v) == {B[i] : i \in Of(v)} \cup (IF v \in DOMAIN S THEN {S[v][2]} ELSE {})
  IN TLCEval([v \in DOMAIN S \cup {V[i] : i \in 1..Len(q)} |->
       <<Cardinality(Of(v)) + (IF v \in DOMAIN S THEN S[v][1] ELSE 0), <<MinOf({b[1] : b \in All(v)}), MinOf({b[2] : b \in All(v)})>>>>])
Classes(g, q) == {g.t[Ix(g, q[i][1], q[i][2])] : i \in 1..Len(q)}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Touched(g, a) == LET r == RA(g, a) IN IF L!Inside(r, a[7], a[8]) THEN ToSeq({q \in L!Cells(r) : L!Touch(r, a[7], a[8], q)}) ELSE <<>>
Worst(g, q) == MinOf({Driv(g.cls[v + 1]) : v \in Classes(g, q)})
WorstP(g, q) == MinOf({255} \cup {P(g)[Ix(g, q[i][1], q[i][2])] : i \in 1..Len(q)})
Full(g) == Len(g.cls) >= 255

CLegal(s, op) ==
  LET a == op.a  g == s.g[a[1]] IN
  a[1] \in {1, 2} /\
  CASE op.n = "new" -> a[2] >= 1 /\ a[3] >= 1 /\ a[4] >= 1
    [] op.n \in {"snew", "clone", "copy", "assign", "setto", "ser"} -> TRUE
    [] op.n = "meas" -> a[2] \in 0..255 /\ a[3] >= 0
    [] op.n \in {"class", "cls"} -> a[2] \in 0..255
    [] op.n = "reg" -> TRUE
    [] op.n = "set" -> a[2] \in 0..255 /\ In(g, a[3], a[4])
    [] op.n = "setp" -> a[2] \in 0..2000 /\ In(g, a[3], a[4])
    [] op.n = "both" -> a[2] \in 0..255 /\ a[3] \in 0..2000 /\ In(g, a[4], a[5])
    [] op.n = "raw" -> a[2] \in {0, 1} /\ In(g, a[3], a[4]) /\ a[5] \in 0..255
    [] op.n = "get" -> In(g, a[2], a[3]) /\ Registered(g, T(g)[Ix(g, a[2], a[3])])
    [] op.n \in {"getp", "same"} -> In(g, a[2], a[3])
    [] op.n = "copyb" -> LET o == s.g[a[3]] IN g.w = o.w /\ g.h = o.h /\ (IF a[2] = 0 THEN o.t ELSE o.p) # <<>>
    [] op.n = "stat" -> RLegal(g, a)
    [] op.n = "worst" -> RLegal(g, a) /\ \A i \in 1..(g.w * g.h) : Registered(g, T(g)[i])
    [] op.n = "worstp" -> RLegal(g, a)
    [] op.n = "stat2" -> RLegal(g, a) /\ a[9] >= 0
    [] OTHER -> FALSE
BadClass(d) == d # -1 /\ d \notin 0..100
CNext(s, op, t) ==
  LET a == op.a  k == a[1]  g == s.g[k]
      G(h) == [s EXCEPT !.g[k] = h]
  IN
  CASE op.n = "new" -> G(Grd(a[2], a[3], a[4], a[5], a[6]))
    [] op.n = "snew" -> [s EXCEPT !.st[k] = NoStat]
    [] op.n = "meas" -> [s EXCEPT !.st[k] = Meas(@, a[2], <<10 * a[3] - 1, 10 * a[3] + 1>>)]
    [] op.n = "class" -> IF BadClass(a[3]) THEN s ELSE G(SetClass(g, a[2], a[3]))
    [] op.n = "reg" -> IF BadClass(a[2]) \/ t.r[1] = 0 THEN s ELSE G(SetClass(g, t.r[2], a[2]))
    [] op.n = "set" -> G(SetT(g, a[2], a[3], a[4]))
    [] op.n = "setp" -> G(SetP(g, Prob(a[2]), a[3], a[4]))
    [] op.n = "both" -> G(SetP(SetT(g, a[2], a[4], a[5]), Prob(a[3]), a[4], a[5]))
    [] op.n = "raw" -> IF a[2] = 0 THEN G(SetT(g, a[5], a[3], a[4])) ELSE G(SetP(g, a[5], a[3], a[4]))
    [] op.n = "get" -> G([g EXCEPT !.t = T(g)])
    [] op.n \in {"getp", "same"} -> G([g EXCEPT !.p = P(g)])
    [] op.n = "copyb" -> LET o == s.g[a[3]] IN IF a[2] = 0 THEN G([g EXCEPT !.t = o.t]) ELSE G([g EXCEPT !.p = o.p])
    [] op.n \in {"clone", "copy", "assign", "setto"} -> [s EXCEPT !.g[a[2]] = g]
    [] op.n = "ser" -> [s EXCEPT !.g[a[2]] = [g EXCEPT !.cls = t.r[2]]]
    [] op.n = "stat" -> IF g.t = <<>> THEN s ELSE [s EXCEPT !.st[1] = AddAll(@, g, a, t.r[1], FALSE)]
    [] op.n = "stat2" -> IF g.t = <<>> THEN s ELSE [s EXCEPT !.st[1] = AddAll(@, g, a, t.r[1], FALSE), !.st[2] = AddAll(@, g, a, t.r[2], TRUE)]
    [] op.n = "worstp" -> IF t.r[1] # <<>> THEN G([g EXCEPT !.p = P(g)]) ELSE s
    [] OTHER -> s
CModel(s, op) ==
  LET a == op.a  g == s.g[a[1]] IN
  [r |-> CASE op.n = "reg" -> IF BadClass(a[2]) THEN <<>> ELSE IF Full(g) THEN <<0>> ELSE <<1, Len(g.cls)>>
           [] op.n = "ser" -> <<1, [i \in 1..Len(g.cls) |-> Driv(g.cls[i])]>>
           [] op.n \in {"stat", "worst", "worstp"} -> <<Touched(g, a)>>
           [] op.n = "stat2" -> LET i == Touched(g, a)  b == [a EXCEPT ![7] = @ + a[9], ![8] = @ + a[9]]  o == Touched(g, b) IN
                                IF i = <<>> \/ o = <<>> THEN <<<<>>, <<>>>> ELSE <<i, ToSeq({o[j] : j \in 1..Len(o)} \ {i[j] : j \in 1..Len(i)})>>
           [] OTHER -> <<>>]
RECURSIVE StSum(_, _)
StSum(S, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN S[x][1] + StSum(S, D \ {x})
StatOk(op, S, o) ==
  /\ Check("all", "measurements in all", o[1] = StSum(S, DOMAIN S), <<op, S, o>>)
  /\ Check("all", "highest class", o[2] = MaxOf({0} \cup DOMAIN S), <<op, S, o>>)
  /\ Check("all", "counts of classes", {<<o[3][i][1], o[3][i][2]>> : i \in 1..Len(o[3])} = {<<x, S[x][1]>> : x \in DOMAIN S}, <<op, S, o>>)
  /\ Check("all", "smallest distances of classes", \A i \in 1..Len(o[3]) : LET b == S[o[3][i][1]][2] IN o[3][i][3] >= b[1] /\ o[3][i][3] <= b[2], <<op, S, o>>)
  /\ Check("all", "nothing measured for other classes", o[4] = 0, <<op, S, o>>)
GridObs(g) == <<g.w, g.h, g.c, g.c, g.ox, g.oy, g.cls, g.t, g.p>>
CCheck(s, op, u, t) ==
  LET a == op.a  g == s.g[a[1]]
      bad == CASE op.n = "class" -> BadClass(a[3]) [] op.n = "reg" -> BadClass(a[2]) [] op.n = "cls" -> ~Registered(g, a[2])
               [] op.n = "worst" -> g.t = <<>> \/ t.r[1] = <<>> [] op.n \in {"stat", "stat2"} -> g.t = <<>> [] OTHER -> FALSE
  IN
  /\ Check("all", "result", t.x = (IF bad THEN "throw" ELSE "ok"), <<op, g>>)
  /\ bad \/
     CASE op.n = "reg" -> Check("all", "new class gets an id that is not in use, while there is one", IF t.r[1] = 1 THEN t.r[2] \in 0..255 /\ (~Registered(g, t.r[2]) \/ g.cls[t.r[2] + 1] = -1) ELSE Full(g), <<op, t.r, g.cls>>)
       [] op.n = "cls" -> Check("all", "class", t.r = Show(g.cls[a[2] + 1]), <<op, t.r, g.cls>>)
       [] op.n = "get" -> Check("all", "class of a cell", t.r = Show(g.cls[T(g)[Ix(g, a[2], a[3])] + 1]), <<op, t.r, g>>)
       [] op.n = "getp" -> Check("all", "probability of a cell", t.r = <<10 * P(g)[Ix(g, a[2], a[3])]>>, <<op, t.r, g>>)
       [] op.n = "ser" -> Check("all", "classes read back", t.r[1] = 1 /\ Len(t.r[2]) = Len(g.cls) /\ \A i \in 1..Len(g.cls) : t.r[2][i] = g.cls[i] \/ (g.cls[i] = -1 /\ t.r[2][i] = 0), <<op, t.r, g.cls>>)
       [] op.n = "worst" -> Check("all", "worst class in a rectangle", <<t.r[2], t.r[3]>> = <<Worst(g, t.r[1]), IF Worst(g, t.r[1]) > 0 THEN 1 ELSE 0>>, <<op, t.r, g>>)
       [] op.n = "worstp" -> Check("all", "lowest probability in a rectangle", t.r[2] = 10 * WorstP(g, t.r[1]), <<op, t.r, g>>)
       [] OTHER -> TRUE
  /\ \A k \in {1, 2} : \A i \in 1..9 :
       Check("all", <<"width", "height", "cell size", "cell size", "offset", "offset", "classes", "class band", "probability band">>[i], t.o[k][i] = GridObs(u.g[k])[i], <<op, k, t.o[k][i], GridObs(u.g[k])[i]>>)
  /\ StatOk(op, u.st[1], t.o[3])
  /\ StatOk(op, u.st[2], t.o[4])

COps(s) ==
  UNION {
    IF "new" \in EOps THEN {Op("new", <<k, z[1], z[2], 10, 0, 0>>) : k \in {1, 2}, z \in Sizes} ELSE {},
    IF "class" \in EOps THEN {Op("class", <<1, n, d>>) : n \in {0, 2}, d \in {-2, -1, 0, 50, 100}} \cup {Op("cls", <<1, n>>) : n \in {0, 1, 2, 3}} ELSE {},
    IF "thin" \in EOps THEN {Op("set", <<1, 1, 3, 4>>)} \cup {Op(n, <<1, 35, 45, d[1], d[2], d[3], q[1], q[2]>>) : n \in {"stat"}, q \in {<<1, 28>>, <<28, 1>>, <<34, 2>>, <<0, 34>>}, d \in {<<1, 0, 1>>, <<0, 1, 1>>, <<3, 4, 5>>, <<-12, 5, 13>>}} ELSE {},
    IF "full" \in EOps THEN {Op("class", <<1, n, 50>>) : n \in {0, 1, 253, 254, 255}} ELSE {},
    IF "reg" \in EOps THEN {Op("reg", <<1, d>>) : d \in {0, 30, 101}} ELSE {},
    IF "set" \in EOps THEN {Op("set", <<1, v, 1, 0>>) : v \in {0, 2, 255}} \cup {Op("setp", <<1, m, 0, 1>>) : m \in {0, 500, 1000, 1200}} \cup {Op("both", <<1, 1, 300, 1, 1>>)} ELSE {},
    IF "get" \in EOps THEN {Op("get", <<1, 1, 0>>), Op("getp", <<1, 0, 1>>)} ELSE {},
    IF "copy" \in EOps THEN {Op(n, <<1, 2>>) : n \in {"clone", "copy", "assign", "setto"}} \cup {Op("set", <<2, 1, 0, 0>>), Op("set", <<1, 2, 0, 0>>)} ELSE {},
    IF "ser" \in EOps THEN {Op("ser", <<1, 2, m>>) : m \in {0, 1}} ELSE {},
    IF "rect" \in EOps THEN {Op(n, <<1, 20, 23, d[1], d[2], d[3], 7, 12>>) : n \in {"stat", "worst", "worstp"}, d \in {<<1, 0, 1>>, <<3, 4, 5>>, <<-12, 5, 13>>}} ELSE {}
  }
ClassVal == RS(<<0, 0, 1, 2, 3, 5, 255, 254, R(0..255)>>)
CRand(s) ==
  LET n == RS(Names)
      k == R({1, 2})
      g == s.g[k]  o == s.g[3 - k]
      x == R(0..(g.w - 1))  y == R(0..(g.h - 1))
      v == ClassVal
      have == IF g.cls = <<>> THEN v ELSE R({R(0..(Len(g.cls) - 1)), R(0..Min2(3, Len(g.cls) - 1)), v})
      ok == \A i \in 1..(g.w * g.h) : Registered(g, T(g)[i])
      px == g.ox + R((g.w * g.c) \div 4..(3 * g.w * g.c) \div 4)
      py == g.oy + R((g.h * g.c) \div 4..(3 * g.h * g.c) \div 4)
      m == Min2(g.w, g.h) * g.c
      d == R(Dirs)
      z == R({0, 3, m \div 6, m \div 3, (2 * m) \div 5, m \div 2})
      thin == R({0, 1, 2})
      mid == R(1..3) = 1
      side == <<<<R(0..z), R({z, R(0..z)})>>, <<thin, z>>, <<z, thin>>>>[R(1..3)]
      rect == <<k, IF mid THEN g.ox + (g.w * g.c) \div 2 ELSE px, IF mid THEN g.oy + (g.h * g.c) \div 2 ELSE py, d[1], d[2], d[3]>> \o side
  IN CASE n = "new" -> LET q == R({R(Sizes), <<o.w, o.h>>}) IN Op(n, <<k, q[1], q[2], RS(<<10, 5, 20, 10>>), R({0, -35}), R({0, 14})>>)
       [] n = "class" -> Op(n, <<k, R({have, v, 0}), RS(<<-1, 0, 0, 50, 100, 7, -2, 101, 93>>)>>)
       [] n = "reg" -> Op(n, <<k, R({-1, 0, 50, 100, 33, 101})>>)
       [] n = "cls" -> Op(n, <<k, R({have, v})>>)
       [] n = "set" -> Op(n, <<k, have, x, y>>)
       [] n = "setp" -> Op(n, <<k, R({0, 1, 500, 999, 1000, 1001, 1999, R(0..1000)}), x, y>>)
       [] n = "both" -> Op(n, <<k, have, R(0..1000), x, y>>)
       [] n = "raw" -> Op(n, <<k, R({0, 1}), x, y, have>>)
       [] n = "get" -> IF Registered(g, T(g)[Ix(g, x, y)]) THEN Op(n, <<k, x, y>>) ELSE Op("class", <<k, T(g)[Ix(g, x, y)], R(0..100)>>)
       [] n \in {"getp", "same"} -> Op(n, <<k, x, y>>)
       [] n = "copyb" -> LET b == R({0, 1}) IN IF g.w = o.w /\ g.h = o.h /\ (IF b = 0 THEN o.t ELSE o.p) # <<>> THEN Op(n, <<k, b, 3 - k>>) ELSE Op("clone", <<k, 3 - k>>)
       [] n = "assign" -> Op(R({"clone", "copy", "assign", "setto"}), <<k, RS(<<3 - k, 3 - k, 3 - k, k>>)>>)
       [] n = "ser" -> Op(n, <<k, 3 - k, R({0, 1})>>)
       [] n = "snew" -> Op(n, <<k>>)
       [] n = "meas" -> Op(n, <<k, v, R(0..500)>>)
       [] n = "worst" -> IF ok THEN Op(n, rect) ELSE LET i == CHOOSE i \in 1..(g.w * g.h) : ~Registered(g, T(g)[i]) IN Op("class", <<k, T(g)[i], R(0..100)>>)
       [] n = "stat2" -> Op(n, rect \o <<R({0, 1, 5, z, m \div 6, m \div 3})>>)
       [] n = "worstp" -> Op(n, rect)
       [] OTHER -> Op("stat", rect)
CInv(s) == \A k \in {1, 2} : LET g == s.g[k] IN Len(g.t) \in {0, g.w * g.h} /\ Len(g.p) \in {0, g.w * g.h} /\ Len(g.cls) <= 256
=============================================================================
