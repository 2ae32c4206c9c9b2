------------------------------ MODULE TravOpsC -----------------------------
(* Operators that fill traversability grids: classification of terrain by       *)
(* slope and step, growing of classes and objects, projection of classes.       *)
(* Lengths are in quarters, slopes and steps in eighths, drivabilities in        *)
(* thousandths.  Cells are listed row by row.                                   *)
EXTENDS CompUtil
CONSTANTS Names, EOps, Sizes

INF == 2000000002
Default == [m |-> 1, n |-> 1, w |-> 0, c |-> 0, o |-> 0, us |-> 0, ut |-> 0]
Start(w, h, sx, sy) ==
  [w |-> w, h |-> h, sx |-> sx, sy |-> sy, v |-> [i \in {0, 1} |-> [j \in 1..(w * h) |-> 0]], nd |-> [i \in {0, 1} |-> -INF],
   cfg |-> Default, t |-> <<>>, p |-> <<>>, cls |-> <<>>, t2 |-> <<>>, p2 |-> <<>>, cls2 |-> <<>>]
CInit == Start(2, 2, 4, 4)
N(s) == s.w * s.h
Zero(s) == [i \in 1..N(s) |-> 0]
X(s, i) == (i - 1) % s.w
Y(s, i) == (i - 1) \div s.w
Ix(s, x, y) == y * s.w + x + 1
Or0(s, q) == IF q = <<>> THEN Zero(s) ELSE q
D2(s, i, j) == LET dx == s.sx * (X(s, i) - X(s, j))  dy == s.sy * (Y(s, i) - Y(s, j)) IN dx * dx + dy * dy
Within(s, i, j, r) == D2(s, i, j) < r * r
\* nearest integers of a / b
Rounds(a, b) == LET q == a \div b IN IF 2 * (a % b) < b THEN {q} ELSE IF 2 * (a % b) > b THEN {q + 1} ELSE {q, q + 1}

\* ---- classification by thresholds: the set of <<class, probability>> a cell may get
HasSlope(s, i) == s.cfg.us = 1 /\ s.v[0][i] # s.nd[0]
HasStep(s, i) == s.cfg.ut = 1 /\ s.v[1][i] # s.nd[1]
Threshold(s, i) ==
  LET k == s.cfg  v == Abs(s.v[0][i]) IN
  IF HasStep(s, i) /\ k.c # 0 /\ s.v[1][i] > k.c THEN {<<1, 255>>}
  ELSE IF k.us = 1 /\ ~HasSlope(s, i) THEN {<<0, 0>>}
  ELSE IF HasSlope(s, i) /\ k.m # 0
       THEN IF v > k.m THEN {<<1, 255>>} ELSE {<<2 + k.n - q, 255>> : q \in Rounds(v * k.n, k.m)}
  ELSE {<<0, 0>>}
Base(s) == {i \in 1..N(s) : <<1, 255>> \in Threshold(s, i)}
Grown(s, B, r) == {i \in 1..N(s) : \E j \in B : Within(s, i, j, r)}
Between(s, i, p, q) ==
  /\ X(s, i) >= Min2(X(s, p), X(s, q)) /\ X(s, i) <= Max2(X(s, p), X(s, q))
  /\ Y(s, i) >= Min2(Y(s, p), Y(s, q)) /\ Y(s, i) <= Max2(Y(s, p), Y(s, q))
Box(s, p, q) == {i \in 1..N(s) : Between(s, i, p, q)}
Pairs(s, B) == {pq \in B \X B : pq[1] < pq[2] /\ Within(s, pq[1], pq[2], s.cfg.w)}
Boxes(s, B) == UNION {Box(s, pq[1], pq[2]) : pq \in Pairs(s, B)}
Adjacent(s, i, j) == Abs(X(s, i) - X(s, j)) <= 1 /\ Abs(Y(s, i) - Y(s, j)) <= 1
RECURSIVE Reach(_, _, _)
Reach(s, S, C) == LET T == S \cup {i \in C : \E j \in S : Adjacent(s, i, j)} IN IF T = S THEN S ELSE Reach(s, T, C)
\* the passage between two obstacles is closed
Closed(s, C, pq) == pq[2] \in Reach(s, {pq[1]}, C \cap Box(s, pq[1], pq[2]))
ClosedOk(s, B, C) ==
  /\ B \subseteq C
  /\ C \subseteq B \cup Boxes(s, B)
  /\ \A pq \in Pairs(s, B) : Closed(s, C, pq)

\* ---- drivabilities registered by the classification
DrivOf(n, i) == (1000 * (n + (n - 1) * i)) \div (n * n)
SumNum(q) == SumSeq(q)
MeanClass(t) == LET S == {i \in 1..Len(t) : t[i] # 0} IN IF S = {} THEN 0 ELSE LET a == SumSeq(t)  c == Cardinality(S) IN (2 * a + c) \div (2 * c)
TableOf(s, t) ==
  LET n == s.cfg.n
      base == [i \in 1..Max2(Len(s.cls), n + 3) |-> IF i = 2 THEN 0 ELSE IF i >= 3 /\ i <= n + 3 THEN DrivOf(n, i - 3) ELSE IF i <= Len(s.cls) THEN s.cls[i] ELSE -1]
      mc == MeanClass(t)
  IN [base EXCEPT ![1] = IF mc <= 1 THEN (500 * (n + 1)) \div n ELSE base[mc + 1]]
SameTable(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], 2)

\* ---- growing classes by their drivability
Sources(s, i, r) == {j \in 1..N(s) : s.p[j] > 0 /\ (Within(s, i, j, r) \/ i = j)}
GrowSet(s, i, r) ==
  LET S == Sources(s, i, r) IN
  IF S = {} THEN {<<s.t[i], s.p[i]>>}
  ELSE LET d == MinOf({s.cls[s.t[j] + 1] : j \in S}) IN {<<s.t[j], s.p[j]>> : j \in {j \in S : s.cls[s.t[j] + 1] <= d}}
Merge2(a, b) == [i \in 1..Max2(Len(a), Len(b)) |-> IF i <= Len(a) THEN a[i] ELSE b[i]]

\* ---- objects: a = <<w, h, sx, sy, r, n, ranks..., cells...>>
ObjGrid(a) == Start(a[1], a[2], a[3], a[4])
Rank(a, c) == a[7 + c]
ObjCell(a, i) == a[6 + a[6] + i]
ObjBest(a, i) ==
  LET g == ObjGrid(a)
      S == {j \in 1..N(g) : Within(g, i, j, a[5]) \/ i = j}
      best == MaxOf({Rank(a, ObjCell(a, j)) : j \in S})
  IN CHOOSE c \in {ObjCell(a, j) : j \in S} : Rank(a, c) = best
\* ---- projection: a = <<w, h, dx, dw, n, values..., cells...>>
PrCell(a, i) == a[5 + a[5] + i]
PrOk(a) == a[3] = 0 /\ a[4] = 0 /\ \A i \in 1..(a[1] * a[2]) : PrCell(a, i) < a[5] /\ a[6 + PrCell(a, i)] >= 0

CLegal(s, op) ==
  LET a == op.a IN
  CASE op.n = "new" -> a[1] >= 1 /\ a[2] >= 1 /\ a[3] >= 1 /\ a[4] >= 1
    [] op.n = "conf" -> a[1] >= 0 /\ a[2] \in 1..200 /\ a[3] >= 0 /\ a[4] >= 0 /\ a[5] >= 0
    [] op.n = "cell" -> a[1] \in {0, 1} /\ a[2] \in 0..(s.w - 1) /\ a[3] \in 0..(s.h - 1)
    [] op.n = "fill" -> Len(a) = N(s) + 1
    [] op.n = "nod" -> a[1] \in {0, 1}
    [] op.n = "put" -> a[1] \in 0..(s.w - 1) /\ a[2] \in 0..(s.h - 1) /\ a[3] \in 0..255 /\ a[4] \in 0..255
    [] op.n = "run" -> TRUE
    [] op.n = "reload" -> \A i \in 1..Len(s.cls) : s.cls[i] # -1
    [] op.n = "grow" -> a[1] >= 0 /\ \A i \in 1..N(s) : Or0(s, s.t)[i] < Len(s.cls)
    [] op.n = "objects" -> a[6] >= 1 /\ Len(a) = 6 + a[6] + a[1] * a[2] /\ (\A i, j \in 0..(a[6] - 1) : i # j => Rank(a, i) # Rank(a, j)) /\ \A i \in 1..(a[1] * a[2]) : ObjCell(a, i) < a[6]
    [] op.n = "project" -> a[5] >= 1 /\ Len(a) = 5 + a[5] + a[1] * a[2]
    [] OTHER -> FALSE
NoInput(s) == s.cfg.us = 0 /\ s.cfg.ut = 0
CNext(s, op, t) ==
  LET a == op.a IN
  CASE op.n = "new" -> Start(a[1], a[2], a[3], a[4])
    [] op.n = "conf" -> [s EXCEPT !.cfg = [m |-> a[1], n |-> a[2], w |-> a[3], c |-> a[4], o |-> a[5], us |-> a[6], ut |-> a[7]]]
    [] op.n = "cell" -> [s EXCEPT !.v[a[1]][Ix(s, a[2], a[3])] = a[4]]
    [] op.n = "fill" -> [s EXCEPT !.v[a[1]] = Rest1(a)]
    [] op.n = "nod" -> [s EXCEPT !.nd[a[1]] = a[2]]
    [] op.n = "put" -> [s EXCEPT !.t = [Or0(s, s.t) EXCEPT ![Ix(s, a[1], a[2])] = a[3]], !.p = [Or0(s, s.p) EXCEPT ![Ix(s, a[1], a[2])] = a[4]]]
    [] op.n = "run" -> IF NoInput(s) THEN [s EXCEPT !.t = Or0(s, s.t), !.p = IF "o" \in DOMAIN t THEN t.o[2] ELSE Zero(s)]
                       ELSE [s EXCEPT !.t = t.r[1], !.p = t.r[2], !.cls = TableOf(s, t.r[1])]
    [] op.n = "grow" -> [s EXCEPT !.t = Or0(s, s.t), !.p = Or0(s, s.p), !.t2 = t.r[1], !.p2 = t.r[2], !.cls2 = Merge2(s.cls, s.cls2)]
    [] OTHER -> s
AnyOf(S) == CHOOSE x \in S : TRUE
ModelRun(s) ==
  LET B == Base(s)
      C == B \cup (IF s.cfg.w > 0 THEN Boxes(s, B) ELSE {})
      G == IF s.cfg.o > 0 THEN Grown(s, C, s.cfg.o) ELSE C
  IN <<[i \in 1..N(s) |-> IF i \in G THEN 1 ELSE AnyOf(Threshold(s, i))[1]], [i \in 1..N(s) |-> IF i \in G THEN 255 ELSE AnyOf(Threshold(s, i))[2]]>>
CModel(s, op) ==
  [r |-> CASE op.n = "run" -> IF NoInput(s) THEN <<>> ELSE ModelRun(s)
           [] op.n = "grow" -> LET u == [s EXCEPT !.t = Or0(s, s.t), !.p = Or0(s, s.p)] IN <<[i \in 1..N(s) |-> AnyOf(GrowSet(u, i, op.a[1]))[1]], [i \in 1..N(s) |-> AnyOf(GrowSet(u, i, op.a[1]))[2]]>>
           [] OTHER -> <<>>]
RunOk(s, op, r) ==
  LET t == r[1]  p == r[2]  B == Base(s)
      O == {i \in 1..N(s) : t[i] = 1}
      lo == IF s.cfg.o > 0 THEN Grown(s, B, s.cfg.o) ELSE B
      hi == LET b == B \cup (IF s.cfg.w > 0 THEN Boxes(s, B) ELSE {}) IN IF s.cfg.o > 0 THEN Grown(s, b, s.cfg.o) ELSE b
  IN
  /\ Check("all", "size of the result", Len(t) = N(s) /\ Len(p) = N(s), <<op, r>>)
  /\ Check("all", "obstacles found", lo \subseteq O, <<op, s, r, lo \ O>>)
  /\ Check("all", "no other obstacles", O \subseteq hi, <<op, s, r, O \ hi>>)
  /\ Check("all", "narrow passages are closed", s.cfg.w = 0 \/ s.cfg.o > 0 \/ ClosedOk(s, B, O), <<op, s, r>>)
  /\ Check("all", "classes of traversable cells", \A i \in (1..N(s)) \ O : <<t[i], p[i]>> \in Threshold(s, i), <<op, s, r, {<<i, t[i], p[i], Threshold(s, i)>> : i \in {i \in (1..N(s)) \ O : <<t[i], p[i]>> \notin Threshold(s, i)}}>>)
  /\ Check("all", "obstacles are certain", \A i \in O : p[i] = 255, <<op, s, r>>)
CCheck(s, op, u, t) ==
  LET a == op.a
      bad == CASE op.n = "run" -> NoInput(s) [] op.n = "project" -> ~PrOk(a) [] OTHER -> FALSE
  IN
  /\ Check("all", "result", t.x = (IF bad THEN "throw" ELSE "ok"), <<op, s>>)
  /\ bad \/
     CASE op.n = "run" -> RunOk(s, op, t.r)
       [] op.n = "reload" -> Check("all", "items read back", t.r = <<1>>, <<op, t.r>>)
       [] op.n = "grow" -> LET v == [s EXCEPT !.t = Or0(s, s.t), !.p = Or0(s, s.p)] IN
            Check("all", "grown classes", Len(t.r[1]) = N(s) /\ \A i \in 1..N(s) : <<t.r[1][i], t.r[2][i]>> \in GrowSet(v, i, a[1]),
                  <<op, v, t.r, {<<i, GrowSet(v, i, a[1])>> : i \in {i \in 1..N(s) : <<t.r[1][i], t.r[2][i]>> \notin GrowSet(v, i, a[1])}}>>)
       [] op.n = "objects" -> Check("all", "grown objects", Len(t.r) = 2 * a[1] * a[2] /\ \A i \in 1..(a[1] * a[2]) : t.r[2 * i - 1] = ObjBest(a, i) /\ t.r[2 * i] = ObjCell(a, i), <<op, t.r>>)
       [] op.n = "project" -> Check("all", "projected classes", Len(t.r) = a[1] * a[2] /\ \A i \in 1..(a[1] * a[2]) : t.r[i] = a[6 + PrCell(a, i)], <<op, t.r>>)
       [] OTHER -> TRUE
  /\ (op.n = "run" /\ bad) => Check("all", "a refused run", t.o[2] \in {s.p, Zero(s)}, <<op, t.o>>)
  /\ Check("all", "classes of the cells", t.o[1] = u.t \/ (op.n = "run" /\ bad /\ t.o[1] = s.t), <<op, t.o[1], u.t>>)
  /\ Check("all", "probabilities of the cells", t.o[2] = u.p, <<op, t.o[2], u.p>>)
  /\ Check("all", "drivability of the classes", SameTable(t.o[3], u.cls), <<op, u, t.o[3]>>)
  /\ Check("all", "grown grid", <<t.o[4], t.o[5]>> = <<u.t2, u.p2>>, <<op, t.o, u>>)
  /\ Check("all", "drivability of the grown classes", SameTable(t.o[6], u.cls2), <<op, t.o[6], u.cls2>>)
  /\ Check("all", "input", <<t.o[7], t.o[8]>> = <<u.v[0], u.v[1]>>, <<op, t.o, u>>)

COps(s) ==
  UNION {
    IF "conf" \in EOps THEN {Op("conf", <<8, n, w, c, o, us, ut, 0>>) : n \in {2}, w \in {0, 13}, c \in {0, 2}, o \in {0, 5}, us \in {0, 1}, ut \in {0, 1}} ELSE {},
    IF "cell" \in EOps THEN {Op("cell", <<0, x, 0, v>>) : x \in {0, 1}, v \in {3, 9, -INF}} \cup {Op("cell", <<1, 1, y, v>>) : y \in {0, 1}, v \in {2, 3, 5}} \cup {Op("nod", <<0, 3>>)} ELSE {},
    IF "run" \in EOps THEN {Op("run", <<0>>)} ELSE {},
    IF "reload" \in EOps THEN {Op("reload", <<>>)} ELSE {},
    IF "grow" \in EOps THEN {Op("grow", <<r>>) : r \in {0, 5}} \cup {Op("put", <<0, 0, v, p>>) : v \in {0, 1, 3}, p \in {0, 200}} ELSE {}
  }
Perm(n) == LET RECURSIVE P(_)
               P(S) == IF S = {} THEN <<>> ELSE LET x == R(S) IN <<x>> \o P(S \ {x})
           IN P(0..(n - 1))
CRand(s) ==
  LET n == RS(Names)
      m == RS(<<0, 1, 8, 8, 5>>)
      b == R({0, 1})
      val(z) == RS(<<0, 0, R(0..9), R(-8..8), R({m, m + 1, 20, 30}), s.nd[z], -INF>>)
      sparse == R(1..3) > 1
      lim(z) == IF z = 0 THEN s.cfg.m ELSE s.cfg.c
      row(z) == [i \in 1..N(s) |-> IF sparse THEN IF R(1..7) > 1 THEN R({0, 1, lim(z) \div 2}) ELSE R({lim(z) + 1, 40}) ELSE val(z)]
      x == R(0..(s.w - 1))  y == R(0..(s.h - 1))
      ur == RS(<<<<1, 0>>, <<1, 1>>, <<1, 1>>, <<1, 1>>, <<0, 1>>, <<0, 0>>>>)
      free == {i \in 1..N(s) : Or0(s, s.t)[i] >= Len(s.cls)}
  IN CASE n = "new" -> LET q == R(Sizes)  sx == R({4, 2, 8}) IN Op(n, <<q[1], q[2], sx, RS(<<sx, sx, 2, 4, 8>>)>>)
       [] n = "conf" -> Op(n, <<m, RS(<<1, 2, 3, 4, 5, 7, 10, 10, 20>>), RS(<<0, 0, 0, 5, 9, 13, 17>>), R({0, 2, 4, 8}), RS(<<0, 0, 0, 3, 5, 9, 4, 8>>), ur[1], ur[2], R({0, 1})>>)
       [] n = "cell" -> Op(n, <<b, x, y, val(b)>>)
       [] n = "fill" -> Op(n, <<b>> \o row(b))
       [] n = "nod" -> Op(n, <<b, R({-INF, 0, 3, 9, 30})>>)
       [] n = "put" -> Op(n, <<x, y, R(0..Max2(1, Len(s.cls) - 1)), RS(<<0, 0, 255, 100>>)>>)
       [] n = "run" -> Op(n, <<R({0, 1})>>)
       [] n = "grow" -> IF free = {} THEN Op(n, <<R({0, 1, 3, 5, 9, 13, 4, 8})>>) ELSE IF s.cls = <<>> THEN Op("run", <<0>>) ELSE LET i == AnyOf(free) IN Op("put", <<X(s, i), Y(s, i), R({0, 1}), 9>>)
       [] n = "objects" -> LET q == R({<<1, 1>>, <<3, 2>>, <<4, 5>>})  k == R({1, 2, 4, 6}) IN
            Op(n, <<q[1], q[2], R({8, 4, 2}), R({2, 4, 8}), R({0, 3, 5, 9, 12}), k>> \o Perm(k) \o [i \in 1..(q[1] * q[2]) |-> RS(<<0, 0, R(0..(k - 1))>>)])
       [] n = "project" -> LET q == R({<<1, 1>>, <<3, 2>>, <<2, 4>>})  k == R({3, 4, 6}) IN
            Op(n, <<q[1], q[2], RS(<<0, 0, 0, 0, 0, 1>>), RS(<<0, 0, 0, 0, 0, 1>>), k>> \o [i \in 1..k |-> RS(<<R(0..90), R(0..90), R(0..90), R(0..90), R(0..90), R(0..90), -1>>)] \o [i \in 1..(q[1] * q[2]) |-> R(0..(k - 1))])
       [] OTHER -> IF \A i \in 1..Len(s.cls) : s.cls[i] # -1 THEN Op("reload", <<>>) ELSE Op("run", <<0>>)
CInv(s) == Len(s.t) \in {0, N(s)} /\ Len(s.p) \in {0, N(s)}
=============================================================================
