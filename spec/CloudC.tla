------------------------------- MODULE CloudC -------------------------------
(* Point clouds and triangle meshes: vertices with optional data per vertex     *)
(* (normals, colours, attributes, variances), their copies, their text form and *)
(* the operators that merge, cut and produce them.                              *)
(* Lengths are in eighths of a metre, variances in tenths, colours in 255ths.   *)
(* Three frames: 1 and 2 below the root, 3 below 1; all rotations by right      *)
(* angles.                                                                      *)
EXTENDS CompUtil, Rigid
CONSTANTS Names, EOps

None == <<>>
Some(q) == <<q>>
NewCloud(f, kind) == [k |-> kind, f |-> f, p |-> <<>>, n |-> None, c |-> None, a |-> None, v |-> None, so |-> RId, fc |-> <<>>]
CInit == [fr |-> <<[p |-> 0, x |-> RId], [p |-> 0, x |-> RId], [p |-> 1, x |-> RId]>>,
          cl |-> <<NewCloud(1, 0), NewCloud(2, 0), NewCloud(3, 1)>>]
RECURSIVE Up(_, _)
Up(s, f) == IF f = 0 THEN RId ELSE LET u == Up(s, s.fr[f].p) IN RComp(u, s.fr[f].x)
Rel(s, f, h) == RComp(RInv(Up(s, h)), Up(s, f))      \* from f to h
RotV(x, v) == MV(x.m, v)
Pts(x, q) == TLCEval([i \in 1..Len(q) |-> RPt(x, q[i])])
Rots(x, q) == TLCEval([i \in 1..Len(q) |-> RotV(x, q[i])])
Emp(d) == IF d = None THEN None ELSE Some(<<>>)
Cleared(c) == [c EXCEPT !.p = <<>>, !.n = Emp(c.n), !.c = Emp(c.c), !.a = Emp(c.a), !.v = Emp(c.v)]
Val(d) == IF d = None THEN <<>> ELSE d[1]
Full(c, d) == d # None => Len(d[1]) = Len(c.p)

\* a call's list of vectors
V3(a, i) == <<a[i], a[i + 1], a[i + 2]>>
RECURSIVE Vecs(_, _, _)
Vecs(a, i, n) == IF n = 0 THEN <<>> ELSE <<V3(a, i)>> \o Vecs(a, i + 3, n - 1)
RECURSIVE Boxes(_, _, _)
Boxes(a, i, n) == IF n = 0 THEN <<>> ELSE <<[ex |-> a[i], lo |-> V3(a, i + 1), hi |-> V3(a, i + 4)]>> \o Boxes(a, i + 7, n - 1)
In(b, v) == \A j \in 1..3 : b.lo[j] <= v[j] /\ v[j] <= b.hi[j]
\* cut <<dst, src, number of boxes, box that is removed again or 0, boxes>>
CutBoxes(a) == LET bs == Boxes(a, 5, a[3]) IN IF a[4] = 0 THEN bs ELSE DropAt(bs, a[4])
Kept(a, v) == \A i \in 1..Len(CutBoxes(a)) : LET b == CutBoxes(a)[i] IN In(b, v) = (b.ex = 0)
RECURSIVE Sel(_, _, _)
Sel(q, k, i) == IF i > Len(q) \/ i > Len(k) THEN <<>> ELSE (IF k[i] THEN <<q[i]>> ELSE <<>>) \o Sel(q, k, i + 1)
Cut0(s, d, c, x, a) ==
  LET k == TLCEval([i \in 1..Len(c.p) |-> Kept(a, c.p[i])])
      F(old, new, G(_)) == IF new = None THEN Emp(old) ELSE Some(G(Sel(new[1], k, 1)))
      Id1(q) == q
      Ro(q) == Rots(x, q)
  IN [d EXCEPT !.p = Pts(x, Sel(c.p, k, 1)), !.n = F(d.n, c.n, Ro), !.c = F(d.c, c.c, Id1), !.a = F(d.a, c.a, Id1), !.v = F(d.v, c.v, Id1)]
\* merge <<dst, clear first, inputs>>
Inputs(a) == SubSeq(a, 3, Len(a))
AnyN(s, a) == \E i \in 3..Len(a) : s.cl[a[i]].n # None
AnyC(s, a) == \E i \in 3..Len(a) : s.cl[a[i]].c # None
Mixed(s, a) == \E i \in 3..Len(a) : (AnyN(s, a) /\ s.cl[a[i]].n = None) \/ (AnyC(s, a) /\ s.cl[a[i]].c = None)
RECURSIVE Mrg(_, _, _, _, _)
Mrg(s, d, q, hn, hc) ==
  IF q = <<>> THEN d
  ELSE LET c == s.cl[Head(q)]  x == Rel(s, c.f, d.f)
           e == [d EXCEPT !.p = @ \o Pts(x, c.p),
                          !.n = IF hn THEN Some(Val(d.n) \o Rots(x, c.n[1])) ELSE @,
                          !.c = IF hc THEN Some(Val(d.c) \o c.c[1]) ELSE @]
       IN Mrg(s, e, Rest1(q), hn, hc)
Perm(q, p) == Len(q) = Len(p) /\ {q[i] : i \in 1..Len(q)} = {p[i] : i \in 1..Len(p)}
\* the order in which an operator takes its inputs is its own
Order(a, t) == IF Perm(t.r, Inputs(a)) THEN t.r ELSE Inputs(a)
\* d2p <<dst, frame, w, h, offset x, offset y, largest distance, factor in tenths, image, w * h distances in columns>>; 0 and the marks are no distance
Nan == -1
Infty == -2
D2C(a, x, y) == a[10 + x * a[4] + y]
D2Cells(a) == {<<x, y>> \in (0..(a[3] - 1)) \X (0..(a[4] - 1)) : D2C(a, x, y) > 0 /\ D2C(a, x, y) < a[7]}
\* eighths of a metre: cells are 1/4 m, distances in whole metres
D2P(a, x, y) == LET d == D2C(a, x, y) IN <<(2 * x + 1 + a[5]) * d, (2 * y + 1 + a[6]) * d, 8 * d>>
Lex(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ (p[2] < q[2] \/ (p[2] = q[2] /\ p[3] < q[3])))
RECURSIVE LexSeq(_)
LexSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : \A f \in S : ~Lex(f[1], e[1]) IN <<e>> \o LexSeq(S \ {e})
Img(x, y) == <<10 * x + y, 100 + x, 200 + y>>
D2New(s, a) ==
  LET d == s.cl[a[1]]  x == Rel(s, a[2], d.f)
      S == {<<RPt(x, D2P(a, e[1], e[2])), D2C(a, e[1], e[2]), Img(e[1], e[2])>> : e \in D2Cells(a)}
      q == LexSeq(S)
  IN [Cleared(d) EXCEPT !.p = [i \in 1..Len(q) |-> q[i][1]], !.v = Some([i \in 1..Len(q) |-> q[i][2] * a[8]]),
                        !.c = IF a[9] = 1 THEN Some([i \in 1..Len(q) |-> q[i][3]]) ELSE Emp(d.c)]
\* the normals of a mesh
Cross(v, w) == <<v[2] * w[3] - v[3] * w[2], v[3] * w[1] - v[1] * w[3], v[1] * w[2] - v[2] * w[1]>>
FaceN(c, f) == LET p(i) == c.p[f[i] + 1]
                   d(i, j) == <<p(i)[1] - p(j)[1], p(i)[2] - p(j)[2], p(i)[3] - p(j)[3]>> IN Cross(d(1, 2), d(3, 2))
\* n in thousandths is the direction of the integer vector w
Direction(n, w) ==
  LET q == w[1] * w[1] + w[2] * w[2] + w[3] * w[3] IN
  IF q = 0 THEN n = <<0, 0, 0>>
  ELSE LET r == ISqrt(100 * q) IN \A j \in 1..3 : Abs(n[j] * r - 10000 * w[j]) <= 2 * r + ((10000 * Abs(w[j])) \div r)
NormalsOk(c, ns) ==
  /\ Len(ns) = Len(c.p)
  /\ \A i \in 1..Len(c.p) :
       LET F == {j \in 1..Len(c.fc) : \E e \in 1..3 : c.fc[j][e] = i - 1} IN
       IF F = {} THEN ns[i] = <<0, 0, 0>> ELSE \E j \in F : Direction(ns[i], FaceN(c, c.fc[j]))

InitVal(w, i, j) == CASE w = "n" -> <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, -1, 0>>, <<-1, 0, 0>>>>[1 + ((i + j) % 4)]
                      [] w = "c" -> <<(i * 7 + j) % 256, (i * 11) % 256, j % 256>>
                      [] w = "a" -> (i + j) % 5
                      [] OTHER -> i + 10 * j
Field(w) == <<"n", "c", "a", "v">>[w]
CLegal(s, op) ==
  LET a == op.a  n == op.n IN
  CASE n = "new" -> a[1] \in 1..3 /\ a[2] \in 1..3
    [] n = "add" -> Len(s.cl[a[1]].p) < 8 /\ \A w \in {"n", "c", "a", "v"} : Full(s.cl[a[1]], s.cl[a[1]][w])
    [] n = "meta" -> a[2] \in 1..4 /\ a[3] <= Len(s.cl[a[1]].p)
    [] n = "drop" -> s.cl[a[1]][Field(a[2])] # None
    [] n = "clear" -> TRUE
    [] n = "pose" -> RotOk(V3(a, 2))
    [] n = "frame" -> TRUE
    [] n = "origin" -> RotOk(V3(a, 2))
    [] n = "copy" -> a[1] # a[2]
    [] n = "clone" -> a[1] # a[2]
    [] n = "assign" -> a[1] # a[2] /\ s.cl[a[1]].k = s.cl[a[2]].k
    [] n = "sample" -> a[3] <= a[2]
    [] n = "text" -> a[1] # a[2] /\ Len(s.cl[a[1]].p) + Len(s.cl[a[2]].p) < 16
    [] n = "import" -> a[1] # a[2]
    [] n = "nofile" -> TRUE
    [] n = "merge" -> LET d == s.cl[a[1]] IN
         /\ \A i \in 3..Len(a) : a[i] # a[1] /\ Full(s.cl[a[i]], s.cl[a[i]].n) /\ Full(s.cl[a[i]], s.cl[a[i]].c)
         /\ (Len(a) = 4 => a[3] # a[4])
         /\ Len(d.p) < 10 /\ \A i \in 3..Len(a) : Len(s.cl[a[i]].p) < 10
         \* appended data belongs to the appended vertices only if the output had it for its own
         /\ (a[2] = 0 /\ AnyN(s, a) => Len(Val(d.n)) = Len(d.p)) /\ (a[2] = 0 /\ AnyC(s, a) => Len(Val(d.c)) = Len(d.p))
    [] n = "cut" -> a[1] # a[2] /\ a[4] <= a[3]
    [] n = "d2p" -> TRUE
    [] n = "face" -> s.cl[a[1]].k = 1 /\ (\A i \in 2..4 : a[i] < Len(s.cl[a[1]].p)) /\ Cardinality({a[2], a[3], a[4]}) = 3 /\ Len(s.cl[a[1]].fc) < 4
    [] n = "normals" -> s.cl[a[1]].k = 1 /\ (\A j \in 1..Len(s.cl[a[1]].fc) : \A i \in 1..3 : s.cl[a[1]].fc[j][i] < Len(s.cl[a[1]].p))
                        \* whole numbers stay small
                        /\ \A j \in 1..Len(s.cl[a[1]].p) : \A i \in 1..3 : Abs(s.cl[a[1]].p[j][i]) <= 16
    [] n = "unface" -> s.cl[a[1]].k = 1
    [] n = "mesh" -> TRUE
    [] OTHER -> FALSE
CNext(s, op, t) ==
  LET a == op.a  n == op.n  d == s.cl[a[1]]
      Set(c) == [s EXCEPT !.cl[a[1]] = c]
      L == Len(d.p) + 1
      App(w, x) == IF d[w] = None THEN None ELSE Some(Append(d[w][1], x))
  IN
  CASE n = "new" -> Set(NewCloud(a[2], a[3]))
    [] n = "add" -> Set([d EXCEPT !.p = Append(@, V3(a, 2)), !.n = App("n", InitVal("n", L, a[5])), !.c = App("c", InitVal("c", L, a[5])),
                                  !.a = App("a", InitVal("a", L, a[5])), !.v = App("v", InitVal("v", L, a[5]))])
    [] n = "meta" -> Set([d EXCEPT ![Field(a[2])] = Some([i \in 1..a[3] |-> InitVal(Field(a[2]), i, a[4])])])
    [] n = "drop" -> Set([d EXCEPT ![Field(a[2])] = None])
    [] n = "clear" -> Set(Cleared(d))
    [] n = "pose" -> [s EXCEPT !.fr[a[1]].x = RMake(V3(a, 2), V3(a, 5))]
    [] n = "frame" -> Set([d EXCEPT !.f = a[2]])
    [] n = "origin" -> Set([d EXCEPT !.so = RMake(V3(a, 2), V3(a, 5))])
    [] n = "copy" -> LET c == s.cl[a[2]] IN Set([Cleared(d) EXCEPT !.p = IF a[3] = 1 THEN Pts(Rel(s, c.f, d.f), c.p) ELSE c.p])
    [] n = "clone" -> Set(s.cl[a[2]])
    [] n = "assign" -> Set([s.cl[a[2]] EXCEPT !.f = d.f])
    [] n = "sample" -> Set([Cleared(d) EXCEPT !.p = Vecs(a, 4, a[2]), !.c = Some([i \in 1..a[3] |-> InitVal("c", i, 3)])])
    [] n = "text" -> LET q == s.cl[a[2]].p IN
         Set([d EXCEPT !.p = @ \o q, !.c = IF a[3] = 1 THEN Some(Val(d.c) \o [i \in 1..Len(q) |-> <<5 * i, 0, 0>>]) ELSE @])
    [] n = "import" -> Set([NewCloud(a[3], 0) EXCEPT !.p = s.cl[a[2]].p])
    [] n = "merge" -> IF Mixed(s, a) THEN Set(NewCloud(d.f, d.k))      \* the driver puts a new one where the call failed
                      ELSE Set(Mrg(s, IF a[2] = 1 THEN Cleared(d) ELSE d, Order(a, t), AnyN(s, a), AnyC(s, a)))
    [] n = "cut" -> LET c == s.cl[a[2]] IN Set(Cut0(s, d, c, Rel(s, c.f, d.f), a))
    [] n = "d2p" -> Set(D2New(s, a))
    [] n = "face" -> Set([d EXCEPT !.fc = Append(@, V3(a, 2))])
    [] n = "unface" -> Set([d EXCEPT !.fc = <<>>])
    \* a new mesh <<which, frame, points, faces, points.., faces..>>
    [] n = "mesh" -> Set([NewCloud(a[2], 1) EXCEPT !.p = Vecs(a, 5, a[3]), !.fc = Vecs(a, 5 + 3 * a[3], a[4])])
    [] n = "normals" -> Set([d EXCEPT !.n = Some(<<>>)])      \* the driver takes them out again
    [] OTHER -> s
CModel(s, op) == [r |-> <<>>]
Flat(x) == <<x.m[1], x.m[2], x.m[3], x.t>>
Ext(q) == IF q = <<>> THEN <<>> ELSE [j \in 1..6 |-> IF j <= 3 THEN MinOf({q[i][j] : i \in 1..Len(q)}) ELSE MaxOf({q[i][j - 3] : i \in 1..Len(q)})]
CCheck(s, op, u, t) ==
  LET a == op.a  n == op.n IN
  /\ Check("all", "result", t.x = (IF (n = "merge" /\ Mixed(s, a)) \/ n = "nofile" THEN "throw" ELSE "ok"), <<op, t.x, s>>)
  /\ (n = "merge" /\ t.x = "ok") => Check("all", "inputs of the merge", Perm(t.r, Inputs(a)), <<op, t.r>>)
  /\ n = "normals" => Check("all", "normals of the mesh", NormalsOk(s.cl[a[1]], t.r), <<op, t.r, s.cl[a[1]]>>)
  /\ \A k \in 1..3 : LET c == u.cl[k]  o == t.o[k] IN
       /\ Check("all", "kind", o[1] = c.k, <<op, k, o, c>>)
       /\ Check("all", "frame", o[2] = c.f, <<op, k, o, c>>)
       /\ Check("all", "vertices", o[3] = c.p, <<op, k, o[3], c.p, s>>)
       /\ Check("all", "normals", o[4] = c.n, <<op, k, o[4], c.n, s>>)
       /\ Check("all", "colours", o[5] = c.c, <<op, k, o[5], c.c, s>>)
       /\ Check("all", "attributes", o[6] = c.a, <<op, k, o[6], c.a, s>>)
       /\ Check("all", "variances", o[7] = c.v, <<op, k, o[7], c.v, s>>)
       /\ Check("all", "extents", o[8] = Ext(c.p), <<op, k, o[8], c.p>>)
       /\ Check("all", "sensor origin", o[9] = Flat(c.so), <<op, k, o[9], c.so>>)
       /\ Check("all", "faces", o[10] = c.fc, <<op, k, o[10], c.fc>>)

COps(s) ==
  UNION {
    IF "add" \in EOps THEN {Op("add", <<1, 8, -8, 0, 1>>), Op("add", <<1, 3, 2, 8, 2>>)} ELSE {},
    IF "meta" \in EOps THEN {Op("meta", <<1, w, Len(s.cl[1].p), 2>>) : w \in 1..4} ELSE {},
    IF "metaB" \in EOps THEN {Op("meta", <<2, w, 0, 2>>) : w \in {1, 2}} ELSE {},
    IF "short" \in EOps THEN {Op("meta", <<1, w, Len(s.cl[1].p) - 1, 2>>) : w \in IF s.cl[1].p = <<>> THEN {} ELSE 1..4} ELSE {},
    IF "addB" \in EOps THEN {Op("add", <<2, 1, 2, 3, 1>>)} ELSE {},
    IF "clear" \in EOps THEN {Op("clear", <<k>>) : k \in {1, 2}} ELSE {},
    IF "pose" \in EOps THEN {Op("pose", <<1, 2, -1, 3, 8, 0, 0>>), Op("pose", <<2, 1, 3, -2, 0, 0, 3>>)} ELSE {},
    IF "copy" \in EOps THEN {Op("copy", <<2, 1, tr>>) : tr \in {0, 1}} \cup {Op("clone", <<2, 1>>), Op("assign", <<2, 1>>)} ELSE {},
    IF "text" \in EOps THEN {Op("text", <<2, 1, fm, e>>) : fm \in {0, 1}, e \in 0..2} ELSE {},
    IF "merge" \in EOps THEN {Op("merge", <<3, cf, 1>>) : cf \in {0, 1}} \cup {Op("merge", <<3, cf, 1, 2>>) : cf \in {0, 1}} ELSE {},
    IF "cut" \in EOps THEN {Op("cut", <<2, 1, 1, 0, ex, 0, -8, 0, 8, 8, 8>>) : ex \in {0, 1}} \cup {Op("cut", <<2, 1, 2, r, 0, 0, -8, 0, 8, 8, 8, 1, 3, 2, 0, 9, 9, 9>>) : r \in 0..2} ELSE {},
    IF "face" \in EOps THEN {Op("add", <<3, 0, 0, 0, 1>>), Op("add", <<3, 8, 0, 0, 1>>), Op("add", <<3, 0, 8, 0, 1>>), Op("face", <<3, 0, 1, 2>>), Op("face", <<3, 2, 1, 0>>), Op("normals", <<3>>)} ELSE {}
  }
RP == RS(<<R(-12..12), R(-12..12), 0, 8, -8, 4>>)
RECURSIVE RSeq(_)
RSeq(n) == IF n = 0 THEN <<>> ELSE <<RP>> \o RSeq(n - 1)
RECURSIVE RDist(_)
RDist(n) == IF n = 0 THEN <<>> ELSE <<RS(<<0, 1, 1, 2, 3, 4, 5, 9, 10, 11, Nan, Infty>>)>> \o RDist(n - 1)
RECURSIVE RFaces(_, _)
RFaces(L, n) == IF n = 0 THEN <<>> ELSE LET x == R(0..(L - 1))  y == R((0..(L - 1)) \ {x})  z == R((0..(L - 1)) \ {x, y}) IN <<x, y, z>> \o RFaces(L, n - 1)
RBox(q) == LET c == IF q = <<>> \/ R(1..3) = 1 THEN <<RP, RP, RP>> ELSE RS(q)
               lo == <<R({0, R(0..10)}), R({0, R(0..10)}), R({0, R(0..10)})>>
               hi == <<R({0, R(0..10)}), R({0, R(0..10)}), R({0, R(0..10)})>>
           IN <<R({0, 1}), c[1] - lo[1], c[2] - lo[2], c[3] - lo[3], c[1] + hi[1], c[2] + hi[2], c[3] + hi[3]>>
RECURSIVE RBoxes(_, _)
RBoxes(q, n) == IF n = 0 THEN <<>> ELSE RBox(q) \o RBoxes(q, n - 1)
CRand(s) ==
  LET n == RS(Names)
      k == R(1..3)
      o == R((1..3) \ {k})
      z == 6 - k - o
      nb == RS(<<0, 1, 1, 2, 2, 3>>)
      w == R(1..3)
      h == R(1..3)
      m == R(1..4)
      np == R(0..4)
      M == {j \in 1..3 : s.cl[j].k = 1}
      j == IF M = {} THEN k ELSE R(M)
      L == Len(s.cl[j].p)
      rot == LET p == R(AllRots) IN <<p[1], p[2], p[3]>>
  IN CASE n = "new" -> Op(n, <<k, R(1..3), RS(<<0, 0, 1>>)>>)
       [] n = "add" -> Op(n, <<k>> \o RSeq(3) \o <<R(0..9)>>)
       [] n = "addm" -> Op("add", <<j>> \o RSeq(3) \o <<R(0..9)>>)
       [] n = "meta" -> Op(n, <<k, m, IF R(1..6) = 1 THEN R(0..Len(s.cl[k].p)) ELSE Len(s.cl[k].p), R(0..9)>>)
       [] n = "same" -> \* the data the others have
            LET W == {i \in 1..4 : s.cl[o][Field(i)] # None /\ s.cl[k][Field(i)] = None} IN
            IF W = {} THEN Op("add", <<k>> \o RSeq(3) \o <<R(0..9)>>) ELSE Op("meta", <<k, R(W), Len(s.cl[k].p), R(0..9)>>)
       [] n = "drop" -> Op(n, <<k, m>>)
       [] n = "pose" -> Op(n, <<k>> \o rot \o RSeq(3))
       [] n = "home" -> Op("pose", <<k, 1, 2, 3, 0, 0, 0>>)
       [] n = "shift" -> Op("pose", <<k, 1, 2, 3>> \o RSeq(3))
       [] n = "origin" -> Op(n, <<k>> \o rot \o RSeq(3))
       [] n = "frame" -> Op(n, <<k, R(1..3)>>)
       [] n = "copy" -> Op(n, <<k, o, RS(<<0, 1, 1>>)>>)
       [] n = "clone" -> Op(n, <<k, o>>)
       [] n = "assign" -> Op(n, <<k, o>>)
       [] n = "sample" -> LET c == R({np, R(0..np)}) IN Op(n, <<k, np, c>> \o RSeq(3 * np))
       [] n = "text" -> Op(n, <<k, o, R({0, 1}), R(0..3)>>)
       [] n = "import" -> Op(n, <<k, o, R(1..3)>>)
       [] n = "merge" -> Op(n, <<k, RS(<<0, 1, 1>>), o>> \o R({<<>>, <<z>>}))
       [] n = "cut" -> Op(n, <<k, o, nb, IF nb = 0 THEN 0 ELSE RS(<<0, 0, 0, R(1..nb)>>)>> \o RBoxes(s.cl[o].p, nb))
       [] n = "d2p" -> Op(n, <<k, R(1..3), w, h, R(-6..6), R(-6..6), RS(<<3, 5, 10, 20>>), RS(<<1, 2, 10>>), R({0, 1})>> \o RDist(w * h))
       [] n = "face" -> IF L < 3 THEN Op("add", <<j>> \o RSeq(3) \o <<R(0..9)>>)
                        \* a new mesh where the points are too far apart
                        ELSE IF \E i \in 1..L : \E e \in 1..3 : Abs(s.cl[j].p[i][e]) > 16 THEN Op("new", <<j, R(1..3), 1>>)
                        ELSE LET x == R(0..(L - 1))  y == R((0..(L - 1)) \ {x})  z2 == R((0..(L - 1)) \ {x, y}) IN Op(n, <<j, x, y, z2>>)
       [] n = "normals" -> LET F == {i \in M : s.cl[i].fc # <<>>} IN Op(n, <<IF F = {} THEN j ELSE R(F)>>)
       [] n = "unface" -> Op(n, <<j>>)
       [] n = "mesh" -> LET v == R(3..6)  f == R(1..4) IN Op(n, <<k, R(1..3), v, f>> \o RSeq(3 * v) \o RFaces(v, f))
       [] OTHER -> Op(n, <<k>>)
CInv(s) == \A k \in 1..3 : s.cl[k].f \in 1..3 /\ Len(Val(s.cl[k].n)) >= 0
=============================================================================
