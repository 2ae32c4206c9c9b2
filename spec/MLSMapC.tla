------------------------------- MODULE MLSMapC ------------------------------
(* A surface map made of several surface grids, each in a frame of its own.     *)
(* Lengths are in eighths of a metre, heights in levels of ten metres; turns    *)
(* are quarter turns about z.  Frame 0 is the root, frame 1 holds map 1,        *)
(* frame 2 is a robot, frame 3 a child of frame 1.                              *)
EXTENDS CompUtil, Rigid
CONSTANTS Names, EOps

Cells == 3
Off == -12
TurnP(q) == CASE q = 0 -> <<1, 2, 3>> [] q = 1 -> <<2, -1, 3>> [] q = 2 -> <<-1, -2, 3>> [] OTHER -> <<-2, 1, 3>>
TF(a, i) == RMake(TurnP(a[i]), <<a[i + 1], a[i + 2], a[i + 3]>>)
NoMap == [im |-> 0, at |-> 0, gs |-> <<>>, act |-> 0, ch |-> {}]
CInit == [fr |-> <<[p |-> 0, x |-> RId], [p |-> 0, x |-> RId], [p |-> 1, x |-> RId]>>,
          g |-> <<>>, m |-> <<[NoMap EXCEPT !.at = 1], NoMap>>, last |-> <<>>]   \* last: the last lookup that found a patch
RECURSIVE Up(_, _)
Up(s, f) == IF f = 0 THEN RId ELSE LET u == Up(s, s.fr[f].p) IN RComp(u, s.fr[f].x)
Rel(s, f, h) == RComp(RInv(Up(s, h)), Up(s, f))      \* from f to h
NG(s) == Len(s.g)
InMap(s, k, i) == \E j \in 1..Len(s.m[k].gs) : s.m[k].gs[j] = i
Floor8(v, c) == (v \div c) * c
\* the frame a created grid gets
Placed(s, i, a, j, al) == LET t == TF(a, j)  c == s.g[i].sc IN IF al = 1 THEN RMake(Id3, <<Floor8(t.t[1], c), Floor8(t.t[2], c), t.t[3]>>) ELSE t
Create(s, k, t, rel) ==
  LET m == s.m[k]  f == Len(s.fr) + 1  i == NG(s) + 1 IN
  [s EXCEPT !.fr = Append(s.fr, [p |-> IF rel = 1 THEN s.g[m.act].f ELSE m.at, x |-> t]),
            !.g = Append(s.g, [f |-> f, sc |-> s.g[m.act].sc, c |-> {}]),
            !.m[k] = [m EXCEPT !.gs = Append(m.gs, i), !.act = i, !.ch = @ \cup {i}]]
Far(s, f, i) == LET t == Rel(s, f, s.g[i].f).t IN Max2(Abs(t[1]), Abs(t[2]))
\* grids within reach that are closest
Reach(s, k, f, th) == {i \in {s.m[k].gs[j] : j \in 1..Len(s.m[k].gs)} : Far(s, f, i) < th}
Closest(s, k, f, th) == LET S == Reach(s, k, f, th)  d == MinOf({Far(s, f, i) : i \in S}) IN {i \in S : Far(s, f, i) = d}
SetAct(s, k, i) == [s EXCEPT !.m[k].act = i]
SelT(s, k, f, al) ==
  LET i == s.m[k].act  t == Rel(s, f, s.g[i].f)  c == s.g[i].sc
  IN IF al = 1 THEN RMake(Id3, <<Floor8(t.t[1], c), Floor8(t.t[2], c), t.t[3]>>) ELSE t

Elems(q) == {q[j] : j \in 1..Len(q)}
\* patches of the map at a position, <<height in the map, patch>>
Found(s, k, x, y, lv) ==
  UNION {LET t == Rel(s, s.m[k].at, s.g[i].f)  p == RPt(t, <<x, y, 0>>)  c == s.g[i].sc
             cell == <<(p[1] - Off) \div c, (p[2] - Off) \div c>>
         IN {<<h[3] - t.t[3], h[4]>> : h \in {h \in s.g[i].c : <<h[1], h[2]>> = cell /\ h[3] = lv + t.t[3]}} : i \in Elems(s.m[k].gs)}

CLegal(s, op) ==
  LET a == op.a IN
  CASE op.n = "map" -> a[2] \in 1..Len(s.fr)
    [] op.n = "grid" -> a[1] \in 1..Len(s.fr) /\ NG(s) < 7
    [] op.n = "add" -> s.m[a[1]].at # 0 /\ a[2] \in 1..NG(s) /\ a[2] \notin s.m[a[1]].ch /\ ~InMap(s, a[1], a[2])
    [] op.n = "create" -> s.m[a[1]].at # 0 /\ Len(s.fr) < 9
    [] op.n = "select" -> s.m[a[1]].at # 0 /\ s.m[a[1]].act # 0 /\ Len(s.fr) < 9 /\ a[2] \in 1..Len(s.fr)
    [] op.n = "put" -> a[1] \in 1..NG(s) /\ a[2] \in 0..(Cells - 1) /\ a[3] \in 0..(Cells - 1) /\ (\A p \in s.g[a[1]].c : p[4] < a[5]) /\ \A p \in s.g[a[1]].c : SubSeq(p, 1, 3) # <<a[2], a[3], a[4]>>
    [] op.n = "move" -> a[1] \in 1..Len(s.fr)
    [] op.n = "get" -> s.m[a[1]].at # 0 /\ Len(a) >= 4
    [] op.n = "ext" -> s.m[a[1]].at # 0 /\ s.m[a[1]].ch # {} /\ \A i \in s.m[a[1]].ch : Rel(s, s.g[i].f, s.m[a[1]].at).m = I3
    [] op.n = "seal" -> s.m[a[1]].at # 0
    [] op.n = "clone" -> a[1] # a[2] /\ s.m[a[2]].at # 0
    [] op.n = "assign" -> s.m[a[1]].at # 0 /\ s.m[a[2]].at # 0
    [] op.n = "deep" -> a[1] # a[2] /\ s.m[a[2]].at # 0 /\ s.m[a[2]].act # 0 /\ NG(s) < 7
    [] OTHER -> FALSE
CNext(s, op, t) ==
  LET a == op.a IN
  CASE op.n = "map" -> [s EXCEPT !.m[a[1]] = [NoMap EXCEPT !.at = a[2]]]
    [] op.n = "grid" -> [s EXCEPT !.g = Append(s.g, [f |-> a[1], sc |-> a[2], c |-> {}])]
    [] op.n = "add" -> [s EXCEPT !.m[a[1]] = [@ EXCEPT !.gs = Append(@, a[2]), !.act = a[2], !.ch = @ \cup {a[2]}]]
    [] op.n = "create" -> IF s.m[a[1]].act = 0 THEN s ELSE Create(s, a[1], Placed(s, s.m[a[1]].act, a, 4, a[3]), a[2])
    [] op.n = "select" -> IF Reach(s, a[1], a[2], a[3]) = {} THEN Create(s, a[1], SelT(s, a[1], a[2], a[4]), 1)
                          ELSE SetAct(s, a[1], IF t.r # <<>> /\ t.r[1] \in Closest(s, a[1], a[2], a[3]) THEN t.r[1] ELSE CHOOSE i \in Closest(s, a[1], a[2], a[3]) : TRUE)
    [] op.n = "seal" -> [s EXCEPT !.m[a[1]].im = 1]
    [] op.n = "put" -> [s EXCEPT !.g[a[1]].c = @ \cup {<<a[2], a[3], a[4], a[5]>>}]
    [] op.n = "move" -> [s EXCEPT !.fr[a[1]].x = TF(a, 2)]
    [] op.n = "get" -> IF Found(s, a[1], a[2], a[3], a[4]) = {} THEN s ELSE [s EXCEPT !.last = a]
    [] op.n = "clone" -> [s EXCEPT !.m[a[1]] = [s.m[a[2]] EXCEPT !.ch = {}]]
    [] op.n = "assign" -> IF a[1] = a[2] THEN s ELSE [s EXCEPT !.m[a[1]] = [s.m[a[2]] EXCEPT !.at = s.m[a[1]].at, !.ch = Elems(s.m[a[2]].gs)]]
    [] op.n = "deep" -> LET m == s.m[a[2]]  i == NG(s) + 1
                            gs == [j \in 1..Len(m.gs) |-> IF m.gs[j] = m.act THEN i ELSE m.gs[j]]
                        IN [s EXCEPT !.g = Append(s.g, s.g[m.act]), !.m[a[1]] = [m EXCEPT !.gs = gs, !.act = i, !.ch = Elems(gs)]]
    [] OTHER -> s
CModel(s, op) == [r |-> <<>>]
ExtOf(g) == IF g.c = {} THEN <<Off, Off, Off + g.sc, Off + g.sc>>
            ELSE <<Off + g.sc * MinOf({p[1] : p \in g.c}), Off + g.sc * MinOf({p[2] : p \in g.c}),
                   Off + g.sc * (1 + MaxOf({p[1] : p \in g.c})), Off + g.sc * (1 + MaxOf({p[2] : p \in g.c}))>>
ExtIn(s, k, i, j) == ExtOf(s.g[i])[j] + Rel(s, s.g[i].f, s.m[k].at).t[IF j \in {1, 3} THEN 1 ELSE 2]
MapExt(s, k) == [j \in 1..4 |-> IF j <= 2 THEN MinOf({ExtIn(s, k, i, j) : i \in s.m[k].ch}) ELSE MaxOf({ExtIn(s, k, i, j) : i \in s.m[k].ch})]
Flat(x) == <<x.m[1][1], x.m[1][2], x.m[2][1], x.m[2][2], x.t[1], x.t[2], x.t[3]>>
CCheck(s, op, u, t) ==
  LET a == op.a  n == op.n IN
  /\ Check("all", "result", t.x = "ok", <<op, s>>)
  /\ n = "get" => LET F == Found(s, a[1], a[2], a[3], a[4]) IN
       Check("all", "patch found in the map", IF F = {} THEN t.r = <<0>> ELSE t.r[1] = 1 /\ <<t.r[2], t.r[3]>> \in F, <<op, t.r, F, s>>)
  /\ n = "ext" => Check("all", "extents of the map", t.r = MapExt(s, a[1]), <<op, t.r, MapExt(s, a[1]), s>>)
  /\ n = "deep" => Check("all", "the copy of the active grid is a new one", t.r = <<1>>, <<op, t.r>>)
  /\ \A k \in {1, 2} : LET m == u.m[k]  o == t.o[k] IN
       /\ Check("all", "grids of the map", o[1] = m.gs, <<op, k, o, m>>)
       /\ Check("all", "active grid", o[2] = m.act, <<op, k, o, m>>)
       /\ Check("all", "a copy is immutable like its original", o[4] = m.im, <<op, k, o, m>>)
       /\ Check("all", "children of the map", Elems(o[3]) = m.ch /\ Len(o[3]) = Cardinality(m.ch), <<op, k, o, m>>)
  /\ Check("all", "number of grids", Len(t.o[3]) = Len(u.g), <<op, t.o[3], u>>)
  /\ \A i \in 1..Len(u.g) : LET o == t.o[3][i] IN
       /\ Check("all", "pose of the grid", o[1] = Flat(Up(u, u.g[i].f)), <<op, i, o, u>>)
       /\ Check("all", "frame of the grid", o[2] = Flat(u.fr[u.g[i].f].x), <<op, i, o, u>>)
       /\ Check("all", "scale of the grid", o[3] = u.g[i].sc, <<op, i, o, u>>)
       /\ Check("all", "patches of the grid", Elems(o[4]) = u.g[i].c /\ Len(o[4]) = Cardinality(u.g[i].c), <<op, i, o, u>>)

NextId(s) == 1 + MaxOf({0} \cup UNION {{p[4] : p \in s.g[i].c} : i \in 1..NG(s)})
COps(s) ==
  UNION {
    IF "one" \in EOps THEN IF NG(s) = 0 THEN {Op("grid", <<3, 8>>)} ELSE IF s.m[1].gs = <<>> THEN {Op("add", <<1, 1>>)} ELSE IF s.g[1].c = {} THEN {Op("put", <<1, 1, 1, 0, 1>>)} ELSE {} ELSE {},
    IF "move1" \in EOps THEN {Op("move", <<f, 0, 8, 0, 0>>) : f \in {1, 3}} ELSE {},
    IF "map" \in EOps THEN {Op("map", <<2, f>>) : f \in {1, 3}} ELSE {},
    IF "grid" \in EOps THEN {Op("grid", <<f, 8>>) : f \in {1, 3}} ELSE {},
    IF "add" \in EOps THEN {Op("add", <<k, i>>) : k \in {1, 2}, i \in 1..NG(s)} ELSE {},
    IF "create" \in EOps THEN {Op("create", <<1, r, al, 1, 9, -3, 1>>) : r \in {0, 1}, al \in {0, 1}} ELSE {},
    IF "select" \in EOps THEN {Op("select", <<1, 2, th, al>>) : th \in {0, 9}, al \in {0, 1}} ELSE {},
    IF "put" \in EOps THEN {Op("put", <<i, 1, 1, 0, NextId(s)>>) : i \in 1..NG(s)} ELSE {},
    IF "move" \in EOps THEN {Op("move", <<f, q, 8, 0, 1>>) : f \in {1, 3}, q \in {0, 1}} ELSE {},
    IF "get" \in EOps THEN {Op("get", <<1, x, 1, l>>) : x \in {1, 9}, l \in {0, 1}} ELSE {},
    IF "copy" \in EOps THEN {Op(n, <<2, 1>>) : n \in {"clone", "assign", "deep"}} \cup {Op("seal", <<1>>)} ELSE {}
  }
CRand(s) ==
  LET n == RS(Names)
      k == RS(<<1, 1, 2>>)
      f == R(1..Len(s.fr))
      i == R(1..Max2(1, NG(s)))
      q == RS(<<0, 0, 0, 1, 2, 3>>)
      tr == <<q, R({0, 8, -8, R(-20..20)}), R({0, 8, -16, R(-20..20)}), RS(<<0, 0, 1, -1>>)>>
      \* aim at a patch of a grid of the map
      T == {<<j, p>> \in UNION {{<<j, p>> : p \in s.g[j].c} : j \in Elems(s.m[k].gs)} : TRUE}
      hit == R(T)
      x == Rel(s, s.g[hit[1]].f, s.m[k].at)
      c == s.g[hit[1]].sc
      w == RPt(x, <<Off + c * hit[2][1] + R(1..(c - 1)), Off + c * hit[2][2] + R(1..(c - 1)), 0>>)
  IN CASE n = "map" -> Op(n, <<R({1, 2}), f>>)
       [] n = "grid" -> Op(n, <<f, RS(<<8, 8, 4>>)>>)
       [] n = "add" -> Op(n, <<k, i>>)
       [] n = "create" -> Op(n, <<k, R({0, 1}), R({0, 1})>> \o tr)
       [] n = "select" -> Op(n, <<k, R({2, f}), R({0, 5, 20, 40}), R({0, 1})>>)
       [] n = "put" -> Op(n, <<IF s.m[k].gs = <<>> THEN i ELSE R(Elems(s.m[k].gs)), R(0..2), R(0..2), RS(<<0, 0, 1, 2, -1>>), NextId(s)>>)
       [] n = "move" -> Op(n, <<f>> \o tr)
       [] n = "get" -> IF s.m[k].at = 0 THEN Op("map", <<k, f>>) ELSE IF T = {} \/ R(1..4) = 1 THEN Op(n, <<k, R(-30..30), R(-30..30), R(-2..2), R({0, 5})>>)
                       ELSE Op(n, <<k, w[1], w[2], hit[2][3] + x.t[3] + RS(<<0, 0, 0, 0, 1>>), R({0, 5})>>)
       [] n = "again" -> IF s.last = <<>> THEN Op("get", <<k, 1, 1, 0>>) ELSE Op("get", s.last)
       [] n = "seal" -> Op(n, <<k>>)
       [] n = "ext" -> Op(n, <<k>>)
       [] n = "straight" -> Op("move", <<f, 0, R(-20..20), R(-20..20), 0>>)
       [] OTHER -> Op(n, R({<<1, 2>>, <<2, 1>>}))
CInv(s) == \A k \in {1, 2} : s.m[k].act # 0 => InMap(s, k, s.m[k].act)
=============================================================================
