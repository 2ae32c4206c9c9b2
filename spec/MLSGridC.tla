------------------------------ MODULE MLSGridC -----------------------------
(* MLSGrid: a grid whose cells are lists of surface patches.  A patch covers   *)
(* the heights b..t (in levels, far apart compared with the uncertainties);    *)
(* a horizontal one has b = t.  Two grids.                                     *)
(* g[k] = [w, h, sc, ox, oy, c, gap, ix, si, se]: c maps cells to sequences of *)
(* patches [b, t, u, n] (n: number of measurements, 0 when the merging rules   *)
(* leave it open), ix: is an index kept, si / se: the cells which may appear   *)
(* in the index / in the extents (everything occupied since they were reset).  *)
(* Lengths are in tenths.                                                      *)
EXTENDS CompUtil
CONSTANTS Levels, Sizes, Scales, Offs, EOps

Cells(w, h) == {<<x, y>> : x \in 0..(w - 1), y \in 0..(h - 1)}
Fresh(w, h, sc, ox, oy) == [w |-> w, h |-> h, sc |-> sc, ox |-> ox, oy |-> oy, c |-> [p \in Cells(w, h) |-> <<>>],
                            gap |-> 0, ix |-> FALSE, si |-> {}, se |-> {}]
CInit == [k \in {1, 2} |-> Fresh(2, 2, 10, 0, 0)]
InGrid(g, x, y) == x >= 0 /\ y >= 0 /\ x < g.w /\ y < g.h
Occ(g) == {p \in Cells(g.w, g.h) : g.c[p] # <<>>}
RECURSIVE SumC(_, _)
SumC(g, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE q \in S : TRUE IN Len(g.c[p]) + SumC(g, S \ {p})
Count(g) == SumC(g, Occ(g))
Touch(g, S) == [g EXCEPT !.si = IF g.ix THEN @ \cup S ELSE @, !.se = @ \cup S]

\* ---- one cell
Ov(p, q, gap) == p.b - gap <= q.t /\ q.b - gap <= p.t
RECURSIVE Union(_, _, _)
Union(q, K, p) == IF K = {} THEN p
                  ELSE LET i == MinOf(K) IN
                       Union(q, K \ {i}, [b |-> Min2(p.b, q[i].b), t |-> Max2(p.t, q[i].t), u |-> Max2(p.u, q[i].u), n |-> 0])
\* a new measurement absorbs all it touches, or starts a patch of its own
UpdCell(q, o, gap) ==
  LET K == {i \in 1..Len(q) : Ov(q[i], o, gap)} IN
  IF K = {} THEN <<o>> \o q
  ELSE LET f == MinOf(K)
           m == [Union(q, K, o) EXCEPT !.n = IF Cardinality(K) = 1 /\ q[f].n # 0 /\ o.n # 0 THEN q[f].n + o.n ELSE 0]
           r[i \in 0..Len(q)] == IF i = 0 THEN <<>> ELSE r[i - 1] \o (IF i = f THEN <<m>> ELSE IF i \in K THEN <<>> ELSE <<q[i]>>)
       IN r[Len(q)]
Upd(g, p, o) == Touch([g EXCEPT !.c[p] = UpdCell(@, o, g.gap)], {p})

\* ---- coordinates
CellOf(g, x, y) == <<(x - g.ox) \div g.sc, (y - g.oy) \div g.sc>>
OnEdge(g, x, y) == (x - g.ox) % g.sc = 0 \/ (y - g.oy) % g.sc = 0
Turn(r, x, y) == CASE r = 0 -> <<x, y>> [] r = 1 -> <<-y, x>> [] r = 2 -> <<-x, -y>> [] r = 3 -> <<y, -x>>
\* the cell of g hit by the centre of cell p of o
Hit(g, o, p, r, tx, ty) == LET q == Turn(r, o.ox + p[1] * o.sc + o.sc \div 2, o.oy + p[2] * o.sc + o.sc \div 2)
                           IN <<q[1] + tx, q[2] + ty>>
HitCell(g, o, p, r, tx, ty) == LET q == Hit(g, o, p, r, tx, ty) IN CellOf(g, q[1], q[2])
Order(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE p \in T : \A q \in T : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2]) IN <<m>> \o F(T \ {m})
            IN F(S)
RECURSIVE MergeP(_, _, _, _, _, _)
MergeP(g, p, q, i, dz, u) == IF i > Len(q) THEN g
   ELSE MergeP(TLCEval(Upd(g, p, [b |-> q[i].b + dz, t |-> q[i].t + dz, u |-> u, n |-> q[i].n])), p, q, i + 1, dz, u)
RECURSIVE MergeG(_, _, _, _, _, _, _, _)
MergeG(g, o, L, r, tx, ty, dz, u) ==
  IF L = <<>> THEN g
  ELSE LET h == HitCell(g, o, L[1], r, tx, ty) IN
       MergeG(IF InGrid(g, h[1], h[2]) THEN MergeP(g, h, o.c[L[1]], 1, dz, u) ELSE g, o, Tail(L), r, tx, ty, dz, u)
\* does a cell of o find a counterpart
Matches(g, q, h, dz) == \E i \in 1..Len(q), j \in 1..Len(g.c[h]) : Ov(g.c[h][j], [b |-> q[i].b + dz, t |-> q[i].t + dz], 0)
\* how far apart two vertical patches are is not defined (SurfacePatch::distance is experimental)
MayMatch(g, q, h, dz) == Matches(g, q, h, dz) \/ \E i \in 1..Len(q), j \in 1..Len(g.c[h]) : q[i].b # q[i].t /\ g.c[h][j].b # g.c[h][j].t

Moved(g, dx, dy) == LET S(X) == {<<p[1] + dx, p[2] + dy>> : p \in X} \cap Cells(g.w, g.h) IN
  [g EXCEPT !.c = [p \in Cells(g.w, g.h) |-> IF <<p[1] - dx, p[2] - dy>> \in Cells(g.w, g.h) THEN g.c[<<p[1] - dx, p[2] - dy>>] ELSE <<>>],
            !.si = S(@), !.se = S(@)]

Patch(b, t, u) == [b |-> b, t |-> t, u |-> u, n |-> 1]
CLegal(s, op) ==
  LET a == op.a  g == s[a[1]] IN
  CASE op.n = "new" -> a[2] >= 1 /\ a[3] >= 1 /\ a[4] >= 1
    [] op.n \in {"ihead", "itail", "upd"} -> InGrid(g, a[2], a[3]) /\ a[4] <= a[5]
    [] op.n = "updp" -> ~OnEdge(g, a[2], a[3]) /\ a[4] <= a[5]
    [] op.n = "erase" -> InGrid(g, a[2], a[3]) /\ a[4] >= 1 /\ a[4] <= Len(g.c[<<a[2], a[3]>>])
    [] op.n \in {"move", "clear", "init", "gap", "shallow"} -> TRUE
    [] op.n \in {"assign", "copy"} -> TRUE
    [] op.n \in {"stream", "file"} -> TRUE
    [] op.n \in {"merge", "match"} ->
         /\ a[1] # a[2]
         /\ \A p \in Cells(s[a[2]].w, s[a[2]].h) : LET q == Hit(g, s[a[2]], p, a[3], a[4], a[5]) IN ~OnEdge(g, q[1], q[2])
    [] op.n = "get" -> InGrid(g, a[2], a[3])
    [] op.n = "getn" -> InGrid(g, a[2], a[3]) /\ a[5] <= a[6]
    [] op.n = "getp" -> ~OnEdge(g, a[2], a[3])
    [] op.n = "proj" -> \A i \in 1..((Len(a) - 3) \div 2) : InGrid(g, a[2 + 2 * i], a[3 + 2 * i])
    [] OTHER -> FALSE

Step(s, op) ==
  LET a == op.a  k == a[1]  g == s[k] IN
  CASE op.n = "new" -> [s EXCEPT ![k] = Fresh(a[2], a[3], a[4], a[5], a[6])]
    [] op.n = "ihead" -> [s EXCEPT ![k] = Touch([g EXCEPT !.c[<<a[2], a[3]>>] = <<Patch(a[4], a[5], a[6])>> \o @], {<<a[2], a[3]>>})]
    [] op.n = "itail" -> [s EXCEPT ![k] = Touch([g EXCEPT !.c[<<a[2], a[3]>>] = Append(@, Patch(a[4], a[5], a[6]))], {<<a[2], a[3]>>})]
    [] op.n = "upd" -> [s EXCEPT ![k] = Upd(g, <<a[2], a[3]>>, Patch(a[4], a[5], a[6]))]
    [] op.n = "updp" -> LET c == CellOf(g, a[2], a[3]) IN IF InGrid(g, c[1], c[2]) THEN [s EXCEPT ![k] = Upd(g, c, Patch(a[4], a[5], a[6]))] ELSE s
    [] op.n = "erase" -> [s EXCEPT ![k].c[<<a[2], a[3]>>] = DropAt(@, a[4])]
    [] op.n = "move" -> [s EXCEPT ![k] = Moved(g, a[2], a[3])]
    [] op.n = "clear" -> [s EXCEPT ![k].c = [p \in DOMAIN g.c |-> <<>>], ![k].si = {}, ![k].se = {}]
    [] op.n = "init" -> [s EXCEPT ![k].ix = TRUE, ![k].si = Occ(g)]
    [] op.n = "gap" -> [s EXCEPT ![k].gap = a[2]]
    [] op.n = "assign" -> [s EXCEPT ![k] = [s[a[2]] EXCEPT !.si = Occ(s[a[2]]) \cup @]]
    [] op.n = "copy" -> [s EXCEPT ![k] = [s[a[2]] EXCEPT !.si = Occ(s[a[2]]) \cup @]]
    [] op.n = "shallow" -> LET o == s[a[2]] IN [s EXCEPT ![k] = [Fresh(o.w, o.h, o.sc, o.ox, o.oy) EXCEPT !.gap = o.gap]]
    \* the content written to a stream and read into a new grid
    [] op.n \in {"stream", "file"} -> LET o == s[a[2]] IN [s EXCEPT ![k] = [Fresh(o.w, o.h, o.sc, o.ox, o.oy) EXCEPT !.c = o.c, !.se = Occ(o)]]
    [] op.n = "merge" -> [s EXCEPT ![k] = MergeG(g, s[a[2]], Order(Occ(s[a[2]])), a[3], a[4], a[5], a[6] + a[7], a[8])]
    [] OTHER -> s

\* ---- observation: <<w, h, count, empty, has index, index cells, extents, cells>>
PObs(p) == <<p.b, p.t, p.u, p.n, 1>>
Box(S) == IF S = {} THEN <<0, 0, 0, 0>> ELSE <<MinOf({p[1] : p \in S}), MinOf({p[2] : p \in S}), MaxOf({p[1] : p \in S}), MaxOf({p[2] : p \in S})>>
Obs(g) == <<g.w, g.h, Count(g), IF Count(g) = 0 THEN 1 ELSE 0, IF g.ix THEN 1 ELSE 0, IF g.ix THEN Order(Occ(g)) ELSE <<>>, Box(Occ(g)),
            [x \in 1..g.w |-> [y \in 1..g.h |-> [i \in 1..Len(g.c[<<x - 1, y - 1>>]) |-> PObs(g.c[<<x - 1, y - 1>>][i])]]]>>
\* where merging leaves the order within a cell and the count open, the state takes what was seen
Seen(o, p) == IF p[1] < Len(o[8]) /\ p[2] < Len(o[8][p[1] + 1]) THEN o[8][p[1] + 1][p[2] + 1] ELSE <<>>
Adopt(g, o) == [g EXCEPT !.ix = (o[5] = 1),
                  !.c = [p \in DOMAIN g.c |->
                     LET q == g.c[p]  v == Seen(o, p) IN
                     IF SameBagSeq([i \in 1..Len(q) |-> <<q[i].b, q[i].t, q[i].u>>], [i \in 1..Len(v) |-> <<v[i][1], v[i][2], v[i][3]>>])
                     THEN [i \in 1..Len(v) |-> [b |-> v[i][1], t |-> v[i][2], u |-> v[i][3], n |-> v[i][4]]]
                     ELSE q]]
Loose == {"upd", "updp", "merge", "assign", "copy"}
CNext(s, op, t) == IF op.n \in Loose /\ t.o # <<>> THEN LET u == TLCEval(Step(s, op)) IN [u EXCEPT ![op.a[1]] = Adopt(@, t.o[op.a[1]])] ELSE Step(s, op)
CModel(s, op) == LET u == TLCEval(Step(s, op)) IN [r |-> <<>>, o |-> [k \in {1, 2} |-> Obs(u[k])]]

\* ---- queries
Found(q, z) == {i \in 1..Len(q) : q[i].b <= z /\ z <= q[i].t}
\* r: <<found, b, t, u>> of the patch returned
GetOk(q, z, r) == IF Found(q, z) = {} THEN r[1] = 0 ELSE r[1] = 1 /\ \E i \in Found(q, z) : <<q[i].b, q[i].t, q[i].u>> = <<r[2], r[3], r[4]>>
RECURSIVE ProjOk(_, _, _, _, _)
\* heights in hundredths of a level: the closest surface (upper bound, at most two standard deviations above) or the previous height
ProjOk(g, a, r, i, last) ==
  IF i > (Len(a) - 3) \div 2 THEN TRUE
  ELSE LET q == g.c[<<a[2 + 2 * i], a[3 + 2 * i]>>]
           z == r[3 * i] - a[3]
           D == {Abs(last - 100 * q[j].t) : j \in 1..Len(q)}
       IN /\ r[3 * i - 2] = a[2 + 2 * i] /\ r[3 * i - 1] = a[3 + 2 * i]
          /\ IF q = <<>> THEN Near(z, last, 1)
             ELSE \E j \in 1..Len(q) : z >= 100 * q[j].t - 1 /\ z <= 100 * q[j].t + 3 /\ Abs(last - 100 * q[j].t) <= MinOf(D) + 8
          /\ ProjOk(g, a, r, i + 1, z)

SameCell(q, v) == LET o == [i \in 1..Len(q) |-> q[i]] IN
  /\ Len(v) = Len(q)
  /\ \A i \in 1..Len(q) : v[i][1] = q[i].b /\ v[i][2] = q[i].t /\ v[i][3] = q[i].u /\ (q[i].n = 0 \/ v[i][4] = q[i].n) /\ v[i][5] = 1
Known(q) == \A i \in 1..Len(q) : q[i].n # 0
SameAny(q, v) == IF Known(q) THEN SameBagSeq([i \in 1..Len(q) |-> PObs(q[i])], v)
                 ELSE /\ SameBagSeq([i \in 1..Len(q) |-> <<q[i].b, q[i].t, q[i].u, 1>>], [i \in 1..Len(v) |-> <<v[i][1], v[i][2], v[i][3], v[i][5]>>])
                      /\ \A i \in 1..Len(v) : v[i][4] >= 1
GridOk(op, k, m, v) ==
  /\ Check("store", "size", v[1] = m.w /\ v[2] = m.h, <<op, k, v>>)
  /\ \A p \in DOMAIN m.c : Check("store", "patches of a cell",
         IF op.n \in Loose /\ op.a[1] = k THEN SameAny(m.c[p], Seen(v, p)) ELSE SameCell(m.c[p], Seen(v, p)), <<op, k, p, m.c[p], Seen(v, p)>>)
  /\ Check("store", "number of patches", v[3] = Count(m) /\ v[4] = (IF Count(m) = 0 THEN 1 ELSE 0), <<op, k, v[3], Count(m)>>)
  /\ Check("index", "index kept or not", op.n \in {"assign", "copy"} \/ v[5] = (IF m.ix THEN 1 ELSE 0), <<op, k, v[5], m.ix>>)
  /\ LET I == {v[6][i] : i \in 1..Len(v[6])} IN
     v[5] = 1 => Check("index", "the index has the occupied cells", Occ(m) \subseteq I /\ I \subseteq (Occ(m) \cup m.si), <<op, k, v[6], Occ(m)>>)
  /\ LET b == Box(Occ(m))  c == Box(Occ(m) \cup m.se)  e == v[7] IN
     Check("index", "the extents cover the occupied cells",
           IF Occ(m) = {} THEN e = <<0, 0, 0, 0>> \/ (m.se # {} /\ e[1] >= c[1] /\ e[2] >= c[2] /\ e[3] <= c[3] /\ e[4] <= c[4])
           ELSE e[1] <= b[1] /\ e[2] <= b[2] /\ e[3] >= b[3] /\ e[4] >= b[4] /\ e[1] >= c[1] /\ e[2] >= c[2] /\ e[3] <= c[3] /\ e[4] <= c[4],
           <<op, k, e, b, c>>)

CCheck(s, op, u, t) ==
  LET a == op.a  g == s[a[1]]  m == TLCEval(Step(s, op)) IN
  /\ Check("store", "result", t.x = "ok" \/ (op.n = "match" /\ ~s[a[2]].ix), <<op, t.x>>)
  /\ op.n = "updp" => LET c == CellOf(g, a[2], a[3]) IN
       Check("store", "update reports whether the position is in the grid", t.r = (IF InGrid(g, c[1], c[2]) THEN <<1>> ELSE <<0>>), <<op, t.r>>)
  /\ op.n = "erase" => LET q == g.c[<<a[2], a[3]>>] IN
       Check("store", "erase returns the next patch", t.r = (IF a[4] < Len(q) THEN <<q[a[4] + 1].b, q[a[4] + 1].t>> ELSE <<>>), <<op, q, t.r>>)
  \* with everything a patch and the configuration hold
  /\ op.n = "file" => Check("store", "stored and restored", t.r = <<1, 1>>, <<op, t.r>>)
  /\ op.n = "get" => Check("get", "patch found in a cell", GetOk(g.c[<<a[2], a[3]>>], a[4], t.r), <<op, g.c[<<a[2], a[3]>>], t.r>>)
  /\ op.n = "getp" => LET c == CellOf(g, a[2], a[3])  q == IF InGrid(g, c[1], c[2]) THEN g.c[c] ELSE <<>> IN
       /\ Check("get", "patch found at a position", GetOk(q, a[4], t.r), <<op, q, t.r>>)
       /\ t.r[1] = 1 => Check("get", "height of the patch found", t.r[5] = 100 * t.r[3], <<op, t.r>>)
  \* free space is no surface, unless it is asked for
  /\ op.n = "getn" => LET q == g.c[<<a[2], a[3]>>] IN
       Check("get", "patch found beside free space", GetOk(IF a[8] \in {1, 2} THEN q ELSE Append(q, [b |-> a[5], t |-> a[6], u |-> 77]), a[4], t.r), <<op, q, t.r>>)
  /\ op.n = "proj" => Check("get", "points on the surface", ProjOk(g, a, t.r, 1, a[2]), <<op, t.r, g.c>>)
  /\ (op.n = "match" /\ t.x = "ok") =>
       LET o == s[a[2]]
           H == {p \in Occ(o) : LET h == HitCell(g, o, p, a[3], a[4], a[5]) IN InGrid(g, h[1], h[2])}
           M == {p \in H : Matches(g, o.c[p], HitCell(g, o, p, a[3], a[4], a[5]), a[6] + a[7])}
           n == Cardinality(H)  c == Cardinality(M)
           d == Cardinality({p \in H : MayMatch(g, o.c[p], HitCell(g, o, p, a[3], a[4], a[5]), a[6] + a[7])})
       IN IF a[8] = 1 THEN Check("match", "ratio of the cells that match", IF n = 0 THEN t.r[1] = 1000 ELSE n * t.r[1] >= 1000 * c - n /\ n * t.r[1] <= 1000 * d + n, <<op, t.r, n, c, d>>)
          ELSE Check("match", "ratio of the cells that match, sampled", /\ t.r[1] >= 0 /\ t.r[1] <= 1000 /\ (c = n => t.r[1] = 1000) /\ (d = 0 => t.r[1] \in {0, 1000}), <<op, t.r, n, c>>)
  /\ \A k \in {1, 2} : GridOk(op, k, m[k], t.o[k])

COps(s) ==
  UNION {
    IF "ins" \in EOps THEN {Op(n, <<1, x, 0, b, b + d, 1>>) : n \in {"ihead", "itail"}, x \in {0, 1}, b \in Levels, d \in {0, 1}} ELSE {},
    IF "upd" \in EOps THEN {Op("upd", <<1, 1, y, b, b + d, 2>>) : y \in {0, 1}, b \in Levels, d \in {0, 2}} ELSE {},
    IF "erase" \in EOps THEN {Op("erase", <<1, x, 0, i>>) : x \in {0, 1}, i \in {1, 2}} ELSE {},
    IF "move" \in EOps THEN {Op("move", <<1, d[1], d[2]>>) : d \in {<<1, 0>>, <<0, -1>>, <<-1, 1>>, <<2, 0>>}} ELSE {},
    IF "misc" \in EOps THEN {Op("init", <<1>>), Op("clear", <<1>>), Op("gap", <<1, 1>>)} ELSE {},
    IF "copy" \in EOps THEN {Op(n, <<2, 1>>) : n \in {"assign", "copy", "shallow", "stream"}} \cup {Op("init", <<2>>), Op("file", <<2, 1, 3>>)} ELSE {},
    IF "get" \in EOps THEN {Op("get", <<1, x, 0, z>>) : x \in {0, 1}, z \in Levels} \cup {Op("getn", <<1, 0, 0, z, 2, 3, f, w>>) : z \in {1, 3}, f \in {0, 1}, w \in {0, 1}} \cup {Op("getp", <<1, 13, y, 1>>) : y \in {-2, 4, 14, 23}} ELSE {},
    IF "merge" \in EOps THEN {Op(n, <<2, 1, r, d[1], d[2], dz, 0, 1>>) : n \in {"merge", "match"}, r \in {0, 1}, d \in {<<2, 3>>, <<17, -4>>}, dz \in {0, 1}} ELSE {}
  }
Lv == R(Levels)
CRand(s) ==
  LET n == Pick(<<<<"new", 2>>, <<"ihead", 8>>, <<"itail", 8>>, <<"upd", 16>>, <<"updp", 8>>, <<"erase", 8>>, <<"move", 6>>, <<"clear", 1>>, <<"init", 4>>, <<"gap", 3>>,
                  <<"assign", 3>>, <<"copy", 2>>, <<"shallow", 1>>, <<"stream", 2>>, <<"file", 2>>, <<"merge", 6>>, <<"match", 6>>, <<"get", 5>>, <<"getn", 5>>, <<"getp", 5>>, <<"proj", 3>>>>)
      k == R({1, 2})
      g == s[k]
      o == s[3 - k]
      x == R(0..(g.w - 1))
      y == R(0..(g.h - 1))
      b == R(Levels)
      t == b + RS(<<0, 0, 0, 1, 2, 3>>)
      u == R(0..3)
      px == g.ox + R(-g.sc..(g.w * g.sc + g.sc))
      py == g.oy + R(-g.sc..(g.h * g.sc + g.sc))
      sz == R(Sizes)  of == R(Offs)
      r == RS(<<0, 0, 0, 1, 2, 3>>)
      \* a translation that makes the grids overlap
      qx == R(0..(g.w * g.sc)) + g.ox
      qy == R(0..(g.h * g.sc)) + g.oy
      oc == Turn(r, o.ox + (o.w * o.sc) \div 2, o.oy + (o.h * o.sc) \div 2)
      tr == RS(<<<<0, 0>>, <<qx - oc[1], qy - oc[2]>>, <<qx - oc[1], qy - oc[2]>>>>)
  IN CASE n = "new" -> Op(n, <<k, sz[1], sz[2], R(Scales), of[1], of[2]>>)
       [] n \in {"ihead", "itail", "upd"} -> Op(n, <<k, x, y, b, t, u>>)
       [] n = "updp" -> Op(n, <<k, px, py, b, t, u>>)
       [] n = "erase" -> IF Occ(g) = {} THEN Op("upd", <<k, x, y, b, t, u>>) ELSE LET p == R(Occ(g)) IN Op(n, <<k, p[1], p[2], R(1..Len(g.c[p]))>>)
       [] n = "move" -> Op(n, <<k, R(-(g.w + 1)..(g.w + 1)), RS(<<-2, -1, 0, 0, 1, 2>>)>>)
       [] n \in {"clear", "init"} -> Op(n, <<k>>)
       [] n = "gap" -> Op(n, <<k, RS(<<0, 0, 1>>)>>)
       [] n = "file" -> Op(n, <<k, RS(<<3 - k, 3 - k, k>>), R(0..11)>>)
       [] n \in {"assign", "copy", "shallow", "stream"} -> Op(n, <<k, RS(<<3 - k, 3 - k, k>>)>>)
       [] n \in {"merge", "match"} -> Op(n, <<k, 3 - k, r, tr[1], tr[2], RS(<<0, 0, 0, 1, -2>>), RS(<<0, 0, 1, -1>>), IF n = "merge" THEN u ELSE RS(<<1, 1, 1, 2, 3>>)>>)
       [] n = "get" -> Op(n, <<k, x, y, R(Levels)>>)
       [] n = "getn" -> LET nb == R(Levels)  nt == R({l \in Levels : l >= nb})  nz == R({nb, nt, R(Levels)}) IN Op(n, <<k, x, y, nz, nb, nt, R({0, 1}), R(0..3)>>)
       [] n = "getp" -> Op(n, <<k, px, py, R(Levels)>>)
       [] OTHER -> Op("proj", <<k, 100 * R(Levels) + R({0, 33, 42, 60}), RS(<<0, 0, 250>>)>> \o
                      LET m == R(1..6)
                          F[i \in 0..m] == IF i = 0 THEN <<>> ELSE F[i - 1] \o <<R(0..(g.w - 1)), R(0..(g.h - 1))>> IN F[m])
CInv(s) == \A k \in {1, 2} : /\ DOMAIN s[k].c = Cells(s[k].w, s[k].h)
                             /\ Occ(s[k]) \subseteq s[k].se
                             /\ s[k].ix => Occ(s[k]) \subseteq s[k].si
=============================================================================
