----------------------------- MODULE MLSPatchC -----------------------------
(* Surface patches: fusing two patches under the update models, and the        *)
(* patch fitted to measurements on a slope.  Lengths are given in eighths and  *)
(* observed in thousandths of a metre; standard deviations are 1/sqrt(W).      *)
(* p = [ty, m, h, W, n, u, x, A, B, Z, ZZ, q, lo, hi, md, c]:                     *)
(*   ty 0 vertical, 1 horizontal, 2 negative; m top, h height (thousandths);   *)
(*   x: m and h exact; A, Z, ZZ, q: sums of w, w z, w z^2, w^2 (z in eighths); *)
(*   B: sum of w before scaling;                                               *)
(*   md 0 untouched, 1 fused with the Kalman model, 2 with the sum model;      *)
(*   c: one colour channel.                                                    *)
EXTENDS CompUtil
CONSTANTS Ms, Hs, Ws, Gaps, Ths, EOps

S == 1..3
Make(ty, m, h, w, u, c) == [ty |-> ty, m |-> m * 125, h |-> IF ty = 1 THEN 0 ELSE h * 125, W |-> w, n |-> 1, u |-> u, x |-> TRUE,
                            A |-> w, B |-> w, Z |-> w * m, ZZ |-> w * m * m, q |-> w * w, lo |-> m * 125, hi |-> m * 125, md |-> 0, sc |-> FALSE, c |-> c]
CInit == [k \in S |-> Make(1, 0, 0, 1, 0, 0)]

\* the possible truths of a < b, when both are known up to a rounding error
Less(a, b, tol) == IF a < b - tol THEN {TRUE} ELSE IF a >= b + tol THEN {FALSE} ELSE {TRUE, FALSE}
LessX(a, b, exact) == IF exact THEN {a < b} ELSE Less(a, b, 3)
Dev(W) == ISqrt(1000000 \div W)
DevSum(p, o) == ISqrt((1000000 \div p.W) + (1000000 \div o.W))
Bot(p) == p.m - p.h
Fuse(p, o) == [p EXCEPT !.n = @ + o.n]
Kalman(p, o) == [p EXCEPT !.m = (p.W * p.m + o.W * o.m) \div (p.W + o.W), !.W = p.W + o.W, !.x = FALSE]
\* a patch covering both
Cover(p, o, above) ==
  LET a == IF above THEN [p EXCEPT !.h = @ + (o.m - p.m), !.m = o.m, !.W = o.W] ELSE p
      b == IF Bot(o) < Bot(a) THEN [a EXCEPT !.h = a.m - Bot(o)] ELSE a
  IN [b EXCEPT !.x = p.x /\ o.x]
\* the older patch r gives way to the newer one n
Cut(r, n, under) == IF under THEN [r EXCEPT !.h = Min2(@, r.m - n.m), !.x = r.x /\ n.x]
                    ELSE IF Bot(n) < r.m THEN [r EXCEPT !.h = Max2(0, Bot(n) - Bot(r)), !.m = Bot(n), !.x = r.x /\ n.x] ELSE r
R3(b, p, o) == [b |-> b, p |-> p, o |-> o]
\* all outcomes the Kalman model allows for fusing o into p
Outcomes(p, o, th, gap) ==
  LET dd == DevSum(p, o)
      ex == p.x /\ o.x
      close == {a /\ b : a \in Less(Bot(p) - gap - dd, o.m, 4), b \in Less(Bot(o), p.m + gap + dd, 4)}
      thin == {a /\ b : a \in Less(Bot(p) - th - dd, o.m, 4), b \in Less(o.m, p.m + th + dd, 4)}
      vert(x) == IF x.ty = 1 THEN [x EXCEPT !.ty = 0] ELSE x
      up == LessX(p.m, o.m, ex)
      far == IF FALSE \in close THEN {R3(FALSE, p, o)} ELSE {}
      near ==
        IF p.ty = 1 /\ o.ty = 1
        THEN (IF TRUE \in thin THEN {R3(TRUE, Fuse(Kalman(p, o), o), o)} ELSE {})
             \cup (IF FALSE \in thin THEN {R3(TRUE, Fuse(Cover(vert(p), o, a), o), o) : a \in up} ELSE {})
        ELSE IF (p.ty = 2) = (o.ty = 2)
        THEN {R3(TRUE, Fuse(Cover(vert(p), o, a), o), o) : a \in up}
        ELSE IF p.u = o.u THEN {R3(FALSE, p, o)}
        ELSE LET pOld == p.u < o.u
                 r == IF pOld THEN p ELSE o
                 w == IF pOld THEN o ELSE p
                 enc == {a /\ b : a \in {~v : v \in LessX(w.m, r.m, ex)}, b \in {~v : v \in LessX(Bot(r), Bot(w), ex)}}
                 un == LessX(w.m, r.m, ex)
             IN (IF TRUE \in enc THEN {R3(TRUE, w, o)} ELSE {})
                \cup (IF FALSE \in enc THEN {R3(FALSE, IF pOld THEN Cut(r, w, v) ELSE p, IF pOld THEN o ELSE Cut(r, w, v)) : v \in un} ELSE {})
      stamp(y) == IF y.b THEN [y EXCEPT !.p.u = Max2(p.u, o.u), !.p.c = (y.p.c + o.c) \div 2, !.p.md = 1] ELSE [y EXCEPT !.p.md = 1, !.o.md = 1]
  IN {stamp(y) : y \in far \cup (IF TRUE \in close THEN near ELSE {})}

\* the sum model: weighted mean of all measurements
Overlap(a1, a2, b1, b2) == a1 < b2 /\ b1 < a2
SumOut(p, o, gap) ==
  IF ~Overlap(p.lo - gap, p.hi + gap, o.lo, o.hi) THEN R3(FALSE, p, o)
  ELSE LET A == p.A + o.A  Z == p.Z + o.Z IN
       R3(TRUE, [p EXCEPT !.A = A, !.B = @ + o.B, !.Z = Z, !.ZZ = @ + o.ZZ, !.q = @ + o.q, !.n = @ + o.n, !.lo = Min2(@, o.lo), !.hi = Max2(@, o.hi),
                          !.m = (125 * Z) \div A, !.x = FALSE, !.md = 2, !.sc = p.sc \/ o.sc, !.u = Max2(@, o.u), !.c = (p.c + o.c) \div 2], o)
\* variance in thousandths
SumVarA(p, A) == Max2(0, ((p.ZZ * p.A - p.Z * p.Z) * 125) \div (8 * (p.A * p.A - p.q)) - (1000 * p.n) \div A)
SumVar(p) == SumVarA(p, p.A)

\* ---- measurements on a surface: <<x, y, z>> in eighths
Trip(a, i0, i) == <<a[i0 + 3 * i - 2], a[i0 + 3 * i - 1], a[i0 + 3 * i]>>
NTrip(a, i0) == (Len(a) - i0) \div 3
RECURSIVE Sum2(_, _)
Sum2(F, n) == IF n = 0 THEN 0 ELSE F[n] + Sum2(F, n - 1)
\* spread of the positions: n^2 times the determinant of their covariance
Spread(P) == LET n == Len(P)
                 sx == Sum2([i \in 1..n |-> P[i][1]], n)  sy == Sum2([i \in 1..n |-> P[i][2]], n)
                 xx == n * Sum2([i \in 1..n |-> P[i][1] * P[i][1]], n) - sx * sx
                 yy == n * Sum2([i \in 1..n |-> P[i][2] * P[i][2]], n) - sy * sy
                 xy == n * Sum2([i \in 1..n |-> P[i][1] * P[i][2]], n) - sx * sy
                 \* scaled down to stay within the integers
             IN (xx \div 4) * (yy \div 4) - (xy \div 4) * (xy \div 4)
Spreads(P) == Len(P) >= 4 /\ Spread(P) >= 16 * Len(P) * Len(P) * Len(P)

CLegal(s, op) ==
  LET a == op.a IN
  CASE op.n = "mk" -> a[2] \in 0..2 /\ a[4] >= 0
    [] op.n = "kal" -> a[1] # a[2] /\ s[a[1]].md # 2 /\ s[a[2]].md # 2 /\ s[a[1]].W + s[a[2]].W <= 400 /\ s[a[1]].n + s[a[2]].n <= 100
    [] op.n = "sum" -> /\ a[1] # a[2] /\ s[a[1]].md # 1 /\ s[a[2]].md # 1 /\ s[a[1]].ty = 1 /\ s[a[2]].ty = 1
                       /\ s[a[1]].A + s[a[2]].A <= 64
    [] op.n = "scale" -> s[a[1]].A * a[2] <= 64
    [] op.n = "dist" -> TRUE
    [] op.n = "z" -> TRUE
    [] op.n = "slope" -> LET P == [i \in 1..NTrip(a, 1) |-> Trip(a, 1, i)] IN Len(P) <= 8 /\ Spreads(P)
    [] op.n = "surf" -> \A i \in 1..((Len(a) - 4) \div 2) : a[3 + 2 * i] \in 0..15 /\ a[4 + 2 * i] \in 0..15
    [] OTHER -> FALSE

\* ---- observation of a patch: <<type, m, h, stdev, n, u, min, max, weight, colour>>
PObs(p) == <<p.ty, p.m, p.h, IF p.md = 2 THEN ISqrt(1000 * SumVar(p)) ELSE Dev(p.W), p.n, p.u, p.lo, p.hi, p.A, p.c>>
Sees(p, v) ==
  /\ v[1] = p.ty
  /\ IF p.x THEN v[2] = p.m /\ v[3] = p.h ELSE Near(v[2], p.m, 2) /\ Near(v[3], p.h, 3)
  /\ IF p.md = 2 THEN LET q == (v[4] * v[4]) \div 1000  hi == SumVar(p)  tol == 6 + hi \div 50 IN
          \* scaled weights may or may not count for the uncertainty of the measurements
          IF p.sc THEN q >= SumVarA(p, p.B) - tol /\ q <= hi + tol ELSE Near(q, hi, tol) ELSE Near(v[4], Dev(p.W), 2)
  /\ v[5] = p.n /\ v[6] = p.u
  /\ v[7] = p.lo /\ v[8] = p.hi /\ v[9] = p.A
  /\ Near(v[10], p.c, 2)
Result(s, a, y) == [s EXCEPT ![a[1]] = y.p, ![a[2]] = y.o]
Candidates(s, op) ==
  LET a == op.a IN
  CASE op.n = "kal" -> {[b |-> y.b, s |-> Result(s, a, y)] : y \in Outcomes(s[a[1]], s[a[2]], a[3] * 125, a[4] * 125)}
    [] op.n = "sum" -> LET y == SumOut(s[a[1]], s[a[2]], a[3] * 125) IN {[b |-> y.b, s |-> Result(s, a, y)]}
    [] op.n = "mk" -> {[b |-> FALSE, s |-> [s EXCEPT ![a[1]] = Make(a[2], a[3], a[4], a[5], a[6], a[7])]]}
    [] op.n = "scale" -> {[b |-> FALSE, s |-> [s EXCEPT ![a[1]] = [@ EXCEPT !.A = @ * a[2], !.Z = @ * a[2], !.ZZ = @ * a[2], !.q = @ * a[2] * a[2], !.sc = TRUE]]]}
    [] OTHER -> {[b |-> FALSE, s |-> s]}
Fits(op, y, t) == /\ (op.n \in {"kal", "sum"} => t.r = (IF y.b THEN <<1>> ELSE <<0>>))
                  /\ \A k \in S : Sees(y.s[k], t.o[k])
\* the state follows the values seen, so that rounding does not add up
Follow(p, v) == IF p.x THEN [p EXCEPT !.c = v[10]] ELSE [p EXCEPT !.m = v[2], !.h = v[3], !.c = v[10]]
CNext(s, op, t) == LET Y == TLCEval(Candidates(s, op))
                       G == {y \in Y : Fits(op, y, t)}
                   IN IF G = {} THEN (CHOOSE y \in Y : TRUE).s ELSE LET y == CHOOSE g \in G : TRUE IN [k \in S |-> Follow(y.s[k], t.o[k])]
CModel(s, op) == LET y == CHOOSE y \in Candidates(s, op) : TRUE IN [r |-> IF y.b THEN <<1>> ELSE <<0>>, o |-> [k \in S |-> PObs(y.s[k])]]

Distance(p, o) == IF p.ty = 1 /\ o.ty = 1 THEN Abs(p.m - o.m)
                  ELSE LET v == IF p.ty # 1 THEN p ELSE o  h == IF p.ty # 1 THEN o ELSE p IN
                       IF h.m > v.m THEN h.m - v.m ELSE Max2(0, Bot(v) - h.m)
\* residuals of a fitted plane, in thousandths
Res(P, co) == [i \in 1..Len(P) |-> P[i][3] * 125 - co[1] - ((co[2] - co[1]) * P[i][1] + (co[3] - co[1]) * P[i][2]) \div 8]
SurfCell(a, i) == <<(a[3 + 2 * i]) \div 8, (a[4 + 2 * i]) \div 8>>
Height(a, i) == (a[2] * a[3 + 2 * i] + a[3] * a[4 + 2 * i]) * 125 + a[4] * 125
CCheck(s, op, u, t) ==
  LET a == op.a IN
  /\ Check("all", "result", t.x = "ok", op)
  /\ op.n \in {"kal", "sum", "mk", "scale"} =>
       Check("all", "fused patches", \E y \in Candidates(s, op) : Fits(op, y, t), <<op, s, Candidates(s, op), t.r, t.o>>)
  /\ op.n \in {"dist", "z", "slope", "surf"} => Check("all", "patches unchanged", \A k \in S : Sees(s[k], t.o[k]), <<op, s, t.o>>)
  /\ op.n = "dist" =>
       LET p == s[a[1]]  o == s[a[2]] IN
       /\ Check("all", "distance of patches", (p.ty # 1 /\ o.ty # 1) \/ Near(t.r[1], Distance(p, o), 3), <<op, p, o, t.r>>)
       /\ Check("all", "order of patches", IF p.x /\ o.x THEN t.r[2] = (IF p.m < o.m THEN 1 ELSE 0) ELSE (IF t.r[2] = 1 THEN TRUE ELSE FALSE) \in Less(p.m, o.m, 3), <<op, p, o, t.r>>)
  /\ op.n = "z" =>
       LET v == t.o[a[1]] IN
       Check("all", "extent of a patch", Near(t.r[1], v[2] - v[3] - a[2] * v[4], 3 + a[2]) /\ Near(t.r[2], v[2] + a[2] * v[4], 3 + a[2]), <<op, v, t.r>>)
  /\ op.n = "slope" =>
       LET P == [i \in 1..NTrip(a, 1) |-> Trip(a, 1, i)]
           n == Len(P)  w == a[1]
           co == <<t.r[1], t.r[2], t.r[3]>>
           e == TLCEval(Res(P, co))
           sq == Sum2([i \in 1..n |-> e[i] * e[i]], n)
       IN /\ Check("all", "measurements counted", t.r[5] = n /\ t.r[6] = n * w, <<op, t.r>>)
          /\ Check("all", "range of the measurements", t.r[7] = 125 * MinOf({P[i][3] : i \in 1..n}) /\ t.r[8] = 125 * MaxOf({P[i][3] : i \in 1..n}), <<op, t.r>>)
          /\ Check("all", "best fitting plane", /\ Abs(Sum2(e, n)) <= 12 * n
                                                /\ Abs(Sum2([i \in 1..n |-> e[i] * P[i][1]], n)) <= 80 * n
                                                /\ Abs(Sum2([i \in 1..n |-> e[i] * P[i][2]], n)) <= 80 * n, <<op, t.r, e>>)
          /\ Check("all", "height of a slope", Near(t.r[4], co[1], 2), <<op, t.r>>)
          /\ Check("all", "deviation from the plane", Near(((t.r[9] * t.r[9]) \div 100) * (n - 3), sq \div 100, 20 + sq \div 2000), <<op, t.r, sq>>)
          \* the normal is orthogonal to the plane and has length one
          /\ LET nx == t.r[10]  ny == t.r[11]  nz == t.r[12]  ax == co[2] - co[1]  ay == co[3] - co[1] IN
             Check("all", "normal of a slope", /\ nz > 0
                                               /\ Near(nx * 1000, -ax * nz, 4000 + 3 * Abs(ax)) /\ Near(ny * 1000, -ay * nz, 4000 + 3 * Abs(ay))
                                               /\ Near(nx * nx + ny * ny + nz * nz, 1000000, 6000), <<op, t.r>>)
  /\ op.n = "surf" =>
       \A i \in 1..((Len(a) - 4) \div 2) :
         LET n == (Len(a) - 4) \div 2
             I == {j \in 1..n : SurfCell(a, j) = SurfCell(a, i)}
             Q == LET F[j \in 0..n] == IF j = 0 THEN <<>> ELSE IF j \in I THEN Append(F[j - 1], <<a[3 + 2 * j], a[4 + 2 * j], Height(a, j)>>) ELSE F[j - 1] IN F[n]
             mean == Sum2([j \in 1..Len(Q) |-> Q[j][3]], Len(Q))
         IN Check("all", "height of a surface of measurements",
                  IF a[1] = 2 THEN Spreads(Q) => Near(t.r[i], Height(a, i), 15) ELSE Near(t.r[i] * Len(Q), mean, 4 * Len(Q)), <<op, i, t.r, Q>>)

COps(s) ==
  UNION {
    IF "mk" \in EOps THEN {Op("mk", <<k, ty, m, h, w, u, c>>) : k \in {1, 2}, ty \in 0..2, m \in Ms, h \in Hs, w \in Ws, u \in {0, 1}, c \in {0}} ELSE {},
    IF "kal" \in EOps THEN {Op("kal", <<p[1], p[2], th, g>>) : p \in {<<1, 2>>, <<2, 1>>}, th \in Ths, g \in Gaps} ELSE {},
    IF "sum" \in EOps THEN {Op("sum", <<p[1], p[2], g>>) : p \in {<<1, 2>>, <<2, 1>>}, g \in Gaps} ELSE {},
    IF "dist" \in EOps THEN {Op("dist", <<1, 2>>)} ELSE {}
  }
Tri(m, lo, hi) == LET F[i \in 0..m] == IF i = 0 THEN <<>> ELSE F[i - 1] \o <<R(0..8), R(0..8), R(lo..hi)>> IN F[m]
CRand(s) ==
  LET n == Pick(<<<<"mk", 10>>, <<"kal", 12>>, <<"sum", 8>>, <<"scale", 2>>, <<"dist", 3>>, <<"z", 2>>, <<"slope", 4>>, <<"surf", 4>>>>)
      k == R(S)
      j == R(S \ {k})
      x == R(0..20)
      sl == <<1>> \o Tri(R(4..8), x, x + R({0, 3, 10}))
      su == LET m == R(1..12)
                b == <<R(0..1), R(0..1)>>
                F[i \in 0..m] == IF i = 0 THEN <<>> ELSE F[i - 1] \o <<RS(<<b[1] * 8 + R(0..7), b[1] * 8 + R(0..7), R(0..15)>>), RS(<<b[2] * 8 + R(0..7), b[2] * 8 + R(0..7), R(0..15)>>)>>
            IN <<RS(<<1, 2, 2>>), R(-2..2), R(-2..2), R(0..24)>> \o F[m]
  IN CASE n = "mk" -> IF R(0..1) = 1 /\ \E q \in S : s[q].md = 2 THEN Op(n, <<k, 1, R({s[q].m \div 125 : q \in S}), 0, R(Ws), R(0..3), R(0..255)>>) ELSE Op(n, <<k, R({0, 1, 2}), R(Ms), R(Hs), R(Ws), R(0..3), R(0..255)>>)
       [] n = "kal" -> Op(n, <<k, j, R(Ths), R(Gaps)>>)
       [] n = "sum" -> LET L == {q \in S \X S : q[1] # q[2] /\ CLegal(s, Op("sum", <<q[1], q[2], 0>>))}
                           W == {q \in L : s[q[2]].md = 2}
                       IN IF L = {} THEN Op("mk", <<k, 1, R(Ms), 0, R(Ws), R(0..3), R(0..255)>>)
                          ELSE LET q == R(IF W # {} THEN W ELSE L) IN Op(n, <<q[1], q[2], R({0} \cup Gaps)>>)
       [] n = "scale" -> Op(n, <<k, R({2, 3})>>)
       [] n = "dist" -> Op(n, <<k, R(S)>>)
       [] n = "z" -> Op(n, <<k, R(0..3)>>)
       [] n = "slope" -> IF CLegal(s, Op("slope", sl)) THEN Op(n, sl) ELSE Op("z", <<k, 2>>)
       [] OTHER -> Op(n, su)
CInv(s) == \A k \in S : s[k].h >= 0 /\ s[k].n >= 1 /\ s[k].W >= 1 /\ (s[k].ty = 1 => s[k].h = 0)
=============================================================================
