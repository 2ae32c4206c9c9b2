-------------------------------- MODULE GmmC -------------------------------
(* Gaussian densities, mixtures and expectation maximization in the plane.     *)
(* Inputs are integers; results are fixed point.  Densities are compared as     *)
(* logarithms, in 1/1024 (LnTab[i] = 1024 * ln i).                             *)
EXTENDS CompUtil
CONSTANTS Kinds
LnTab == <<0, 710, 1125, 1420, 1648, 1835, 1993, 2129, 2250, 2358, 2455, 2545, 2627, 2702, 2773, 2839, 2901, 2960, 3015, 3068, 3118, 3165, 3211, 3254, 3296, 3336, 3375, 3412, 3448, 3483, 3516, 3549, 3580, 3611, 3641, 3670, 3698, 3725, 3751, 3777, 3803, 3827, 3851, 3875, 3898, 3921, 3943, 3964, 3985, 4006, 4026, 4046, 4066, 4085, 4104, 4122, 4140, 4158, 4175, 4193, 4210, 4226, 4243, 4259, 4275, 4290, 4306, 4321, 4336, 4350, 4365, 4379, 4393, 4407, 4421, 4435, 4448, 4461, 4474, 4487, 4500, 4512, 4525, 4537, 4549, 4561, 4573, 4585, 4596, 4608, 4619, 4630, 4641, 4652, 4663, 4674, 4685, 4695, 4705, 4716, 4726, 4736, 4746, 4756, 4766, 4775, 4785, 4795, 4804, 4813, 4823, 4832, 4841, 4850, 4859, 4868, 4876, 4885, 4894, 4902, 4911, 4919, 4928, 4936, 4944, 4952, 4960, 4968, 4976, 4984, 4992, 5000, 5008, 5015, 5023, 5031, 5038, 5046, 5053, 5060, 5068, 5075, 5082, 5089, 5096, 5103, 5110, 5117, 5124, 5131, 5138, 5144, 5151, 5158, 5164, 5171, 5178, 5184, 5191, 5197, 5203, 5210, 5216, 5222, 5228, 5235, 5241, 5247, 5253, 5259, 5265, 5271, 5277, 5283, 5289, 5295, 5300, 5306, 5312, 5318, 5323, 5329, 5335, 5340, 5346, 5351, 5357, 5362, 5368, 5373, 5378, 5384, 5389, 5394, 5400, 5405, 5410, 5415, 5420, 5425, 5431, 5436, 5441, 5446, 5451, 5456, 5461, 5466, 5471, 5475, 5480, 5485, 5490, 5495, 5500, 5504, 5509, 5514, 5518, 5523, 5528, 5532, 5537, 5542, 5546, 5551, 5555, 5560, 5564, 5569, 5573, 5577, 5582, 5586, 5591, 5595, 5599, 5604, 5608, 5612, 5616, 5621, 5625, 5629, 5633, 5637, 5642, 5646, 5650, 5654, 5658, 5662, 5666, 5670, 5674, 5678, 5682, 5686, 5690, 5694, 5698, 5702, 5706, 5710, 5714, 5718, 5721, 5725, 5729, 5733, 5737, 5740, 5744, 5748, 5752, 5755, 5759, 5763, 5766, 5770, 5774, 5777, 5781, 5785, 5788, 5792, 5795, 5799, 5802, 5806, 5809, 5813, 5816, 5820, 5823, 5827, 5830, 5834, 5837, 5841, 5844, 5847, 5851, 5854, 5858, 5861, 5864, 5868, 5871, 5874, 5878, 5881, 5884, 5887, 5891, 5894, 5897, 5900, 5904, 5907, 5910, 5913, 5916, 5919, 5923, 5926, 5929, 5932, 5935, 5938, 5941, 5944, 5948, 5951, 5954, 5957, 5960, 5963, 5966, 5969, 5972, 5975, 5978, 5981, 5984, 5987, 5990, 5993, 5996, 5999, 6001, 6004, 6007, 6010, 6013, 6016, 6019, 6022, 6025, 6027, 6030, 6033, 6036, 6039, 6041, 6044, 6047, 6050, 6053, 6055, 6058, 6061, 6064, 6066, 6069, 6072, 6075, 6077, 6080, 6083, 6085, 6088, 6091, 6093, 6096, 6099, 6101, 6104, 6107, 6109, 6112, 6115, 6117, 6120, 6122, 6125, 6128, 6130, 6133, 6135>>
LN2PI == 1882

\* samples and components of the machine: the samples are input, the components are what the
\* object reported last (weights in 1/1024, means in 1/256, covariances in 1/64)
CInit == [on |-> FALSE, w |-> 0, pts |-> <<>>, comp |-> <<>>, ll |-> 0]

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
\* em <<hasw, k, (weight/64, mx, my, cxx, cxy, cyy)*k, (x, y, w)*n>>
NComp(op) == op.a[2]
CompOf(op, j) == LET b == 2 + 6 * (j - 1) IN [w |-> op.a[b + 1], mx |-> op.a[b + 2], my |-> op.a[b + 3], cxx |-> op.a[b + 4], cxy |-> op.a[b + 5], cyy |-> op.a[b + 6]]
PtsOf(op) == LET b == 2 + 6 * NComp(op) n == (Len(op.a) - b) \div 3
             IN [i \in 1..n |-> <<op.a[b + 3 * i - 2], op.a[b + 3 * i - 1], IF op.a[1] = 1 THEN op.a[b + 3 * i] ELSE 1>>]
PosDef(a, b, c) == a > 0 /\ c > 0 /\ a * c - b * b > 0
\* well conditioned: smallest eigenvalue at least about 1/2 (covariances in 1/64)
Healthy(c) == PosDef(c[4], c[5], c[7]) /\ (c[4] * c[7] - c[5] * c[5]) \div (c[4] + c[7]) >= 24
Plain(c) == \A i \in 1..Len(c) : Abs(c[i]) < 100000

\* the squared distance in standard deviations, times the determinant
Maha(a, b, c, dx, dy) == c * dx * dx - 2 * b * dx * dy + a * dy * dy
CompsOk(op) == \A j \in 1..NComp(op) : LET c == CompOf(op, j) IN c.w >= 0 /\ PosDef(c.cxx, c.cxy, c.cyy)
AllHealthy(s) == /\ s.on /\ Len(s.comp) >= 1 /\ Len(s.pts) >= Len(s.comp)
                 /\ \A j \in 1..Len(s.comp) : Plain(s.comp[j]) /\ Healthy(s.comp[j])
                 /\ \E j \in 1..Len(s.comp) : s.comp[j][1] > 100
CLegal(s, op) ==
  CASE op.n = "em" -> NComp(op) >= 1 /\ Len(PtsOf(op)) >= 1 /\ CompsOk(op)
    [] op.n \in {"step", "run"} -> AllHealthy(s)
    [] op.n = "dens" -> PosDef(op.a[1], op.a[2], op.a[3]) /\ op.a[1] * op.a[3] - op.a[2] * op.a[2] <= 400
                        \* not so far out that the density is below what a double can hold
                        /\ Maha(op.a[1], op.a[2], op.a[3], op.a[6] - op.a[4], op.a[7] - op.a[5]) <= 800 * (op.a[1] * op.a[3] - op.a[2] * op.a[2])
    [] op.n \in {"dens1", "dens3"} -> (\A i \in 1..(IF op.n = "dens1" THEN 1 ELSE 3) : op.a[i] > 0 /\ op.a[i] <= 400)
    [] op.n \in {"mix", "norm"} -> TRUE
    [] op.n = "draw" -> SumSeq([j \in 1..(Len(op.a) - 1) |-> op.a[j + 1]]) = 64
    [] op.n = "drawc" -> PosDef(op.a[2], op.a[3], op.a[4])
    [] OTHER -> FALSE

CNext(s, op, t) ==
  CASE op.n = "em" -> [on |-> TRUE, w |-> op.a[1], pts |-> PtsOf(op), comp |-> t.r[1], ll |-> -999999]
    [] op.n = "step" -> [s EXCEPT !.comp = t.r[3], !.ll = IF Len(t.r[3]) = Len(s.comp) THEN t.r[1] ELSE -999999,
                                  !.on = Len(t.r[3]) > 0]
    [] op.n = "run" -> [s EXCEPT !.comp = t.r[2], !.ll = -999999, !.on = Len(t.r[2]) > 0]
    [] OTHER -> s
CModel(s, op) == [r |-> IF op.n = "em" THEN <<[j \in 1..NComp(op) |-> LET c == CompOf(op, j) IN
                                              <<c.w * 16, c.mx * 256, c.my * 256, c.cxx * 64, c.cxy * 64, c.cxy * 64, c.cyy * 64>>]>>
                        ELSE IF op.n = "run" THEN <<0, s.comp>> ELSE <<0, <<>>, s.comp>>]

---------------------------------------------------------------------------
DensOk(op, t) ==
  LET a == op.a  det == a[1] * a[3] - a[2] * a[2]  dx == a[6] - a[4]  dy == a[7] - a[5]
  IN Check("gmm", "density of a Gaussian", Near(t.r[1], -LN2PI - (LnTab[det] \div 2) - (512 * Maha(a[1], a[2], a[3], dx, dy)) \div det, 3), <<op, t.r>>)
Dens1Ok(op, t) == Check("gmm", "density in one dimension", Near(t.r[1], -(LN2PI \div 2) - (LnTab[op.a[1]] \div 2) - (512 * op.a[2] * op.a[2]) \div op.a[1], 3), <<op, t.r>>)
Dens3Ok(op, t) == LET a == op.a IN
  Check("gmm", "density in three dimensions",
        Near(t.r[1], -(3 * LN2PI) \div 2 - (LnTab[a[1]] + LnTab[a[2]] + LnTab[a[3]]) \div 2
                     - (512 * a[4] * a[4]) \div a[1] - (512 * a[5] * a[5]) \div a[2] - (512 * a[6] * a[6]) \div a[3], 5), <<op, t.r>>)
\* mix <<w1, .., wk>> over fixed components: the mixture is the weighted sum of its components
MixOk(op, t) == LET k == Len(op.a) IN
  Check("gmm", "mixture is the weighted sum", Near(t.r[1] * 64, SumSeq([j \in 1..k |-> op.a[j] * t.r[j + 1]]), 64 * k), <<op, t.r>>)
\* norm <<w1, .., wk>>: weights become proportional and add up to one; all zero becomes uniform
NormOk(op, t) == LET k == Len(op.a)  sum == SumSeq(op.a) IN
  /\ Check("gmm", "normalised weights", Len(t.r) = k /\ \A j \in 1..k : IF sum = 0 THEN Near(t.r[j] * k, 1024, k) ELSE Near(t.r[j] * sum, op.a[j] * 1024, sum), <<op, t.r>>)
\* draw <<seed, w1, ..>>: 800 samples come from the components in proportion to their weights
\* (6 standard deviations of sqrt(800)/2)
DrawOk(op, t) == LET k == Len(op.a) - 1 IN
  Check("gmm", "components are drawn by weight",
        SumSeq(t.r) = 800 /\ \A j \in 1..k : /\ Abs(t.r[j] * 64 - 800 * op.a[j + 1]) <= 85 * 64
                                             /\ op.a[j + 1] = 0 => t.r[j] = 0, <<op, t.r>>)
\* drawc <<seed, cxx, cxy, cyy, mx, my>>: mean and covariance of 3000 samples, in 1/64
DrawCOk(op, t) == LET a == op.a tol(v, w) == (ISqrt(v * w) * 64 * 15) \div 100 + 8 IN
  Check("gmm", "samples follow the distribution",
        /\ Near(t.r[1], a[5] * 64, (ISqrt(a[2] * 64 * 64) * 12) \div 100 + 2) /\ Near(t.r[2], a[6] * 64, (ISqrt(a[4] * 64 * 64) * 12) \div 100 + 2)
        /\ Near(t.r[3], a[2] * 64, tol(a[2], a[2])) /\ Near(t.r[4], a[3] * 64, tol(a[2], a[4])) /\ Near(t.r[5], a[4] * 64, tol(a[4], a[4])), <<op, t.r>>)

---------------------------------------------------------------------------
\* One step of expectation maximization.  t.r = <<log likelihood (1/1024), e, components after>>,
\* e[i][j] is the density of sample i under component j before the step, relative to the largest (of 4096).
\* Coordinates are taken relative to (8, 8).
StepOk(s, op, t) ==
  LET n == Len(s.pts)  k == Len(s.comp)  e == t.r[2]  post == t.r[3]
      raw == [i \in 1..n |-> [j \in 1..k |-> (s.comp[j][1] * e[i][j]) \div 16]]
      rs == [i \in 1..n |-> SumSeq(raw[i])]
      g == [i \in 1..n |-> [j \in 1..k |-> s.pts[i][3] * ((raw[i][j] * 4096) \div Max2(rs[i], 1))]]      \* responsibility, 1/4096
      sw == SumSeq([i \in 1..n |-> s.pts[i][3]])
      S(j, f(_)) == SumSeq([i \in 1..n |-> g[i][j] * f(s.pts[i])])
      One(q) == 1
      X(q) == q[1] - 8
      Y(q) == q[2] - 8
      XX(q) == (q[1] - 8) * (q[1] - 8)
      XY(q) == (q[1] - 8) * (q[2] - 8)
      YY(q) == (q[2] - 8) * (q[2] - 8)
      nj == [j \in 1..k |-> S(j, One)]
      usable == /\ \A i \in 1..n : rs[i] >= 4096
                /\ \A j \in 1..k : nj[j] >= 2048 \/ s.comp[j][1] = 0
      keep == SelectSeq([j \in 1..k |-> j], LAMBDA j : s.comp[j][1] # 0)
      Mom(j, f(_)) == (S(j, f) * 64) \div nj[j]                 \* a moment, 1/64
      Prod(a, b) == ((a - 2048) * (b - 2048)) \div 1024         \* product of two means in 1/256, in 1/64
      pw == [i \in 1..Len(post) |-> post[i][1]]
      Tot(f(_)) == SumSeq([i \in 1..n |-> s.pts[i][3] * f(s.pts[i])])
      all == Len(post) = k
      big == 32
      Finite(c) == Plain(c)
  IN ~usable \/
     /\ Check("em", "components that explain nothing are removed, the others stay", Len(post) = Len(keep), <<s.comp, post>>)
     /\ Check("em", "finite", \A i \in 1..Len(post) : Finite(post[i]), <<s.comp, post>>)
     /\ \A i \in 1..Len(post) :
          LET j == keep[i]  c == post[i] IN
          /\ Check("em", "weight is the mean responsibility", Near(c[1] * sw, nj[j] \div 4, 6 * sw), <<j, c, nj, sw>>)
          /\ Check("em", "mean is the responsibility-weighted mean", Near(c[2] - 2048, Mom(j, X) * 4, big) /\ Near(c[3] - 2048, Mom(j, Y) * 4, big), <<j, c, Mom(j, X), Mom(j, Y)>>)
          /\ Check("em", "covariance is the responsibility-weighted covariance",
                   /\ Near(c[4], Mom(j, XX) - Prod(c[2], c[2]), big) /\ Near(c[5], Mom(j, XY) - Prod(c[2], c[3]), big)
                   /\ Near(c[6], Mom(j, XY) - Prod(c[2], c[3]), big) /\ Near(c[7], Mom(j, YY) - Prod(c[3], c[3]), big), <<j, c, Mom(j, XX), Mom(j, XY), Mom(j, YY)>>)
     /\ Check("em", "weights add up to one", ~all \/ Near(SumSeq(pw), 1024, k + 1), <<post>>)
     \* the mixture keeps mean and second moment of the samples
     /\ Check("em", "mean of the mixture",
              ~all \/ Near(SumSeq([i \in 1..k |-> post[i][1] * (post[i][2] - 2048)]) \div 256, (Tot(X) * 1024) \div sw, 24), <<s.pts, post>>)
     /\ Check("em", "second moment of the mixture",
              ~all \/ (/\ Near(SumSeq([i \in 1..k |-> post[i][1] * (post[i][4] + Prod(post[i][2], post[i][2]))]) \div 64, (Tot(XX) * 1024) \div sw, 160)
                      /\ Near(SumSeq([i \in 1..k |-> post[i][1] * (post[i][5] + Prod(post[i][2], post[i][3]))]) \div 64, (Tot(XY) * 1024) \div sw, 160)
                      /\ Near(SumSeq([i \in 1..k |-> post[i][1] * (post[i][7] + Prod(post[i][3], post[i][3]))]) \div 64, (Tot(YY) * 1024) \div sw, 160)), <<s.pts, post>>)
     \* an unweighted fit never gets worse
     /\ Check("em", "likelihood does not decrease", s.w = 1 \/ s.ll = -999999 \/ t.r[1] >= s.ll - 3, <<s.ll, t.r[1]>>)

\* em: what was put in is what the object holds
EmOk(s, op, t) == Check("em", "components", t.r = CModel(s, op).r, <<op, t.r>>)
\* run <<delta (1/1024), max>>: the same as single steps until the likelihood changes by less than delta
RunOk(op, t) == Check("em", "run is the iteration of step until it settles", t.r[1] = 0, <<op, t.r>>)

CCheck(s, op, u, t) ==
  /\ Check("gmm", "result", t.x = "ok", op) /\ Check("em", "result", t.x = "ok", op)
  /\ CASE op.n = "dens" -> DensOk(op, t) [] op.n = "dens1" -> Dens1Ok(op, t) [] op.n = "dens3" -> Dens3Ok(op, t)
       [] op.n = "mix" -> MixOk(op, t) [] op.n = "norm" -> NormOk(op, t)
       [] op.n = "draw" -> DrawOk(op, t) [] op.n = "drawc" -> DrawCOk(op, t)
       [] op.n = "em" -> EmOk(s, op, t) [] op.n = "step" -> StepOk(s, op, t) [] OTHER -> RunOk(op, t)

COps(s) == {Op("dens", <<a, b, c, 0, 0, x, y>>) : a \in 1..4, b \in -2..2, c \in 1..4, x \in -2..2, y \in -2..2}
           \cup {Op("dens1", <<a, x>>) : a \in 1..20, x \in -6..6} \cup {Op("norm", <<a, b>>) : a \in 0..5, b \in 0..5}
           \cup {Op("mix", <<a, b, c>>) : a \in {0, 10, 64}, b \in {0, 20, 64}, c \in {0, 34, 64}}
RCov == LET a == R(2..12) c == R(2..12) m == ISqrt(a * c) IN <<a, R((-m)..m), c>>
RW(k) == LET RECURSIVE F(_, _)
             F(j, left) == IF j = k THEN <<left>> ELSE LET x == R(0..left) IN <<x>> \o F(j + 1, left - x)
         IN F(1, 64)
CRand(s) ==
  LET n == IF s.on /\ R(1..5) # 1 THEN RS(<<"step", "step", "step", "run">>) ELSE R(Kinds) IN
  CASE n = "dens" -> Op(n, RCov \o <<R(-5..5), R(-5..5), R(-9..9), R(-9..9)>>)
    [] n = "dens1" -> Op(n, <<R(1..30), R(-20..20)>>)
    [] n = "dens3" -> Op(n, <<R(1..30), R(1..30), R(1..30), R(-9..9), R(-9..9), R(-9..9)>>)
    [] n = "mix" -> Op(n, RW(3))
    [] n = "norm" -> Op(n, [j \in 1..R(1..4) |-> R(0..9)])
    [] n = "draw" -> Op(n, <<R(1..100000)>> \o RW(R(1..3)))
    [] n = "drawc" -> Op(n, <<R(1..100000)>> \o RCov \o <<R(-9..9), R(-9..9)>>)
    [] n = "em" -> LET k == R(1..3)  w == IF R(1..8) = 1 THEN [j \in 1..k |-> 32] ELSE RW(k) IN
         Op(n, <<R({0, 1}), k>> \o Flat([j \in 1..k |-> <<w[j], R(2..13), R(2..13)>> \o RCov])
               \o Flat([i \in 1..R(4..10) |-> <<R(0..15), R(0..15), R(1..3)>>]))
    [] n = "step" -> Op(n, <<>>)
    [] n = "run" -> Op(n, <<R({1, 20, 100, 400}), R(0..6)>>)
CInv(s) == TRUE
=============================================================================
