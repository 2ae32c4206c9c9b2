------------------------------ MODULE FramesC ------------------------------
(* Frame nodes and the transforms between them.  Rotations are multiples of   *)
(* 90 degrees, written as signed permutations <<p1, p2, p3>> (the image of    *)
(* axis j is sign(pj) times axis |pj|), translations are integers, so all     *)
(* transforms are exact.  Uncertainties are exact as well as long as either   *)
(* no orientation is uncertain or all orientations are identities.            *)
(* Frame 0 is the root of the environment; maps 1 (2D) and 2 (3D) are placed  *)
(* in frames.                                                                 *)
EXTENDS CompUtil, Rigid
CONSTANTS NF, Rots, TR, Names, ERots, ETrans, EF

Frames == 0..NF
Zero6 == [i \in 1..6 |-> [j \in 1..6 |-> 0]]

\* transforms: m rotation matrix, t translation, u uncertain?, c 6x6 covariance of (rotation, translation)
TMake(p, t, u, rr, tt) == TLCEval([m |-> Mat(p), t |-> t, u |-> u,
                           c |-> IF u = 0 THEN Zero6 ELSE [i \in 1..6 |-> [j \in 1..6 |-> IF i # j THEN 0 ELSE IF i <= 3 THEN rr[i] ELSE tt[i - 3]]]])
TId == TMake(Id3, <<0, 0, 0>>, 0, <<0, 0, 0>>, <<0, 0, 0>>)
\* block matrix [A 0; B C] of 3x3 blocks
Blk0(A, B, C) == TLCEval([i \in 1..6 |-> [j \in 1..6 |->
   IF i <= 3 THEN (IF j <= 3 THEN A[i][j] ELSE 0) ELSE (IF j <= 3 THEN B[i - 3][j] ELSE C[i - 3][j - 3])]])
Blk(A, B, C) == Strict3(Blk0, A, B, C)
Skew0(v) == TLCEval(<<<<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>>>>)
Skew(v) == Strict1(Skew0, v)
NegM0(A) == TLCEval([i \in 1..3 |-> Neg3(A[i])])
NegM(A) == Strict1(NegM0, A)
Cov(J, C) == MM(MM(J, C, 6), Tr(J, 6), 6)
\* a after b: first order propagation (t = ra tb + ta with ra uncertain)
Comp0(a, b) == [m |-> MM(a.m, b.m, 3), t |-> Add3(MV(a.m, b.t), a.t), u |-> Max2(a.u, b.u),
               c |-> IF Max2(a.u, b.u) = 0 THEN Zero6
                     ELSE AddM(Cov(Blk(a.m, [i \in 1..3 |-> <<0, 0, 0>>], a.m), b.c), Cov(Blk(I3, NegM(Skew(MV(a.m, b.t))), I3), a.c), 6)]
Comp(a, b) == Strict2(Comp0, a, b)
TInv0(a) == LET mt == Tr(a.m, 3)  ti == Neg3(MV(mt, a.t)) IN
          [m |-> mt, t |-> ti, u |-> a.u,
           c |-> IF a.u = 0 THEN Zero6 ELSE Cov(Blk(mt, MM(mt, Skew(a.t), 3), mt), a.c)]

TInv(a) == Strict1(TInv0, a)
CInit == [par |-> [f \in 1..NF |-> -1], tf |-> [f \in Frames |-> TId], at |-> [m \in {1, 2} |-> 0],
          box |-> [m \in {1, 2} |-> <<0, 0, 0, 1, 1, 1>>]]
Up(s, f) == IF f = 0 THEN -1 ELSE s.par[f]
RECURSIVE UpsF(_, _)
UpsF(s, f) == IF f = -1 THEN {} ELSE {f} \cup UpsF(s, Up(s, f))
RECURSIVE TopF(_, _)
TopF(s, f) == IF Up(s, f) = -1 THEN f ELSE TopF(s, Up(s, f))
\* from frame f to the top of its tree
RECURSIVE ToTop(_, _)
ToTop(s, f) == IF Up(s, f) = -1 THEN TId ELSE LET x == ToTop(s, Up(s, f)) IN Comp(x, s.tf[f])
Common(s, f, g) == TopF(s, f) = TopF(s, g)
Rel0(s, f, g) == IF f = g THEN TId ELSE Comp(TInv(ToTop(s, g)), ToTop(s, f))
Rel(s, f, g) == Strict3(Rel0, s, f, g)
Pt0(a, p) == Add3(MV(a.m, p), a.t)
Pt(a, p) == Strict2(Pt0, a, p)

Straight(s) == \A f \in Frames : s.tf[f].m = I3
Steady(s) == \A f \in Frames : \A i \in 1..3 : s.tf[f].c[i][i] = 0
\* set f p t | setu f p t rr tt | add parent child | rem parent child | place map frame | box map b
\* rel f g | relu f g | relm | point f g p | pmap m f p | pmaproot m p | ext m f | clone m | alg f g p pc
CLegal(s, op) ==
  LET a == op.a IN
  CASE op.n = "set" -> RotOk(A3(a, 2)) /\ (Steady(s) \/ A3(a, 2) = Id3 \/ (\A f \in Frames \ {a[1]} : \A i \in 1..3 : s.tf[f].c[i][i] = 0))
    [] op.n = "setu" -> RotOk(A3(a, 2)) /\ (\A i \in 8..13 : a[i] >= 0)
                        /\ (A3(a, 8) = <<0, 0, 0>> \/ (A3(a, 2) = Id3 /\ \A f \in Frames \ {a[1]} : s.tf[f].m = I3))
                        /\ (A3(a, 2) = Id3 \/ \A f \in Frames \ {a[1]} : \A i \in 1..3 : s.tf[f].c[i][i] = 0)
    [] op.n = "add" -> a[2] # 0 /\ a[1] # a[2] /\ a[2] \notin UpsF(s, a[1])
    [] op.n = "rem" -> a[2] # 0 /\ a[1] # a[2]
    [] op.n \in {"place", "rel", "relu", "relm", "point", "pmap", "pmaproot", "rbs"} -> TRUE
    [] op.n = "box" -> \A i \in 2..4 : a[i] <= a[i + 3]
    [] op.n = "ext" -> Common(s, s.at[a[1]], a[2])
    [] op.n = "clone" -> TopF(s, s.at[a[1]]) = 0
    [] op.n = "alg" -> \A i \in 6..8 : a[i] >= 0
    [] op.n = "algi" -> Straight(s)
    [] OTHER -> FALSE

CNext(s, op, t) ==
  LET a == op.a IN
  CASE op.n = "set" -> [s EXCEPT !.tf[a[1]] = TMake(A3(a, 2), A3(a, 5), 0, <<0, 0, 0>>, <<0, 0, 0>>)]
    [] op.n = "setu" -> [s EXCEPT !.tf[a[1]] = TMake(A3(a, 2), A3(a, 5), 1, A3(a, 8), A3(a, 11))]
    [] op.n = "add" -> [s EXCEPT !.par[a[2]] = a[1]]
    [] op.n = "rem" -> IF s.par[a[2]] = a[1] THEN [s EXCEPT !.par[a[2]] = -1] ELSE s
    [] op.n = "place" -> [s EXCEPT !.at[a[1]] = a[2]]
    [] op.n = "box" -> [s EXCEPT !.box[a[1]] = SubSeq(a, 2, 7)]
    [] OTHER -> s
CModel(s, op) == [r |-> <<>>]

Flat0(A, n) == TLCEval([k \in 1..(n * n) |-> A[((k - 1) \div n) + 1][((k - 1) % n) + 1]])
Flat(A, n) == Strict2(Flat0, A, n)
TVec0(x) == Flat(x.m, 3) \o <<x.t[1], x.t[2], x.t[3]>>
TVec(x) == Strict1(TVec0, x)
UVec0(x) == TVec(x) \o <<x.u>> \o Flat(x.c, 6)
UVec(x) == Strict1(UVec0, x)
\* covariance of the image of an uncertain point
PtCov0(a, p, pc) ==
  LET q == MV(a.m, p)  J == NegM(Skew(q))
      rr == [i \in 1..3 |-> [j \in 1..3 |-> a.c[i][j]]]
      tt == [i \in 1..3 |-> [j \in 1..3 |-> a.c[i + 3][j + 3]]]
      rt == [i \in 1..3 |-> [j \in 1..3 |-> a.c[i][j + 3]]]
      x == MM(J, rt, 3)
  IN AddM(AddM(AddM(MM(MM(J, rr, 3), Tr(J, 3), 3), tt, 3), AddM(x, Tr(x, 3), 3), 3),
          MM(MM(a.m, [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN pc[i] ELSE 0]], 3), Tr(a.m, 3), 3), 3)
PtCov(a, p, pc) == Strict3(PtCov0, a, p, pc)
\* smallest box around the image of a box; a 2D box lies in the plane z = 0
BoxImg0(x, b, d) ==
  LET cs == {Pt(x, <<c1, c2, c3>>) : c1 \in {b[1], b[4]}, c2 \in {b[2], b[5]}, c3 \in IF d = 2 THEN {0} ELSE {b[3], b[6]}}
  IN [i \in 1..d |-> MinOf({c[i] : c \in cs})] \o [i \in 1..d |-> MaxOf({c[i] : c \in cs})]
BoxImg(x, b, d) == Strict3(BoxImg0, x, b, d)
\* the chain of transforms above a frame, topmost first
RECURSIVE ChainF(_, _)
ChainF(s, f) == IF f = 0 THEN <<>> ELSE Append(ChainF(s, s.par[f]), f)

Refused(s, op) ==
  LET a == op.a IN
  CASE op.n \in {"rel", "relu", "point"} -> ~Common(s, a[1], a[2])
    [] op.n = "relm" -> ~Common(s, s.at[1], s.at[2])
    [] op.n = "pmap" -> ~Common(s, s.at[a[1]], a[2])
    [] OTHER -> FALSE

Expect(s, op) ==
  LET a == op.a IN
  CASE op.n = "rel" -> TVec(Rel(s, a[1], a[2])) \o TVec(Rel(s, a[1], a[2]))
    [] op.n = "relu" -> UVec(Rel(s, a[1], a[2]))
    [] op.n = "relm" -> TVec(Rel(s, s.at[1], s.at[2])) \o UVec(Rel(s, s.at[2], s.at[1]))
    [] op.n = "point" -> Pt(Rel(s, a[1], a[2]), A3(a, 3))
    [] op.n = "pmap" -> Pt(Rel(s, a[2], s.at[a[1]]), A3(a, 3)) \o Pt(Rel(s, s.at[a[1]], a[2]), A3(a, 3))
    [] op.n = "pmaproot" -> Pt(TInv(ToTop(s, s.at[a[1]])), A3(a, 2)) \o Pt(ToTop(s, s.at[a[1]]), A3(a, 2))
    [] op.n = "ext" -> BoxImg(Rel(s, s.at[a[1]], a[2]), s.box[a[1]], a[1] + 1)
    [] op.n = "clone" -> LET ch == ChainF(s, s.at[a[1]]) IN
         <<Len(ch)>> \o (LET RECURSIVE F(_) F(i) == IF i > Len(ch) THEN <<>> ELSE UVec(s.tf[ch[i]]) \o F(i + 1) IN F(1)) \o s.box[a[1]]
    [] op.n = "alg" -> UVec(Comp(s.tf[a[1]], s.tf[a[2]])) \o UVec(TInv(s.tf[a[1]])) \o Pt(s.tf[a[1]], A3(a, 3)) \o Flat(PtCov(s.tf[a[1]], A3(a, 3), A3(a, 6)), 3)
    \* undoing a composition from either side
    [] op.n = "algi" -> UVec(s.tf[a[1]]) \o UVec(s.tf[a[2]])
    [] op.n = "rbs" -> TVec(s.tf[a[1]]) \o <<1>> \o Flat(s.tf[a[1]].c, 6)
    [] OTHER -> <<>>
\* undoing only tells whether there is uncertainty if one of the two had some
AlgiOk(s, op, r) == LET u == Max2(s.tf[op.a[1]].u, s.tf[op.a[2]].u)
                        x == Expect(s, op)
                    IN Len(r) = Len(x) /\ \A i \in 1..Len(x) : r[i] = (IF i \in {13, 62} THEN u ELSE x[i])

CCheck(s, op, u, t) ==
  /\ Check("all", "result", t.x = (IF Refused(s, op) THEN "throw" ELSE "ok"), <<op, t.x>>)
  /\ ~Refused(s, op) => Check("all", "value", IF op.n = "algi" THEN AlgiOk(s, op, t.r) ELSE t.r = Expect(s, op), <<op, t.r, Expect(s, op)>>)
  /\ Check("all", "transforms of the frames", \A f \in Frames : t.o[f + 1] = <<u.tf[f].u, u.tf[f].t[1], u.tf[f].t[2], u.tf[f].t[3]>>, <<op, t.o>>)

VArgs(f) == <<f>>
COps(s) ==
  UNION {
    {Op("set", <<f>> \o p \o v) : f \in EF, p \in ERots, v \in ETrans},
    {Op("add", <<f, g>>) : f \in EF \cup {0}, g \in EF \ {0}},
    {Op("rem", <<f, g>>) : f \in EF \cup {0}, g \in EF \ {0}},
    {Op("rel", <<f, g>>) : f \in EF \cup {0}, g \in EF \cup {0}}
  }
CRand(s) ==
  LET n == RS(Names)
      f == R(Frames)  g == R(Frames)  m == R({1, 2})
  IN CASE n = "set" -> Op(n, <<f>> \o R(AllRots) \o RV(-TR, TR))
       [] n = "setu" -> IF Straight(s) /\ R(1..3) > 1
                        THEN Op(n, <<f>> \o Id3 \o RV(-TR, TR) \o RV(0, 3) \o RV(0, 9))
                        ELSE Op(n, <<f>> \o R(AllRots) \o RV(-TR, TR) \o <<0, 0, 0>> \o RV(0, 9))
       [] n = "setid" -> Op("set", <<f>> \o Id3 \o RV(-TR, TR))
       [] n \in {"add", "rem", "rel", "relu", "algi"} -> Op(n, <<f, g>>)
       [] n = "place" -> Op(n, <<m, f>>)
       [] n = "box" -> LET b == RV(-5, 5) IN Op(n, <<m>> \o b \o Add3(b, RV(0, 6)))
       [] n = "relm" -> Op(n, <<>>)
       [] n = "rbs" -> Op(n, <<f>>)
       [] n = "point" -> Op(n, <<f, g>> \o RV(-9, 9))
       [] n = "pmap" -> Op(n, <<m, f>> \o RV(-9, 9))
       [] n = "pmaproot" -> Op(n, <<m>> \o RV(-9, 9))
       [] n = "ext" -> Op(n, <<m, f>>)
       [] n = "clone" -> Op(n, <<m>>)
       [] n = "alg" -> Op(n, <<f, g>> \o RV(-9, 9) \o RV(0, 9))
CInv(s) ==
  /\ \A f \in 1..NF : f \notin UpsF(s, s.par[f])
  \* relative transforms are inverse to each other and compose
  /\ \A f, g \in EF : Common(s, f, g) =>
       LET x == Comp(Rel(s, f, g), Rel(s, g, f)) IN x.m = I3 /\ x.t = <<0, 0, 0>>
=============================================================================
