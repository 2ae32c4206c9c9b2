----------------------------- MODULE ListGridC -----------------------------
(* ListGrid: a grid whose cells are lists.  Two grids, so that copying is     *)
(* covered.  g[k] = [w, h, c] with c a function from cells to sequences.       *)
EXTENDS CompUtil
CONSTANTS MaxW, MaxH, Vals, MaxLen, Kinds, Grids

Cells(w, h) == {<<x, y>> : x \in 0..(w - 1), y \in 0..(h - 1)}
Fresh(w, h) == [w |-> w, h |-> h, c |-> [p \in Cells(w, h) |-> <<>>]]
CInit == [k \in {1, 2} |-> Fresh(0, 0)]

InGrid(g, x, y) == x >= 0 /\ y >= 0 /\ x < g.w /\ y < g.h
CLegal(s, op) ==
  LET a == op.a IN
  CASE op.n = "resize" -> a[2] >= 0 /\ a[3] >= 0
    [] op.n \in {"ihead", "itail"} -> InGrid(s[a[1]], a[2], a[3])
    [] op.n = "erase" -> InGrid(s[a[1]], a[2], a[3]) /\ a[4] >= 1 /\ a[4] <= Len(s[a[1]].c[<<a[2], a[3]>>])
    [] op.n = "drain" -> InGrid(s[a[1]], a[2], a[3])
    [] op.n \in {"move", "clear", "assign", "copy"} -> TRUE
    [] OTHER -> FALSE

Moved(g, dx, dy) == [g EXCEPT !.c = [p \in Cells(g.w, g.h) |->
                       IF <<p[1] - dx, p[2] - dy>> \in Cells(g.w, g.h) THEN g.c[<<p[1] - dx, p[2] - dy>>] ELSE <<>>]]
RECURSIVE Drop(_, _)
\* erase while iterating: every element with the value given
Drop(q, v) == IF q = <<>> THEN <<>> ELSE IF Head(q) = v THEN Drop(Tail(q), v) ELSE <<Head(q)>> \o Drop(Tail(q), v)

CNext(s, op, t) ==
  LET a == op.a  k == a[1]  g == s[k] IN
  CASE op.n = "resize" -> [s EXCEPT ![k] = Fresh(a[2], a[3])]
    [] op.n = "ihead" -> [s EXCEPT ![k].c[<<a[2], a[3]>>] = <<a[4]>> \o @]
    [] op.n = "itail" -> [s EXCEPT ![k].c[<<a[2], a[3]>>] = Append(@, a[4])]
    [] op.n = "erase" -> [s EXCEPT ![k].c[<<a[2], a[3]>>] = DropAt(@, a[4])]
    [] op.n = "drain" -> [s EXCEPT ![k].c[<<a[2], a[3]>>] = Drop(@, a[4])]
    [] op.n = "move" -> [s EXCEPT ![k] = Moved(g, a[2], a[3])]
    [] op.n = "clear" -> [s EXCEPT ![k] = Fresh(g.w, g.h)]
    [] op.n \in {"assign", "copy"} -> [s EXCEPT ![k] = s[a[2]]]
CModel(s, op) == [r |-> <<>>]

\* observation: for each grid the cells, row by row, read with iterators and with const iterators
Rows(g) == [x \in 1..g.w |-> [y \in 1..g.h |-> g.c[<<x - 1, y - 1>>]]]
CCheck(s, op, u, t) ==
  /\ Check("all", "result", t.x = "ok", op)
  /\ op.n = "erase" => LET q == s[op.a[1]].c[<<op.a[2], op.a[3]>>] IN
       Check("all", "erase returns the next element", t.r = (IF op.a[4] < Len(q) THEN <<q[op.a[4] + 1]>> ELSE <<>>), <<op, q, t.r>>)
  /\ \A k \in {1, 2} : Check("all", "content", t.o[k] = Rows(u[k]), <<op, k, t.o[k], Rows(u[k])>>)
  /\ \A k \in {1, 2} : Check("all", "content seen through const iterators", t.o[k + 2] = Rows(u[k]), <<op, k>>)

COps(s) ==
  UNION {
    {Op("resize", <<k, w, h>>) : k \in Grids, w \in {MaxW}, h \in 1..MaxH},
    {Op(n, <<k, x, y, v>>) : n \in Kinds \cap {"ihead", "itail", "drain"}, k \in Grids, x \in 0..(MaxW - 1), y \in 0..(MaxH - 1), v \in Vals},
    {Op("erase", <<k, x, y, i>>) : k \in Grids, x \in 0..(MaxW - 1), y \in 0..(MaxH - 1), i \in 1..MaxLen},
    IF "move" \in Kinds THEN {Op("move", <<k, dx, dy>>) : k \in Grids, dx \in {-1, 0, 1}, dy \in {-1, 0, 1}} ELSE {},
    IF "clear" \in Kinds THEN {Op("clear", <<k>>) : k \in Grids} ELSE {},
    IF "copy" \in Kinds THEN {Op(n, <<k, j>>) : n \in {"assign", "copy"}, k \in {1, 2}, j \in {1, 2}} ELSE {}
  }
CRand(s) ==
  LET n == Pick(<<<<"resize", 1>>, <<"ihead", 8>>, <<"itail", 8>>, <<"erase", 8>>, <<"drain", 2>>, <<"move", 4>>, <<"clear", 1>>, <<"assign", 2>>, <<"copy", 2>>>>)
      k == R({1, 2})
      g == s[k]
      x == R(0..Max2(g.w - 1, 0))
      y == R(0..Max2(g.h - 1, 0))
  IN CASE n = "resize" -> Op(n, <<k, R(0..MaxW), R(0..MaxH)>>)
       [] n \in {"ihead", "itail", "drain"} -> Op(n, <<k, x, y, R(Vals)>>)
       [] n = "erase" -> LET c == {p \in Cells(g.w, g.h) : g.c[p] # <<>>} IN
                         IF c = {} THEN Op("resize", <<k, R(1..MaxW), R(1..MaxH)>>)
                         ELSE LET p == R(c) IN Op(n, <<k, p[1], p[2], R(1..Len(g.c[p]))>>)
       [] n = "move" -> Op(n, <<k, R(-(g.w + 1)..(g.w + 1)), R(-2..2)>>)
       [] n = "clear" -> Op(n, <<k>>)
       [] OTHER -> Op(n, <<k, R({1, 2})>>)
CInv(s) == \A k \in {1, 2} : DOMAIN s[k].c = Cells(s[k].w, s[k].h)
=============================================================================
