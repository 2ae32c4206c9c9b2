------------------------------- MODULE MetaC -------------------------------
(* The metadata of layers: a typed store of named values.  Three layers;      *)
(* s[k] is a function from keys to <<type, value>>.  Type 3 is a structure    *)
(* whose elements are set and read individually, so a reference handed out    *)
(* once ("keep") is used for later writes ("poke").                           *)
EXTENDS CompUtil
CONSTANTS NLay, Keys, Types, Vals, Kinds, ELay, EKeys, ETypes

NoRef == <<0, 0, 0>>
CInit == [d |-> [k \in 1..NLay |-> [x \in {} |-> <<0, 0>>]], ref |-> NoRef]
Has(s, k, key) == key \in DOMAIN s.d[k]
HasT(s, k, key, ty) == Has(s, k, key) /\ s.d[k][key][1] = ty
Put(s, k, key, ty, v) == [s EXCEPT !.d[k] = (key :> <<ty, v>>) @@ @]
\* the reference kept by the user dies with its entry
Forget(s, k, key) == [s EXCEPT !.ref = IF s.ref[1] = k /\ s.ref[2] = key THEN NoRef ELSE @]
ForgetAll(s, k) == [s EXCEPT !.ref = IF s.ref[1] = k THEN NoRef ELSE @]

CLegal(s, op) ==
  LET a == op.a IN
  CASE op.n \in {"put", "get", "cget", "keep", "rem", "clear", "copy", "assign"} -> TRUE
    [] op.n = "poke" -> s.ref # NoRef
    [] OTHER -> FALSE

\* arguments: put k key type value; get/cget/keep k key type; poke value; rem k key; clear k; copy/assign k j
Refused(s, op) ==
  LET a == op.a IN
  CASE op.n \in {"put", "get", "keep"} -> Has(s, a[1], a[2]) /\ ~HasT(s, a[1], a[2], a[3])
    [] op.n = "cget" -> ~HasT(s, a[1], a[2], a[3])
    [] OTHER -> FALSE

CNext(s, op, t) ==
  LET a == op.a IN
  IF Refused(s, op) THEN s ELSE
  CASE op.n = "put" -> Put(s, a[1], a[2], a[3], a[4])
    [] op.n = "get" -> IF Has(s, a[1], a[2]) THEN s ELSE Put(s, a[1], a[2], a[3], 0)
    [] op.n = "keep" -> [(IF Has(s, a[1], a[2]) THEN s ELSE Put(s, a[1], a[2], a[3], 0)) EXCEPT !.ref = <<a[1], a[2], a[3]>>]
    [] op.n = "poke" -> Put(s, s.ref[1], s.ref[2], s.ref[3], a[1])
    [] op.n = "cget" -> s
    [] op.n = "rem" -> Forget([s EXCEPT !.d[a[1]] = [x \in DOMAIN @ \ {a[2]} |-> @[x]]], a[1], a[2])
    [] op.n = "clear" -> ForgetAll([s EXCEPT !.d[a[1]] = [x \in {} |-> <<0, 0>>]], a[1])
    [] op.n = "copy" -> ForgetAll([s EXCEPT !.d[a[1]] = s.d[a[2]]], a[1])
    [] op.n = "assign" -> IF a[1] = a[2] THEN s ELSE ForgetAll([s EXCEPT !.d[a[1]] = s.d[a[2]]], a[1])
CModel(s, op) == [r |-> <<>>]

\* what is seen of a layer: for every key whether there is data, of which type, its value
Seen(s, k) == [key \in 1..Cardinality(Keys) |->
                 IF Has(s, k, key) THEN <<1, [ty \in 1..Cardinality(Types) |-> IF s.d[k][key][1] = ty THEN 1 ELSE 0], s.d[k][key][2]>>
                 ELSE <<0, [ty \in 1..Cardinality(Types) |-> 0], 0>>]
Objects(s) == [ty \in 1..Cardinality(Types) |-> Cardinality({x \in (1..NLay) \X Keys : HasT(s, x[1], x[2], ty)})]

CCheck(s, op, u, t) ==
  /\ Check("all", "result", t.x = (IF Refused(s, op) THEN "throw" ELSE "ok"), <<op, t.x>>)
  /\ op.n \in {"get", "cget"} /\ ~Refused(s, op) => Check("all", "value", t.r = <<u.d[op.a[1]][op.a[2]][2]>>, <<op, t.r>>)
  /\ \A k \in 1..NLay : Check("all", "metadata of a layer", t.o[k] = Seen(u, k), <<op, k, t.o[k], Seen(u, k)>>)
  /\ Check("all", "metadata objects alive", t.o[NLay + 1] = Objects(u), <<op, t.o[NLay + 1], Objects(u)>>)

L == 1..NLay
COps(s) ==
  UNION {
    {Op("put", <<k, key, ty, v>>) : k \in ELay, key \in EKeys, ty \in ETypes, v \in Vals},
    {Op(n, <<k, key, ty>>) : n \in {"get", "cget", "keep"} \cap Kinds, k \in ELay, key \in EKeys, ty \in ETypes},
    IF "keep" \in Kinds THEN {Op("poke", <<v>>) : v \in Vals} ELSE {},
    {Op("rem", <<k, key>>) : k \in ELay, key \in EKeys},
    {Op("clear", <<k>>) : k \in ELay},
    IF "copy" \in Kinds THEN {Op(n, <<k, j>>) : n \in {"copy", "assign"}, k \in ELay, j \in ELay} ELSE {}
  }
CRand(s) ==
  LET n == Pick(<<<<"put", 6>>, <<"get", 3>>, <<"cget", 3>>, <<"keep", 2>>, <<"poke", 4>>, <<"rem", 2>>, <<"clear", 1>>, <<"copy", 2>>, <<"assign", 2>>>>)
      k == R(L)  key == R(Keys)  ty == R(Types)
  IN CASE n = "put" -> Op(n, <<k, key, ty, R(Vals)>>)
       [] n \in {"get", "cget", "keep"} -> Op(n, <<k, key, ty>>)
       [] n = "poke" -> Op(n, <<R(Vals)>>)
       [] n = "rem" -> Op(n, <<k, key>>)
       [] n = "clear" -> Op(n, <<k>>)
       [] OTHER -> Op(n, <<k, R(L)>>)
CInv(s) == (s.ref = NoRef) \/ HasT(s, s.ref[1], s.ref[2], s.ref[3])
=============================================================================
