------------------------------ MODULE FactoryC -----------------------------
(* The class registry used when scenes are loaded.  Names are numbered; for   *)
(* each the number of the part after its last "::" is given (0: it has no     *)
(* namespace).  Makers are numbered too; maker 9 fails.                       *)
EXTENDS CompUtil
CONSTANTS Names, Short, Makers, ENames

CInit == [n \in {} |-> 0]
\* the maker that has to be used for a name; 0: refused
Resolve(s, n) == IF n \in DOMAIN s THEN s[n]
                 ELSE IF Short[n] # 0 /\ Short[n] \in DOMAIN s THEN s[Short[n]] ELSE 0
CLegal(s, op) == op.n \in {"add", "make"} /\ op.a[1] \in Names
CNext(s, op, t) == IF op.n = "add" THEN (op.a[1] :> op.a[2]) @@ s ELSE s
CModel(s, op) == [r |-> <<>>]
CCheck(s, op, u, t) ==
  /\ op.n = "make" => LET m == Resolve(s, op.a[1]) IN
       Check("all", "object of the class", IF m = 0 THEN t.x = "throw" /\ t.r = <<>> ELSE t.x = "ok" /\ t.r = <<m>>, <<op, m, t>>)
  /\ op.n = "add" => Check("all", "registration", t.x = "ok", op)
COps(s) == {Op("add", <<n, m>>) : n \in ENames, m \in Makers} \cup {Op("make", <<n>>) : n \in Names}
CRand(s) == IF R(1..3) = 1 THEN Op("add", <<R(Names), R(Makers)>>) ELSE Op("make", <<R(Names)>>)
CInv(s) == DOMAIN s \subseteq Names
=============================================================================
