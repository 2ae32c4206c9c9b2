------------------------------- MODULE MCEnv -------------------------------
(* Exhaustive exploration of the environment machine over a small universe,   *)
(* and enumeration of every transition as a call sequence for replay.         *)
EXTENDS EnvCore, IOUtils
CONSTANTS Handles, IdPool, PrefixPool, OpNames, Depth, OpArities, Emit, MCEnvs

VARIABLES s, hist
vars == <<s, hist>>

MCPick(t, e, h) == Invented(t, e, h)

Mk(n, e, h, g, str, i) == [n |-> n, e |-> e, h |-> h, g |-> g, s |-> str, i |-> i]
HH(t) == Handles \cap t.ex
FR(t) == {h \in t.ex : IsFrame(h)}
Cand(t) ==
  UNION {
    IF "new" \notin OpNames THEN {} ELSE
      {Mk("new", 0, h, "", str, IF IsOp(h) THEN a ELSE 1) : h \in Handles \ DOMAIN t.env, str \in IdPool, a \in OpArities},
    IF "prefix" \notin OpNames THEN {} ELSE {Mk("prefix", 1, "", "", str, 0) : str \in PrefixPool},
    IF "attach" \notin OpNames THEN {} ELSE {Mk("attach", e, h, "", "", 0) : e \in t.envs \cap MCEnvs, h \in HH(t)},
    {Mk("detach", 0, h, "", "", i) : h \in IF "detach" \in OpNames THEN HH(t) ELSE {}, i \in {0,1}},
    {Mk("deep", 0, h, "", "", i) : h \in IF "deep" \in OpNames THEN HH(t) ELSE {}, i \in {0}},
    {Mk("drop", 0, h, "", "", 0) : h \in IF "drop" \in OpNames THEN t.held ELSE {}},
    {Mk(x, 0, h, g, "", 0) : x \in OpNames \cap {"addf", "remf"}, h \in {y \in HH(t) : IsFrame(y)}, g \in FR(t)},
    {Mk(x, 0, h, g, "", 0) : x \in OpNames \cap {"addl", "reml"}, h \in {y \in HH(t) : IsLayer(y)}, g \in {y \in HH(t) : IsLayer(y)}},
    {Mk(x, e, h, g, "", 0) : x \in OpNames \cap {"setf", "detf"}, e \in {1}, h \in {y \in HH(t) : IsMap(y)}, g \in FR(t)},
    {Mk(x, 1, h, g, "", i) : x \in OpNames \cap {"addin", "addout", "setin", "setout", "remin", "remout"}, h \in {y \in HH(t) : IsOp(y)},
                           g \in {y \in HH(t) : IsLayer(y)}, i \in {1}},
    {Mk(x, 1, h, "", "", 0) : x \in OpNames \cap {"remins", "remouts"}, h \in {y \in HH(t) : IsOp(y)}},
    {Mk(x, 1, h, "", "", 0) : x \in OpNames \cap {"detop"}, h \in {y \in HH(t) : IsLayer(y)}},
    {Mk("touch", 0, h, "", "", 2) : h \in IF "touch" \in OpNames THEN {x \in HH(t) : t.val[x] # 2} ELSE {}},
    {Mk("kill", e, "", "", "", 0) : e \in IF "kill" \in OpNames THEN t.envs ELSE {}}
  }

Show(x) == IF x = "" THEN "-" ELSE x
Line(op) == op.n \o " " \o ToString(op.e) \o " " \o Show(op.h) \o " " \o Show(op.g) \o " " \o Show(op.s) \o " " \o ToString(op.i)
RECURSIVE JoinLines(_)
JoinLines(q) == IF q = <<>> THEN "" ELSE Line(Head(q)) \o ";" \o JoinLines(Tail(q))

Init == s = Init0 /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E op \in {o \in Cand(s) : Legal(s, o)} :
       LET r == Apply(s, op, MCPick) IN
       /\ s' = r.st
       /\ hist' = Append(hist, op)
       /\ (Emit => PrintT("SEQ " \o JoinLines(hist')))
Spec == Init /\ [][Next]_vars
View == s

Inv == UniqueIds(s) /\ FrameForest(s) /\ LinksInside(s) /\ Owned(s) /\ NoDeadLinks(s)
\* refused calls leave the structure alone (an unattached item may be left with its normalised id)
Frozen == TRUE
=============================================================================
