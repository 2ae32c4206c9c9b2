------------------------------- MODULE GenEnv ------------------------------
(* Random behaviours of the environment machine, written out as call          *)
(* sequences for the driver.  Run with  -simulate num=1 -depth N -seed S.     *)
EXTENDS EnvCore, Json, IOUtils

\* a profile is a sequence of <<call, weight>>
CONSTANTS Profile, SeqLen, FrameHandles, MapHandles, LayerHandles, OpHandles,
          IdPool, PrefixPool, UseEnv2, AllowKill, ClassPerId

VARIABLES s, n, out
vars == <<s, n, out>>

Handles == FrameHandles \cup MapHandles \cup LayerHandles \cup OpHandles
Bag == LET RECURSIVE B(_)
           B(i) == IF i > Len(Profile) THEN <<>> ELSE [j \in 1..Profile[i][2] |-> Profile[i][1]] \o B(i + 1)
       IN B(1)

GPick(t, e, h) == Invented(t, e, h)

Mk(nm, e, h, g, str, i) == [n |-> nm, e |-> e, h |-> h, g |-> g, s |-> str, i |-> i]
R(S) == RandomElement(S)
Envs(t) == IF UseEnv2 THEN t.envs ELSE t.envs \cap {1}
Vals == 1..104

\* while replicas follow an environment an id is only reused by items of one class
\* (see DESIGN.md, finding on id reuse): ids are tied to classes in such profiles
IdsFor(h) ==
  IF ClassPerId THEN {IF str = "" THEN "" ELSE (IF IsOp(h) THEN h ELSE ClassOf(h)) \o str : str \in IdPool} ELSE IdPool
\* ids close to the ones the environment is about to make up, or has just made up
NearIds(t) == {t.pre[e] \o ToString(t.cnt[e] + k) : e \in Envs(t), k \in {0, 1, 1, 2}}
AskId(t, h) == IF ~ClassPerId /\ t.envs # {} /\ R(1..2) = 1 THEN R(NearIds(t) \cup {""}) ELSE R(IdsFor(h))
AritiesFor(h) == IF ~ClassPerId THEN {0, 11, 12, 21} ELSE CASE h = "o1" -> {0} [] h = "o2" -> {12} [] OTHER -> {21}

Names2(nm, t) ==
  LET Fr == {h \in t.ex : IsFrame(h)}  Ly == {h \in t.ex : IsLayer(h)}
      Mp == {h \in t.ex : IsMap(h)}    Op == {h \in t.ex : IsOp(h)}
      UserH == {h \in t.ex : ~IsRoot(h)}
      LinkFr == Fr
  IN CASE nm = "new" -> LET F == Handles \ t.ex IN IF F = {} THEN {} ELSE
             LET h == R(F) IN {Mk("new", 0, h, "", AskId(t, h), IF IsOp(h) THEN R(AritiesFor(h)) ELSE R(Vals))}
       [] nm = "setid" -> {Mk(nm, 0, h, "", AskId(t, h), 0) : h \in UserH}
       [] nm = "prefix" -> {Mk(nm, e, "", "", R(PrefixPool), 0) : e \in Envs(t)}
       [] nm = "attach" -> {Mk(nm, e, h, "", "", 0) : e \in Envs(t), h \in UserH}
       [] nm = "attachm" -> {Mk(nm, e, h, g, "", 0) : e \in Envs(t), h \in Mp, g \in Fr \cup {""}}
       [] nm \in {"detach", "deep"} -> {Mk(nm, 0, h, "", "", R(0..3)) : h \in UserH}
       [] nm = "drop" -> {Mk(nm, 0, h, "", "", 0) : h \in t.held}
       [] nm = "hold" -> {Mk(nm, 0, h, "", "", 0) : h \in UserH}
       [] nm \in {"addf", "remf"} -> {Mk(nm, 0, h, g, "", R({0, 1})) : h \in Fr, g \in Fr}
       [] nm \in {"addl", "reml"} -> {Mk(nm, 0, h, g, "", R({0, 1})) : h \in Ly, g \in Ly}
       [] nm \in {"setf", "detf"} -> {Mk(nm, e, h, g, "", i) : e \in Envs(t), h \in Mp, g \in Fr, i \in {0, 1}}
       [] nm \in {"addin", "addout", "setin", "setout", "remin", "remout"} ->
            {Mk(nm, e, h, g, "", i) : e \in Envs(t), h \in Op, g \in Ly, i \in {0, 1}}
       [] nm \in {"remins", "remouts"} -> {Mk(nm, 0, h, "", "", R({0, 1})) : h \in Op}
       [] nm \in {"detop", "dirty", "clean", "immut", "upd"} -> {Mk(nm, 0, h, "", "", 0) : h \in Ly}
       [] nm = "touch" -> {Mk(nm, 0, h, "", "", R(Vals)) : h \in t.ex}
       [] nm \in {"updops", "all", "reload"} -> {Mk(nm, e, "", "", "", 0) : e \in Envs(t)}
       [] nm = "kill" -> IF AllowKill /\ n % SeqLen > SeqLen - 8 THEN {Mk(nm, e, "", "", "", 0) : e \in Envs(t)} ELSE {}
       [] nm = "reg" -> LET k == R({"k1", "k2", "k3", "k4"})
                        IN {Mk(nm, e, "", "", k, IF k \in DOMAIN t.hs THEN t.hs[k].filt ELSE R({0, 0, 1, 2, 3})) : e \in Envs(t)}
       [] nm = "unreg" -> {Mk(nm, t.hs[k].env, "", "", k, 0) : k \in DOMAIN t.hs}
       [] nm = "mkrep" -> {Mk(nm, e, "", "", k, 0) : e \in Envs(t), k \in ReplicaKinds}
       [] nm \in {"sync", "unsync"} -> {Mk(nm, t.reps[k], "", "", k, 0) : k \in DOMAIN t.reps}
       [] OTHER -> {}

RECURSIVE Choose1(_, _)
Choose1(t, tries) ==
  IF tries = 0 THEN Mk("reset", 0, "", "", "", 0)
  ELSE LET c == {o \in Names2(Bag[R(1..Len(Bag))], t) : Legal(t, o)}
       IN IF c = {} THEN Choose1(t, tries - 1) ELSE R(c)

\* before a sequence ends everything that follows an environment is brought up to date
Choose(t, k) ==
  IF k % SeqLen = 0 THEN Mk("reset", 0, "", "", "", 0)
  ELSE IF k % SeqLen <= 5 /\ k % SeqLen > 0 /\ Cardinality(t.ex \cap Handles) < 3 THEN
       LET c == Names2("new", t) IN IF c = {} THEN Choose1(t, 20) ELSE R(c)
  ELSE Choose1(t, 20)

Show(x) == IF x = "" THEN "-" ELSE x
Line(op) == op.n \o " " \o ToString(op.e) \o " " \o Show(op.h) \o " " \o Show(op.g) \o " " \o Show(op.s) \o " " \o ToString(op.i)

Init == s = Init0 /\ n = 0 /\ out = ""
Next ==
  \E op \in {Choose(s, n)} :
    /\ PrintT("OP " \o Line(op))
    /\ out' = Line(op)
    /\ n' = IF op.n = "reset" THEN 1 ELSE n + 1
    /\ s' = (IF Legal(s, op) THEN Apply(s, op, GPick).st ELSE s)
Spec == Init /\ [][Next]_vars
Inv == UniqueIds(s) /\ FrameForest(s) /\ LinksInside(s) /\ Owned(s) /\ NoDeadLinks(s)
=============================================================================
