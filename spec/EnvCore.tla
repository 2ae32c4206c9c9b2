------------------------------ MODULE EnvCore ------------------------------
(* The environment of rock-slam/slam-envire as an abstract machine.            *)
(*                                                                             *)
(* Items are named by handles: "f.." frame nodes, "r1","r2" the root node of   *)
(* environment 1 and 2, "m.." cartesian maps (which are layers too), "l.."     *)
(* plain layers, "o.." operators.  A state is one record; every call of the    *)
(* public interface is a function from states to states (module-level operator *)
(* Apply), so that the same definitions serve model checking (MCEnv), the      *)
(* generation of call sequences (GenEnv) and the validation of traces recorded *)
(* from the real library (TraceEnv).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

None == ""
Ch(str, i) == SubSeq(str, i, i)
FirstCh(str) == IF Len(str) = 0 THEN "" ELSE Ch(str, 1)
LastCh(str) == IF Len(str) = 0 THEN "" ELSE Ch(str, Len(str))
IsPrefixStr(p, str) == Len(p) <= Len(str) /\ SubSeq(str, 1, Len(p)) = p
Digits == {"0","1","2","3","4","5","6","7","8","9"}
IsNumeral(str) == Len(str) > 0 /\ \A i \in 1..Len(str) : Ch(str, i) \in Digits
PosNumeral(str) == IsNumeral(str) /\ FirstCh(str) # "0"

ClassOf(h) == FirstCh(h)
IsFrame(h) == ClassOf(h) \in {"f", "r"}
IsMap(h)   == ClassOf(h) = "m"
IsLayer(h) == ClassOf(h) \in {"m", "l"}
IsOp(h)    == ClassOf(h) = "o"
IsRoot(h)  == ClassOf(h) = "r"

RootOf(e) == "r" \o ToString(e)
ReplicaKinds == {"pull", "proc", "synq", "syni", "ctx"}

(***************************************************************************)
(* State.                                                                  *)
(*   ex     handles of the objects that exist (constructed, not destroyed) *)
(*   held   handles the user holds a reference to                          *)
(*   env    handle -> environment it is attached to (0: none)              *)
(*   uid    handle -> unique id                                            *)
(*   val    handle -> version of its content                               *)
(*   ari    operator handle -> <<input arity, output arity>> (0: no limit) *)
(*   par    frame node -> its parent frame node or None                    *)
(*   mn     map -> frame node it is placed in or None                      *)
(*   lt     set of <<child layer, parent layer>>                           *)
(*   ins, outs  sets of <<operator, layer>>                                *)
(*   envs   environments that exist                                        *)
(*   pre    environment -> prefix of the ids it generates                  *)
(*   issued environment -> ids it has generated so far                     *)
(*   cnt    environment -> where its numbering stands; only a hint for the *)
(*          generation of sequences: any fresh id is acceptable            *)
(*   dirty, imm  layers marked dirty / immutable                           *)
(*   upd    operator -> number of times it has been run                    *)
(*   hs     event handler -> [env |-> environment or 0, filt |-> filter]   *)
(*   reps   replica kind -> environment it follows                         *)
(***************************************************************************)
EnvNames == {1, 2}

Init0 ==
  [ ex |-> {RootOf(e) : e \in EnvNames}, held |-> {},
    env |-> [h \in {RootOf(e) : e \in EnvNames} |-> IF h = "r1" THEN 1 ELSE 2],
    uid |-> [h \in {RootOf(e) : e \in EnvNames} |-> "/0"],
    val |-> [h \in {RootOf(e) : e \in EnvNames} |-> 0],
    ari |-> [h \in {} |-> <<0,0>>],
    par |-> [h \in {RootOf(e) : e \in EnvNames} |-> None],
    mn  |-> [h \in {} |-> None],
    lt |-> {}, ins |-> {}, outs |-> {},
    envs |-> EnvNames,
    pre |-> [e \in EnvNames |-> "/"],
    issued |-> [e \in EnvNames |-> {"/0"}],
    cnt |-> [e \in EnvNames |-> 1],
    dirty |-> {}, imm |-> {}, upd |-> [h \in {} |-> 0],
    hs |-> [k \in {} |-> [env |-> 0, filt |-> 0]],
    reps |-> [k \in {} |-> 0] ]

Items(s, e) == {h \in DOMAIN s.env : s.env[h] = e}
Ids(s, e) == {s.uid[h] : h \in Items(s, e)}
Attached(s, h) == h \in DOMAIN s.env /\ s.env[h] # 0
Children(s, f) == {c \in DOMAIN s.par : s.par[c] = f}
MapsOf(s, f) == {m \in DOMAIN s.mn : s.mn[m] = f}

RECURSIVE AncestorsRec(_, _, _)
AncestorsRec(s, f, acc) ==
  IF f = None \/ f \in acc THEN acc ELSE AncestorsRec(s, s.par[f], acc \cup {f})
\* f and everything above it
UpSet(s, f) == AncestorsRec(s, f, {})

RECURSIVE DescRec(_, _, _)
DescRec(s, frontier, acc) ==
  LET nxt == (UNION {Children(s, f) : f \in frontier}) \ acc
  IN IF nxt = {} THEN acc ELSE DescRec(s, nxt, acc \cup nxt)
\* f, everything below it and every map placed there
DownSet(s, f) == LET fs == DescRec(s, {f}, {f}) IN fs \cup UNION {MapsOf(s, g) : g \in fs}

RECURSIVE TopOf(_, _)
TopOf(s, f) == IF s.par[f] = None THEN f ELSE TopOf(s, s.par[f])

(***************************************************************************)
(* Identifiers.                                                            *)
(***************************************************************************)
\* the id an unattached item asks for when attached to e
WantedId(s, e, h) ==
  LET u == IF s.uid[h] = "" THEN s.pre[e] ELSE s.uid[h]
  IN IF FirstCh(u) # "/" THEN s.pre[e] \o u ELSE u
NeedsNumber(id) == LastCh(id) = "/"
\* would attaching h to e be refused
Clash(s, e, h) ==
  IF s.env[h] = e THEN TRUE
  ELSE IF s.env[h] # 0 THEN s.uid[h] \in Ids(s, e)
  ELSE LET w == WantedId(s, e, h) IN ~NeedsNumber(w) /\ w \in Ids(s, e)
\* is id one that e may issue for the stem w now
FreshId(s, e, w, id) ==
  /\ IsPrefixStr(w, id)
  /\ IsNumeral(SubSeq(id, Len(w) + 1, Len(id)))
  /\ id \notin Ids(s, e)
  /\ id \notin s.issued[e]

DigitVal(c) == CASE c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5
                 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9 [] OTHER -> 0
RECURSIVE NumVal(_)
NumVal(str) == IF Len(str) = 0 THEN 0 ELSE 10 * NumVal(SubSeq(str, 1, Len(str) - 1)) + DigitVal(LastCh(str))
RECURSIVE SuffixOf(_)
SuffixOf(str) == IF Len(str) = 0 \/ LastCh(str) = "/" THEN "" ELSE SuffixOf(SubSeq(str, 1, Len(str) - 1)) \o LastCh(str)
SuffixNum(str) == LET x == SuffixOf(str) IN IF IsNumeral(x) /\ Len(x) < 9 THEN NumVal(x) ELSE 0
\* the id the environment is expected to invent for h
Invented(s, e, h) ==
  LET w == WantedId(s, e, h)
      ks == {k \in (s.cnt[e] + 1)..(s.cnt[e] + 1 + Cardinality(Items(s, e))) : w \o ToString(k) \notin Ids(s, e)}
  IN w \o ToString(Min(ks))

NormPrefix(p) ==
  LET q == IF FirstCh(p) # "/" THEN "/" \o p ELSE p
  IN IF LastCh(q) # "/" THEN q \o "/" ELSE q

(***************************************************************************)
(* Primitive effects.                                                      *)
(***************************************************************************)
\* objects that nobody refers to any more are destroyed
Reap(s) ==
  LET dead == {h \in s.ex : s.env[h] = 0 /\ h \notin s.held}
  IN [s EXCEPT !.ex = @ \ dead]

Unlink(s, S) ==   \* drop every link that mentions an element of S
  [s EXCEPT
    !.par  = [f \in DOMAIN @ |-> IF f \in S \/ @[f] \in S THEN None ELSE @[f]],
    !.mn   = [m \in DOMAIN @ |-> IF m \in S \/ @[m] \in S THEN None ELSE @[m]],
    !.lt   = {x \in @ : x[1] \notin S /\ x[2] \notin S},
    !.ins  = {x \in @ : x[1] \notin S /\ x[2] \notin S},
    !.outs = {x \in @ : x[1] \notin S /\ x[2] \notin S}]

Detach(s, S) ==
  LET u == Unlink(s, S)
  IN [u EXCEPT !.env = [h \in DOMAIN @ |-> IF h \in S THEN 0 ELSE @[h]]]

\* attach h to e under id
AttachAs(s, e, h, id) ==
  LET w == WantedId(s, e, h)
      gen == s.env[h] = 0 /\ NeedsNumber(w)
      d == IF s.env[h] # 0 THEN Detach(s, {h}) ELSE s
  IN [d EXCEPT !.env[h] = e, !.uid[h] = id,
               !.issued[e] = IF gen THEN @ \cup {id} ELSE @,
               !.cnt[e] = IF gen THEN SuffixNum(id) ELSE @]

\* the id that results when the environment does not have to make one up
PlainId(s, e, h) == IF s.env[h] # 0 THEN s.uid[h] ELSE WantedId(s, e, h)
MustInvent(s, e, h) == s.env[h] = 0 /\ NeedsNumber(WantedId(s, e, h))

\* Pick(s, e, h) supplies invented ids: the trace (validation) or a counter (generation)
DoAttach(s, e, h, Pick(_, _, _)) ==
  AttachAs(s, e, h, IF MustInvent(s, e, h) THEN Pick(s, e, h) ELSE PlainId(s, e, h))

\* implicit attachment by a call that links h
Ensure(s, e, h, Pick(_, _, _)) == IF s.env[h] = 0 THEN DoAttach(s, e, h, Pick) ELSE s

InsOf(s, o) == {x[2] : x \in {y \in s.ins : y[1] = o}}
OutsOf(s, o) == {x[2] : x \in {y \in s.outs : y[1] = o}}
GensOf(s, l) == {x[1] : x \in {y \in s.outs : y[2] = l}}

(***************************************************************************)
(* Calls.  An operation is a record [n, e, h, g, s, i]: name, environment, *)
(* two handles, a string and a number.                                     *)
(***************************************************************************)
Ok(s) == [st |-> s, res |-> "ok"]
Throw(s) == [st |-> s, res |-> "throw"]

CanLink(s, e, h) ==   \* h is in e, or can be taken in by it
  h \in s.ex /\ (s.env[h] = e \/ (s.env[h] = 0 /\ ~Clash(s, e, h)))

Known(s, h) == h \in s.ex

\* one call that takes in two items at once is only used when their ids cannot collide
TwoNew(s, e, h, g) ==
  s.env[h] = 0 /\ s.env[g] = 0 => NeedsNumber(WantedId(s, e, h)) /\ NeedsNumber(WantedId(s, e, g))

\* Is the call one the interface allows in state s?  (Everything else is a
\* violated precondition: dead objects, objects of another environment, ...)
Legal(s, op) ==
  LET e == op.e  h == op.h  g == op.g IN
  CASE op.n = "new"   -> h \notin s.ex /\ ~IsRoot(h)
    [] op.n = "setid" -> Known(s, h) /\ ~IsRoot(h)
    [] op.n = "prefix" -> e \in s.envs /\ op.s # ""
    [] op.n = "attach" -> e \in s.envs /\ Known(s, h) /\ ~IsRoot(h)
    [] op.n = "attachm" -> e \in s.envs /\ Known(s, h) /\ IsMap(h) /\ ~Clash(s, e, h)
                           /\ (g = None \/ (Known(s, g) /\ IsFrame(g) /\ s.env[g] = e))
    [] op.n \in {"detach", "deep"} -> Known(s, h) /\ Attached(s, h) /\ DownSet(s, h) \cap {RootOf(x) : x \in EnvNames} = {}
    [] op.n = "drop" -> h \in s.held
    [] op.n = "hold" -> Known(s, h) /\ ~IsRoot(h) /\ h \notin s.held
    [] op.n = "addf" -> Known(s, g) /\ IsFrame(h) /\ IsFrame(g) /\ Attached(s, g) /\ g # h /\ ~IsRoot(h)
                        /\ CanLink(s, s.env[g], h) /\ h \notin UpSet(s, g)
    [] op.n = "remf" -> Known(s, g) /\ Known(s, h) /\ IsFrame(h) /\ IsFrame(g) /\ Attached(s, g) /\ s.env[h] = s.env[g]
    [] op.n = "addl" -> Known(s, g) /\ IsLayer(h) /\ IsLayer(g) /\ Attached(s, g) /\ g # h
                        /\ CanLink(s, s.env[g], h)
    [] op.n = "reml" -> Known(s, g) /\ Known(s, h) /\ IsLayer(h) /\ IsLayer(g) /\ Attached(s, g) /\ s.env[h] = s.env[g]
    [] op.n = "setf" -> e \in s.envs /\ IsMap(h) /\ IsFrame(g) /\ CanLink(s, e, h) /\ CanLink(s, e, g)
                        /\ TwoNew(s, e, h, g)
                        /\ (op.i = 1 => s.env[h] = e)
    [] op.n = "detf" -> e \in s.envs /\ Known(s, h) /\ Known(s, g) /\ IsMap(h) /\ IsFrame(g) /\ s.env[h] = e /\ s.env[g] = e
    [] op.n \in {"addin", "addout"} ->
         Known(s, h) /\ IsOp(h) /\ IsLayer(g) /\ e \in s.envs /\ CanLink(s, e, h) /\ CanLink(s, e, g)
         /\ (op.i = 1 => s.env[h] = e)
         /\ TwoNew(s, e, h, g)
    [] op.n \in {"setin", "setout"} ->
         Known(s, h) /\ IsOp(h) /\ IsLayer(g) /\ e \in s.envs /\ s.env[h] = e /\ CanLink(s, e, g)
    [] op.n \in {"remin", "remout"} -> Known(s, h) /\ Known(s, g) /\ IsOp(h) /\ IsLayer(g) /\ Attached(s, h) /\ s.env[h] = s.env[g]
    [] op.n \in {"remins", "remouts"} -> Known(s, h) /\ IsOp(h) /\ Attached(s, h)
    [] op.n = "detop" -> Known(s, h) /\ IsLayer(h) /\ Attached(s, h)
                         /\ Cardinality(GensOf(s, h)) <= 1
    [] op.n \in {"dirty", "clean", "immut"} -> Known(s, h) /\ IsLayer(h)
    [] op.n = "upd" -> Known(s, h) /\ IsLayer(h) /\ Attached(s, h) /\ Cardinality(GensOf(s, h)) <= 1
    [] op.n = "touch" -> Known(s, h) /\ op.i \in 0..104
    [] op.n = "updops" -> e \in s.envs
    [] op.n = "kill" -> e \in s.envs
    [] op.n = "reg" -> e \in s.envs /\ op.s # "" /\ (op.s \in DOMAIN s.hs => s.hs[op.s].env = 0 /\ s.hs[op.s].filt = op.i)
    [] op.n = "unreg" -> op.s \in DOMAIN s.hs /\ s.hs[op.s].env = e /\ e \in s.envs
    [] op.n = "mkrep" -> e \in s.envs /\ op.s \in ReplicaKinds /\ op.s \notin DOMAIN s.reps
    [] op.n = "sync" -> op.s \in DOMAIN s.reps /\ s.reps[op.s] = e
    [] op.n = "all" -> e \in s.envs
    [] op.n = "unsync" -> op.s \in DOMAIN s.reps /\ s.reps[op.s] = e /\ op.s # "pull"
    [] op.n = "reload" -> /\ e \in s.envs
                          /\ \A k \in DOMAIN s.hs : s.hs[k].env # e
                          /\ \A k \in DOMAIN s.reps : s.reps[k] # e
    [] op.n = "reset" -> TRUE
    [] OTHER -> FALSE

HandleFun(s, h, op) ==   \* a new object (the handle may have named an object that is gone)
  [s EXCEPT !.ex = @ \cup {h},
            !.held = @ \cup {h},
            !.dirty = @ \ {h}, !.imm = @ \ {h},
            !.env = (h :> 0) @@ @, !.uid = (h :> op.s) @@ @,
            !.val = (h :> IF IsOp(h) THEN 0 ELSE op.i) @@ @,
            !.par = IF IsFrame(h) THEN (h :> None) @@ @ ELSE @,
            !.mn = IF IsMap(h) THEN (h :> None) @@ @ ELSE @,
            !.upd = IF IsOp(h) THEN (h :> 0) @@ @ ELSE @,
            !.ari = IF IsOp(h) THEN (h :> <<op.i % 10, op.i \div 10>>) @@ @ ELSE @]

LimitHit(s, o, which) ==
  LET n == s.ari[o][which]
      c == Cardinality(IF which = 1 THEN InsOf(s, o) ELSE OutsOf(s, o))
  IN n # 0 /\ c >= n

Apply(s, op, Pick(_, _, _)) ==
  LET e == op.e  h == op.h  g == op.g IN
  CASE op.n = "new"   -> Ok(HandleFun(s, h, op))
    [] op.n = "setid" -> IF Attached(s, h) THEN Throw(s) ELSE Ok([s EXCEPT !.uid[h] = op.s])
    [] op.n = "prefix" -> Ok([s EXCEPT !.pre[e] = NormPrefix(op.s)])
    [] op.n = "attach" ->
         IF Clash(s, e, h)
         THEN Throw(IF s.env[h] = 0 THEN [s EXCEPT !.uid[h] = WantedId(s, e, h)] ELSE s)
         ELSE Ok(Reap(DoAttach(s, e, h, Pick)))
    [] op.n = "attachm" ->
         LET a == DoAttach(s, e, h, Pick)
         IN Ok(Reap([a EXCEPT !.mn[h] = IF g = None THEN RootOf(e) ELSE g]))
    [] op.n = "detach" ->
         \* op.i odd: the caller keeps the returned reference
         LET d == Detach(s, {h}) IN Ok(Reap(IF op.i % 2 = 1 THEN [d EXCEPT !.held = @ \cup {h}] ELSE d))
    [] op.n = "deep" ->
         LET S == IF IsFrame(h) THEN DownSet(s, h) ELSE {h}
             d == Detach(s, S)
         IN Ok(Reap(IF op.i % 2 = 1 THEN [d EXCEPT !.held = @ \cup {h}] ELSE d))
    [] op.n = "drop" -> Ok(Reap([s EXCEPT !.held = @ \ {h}]))
    [] op.n = "hold" -> Ok([s EXCEPT !.held = @ \cup {h}])
    [] op.n = "addf" -> Ok([Ensure(s, s.env[g], h, Pick) EXCEPT !.par[h] = g])
    [] op.n = "remf" -> Ok(IF s.par[h] = g THEN [s EXCEPT !.par[h] = None] ELSE s)
    [] op.n = "addl" -> Ok([Ensure(s, s.env[g], h, Pick) EXCEPT !.lt = @ \cup {<<h, g>>}])
    [] op.n = "reml" -> Ok([s EXCEPT !.lt = @ \ {<<h, g>>}])
    [] op.n = "setf" ->
         LET a == Ensure(s, e, g, Pick)  b == Ensure(a, e, h, Pick)
         IN Ok([b EXCEPT !.mn[h] = g])
    [] op.n = "detf" -> Ok(IF s.mn[h] = g THEN [s EXCEPT !.mn[h] = None] ELSE s)
    [] op.n = "addin" ->
         IF op.i = 1 /\ LimitHit(s, h, 1) THEN Throw(s)
         ELSE LET a == Ensure(s, e, h, Pick) b == Ensure(a, e, g, Pick) IN Ok([b EXCEPT !.ins = @ \cup {<<h, g>>}])
    [] op.n = "addout" ->
         IF op.i = 1 /\ LimitHit(s, h, 2) THEN Throw(s)
         ELSE LET a == Ensure(s, e, h, Pick) b == Ensure(a, e, g, Pick) IN Ok([b EXCEPT !.outs = @ \cup {<<h, g>>}])
    [] op.n = "setin" ->
         LET b == Ensure(s, e, g, Pick) IN Ok([b EXCEPT !.ins = {x \in @ : x[1] # h} \cup {<<h, g>>}])
    [] op.n = "setout" ->
         LET b == Ensure(s, e, g, Pick) IN Ok([b EXCEPT !.outs = {x \in @ : x[1] # h} \cup {<<h, g>>}])
    [] op.n = "remin" -> Ok([s EXCEPT !.ins = @ \ {<<h, g>>}])
    [] op.n = "remout" -> Ok([s EXCEPT !.outs = @ \ {<<h, g>>}])
    [] op.n = "remins" -> Ok([s EXCEPT !.ins = {x \in @ : x[1] # h}])
    [] op.n = "remouts" -> Ok([s EXCEPT !.outs = {x \in @ : x[1] # h}])
    [] op.n = "detop" -> Ok([s EXCEPT !.outs = {x \in @ : x[2] # h}])
    [] op.n = "touch" -> Ok([s EXCEPT !.val[h] = op.i])
    [] op.n = "dirty" -> Ok([s EXCEPT !.dirty = @ \cup {h}])
    [] op.n = "clean" -> Ok([s EXCEPT !.dirty = @ \ {h}])
    [] op.n = "immut" -> Ok([s EXCEPT !.imm = @ \cup {h}])
    [] op.n = "upd" ->
         Ok([s EXCEPT !.dirty = @ \ {h},
                      !.upd = [o \in DOMAIN @ |-> IF h \in s.dirty /\ o \in GensOf(s, h) THEN @[o] + 1 ELSE @[o]]])
    [] op.n = "updops" -> Ok([s EXCEPT !.upd = [o \in DOMAIN @ |-> IF s.env[o] = e THEN @[o] + 1 ELSE @[o]]])
    [] op.n = "kill" ->
         LET d == Detach(s, Items(s, e))
         IN Ok(Reap([d EXCEPT !.envs = @ \ {e},
                              !.hs = [k \in DOMAIN @ |-> IF @[k].env = e THEN [@[k] EXCEPT !.env = 0] ELSE @[k]],
                              !.reps = [k \in {x \in DOMAIN @ : @[x] # e} |-> @[k]]]))
    [] op.n = "reg" -> Ok([s EXCEPT !.hs = (op.s :> [env |-> e, filt |-> op.i]) @@ @])
    [] op.n = "unreg" -> Ok([s EXCEPT !.hs[op.s].env = 0])
    [] op.n = "mkrep" -> Ok([s EXCEPT !.reps = @ @@ (op.s :> e)])
    [] op.n \in {"sync", "all"} -> Ok(s)
    [] op.n = "unsync" -> Ok([s EXCEPT !.reps = [k \in DOMAIN @ \ {op.s} |-> @[k]]])
    [] op.n = "reload" ->
         \* written to disk, destroyed, read back: the same scene, nobody holds anything in it;
         \* dirty marks and run counters are not part of a stored scene, nor is the memory of
         \* ids that were issued to items since removed
         LET its == Items(s, e) \ {RootOf(e)}
         IN Ok([s EXCEPT !.held = @ \ its, !.dirty = @ \ its,
                         !.upd = [o \in DOMAIN @ |-> IF o \in its THEN 0 ELSE @[o]],
                         !.issued[e] = Ids(s, e),
                         !.cnt[e] = 1 + Max({SuffixNum(x) : x \in Ids(s, e)})])
    [] op.n = "reset" -> Ok(Init0)

(***************************************************************************)
(* Properties of the state.                                                *)
(***************************************************************************)
\* C01: every attached item is found under exactly its own, absolute, finished id
UniqueIds(s) ==
  \A e \in EnvNames :
    /\ Cardinality(Ids(s, e)) = Cardinality(Items(s, e))
    /\ \A h \in Items(s, e) : FirstCh(s.uid[h]) = "/" /\ (LastCh(s.uid[h]) # "/")
\* C02: the frame nodes form a forest inside one environment
FrameForest(s) ==
  \A f \in DOMAIN s.par :
    s.par[f] # None =>
      /\ s.env[f] # 0 /\ s.env[s.par[f]] = s.env[f]
      /\ f \notin UpSet(s, s.par[f])
\* C03/C12: links only between items of the same environment
LinksInside(s) ==
  /\ \A m \in DOMAIN s.mn : s.mn[m] # None => s.env[m] # 0 /\ s.env[s.mn[m]] = s.env[m]
  /\ \A x \in s.lt \cup s.ins \cup s.outs : s.env[x[1]] # 0 /\ s.env[x[1]] = s.env[x[2]]
\* C04: an object exists exactly as long as someone owns it
Owned(s) == \A h \in DOMAIN s.env : (h \in s.ex) = (s.env[h] # 0 \/ h \in s.held)
NoDeadLinks(s) ==
  \A e \in EnvNames : e \notin s.envs => Items(s, e) = {}
=============================================================================
