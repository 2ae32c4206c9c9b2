------------------------------ MODULE TraceEnv -----------------------------
(* Is a trace recorded from the real library a behaviour of EnvCore?          *)
(* The facets that are compared are chosen by the property being decided.     *)
EXTENDS EnvCore, Json, IOUtils

CONSTANT Facets
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES s, l, mir, skip
vars == <<s, l, mir, skip>>

Has(r, f) == f \in DOMAIN r
SetOf(q) == Range(q)
NoDup(q) == Len(q) = Cardinality(Range(q))
\* q lists exactly the elements of S, each once
Lists(q, S) == Range(q) = S /\ Len(q) = Cardinality(S)

Bad(facet, what, x) == PrintT(<<"MISMATCH", facet, what, "line", l, x>>) /\ FALSE
Check(facet, what, cond, x) ==
  IF facet \in Facets THEN (IF cond THEN TRUE ELSE Bad(facet, what, x)) ELSE TRUE

OpOf(t) == [n |-> t.n, e |-> t.e, h |-> t.h, g |-> t.g, s |-> t.s, i |-> t.i]

---------------------------------------------------------------------------
Lab(st, h) == IF st.val[h] = 0 THEN "" ELSE "v" \o ToString(st.val[h])
KindOf(st, h) ==
  IF IsOp(h) THEN "o" \o ToString(st.ari[h][2]) \o ToString(st.ari[h][1])
  ELSE ClassOf(h)
Bit(b) == IF b THEN 1 ELSE 0

ObsObj(st, o) ==
  LET h == o.h  e == st.env[h] IN
  /\ Check("life", "attached to", o.env = e /\ o.att = Bit(e # 0), <<h, o.env, e>>)
  /\ Check("ids", "unique id", o.uid = st.uid[h], <<h, o.uid, st.uid[h]>>)
  /\ Check("content", "content", o.val = st.val[h] /\ o.lab = Lab(st, h), <<h, o.val, o.lab, st.val[h]>>)
  /\ IsLayer(h) => /\ Check("content", "immutable", o.imm = Bit(h \in st.imm), h)
                   /\ Check("ops", "dirty", o.dirty = Bit(h \in st.dirty), h)
  /\ IsOp(h) => Check("ops", "runs", o.upd = st.upd[h], <<h, o.upd, st.upd[h]>>)
  /\ (e # 0 /\ IsFrame(h)) =>
       /\ Check("frames", "parent", o.par = st.par[h] /\ o.par2 = st.par[h], <<h, o.par, o.par2, st.par[h]>>)
       /\ Check("frames", "children", Lists(o.kids, Children(st, h)) /\ Lists(o.kids2, Children(st, h)), <<h, o.kids, o.kids2>>)
       /\ Check("frames", "root", o.root = TopOf(st, h) /\ o.isroot = Bit(st.par[h] = None), <<h, o.root>>)
       /\ Check("layers", "maps of frame", Lists(o.maps, MapsOf(st, h)) /\ Lists(o.maps2, MapsOf(st, h)), <<h, o.maps>>)
  /\ (e # 0 /\ IsLayer(h)) =>
       LET ps == {x[2] : x \in {y \in st.lt : y[1] = h}}
           ks == {x[1] : x \in {y \in st.lt : y[2] = h}}
           gens == GensOf(st, h)
           from == UNION {OutsOf(st, x) : x \in {y[1] : y \in {z \in st.ins : z[2] = h}}}
       IN
       /\ Check("layers", "parents", Lists(o.lpar, ps), <<h, o.lpar, ps>>)
       /\ Check("layers", "children", Lists(o.lkids, ks) /\ Lists(o.lkids2, ks), <<h, o.lkids, ks>>)
       /\ Check("ops", "generator", /\ o.gen = o.gen2 /\ o.isgen = Bit(gens # {})
                                    /\ (IF gens = {} THEN o.gen = "" ELSE o.gen \in gens), <<h, o.gen, gens>>)
       /\ Check("ops", "generated from", SetOf(o.from) = from /\ SetOf(o.fromm) = {x \in from : IsMap(x)}, <<h, o.from, from>>)
  /\ (e # 0 /\ IsMap(h)) =>
       Check("layers", "frame of map", o.fn = st.mn[h] /\ o.fn2 = st.mn[h], <<h, o.fn, o.fn2, st.mn[h]>>)
  /\ (e # 0 /\ IsOp(h)) =>
       LET im == {x \in InsOf(st, h) : IsMap(x)}  om == {x \in OutsOf(st, h) : IsMap(x)} IN
       /\ Check("ops", "inputs", Lists(o.ins, InsOf(st, h)), <<h, o.ins, InsOf(st, h)>>)
       /\ Check("ops", "outputs", Lists(o.outs, OutsOf(st, h)), <<h, o.outs, OutsOf(st, h)>>)
       /\ Check("ops", "typed access", /\ (IF Cardinality(im) = 1 THEN o.im \in im ELSE o.im = "!")
                                       /\ (IF Cardinality(om) = 1 THEN o.om \in om ELSE o.om = "!"), <<h, o.im, o.om>>)

Holder1(st, e, id) == LET c == {h \in Items(st, e) : st.uid[h] = id} IN IF c = {} THEN "" ELSE CHOOSE h \in c : TRUE

ObsEnv(st, v) ==
  LET e == v.e  its == Items(st, e) IN
  /\ Check("ids", "items listed", Lists(v.items, its), <<e, v.items, its>>)
  /\ Check("life", "items listed", Lists(v.items, its), <<e, v.items, its>>)
  /\ Check("ids", "items by class", /\ Lists(v.frames, {h \in its : IsFrame(h)}) /\ Lists(v.layers, {h \in its : IsLayer(h)})
                                    /\ Lists(v.cmaps, {h \in its : IsMap(h)}) /\ Lists(v.ops, {h \in its : IsOp(h)}), e)
  /\ Check("ids", "prefix", v.pre = st.pre[e], <<e, v.pre, st.pre[e]>>)
  /\ Check("ids", "only item", LET ms == {h \in its : IsMap(h)} IN IF Cardinality(ms) = 1 THEN v.only \in ms ELSE v.only = "!", v.only)
  /\ Check("ids", "lookup",
       \A k \in 1..Len(v.find) :
         LET f == v.find[k]  x == Holder1(st, e, f[1]) IN f[2] = x /\ f[3] = (IF x # "" /\ IsLayer(x) THEN x ELSE ""),
       <<e, v.find>>)

Obs(st, o) ==
  LET hs == {x.h : x \in Range(o.objs)} IN
  /\ IF hs = {h \in st.ex : IsRoot(h) => st.env[h] \in st.envs} THEN TRUE
     ELSE Bad("life", "objects alive", <<hs, st.ex>>)
  /\ \A k \in 1..Len(o.objs) : ObsObj(st, o.objs[k])
  /\ \A k \in 1..Len(o.envs) : ObsEnv(st, o.envs[k])

---------------------------------------------------------------------------
(* Event handlers.  Each handler's events are folded into a mirror of the    *)
(* environment; an event that does not apply to the mirror is an error.      *)
Empty == [items |-> {}, fr |-> {}, la |-> {}, ma |-> {}, root |-> "", ok |-> TRUE, upd |-> <<>>]
Rels(m) == m.fr \cup m.la \cup m.ma
Passes(f, ty, o) == CASE f = 1 -> ty = "ITEM" [] f = 2 -> o # "UPDATE" [] f = 3 -> ty # "ITEM" [] OTHER -> TRUE

Fold1(f, m, ev) ==
  LET ty == ev[1]  o == ev[2]  a == ev[3]  b == ev[4]
      both == f = 3 \/ {a, b} \subseteq m.items
      fail == [m EXCEPT !.ok = FALSE]
  IN
  IF ~m.ok \/ ~Passes(f, ty, o) THEN fail
  ELSE IF ev[5] # 1 THEN fail     \* what a callback is told about is attached at that moment
  ELSE CASE ty = "ITEM" /\ o = "ADD" -> IF a \in m.items \/ a = "?" THEN fail ELSE [m EXCEPT !.items = @ \cup {a}]
         [] ty = "ITEM" /\ o = "REMOVE" ->
              IF a \notin m.items \/ (\E x \in Rels(m) : a \in {x[1], x[2]}) THEN fail ELSE [m EXCEPT !.items = @ \ {a}]
         [] ty = "ITEM" /\ o = "UPDATE" -> IF a \notin m.items THEN fail ELSE [m EXCEPT !.upd = Append(@, a)]
         [] ty = "FTREE" /\ o = "ADD" ->    \* parent, child
              IF ~both \/ (\E x \in m.fr : x[1] = b) THEN fail ELSE [m EXCEPT !.fr = @ \cup {<<b, a>>}]
         [] ty = "FTREE" /\ o = "REMOVE" -> IF <<b, a>> \notin m.fr THEN fail ELSE [m EXCEPT !.fr = @ \ {<<b, a>>}]
         [] ty = "LTREE" /\ o = "ADD" -> IF ~both \/ <<b, a>> \in m.la THEN fail ELSE [m EXCEPT !.la = @ \cup {<<b, a>>}]
         [] ty = "LTREE" /\ o = "REMOVE" -> IF <<b, a>> \notin m.la THEN fail ELSE [m EXCEPT !.la = @ \ {<<b, a>>}]
         [] ty = "FNODE" /\ o = "ADD" ->    \* map, node
              IF ~both \/ (\E x \in m.ma : x[1] = a) THEN fail ELSE [m EXCEPT !.ma = @ \cup {<<a, b>>}]
         [] ty = "FNODE" /\ o = "REMOVE" -> IF <<a, b>> \notin m.ma THEN fail ELSE [m EXCEPT !.ma = @ \ {<<a, b>>}]
         [] ty = "ROOT" /\ o = "ADD" -> IF m.root # "" THEN fail ELSE [m EXCEPT !.root = a]
         [] ty = "ROOT" /\ o = "REMOVE" -> IF m.root # a THEN fail ELSE [m EXCEPT !.root = ""]
         [] OTHER -> fail

RECURSIVE FoldEv(_, _, _, _)
FoldEv(f, m, evs, i) == IF i > Len(evs) THEN m ELSE FoldEv(f, Fold1(f, m, evs[i]), evs, i + 1)

Want(st, e, f, live) ==   \* what a handler with filter f should know about e
  LET its == IF live THEN Items(st, e) ELSE {}
      fr == {<<c, st.par[c]>> : c \in {x \in its : IsFrame(x) /\ st.par[x] # None}}
      la == {x \in st.lt : x[1] \in its}
      ma == {<<m, st.mn[m]>> : m \in {x \in its : IsMap(x) /\ st.mn[x] # None}}
  IN [items |-> IF f = 3 THEN {} ELSE its, fr |-> IF f = 1 THEN {} ELSE fr, la |-> IF f = 1 THEN {} ELSE la,
      ma |-> IF f = 1 THEN {} ELSE ma]

\* items whose modification has to be announced by op, with multiplicity
Updates(st, op, e, f) ==
  IF f \in {2, 3} THEN <<>>
  ELSE CASE op.n \in {"touch", "immut"} /\ st.env[op.h] = e -> <<op.h>>
         [] op.n = "updops" /\ op.e = e ->
              LET outs == SetToSeq({x \in st.outs : st.env[x[1]] = e}) IN [i \in 1..Len(outs) |-> outs[i][2]]
         [] OTHER -> <<>>
SameBag(p, q) == \A x \in Range(p) \cup Range(q) :
                   Cardinality({i \in 1..Len(p) : p[i] = x}) = Cardinality({i \in 1..Len(q) : q[i] = x})

EvOf(t, k) == LET c == {i \in 1..Len(t.ev) : t.ev[i][1] = k} IN IF c = {} THEN <<>> ELSE t.ev[CHOOSE i \in c : TRUE][2]

EvCheck(st, st2, op, t, k, m2) ==
  LET was == k \in DOMAIN st.hs /\ st.hs[k].env # 0
      f == st2.hs[k].filt
      now == st2.hs[k].env
      e == IF was THEN st.hs[k].env ELSE now
      w == Want(st2, e, f, now # 0)
      evs == EvOf(t, k)
  IN
  /\ Check("mirror", "event does not apply", m2.ok, <<k, evs>>)
  /\ Check("mirror", "items known to handler", m2.items = w.items, <<k, evs, m2.items, w.items>>)
  /\ Check("mirror", "frame tree known to handler", m2.fr = w.fr, <<k, evs, m2.fr, w.fr>>)
  /\ Check("mirror", "layer tree known to handler", m2.la = w.la, <<k, evs, m2.la, w.la>>)
  /\ Check("mirror", "map placement known to handler", m2.ma = w.ma, <<k, evs, m2.ma, w.ma>>)
  /\ Check("mirror", "root known to handler",
           f = 1 \/ op.n = "kill" \/ m2.root = (IF now # 0 THEN RootOf(e) ELSE ""), <<k, evs>>)
  /\ Check("deliver", "silent when not registered", (~was /\ now = 0) => evs = <<>>, <<k, evs>>)
  /\ Check("deliver", "updates", op.n \in {"upd"} \/ (op.n = "reg" /\ op.s = k) \/ SameBag(m2.upd, IF was THEN Updates(st, op, e, f) ELSE <<>>), <<k, evs>>)
  /\ Check("deliver", "filter", \A i \in 1..Len(evs) : Passes(f, evs[i][1], evs[i][2]), <<k, evs>>)
  /\ Check("deliver", "same events for all handlers",
       \A j \in DOMAIN st.hs : (was /\ st.hs[j].env = e /\ st.hs[j].filt = f /\ op.n \notin {"reg", "unreg"}) => EvOf(t, j) = evs,
       <<k, evs>>)
  /\ Check("deliver", "others undisturbed by registration",
       (op.n \in {"reg", "unreg"} /\ op.s # k) => evs = <<>>, <<k, evs>>)

---------------------------------------------------------------------------
(* Replicas and stored scenes: equal to the source up to object identity.     *)
Proj(st, e) ==
  LET its == Items(st, e) IN
  [items |-> {<<st.uid[h], KindOf(st, h), st.val[h], Lab(st, h), Bit(h \in st.imm), 1>> : h \in its},
   fr |-> {<<st.uid[c], st.uid[st.par[c]]>> : c \in {x \in its : IsFrame(x) /\ st.par[x] # None}},
   la |-> {<<st.uid[x[1]], st.uid[x[2]]>> : x \in {y \in st.lt : y[1] \in its}},
   ma |-> {<<st.uid[m], st.uid[st.mn[m]]>> : m \in {x \in its : IsMap(x) /\ st.mn[x] # None}}]
NormItem(x) == IF x[1] = "/0" THEN <<x[1], "r", x[3], x[4], x[5], x[6]>> ELSE x
RepOk(p, w) ==
  /\ Lists([i \in 1..Len(p.items) |-> NormItem(p.items[i])], w.items)
  /\ Lists(p.fr, w.fr) /\ Lists(p.la, w.la) /\ Lists(p.ma, w.ma)
\* after a follower has been unregistered only its own root node is left
Gone(p) == Len(p.items) = 1 /\ p.items[1][1] = "/0" /\ p.fr = <<>> /\ p.la = <<>> /\ p.ma = <<>>

---------------------------------------------------------------------------
Init == s = Init0 /\ l = 1 /\ mir = [k \in {} |-> Empty] /\ skip = FALSE

Step(t) ==
  LET op == OpOf(t) IN
  /\ IF t.res # "crash" THEN TRUE ELSE Bad("result", "the library failed during a legal call", op)
  /\ LET TPick(st, e, h) == IF h = t.h THEN t.idh ELSE t.idg
         r == Apply(s, op, TPick)
         \* a refused attachment may or may not have completed the id of the unattached item
         loose == op.n = "attach" /\ r.res = "throw" /\ s.env[op.h] = 0 /\ t.idh \in {s.uid[op.h], WantedId(s, op.e, op.h)}
         st2 == IF loose THEN [r.st EXCEPT !.uid[op.h] = t.idh] ELSE r.st
         taken == {x \in {op.h, op.g} \cap DOMAIN s.env : s.env[x] = 0 /\ st2.env[x] # 0 /\ MustInvent(s, st2.env[x], x)}
         ks == IF op.n = "reset" THEN {} ELSE DOMAIN st2.hs
         base == [k \in ks |-> IF k \in DOMAIN mir THEN [mir[k] EXCEPT !.upd = <<>>] ELSE Empty]
         mir2 == IF Has(t, "ev") THEN [k \in ks |-> FoldEv(st2.hs[k].filt, base[k], EvOf(t, k), 1)] ELSE base
     IN
     /\ IF t.res = r.res THEN TRUE ELSE Bad("result", "result of the call", <<op, t.res, r.res>>)
     /\ \A x \in taken : Check("ids", "generated id", FreshId(s, st2.env[x], WantedId(s, st2.env[x], x), IF x = t.h THEN t.idh ELSE t.idg),
                               <<x, t.idh, t.idg>>)
     /\ Check("life", "returned object", ~Has(t, "badret") \/ op.n = "detop", op)
     /\ Check("ops", "detached from operator", ~Has(t, "badret") \/ op.n # "detop", op)
     /\ Check("life", "object outlives its environment", ~Has(t, "leak"), op)
     /\ Has(t, "ev") /\ op.n # "reset" => \A k \in ks : EvCheck(s, st2, op, t, k, mir2[k])
     /\ Has(t, "rep") => \A i \in 1..Len(t.rep) :
          Check("replica", "replica differs",
                IF op.n = "unsync" THEN Gone(t.rep[i]) ELSE RepOk(t.rep[i], Proj(st2, op.e)),
                <<op, i, t.rep[i], IF op.n = "unsync" THEN <<>> ELSE Proj(st2, op.e)>>)
     /\ Has(t, "obs") => Obs(st2, t.obs)
     /\ s' = st2
     /\ mir' = [k \in ks |-> IF st2.hs[k].env = 0 THEN Empty ELSE mir2[k]]

\* a call that is not legal in the state reached (the real numbering may differ from the
\* generator's): the rest of that sequence says nothing
Next ==
  /\ l <= Len(Trace)
  /\ LET t == Trace[l]  dead == skip /\ t.n # "reset" IN
     CASE t.n = "end" -> PrintT(<<"ACCEPTED", l>>) /\ UNCHANGED <<s, mir, skip>>
       [] t.n # "end" /\ (dead \/ ~Legal(s, OpOf(t))) ->
            /\ (IF dead THEN TRUE ELSE PrintT(<<"ILLEGAL", l, OpOf(t)>>))
            /\ skip' = TRUE /\ UNCHANGED <<s, mir>>
       [] OTHER -> Step(t) /\ skip' = FALSE
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Inv == UniqueIds(s) /\ FrameForest(s) /\ LinksInside(s) /\ Owned(s) /\ NoDeadLinks(s)
=============================================================================
