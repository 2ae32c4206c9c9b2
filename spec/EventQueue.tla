----------------------------- MODULE EventQueue -----------------------------
(* The queue in which an event handler collects the changes of an environment *)
(* until they are applied somewhere else: every new event is compared with    *)
(* every queued one (ignore / invalidate the old one / both cancel), and what *)
(* is left is replayed in order.  The design property: at any moment,         *)
(* replaying the queue on the state reached by the last flush gives exactly   *)
(* the present state of the source.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Frames, Maps, Layers, MaxVal, MaxQueue
VARIABLES src, rep, q
vars == <<src, rep, q>>
None == ""
Ids == Frames \cup Maps \cup Layers
Empty == [at |-> {}, val |-> [x \in Ids |-> 0], par |-> [f \in Frames |-> None], mn |-> [m \in Maps |-> None], lt |-> {}]

Ev(t, o, a, b, v) == [t |-> t, o |-> o, a |-> a, b |-> b, v |-> v]

\* effect of a new event on a queued one: <<result, operation of the new event afterwards>>
Merge(n, x) ==
  LET same == n.t = x.t /\ n.a = x.a /\ n.b = x.b IN
  CASE same /\ n.o = x.o -> <<"INVALIDATE", n.o>>
    [] same /\ n.t = "ITEM" /\ n.o = "ADD" /\ x.o = "REMOVE" -> <<"INVALIDATE", "UPDATE">>
    [] same /\ ((n.o = "REMOVE" /\ x.o = "ADD") \/ (n.o = "ADD" /\ x.o = "REMOVE")) -> <<"CANCEL", n.o>>
    [] same /\ n.o = "REMOVE" /\ x.o = "UPDATE" -> <<"INVALIDATE", n.o>>
    [] OTHER -> <<"IGNORE", n.o>>

RECURSIVE Scan(_, _, _, _, _)
Scan(n, queue, i, out, valid) ==
  IF i > Len(queue) THEN (IF valid THEN Append(out, n) ELSE out)
  ELSE LET r == Merge(n, queue[i]) IN
       Scan([n EXCEPT !.o = r[2]], queue, i + 1,
            IF r[1] = "IGNORE" THEN Append(out, queue[i]) ELSE out,
            valid /\ r[1] # "CANCEL")
Put(queue, n) == Scan(n, queue, 1, <<>>, TRUE)
RECURSIVE PutAll(_, _)
PutAll(queue, evs) == IF evs = <<>> THEN queue ELSE PutAll(Put(queue, Head(evs)), Tail(evs))

\* applying one event to a replica
Detach1(s, a) ==
  [s EXCEPT !.at = @ \ {a}, !.val[a] = 0,
     !.par = [f \in Frames |-> IF f = a \/ @[f] = a THEN None ELSE @[f]],
     !.mn = [m \in Maps |-> IF m = a \/ @[m] = a THEN None ELSE @[m]],
     !.lt = {x \in @ : a \notin {x[1], x[2]}}]
Apply1(s, e) ==
  LET both == {e.a, e.b} \subseteq s.at IN
  CASE e.t = "ITEM" /\ e.o \in {"ADD", "UPDATE"} -> [s EXCEPT !.at = @ \cup {e.a}, !.val[e.a] = e.v]
    [] e.t = "ITEM" /\ e.o = "REMOVE" -> IF e.a \in s.at THEN Detach1(s, e.a) ELSE s
    [] e.t = "FTREE" /\ e.o = "ADD" -> IF both THEN [s EXCEPT !.par[e.b] = e.a] ELSE s
    [] e.t = "FTREE" /\ e.o = "REMOVE" -> IF both /\ s.par[e.b] = e.a THEN [s EXCEPT !.par[e.b] = None] ELSE s
    [] e.t = "FNODE" /\ e.o = "ADD" -> IF both THEN [s EXCEPT !.mn[e.a] = e.b] ELSE s
    [] e.t = "FNODE" /\ e.o = "REMOVE" -> IF both /\ s.mn[e.a] = e.b THEN [s EXCEPT !.mn[e.a] = None] ELSE s
    [] e.t = "LTREE" /\ e.o = "ADD" -> IF both THEN [s EXCEPT !.lt = @ \cup {<<e.b, e.a>>}] ELSE s
    [] e.t = "LTREE" /\ e.o = "REMOVE" -> [s EXCEPT !.lt = @ \ {<<e.b, e.a>>}]
RECURSIVE ApplyAll(_, _)
ApplyAll(s, queue) == IF queue = <<>> THEN s ELSE ApplyAll(Apply1(s, Head(queue)), Tail(queue))

\* the source
RECURSIVE Up(_, _, _)
Up(s, f, acc) == IF f = None \/ f \in acc THEN acc ELSE Up(s, s.par[f], acc \cup {f})
RelEvents(s, a) ==
  SetToSeq({Ev("FTREE", "REMOVE", s.par[f], f, 0) : f \in {g \in Frames : s.par[g] # None /\ a \in {g, s.par[g]}}})
  \o SetToSeq({Ev("LTREE", "REMOVE", x[2], x[1], 0) : x \in {y \in s.lt : a \in {y[1], y[2]}}})
  \o SetToSeq({Ev("FNODE", "REMOVE", m, s.mn[m], 0) : m \in {k \in Maps : s.mn[k] # None /\ a \in {k, s.mn[k]}}})
Do(s2, evs) == src' = s2 /\ q' = PutAll(q, evs) /\ Len(PutAll(q, evs)) <= MaxQueue /\ UNCHANGED rep

Attach(a) == a \notin src.at /\ \E v \in 1..MaxVal :
  Do([src EXCEPT !.at = @ \cup {a}, !.val[a] = v], <<Ev("ITEM", "ADD", a, None, v)>>)
Detach(a) == a \in src.at /\ Do(Detach1(src, a), RelEvents(src, a) \o <<Ev("ITEM", "REMOVE", a, None, 0)>>)
Touch(a) == a \in src.at /\ \E v \in 1..MaxVal :
  Do([src EXCEPT !.val[a] = v], <<Ev("ITEM", "UPDATE", a, None, v)>>)
AddChild(p, c) ==
  /\ {p, c} \subseteq src.at /\ p # c /\ src.par[c] # p /\ c \notin Up(src, p, {})
  /\ Do([src EXCEPT !.par[c] = p],
        (IF src.par[c] # None THEN <<Ev("FTREE", "REMOVE", src.par[c], c, 0)>> ELSE <<>>) \o <<Ev("FTREE", "ADD", p, c, 0)>>)
RemChild(c) == src.par[c] # None /\ Do([src EXCEPT !.par[c] = None], <<Ev("FTREE", "REMOVE", src.par[c], c, 0)>>)
SetFrame(m, f) ==
  /\ {m, f} \subseteq src.at /\ src.mn[m] # f
  /\ Do([src EXCEPT !.mn[m] = f],
        (IF src.mn[m] # None THEN <<Ev("FNODE", "REMOVE", m, src.mn[m], 0)>> ELSE <<>>) \o <<Ev("FNODE", "ADD", m, f, 0)>>)
DetFrame(m) == src.mn[m] # None /\ Do([src EXCEPT !.mn[m] = None], <<Ev("FNODE", "REMOVE", m, src.mn[m], 0)>>)
AddLayer(p, c) == {p, c} \subseteq src.at /\ p # c /\ <<c, p>> \notin src.lt
                  /\ Do([src EXCEPT !.lt = @ \cup {<<c, p>>}], <<Ev("LTREE", "ADD", p, c, 0)>>)
RemLayer(p, c) == <<c, p>> \in src.lt /\ Do([src EXCEPT !.lt = @ \ {<<c, p>>}], <<Ev("LTREE", "REMOVE", p, c, 0)>>)
Flush == q # <<>> /\ rep' = ApplyAll(rep, q) /\ q' = <<>> /\ UNCHANGED src

Init == src = Empty /\ rep = Empty /\ q = <<>>
Next ==
  \/ \E a \in Ids : Attach(a) \/ Detach(a) \/ Touch(a)
  \/ \E p, c \in Frames : AddChild(p, c)
  \/ \E c \in Frames : RemChild(c)
  \/ \E m \in Maps : DetFrame(m) \/ (\E f \in Frames : SetFrame(m, f))
  \/ \E p, c \in Maps \cup Layers : AddLayer(p, c) \/ RemLayer(p, c)
  \/ Flush
Spec == Init /\ [][Next]_vars
\* replaying the queue always gives the source
Faithful == ApplyAll(rep, q) = src
\* nothing is queued twice
NoDup == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
=============================================================================
