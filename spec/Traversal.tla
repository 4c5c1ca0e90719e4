----------------------------- MODULE Traversal -----------------------------
(***************************************************************************)
(* Value iteration (C04, C20, C08): the elements of a layout are a bag of  *)
(* flat offsets, each of which has to be touched as often as indices map   *)
(* to it, in any order, and nothing else may be touched.  The memory is    *)
(* part of the state: every cell around the elements, padding included.    *)
(***************************************************************************)
EXTENDS NDShape

VARIABLES
  todo,    (* offset -> how often it is still to be touched *)
  mem,     (* offset -> value, for every cell that is watched *)
  busy     (* a traversal is in progress *)

travVars == <<todo, mem, busy>>

NoTodo == [o \in {} |-> 0]
TravInit == todo = NoTodo /\ mem = [o \in {} |-> 0] /\ busy = FALSE

(* Evaluated as counts over the sequence of all offsets.                   *)
BagOf(seq) == [o \in SeqRange(seq) |-> Cardinality({i \in DOMAIN seq : seq[i] = o})]
OffsetBag(s) == BagOf(OffsetOrder(s))

BeginTraversal(s, null, memory) ==
  /\ ~busy
  /\ busy' = TRUE
  /\ todo' = IF null THEN NoTodo ELSE OffsetBag(s)
  /\ mem' = memory

CanTouch(o) == busy /\ o \in DOMAIN todo /\ todo[o] > 0
(* The callback reads r from the element at o and leaves w there.          *)
Touch(o, r, w) ==
  /\ CanTouch(o)
  /\ r = mem[o]
  /\ todo' = [todo EXCEPT ![o] = @ - 1]
  /\ mem' = [mem EXCEPT ![o] = w]
  /\ UNCHANGED busy

AllTouched == \A o \in DOMAIN todo : todo[o] = 0
EndTraversal ==
  /\ busy /\ AllTouched
  /\ busy' = FALSE
  /\ UNCHANGED <<todo, mem>>
=============================================================================
