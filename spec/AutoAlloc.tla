----------------------------- MODULE AutoAlloc -----------------------------
(***************************************************************************)
(* The fixed-capacity allocator.  An allocator object has room for Cap     *)
(* elements inside itself, and a base allocator for everything else.       *)
(*   A : object -> [cap, base, busy]   base: identity of the base          *)
(*                                     allocator; equal identities can     *)
(*                                     release each other's memory         *)
(*   B : block  -> [n, where, id]      where = "in": inside object id;     *)
(*                                     where = "base": from base id        *)
(* Operations are records f, a (the object), s (another object), n, b, x.  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANT DefaultBase

NewObj(cap, base) == [cap |-> cap, base |-> base, busy |-> FALSE]
InPlace(A, a, n) == ~A[a].busy /\ n <= A[a].cap

(* Comparing says whether each can release what the other obtained.        *)
Equal(A, a, b) == IF A[a].busy \/ A[b].busy THEN a = b ELSE A[a].base = A[b].base
(* Object a can release block k.                                           *)
Releases(A, B, a, k) ==
  IF B[k].where = "in" THEN B[k].id = a ELSE B[k].id = A[a].base

PutA(A, a, o) == [x \in DOMAIN A \cup {a} |-> IF x = a THEN o ELSE A[x]]
DelA(A, a) == [x \in DOMAIN A \ {a} |-> A[x]]
PutB(B, k, o) == [x \in DOMAIN B \cup {k} |-> IF x = k THEN o ELSE B[x]]
DelB(B, k) == [x \in DOMAIN B \ {k} |-> B[x]]

HasInside(B, a) == \E k \in DOMAIN B : B[k].where = "in" /\ B[k].id = a

LegalAA(A, B, e) ==
  CASE e.f \in {"make", "makedef"} -> e.a \notin DOMAIN A
    [] e.f \in {"copyc", "movec", "select"} -> e.a \notin DOMAIN A /\ e.s \in DOMAIN A
    [] e.f = "convert" -> e.a \notin DOMAIN A      (* from another type   *)
    [] e.f \in {"copya", "movea", "eq"} -> e.a \in DOMAIN A /\ e.s \in DOMAIN A
    [] e.f = "drop" -> e.a \in DOMAIN A /\ ~A[e.a].busy
    [] e.f = "alloc" -> e.a \in DOMAIN A /\ e.b \notin DOMAIN B
    [] e.f = "dealloc" -> e.a \in DOMAIN A /\ e.b \in DOMAIN B /\ Releases(A, B, e.a, e.b)

(* The objects afterwards: a set, because the hook for copies of arrays    *)
(* may give a copy of the allocator or a new one.                          *)
ObjsAfter(A, B, e) ==
  CASE e.f = "make" -> {PutA(A, e.a, NewObj(e.n, e.x))}
    [] e.f = "makedef" -> {PutA(A, e.a, NewObj(e.n, DefaultBase))}
    [] e.f \in {"copyc", "movec"} -> {PutA(A, e.a, NewObj(A[e.s].cap, A[e.s].base))}
    [] e.f = "select" -> {PutA(A, e.a, NewObj(A[e.s].cap, x)) : x \in {A[e.s].base, DefaultBase}}
    [] e.f = "convert" -> {PutA(A, e.a, NewObj(e.n, DefaultBase))}
    [] e.f \in {"copya", "movea"} -> {PutA(A, e.a, [A[e.a] EXCEPT !.base = A[e.s].base])}
    [] e.f = "drop" -> {DelA(A, e.a)}
    [] e.f = "alloc" -> {IF InPlace(A, e.a, e.n) THEN PutA(A, e.a, [A[e.a] EXCEPT !.busy = TRUE]) ELSE A}
    [] e.f = "dealloc" -> {IF B[e.b].where = "in" THEN PutA(A, e.a, [A[e.a] EXCEPT !.busy = FALSE]) ELSE A}
    [] OTHER -> {A}
BlocksAfter(A, B, e) ==
  CASE e.f = "alloc" ->
         PutB(B, e.b, IF InPlace(A, e.a, e.n) THEN [n |-> e.n, where |-> "in", id |-> e.a]
                                              ELSE [n |-> e.n, where |-> "base", id |-> A[e.a].base])
    [] e.f = "dealloc" -> DelB(B, e.b)
    [] OTHER -> B
=============================================================================
