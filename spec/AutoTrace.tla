----------------------------- MODULE AutoTrace -----------------------------
(***************************************************************************)
(* Conformance of the fixed-capacity allocator.  start: the capacity; step:*)
(* one operation, where its memory came from, what the base allocators     *)
(* were asked meanwhile, whether all live blocks kept their contents, and  *)
(* how every two objects compare afterwards.                               *)
(***************************************************************************)
EXTENDS AutoAlloc, TraceBase

VARIABLES cap, A, B
vars == <<sid, l, cap, A, B>>
Fun0 == [x \in {} |-> 0]

Init == TInit /\ cap = 0 /\ A = Fun0 /\ B = Fun0

Start(e) == e.op = "start" /\ cap' = e.cap /\ UNCHANGED <<A, B>>

(* What the base allocators may be asked during the operation.             *)
CallsOk(e) ==
  CASE e.f = "alloc" /\ ~InPlace(A, e.a, e.n) ->
         /\ Len(e.calls) = 1
         /\ e.calls[1].f = "alloc" /\ e.calls[1].id = A[e.a].base /\ e.calls[1].n = e.n
    [] e.f = "dealloc" /\ B[e.b].where = "base" ->
         /\ Len(e.calls) = 1
         /\ e.calls[1].f = "dealloc" /\ e.calls[1].id = B[e.b].id
         /\ e.calls[1].n = B[e.b].n /\ e.calls[1].b = e.b
    [] OTHER -> e.calls = <<>>
PlaceOk(e) ==
  /\ e.where = (IF e.f # "alloc" THEN "none" ELSE IF InPlace(A, e.a, e.n) THEN "in" ELSE "base")
  /\ e.where = "in" => e.id = e.a
  /\ e.fits /\ e.aligned

Op(e) ==
  /\ e.op = "step"
  /\ LegalAA(A, B, e)
  /\ CallsOk(e) /\ PlaceOk(e) /\ e.intact
  /\ A' \in ObjsAfter(A, B, e)
  /\ e.f = "select" => A'[e.a].base = e.base
  /\ B' = BlocksAfter(A, B, e)
  /\ \A i \in DOMAIN e.eqs :
       LET q == e.eqs[i] IN q.eq = Equal(A', q.a, q.b) /\ q.ne = ~q.eq
  /\ {<<e.eqs[i].a, e.eqs[i].b>> : i \in DOMAIN e.eqs} = (DOMAIN A') \X (DOMAIN A')
  /\ UNCHANGED cap

Step(e) == Start(e) \/ Op(e)
Consume == More /\ Step(Ev) /\ Advance
Next == Consume \/ (Done /\ UNCHANGED vars)
=============================================================================
