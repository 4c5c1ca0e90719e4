---------------------------- MODULE MC_AutoAlloc ----------------------------
(***************************************************************************)
(* Every history of a few allocator objects: the storage inside an object  *)
(* never serves two live blocks, equality means that memory can be         *)
(* exchanged, and every live block has an object that can release it.      *)
(***************************************************************************)
EXTENDS AutoAlloc, Sequences, TLC, Json

CONSTANTS Objs, Caps, Bases, Sizes, MaxBlocks, Depth, Emit

VARIABLES A, B, n, nb, hist
vars == <<A, B, n, nb, hist>>
Fun0 == [x \in {} |-> 0]

Init == A = Fun0 /\ B = Fun0 /\ n = 0 /\ nb = 0 /\ hist = <<>>

Ev(f, a, s, k, b, x) == [f |-> f, a |-> a, s |-> s, n |-> k, b |-> b, x |-> x]
Cand ==
  UNION {
    {Ev("make", a, 0, c, 0, x) : a \in Objs, c \in Caps, x \in Bases},
    {Ev("makedef", a, 0, c, 0, 0) : a \in Objs, c \in Caps},
    {Ev(f, a, s, 0, 0, 0) : f \in {"copyc", "movec", "select", "copya", "movea", "eq"}, a \in Objs, s \in Objs},
    {Ev("drop", a, 0, 0, 0, 0) : a \in Objs},
    {Ev("alloc", a, 0, k, nb + 1, 0) : a \in Objs, k \in Sizes},
    {Ev("dealloc", a, 0, 0, b, 0) : a \in Objs, b \in DOMAIN B} }
InOrder(e) == e.a \in DOMAIN A \/ \A x \in Objs : x < e.a => x \in DOMAIN A

Do ==
  /\ n < Depth
  /\ \E e \in Cand :
       /\ LegalAA(A, B, e) /\ InOrder(e)
       /\ e.f = "alloc" => Cardinality(DOMAIN B) < MaxBlocks
       (* Giving away the base of blocks that are still alive orphans them. *)
       /\ e.f \in {"copya", "movea", "drop"} =>
            \A k \in DOMAIN B : B[k].where = "base" /\ B[k].id = A[e.a].base =>
               (\E o \in DOMAIN A : o # e.a /\ A[o].base = B[k].id) \/ (e.f # "drop" /\ A[e.s].base = A[e.a].base)
       /\ A' \in ObjsAfter(A, B, e)
       /\ B' = BlocksAfter(A, B, e)
       /\ nb' = IF e.f = "alloc" THEN nb + 1 ELSE nb
       /\ hist' = Append(hist, e)
       /\ (Emit > 0 /\ n + 1 = Depth /\ RandomElement(1..Emit) = 1) =>
            PrintT("PLAN " \o ToJson([ev |-> Append(hist, e)]))
  /\ n' = n + 1
Spec == Init /\ [][Do]_vars
View_ == <<A, B, n>>

OneInside == \A a \in DOMAIN A : Cardinality({k \in DOMAIN B : B[k].where = "in" /\ B[k].id = a}) <= 1
BusyIsInside == \A a \in DOMAIN A : A[a].busy <=> HasInside(B, a)
Fits == \A k \in DOMAIN B : B[k].where = "in" => B[k].id \in DOMAIN A /\ B[k].n <= A[B[k].id].cap
EqualExchanges ==
  \A a, b \in DOMAIN A : Equal(A, a, b) => \A k \in DOMAIN B : Releases(A, B, a, k) <=> Releases(A, B, b, k)
EqualIsSymmetric == \A a, b \in DOMAIN A : Equal(A, a, a) /\ (Equal(A, a, b) <=> Equal(A, b, a))
NoOrphans == \A k \in DOMAIN B : \E a \in DOMAIN A : Releases(A, B, a, k)
=============================================================================
