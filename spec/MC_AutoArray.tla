---------------------------- MODULE MC_AutoArray ----------------------------
(***************************************************************************)
(* Arrays that each contain a fixed-capacity allocator.  An array takes    *)
(* over the memory of another one when their allocators compare equal and  *)
(* moves the elements otherwise; checked here: with the equality of        *)
(* AutoAlloc this keeps every block releasable by the allocator of the     *)
(* array that holds it, loses no block, and gives every array the value    *)
(* it should have.  (With a comparison that ignores busy it does not.)     *)
(***************************************************************************)
EXTENDS AutoAlloc, TLC

CONSTANTS Slots, Cap, Sizes, Depth, Sloppy

VARIABLES A,      (* slot -> allocator object                              *)
          B,      (* block -> [n, where, id]                               *)
          arr,    (* slot -> [n, b]; b = 0: no memory                      *)
          cell,   (* block -> what it contains                             *)
          want,   (* slot -> [n, v], the value it should have              *)
          n, next
vars == <<A, B, arr, cell, want, n, next>>
Fun0 == [x \in {} |-> 0]
MOVED == 0

Init == A = Fun0 /\ B = Fun0 /\ arr = Fun0 /\ cell = Fun0 /\ want = Fun0 /\ n = 0 /\ next = 1

Eq(As, a, b) == IF Sloppy THEN As[a].base = As[b].base ELSE Equal(As, a, b)

Put(f, s, v) == [x \in DOMAIN f \cup {s} |-> IF x = s THEN v ELSE f[x]]
Del(f, s) == [x \in DOMAIN f \ {s} |-> f[x]]

(* A world is everything the array operations change.                      *)
World == [A |-> A, B |-> B, arr |-> arr, cell |-> cell, next |-> next]
GetMem(w, s, k) ==
  LET e == [f |-> "alloc", a |-> s, s |-> 0, n |-> k, b |-> w.next, x |-> 0]
  IN [w EXCEPT !.A = CHOOSE a \in ObjsAfter(w.A, w.B, e) : TRUE, !.B = BlocksAfter(w.A, w.B, e),
               !.cell = Put(@, w.next, MOVED), !.arr = Put(@, s, [n |-> k, b |-> w.next]), !.next = @ + 1]
Release(w, s) ==
  IF w.arr[s].b = 0 THEN w
  ELSE LET e == [f |-> "dealloc", a |-> s, s |-> 0, n |-> 0, b |-> w.arr[s].b, x |-> 0]
       IN [w EXCEPT !.A = CHOOSE a \in ObjsAfter(w.A, w.B, e) : TRUE, !.B = DelB(@, e.b),
                    !.cell = Del(@, e.b), !.arr[s] = [n |-> 0, b |-> 0]]
Store(w, s, v) == IF w.arr[s].n = 0 THEN w ELSE [w EXCEPT !.cell[w.arr[s].b] = v]
Contents(w, s) == IF w.arr[s].n = 0 THEN MOVED ELSE w.cell[w.arr[s].b]
NewObject(w, s) == [w EXCEPT !.A = Put(@, s, NewObj(Cap, DefaultBase)), !.arr = Put(@, s, [n |-> 0, b |-> 0])]
Take(w, d, s) == [w EXCEPT !.arr[d] = w.arr[s], !.arr[s] = [n |-> 0, b |-> 0]]

New(w, s, k, v) == Store(GetMem(NewObject(w, s), s, k), s, v)
CopyC(w, d, s) == Store(GetMem(NewObject(w, d), d, w.arr[s].n), d, Contents(w, s))
MoveInto(w, d, s) ==      (* d has no memory *)
  IF Eq(w.A, d, s) THEN Take(w, d, s)
  ELSE Store(Store(GetMem(w, d, w.arr[s].n), d, Contents(w, s)), s, MOVED)
MoveC(w, d, s) == MoveInto(NewObject(w, d), d, s)
CopyA(w, d, s) == IF d = s THEN w ELSE Store(GetMem(Release(w, d), d, w.arr[s].n), d, Contents(w, s))
MoveA(w, d, s) ==
  IF d = s THEN w
  ELSE IF Eq(w.A, d, s) THEN [w EXCEPT !.arr[d] = w.arr[s], !.arr[s] = w.arr[d]]
  ELSE Store(Store(GetMem(Release(w, d), d, w.arr[s].n), d, Contents(w, s)), s, MOVED)
Drop(w, s) == LET x == Release(w, s) IN [x EXCEPT !.A = Del(@, s), !.arr = Del(@, s)]
Swap(w, d, s) ==
  IF d = s THEN w
  ELSE IF Eq(w.A, d, s) THEN [w EXCEPT !.arr[d] = w.arr[s], !.arr[s] = w.arr[d]]
  ELSE LET t == 0 IN Drop(MoveA(MoveA(MoveC(w, t, d), d, s), s, t), t)

Val(k, v) == [n |-> k, v |-> IF k = 0 THEN MOVED ELSE v]
Step(w2, want2) ==
  /\ n < Depth /\ n' = n + 1
  /\ A' = w2.A /\ B' = w2.B /\ arr' = w2.arr /\ cell' = w2.cell /\ next' = w2.next
  /\ want' = want2
(* A moved-from source: whatever it is left with, read off the world.      *)
Left(w2, s) == Val(w2.arr[s].n, IF w2.arr[s].n = 0 THEN MOVED ELSE w2.cell[w2.arr[s].b])
Do ==
  \/ \E s \in Slots \ DOMAIN arr, k \in Sizes : Step(New(World, s, k, n + 1), Put(want, s, Val(k, n + 1)))
  \/ \E d \in Slots \ DOMAIN arr, s \in DOMAIN arr :
       \/ Step(CopyC(World, d, s), Put(want, d, want[s]))
       \/ LET w2 == MoveC(World, d, s) IN Step(w2, Put(Put(want, d, want[s]), s, Left(w2, s)))
  \/ \E d, s \in DOMAIN arr :
       \/ Step(CopyA(World, d, s), Put(want, d, want[s]))
       \/ d # s /\ LET w2 == MoveA(World, d, s) IN Step(w2, Put(Put(want, d, want[s]), s, Left(w2, s)))
       \/ Step(Swap(World, d, s), Put(Put(want, d, want[s]), s, want[d]))
  \/ \E s \in DOMAIN arr : Step(Drop(World, s), Del(want, s))
Spec == Init /\ [][Do]_vars
(* Block names and the number of steps do not matter.                      *)
Held(s) == arr[s].b

Values == \A s \in DOMAIN arr : [n |-> arr[s].n, v |-> IF arr[s].n = 0 THEN MOVED ELSE cell[arr[s].b]] = want[s]
OwnReleases == \A s \in DOMAIN arr : Held(s) # 0 => Held(s) \in DOMAIN B /\ Releases(A, B, s, Held(s)) /\ B[Held(s)].n = arr[s].n
NoSharing == \A r, s \in DOMAIN arr : r # s /\ Held(r) # 0 => Held(r) # Held(s)
NoneLost == \A b \in DOMAIN B : \E s \in DOMAIN arr : Held(s) = b
BusyRight == \A s \in DOMAIN arr : A[s].busy <=> HasInside(B, s)
=============================================================================
