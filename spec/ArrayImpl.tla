----------------------------- MODULE ArrayImpl -----------------------------
(***************************************************************************)
(* Arrays as memory: how each operation of ArrayValues is carried out with *)
(* blocks from allocators and elements constructed, moved and destroyed in *)
(* them.  A heap is a record                                               *)
(*   blk   block id -> [n, al, c], c the content of each cell, RAW where   *)
(*         no element lives                                                *)
(*   err   what went wrong so far (must stay empty)                        *)
(*   work  number of constructions, assignments and allocations of the     *)
(*         operation in progress                                           *)
(* An array is [al, b, base, d]; b = 0 means that it has no memory.        *)
(* Every operator takes and returns a pair <<heap, array>> or a heap.      *)
(***************************************************************************)
EXTENDS ArrayValues

RAW == -99
(* Trivial elements need no construction or destruction.                   *)
CONSTANT Trivial
MovedVal(v) == IF Trivial THEN v ELSE MOVED

Heap0 == [blk |-> [b \in {} |-> 0], err |-> {}, work |-> 0]
Fail(h, why) == [h EXCEPT !.err = @ \cup {why}]
Work(h) == [h EXCEPT !.work = 1]

(* The smallest unused block id, so that equal heaps are equal.            *)
FreeId(h) == CHOOSE i \in 1..(Cardinality(DOMAIN h.blk) + 1) :
               i \notin DOMAIN h.blk /\ \A j \in 1..(i - 1) : j \in DOMAIN h.blk

Raw(n) == [o \in 0..(n - 1) |-> RAW]
DoAlloc(h, al, n) ==
  LET i == FreeId(h)
  IN [Work(h) EXCEPT !.blk = [b \in DOMAIN @ \cup {i} |-> IF b = i THEN [n |-> n, al |-> al, c |-> Raw(n)] ELSE @[b]]]
Inside(h, b, o) == b \in DOMAIN h.blk /\ o >= 0 /\ o < h.blk[b].n
Cell(h, b, o) == h.blk[b].c[o]
SetCell(h, b, o, v) == [h EXCEPT !.blk[b].c[o] = v]
DoCtor(h, b, o, v) ==
  IF ~Inside(h, b, o) THEN Fail(h, "construct outside a block")
  ELSE IF Cell(h, b, o) # RAW /\ ~Trivial THEN Fail(h, "construct over an element")
  ELSE Work(SetCell(h, b, o, v))
DoAsg(h, b, o, v) ==
  IF ~Inside(h, b, o) \/ Cell(h, b, o) = RAW THEN Fail(h, "assign to no element") ELSE Work(SetCell(h, b, o, v))
DoDtor(h, b, o) ==
  IF ~Inside(h, b, o) \/ Cell(h, b, o) = RAW THEN Fail(h, "destroy no element")
  ELSE IF Trivial THEN h ELSE SetCell(h, b, o, RAW)
DoFree(h, b, n, al) ==
  IF b \notin DOMAIN h.blk THEN Fail(h, "free no block")
  ELSE LET g == IF h.blk[b].n # n THEN Fail(h, "free with another size")
                ELSE IF h.blk[b].al # al THEN Fail(h, "free with another allocator")
                ELSE IF ~Trivial /\ \E o \in DOMAIN h.blk[b].c : h.blk[b].c[o] # RAW THEN Fail(h, "free living elements")
                ELSE h
       IN [g EXCEPT !.blk = [x \in DOMAIN @ \ {b} |-> @[x]]]

----------------------------------------------------------------------------
Flat(d) == IF Empty(d) THEN 0 ELSE FlatExtent(d)
NoMem(al, d) == [al |-> al, b |-> 0, base |-> 0, d |-> d]
CellOf(a, x) == a.base + Offset(a.d, x)
OffsetsOf(a) == IF a.b = 0 \/ Empty(a.d) THEN <<>> ELSE [k \in 1..Size(a.d) |-> CellOf(a, NthIndex(a.d, k - 1))]
ValsOf(h, a) == [k \in DOMAIN OffsetsOf(a) |-> Cell(h, a.b, OffsetsOf(a)[k])]

(* Apply F to every element, in index order.                               *)
Each(h, a, F(_, _, _, _)) ==
  LET offs == OffsetsOf(a)
      RECURSIVE Upto(_)
      Upto(k) == IF k = 0 THEN h ELSE F(Upto(k - 1), a.b, offs[k], k)
  IN Upto(Len(offs))

Allocate(h, a) ==
  LET d == Resolve(a.d)
      n == Flat(d)
  IN IF n > 0 THEN <<DoAlloc(h, a.al, n), [a EXCEPT !.d = d, !.b = FreeId(h), !.base = 0 - FlatMin(d)]>>
     ELSE <<h, [a EXCEPT !.d = d, !.b = 0, !.base = 0]>>
Construct(h, a, v) == LET F(g, b, o, k) == DoCtor(g, b, o, v) IN Each(h, a, F)
Destroy(h, a) == LET F(g, b, o, k) == DoDtor(g, b, o) IN Each(h, a, F)
Deallocate(t, h, a) ==
  IF a.b = 0 THEN <<h, a>>
  ELSE <<DoFree(Destroy(h, a), a.b, IF a.b \in DOMAIN h.blk THEN h.blk[a.b].n ELSE 0, a.al),
         NoMem(a.al, DefaultShape(t))>>
CopyConstruct(h, a, from) ==
  LET F(g, b, o, k) == DoCtor(g, b, o, Cell(g, from.b, OffsetsOf(from)[k])) IN Each(h, a, F)
MoveConstruct(h, a, from) ==
  LET F(g, b, o, k) ==
        SetCell(DoCtor(g, b, o, Cell(g, from.b, OffsetsOf(from)[k])), from.b, OffsetsOf(from)[k], MovedVal(Cell(g, from.b, OffsetsOf(from)[k])))
  IN Each(h, a, F)

SameBase(a, c) == (a.b = 0 /\ c.b = 0) \/ (a.b # 0 /\ a.b = c.b /\ a.base = c.base)
(* All of an array but its allocator.                                      *)
Body(a, c) == [a EXCEPT !.b = c.b, !.base = c.base, !.d = c.d]

(* assign(const array&) and assign(array&&).                               *)
AssignFrom(t, h, a, src, move) ==
  IF SameBase(a, src) THEN
    IF a.b # 0 THEN <<h, a>>
    ELSE IF Empty(src.d) THEN <<h, [a EXCEPT !.d = src.d]>> ELSE <<Fail(h, "assign no value"), a>>
  ELSE
    LET r == IF a.b # 0 /\ a.d = src.d THEN <<Destroy(h, a), a>>
             ELSE LET f == Deallocate(t, h, a) IN Allocate(f[1], [f[2] EXCEPT !.d = src.d])
        g == r[1]
        x == r[2]
    IN IF ~Empty(src.d) /\ src.b = 0 THEN <<Fail(g, "copy no value"), x>>
       ELSE <<IF move THEN MoveConstruct(g, x, src) ELSE CopyConstruct(g, x, src), x>>
AssignVal(t, h, a, dims, v) ==
  LET d == Fresh(t, dims)
      r == IF a.b # 0 /\ a.d = d THEN <<Destroy(h, a), a>>
           ELSE LET f == Deallocate(t, h, a) IN Allocate(f[1], [f[2] EXCEPT !.d = d])
  IN <<Construct(r[1], r[2], v), r[2]>>
NewArr(t, h, al, d) ==
  LET r == Allocate(h, NoMem(al, d)) IN <<Construct(r[1], r[2], 0), r[2]>>

----------------------------------------------------------------------------
(* One operation on the whole state: heap and arrays (slot -> array).      *)
State(h, ia) == [h |-> h, ia |-> ia]
DefShape(t) == Resolve(DefaultShape(t))

MoveCtor(t, pol, st, e) ==
  LET src == st.ia[e.src]
      al == IF e.al # NONE THEN e.al ELSE IF pol.cma THEN src.al ELSE DEFAULT_ALLOC
  IN IF (e.al = NONE /\ pol.cma) \/ al = src.al
     THEN State(st.h, Put(Put(st.ia, e.dst, Body(NoMem(al, <<>>), src)), e.src, NoMem(src.al, DefShape(t))))
     ELSE LET r == Allocate(st.h, NoMem(al, src.d))
          IN IF ~Empty(src.d) /\ src.b = 0 THEN State(Fail(r[1], "move no value"), Put(st.ia, e.dst, r[2]))
             ELSE State(MoveConstruct(r[1], r[2], src), Put(st.ia, e.dst, r[2]))

MoveAssign(t, pol, st, d, s) ==
  LET a == st.ia[d]
      b == st.ia[s]
  IN IF SameBase(a, b) THEN
       IF a.b # 0 \/ d = s THEN st
       ELSE IF ~Empty(a.d) THEN State(Fail(st.h, "assign no value"), st.ia)
       ELSE State(st.h, Put(Put(st.ia, d, [a EXCEPT !.d = b.d]), s, [b EXCEPT !.d = a.d]))
     ELSE IF pol.cma THEN State(st.h, Put(Put(st.ia, d, b), s, a))
     ELSE IF a.al = b.al THEN State(st.h, Put(Put(st.ia, d, Body(a, b)), s, Body(b, a)))
     ELSE LET r == AssignFrom(t, st.h, a, b, TRUE) IN State(r[1], Put(st.ia, d, r[2]))

CopyAssign(t, pol, st, d, s) ==
  LET a == st.ia[d]
      b == st.ia[s]
  IN IF SameBase(a, b) THEN
       IF a.b # 0 \/ d = s THEN st
       ELSE IF ~Empty(b.d) THEN State(Fail(st.h, "assign no value"), st.ia)
       ELSE State(st.h, Put(st.ia, d, [a EXCEPT !.d = b.d]))
     ELSE LET f == IF pol.cca /\ a.al # b.al THEN Deallocate(t, st.h, a) ELSE <<st.h, a>>
              g == IF pol.cca THEN [f[2] EXCEPT !.al = b.al] ELSE f[2]
              r == AssignFrom(t, f[1], g, b, FALSE)
          IN State(r[1], Put(st.ia, d, r[2]))

(* Move the contents of slot s to slot d, keeping both allocators.         *)
MoveExceptAlloc(t, st, d, s) ==
  LET a == st.ia[d]
      b == st.ia[s]
  IN IF a.al = b.al THEN State(st.h, Put(Put(st.ia, d, Body(a, b)), s, Body(b, a)))
     ELSE LET r == AssignFrom(t, st.h, a, b, TRUE) IN State(r[1], Put(st.ia, d, r[2]))

DestroySlot(t, st, s) ==
  LET f == Deallocate(t, st.h, st.ia[s]) IN State(f[1], Del(st.ia, s))

TEMP == 99
Swap(t, pol, st, d, s) ==
  LET a == st.ia[d]
      b == st.ia[s]
  IN IF pol.cs THEN State(st.h, Put(Put(st.ia, d, b), s, a))
     ELSE IF d = s THEN st
     ELSE LET s1 == MoveCtor(t, pol, st, [src |-> s, dst |-> TEMP, al |-> b.al])
              s2 == MoveExceptAlloc(t, s1, s, d)
              s3 == MoveExceptAlloc(t, s2, d, TEMP)
          IN DestroySlot(t, s3, TEMP)

(* Elements of `from` at the indices of `d`, copied or moved onto those of *)
(* array a.                                                                *)
RECURSIVE TransferFrom(_, _, _, _, _, _)
TransferFrom(h, from, a, d, k, move) ==
  IF k > Size(d) THEN h
  ELSE LET x == NthIndex(d, k - 1)
           so == CellOf(from, x)
           g == IF ~Inside(h, from.b, so) THEN Fail(h, "read outside") ELSE DoAsg(h, a.b, CellOf(a, x), Cell(h, from.b, so))
       IN TransferFrom(IF move /\ Inside(g, from.b, so) THEN SetCell(g, from.b, so, MovedVal(Cell(g, from.b, so))) ELSE g, from, a, d, k + 1, move)

Isect(x, y) == [i \in DOMAIN x |-> <<IsectDim(x[i], y[i])[1], IsectDim(x[i], y[i])[2], x[i][3]>>]

Reshape(t, pol, st, d, dims) ==
  LET a == st.ia[d]
      nd == Fresh(t, dims)
  IN IF a.d = nd THEN st
     ELSE LET r == NewArr(t, st.h, a.al, nd)
              h2 == TransferFrom(r[1], a, r[2], Isect(nd, a.d), 1, TRUE)
              s2 == MoveAssign(t, pol, State(h2, Put(st.ia, TEMP, r[2])), d, TEMP)
          IN DestroySlot(t, s2, TEMP)

MakeFrom(t, st, e, move) ==
  LET al == AlOr(e.al, DEFAULT_ALLOC)
      r == NewArr(t, st.h, al, Fresh(t, e.dims))
      h2 == TransferFrom(r[1], st.ia[e.src], r[2], r[2].d, 1, move)
  IN State(h2, Put(st.ia, e.dst, r[2]))

Exec(t, pol, st0, e) ==
  LET st == [st0 EXCEPT !.h.work = 0]
      New(r) == State(r[1], Put(st.ia, e.dst, r[2]))
  IN
  CASE e.f = "new" -> New(NewArr(t, st.h, AlOr(e.al, DEFAULT_ALLOC), Convert(t, e.dims)))
    [] e.f = "def" -> New(NewArr(t, st.h, AlOr(e.al, DEFAULT_ALLOC), DefaultShape(t)))
    [] e.f = "newv" ->
         LET r == NewArr(t, st.h, AlOr(e.al, DEFAULT_ALLOC), DefaultShape(t))
         IN New(AssignVal(t, r[1], r[2], e.dims, e.v))
    [] e.f = "copyc" ->
         IF e.al = NONE THEN New(AssignFrom(t, st.h, NoMem(Sel(pol, st.ia[e.src].al), DefaultShape(t)), st.ia[e.src], FALSE))
         ELSE LET r == NewArr(t, st.h, e.al, DefaultShape(t)) IN New(AssignFrom(t, r[1], r[2], st.ia[e.src], FALSE))
    [] e.f = "movec" -> MoveCtor(t, pol, st, e)
    [] e.f = "copya" -> CopyAssign(t, pol, st, e.dst, e.src)
    [] e.f \in {"movea", "mvfree"} -> MoveAssign(t, pol, st, e.dst, e.src)
    [] e.f = "assc" -> New(AssignFrom(t, st.h, st.ia[e.dst], st.ia[e.src], FALSE))
    [] e.f = "assm" -> New(AssignFrom(t, st.h, st.ia[e.dst], st.ia[e.src], TRUE))
    [] e.f = "assv" -> New(AssignVal(t, st.h, st.ia[e.dst], e.dims, e.v))
    [] e.f = "clear" ->
         LET f == Deallocate(t, st.h, st.ia[e.dst]) IN New(NewArr(t, f[1], f[2].al, DefaultShape(t)))
    [] e.f = "reshape" -> Reshape(t, pol, st, e.dst, e.dims)
    [] e.f = "swap" -> Swap(t, pol, st, e.dst, e.src)
    [] e.f = "set" -> State(DoAsg(st.h, st.ia[e.dst].b, OffsetsOf(st.ia[e.dst])[e.k], e.v), st.ia)
    [] e.f = "fill" ->
         LET F(g, b, o, k) == DoAsg(g, b, o, e.v) IN State(Each(st.h, st.ia[e.dst], F), st.ia)
    [] e.f = "destroy" -> DestroySlot(t, st, e.dst)
    [] e.f = "mkcopy" -> MakeFrom(t, st, e, FALSE)
    [] e.f = "mkmove" -> MakeFrom(t, st, e, TRUE)
    [] e.f = "mkmover" ->
         IF TakesOver(t, pol, [x \in DOMAIN st.ia |-> [d |-> st.ia[x].d, al |-> st.ia[x].al]], e)
         THEN MoveCtor(t, pol, st, [e EXCEPT !.al = AlOr(e.al, DEFAULT_ALLOC)])
         ELSE MakeFrom(t, st, e, TRUE)

    [] e.f = "setsh" -> State(st.h, Put(st.ia, e.dst, [st.ia[e.dst] EXCEPT !.d = Convert(t, e.dims), !.base = @ + e.k]))
    [] e.f = "mvre" ->
         (* The default array, whose place the source takes.                *)
         LET src == st.ia[e.src]
             r == NewArr(t, st.h, DEFAULT_ALLOC, DefaultShape(t))
             al == IF pol.cma THEN src.al ELSE DEFAULT_ALLOC
             new == [Body(NoMem(al, <<>>), src) EXCEPT !.d = Convert(t, e.dims), !.base = @ + e.k]
             left == Body(NoMem(IF pol.cma THEN DEFAULT_ALLOC ELSE src.al, <<>>), r[2])
         IN State(r[1], Put(Put(st.ia, e.dst, new), e.src, left))

----------------------------------------------------------------------------
(* What the memory stands for.                                             *)
Abs1(t, h, a) ==
  IF a.b = 0 /\ ~Empty(a.d) THEN [d |-> DefShape(t), vals |-> <<>>, al |-> a.al, ok |-> FALSE]
  ELSE Arr(a.d, ValsOf(h, a), a.al)
AbsAll(t, st) == [s \in DOMAIN st.ia |-> Abs1(t, st.h, st.ia[s])]
(* Strides of an array without elements mean nothing.                      *)
Norm(a) == IF Empty(a.d) THEN [a EXCEPT !.d = [i \in DOMAIN @ |-> <<@[i][1], @[i][2], 0>>]] ELSE a
NormAll(arr) == [s \in DOMAIN arr |-> Norm(arr[s])]

(* Exactly the addressed cells hold elements; no block is lost.            *)
Addressed(st) == UNION {{<<st.ia[s].b, OffsetsOf(st.ia[s])[k]>> : k \in DOMAIN OffsetsOf(st.ia[s])} : s \in DOMAIN st.ia}
LiveCells(h) == {<<b, o>> \in {<<x, y>> : x \in DOMAIN h.blk, y \in 0..20} : Inside(h, b, o) /\ Cell(h, b, o) # RAW}
=============================================================================
