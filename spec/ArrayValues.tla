---------------------------- MODULE ArrayValues ----------------------------
(***************************************************************************)
(* Arrays as values.  An array is a record                                 *)
(*   d     its dimensions (strides resolved)                               *)
(*   vals  its elements in index order                                     *)
(*   al    the identity of its allocator                                   *)
(*   ok    FALSE for an array of fixed extents whose memory was moved away:*)
(*         it has no value; it may be assigned to, cleared or destroyed    *)
(* A machine state maps slots to arrays; a slot without an array is absent *)
(* from its domain.                                                        *)
(*                                                                         *)
(* A policy says what the allocator type declares: propagation on copy     *)
(* assignment (cca), on move assignment (cma), on swap (cs), and which     *)
(* allocator a copy gets (sel: "same" or "default").                       *)
(*                                                                         *)
(* A policy with triv says that moving an element leaves it as it was.     *)
(*                                                                         *)
(* Results(t, pol, arr, e) is the set of states that operation e may lead  *)
(* to from state arr, for arrays of static shape type t.                   *)
(***************************************************************************)
EXTENDS NDShape

DEFAULT_ALLOC == 10
MOVED == -50
NONE == -1        (* no allocator was named *)

AlOr(al, d) == IF al = NONE THEN d ELSE al
Arr(d, vals, al) == [d |-> d, vals |-> vals, al |-> al, ok |-> TRUE]
Const(d, v) == [k \in 1..Size(d) |-> v]
Fresh(t, dims) == Resolve(Convert(t, dims))
DefaultDims(t) == Resolve(DefaultShape(t))
DefaultArr(t, al) == Arr(DefaultDims(t), Const(DefaultDims(t), 0), al)
(* What is left of an array whose memory was taken: the default array, or  *)
(* no value at all when the default array would need memory.               *)
Robbed(t, al) ==
  IF Empty(DefaultDims(t)) THEN DefaultArr(t, al)
  ELSE [d |-> DefaultDims(t), vals |-> <<>>, al |-> al, ok |-> FALSE]

Sel(pol, al) == IF pol.sel = "same" THEN al ELSE DEFAULT_ALLOC
WithAl(a, al) == [a EXCEPT !.al = al]
(* Element x of an array.                                                  *)
At(a, x) == a.vals[PosOf(a.d, x)]
(* No elements: base pointers may be null on both sides.                   *)
NoElems(a) == ~a.ok \/ Empty(a.d)

Put(arr, s, a) == [x \in DOMAIN arr \cup {s} |-> IF x = s THEN a ELSE arr[x]]
Del(arr, s) == [x \in DOMAIN arr \ {s} |-> arr[x]]

(* The states a source may be left in after its value went elsewhere.      *)
Triv(pol) == "triv" \in DOMAIN pol
MovedElems(pol, a) == IF Triv(pol) THEN a ELSE [a EXCEPT !.vals = [k \in DOMAIN a.vals |-> MOVED]]
LeftOf(t, pol, src, olds, als) ==
  {WithAl(x, al) : x \in {MovedElems(pol, src), Robbed(t, src.al)} \cup olds, al \in als}

Reshaped(t, a, dims) ==
  LET nd == Fresh(t, dims)
  IN Arr(nd, [k \in 1..Size(nd) |->
                LET x == NthIndex(nd, k - 1) IN IF InRange(a.d, x) THEN At(a, x) ELSE 0], a.al)

(* The memory of an array seen in another shape, off cells further on.     *)
CellsIn(d, off) == [k \in 1..Size(d) |-> off + Offset(d, NthIndex(d, k - 1))]
Reshown(t, a, dims, off, al) ==
  LET nd == Convert(t, dims)
      old == CellsIn(a.d, 0)
      new == CellsIn(nd, off)
  IN Arr(nd, [k \in DOMAIN new |-> a.vals[CHOOSE j \in DOMAIN old : old[j] = new[k]]], al)
(* A copy in another shape, inside the bounds of the source.               *)
CopyAs(t, a, dims, al) ==
  LET nd == Fresh(t, dims) IN Arr(nd, [k \in 1..Size(nd) |-> At(a, NthIndex(nd, k - 1))], al)
(* The source after the elements inside the bounds d were moved out.       *)
MovedWithin(pol, a, d) ==
  IF Triv(pol) THEN a ELSE
  [a EXCEPT !.vals = [k \in DOMAIN @ |-> IF InRange(d, NthIndex(a.d, k - 1)) THEN MOVED ELSE @[k]]]

----------------------------------------------------------------------------
(* May the operation take over memory instead of treating elements?        *)
TakesOver(t, pol, arr, e) ==
  CASE e.f = "movec" -> IF e.al = NONE THEN pol.cma \/ arr[e.src].al = DEFAULT_ALLOC ELSE e.al = arr[e.src].al
    [] e.f \in {"movea", "mvfree"} -> e.dst = e.src \/ pol.cma \/ arr[e.dst].al = arr[e.src].al
    [] e.f = "swap" -> pol.cs \/ arr[e.dst].al = arr[e.src].al
    [] e.f = "setsh" -> TRUE
    (* The new array starts as the default array, which may have memory.    *)
    [] e.f = "mvre" -> Len(t) > 0 /\ \A i \in DOMAIN t : Ex(t[i]) = DYN
    [] e.f = "mkmover" -> arr[e.src].d = Convert(t, e.dims) /\ AlOr(e.al, DEFAULT_ALLOC) = arr[e.src].al
    [] OTHER -> FALSE
(* Operations that may not touch any element or memory at all.             *)
Idle(t, arr, e) ==
  \/ e.f = "reshape" /\ Fresh(t, e.dims) = arr[e.dst].d
  \/ e.f \in {"copya", "movea", "assc", "assm", "mvfree"} /\ e.dst = e.src

Needs(arr, s) == s \in DOMAIN arr /\ arr[s].ok

(* Which operations are part of the contract in this state.                *)
Legal(t, pol, arr, e) ==
  CASE e.f \in {"new", "newv", "def"} -> e.dst \notin DOMAIN arr
    [] e.f \in {"copyc", "movec"} -> e.dst \notin DOMAIN arr /\ Needs(arr, e.src)
    [] e.f \in {"mkcopy", "mkmove", "mkmover"} ->
         /\ e.dst \notin DOMAIN arr /\ Needs(arr, e.src)
         /\ LET nd == Fresh(t, e.dims)
            IN Empty(nd) \/ (InRange(arr[e.src].d, Mins(nd)) /\ InRange(arr[e.src].d, Maxs(nd)))
    [] e.f \in {"copya", "movea", "assc", "assm", "mvfree"} -> e.dst \in DOMAIN arr /\ Needs(arr, e.src)
    [] e.f \in {"assv", "clear", "destroy"} -> e.dst \in DOMAIN arr
    [] e.f = "swap" -> Needs(arr, e.dst) /\ Needs(arr, e.src)
    [] e.f \in {"reshape", "fill"} -> Needs(arr, e.dst)
    [] e.f = "set" -> Needs(arr, e.dst) /\ e.k \in 1..Len(arr[e.dst].vals)
    (* Another shape for the memory of an array of plain elements, which    *)
    (* reaches nothing but elements.  The memory can be taken over only if  *)
    (* the new array may have the allocator, or has an equal one anyway.    *)
    [] e.f \in {"setsh", "mvre"} ->
         LET s == IF e.f = "mvre" THEN e.src ELSE e.dst
             nd == Convert(t, e.dims)
             new == CellsIn(nd, e.k)
             old == CellsIn(arr[s].d, 0)
         IN /\ Triv(pol) /\ Needs(arr, s)
            /\ e.f = "mvre" => (e.dst \notin DOMAIN arr /\ (pol.cma \/ arr[s].al = DEFAULT_ALLOC))
            /\ \A i \in DOMAIN nd : St(nd[i]) # UNR
            /\ ~Empty(nd) /\ OneToOne(nd) /\ {new[k] : k \in DOMAIN new} \subseteq {old[k] : k \in DOMAIN old}

(* The value operation e leaves behind.                                    *)
Results(t, pol, arr, e) ==
  LET d == e.dst
      s == e.src
  IN
  CASE e.f = "new" -> {Put(arr, d, Arr(Fresh(t, e.dims), Const(Fresh(t, e.dims), 0), AlOr(e.al, DEFAULT_ALLOC)))}
    [] e.f = "newv" -> {Put(arr, d, Arr(Fresh(t, e.dims), Const(Fresh(t, e.dims), e.v), AlOr(e.al, DEFAULT_ALLOC)))}
    [] e.f = "def" -> {Put(arr, d, DefaultArr(t, AlOr(e.al, DEFAULT_ALLOC)))}
    [] e.f = "copyc" -> {Put(arr, d, WithAl(arr[s], AlOr(e.al, Sel(pol, arr[s].al))))}
    [] e.f = "movec" ->
         {Put(Put(arr, s, x), d,
              WithAl(arr[s], IF e.al # NONE THEN e.al ELSE IF pol.cma THEN arr[s].al ELSE DEFAULT_ALLOC)) :
            x \in LeftOf(t, pol, arr[s], {}, {arr[s].al})}
    [] e.f = "copya" ->
         IF d = s THEN {arr}
         ELSE {Put(arr, d, WithAl(arr[s], al)) :
                 al \in (IF pol.cca THEN {arr[s].al} ELSE {arr[d].al})
                        \cup (IF NoElems(arr[d]) /\ NoElems(arr[s]) THEN {arr[d].al} ELSE {})}
    [] e.f \in {"movea", "mvfree"} ->
         IF d = s THEN {arr}
         ELSE {Put(Put(arr, s, x), d, WithAl(arr[s], al)) :
                 x \in LeftOf(t, pol, arr[s], {arr[d]}, {arr[s].al} \cup (IF pol.cma THEN {arr[d].al} ELSE {})),
                 al \in (IF pol.cma THEN {arr[s].al} ELSE {arr[d].al})
                        \cup (IF NoElems(arr[d]) /\ NoElems(arr[s]) THEN {arr[d].al} ELSE {})}
    [] e.f = "assc" -> {IF d = s THEN arr ELSE Put(arr, d, WithAl(arr[s], arr[d].al))}
    [] e.f = "assm" ->
         IF d = s THEN {arr}
         ELSE {Put(Put(arr, s, x), d, WithAl(arr[s], arr[d].al)) : x \in LeftOf(t, pol, arr[s], {arr[d]}, {arr[s].al})}
    [] e.f = "assv" -> {Put(arr, d, Arr(Fresh(t, e.dims), Const(Fresh(t, e.dims), e.v), arr[d].al))}
    [] e.f = "clear" -> {Put(arr, d, DefaultArr(t, arr[d].al))}
    [] e.f = "reshape" -> {Put(arr, d, Reshaped(t, arr[d], e.dims))}
    [] e.f = "swap" ->
         IF d = s THEN {arr}
         ELSE LET a == arr[d]
                  b == arr[s]
              IN {Put(Put(arr, d, WithAl(b, IF pol.cs THEN b.al ELSE a.al)), s, WithAl(a, IF pol.cs THEN a.al ELSE b.al))}
    [] e.f = "set" -> {Put(arr, d, [arr[d] EXCEPT !.vals[e.k] = e.v])}
    [] e.f = "fill" -> {Put(arr, d, [arr[d] EXCEPT !.vals = [k \in DOMAIN @ |-> e.v]])}
    [] e.f = "destroy" -> {Del(arr, d)}
    [] e.f = "setsh" -> {Put(arr, d, Reshown(t, arr[d], e.dims, e.k, arr[d].al))}
    [] e.f = "mvre" ->
         {Put(Put(arr, s, x), d, Reshown(t, arr[s], e.dims, e.k, IF pol.cma THEN arr[s].al ELSE DEFAULT_ALLOC)) :
            x \in UNION {{Robbed(t, al), DefaultArr(t, al)} : al \in {arr[s].al, DEFAULT_ALLOC}}}
    [] e.f = "mkcopy" -> {Put(arr, d, CopyAs(t, arr[s], e.dims, AlOr(e.al, DEFAULT_ALLOC)))}
    [] e.f = "mkmove" -> {Put(Put(arr, s, MovedWithin(pol, arr[s], Fresh(t, e.dims))), d, CopyAs(t, arr[s], e.dims, AlOr(e.al, DEFAULT_ALLOC)))}
    [] e.f = "mkmover" ->
         {Put(Put(arr, s, x), d, CopyAs(t, arr[s], e.dims, AlOr(e.al, DEFAULT_ALLOC))) :
            x \in {MovedWithin(pol, arr[s], Fresh(t, e.dims)), Robbed(t, arr[s].al)}}

(* Operands of an operation; every other array keeps value and place.      *)
Operands(e) ==
  IF e.f \in {"copyc", "movec", "copya", "movea", "assc", "assm", "swap", "mkcopy", "mkmove", "mkmover", "mvfree", "mvre"}
  THEN {e.dst, e.src} ELSE {e.dst}
(* Operations that only read their source.                                 *)
Copying(e) == e.f \in {"copyc", "copya", "assc", "mkcopy"}
Moving(e) == e.f \in {"setsh", "mvre", "movec", "movea", "assm", "swap", "mkmove", "mkmover", "mvfree", "reshape"}
=============================================================================
