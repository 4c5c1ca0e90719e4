------------------------------ MODULE NDShape ------------------------------
(***************************************************************************)
(* The layout algebra of dsharlet/array: dimensions, shapes, the mapping   *)
(* from indices to flat offsets, stride resolution, slicing, permutation,  *)
(* compatibility and compaction.  Pure operators; every state machine and  *)
(* every trace specification of this development is written on top of it.  *)
(*                                                                         *)
(* A dimension is <<min, extent, stride>>.  A shape is a sequence of       *)
(* dimensions, the first one innermost.  A static description ("type") of  *)
(* a shape has the same form, with DYN where nothing is known at compile   *)
(* time.  UNR is the stride of a dimension whose stride is not known yet.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

DYN == 1000001
UNR == 1000002
INF == 1000003

Mn(d) == d[1]
Ex(d) == d[2]
St(d) == d[3]
Mx(d) == d[1] + d[2] - 1

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
SumSeq(f) == SumTo(f, Len(f))

RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN 1 ELSE ProdTo(f, n - 1) * f[n]
ProdSeq(f) == ProdTo(f, Len(f))

SeqRange(s) == {s[i] : i \in DOMAIN s}

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

----------------------------------------------------------------------------
(* Bounds and sizes.                                                       *)

Rank(s) == Len(s)
Mins(s) == [i \in DOMAIN s |-> Mn(s[i])]
Maxs(s) == [i \in DOMAIN s |-> Mx(s[i])]
Exts(s) == [i \in DOMAIN s |-> Ex(s[i])]
Strs(s) == [i \in DOMAIN s |-> St(s[i])]
Size(s) == ProdSeq(Exts(s))
Empty(s) == \E i \in DOMAIN s : Ex(s[i]) = 0
Resolved(s) == \A i \in DOMAIN s : St(s[i]) # UNR
Bounds(s) == [i \in DOMAIN s |-> <<Mn(s[i]), Ex(s[i])>>]
SameBounds(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Mn(s[i]) = Mn(t[i]) /\ Ex(s[i]) = Ex(t[i])
Unresolve(s) == [i \in DOMAIN s |-> <<Mn(s[i]), Ex(s[i]), UNR>>]

InDim(d, x) == Mn(d) <= x /\ x <= Mx(d)
InRange(s, x) == \A i \in DOMAIN s : InDim(s[i], x[i])

(* All in-range indices, as a set and in iteration order (first dimension  *)
(* innermost): the k-th index visited, k \in 0..Size(s)-1.                 *)
RECURSIVE ProdExts(_, _)
ProdExts(s, n) == IF n = 0 THEN 1 ELSE ProdExts(s, n - 1) * Ex(s[n])
NthIndex(s, k) ==
  [i \in DOMAIN s |-> Mn(s[i]) + ((k \div ProdExts(s, i - 1)) % Ex(s[i]))]
IndexOrder(s) == [k \in 1..Size(s) |-> NthIndex(s, k - 1)]
Indices(s) == {NthIndex(s, k - 1) : k \in 1..Size(s)}
(* Position of index x in the default order (1-based). *)
PosOf(s, x) == 1 + SumSeq([i \in DOMAIN s |-> (x[i] - Mn(s[i])) * ProdExts(s, i - 1)])

(* Iteration in an explicit loop order: perm[1] is the innermost dimension *)
(* (1-based).  The visited tuples still list indices in dimension order.   *)
(* perm may name a subset of the dimensions; the tuple then lists the      *)
(* named dimensions only.                                                  *)
Reorder(s, perm) == [i \in DOMAIN perm |-> s[perm[i]]]
PosIn(perm, d) == CHOOSE i \in DOMAIN perm : perm[i] = d
(* The dimensions named by perm, in increasing order.                      *)
SortedDims(perm) ==
  [k \in DOMAIN perm |->
     CHOOSE d \in SeqRange(perm) : Cardinality({e \in SeqRange(perm) : e < d}) = k - 1]
Unshuffle(perm, x) == [k \in DOMAIN perm |-> x[PosIn(perm, SortedDims(perm)[k])]]
OrderedIndices(s, perm) ==
  LET r == Reorder(s, perm)
  IN [k \in 1..Size(r) |-> Unshuffle(perm, NthIndex(r, k - 1))]

----------------------------------------------------------------------------
(* The mapping from indices to flat offsets.                               *)

Offset(s, x) == SumSeq([i \in DOMAIN s |-> (x[i] - Mn(s[i])) * St(s[i])])
Offsets(s) == {Offset(s, x) : x \in Indices(s)}
OffsetOrder(s) == [k \in 1..Size(s) |-> Offset(s, NthIndex(s, k - 1))]
FlatMin(s) == SumSeq([i \in DOMAIN s |-> (Ex(s[i]) - 1) * Min2(0, St(s[i]))])
FlatMax(s) == SumSeq([i \in DOMAIN s |-> (Ex(s[i]) - 1) * Max2(0, St(s[i]))])
FlatExtent(s) == FlatMax(s) - FlatMin(s) + 1
OneToOne(s) == Cardinality(Offsets(s)) = Size(s)
(* No unaddressed flat offset between the first and the last addressed.    *)
Compact(s) == Cardinality(Offsets(s)) = FlatExtent(s)

----------------------------------------------------------------------------
(* Automatic strides.                                                      *)

(* The distance from the first element of a dimension to the first element *)
(* past it.                                                                *)
Span(d) == Abs(St(d)) * Ex(d)

(* A stride does not intersect a known dimension when the dimension lies   *)
(* entirely inside one step of it, or entirely outside all its steps.  A   *)
(* dimension of extent one avoids the stride of a larger dimension.        *)
StrideFits(stride, extent, d) ==
  \/ St(d) = UNR
  \/ /\ ~(extent = 1 /\ stride = Abs(St(d)) /\ Ex(d) > 1)
     /\ \/ Span(d) <= stride
        \/ Abs(St(d)) >= extent * stride

Candidates(s) == {1} \cup {Max2(1, Span(s[i])) : i \in {j \in DOMAIN s : St(s[j]) # UNR}}
FitCandidates(s, extent) ==
  {c \in Candidates(s) : \A i \in DOMAIN s : StrideFits(c, extent, s[i])}

RECURSIVE ResolveFrom(_, _)
ResolveFrom(s, i) ==
  IF i > Len(s) THEN s
  ELSE IF St(s[i]) # UNR THEN ResolveFrom(s, i + 1)
  ELSE LET c == SetMin(FitCandidates(s, Ex(s[i])))
       IN ResolveFrom([s EXCEPT ![i] = <<@[1], @[2], c>>], i + 1)
Resolve(s) == ResolveFrom(s, 1)

(* The known dimensions are nested when each pair is ordered by inclusion. *)
Nested(s) ==
  LET known == {i \in DOMAIN s : St(s[i]) # UNR /\ Ex(s[i]) > 1} IN
  /\ \A i \in known : St(s[i]) # 0
  /\ \A i, j \in known :
       i # j => \/ Span(s[i]) <= Abs(St(s[j]))
                \/ Span(s[j]) <= Abs(St(s[i]))

----------------------------------------------------------------------------
(* Slicing and cropping.  An argument is <<"i", x>> (an index), <<"r", min,*)
(* extent>> (an interval or dimension) or <<"_">> (keep the dimension).    *)
(* Numeric encoding in traces: <<0, x, 0>>, <<1, min, extent>>, <<2, 0, 0>>*)

IsIdx(a) == a[1] = 0
IsAll(a) == a[1] = 2
ArgMin(a, d) == IF IsAll(a) THEN Mn(d) ELSE a[2]
RECURSIVE SliceFrom(_, _, _)
SliceFrom(s, args, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET rest == SliceFrom(s, args, i + 1)
       IN IF IsIdx(args[i]) THEN rest
          ELSE <<IF IsAll(args[i]) THEN s[i]
                 ELSE <<args[i][2], args[i][3], St(s[i])>>>> \o rest
Slice(s, args) == SliceFrom(s, args, 1)
SliceOffset(s, args) ==
  SumSeq([i \in DOMAIN s |-> (ArgMin(args[i], s[i]) - Mn(s[i])) * St(s[i])])
(* The index in the original shape of index x of the slice.                *)
RECURSIVE UnsliceFrom(_, _, _)
UnsliceFrom(args, x, i) ==
  IF i > Len(args) THEN <<>>
  ELSE IF IsIdx(args[i]) THEN <<args[i][2]>> \o UnsliceFrom(args, x, i + 1)
  ELSE <<Head(x)>> \o UnsliceFrom(args, Tail(x), i + 1)
Unslice(args, x) == UnsliceFrom(args, x, 1)

----------------------------------------------------------------------------
(* Static types.                                                           *)

IsStatic(v) == v # DYN
DimCompat(t, d) ==
  /\ (IsStatic(t[1]) => d[1] = t[1])
  /\ (IsStatic(t[2]) => d[2] = t[2])
  /\ (IsStatic(t[3]) => d[3] = t[3])
Compat(t, s) == Len(t) = Len(s) /\ \A i \in DOMAIN t : DimCompat(t[i], s[i])
(* Conversion, which accepts unresolved strides for a static stride.       *)
DimConvertible(t, d) ==
  /\ (IsStatic(t[1]) => d[1] = t[1])
  /\ (IsStatic(t[2]) => d[2] = t[2])
  /\ (IsStatic(t[3]) => d[3] \in {t[3], UNR})
Convertible(t, s) == Len(t) = Len(s) /\ \A i \in DOMAIN t : DimConvertible(t[i], s[i])
ConvertDim(t, d) ==
  <<d[1], d[2], IF IsStatic(t[3]) THEN t[3] ELSE d[3]>>
Convert(t, s) == [i \in DOMAIN t |-> ConvertDim(t[i], s[i])]
(* The default constructed shape of type t.                                *)
DefaultDim(t) == <<IF IsStatic(t[1]) THEN t[1] ELSE 0,
                   IF IsStatic(t[2]) THEN t[2] ELSE 0,
                   IF IsStatic(t[3]) THEN t[3] ELSE UNR>>
DefaultShape(t) == [i \in DOMAIN t |-> DefaultDim(t[i])]

(* Does s fit in flat memory of shape t displaced by -off: i.e. moving the *)
(* base by off and using s addresses only offsets between those of t.      *)
InsideFlat(s, t, off) ==
  FlatMin(s) + off >= FlatMin(t) /\ FlatMax(s) + off <= FlatMax(t)

----------------------------------------------------------------------------
(* Intersection of the bounds of two shapes.                               *)
IsectDim(a, b) ==
  LET mn == Max2(Mn(a), Mn(b))
      mx == Min2(Mx(a), Mx(b))
  IN <<mn, Max2(0, mx - mn + 1)>>
InBoth(s, t, x) == InRange(s, x) /\ InRange(t, x)

=============================================================================
