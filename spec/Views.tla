-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* Views: references into one flat memory.  A view is a record             *)
(*   nul  is there memory behind it                                        *)
(*   b    flat offset of its base, the element at its mins                 *)
(*   t    static description of its shape type                             *)
(*   d    its dimensions                                                   *)
(* Each operation makes a new view from an old one; none touches memory.   *)
(* Used by C05 (slices and crops), C16 (transpose, reorder, reinterpret)   *)
(* and C19 (image crops).                                                  *)
(***************************************************************************)
EXTENDS NDShape

View(nul, b, t, d) == [nul |-> nul, b |-> b, t |-> t, d |-> d]
(* The flat offset of element x of a view.                                 *)
Addr(v, x) == v.b + Offset(v.d, x)
AddrSet(v) == {Addr(v, x) : x \in Indices(v.d)}

(* Static type of a slice: an index drops the dimension, `_` keeps its     *)
(* type, an interval or dimension of type <<Min, Extent>> brings its own   *)
(* constants and keeps the constant stride.  sty[i] = <<kind, Min, Ext>>.  *)
RECURSIVE SliceTypeFrom(_, _, _)
SliceTypeFrom(t, sty, i) ==
  IF i > Len(t) THEN <<>>
  ELSE LET rest == SliceTypeFrom(t, sty, i + 1)
       IN IF sty[i][1] = 0 THEN rest
          ELSE <<IF sty[i][1] = 2 THEN t[i] ELSE <<sty[i][2], sty[i][3], t[i][3]>>>> \o rest
SliceType(t, sty) == SliceTypeFrom(t, sty, 1)

ViewSlice(v, args, sty) ==
  View(v.nul, IF v.nul THEN 0 ELSE v.b + SliceOffset(v.d, args), SliceType(v.t, sty), Slice(v.d, args))

(* Select and permute dimensions: dimension i of the result is dimension   *)
(* p[i] (1-based) of the argument.                                         *)
ViewReorder(v, p) == View(v.nul, v.b, Reorder(v.t, p), Reorder(v.d, p))
(* A transposition may name only the first dimensions; the others stay.    *)
FullPerm(p, n) == p \o [i \in 1..(n - Len(p)) |-> Len(p) + i]

(* Conversion to a shape type of the same or another rank.                 *)
ConvertRank(t, d) ==
  [i \in DOMAIN t |-> IF i <= Len(d) THEN ConvertDim(t[i], d[i])
                      ELSE <<IF IsStatic(t[i][1]) THEN t[i][1] ELSE 0, 1,
                             IF IsStatic(t[i][3]) THEN t[i][3] ELSE UNR>>]
ConvertOk(t, d) ==
  /\ \A i \in DOMAIN d : i <= Len(t) \/ Ex(d[i]) = 1
  /\ \A i \in DOMAIN t : IF i <= Len(d) THEN DimConvertible(t[i], d[i])
                         ELSE t[i][2] \in {1, DYN}
ViewConvert(v, t) == View(v.nul, v.b, t, ConvertRank(t, v.d))

(* A new shape over the same memory, `off` elements further on.            *)
ViewReshape(v, t, d, off) == View(v.nul, IF v.nul THEN 0 ELSE v.b + off, t, Resolve(d))
ReshapeOk(v, d, off) == InsideFlat(Resolve(d), v.d, off)

----------------------------------------------------------------------------
(* The documented meaning of a path of operations, without strides: which  *)
(* index of the argument of an operation an index of its result stands for.*)
BackStep(op, x) ==
  CASE op.k = "slice" -> Unslice(op.args, x)
    [] op.k = "reorder" ->      (* dimensions not named stay at their min  *)
         [j \in DOMAIN op.mins |-> IF j \in SeqRange(op.p) THEN x[PosIn(op.p, j)] ELSE op.mins[j]]
    [] op.k = "convert" ->
         [j \in DOMAIN op.mins |-> IF j <= Len(x) THEN x[j] ELSE op.mins[j]]
RECURSIVE BackFrom(_, _, _)
BackFrom(path, n, x) == IF n = 0 THEN x ELSE BackFrom(path, n - 1, BackStep(path[n], x))
Back(path, x) == BackFrom(path, Len(path), x)
=============================================================================
