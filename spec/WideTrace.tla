----------------------------- MODULE WideTrace -----------------------------
(***************************************************************************)
(* Conformance with numbers as large as the index type allows: shapes and  *)
(* their mapping (C01), automatic strides (C02), iteration (C03, C04),     *)
(* slices and other views (C05, C16), splits (C06), copies and comparisons *)
(* (C08, C09) between memory blocks of many gigabytes, compaction (C18).   *)
(* All numbers in the events are BigInts except counts, kinds and element  *)
(* values.                                                                 *)
(* State: the shape under test.                                            *)
(***************************************************************************)
EXTENDS WideShape, TraceBase

VARIABLE v
vars == <<sid, l, v>>
Init == TInit /\ v = <<>>

All(seq, x) == \A i \in DOMAIN seq : seq[i] = x
Keep == UNCHANGED v

Reports(e, s) ==
  /\ e.dims = s
  /\ e.mins = WMins(s) /\ e.maxs = WMaxs(s) /\ e.exts = WExts(s) /\ e.strs = WStrs(s)
  /\ e.size = WSize(s)
  /\ e.empty = WEmpty(s)
  /\ e.iter = [i \in DOMAIN s |-> <<WMn(s[i]), BAdd(WMn(s[i]), WEx(s[i]))>>]
  /\ e.res = WResolved(s)
  /\ (WResolved(s) /\ ~WEmpty(s)) =>
       /\ e.fmin = WFlatMin(s) /\ e.fmax = WFlatMax(s) /\ e.fext = WFlatExtent(s)
       /\ WNested(s) => (e.o2o /\ e.compact = (WSize(s) = WFlatExtent(s)))
       /\ BLt(WFlatExtent(s), WSize(s)) => ~e.o2o

New(e) == e.op = "new" /\ Reports(e, e.arg) /\ v' = e.arg
Set(e) ==
  /\ e.op = "set"
  /\ LET d == v[e.d]
         w == [v EXCEPT ![e.d] =
                CASE e.what = 0 -> <<e.v, d[2], d[3]>>
                  [] e.what = 1 -> <<d[1], e.v, d[3]>>
                  [] e.what = 2 -> <<d[1], d[2], e.v>>
                  [] e.what = 3 -> <<d[1], BAdd(BSub(e.v, d[1]), BOne), d[3]>>]
     IN Reports(e, w) /\ v' = w
(* Resolution, wherever it happens.                                        *)
Res(e) ==
  /\ e.op = "resolve"
  /\ LET w == WResolve(v) IN
     /\ Reports(e, w)
     /\ All(e.others, w)
     /\ (WNested(v) /\ ~WEmpty(v)) => (WNested(w) /\ e.o2o)
     /\ ((\A i \in DOMAIN v : WSt(v[i]) = WUNR) /\ ~WEmpty(v)) => WSize(w) = WFlatExtent(w)
     /\ v' = w
(* Element addresses, relative to base: in bounds only.                    *)
At(e) == e.op = "at" /\ WInRange(v, e.idx) /\ All(e.offs, WOffset(v, e.idx)) /\ Keep
Data(e) == e.op = "data" /\ All(e.data, WFlatMin(v)) /\ Keep
InR(e) == e.op = "inr" /\ All(e.in, WInRange(v, e.idx)) /\ Keep
InRI(e) ==
  /\ e.op = "inri"
  /\ e.in = \A i \in DOMAIN v :
       WInDim(v[i], e.args[i][1]) /\ WInDim(v[i], BSub(BAdd(e.args[i][1], e.args[i][2]), BOne))
  /\ Keep
(* A view: the new dimensions and the address of its base.                 *)
Sliced(e) ==
  /\ e.op = "slice"
  /\ \A k \in DOMAIN e.got : e.got[k] = <<WSlice(v, e.args), WSliceOffset(v, e.args)>>
  /\ Keep
Permuted(e) ==
  /\ e.op = "permute"
  /\ \A k \in DOMAIN e.got : e.got[k] = <<[i \in DOMAIN e.perm |-> v[e.perm[i]]], BZero>>
  /\ Keep
(* set_shape with an offset: the base moves by it.                         *)
SetShape(e) == e.op = "setshape" /\ e.got = <<e.arg, e.offset>> /\ Keep

(* Intervals.                                                              *)
Split(e) ==
  /\ e.op = "split"
  /\ WCovers(e.v, e.inner, Len(e.pieces))
  /\ e.size = Len(e.pieces)
  /\ \A k \in DOMAIN e.pieces :
       /\ e.pieces[k] = WPiece(e.v, e.inner, e.fixed, k - 1)
       /\ e.access[k] = e.pieces[k]
       /\ e.maxs[k] = BSub(BAdd(e.pieces[k][1], e.pieces[k][2]), BOne)
  /\ Keep
(* Splits into more pieces than can be walked: any piece can be reached at *)
(* once.  Past the last piece is the end, if the pieces are all whole.     *)
SplitFar(e) ==
  /\ e.op = "splitfar"
  /\ e.size = e.count
  /\ BLt(BMul(BSub(e.count, BOne), e.inner), e.v[2]) /\ BLe(e.v[2], BMul(e.count, e.inner))
  /\ \A i \in DOMAIN e.k :
       /\ e.dist[i] = e.k[i]
       /\ IF e.k[i] = e.count THEN e.plus[i] = <<BOne, B(0)>>
          ELSE LET p == WPieceAt(e.v, e.inner, e.fixed, e.k[i]) IN
               e.pieces[i] = p /\ e.plus[i] = p /\ e.sub[i] = p
  /\ Keep
Interval(e) ==
  /\ e.op = "interval"
  /\ LET mx == BSub(BAdd(e.v[1], e.v[2]), BOne) IN
     /\ All(e.min, e.v[1]) /\ All(e.ext, e.v[2]) /\ All(e.max, mx)
     /\ All(e.end, BAdd(mx, BOne)) /\ All(e.dist, e.v[2])
     /\ \A k \in DOMAIN e.probe :
          /\ All(e.inr[k], BLe(e.v[1], e.probe[k]) /\ BLe(e.probe[k], mx))
          /\ ~IsZero(e.v[2]) => All(e.clamped[k], BMin(BMax(e.probe[k], e.v[1]), mx))
  /\ Keep

(* Iteration over the indices in an order, dimensions of small extents.    *)
Walk(e) ==
  /\ e.op = "walk"
  /\ e.calls = [k \in 1..PProd(e.small, Len(e.small)) |-> WNth(WMins(v), e.small, e.perm, k - 1)]
  /\ [i \in DOMAIN v |-> B(e.small[i])] = WExts(v)
  /\ Keep

(* Offsets of all elements of v, in the default order of the indices.      *)
Count(s, small) == PProd(small, Len(small))
Offs(s, small) ==
  [k \in 1..PProd(small, Len(small)) |->
     WOffset(s, WNth(WMins(s), small, [i \in DOMAIN small |-> i], k - 1))]
(* What for_each_value touched: every element once.                        *)
Values(e) ==
  /\ e.op = "values"
  /\ Len(e.touched) = PProd(e.small, Len(e.small))
  /\ {e.touched[k] : k \in DOMAIN e.touched} = {Offs(v, e.small)[k] : k \in 1..Len(e.touched)}
  /\ Keep
(* Memory reads back as the index determined it: e.read is what the driver *)
(* found at the offsets e.at, which are those of the elements in order.    *)
Stored(e) ==
  /\ e.op = "stored"
  /\ e.at = Offs(v, e.small)
  /\ \A k \in DOMAIN e.read : e.read[k] = e.want[k]
  /\ Len(e.read) = Len(e.at) /\ Len(e.want) = Len(e.at)
  /\ Keep
(* A copy of src (whose elements, at the offsets e.sat, hold e.sval) to v. *)
Copied(e) ==
  /\ e.op = "copied"
  /\ e.dat = Offs(v, e.small)
  /\ e.sat = [k \in 1..Len(e.dat) |->
       WOffset(e.src, WNth(WMins(v), e.small, [i \in DOMAIN v |-> i], k - 1))]
  /\ Len(e.sval) = Len(e.dat)
  /\ e.dval = e.sval
  /\ e.pages                       (* no other page of the destination was touched *)
  /\ Keep
(* Comparisons of v with a copy of it, before and after a difference in    *)
(* one element.                                                            *)
Compared(e) ==
  /\ e.op = "compared"
  /\ All(e.equal, TRUE)
  /\ All(e.differ, FALSE)
  /\ Keep
(* An owning array: what it asks for, and where the elements lie.          *)
Own(e) ==
  /\ e.op = "own"
  /\ e.dims = WResolve(v)
  /\ e.n = WFlatExtent(e.dims)
  /\ e.base = BNeg(WFlatMin(e.dims))
  /\ e.size = WSize(e.dims)
  /\ e.freed = e.n
  /\ Keep

(* Compaction (C18) of shape e.arg, whose constant strides and extents are *)
(* e.sst and e.sext (WUNR where there is none).                            *)
NumConst(t) == Cardinality({i \in DOMAIN t : t[i] # WUNR})
Free(e) == [i \in DOMAIN e.arg |-> <<WMn(e.arg[i]), WEx(e.arg[i]), e.sst[i]>>]
Compacted(e) ==
  /\ e.op = "compact"
  /\ Len(e.out) = Len(e.arg)
  /\ \A i \in DOMAIN e.arg :
       /\ WMn(e.out[i]) = WMn(e.arg[i]) /\ WEx(e.out[i]) = WEx(e.arg[i])
       /\ e.sst[i] # WUNR => (WSt(e.out[i]) = e.sst[i] /\ e.ost[i] = e.sst[i])
       /\ e.ost[i] # WUNR => WSt(e.out[i]) = e.ost[i]
  /\ WResolved(e.out)
  /\ (~WEmpty(e.arg) /\ WNested(Free(e))) => WNested(e.out)
  /\ (~WEmpty(e.arg) /\ (NumConst(e.sst) = 0 \/ (NumConst(e.sst) = 1 /\ \E i \in DOMAIN e.sst : e.sst[i] = BOne)))
       => (WNested(e.out) /\ WSize(e.out) = WFlatExtent(e.out))
  /\ (NumConst(e.sst) = 0 /\ NumConst(e.sext) = Len(e.arg)) =>
       \A i \in DOMAIN e.arg : WSt(e.out[i]) = WProdTo(WExts(e.arg), i - 1) /\ e.ost[i] = WSt(e.out[i])
  /\ Keep

Step(e) ==
  \/ Compacted(e) \/ New(e) \/ Set(e) \/ Res(e) \/ At(e) \/ Data(e) \/ InR(e) \/ InRI(e)
  \/ Sliced(e) \/ Permuted(e) \/ SetShape(e) \/ Split(e) \/ SplitFar(e) \/ Interval(e)
  \/ Walk(e) \/ Values(e) \/ Stored(e) \/ Copied(e) \/ Compared(e) \/ Own(e)
Consume == More /\ Step(Ev) /\ Advance
Next == Consume \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
