----------------------------- MODULE SplitTrace -----------------------------
(***************************************************************************)
(* Conformance of intervals and splits (C06).                              *)
(***************************************************************************)
EXTENDS Split, TraceBase

VARIABLE iv   (* the interval object under test *)
vars == <<sid, l, outer, inner, fixed, piece, walked, iv>>
Init == TInit /\ SplitInit /\ iv = <<0, 0>>

KeepSplit == UNCHANGED splitVars
KeepIv == UNCHANGED iv

Begin(e) == e.op = "split" /\ StartSplit(e.v, e.inner, e.fixed) /\ KeepIv

(* The walk is at a piece: the loop body runs.                             *)
AtPiece(e) ==
  /\ e.op = "piece"
  /\ ~AtEnd
  /\ e.p = piece
  /\ e.max = IMax(piece)
  /\ e.elems = [i \in 1..IExt(piece) |-> IMin(piece) + i - 1]
  /\ \A i \in DOMAIN e.diffs : e.diffs[i] = walked
  /\ WalkPiece
  /\ KeepIv

(* The walk is over; every walk so far visited as many.                    *)
Over(e) ==
  /\ e.op = "over"
  /\ AtEnd
  /\ walked = NumPieces(outer, inner)
  /\ e.size = walked
  /\ e.walks = [i \in DOMAIN e.walks |-> walked]
  /\ e.fromend = [i \in DOMAIN e.fromend |-> walked - (i - 1)]
  /\ KeepSplit /\ KeepIv

(* Random access to piece k in several ways.                               *)
Access(e) ==
  /\ e.op = "access"
  /\ e.k \in 0..(NumPieces(outer, inner) - 1)
  /\ \A i \in DOMAIN e.ps : e.ps[i] = Piece(outer, inner, fixed, e.k)
  /\ \A i \in DOMAIN e.ds : e.ds[i] = e.k - e.j
  /\ e.eqs = (e.j = e.k)
  /\ KeepSplit /\ KeepIv

----------------------------------------------------------------------------
Reports(e, v) ==
  /\ e.min = IMin(v) /\ e.ext = IExt(v) /\ e.size = IExt(v) /\ e.max = IMax(v)
  /\ e.iter = [i \in 1..IExt(v) |-> IMin(v) + i - 1]
  /\ e.iter2 = e.iter
  /\ e.back = [i \in 1..IExt(v) |-> IMax(v) - i + 1]
  /\ e.dist = IExt(v)
  /\ e.nth = e.iter
  /\ \A i \in DOMAIN e.probe : e.inr[i] = (e.probe[i] \in Elems(v))
  /\ \A i \in DOMAIN e.probe : e.dinr[i] = (e.probe[i] \in Elems(v))
  /\ IExt(v) > 0 => \A i \in DOMAIN e.probe : e.clamped[i] = Clamp(e.probe[i], IMin(v), IMax(v))
  /\ IExt(v) > 0 => e.clamped2 = e.clamped

NewInterval(e) == e.op = "interval" /\ Reports(e, e.arg) /\ iv' = e.arg /\ KeepSplit
(* Half-open ranges.                                                       *)
NewRange(e) ==
  /\ e.op = "range"
  /\ LET v == <<e.begin, e.end - e.begin>> IN Reports(e, v) /\ iv' = v
  /\ KeepSplit
SetIv(e) ==
  /\ e.op = "set"
  /\ LET v == CASE e.what = 0 -> <<e.v, IExt(iv)>>
                [] e.what = 1 -> <<IMin(iv), e.v>>
                [] e.what = 2 -> <<IMin(iv), e.v - IMin(iv) + 1>>
     IN Reports(e, v) /\ iv' = v
  /\ KeepSplit
(* Against another interval, which is not empty.                           *)
Compare(e) ==
  /\ e.op = "compare"
  /\ e.eq = (iv = e.other)
  /\ e.ne = ~e.eq
  /\ IExt(e.other) > 0 => \A i \in DOMAIN e.within : e.within[i] = (Elems(e.other) \subseteq Elems(iv))
  /\ KeepSplit /\ KeepIv

Step(e) ==
  \/ Begin(e) \/ AtPiece(e) \/ Over(e) \/ Access(e)
  \/ NewInterval(e) \/ NewRange(e) \/ SetIv(e) \/ Compare(e)
Consume == More /\ Step(Ev) /\ Advance
Next == Consume \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
