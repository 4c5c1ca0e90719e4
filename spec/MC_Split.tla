------------------------------ MODULE MC_Split ------------------------------
EXTENDS Split, TLC
CONSTANTS Mins_, MaxExt, MaxInner
VARIABLES seen, pieces
vars == <<outer, inner, fixed, piece, walked, seen, pieces>>
MCMins == {-3, 0, 2}
Init == SplitInit /\ seen = {} /\ pieces = <<>>
Start ==
  /\ pieces = <<>> /\ outer = <<0, 0>> /\ walked = 0
  /\ \E m \in Mins_, x \in 0..MaxExt, n \in 1..MaxInner, fx \in BOOLEAN : StartSplit(<<m, x>>, n, fx)
  /\ UNCHANGED <<seen, pieces>>
Walk == WalkPiece /\ seen' = seen \cup Elems(piece) /\ pieces' = Append(pieces, piece)
Next == Start \/ Walk
Spec == Init /\ [][Next]_vars

NothingElse == seen \subseteq Elems(outer)
CoversAll == (AtEnd /\ pieces # <<>>) => seen = Elems(outer)
EmptyHasNone == IExt(outer) = 0 => pieces = <<>>
CountRight == AtEnd => walked = NumPieces(outer, inner)
Increasing == \A k \in 1..(Len(pieces) - 1) : IMin(pieces[k]) < IMin(pieces[k + 1])
FormulaAgrees == \A k \in DOMAIN pieces : pieces[k] = Piece(outer, inner, fixed, k - 1)
FullSized == \A k \in DOMAIN pieces :
   /\ IExt(pieces[k]) >= 1
   /\ (fixed \/ k < Len(pieces)) /\ ~(~fixed /\ IExt(outer) < inner) => IExt(pieces[k]) = inner
OverlapOnlyLast ==
  \A k \in 1..(Len(pieces) - 1) :
    (k + 1 < NumPieces(outer, inner) \/ ~fixed) => IMin(pieces[k + 1]) = IMax(pieces[k]) + 1
=============================================================================
