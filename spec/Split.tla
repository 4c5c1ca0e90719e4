------------------------------- MODULE Split -------------------------------
(***************************************************************************)
(* Intervals and their splitting into pieces (C06).  An interval is        *)
(* <<min, extent>> and stands for [min, min + extent).  The machine walks  *)
(* the pieces; `left` is what is still to be covered.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  outer,   (* the interval being split *)
  inner,   (* the piece size *)
  fixed,   (* the size is a compile-time constant: the last piece is shifted *)
  piece,   (* the piece the walk is at; its extent is 0 at the end *)
  walked   (* how many pieces have been passed *)
splitVars == <<outer, inner, fixed, piece, walked>>

IMin(v) == v[1]
IExt(v) == v[2]
IMax(v) == v[1] + v[2] - 1
Elems(v) == IMin(v)..IMax(v)

Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == Lesser(Greater(x, lo), hi)

NumPieces(v, n) == (IExt(v) + n - 1) \div n
(* The k-th piece, k \in 0..NumPieces-1.                                   *)
Piece(v, n, fx, k) ==
  LET at == IMin(v) + k * n
      over == at + n - 1 > IMax(v)
  IN IF ~over THEN <<at, n>>
     ELSE IF fx THEN <<IMax(v) - n + 1, n>>
     ELSE <<at, IMax(v) - at + 1>>

SplitInit == outer = <<0, 0>> /\ inner = 1 /\ fixed = FALSE /\ piece = <<0, 0>> /\ walked = 0

EndPiece(v) == <<IMax(v) + 1, 0>>
FirstPiece(v, n, fx) == IF IExt(v) = 0 THEN EndPiece(v)
                        ELSE <<IMin(v), IF fx THEN n ELSE Lesser(n, IExt(v))>>

StartSplit(v, n, fx) ==
  /\ fx => IExt(v) >= n
  /\ outer' = v /\ inner' = n /\ fixed' = fx
  /\ piece' = FirstPiece(v, n, fx)
  /\ walked' = 0

AtEnd == IMin(piece) > IMax(outer)
(* One step of the walk: start where this piece ends; if less than a full  *)
(* piece is left, cut it short, or shift it back if its size is constant.  *)
NextPiece ==
  LET at == IMin(piece) + IExt(piece)
      left == IMax(outer) - at + 1
  IN IF left <= 0 THEN EndPiece(outer)
     ELSE IF left >= inner THEN <<at, inner>>
     ELSE IF fixed THEN <<IMax(outer) - inner + 1, inner>>
     ELSE <<at, left>>
WalkPiece ==
  /\ ~AtEnd
  /\ piece' = NextPiece
  /\ walked' = walked + 1
  /\ UNCHANGED <<outer, inner, fixed>>
=============================================================================
