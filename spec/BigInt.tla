------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Integers beyond TLC's 32 bits, for bounds, strides and offsets as large *)
(* as the 64-bit indices of the implementation.  A number is a sequence    *)
(* <<sign, digit_1, ..., digit_Limbs>>, least significant digit first; the *)
(* sign is 1 or -1, and 1 for zero.  Results must fit in Limbs digits.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Base, Limbs

Digit(n, i) == n[i + 1]
BSign(n) == n[1]

RECURSIVE MagAddFrom(_, _, _, _)
MagAddFrom(a, b, i, c) ==
  IF i > Limbs THEN <<>>
  ELSE LET t == Digit(a, i) + Digit(b, i) + c
       IN <<t % Base>> \o MagAddFrom(a, b, i + 1, t \div Base)
(* |a| >= |b| *)
RECURSIVE MagSubFrom(_, _, _, _)
MagSubFrom(a, b, i, c) ==
  IF i > Limbs THEN <<>>
  ELSE LET t == Digit(a, i) - Digit(b, i) - c
       IN IF t < 0 THEN <<t + Base>> \o MagSubFrom(a, b, i + 1, 1)
          ELSE <<t>> \o MagSubFrom(a, b, i + 1, 0)
RECURSIVE MagLtFrom(_, _, _)
MagLtFrom(a, b, i) ==
  IF i = 0 THEN FALSE
  ELSE IF Digit(a, i) # Digit(b, i) THEN Digit(a, i) < Digit(b, i)
  ELSE MagLtFrom(a, b, i - 1)
MagLt(a, b) == MagLtFrom(a, b, Limbs)

BZero == [i \in 1..(Limbs + 1) |-> IF i = 1 THEN 1 ELSE 0]
IsZero(n) == \A i \in 2..(Limbs + 1) : n[i] = 0
Signed(s, m) == LET n == <<s>> \o m IN IF s = -1 /\ IsZero(n) THEN BZero ELSE n

BNeg(a) == IF IsZero(a) THEN a ELSE [a EXCEPT ![1] = -@]
BAbs(a) == [a EXCEPT ![1] = 1]
BAdd(a, b) ==
  IF BSign(a) = BSign(b) THEN Signed(BSign(a), MagAddFrom(a, b, 1, 0))
  ELSE IF MagLt(a, b) THEN Signed(BSign(b), MagSubFrom(b, a, 1, 0))
  ELSE Signed(BSign(a), MagSubFrom(a, b, 1, 0))
BSub(a, b) == BAdd(a, BNeg(b))

RECURSIVE ColFrom(_, _, _, _)
ColFrom(a, b, k, i) ==   (* the digits i..k of a against those of b *)
  IF i > k THEN 0 ELSE Digit(a, i) * Digit(b, k - i + 1) + ColFrom(a, b, k, i + 1)
RECURSIVE MagMulFrom(_, _, _, _)
MagMulFrom(a, b, k, c) ==
  IF k > Limbs THEN <<>>
  ELSE LET t == ColFrom(a, b, k, 1) + c
       IN <<t % Base>> \o MagMulFrom(a, b, k + 1, t \div Base)
BMul(a, b) ==
  IF IsZero(a) \/ IsZero(b) THEN BZero
  ELSE Signed(BSign(a) * BSign(b), MagMulFrom(a, b, 1, 0))

BLt(a, b) ==
  IF BSign(a) # BSign(b) THEN BSign(a) = -1
  ELSE IF BSign(a) = 1 THEN MagLt(a, b) ELSE MagLt(b, a)
BLe(a, b) == ~BLt(b, a)
BMin(a, b) == IF BLt(a, b) THEN a ELSE b
BMax(a, b) == IF BLt(a, b) THEN b ELSE a

RECURSIVE Digits(_, _)
Digits(k, i) == IF i > Limbs THEN <<>> ELSE <<k % Base>> \o Digits(k \div Base, i + 1)
B(k) == Signed(IF k < 0 THEN -1 ELSE 1, Digits(IF k < 0 THEN -k ELSE k, 1))
BOne == B(1)
=============================================================================
