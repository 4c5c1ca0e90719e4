----------------------------- MODULE MC_BigInt -----------------------------
(* The arithmetic of BigInt is that of the integers: exhaustive for all    *)
(* pairs within Limit, with a tiny base so that every carry occurs.        *)
EXTENDS BigInt
CONSTANT Limit
VARIABLES x, y
Init == x \in -Limit..Limit /\ y \in -Limit..Limit
Next == UNCHANGED <<x, y>>

RECURSIVE Value(_, _)
Value(n, i) == IF i > Limbs THEN 0 ELSE Digit(n, i) + Base * Value(n, i + 1)
ToInt(n) == BSign(n) * Value(n, 1)
Canonical(n) ==
  /\ Len(n) = Limbs + 1 /\ n[1] \in {1, -1}
  /\ \A i \in 2..(Limbs + 1) : n[i] \in 0..(Base - 1)
  /\ IsZero(n) => n = BZero

Correct ==
  LET a == B(x) b == B(y) IN
  /\ ToInt(a) = x /\ Canonical(a)
  /\ ToInt(BNeg(a)) = -x /\ ToInt(BAbs(a)) = (IF x < 0 THEN -x ELSE x)
  /\ ToInt(BAdd(a, b)) = x + y /\ Canonical(BAdd(a, b))
  /\ ToInt(BSub(a, b)) = x - y /\ Canonical(BSub(a, b))
  /\ ToInt(BMul(a, b)) = x * y /\ Canonical(BMul(a, b))
  /\ BLt(a, b) = (x < y) /\ BLe(a, b) = (x <= y)
  /\ ToInt(BMin(a, b)) = (IF x < y THEN x ELSE y)
  /\ ToInt(BMax(a, b)) = (IF x < y THEN y ELSE x)
  /\ (a = b) = (x = y)
=============================================================================
