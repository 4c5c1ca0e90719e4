------------------------------- MODULE ZOrder -------------------------------
(***************************************************************************)
(* Z-order traversal (C07): the positions of a box are visited in the      *)
(* order of their bit-interleaved code, the first range least significant. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  box,     (* the extents of the ranges *)
  zcode,   (* the code of the next position; -1 when all have been visited *)
  zgoing
zVars == <<box, zcode, zgoing>>

ZInit == box = <<>> /\ zcode = -1 /\ zgoing = FALSE

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* Every r-th bit of c, starting with bit d.                               *)
RECURSIVE Gather(_, _, _)
Gather(c, r, d) == IF c = 0 THEN 0
                   ELSE ((c \div Pow2(d)) % 2) + 2 * Gather(c \div Pow2(r), r, d)
Position(c, r) == [d \in 1..r |-> Gather(c, r, d - 1)]

RECURSIVE Interleave(_)
Interleave(x) ==
  IF \A d \in DOMAIN x : x[d] = 0 THEN 0
  ELSE LET low == [d \in DOMAIN x |-> (x[d] % 2) * Pow2(d - 1)]
           RECURSIVE Sum(_)
           Sum(k) == IF k = 0 THEN 0 ELSE low[k] + Sum(k - 1)
       IN Sum(Len(x)) + Pow2(Len(x)) * Interleave([d \in DOMAIN x |-> x[d] \div 2])

Inside(x, b) == \A d \in DOMAIN b : x[d] < b[d]
LastCode(b) == Interleave([d \in DOMAIN b |-> b[d] - 1])

(* The least code not below c of a position inside the box.  A position     *)
(* outside means that the whole block of codes starting with it, as large   *)
(* as its alignment allows, is outside: no coordinate in it is smaller.     *)
RECURSIVE LowBit(_)
LowBit(c) == IF c % 2 = 1 THEN 1 ELSE 2 * LowBit(c \div 2)
RECURSIVE NextInside(_, _)
NextInside(c, b) ==
  IF c > LastCode(b) THEN -1
  ELSE IF Inside(Position(c, Len(b)), b) THEN c
  ELSE NextInside(c + LowBit(c), b)

BeginZ(b) ==
  /\ ~zgoing /\ zgoing' = TRUE
  /\ box' = b
  /\ zcode' = IF \E d \in DOMAIN b : b[d] = 0 THEN -1 ELSE 0

CallZ(x) ==
  /\ zgoing /\ zcode >= 0
  /\ x = Position(zcode, Len(box))
  /\ zcode' = NextInside(zcode + 1, box)
  /\ UNCHANGED <<box, zgoing>>

EndZ == zgoing /\ zcode = -1 /\ zgoing' = FALSE /\ UNCHANGED <<box, zcode>>
=============================================================================
