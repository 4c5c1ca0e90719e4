----------------------------- MODULE MC_ZOrder -----------------------------
(***************************************************************************)
(* The recursive descent the library uses, as an explicit stack machine:   *)
(* it refines the z-order machine, i.e. each call it makes is the one that *)
(* the order prescribes, and it stops when the order is exhausted.         *)
(***************************************************************************)
EXTENDS ZOrder, TLC
CONSTANTS MaxRank, MaxExt
VARIABLES stack, calls, wrong
vars == <<box, zcode, zgoing, stack, calls, wrong>>

RECURSIVE Step2(_, _)
Step2(r, x) == IF r >= x THEN r ELSE Step2(2 * r, x)
NextPowerOfTwo(x) == Step2(1, x)
MaxOf(b) == CHOOSE m \in {b[d] : d \in DOMAIN b} : \A d \in DOMAIN b : b[d] <= m

Boxes == UNION {[1..r -> 0..(IF r = 1 THEN 4 * MaxExt ELSE IF r = 4 THEN 3 ELSE MaxExt)] : r \in 1..MaxRank}
EmptyBox(b) == \E d \in DOMAIN b : b[d] = 0

Init ==
  /\ box \in Boxes /\ zgoing = TRUE
  /\ zcode = IF EmptyBox(box) THEN -1 ELSE 0
  /\ stack = IF EmptyBox(box) THEN <<>>
             ELSE LET n == NextPowerOfTwo(MaxOf(box)) \div 2
                  IN <<<<[d \in DOMAIN box |-> 0], Len(box), IF n < 1 THEN 1 ELSE n>>>>
  /\ calls = 0 /\ wrong = FALSE

Pop == SubSeq(stack, 1, Len(stack) - 1)
Top == stack[Len(stack)]
Bump(z, d, by) == [z EXCEPT ![d] = @ + by]

(* A frame <<z, dim, step>>; <<z>> is a pending call of the function.      *)
Descend ==
  /\ stack # <<>> /\ Len(Top) = 3
  /\ LET z == Top[1]  d == Top[2]  s == Top[3]
         w == Bump(z, d, s)
         frame(x) == IF d = 1 /\ s = 1 THEN <<x>>
                     ELSE IF d = 1 THEN <<x, Len(box), s \div 2>>
                     ELSE <<x, d - 1, s>>
     IN stack' = Pop \o (IF w[d] < box[d] THEN <<frame(w)>> ELSE <<>>) \o <<frame(z)>>
  /\ UNCHANGED <<box, zcode, zgoing, calls, wrong>>

DoCall ==
  /\ stack # <<>> /\ Len(Top) = 1
  /\ stack' = Pop
  /\ calls' = calls + 1
  /\ IF ENABLED CallZ(Top[1]) THEN CallZ(Top[1]) /\ wrong' = wrong
     ELSE wrong' = TRUE /\ UNCHANGED <<box, zcode, zgoing>>
Next == Descend \/ DoCall
Spec == Init /\ [][Next]_vars

RECURSIVE Prod(_, _)
Prod(b, k) == IF k = 0 THEN 1 ELSE b[k] * Prod(b, k - 1)
Refines == ~wrong
StopsTogether == stack = <<>> => (zcode = -1 /\ calls = Prod(box, Len(box)))
Bijective == zcode >= 0 => Interleave(Position(zcode, Len(box))) = zcode
(* Skipping blocks loses nothing.                                           *)
SkipsRight == zcode >= 0 =>
  LET nx == NextInside(zcode + 1, box)
  IN \A c \in (zcode + 1)..(IF nx = -1 THEN LastCode(box) ELSE nx - 1) : ~Inside(Position(c, Len(box)), box)
=============================================================================
