----------------------------- MODULE LayoutOpt -----------------------------
(***************************************************************************)
(* What a traversal may do to a layout before it walks it: exchange loops, *)
(* fuse a loop with the one outside it when they are contiguous, in one    *)
(* operand or in several at the same time, and pad with unit loops.  The   *)
(* state is a sequence of loops; a loop has an extent and, per operand, a  *)
(* stride.  Whatever is done, the combinations of offsets visited must     *)
(* stay the bag they were.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Rank, Exts_, StridesA, StridesB

VARIABLES loops, start, pc
vars == <<loops, start, pc>>

(* A loop: <<extent, stride in a, stride in b>>.                           *)
LoopSet == {<<x, a, b>> : x \in Exts_, a \in StridesA, b \in StridesB}

RECURSIVE Walk(_, _, _)
(* All <<offset a, offset b>> visited, as a sequence.                      *)
Walk(ls, oa, ob) ==
  IF ls = <<>> THEN <<<<oa, ob>>>>
  ELSE LET d == ls[Len(ls)]
           rest == SubSeq(ls, 1, Len(ls) - 1)
           RECURSIVE Go(_)
           Go(k) == IF k = d[1] THEN <<>> ELSE Walk(rest, oa + k * d[2], ob + k * d[3]) \o Go(k + 1)
       IN Go(0)
Bag(ls) == LET w == Walk(ls, 0, 0)
           IN [p \in {w[i] : i \in DOMAIN w} |-> Cardinality({i \in DOMAIN w : w[i] = p})]

CanFuse(i, o) == i[2] * i[1] = o[2] /\ i[3] * i[1] = o[3]
Fuse(i, o) == <<i[1] * o[1], i[2], i[3]>>

Init == loops \in [1..Rank -> LoopSet] /\ start = loops /\ pc = "sort"

(* The exchange sort the library uses is a sequence of exchanges; any      *)
(* sequence is allowed here.                                               *)
Exchange ==
  /\ pc = "sort"
  /\ \E i, j \in DOMAIN loops : i < j /\ loops' = [loops EXCEPT ![i] = loops[j], ![j] = loops[i]]
  /\ UNCHANGED <<start, pc>>
Sorted == pc = "sort" /\ pc' = "fuse" /\ UNCHANGED <<loops, start>>
FuseSome ==
  /\ pc = "fuse"
  /\ \E i \in 1..(Len(loops) - 1) :
       /\ CanFuse(loops[i], loops[i + 1])
       /\ loops' = SubSeq(loops, 1, i - 1) \o <<Fuse(loops[i], loops[i + 1])>>
                   \o SubSeq(loops, i + 2, Len(loops))
  /\ UNCHANGED <<start, pc>>
Pad ==
  /\ pc = "fuse" /\ Len(loops) < Len(start)
  /\ loops' = Append(loops, <<1, 0, 0>>)
  /\ UNCHANGED <<start, pc>>
Next == Exchange \/ Sorted \/ FuseSome \/ Pad
Spec == Init /\ [][Next]_vars

SameVisits == Bag(loops) = Bag(start)
MCStridesA == {-3, -1, 0, 1, 2, 4}
MCStridesB == {-2, 1, 3}
OneStride == {0}
=============================================================================
