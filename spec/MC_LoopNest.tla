---------------------------- MODULE MC_LoopNest ----------------------------
(* The odometer visits exactly the sequence of indices that the layout     *)
(* algebra defines, for every shape and every loop order within bounds.    *)
EXTENDS LoopNest, TLC

CONSTANTS MaxRank, Mins_, Exts_
VARIABLES shp, hist
vars == <<nest, order, cur, going, shp, hist>>

MCMins == {-1, 2}
Shapes == UNION {[1..r -> {<<m, x, 1>> : m \in Mins_, x \in Exts_}] : r \in 0..MaxRank}
Injective(p) == \A i, j \in DOMAIN p : i # j => p[i] # p[j]
Orders(s) == {p \in UNION {[1..r -> DOMAIN s] : r \in 0..Len(s)} :
                Injective(p) /\ (Len(p) > 0 \/ Len(s) = 0)}

Init == NestInit /\ shp \in Shapes /\ hist = <<>>
Start == ~going /\ hist = <<>> /\ cur = STOP /\ (\E p \in Orders(shp) : Begin(shp, p)) /\ UNCHANGED <<shp, hist>>
Step == going /\ cur # STOP /\ Call(Unshuffle(order, cur[1]))
        /\ hist' = Append(hist, Unshuffle(order, cur[1])) /\ UNCHANGED shp
Next == Start \/ Step
Spec == Init /\ [][Next]_vars

AllOnce == \A i, j \in DOMAIN hist : i # j => hist[i] # hist[j]
Prefix == going => hist = SubSeq(OrderedIndices(shp, order), 1, Len(hist))
Total == (going /\ cur = STOP) => Len(hist) = Size(nest)
OnlyInBounds ==
  going => \A i \in DOMAIN hist : \A k \in DOMAIN order :
             InDim(shp[SortedDims(order)[k]], hist[i][k])
FullSet == (going /\ cur = STOP /\ Len(order) = Len(shp)) => SeqRange(hist) = Indices(shp)
Innermost ==   (* consecutive calls advance the innermost loop while it has room *)
  going => \A k \in 1..(Len(hist) - 1) :
     LET d == PosIn(SortedDims(order), order[1])
     IN hist[k][d] < Mx(shp[order[1]]) => hist[k + 1] = [hist[k] EXCEPT ![d] = @ + 1]
=============================================================================
