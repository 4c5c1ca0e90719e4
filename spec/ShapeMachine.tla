---------------------------- MODULE ShapeMachine ----------------------------
(***************************************************************************)
(* A shape object as a state machine: its dimensions are changed one       *)
(* attribute at a time and resolved.  The invariants are the theorems of   *)
(* the layout algebra the library promises: they are checked in every      *)
(* state reachable within the constants.                                   *)
(***************************************************************************)
EXTENDS NDShape, TLC, Json

CONSTANTS Ranks, Mins_, Exts_, Strides_

VARIABLE s

StrideChoices == Strides_ \cup {UNR}
Dims == Mins_ \X Exts_ \X StrideChoices

Init == s \in UNION {[1..r -> {<<CHOOSE m \in Mins_ : TRUE, 1, UNR>>}] : r \in Ranks}

DoMin == \E i \in DOMAIN s, m \in Mins_ : s' = [s EXCEPT ![i] = <<m, @[2], @[3]>>]
DoExtent == \E i \in DOMAIN s, x \in Exts_ : s' = [s EXCEPT ![i] = <<@[1], x, @[3]>>]
DoStride == \E i \in DOMAIN s, t \in StrideChoices : s' = [s EXCEPT ![i] = <<@[1], @[2], t>>]
(* Resolution leaves the enumerated strides; the theorems below look at    *)
(* its result in every state, so the machine need not follow it.           *)
Next == DoMin \/ DoExtent \/ DoStride
Spec == Init /\ [][Next]_s

----------------------------------------------------------------------------
(* C02 *)
R == Resolve(s)
ResolveTotal == \A i \in DOMAIN s : St(s[i]) = UNR => FitCandidates(s, Ex(s[i])) # {}
ResolveKeeps ==
  /\ Resolved(R) /\ SameBounds(R, s)
  /\ \A i \in DOMAIN s : St(s[i]) # UNR => R[i] = s[i]
ResolveIdempotent == Resolve(R) = R
ResolveInjective == (Nested(s) /\ ~Empty(s)) => OneToOne(R)
ResolveCompact == ((\A i \in DOMAIN s : St(s[i]) = UNR) /\ ~Empty(s)) =>
                    /\ Compact(R) /\ OneToOne(R)
                    (* dimensions of extent above one are laid out in order *)
                    /\ \A i \in DOMAIN s : Ex(s[i]) > 1 => St(R[i]) = ProdExts(s, i - 1)
(* No smaller allowed stride exists for the first unknown dimension.       *)
FirstUnknown == CHOOSE i \in DOMAIN s : St(s[i]) = UNR /\ \A j \in 1..(i - 1) : St(s[j]) # UNR
ResolveSmallest ==
  ~Resolved(s) =>
    \A c \in Candidates(s) :
      (\A j \in DOMAIN s : StrideFits(c, Ex(s[FirstUnknown]), s[j])) => St(R[FirstUnknown]) <= c
(* A known layout of which only nested parts are known stays injective.    *)
NestedIsInjective == (Resolved(s) /\ Nested(s) /\ ~Empty(s)) => OneToOne(s)

(* C01 *)
FlatBounds ==
  (Resolved(s) /\ ~Empty(s)) =>
    /\ \A o \in Offsets(s) : FlatMin(s) <= o /\ o <= FlatMax(s)
    /\ FlatMin(s) \in Offsets(s) /\ FlatMax(s) \in Offsets(s)
FirstIsBase == (Resolved(s) /\ ~Empty(s)) => Offset(s, Mins(s)) = 0
SizeCounts == Cardinality(Indices(s)) = Size(s)
RangeIsExact == \A x \in Indices(s) : InRange(s, x)

(* C03 *)
OrderIsBijection ==
  /\ Len(IndexOrder(s)) = Size(s)
  /\ \A k \in 1..Size(s) : PosOf(s, IndexOrder(s)[k]) = k
InnermostFirst ==
  \A k \in 1..(Size(s) - 1) :
    LET a == IndexOrder(s)[k]
        b == IndexOrder(s)[k + 1]
        d == CHOOSE i \in DOMAIN s : a[i] # b[i] /\ \A j \in (i + 1)..Len(s) : a[j] = b[j]
    IN b[d] = a[d] + 1 /\ \A j \in 1..(d - 1) : b[j] = Mn(s[j])

Emit == PrintT("PLAN " \o ToJson([s |-> s]))
=============================================================================
