----------------------------- MODULE MC_Contract -----------------------------
(***************************************************************************)
(* The contract as a machine (C17).  A variable of a shape type `typ`      *)
(* refers to memory through the view `cur`; `home` are the addresses it    *)
(* had when it was made.  An operation within its contract changes the     *)
(* view; any other one stops the program, which has no further states.     *)
(*                                                                         *)
(* Safe: a program that goes on only addresses memory it was given, and    *)
(* every shape has the constants of its type.  Needed: no operation is     *)
(* refused without a reason, i.e. every refused one would have broken one  *)
(* of these.  GEN mode prints pairs of layouts as plans for the driver.    *)
(***************************************************************************)
EXTENDS Contract, TLC, Json

CONSTANTS Ranks, MaxExtent, Strides, NewStrides, Mins0, Offs, Vals, Depth

VARIABLES home, cur, typ, n
vars == <<mem, stm, k, home, cur, typ, n>>

Layouts(r, mins, exts, strides) == [1..r -> {<<m, e, t>> : m \in mins, e \in exts, t \in strides}]
AddrOf(b, d) == {b + Offset(d, x) : x \in Indices(d)}
Hull(b, d) == (b + FlatMin(d))..(b + FlatMax(d))
Dyn(r) == [i \in 1..r |-> <<DYN, DYN, DYN>>]
Types(r) == [1..r -> {<<m, e, t>> : m \in {DYN, 0}, e \in {DYN, 1, 2}, t \in {DYN, 1, 2}}]

Init ==
  /\ \E r \in Ranks : \E d \in Layouts(r, Mins0, 1..MaxExtent, Strides) :
       /\ cur = [b |-> 0, d |-> d] /\ home = Hull(0, d) /\ typ = Dyn(r)
  /\ n = 0
  /\ mem = 0 /\ stm = IDLE /\ k = 0

Reshapes == {[f |-> f, t |-> <<>>, d |-> cur.d, new |-> new, off |-> off] :
               new \in IF Len(cur.d) \in Ranks THEN Layouts(Len(cur.d), Mins0, 0..MaxExtent, NewStrides) ELSE {},
               off \in Offs, f \in {"setshape", "reint"}}
Conversions == {[f |-> "convert", t |-> t, d |-> cur.d] : t \in Types(Len(cur.d))}
RankChanges == UNION {{[f |-> "rank", t |-> t, d |-> cur.d] : t \in Types(r)} : r \in {1, 2} \ {Len(cur.d)}}
Copies == {[f |-> "copy", t |-> <<>>, d |-> cur.d, new |-> d] : d \in Layouts(Len(cur.d), Vals, 0..MaxExtent, {1})}

Do(e, next, t) ==
  /\ n < Depth /\ n' = n + 1
  /\ Verdict(e) = "fine"
  /\ cur' = next /\ typ' = t
  /\ UNCHANGED <<home, mem, stm, k>>
SomeStride(d) == [i \in DOMAIN d |-> IF St(d[i]) = UNR THEN <<d[i][1], d[i][2], 7>> ELSE d[i]]

SetShape == \E e \in Reshapes : Do(e, [b |-> cur.b + e.off, d |-> Resolve(e.new)], Dyn(Len(e.new)))
ConvertTo == \E e \in Conversions : Do(e, [cur EXCEPT !.d = Convert(e.t, @)], e.t)
DropOrAdd == \E e \in RankChanges : Do(e, [cur EXCEPT !.d = SomeStride(ConvertRank(e.t, @))], e.t)
CopyFrom == \E e \in Copies : Do(e, cur, typ)
Next == SetShape \/ ConvertTo \/ DropOrAdd \/ CopyFrom
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Safe ==
  /\ AddrOf(cur.b, cur.d) \subseteq home
  /\ Compat(typ, cur.d)

Refused(S) == {e \in S : Verdict(e) = "abort"}
Needed ==
  /\ \A e \in Refused(Reshapes) :
       (e.f = "setshape" /\ ~Resolved(e.new)) \/ ~(AddrOf(e.off, Resolve(e.new)) \subseteq Hull(0, e.d))
  /\ \A e \in Refused(Conversions) : ~Compat(e.t, e.d)
  /\ \A e \in Refused(RankChanges) :   \* a kept dimension changes, or elements are lost or added
       LET new == ConvertRank(e.t, e.d)
       IN \/ Size(new) # Size(e.d)
          \/ \E i \in DOMAIN new : i <= Len(e.d) /\ ~DimCompat(e.t[i], e.d[i])
          \/ \E i \in DOMAIN e.t : i > Len(e.d) /\ e.t[i][2] \notin {1, DYN}
          \/ \E i \in DOMAIN e.d : i > Len(new) /\ Ex(e.d[i]) # 1
  /\ \A e \in Refused(Copies) : \E x \in Indices(e.new) : ~InRange(e.d, x)
(* A copy within its contract reads the source in range only.              *)
Reads == \A e \in Copies : Verdict(e) = "fine" => \A x \in Indices(e.new) : InRange(e.d, x)

EmitPlan ==
  n = 0 => \A new \in Layouts(Len(cur.d), Mins0, 0..MaxExtent, NewStrides), off \in Offs :
             \/ ~Resolved(new) /\ off # 0
             \/ PrintT("PLAN " \o ToJson([old |-> cur.d, new |-> new, off |-> off]))
NoSteps == UNCHANGED vars

S1 == {-2, -1, 0, 1, 2}
S2 == {-2, 1, 2}
N1 == {-2, -1, 0, 1, 2, UNR}
N2 == {-1, 1, 2, UNR}
M1 == {-1, 0}
O1 == -2..2
V1 == -2..2
O2 == {-2, 0, 1}
Z0 == {0}
=============================================================================
