---------------------------- MODULE MC_Transfer ----------------------------
(***************************************************************************)
(* All pairs of small layouts, placed side by side in one memory, with the *)
(* assignments of a transfer in every order.  GEN mode prints the pairs as *)
(* plans for the driver.                                                   *)
(***************************************************************************)
EXTENDS Transfer, TLC, Json

CONSTANTS Ranks, MaxExtent, SrcStrides, DstStrides, SrcMins, Moves, MaxSize

VARIABLES sv, dv, start
vars == <<mem, pend, op, sv, dv, start>>

Dyn(n) == [i \in 1..n |-> <<DYN, DYN, DYN>>]
Layouts(n, mins, strides) == [1..n -> {<<m, e, t>> : m \in mins, e \in 0..MaxExtent, t \in strides}]
At(d, lo) == View(FALSE, lo - (IF Empty(d) THEN 0 ELSE FlatMin(d)), Dyn(Len(d)), d)
Gap == 2
Pairing(s, d) ==
  /\ Size(s) <= MaxSize /\ ~Empty(s)
  /\ OneToOne(d)
  /\ \A i \in DOMAIN s : Ex(s[i]) >= Ex(d[i])
  /\ Empty(d) \/ (InRange(s, Mins(d)) /\ InRange(s, Maxs(d)))

InitWith(n, s, d) ==
  /\ Pairing(s, d)
  /\ sv = At(s, Gap)
  /\ dv = At(d, Gap + FlatExtent(s) + Gap)
  /\ mem = [o \in 0..(3 * Gap + FlatExtent(s) + (IF Empty(d) THEN 0 ELSE FlatExtent(d))) |-> 10 + o]
  /\ start = mem /\ pend = NoPend /\ op = ""
Init ==
  \E n \in Ranks : \E s \in Layouts(n, SrcMins, SrcStrides) : \E d \in Layouts(n, {0}, DstStrides) :
    InitWith(n, s, d)

Go == /\ mem = start
      /\ \E how \in (IF Moves /\ OneToOne(sv.d) THEN {"copy", "move"} ELSE {"copy"}) : Begin(how, sv, dv)
      /\ UNCHANGED <<sv, dv, start>>
Step == (\E o \in DOMAIN pend : Assign(o)) /\ UNCHANGED <<sv, dv, start>>
Next == Go \/ Step
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Nothing outside the two views ever changes; a copy leaves the source.   *)
Frame ==
  \A o \in DOMAIN mem :
    mem[o] # start[o] =>
      \/ o \in AddrSet(dv)
      \/ op = "move" /\ mem[o] = MOVED /\ \E x \in Indices(dv.d) : Addr(sv, x) = o
(* When all assignments are made every element has the value of the source.*)
Transferred ==
  op # "" /\ pend = NoPend =>
    \A x \in Indices(dv.d) : mem[Addr(dv, x)] = start[Addr(sv, x)]
(* A copy over the same bounds compares equal to its source, and a single  *)
(* different element, wherever it is, ends that.                           *)
Compares ==
  op = "copy" /\ pend = NoPend /\ SameBounds(sv.d, dv.d) =>
    /\ EqualViews(sv, dv, mem) /\ EqualViews(dv, sv, mem)
    /\ \A x \in Indices(dv.d) : ~EqualViews(sv, dv, [mem EXCEPT ![Addr(dv, x)] = 0])
    /\ \A o \in DOMAIN mem \ (AddrSet(sv) \cup AddrSet(dv)) : EqualViews(sv, dv, [mem EXCEPT ![o] = 0])

EmitPlan == PrintT("PLAN " \o ToJson([src |-> sv.d, dst |-> dv.d]))
NoSteps == UNCHANGED vars

S1 == {-2, -1, 0, 1, 2, 3}
D1 == {-2, -1, 1, 2, 3}
S2 == {-2, -1, 1, 2, 4}
D2 == {-2, -1, 1, 2}
S2gen == {-3, -1, 0, 1, 2, 3}
D2gen == {-3, 1, 2, 3}
M2 == {-1, 0}
=============================================================================
