--------------------------- MODULE MC_EinContract ---------------------------
(***************************************************************************)
(* Which reductions may be asked for (C17), for all small bounds of the    *)
(* dimensions an index addresses.  The initial states are statements of a  *)
(* few forms; their loops then run one iteration at a time.                *)
(*   Fits     a reduction within its contract reads and writes its         *)
(*            operands in range in every iteration                         *)
(*   Covers   and reduces over all elements of the operands                *)
(*   Needed   what is refused would break one of these                     *)
(***************************************************************************)
EXTENDS Contract, TLC, Json

CONSTANTS DimChoices, ResultChoices, Forms

VARIABLES form
vars == <<mem, stm, k, form>>

Arr(is, dims) == [k |-> "arr", b |-> 0, is |-> is, dims |-> dims]
Mul(a, b) == [k |-> "bin", f |-> "mul", a |-> a, b |-> b]
Full(d) == <<d[1], d[2], 1>>
Stm(lhs, rhs) == [f |-> "add", lhs |-> lhs, rhs |-> rhs]
Build(f, c, a, b) ==
  CASE f = "dot" -> Stm(Arr(<<>>, <<>>), Mul(Arr(<<0>>, <<a>>), Arr(<<0>>, <<b>>)))
    [] f = "trace" -> Stm(Arr(<<>>, <<>>), Arr(<<0, 0>>, <<a, b>>))
    [] f = "diag" -> Stm(Arr(<<0>>, <<c>>), Arr(<<0, 0>>, <<a, b>>))
    [] f = "todiag" -> Stm(Arr(<<0, 0>>, <<c, b>>), Arr(<<0>>, <<a>>))
    [] f = "sum" -> Stm(Arr(<<0>>, <<c>>), Mul(Arr(<<0>>, <<a>>), Arr(<<0>>, <<b>>)))

Init ==
  /\ \E f \in Forms, c \in ResultChoices, a, b \in DimChoices :
       stm = Build(f, c, Full(a), Full(b)) /\ form = [form |-> f, c |-> c, a |-> Full(a), b |-> Full(b)]
  /\ mem = 0 /\ k = 0
(* One iteration of a reduction the contract allows.                       *)
Next ==
  /\ EinVerdict(stm) = "fine" /\ k < Iterations(stm)
  /\ k' = k + 1
  /\ UNCHANGED <<mem, stm, form>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
ReadsInRange(s, n) == \A q \in DOMAIN AllLeaves(s) : LET f == AllLeaves(s)[q] IN InRange(f.dims, At(f, Iter(s, n)))
Fits == EinVerdict(stm) = "fine" /\ k < Iterations(stm) => ReadsInRange(stm, k)
Reduced(s) == DimsOfLeaf(s.lhs, 0, 1) = <<>>
Covers ==
  EinVerdict(stm) = "fine" /\ Reduced(stm) =>
    \A q \in DOMAIN Leaves(stm.rhs) : LET f == Leaves(stm.rhs)[q]
      IN \A j \in DOMAIN f.dims : Ex(f.dims[j]) = Iterations(stm)
Needed ==
  EinVerdict(stm) = "abort" =>
    \/ \E n \in 0..(Iterations(stm) - 1) : ~ReadsInRange(stm, n)
    \/ Reduced(stm) /\ \E q \in DOMAIN Leaves(stm.rhs) : LET f == Leaves(stm.rhs)[q]
                         IN \E j \in DOMAIN f.dims : Ex(f.dims[j]) # Iterations(stm)
EmitPlan == PrintT("PLAN " \o ToJson(form))
NoSteps == UNCHANGED vars

B1 == {<<m, e>> : m \in {-1, 0, 1}, e \in 0..3}
R1 == {<<m, e, s>> : m \in {-1, 0}, e \in 0..3, s \in {0, 1}}
B2 == {<<m, e>> : m \in -2..2, e \in 0..4}
R2 == {<<m, e, s>> : m \in -1..1, e \in 0..4, s \in {-1, 0, 1}}
=============================================================================
