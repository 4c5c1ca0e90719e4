------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* What may be asked for (C17).  Verdict(e) says of an operation with its  *)
(* arguments whether it is within its contract:                            *)
(*   "fine"    it must do its work, and not abort                          *)
(*   "abort"   in a build with assertions it must abort                    *)
(*   "either"  nothing is said                                             *)
(* Outcome(e) is the shape an operation within its contract produces.      *)
(***************************************************************************)
EXTENDS Ein

V == INSTANCE Views
ConvertRank(t, d) == V!ConvertRank(t, d)
ConvertOk(t, d) == V!ConvertOk(t, d)

Judge(fine) == IF fine THEN "fine" ELSE "abort"

(* A transfer reads the source at every index of the destination.          *)
CopyOk(s, d) == Empty(d) \/ (InRange(s, Mins(d)) /\ InRange(s, Maxs(d)))

(* A new shape, and a base displaced by off, over memory of shape old.     *)
ReshapeVerdict(old, new, off) ==
  IF Empty(new) \/ Empty(old) THEN "either" ELSE Judge(InsideFlat(new, old, off))

(* Constructing a dimension of static type t from values v; static strides *)
(* may be left out by UNR only where the text says so.                     *)
FieldOk(c, v) == ~IsStatic(c) \/ v = c
DimVerdict(t, v) ==
  IF IsStatic(t[3]) /\ v[3] = UNR THEN "either"
  ELSE Judge(FieldOk(t[1], v[1]) /\ FieldOk(t[2], v[2]) /\ FieldOk(t[3], v[3]))
SetVerdict(t, what, x) ==
  CASE what = "min" -> Judge(FieldOk(t[1], x))
    [] what = "extent" -> Judge(FieldOk(t[2], x))
    [] what = "stride" -> Judge(x = UNR \/ FieldOk(t[3], x))

(* A loop index of a reduction: `either` where the result's dimension is   *)
(* empty or a broadcast, so that it does not say what the loop must be.    *)
IndexVerdict(s, i) ==
  LET d == DimsFrom(AllLeaves(s), i, 1)
      res == DimsOfLeaf(s.lhs, i, 1)
      same == \A n \in DOMAIN d : Mn(d[n]) = Mn(d[1]) /\ Ex(d[n]) = Ex(d[1])
  IN IF same THEN "fine"
     ELSE IF res # <<>> /\ Ex(res[1]) = 0 THEN "either"
     ELSE IF res # <<>> /\ St(res[1]) = 0 THEN (IF \A n \in DOMAIN d : DimContains(d[n], d[1]) THEN "either" ELSE "abort")
     ELSE Judge(IndexInContract(s, i))
EinVerdict(s) ==
  LET q == {IndexVerdict(s, i - 1) : i \in 1..LoopRankOf(AllLeaves(s))}
  IN IF q \subseteq {"fine"} THEN "fine"
     ELSE IF "abort" \in q /\ Iterations(s) > 0 THEN "abort"
     ELSE "either"

(* A summation: its result has the bounds of the first operand that uses   *)
(* the index, and a layout of its own.                                     *)
SumStm(e) ==
  LET b == [j \in DOMAIN e.is |-> SumDim(e.rhs, e.is[j])]
  IN [f |-> "add", lhs |-> [k |-> "arr", b |-> 0, is |-> e.is, dims |-> [j \in DOMAIN b |-> <<b[j][1], b[j][2], 1>>]], rhs |-> e.rhs]

Verdict(e) ==
  CASE e.f \in {"convert", "assign"} -> Judge(Convertible(e.t, e.d))
    [] e.f = "rank" -> Judge(ConvertOk(e.t, e.d))
    [] e.f = "copy" -> Judge(CopyOk(e.d, e.new))
    [] e.f = "setshape" -> IF ~Resolved(e.new) THEN "abort" ELSE ReshapeVerdict(e.d, e.new, e.off)
    [] e.f = "reint" -> ReshapeVerdict(e.d, Resolve(e.new), e.off)
    [] e.f = "mvreint" -> IF ~Resolved(e.new) THEN "either" ELSE ReshapeVerdict(e.d, e.new, e.off)
    [] e.f = "dim" -> DimVerdict(e.t[1], e.d[1])
    [] e.f = "set" -> SetVerdict(e.t[1], e.what, e.x)
    [] e.f = "split" -> Judge(Ex(e.d[1]) >= e.x)
    [] e.f = "advance" -> Judge(e.x >= 0)
    [] e.f = "dimno" -> Judge(0 <= e.x /\ e.x < Len(e.d))
    [] e.f = "ein" -> EinVerdict([f |-> "add", lhs |-> e.lhs, rhs |-> e.rhs])
    [] e.f = "sum" -> EinVerdict(SumStm(e))

Outcome(e) ==
  CASE e.f \in {"convert", "assign"} -> Convert(e.t, e.d)
    [] e.f = "rank" -> ConvertRank(e.t, e.d)
    [] e.f \in {"setshape", "mvreint"} -> e.new
    [] e.f = "reint" -> Resolve(e.new)
    [] e.f = "dim" -> Convert(e.t, e.d)
    [] e.f = "set" ->
         <<CASE e.what = "min" -> <<e.x, Ex(e.d[1]), St(e.d[1])>>
             [] e.what = "extent" -> <<Mn(e.d[1]), e.x, St(e.d[1])>>
             [] e.what = "stride" -> <<Mn(e.d[1]), Ex(e.d[1]), IF IsStatic(e.t[1][3]) THEN e.t[1][3] ELSE e.x>>>>
    [] OTHER -> <<>>
(* Dimensions a conversion adds have no stride that means anything.        *)
SameOutcome(e, out, want) ==
  IF e.f # "rank" THEN out = want
  ELSE /\ Len(out) = Len(want)
       /\ \A i \in DOMAIN want : IF i <= Len(e.d) THEN out[i] = want[i]
                                 ELSE out[i][1] = want[i][1] /\ out[i][2] = want[i][2]
                                      /\ (IsStatic(e.t[i][3]) => out[i][3] = e.t[i][3])
=============================================================================
