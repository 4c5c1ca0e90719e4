--------------------------------- MODULE Ein ---------------------------------
(***************************************************************************)
(* Einstein reductions as a nest of loops (C15; the contract is part of    *)
(* C17).                                                                   *)
(*                                                                         *)
(* A statement is a record [f, lhs, rhs]: f is "set", "add", "sub" or      *)
(* "mul" (=, +=, -=, *=), lhs is a leaf, rhs an expression.  Expressions:  *)
(*   [k = "arr", b, dims, is]    element `is` of the view at b with dims   *)
(*   [k = "fn", id, c0, c, is]   a callable: c0 + sum of c[j] * index j    *)
(*   [k = "ref", id, c0, c, is]  a callable returning the cell at c0 + ... *)
(*   [k = "un", f, a]            neg, cast (to 8 bits)                     *)
(*   [k = "bin", f, a, b]        add, sub, mul, div, min, max              *)
(* `is` lists loop indices, counted from 0.                                *)
(*                                                                         *)
(* The loops run over all combinations of the loop indices, index 0        *)
(* innermost; `k` iterations have been made.                               *)
(***************************************************************************)
EXTENDS NDShape

VARIABLES mem, stm, k
evars == <<mem, stm, k>>
IDLE == <<>>

IsLeaf(e) == e.k \in {"arr", "fn", "ref"}
RECURSIVE Leaves(_)
Leaves(e) ==
  IF IsLeaf(e) THEN <<e>>
  ELSE IF e.k = "un" THEN Leaves(e.a)
  ELSE Leaves(e.a) \o Leaves(e.b)
AllLeaves(s) == <<s.lhs>> \o Leaves(s.rhs)

(* All dims of the leaves that loop index i addresses, in order.           *)
RECURSIVE DimsOfLeaf(_, _, _)
DimsOfLeaf(leaf, i, j) ==
  IF leaf.k # "arr" \/ j > Len(leaf.is) THEN <<>>
  ELSE (IF leaf.is[j] = i THEN <<leaf.dims[j]>> ELSE <<>>) \o DimsOfLeaf(leaf, i, j + 1)
RECURSIVE DimsFrom(_, _, _)
DimsFrom(ls, i, n) == IF n > Len(ls) THEN <<>> ELSE DimsOfLeaf(ls[n], i, 1) \o DimsFrom(ls, i, n + 1)

RECURSIVE MaxIn(_, _)
MaxIn(q, n) == IF n = 0 THEN -1 ELSE Max2(q[n], MaxIn(q, n - 1))
LoopRankOf(ls) == 1 + MaxIn([n \in DOMAIN ls |-> MaxIn(ls[n].is, Len(ls[n].is))], Len(ls))

(* The loop over index i has the bounds of the result's dimension if the   *)
(* result uses it, else those of the operands; a skipped index makes one   *)
(* iteration.                                                              *)
LoopDimOf(ls, i) == LET d == DimsFrom(ls, i, 1) IN IF d = <<>> THEN <<0, 1, 0>> ELSE <<d[1][1], d[1][2], 0>>
LoopShape(s) == LET ls == AllLeaves(s) IN [i \in 1..LoopRankOf(ls) |-> LoopDimOf(ls, i - 1)]

(* Within the contract the operands can be read at all loop indices: they  *)
(* contain the dimension of the result, or are all equal.                  *)
DimContains(o, d) == Mn(o) <= Mn(d) /\ Mx(d) <= Mx(o)
IndexInContract(s, i) ==
  LET d == DimsFrom(AllLeaves(s), i, 1)
      res == DimsOfLeaf(s.lhs, i, 1)
  IN IF res # <<>> /\ St(res[1]) # 0
     THEN \A n \in DOMAIN d : DimContains(d[n], d[1])
     ELSE \A n \in DOMAIN d : Mn(d[n]) = Mn(d[1]) /\ Ex(d[n]) = Ex(d[1])
InContract(s) == \A i \in 1..LoopRankOf(AllLeaves(s)) : IndexInContract(s, i - 1)

----------------------------------------------------------------------------
(* Evaluation at loop index x (a sequence, x[i + 1] for index i).          *)
At(leaf, x) == [j \in DOMAIN leaf.is |-> x[leaf.is[j] + 1]]
Linear(leaf, x) == leaf.c0 + SumSeq([j \in DOMAIN leaf.is |-> leaf.c[j] * x[leaf.is[j] + 1]])
Cell(leaf, x) == IF leaf.k = "ref" THEN Linear(leaf, x) ELSE leaf.b + Offset(leaf.dims, At(leaf, x))

TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Cast8(v) == ((v + 128) % 256) - 128
Un(f, v) == IF f = "neg" THEN -v ELSE Cast8(v)
Bin(f, v, w) ==
  CASE f = "add" -> v + w
    [] f = "sub" -> v - w
    [] f = "mul" -> v * w
    [] f = "div" -> TDiv(v, w)
    [] f = "min" -> Min2(v, w)
    [] f = "max" -> Max2(v, w)

RECURSIVE Eval(_, _, _)
Eval(e, x, m) ==
  CASE e.k = "fn" -> Linear(e, x)
    [] e.k \in {"arr", "ref"} -> m[Cell(e, x)]
    [] e.k = "un" -> Un(e.f, Eval(e.a, x, m))
    [] e.k = "bin" -> Bin(e.f, Eval(e.a, x, m), Eval(e.b, x, m))
Store(f, old, v) ==
  CASE f = "set" -> v
    [] f = "add" -> old + v
    [] f = "sub" -> old - v
    [] f = "mul" -> old * v

(* The calls of callables that one iteration makes.                        *)
Calls(s, x) ==
  LET ls == AllLeaves(s)
  IN {<<ls[n].id, At(ls[n], x)>> : n \in {n \in DOMAIN ls : ls[n].k \in {"fn", "ref"}}}

Iterations(s) == Size(LoopShape(s))
Iter(s, n) == NthIndex(LoopShape(s), n)

----------------------------------------------------------------------------
BeginEin(s) ==
  /\ stm = IDLE
  /\ InContract(s)
  /\ stm' = s /\ k' = 0
  /\ UNCHANGED mem
Iterate ==
  /\ stm # IDLE /\ k < Iterations(stm)
  /\ LET x == Iter(stm, k)
         c == Cell(stm.lhs, x)
     IN mem' = [mem EXCEPT ![c] = Store(stm.f, @, Eval(stm.rhs, x, mem))]
  /\ k' = k + 1
  /\ UNCHANGED stm
FinishEin ==
  /\ stm # IDLE /\ k = Iterations(stm)
  /\ stm' = IDLE /\ k' = 0
  /\ UNCHANGED mem

(* The memory after all iterations from n on, in one go.                   *)
RECURSIVE RunFrom(_, _, _)
RunFrom(s, n, m) ==
  IF n = Iterations(s) THEN m
  ELSE LET x == Iter(s, n)
           c == Cell(s.lhs, x)
       IN RunFrom(s, n + 1, [m EXCEPT ![c] = Store(s.f, @, Eval(s.rhs, x, m))])

(* The bounds of the result of a summation: those of the first operand     *)
(* that uses the index; its compile-time bounds are kept.                  *)
SumDim(e, i) == LET d == DimsFrom(Leaves(e), i, 1) IN IF d = <<>> THEN <<0, 1>> ELSE <<d[1][1], d[1][2]>>
RECURSIVE TypesOfLeaf(_, _, _)
TypesOfLeaf(leaf, i, j) ==
  IF leaf.k # "arr" \/ j > Len(leaf.is) THEN <<>>
  ELSE (IF leaf.is[j] = i THEN <<leaf.st[j]>> ELSE <<>>) \o TypesOfLeaf(leaf, i, j + 1)
RECURSIVE TypesFrom(_, _, _)
TypesFrom(ls, i, n) == IF n > Len(ls) THEN <<>> ELSE TypesOfLeaf(ls[n], i, 1) \o TypesFrom(ls, i, n + 1)
SumType(e, i) == LET t == TypesFrom(Leaves(e), i, 1) IN IF t = <<>> THEN <<0, 1>> ELSE <<t[1][1], t[1][2]>>
=============================================================================
