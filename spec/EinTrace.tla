------------------------------ MODULE EinTrace ------------------------------
(***************************************************************************)
(* Conformance of Einstein reductions (C15).  All operands of a session    *)
(* live in one memory of cells.  With elements that report assignments the *)
(* driver records every assignment of an element (cell and new value) with *)
(* the calls of callable operands made since the one before; otherwise the *)
(* memory after the statement only.                                        *)
(***************************************************************************)
EXTENDS Ein, TraceBase

VARIABLES res     \* a summation under way: what was announced about its result
vars == <<sid, l, mem, stm, k, res>>
NORES == [on |-> FALSE]

Init == TInit /\ mem = [o \in {} |-> 0] /\ stm = IDLE /\ k = 0 /\ res = NORES

MemIs(m) == Len(m) = Cardinality(DOMAIN mem) /\ \A i \in DOMAIN m : m[i] = mem[i - 1]

Start(e) ==
  /\ e.op = "start" /\ stm = IDLE
  /\ mem' = [o \in 0..(Len(e.mem) - 1) |-> e.mem[o + 1]]
  /\ UNCHANGED <<stm, k, res>>

StmOf(e) == [f |-> e.f, lhs |-> e.lhs, rhs |-> e.rhs]
Begin(e) ==
  /\ e.op = "begin" /\ ~res.on
  /\ BeginEin(StmOf(e))
  /\ UNCHANGED res

CallsAre(q, s, x) == SeqRange(q) = Calls(s, x) /\ Len(q) = Cardinality(Calls(s, x))
Asg(e) ==
  /\ e.op = "asg" /\ stm # IDLE /\ k < Iterations(stm)
  /\ LET x == Iter(stm, k) IN e.d = Cell(stm.lhs, x) /\ CallsAre(e.calls, stm, x)
  /\ Iterate
  /\ mem'[e.d] = e.v
  /\ UNCHANGED res
(* The whole statement at once, for elements that do not report.           *)
Run(e) ==
  /\ e.op = "run" /\ stm # IDLE /\ k = 0
  /\ mem' = RunFrom(stm, 0, mem)
  /\ LET n == Iterations(stm)
         want == {<<i, c>> : i \in 0..(n - 1), c \in UNION {Calls(stm, Iter(stm, i)) : i \in 0..(n - 1)}}
         made == {p \in want : p[2] \in Calls(stm, Iter(stm, p[1]))}
     IN Len(e.calls) = Cardinality(made)
  /\ k' = Iterations(stm)
  /\ UNCHANGED <<stm, res>>

End(e) ==
  /\ e.op = "end" /\ ~res.on
  /\ FinishEin
  /\ e.calls = <<>>
  /\ MemIs(e.mem)
  (* The left-hand side is returned. *)
  /\ stm.lhs.k = "arr" => e.rb = stm.lhs.b /\ e.rdims = stm.lhs.dims
  /\ UNCHANGED res

(* A summation makes an array of its own, fills it with the initial value  *)
(* and then runs the statement `result += expression`.                     *)
Sum(e) ==
  /\ e.op = "sum" /\ stm = IDLE /\ ~res.on
  /\ LET n == Len(e.is)
         b == [j \in 1..n |-> SumDim(e.rhs, e.is[j])]
         d == e.res.dims
         cells == {e.res.b + Offset(d, x) : x \in Indices(d)}
     IN (* the bounds and their compile-time constants *)
        /\ Len(d) = n
        /\ \A j \in 1..n :
             /\ Mn(d[j]) = b[j][1] /\ Ex(d[j]) = b[j][2]
             /\ LET t == SumType(e.rhs, e.is[j]) IN e.res.st[j][1] = t[1] /\ e.res.st[j][2] = t[2]
        /\ Empty(d) \/
             (* each element in a cell of its own, without gaps, in the    *)
             (* block allocated for it                                     *)
             /\ OneToOne(d) /\ Compact(d)
             /\ \A c \in cells : c >= e.block[1] /\ c < e.block[1] + e.block[2]
        /\ stm' = [f |-> "add", lhs |-> [k |-> "arr", b |-> e.res.b, dims |-> d, is |-> e.is], rhs |-> e.rhs]
        /\ InContract(stm')
        (* The block holds no operand; its cells may get any value.        *)
        /\ mem' = [o \in DOMAIN mem |->
                     IF ~Empty(d) /\ o \in cells THEN e.init
                     ELSE IF o >= e.block[1] /\ o < e.block[1] + e.block[2] THEN e.mem[o + 1] ELSE mem[o]]
        /\ \A i \in DOMAIN e.used : \A o \in e.used[i][1]..e.used[i][2] :
             o < e.block[1] \/ o >= e.block[1] + e.block[2]
  /\ k' = 0
  /\ res' = [on |-> TRUE]
EndSum(e) ==
  /\ e.op = "endsum" /\ res.on
  /\ FinishEin
  /\ e.calls = <<>>
  /\ MemIs(e.mem)
  /\ res' = NORES

Step(e) == Start(e) \/ Begin(e) \/ Asg(e) \/ Run(e) \/ End(e) \/ Sum(e) \/ EndSum(e)
Consume == More /\ Step(Ev) /\ Advance
Next == Consume \/ (Done /\ stm = IDLE /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
