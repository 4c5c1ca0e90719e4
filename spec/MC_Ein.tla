------------------------------- MODULE MC_Ein -------------------------------
(***************************************************************************)
(* Statements of the menu over all small bounds and some layouts; at the   *)
(* end the memory must hold what the mathematical notation says, whatever  *)
(* order the loops run in, and nothing else may have changed.              *)
(***************************************************************************)
EXTENDS Ein, TLC, Json

CONSTANTS Menu, MinsOf, ExtsOf, Layouts

VARIABLES name, bnd, lay, start
vars == <<mem, stm, k, name, bnd, lay, start>>

(* Dims for the loop indices `is` in layout y: column major, row major or  *)
(* with the first dim backwards and padding.                               *)
Dims(is, b, y) ==
  LET n == Len(is)
      e(j) == Max2(1, b[is[j] + 1][2])
      col == [j \in 1..n |-> IF j = 1 THEN 1 ELSE IF j = 2 THEN e(1) ELSE e(1) * e(2)]
      row == [j \in 1..n |-> IF j = n THEN 1 ELSE IF j = n - 1 THEN e(n) ELSE e(n) * e(n - 1)]
      st == CASE y = 0 -> col
              [] y = 1 -> row
              [] y = 2 -> [j \in 1..n |-> IF j = 1 THEN -col[j] ELSE 2 * col[j]]
              [] y = 3 -> [j \in 1..n |-> 0]
  IN [j \in 1..n |-> <<b[is[j] + 1][1], b[is[j] + 1][2], st[j]>>]
Place(is, b, y, lo) ==
  LET d == Dims(is, b, y) IN [k |-> "arr", is |-> is, dims |-> d, b |-> lo - (IF Empty(d) THEN 0 ELSE FlatMin(d))]
(* Leaf n of a statement has 20 cells of its own.                          *)
L(n, is, b, y) == Place(is, b, y, 20 * n + 2)
B(f, a, c) == [k |-> "bin", f |-> f, a |-> a, b |-> c]
U(f, a) == [k |-> "un", f |-> f, a |-> a]
F(id, c0, c, is) == [k |-> "fn", id |-> id, c0 |-> c0, c |-> c, is |-> is]

Stmt(m, b, y) ==
  LET z == IF y = 3 THEN 0 ELSE y IN   \* broadcast operands only
  CASE m = "matmul" -> [f |-> "add", lhs |-> L(0, <<0, 1>>, b, z), rhs |-> B("mul", L(1, <<0, 2>>, b, y), L(2, <<2, 1>>, b, y))]
    [] m = "matmulr" -> [f |-> "add", lhs |-> L(0, <<2, 1>>, b, z), rhs |-> B("mul", L(1, <<2, 0>>, b, y), L(2, <<0, 1>>, b, y))]
    [] m = "trace" -> [f |-> "add", lhs |-> L(0, <<>>, b, z), rhs |-> L(1, <<1, 1>>, b, y)]
    [] m = "diag" -> [f |-> "set", lhs |-> L(0, <<1>>, b, z), rhs |-> L(1, <<1, 1>>, b, y)]
    [] m = "todiag" -> [f |-> "set", lhs |-> L(0, <<1, 1>>, b, z), rhs |-> L(1, <<1>>, b, y)]
    [] m = "transpose" -> [f |-> "set", lhs |-> L(0, <<1, 0>>, b, z), rhs |-> L(1, <<0, 1>>, b, y)]
    [] m = "outer" -> [f |-> "sub", lhs |-> L(0, <<0, 2>>, b, z), rhs |-> B("mul", L(1, <<0>>, b, y), L(2, <<2>>, b, y))]
    [] m = "dot" -> [f |-> "add", lhs |-> L(0, <<>>, b, z),
                     rhs |-> B("mul", B("add", L(1, <<0>>, b, y), L(2, <<0>>, b, y)), L(3, <<0>>, b, y))]
    [] m = "last" -> [f |-> "set", lhs |-> L(0, <<1>>, b, z), rhs |-> L(1, <<0, 1, 2>>, b, y)]
    [] m = "max" -> LET r == L(0, <<0>>, b, z) IN [f |-> "set", lhs |-> r, rhs |-> B("max", r, L(1, <<0, 1>>, b, y))]
    [] m = "prod" -> [f |-> "mul", lhs |-> L(0, <<2>>, b, z), rhs |-> L(1, <<2, 0>>, b, y)]
    [] m = "fn" -> [f |-> "set", lhs |-> L(0, <<0, 1>>, b, z), rhs |-> F(1, 5, <<3, -2>>, <<1, 0>>)]
    [] m = "const" -> [f |-> "set", lhs |-> L(0, <<>>, b, z), rhs |-> U("neg", L(1, <<>>, b, y))]

Init ==
  \E m \in Menu : \E b \in [1..3 -> MinsOf \X ExtsOf] : \E y \in Layouts :
    LET s == Stmt(m, b, y)
        used == UNION {SeqRange(AllLeaves(s)[n].is) : n \in DOMAIN AllLeaves(s)}
    IN /\ \A i \in 1..3 : (i - 1) \in used \/ b[i] = <<SetMin(MinsOf), SetMax(ExtsOf)>>   \* do not repeat what is the same
       /\ name = m /\ bnd = b /\ lay = y
       /\ mem = [o \in 0..79 |-> ((o * 7 + o \div 3) % 5) - 2]
       /\ start = mem
       /\ stm = IDLE /\ k = 0

Go == stm = IDLE /\ mem = start /\ BeginEin(Stmt(name, bnd, lay)) /\ UNCHANGED <<name, bnd, lay, start>>
Step == Iterate /\ UNCHANGED <<name, bnd, lay, start>>
Next == Go \/ Step
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
AtEnd == stm # IDLE /\ k = Iterations(stm)
All(s) == Indices(LoopShape(s))
Mine(s, c) == {x \in All(s) : Cell(s.lhs, x) = c}
RECURSIVE SumOver(_, _, _)
SumOver(s, X, m) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN Eval(s.rhs, x, m) + SumOver(s, X \ {x}, m)
RECURSIVE ProdOver(_, _, _)
ProdOver(s, X, m) == IF X = {} THEN 1 ELSE LET x == CHOOSE x \in X : TRUE IN Eval(s.rhs, x, m) * ProdOver(s, X \ {x}, m)

(* Sums and products over all loop indices that address a cell.            *)
Totals ==
  AtEnd /\ name # "max" =>
    \A c \in DOMAIN mem :
      LET X == Mine(stm, c) IN
      CASE X = {} -> mem[c] = start[c]
        [] X # {} /\ stm.f = "add" -> mem[c] = start[c] + SumOver(stm, X, start)
        [] X # {} /\ stm.f = "sub" -> mem[c] = start[c] - SumOver(stm, X, start)
        [] X # {} /\ stm.f = "mul" -> mem[c] = start[c] * ProdOver(stm, X, start)
        [] X # {} /\ stm.f = "set" ->   \* the last in loop order: highest numbered index first
             LET later(x, y) == \E i \in DOMAIN x : x[i] > y[i] /\ \A j \in DOMAIN x : j > i => x[j] = y[j]
                 last == CHOOSE x \in X : \A y \in X \ {x} : later(x, y)
             IN mem[c] = Eval(stm.rhs, last, start)
(* The textbook meaning of some of them.                                   *)
El(leaf, x) == leaf.b + Offset(leaf.dims, x)
Rg(i) == Mn(bnd[i + 1])..Mx(bnd[i + 1])
RECURSIVE Sum3(_, _, _)
Sum3(a, c, ks) == IF ks = {} THEN 0 ELSE LET q == CHOOSE q \in ks : TRUE IN a[q] * c[q] + Sum3(a, c, ks \ {q})
Textbook ==
  AtEnd =>
    CASE name = "matmul" ->
           \A i \in Rg(0) : \A j \in Rg(1) :
             mem[El(stm.lhs, <<i, j>>)] = start[El(stm.lhs, <<i, j>>)] +
               Sum3([q \in Rg(2) |-> start[El(stm.rhs.a, <<i, q>>)]], [q \in Rg(2) |-> start[El(stm.rhs.b, <<q, j>>)]], Rg(2))
      [] name = "trace" ->
           mem[stm.lhs.b] = start[stm.lhs.b] +
             Sum3([q \in Rg(1) |-> start[El(stm.rhs, <<q, q>>)]], [q \in Rg(1) |-> 1], Rg(1))
      [] name = "transpose" -> \A i \in Rg(0) : \A j \in Rg(1) : mem[El(stm.lhs, <<j, i>>)] = start[El(stm.rhs, <<i, j>>)]
      [] name = "max" ->
           \A i \in Rg(0) :
             LET S == {start[El(stm.lhs, <<i>>)]} \cup {start[El(stm.rhs.b, <<i, j>>)] : j \in Rg(1)}
             IN mem[El(stm.lhs, <<i>>)] = SetMax(S)
      [] OTHER -> TRUE
(* Operands never change, and running step by step is running at once.     *)
Operands ==
  stm # IDLE => \A n \in 2..Len(AllLeaves(stm)) :
    LET f == AllLeaves(stm)[n] IN
    f.k = "arr" /\ f # stm.lhs => \A x \in Indices(f.dims) : mem[El(f, x)] = start[El(f, x)]
AtOnce == stm # IDLE => RunFrom(stm, k, mem) = RunFrom(stm, 0, start)

EmitPlan == PrintT("PLAN " \o ToJson([b |-> bnd, lay |-> lay]))
NoSteps == UNCHANGED vars

AllMenu == {"matmul", "matmulr", "trace", "diag", "todiag", "transpose", "outer", "dot", "last", "max", "prod", "fn", "const"}
M01 == {0, 1}
MNeg == {-1, 2}
=============================================================================
