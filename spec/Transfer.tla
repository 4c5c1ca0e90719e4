------------------------------ MODULE Transfer ------------------------------
(***************************************************************************)
(* Copies, moves and comparisons between two views of one memory.          *)
(*                                                                         *)
(* A transfer is a set of single assignments, one per element of the       *)
(* destination, which may happen in any order.  `pend` holds those still   *)
(* to be made: destination offset -> source offset.                        *)
(***************************************************************************)
EXTENDS Views

VARIABLES mem, pend, op
tvars == <<mem, pend, op>>

MOVED == -1       (* what moving from an element leaves behind *)
NAN == 999999     (* compares unequal to everything *)
NEGZERO == 999998 (* compares equal to zero *)

NoPend == [o \in {} |-> 0]

(* Every destination index is a source index; both maps are functions of   *)
(* the same index.  The destination is one-to-one; a moved-from source too.*)
TransferOk(s, d) ==
  \/ Empty(d.d)
  \/ /\ ~s.nul /\ ~d.nul
     /\ Len(s.d) = Len(d.d)
     /\ InRange(s.d, Mins(d.d)) /\ InRange(s.d, Maxs(d.d))

Pairs(s, d) ==
  LET n == Size(d.d)
      ix == [k \in 1..n |-> NthIndex(d.d, k - 1)]
      to == [k \in 1..n |-> Addr(d, ix[k])]
      (* one-to-one destinations: offset -> position *)
      pos == [o \in SeqRange(to) |-> CHOOSE k \in 1..n : to[k] = o]
  IN [o \in SeqRange(to) |-> Addr(s, ix[pos[o]])]

Begin(how, s, d) ==
  /\ op = "" /\ op' = how
  /\ TransferOk(s, d)
  /\ pend' = IF Empty(d.d) THEN NoPend ELSE Pairs(s, d)
  /\ UNCHANGED mem

Assign(o) ==
  /\ op \in {"copy", "move"}
  /\ o \in DOMAIN pend
  /\ mem' = [mem EXCEPT ![o] = mem[pend[o]], ![pend[o]] = IF op = "move" THEN MOVED ELSE @]
  /\ pend' = [x \in DOMAIN pend \ {o} |-> pend[x]]
  /\ UNCHANGED op

End ==
  /\ op # "" /\ pend = NoPend
  /\ op' = ""
  /\ UNCHANGED <<mem, pend>>

(* The elements of a view, in index order.                                 *)
Values(v, m) == [k \in 1..Size(v.d) |-> m[Addr(v, NthIndex(v.d, k - 1))]]

(* Comparison of element values.                                           *)
Norm(x) == IF x = NEGZERO THEN 0 ELSE x
SameVal(x, y) == x # NAN /\ y # NAN /\ Norm(x) = Norm(y)

EqualViews(a, b, m) ==
  /\ SameBounds(a.d, b.d)
  /\ \A k \in 1..Size(a.d) :
       LET x == NthIndex(a.d, k - 1) IN SameVal(m[Addr(a, x)], m[Addr(b, x)])
SameShape(a, b) == a.d = b.d
=============================================================================
