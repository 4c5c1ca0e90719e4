--------------------------- MODULE TransferTrace ---------------------------
(***************************************************************************)
(* Conformance of copy, move, make_copy, make_move and of comparisons      *)
(* (C08, C09).  All memory of a session is one array of cells; the driver  *)
(* reports every single assignment of an element (address and value) and   *)
(* the whole memory after each operation.                                  *)
(***************************************************************************)
EXTENDS Transfer, TraceBase

VARIABLES vw,     (* the views of the session *)
          quiet   (* plain elements: assignments are not reported *)
vars == <<sid, l, mem, pend, op, vw, quiet>>

Init == TInit /\ vw = <<>> /\ mem = [o \in {} |-> 0] /\ pend = NoPend /\ op = "" /\ quiet = FALSE

Start(e) ==
  /\ e.op = "start" /\ op = ""
  /\ mem' = [o \in 0..(e.n - 1) |-> IF e.fill = 0 THEN 7000 + o ELSE e.fill]
  /\ vw' = <<>> /\ quiet' = e.quiet
  /\ UNCHANGED <<pend, op>>

Put(e) ==
  /\ e.op = "view"
  /\ vw' = Append(vw, View(e.null, e.b, e.st, e.dims))
  /\ e.null \/ Empty(e.dims) \/
       \A x \in Indices(e.dims) : e.b + Offset(e.dims, x) \in DOMAIN mem
  /\ UNCHANGED <<mem, pend, op, quiet>>

BeginT(e) ==
  /\ e.op = "begin"
  /\ Begin(e.how, vw[e.src], vw[e.dst])
  /\ UNCHANGED <<vw, quiet>>
Asg(e) ==
  /\ e.op = "asg"
  /\ ~quiet /\ Assign(e.d)
  /\ e.v = mem[pend[e.d]]
  /\ UNCHANGED <<vw, quiet>>
MemIs(m) == Len(m) = Cardinality(DOMAIN mem) /\ \A i \in DOMAIN m : m[i] = mem[i - 1]
(* All assignments at once; a plain element that was moved from stays.     *)
EndQuiet ==
  /\ op # ""
  /\ mem' = [o \in DOMAIN mem |-> IF o \in DOMAIN pend THEN mem[pend[o]] ELSE mem[o]]
  /\ pend' = NoPend /\ op' = ""
EndT(e) ==
  /\ e.op = "tend"
  /\ IF quiet THEN EndQuiet ELSE End
  /\ Len(e.mem) = Cardinality(DOMAIN mem) /\ \A i \in DOMAIN e.mem : e.mem[i] = mem'[i - 1]
  /\ UNCHANGED <<vw, quiet>>

(* A transfer between elements of different types, seen from outside: the  *)
(* memory before is `mem` (the source) and `before` (the destination).     *)
Conv(e) ==
  /\ e.op = "conv"
  /\ LET s == vw[e.src]
         d == View(e.d.null, e.d.b, e.d.st, e.d.dims)
         p == Pairs(s, d)
     IN /\ TransferOk(s, d)
        /\ Len(e.after) = Len(e.before)
        /\ \A i \in DOMAIN e.after :
             e.after[i] = IF ~Empty(d.d) /\ (i - 1) \in DOMAIN p THEN mem[p[i - 1]] ELSE e.before[i]
        /\ MemIs(e.mem)
  /\ UNCHANGED <<mem, pend, op, vw, quiet>>

(* make_copy, make_compact_copy, make_move, make_compact_move: a new array *)
(* of the requested shape, in memory of its own.                           *)
Made(e) ==
  /\ e.op = "made" /\ op = ""
  /\ LET s == vw[e.src]
         d == e.res.dims
         w == View(e.res.null, e.res.b, e.res.st, d)
     IN /\ CASE e.kind = "same" -> e.res.st = s.t /\ d = s.d
             [] e.kind = "shape" -> e.res.st = e.st /\ d = Resolve(Convert(e.st, e.arg))
             [] e.kind = "compact" -> SameBounds(d, s.d)
        /\ Empty(d) \/
             /\ TransferOk(s, w)
             (* its elements lie in the block it allocated ...             *)
             /\ \A x \in Indices(d) : Addr(w, x) >= e.block[1] /\ Addr(w, x) < e.block[1] + e.block[2]
             (* ... which holds no element of any other view               *)
             /\ \A i \in DOMAIN vw : Empty(vw[i].d) \/ vw[i].nul \/
                  \A o \in AddrSet(vw[i]) : o < e.block[1] \/ o >= e.block[1] + e.block[2]
             /\ e.kind # "same" => Cardinality(AddrSet(w)) = Size(d)
        /\ e.vals = [k \in 1..Size(d) |-> mem[Addr(s, NthIndex(d, k - 1))]]
        (* Everything outside the block stays, but what was moved from.    *)
        /\ LET gone == IF e.how = "move" /\ ~quiet THEN {Addr(s, x) : x \in Indices(d)} ELSE {}
               m1 == [o \in DOMAIN mem |->
                        IF o >= e.block[1] /\ o < e.block[1] + e.block[2] THEN e.mem[o + 1]
                        ELSE IF o \in gone THEN MOVED ELSE mem[o]]
           IN /\ Len(e.mem) = Cardinality(DOMAIN mem)
              /\ \A o \in DOMAIN mem : e.mem[o + 1] = m1[o]
              /\ mem' = m1
  /\ UNCHANGED <<pend, op, vw, quiet>>

(* Element x of view v, or one cell, is given a value by the driver.       *)
Store(e) ==
  /\ e.op = "store" /\ op = ""
  /\ mem' = [o \in DOMAIN mem |->
               IF \E i \in DOMAIN e.at : e.at[i][1] = o
               THEN e.at[CHOOSE i \in DOMAIN e.at : e.at[i][1] = o][2] ELSE mem[o]]
  /\ UNCHANGED <<pend, op, vw, quiet>>

Equal(e) ==
  /\ e.op = "eq" /\ op = ""
  /\ LET a == vw[e.a]
         b == vw[e.b]
         r == EqualViews(a, b, mem)
     IN /\ e.equal = r
        /\ e.same => /\ e.eq = (r /\ SameShape(a, b))
                     /\ e.ne = ~(r /\ SameShape(a, b))
  /\ UNCHANGED <<mem, pend, op, vw, quiet>>
Memory(e) ==
  /\ e.op = "mem" /\ MemIs(e.mem)
  /\ UNCHANGED <<mem, pend, op, vw, quiet>>

Step(e) == Start(e) \/ Put(e) \/ BeginT(e) \/ Asg(e) \/ EndT(e) \/ Conv(e) \/ Made(e)
           \/ Store(e) \/ Equal(e) \/ Memory(e)
Consume == More /\ Step(Ev) /\ Advance
Next == Consume \/ (Done /\ op = "" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
