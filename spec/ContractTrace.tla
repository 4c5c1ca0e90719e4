--------------------------- MODULE ContractTrace ----------------------------
(***************************************************************************)
(* Conformance of the contract (C17).  try: an operation, whether it       *)
(* aborted (it ran in a process of its own), and what it produced if not;  *)
(* pred: what the compatibility predicate said.  A session may also follow *)
(* one reference through assignments of shapes; `now` is its shape.        *)
(***************************************************************************)
EXTENDS Contract, TraceBase

VARIABLES now
vars == <<sid, l, mem, stm, k, now>>

Init == TInit /\ mem = 0 /\ stm = IDLE /\ k = 0 /\ now = <<>>

Try(e) ==
  /\ e.op = "try"
  /\ LET v == Verdict(e)
     IN /\ v = "fine" => ~e.aborted
        /\ v = "abort" => e.aborted
        /\ (v = "fine" /\ Outcome(e) # <<>>) => SameOutcome(e, e.out, Outcome(e))
        (* The elements stay where they are, displaced by off.             *)
        /\ (v = "fine" /\ "moved" \in DOMAIN e) => e.moved = e.off
        /\ e.chain => e.d = now /\ now' = IF e.aborted THEN now ELSE e.out
  /\ e.chain \/ UNCHANGED now
  /\ UNCHANGED evars

Pred(e) ==
  /\ e.op = "pred"
  /\ e.compatible = Compat(e.t, e.d)
  /\ UNCHANGED <<evars, now>>
Start(e) == e.op = "start" /\ now' = e.d /\ UNCHANGED evars

Step(e) == Start(e) \/ Try(e) \/ Pred(e)
Consume == More /\ Step(Ev) /\ Advance
Next == Consume \/ (Done /\ UNCHANGED vars)
=============================================================================
