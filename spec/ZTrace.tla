------------------------------- MODULE ZTrace -------------------------------
(* Conformance of z-order traversal (C07).                                 *)
EXTENDS ZOrder, TraceBase
VARIABLES ranges
vars == <<sid, l, box, zcode, zgoing, ranges>>
Init == TInit /\ ZInit /\ ranges = <<>>

Begin(e) ==
  /\ e.op = "begin"
  /\ ranges' = e.ranges
  /\ BeginZ([d \in DOMAIN e.ranges |-> Len(e.ranges[d])])
CallIt(e) ==
  /\ e.op = "call"
  /\ zgoing /\ zcode >= 0
  /\ LET p == Position(zcode, Len(box))
     IN e.x = [d \in DOMAIN box |-> ranges[d][p[d] + 1]] /\ CallZ(p)
  /\ UNCHANGED ranges
EndIt(e) == e.op = "end" /\ e.usable /\ EndZ /\ UNCHANGED ranges
Step(e) == Begin(e) \/ CallIt(e) \/ EndIt(e)
Consume == More /\ Step(Ev) /\ Advance
Next == Consume \/ (Done /\ ~zgoing /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
