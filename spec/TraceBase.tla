----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What every trace specification shares.  A trace file holds one session  *)
(* per line: {"s": number, "k": kind, "ev": [event, ...]}.  The sessions   *)
(* are independent; each initial state picks one, and each step consumes   *)
(* one event of it.  An event that no action explains leaves the state     *)
(* without a successor: TLC reports a deadlock, which is a rejection, and  *)
(* its counterexample names the session and the position.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES sid, l

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Events == Sessions[sid].ev
Kind == Sessions[sid].k
More == l <= Len(Events)
Done == ~More
Ev == Events[l]

TInit == sid \in 1..Len(Sessions) /\ l = 1
Advance == l' = l + 1 /\ sid' = sid

(* A self test feeds sessions with one corrupted observation each: none of *)
(* them may be consumed to the end.                                        *)
NeverDone == ~Done
=============================================================================
