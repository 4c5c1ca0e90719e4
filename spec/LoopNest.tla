------------------------------ MODULE LoopNest ------------------------------
(***************************************************************************)
(* Index iteration (C03, C20, C15): a loop nest over the dimensions named  *)
(* by an order, the first one innermost, as an odometer.  Each step of the *)
(* machine is one call of the user's function.                             *)
(***************************************************************************)
EXTENDS NDShape

VARIABLES
  nest,    (* the dimensions iterated, innermost first *)
  order,   (* which dimension of the shape each of them is *)
  cur,     (* the odometer: <<next tuple in loop order>>, STOP when exhausted *)
  going    (* an iteration is in progress *)

nestVars == <<nest, order, cur, going>>
STOP == <<>>

NestInit == nest = <<>> /\ order = <<>> /\ cur = STOP /\ going = FALSE

DefaultOrder(s) == [i \in DOMAIN s |-> i]

Begin(s, perm) ==
  /\ ~going
  /\ going' = TRUE
  /\ order' = perm
  /\ nest' = Reorder(s, perm)
  /\ cur' = IF Empty(Reorder(s, perm)) THEN STOP ELSE <<Mins(Reorder(s, perm))>>

(* The odometer: increment the innermost loop that has not reached its end *)
(* and restart those inside it.                                            *)
Succ(n, x) ==
  LET room == {i \in DOMAIN n : x[i] < Mx(n[i])}
  IN IF room = {} THEN STOP
     ELSE LET i == SetMin(room)
          IN <<[j \in DOMAIN n |-> IF j < i THEN Mn(n[j]) ELSE IF j = i THEN x[j] + 1 ELSE x[j]]>>

CanCall(x) == going /\ cur # STOP /\ x = Unshuffle(order, cur[1])
Call(x) ==
  /\ CanCall(x)
  /\ cur' = Succ(nest, cur[1])
  /\ UNCHANGED <<nest, order, going>>

End ==
  /\ going /\ cur = STOP
  /\ going' = FALSE
  /\ UNCHANGED <<nest, order, cur>>
=============================================================================
