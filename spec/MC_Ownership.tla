---------------------------- MODULE MC_Ownership ---------------------------
(***************************************************************************)
(* Simplifying an expression in place, calling functions that may panic.   *)
(*                                                                         *)
(* The expression owns a tree, here a sequence of nodes that are made from *)
(* left to right into the nodes of the new tree; making one calls a        *)
(* function of the user, which may panic.  Then everything that the frames *)
(* own is dropped, and the expression stays.  Later it is used again, and  *)
(* dropped.                                                                *)
(* How it is done:                                                         *)
(*   "swap"  a copy is simplified, and takes the old tree's place          *)
(*   "copy"  the tree is read bitwise and simplified, and its result       *)
(*           written over it: after a panic, both the expression and the   *)
(*           frame own it, so that it is dropped twice                     *)
(*   "take"  the tree is taken, and something else left in its place: after*)
(*           a panic, the expression isn't what it was                     *)
(*   "leak"  as copy, but the frame forgets what it read                   *)
(* Checked (C21): no node is dropped twice or used when dropped; after a   *)
(* panic the expression is what it was; in the end, all were dropped.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS How, Nodes

VARIABLES
  slot,    \* what the expression owns: a sequence of nodes
  frame,   \* what the simplifying function owns
  new,     \* the nodes it made
  made,    \* how many nodes were made so far
  drops,   \* how often each node was dropped
  pc,      \* "idle", "work", "gone"
  calls    \* simplifications so far
vars == <<slot, frame, new, made, drops, pc, calls>>

All == 1 .. 60
Range(q) == {q[i] : i \in DOMAIN q}
RECURSIVE DropAll(_, _)
DropAll(d, q) ==
  IF q = <<>> THEN d ELSE DropAll([d EXCEPT ![Head(q)] = @ + 1], Tail(q))
Copy == [i \in 1 .. Len(slot) |-> made + i]

Init == /\ slot = [i \in 1 .. Nodes |-> i]
        /\ frame = <<>> /\ new = <<>> /\ made = Nodes
        /\ drops = [n \in All |-> 0]
        /\ pc = "idle" /\ calls = 0
Begin ==
  /\ pc = "idle" /\ calls < 2 /\ slot # <<>>
  /\ pc' = "work" /\ calls' = calls + 1 /\ new' = <<>>
  /\ CASE How = "swap" -> frame' = Copy /\ made' = made + Len(slot) /\ UNCHANGED slot
       [] How \in {"copy", "leak"} -> frame' = slot /\ UNCHANGED <<slot, made>>
       [] How = "take" -> frame' = slot /\ slot' = <<>> /\ UNCHANGED made
  /\ UNCHANGED drops
(* A node of the old tree is consumed, and one of the new tree made.       *)
Make ==
  /\ pc = "work" /\ frame # <<>>
  /\ drops' = DropAll(drops, <<Head(frame)>>)
  /\ frame' = Tail(frame)
  /\ new' = Append(new, made + 1) /\ made' = made + 1
  /\ UNCHANGED <<slot, pc, calls>>
Panic ==
  /\ pc = "work" /\ frame # <<>>
  /\ drops' = DropAll(drops, IF How = "leak" THEN new ELSE frame \o new)
  /\ frame' = <<>> /\ new' = <<>> /\ pc' = "idle"
  /\ UNCHANGED <<slot, made, calls>>
End ==
  /\ pc = "work" /\ frame = <<>>
  /\ drops' = DropAll(drops, IF How = "swap" THEN slot ELSE <<>>)
  /\ slot' = new /\ new' = <<>> /\ pc' = "idle"
  /\ UNCHANGED <<frame, made, calls>>
Drop ==
  /\ pc = "idle"
  /\ drops' = DropAll(drops, slot) /\ slot' = <<>> /\ pc' = "gone"
  /\ UNCHANGED <<frame, new, made, calls>>
Next == Begin \/ Make \/ Panic \/ End \/ Drop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Once == \A n \in All : drops[n] <= 1
Alive == pc = "idle" => \A n \in Range(slot) : drops[n] = 0
Whole == pc = "idle" => Len(slot) = Nodes
Unchanged == [][Panic => slot' = slot /\ Len(slot') = Nodes]_vars
Freed == pc = "gone" => \A n \in 1 .. made : drops[n] = 1
============================================================================
