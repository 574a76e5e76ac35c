----------------------------- MODULE MC_Threads ----------------------------
(***************************************************************************)
(* Several threads read, simplify and evaluate at once, one step at a      *)
(* time, sharing the parser's context.                                     *)
(*                                                                         *)
(* Each reads a text with the machine of Grammar, a step of which is a     *)
(* transition, then simplifies what it read for x = 2 and evaluates it.    *)
(* However the steps interleave, each gets what it would get alone (C15).  *)
(* SharedCursor: the position in the text is kept in the parser.           *)
(* SharedScratch: the tree read last is.                                   *)
(***************************************************************************)
EXTENDS System, Lite

CONSTANTS Threads, SharedCursor, SharedScratch

VARIABLES text, st, out, cursor, scratch
vars == <<text, st, out, cursor, scratch>>

MyLit(t) == IF t = "2" THEN <<2, 1>> ELSE <<3, 1>>
MyConst(n) == LConst(n)
Chars(t) == [i \in 1 .. Len(t) |-> SubSeq(t, i, i)]
Texts == {"x-k", "2x!", "f(3)", "-x+"}
Syms == [k |-> [k |-> "var", v |-> <<5, 1>>], f |-> [k |-> "fn", f |-> Fn("f", 1, "d")]]
Names == [x |-> <<7, 1>>]

Finish(s) ==
  IF s.m = "err" THEN <<"err", s.err>>
  ELSE LET t == Simple(Subst(s.val, "x", <<2, 1>>), Stable, "s")
       IN <<"ok", Eval(t, Names, "s").v>>
Alone(t) == Finish(Parse(Chars(t), "P", Syms))

Init == /\ text \in [Threads -> Texts]
        /\ st = [t \in Threads |-> Start]
        /\ out = [t \in Threads |-> <<>>]
        /\ cursor = 0 /\ scratch = None
Read(t) ==
  /\ ~Done(st[t])
  /\ LET here == [st[t] EXCEPT !.pos = IF SharedCursor THEN cursor ELSE @,
                               !.val = IF SharedScratch THEN scratch ELSE @]
         next == Step(Chars(text[t]), "P", Syms, here)
     IN /\ st' = [st EXCEPT ![t] = next]
        /\ cursor' = IF SharedCursor THEN next.pos ELSE cursor
        /\ scratch' = IF SharedScratch THEN next.val ELSE scratch
  /\ UNCHANGED <<text, out>>
Give(t) ==
  /\ Done(st[t]) /\ out[t] = <<>>
  /\ out' = [out EXCEPT ![t] = Finish(st[t])]
  /\ UNCHANGED <<text, st, cursor, scratch>>
Next == \E t \in Threads : Read(t) \/ Give(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Read(t)) /\ WF_vars(Give(t))

Same == \A t \in Threads : out[t] # <<>> => out[t] = Alone(text[t])
Finished == <>(\A t \in Threads : out[t] # <<>>)
============================================================================
