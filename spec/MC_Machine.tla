----------------------------- MODULE MC_Machine ----------------------------
(***************************************************************************)
(* The machine that reads expressions, step by step, over all texts of at  *)
(* most N characters, multi-byte ones included.                            *)
(*                                                                         *)
(* Checked: it is total and terminates after a number of steps linear in   *)
(* the length of the text (C01); no error is found later than at the first *)
(* character that makes the text no expression's beginning, its label lies *)
(* within the text, on whole characters (C07).                             *)
(***************************************************************************)
EXTENDS Grammar

CONSTANTS N, Kit

VARIABLES txt, mode, st, n
vars == <<txt, mode, st, n>>

MyLit(t) == t
MyConst(c) == c
Mine == [f |-> [k |-> "fn", f |-> Fn("f", 1, "h")],
         g |-> [k |-> "fn", f |-> Fn("g", -1, "h")],
         h |-> [k |-> "fn", f |-> Fn("h", 2, "h")]]
Char ==
  CASE Kit = "text" ->
         {<<"2">>, <<".">>, <<"e">>, <<"-">>, <<"*">>, <<"(">>, <<")">>, <<"!">>,
          <<" ">>, <<"~odd", CONT>>, <<"x">>}
    [] Kit = "call" ->
         {<<"f">>, <<"g">>, <<"h">>, <<"(">>, <<")">>, <<",">>, <<" ">>, <<"2">>,
          <<"+">>, <<"~odd", CONT>>}
    [] Kit = "small" ->
         {<<"2">>, <<"f">>, <<"(">>, <<")">>, <<",">>, <<"-">>, <<"~odd", CONT>>}
RECURSIVE Texts(_)
Texts(k) == IF k = 0 THEN {<<>>}
            ELSE LET s == Texts(k - 1) IN s \cup {a \o b : a \in s, b \in Char}

Init == /\ txt \in Texts(N)
        /\ mode \in {"P", "J"}
        /\ st = Start
        /\ n = 0
Next == \/ /\ ~Done(st)
           /\ st' = Step(txt, mode, Mine, st)
           /\ n' = n + 1
           /\ UNCHANGED <<txt, mode>>
        \/ Done(st) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* A text that ends the expression of which the beginning was read.        *)
Full(f) == f.f = "call" /\ f.fn.a >= 0 /\ Len(f.args) >= f.fn.a
RECURSIVE Close(_)
Close(stk) ==
  IF stk = <<>> THEN <<>>
  ELSE LET f == stk[Len(stk)]
           RECURSIVE More(_)
           More(k) == IF k <= 0 THEN <<>> ELSE <<",", "(", "1", ")">> \o More(k - 1)
       IN (CASE f.f = "par" -> <<")">>
             [] f.f = "call" -> More(f.fn.a - Len(f.args) - 1) \o <<")">>
             [] OTHER -> <<>>)
          \o Close(SubSeq(stk, 1, Len(stk) - 1))
Rest(s) == (IF s.m = "atom" THEN <<"(", "1", ")">> ELSE <<>>) \o Close(s.stk)

Viable ==
  (/\ ~Done(st)
   /\ \A i \in DOMAIN st.stk : ~Full(st.stk[i])) =>
     Parse(SubSeq(txt, 1, st.pos) \o Rest(st), mode, Mine).m = "ok"

Bounded == n <= 8 * (Len(txt) + 1)
Inside == st.pos <= Len(txt) + 1 /\ (~Done(st) => st.pos <= Len(txt))
Label ==
  st.m = "err" =>
    /\ st.err.off >= 0
    /\ Boundary(txt, st.err.off)
    /\ Boundary(txt, st.err.off + st.err.len)
    /\ Message(st.err) # ""
Accepted == st.m = "ok" => st.stk = <<>> /\ st.pos = Len(txt)
Terminates == <>Done(st)

(* Flaws: a `!` isn't consumed; the end of an argument isn't checked to    *)
(* be inside of the text.                                                  *)
StuckPost(t, s) ==
  LET p == Trim(t, s.pos)
  IN IF At(t, p) # "!" THEN [s EXCEPT !.m = "loop"] ELSE [s EXCEPT !.pos = p]
WrongEnded(s, p) == Err([s EXCEPT !.pos = p], "end", "", p - 1, 0)
============================================================================
