------------------------------- MODULE MC_Repl -----------------------------
(***************************************************************************)
(* The REPL: a loop that reads a line into a buffer, answers it, asking    *)
(* for the values of variables, which are the next lines, and ends at a    *)
(* line `exit` or at the end of the input.                                 *)
(*                                                                         *)
(* Checked (C20): what was written is, at any time, a prefix of what the   *)
(* lines call for, and all of it in the end; the loop ends.                *)
(* Flaws: "eof": the end of the input is taken for an empty line;          *)
(* "buffer": the buffer isn't emptied before the next line is added to it; *)
(* "drain": when a line is an error, the next one is dropped;              *)
(* "twice": a variable that occurs twice is asked for twice.               *)
(***************************************************************************)
EXTENDS Grammar, Simplify, Lite

CONSTANTS N, Flaw

VARIABLES
  script,  \* the lines, as they were given
  input,   \* the lines that weren't read yet
  buf,     \* the text of the line
  m,       \* "read", "ask", "value", "ended", "failed" (no number was given)
  x,       \* the expression
  left,    \* the variables (in the order in which they are asked for)
  env,     \* the values given
  out      \* what was written
vars == <<script, input, buf, m, x, left, env, out>>

MyLit(t) == <<IF t = "2" THEN 2 ELSE 3, 1>>
MyConst(n) == LConst(n)
Chars(t) == [i \in 1 .. Len(t) |-> SubSeq(t, i, i)]
Numbers == [t \in {"2", "3"} |-> MyLit(t)]
Lines == {"2", "3", "a-a", "b/a", "2+", "exit"}
Read(t) == Parse(Chars(t), "P", <<>>)
RECURSIVE Occurrences(_)
Occurrences(t) ==
  CASE t.k = "num" -> <<>> [] t.k = "var" -> <<t.n>>
    [] t.k = "un" -> Occurrences(t.t)
    [] t.k = "bin" -> Occurrences(t.l) \o Occurrences(t.r)
(* The variables, each once, in any order.                                 *)
Orders(t) ==
  IF Flaw = "twice" THEN {Occurrences(t)}
  ELSE LET V == Vars(t)
       IN {q \in [1 .. Cardinality(V) -> V] : {q[i] : i \in DOMAIN q} = V}

RECURSIVE Tuples(_, _)
Tuples(S, n) == IF n = 0 THEN {<<>>} ELSE {Append(t, e) : t \in Tuples(S, n - 1), e \in S}

Init == /\ script \in UNION {Tuples(Lines, n) : n \in 0 .. N}
        /\ input = script /\ buf = "" /\ m = "read" /\ x = None
        /\ left = <<>> /\ env = <<>> /\ out = <<>>

Say(o) == out' = Append(out, o)
ReadLine ==
  /\ m = "read"
  /\ IF input = <<>> /\ Flaw # "eof"
     THEN m' = "ended" /\ Say(<<"bye">>) /\ UNCHANGED <<input, buf, x, left>>
     ELSE LET rest == IF input = <<>> THEN <<>> ELSE Tail(input)
              b == buf \o (IF input = <<>> THEN "" ELSE Head(input))
              r == Read(b)
          IN IF b = "exit"
             THEN m' = "ended" /\ Say(<<"bye">>) /\ input' = rest /\ UNCHANGED <<buf, x, left>>
             ELSE /\ buf' = IF Flaw = "buffer" THEN b ELSE ""
                  /\ input' = IF Flaw = "drain" /\ r.m = "err" /\ rest # <<>> THEN Tail(rest) ELSE rest
                  /\ IF r.m = "err"
                     THEN m' = "read" /\ Say(<<"error", Message(r.err)>>) /\ UNCHANGED <<x, left>>
                     ELSE /\ x' = r.val /\ left' \in Orders(r.val) /\ m' = "ask"
                          /\ Say(<<"read", r.val>>)
  /\ env' = <<>> /\ UNCHANGED script
Ask ==
  /\ m = "ask"
  /\ IF left = <<>>
     THEN /\ m' = "read" /\ Say(<<"value", Eval(x, env, "s").v>>)
          /\ UNCHANGED <<input, left, env>>
     ELSE IF input = <<>> \/ Head(input) \notin DOMAIN Numbers
     THEN m' = "failed" /\ UNCHANGED <<input, left, env, out>>
     ELSE /\ env' = [n \in DOMAIN env \cup {Head(left)} |->
                       IF n = Head(left) THEN Numbers[Head(input)] ELSE env[n]]
          /\ Say(<<"ask", Head(left)>>)
          /\ input' = Tail(input) /\ left' = Tail(left) /\ m' = m
  /\ UNCHANGED <<script, buf, x>>
Next == ReadLine \/ Ask
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* The answers that lines call for, but for the order of the questions:    *)
(* per line, the kind, the set of the questions with their answers, and    *)
(* the value.  At a variable that isn't answered with a number, they end.  *)
RECURSIVE Calls4(_)
Calls4(ls) ==
  IF ls = <<>> \/ Head(ls) = "exit" THEN <<{<<"bye">>}>>
  ELSE LET r == Read(Head(ls))
           n == IF r.m = "ok" THEN Cardinality(Vars(r.val)) ELSE 0
           given == SubSeq(ls, 2, 1 + n)
       IN IF r.m = "err" THEN <<{<<"error", Message(r.err)>>}>> \o Calls4(Tail(ls))
          ELSE IF Len(ls) < 1 + n \/ \E i \in DOMAIN given : given[i] \notin DOMAIN Numbers
          THEN <<>>
          ELSE LET V == Vars(r.val)
                   Q == {q \in [1 .. n -> V] : {q[i] : i \in DOMAIN q} = V}
                   value(q) == Eval(r.val, [v \in V |-> Numbers[given[CHOOSE i \in 1 .. n : q[i] = v]]], "s").v
               IN <<{<<"line", q, value(q)>> : q \in Q}>> \o Calls4(SubSeq(ls, 2 + n, Len(ls)))

(* What was written, in the same form.                                     *)
RECURSIVE Said(_, _)
Said(o, i) ==
  IF i > Len(o) THEN <<>>
  ELSE IF o[i][1] \in {"bye", "error"} THEN <<o[i]>> \o Said(o, i + 1)
  ELSE LET V == {j \in i .. Len(o) : o[j][1] = "value"}
       IN IF V = {} THEN <<>>
          ELSE LET j == CHOOSE j \in V : \A k \in V : j <= k
               IN <<<<"line", [k \in 1 .. j - i - 1 |-> o[i + k][2]], o[j][2]>>>>
                    \o Said(o, j + 1)

Answers ==
  LET want == Calls4(script)
      have == Said(out, 1)
  IN /\ Len(have) <= Len(want)
     /\ \A i \in DOMAIN have : have[i] \in want[i]
     /\ m \in {"ended", "failed"} => Len(have) = Len(want)
Ends == <>(m \in {"ended", "failed"})
Bound == Len(out) <= 4 * N + 4
============================================================================
