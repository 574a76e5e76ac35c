------------------------------- MODULE Grammar -----------------------------
(***************************************************************************)
(* Reading an expression: a machine with a stack, one transition per       *)
(* lexical element.                                                        *)
(*                                                                         *)
(* The machine is an operator, Step, from states to states.  MC_Grammar    *)
(* makes it the next-state relation and explores it over all small texts;  *)
(* Run, which iterates it, is what traces of the implementation are        *)
(* compared with.                                                          *)
(*                                                                         *)
(* A state has                                                             *)
(*   m    what to do: read an "atom", a factorial sign ("post"), a binary  *)
(*        operator ("loop"), give the value to what waits for it ("ret");  *)
(*        or nothing any more, "ok" or "err"                               *)
(*   pos  the position in the text                                         *)
(*   prec operators that bind no tighter are not read now                  *)
(*   val  the tree read last                                               *)
(*   nend the position after the last number, or -1                        *)
(*   stk  what waits for a value, innermost last                           *)
(*   err  the error                                                        *)
(*                                                                         *)
(* A context gives the meaning of names: a function whose values are       *)
(* [k |-> "var", v |-> number] and [k |-> "fn", f |-> Library!Fn].         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Text, Tree, Library, Iter

CONSTANTS
  Lit(_),    \* the number that a decimal literal stands for
  Const(_)   \* the value of a constant ("pi" or "e")

NumStart == Digit \cup {"."}
GroupStart == Letter \cup {"("}
NoPrec == 0
UnaryPrec == 3
BinaryOps == {"+", "-", "*", "/", "%", "^"}
Prec(op) == CASE op \in {"+", "-"} -> 1 [] op \in {"*", "/", "%"} -> 2
              [] op = "^" -> 4
(* pemdas ("P"): a juxtaposition is a multiplication like the other ones;  *)
(* pejmdas ("J"): it binds tighter.                                        *)
ImplicitPrec(mode) == IF mode = "J" THEN 3 ELSE 2

NoErr == [kind |-> "none"]
Start == [m |-> "atom", pos |-> 0, prec |-> NoPrec, val |-> None, nend |-> -1,
          stk |-> <<>>, err |-> NoErr]
Done(st) == st.m \in {"ok", "err"}

(* What a name stands for.                                                 *)
Resolve(syms, name) ==
  IF name \in DOMAIN syms THEN syms[name]
  ELSE IF name \in ConstantNames THEN [k |-> "var", v |-> Const(name)]
  ELSE IF name \in BuiltInNames THEN [k |-> "fn", f |-> BuiltIn[name]]
  ELSE [k |-> "free"]

InCall(st) == \E i \in DOMAIN st.stk : st.stk[i].f = "call"

(* Errors: kind, the text it quotes or the counts, and the label.          *)
Err(st, kind, q, off, len) ==
  [st EXCEPT !.m = "err",
             !.err = [kind |-> kind, q |-> q, off |-> off, len |-> len]]
CharAt(txt, p) == IF p < Len(txt) THEN txt[p + 1] ELSE ""
LenAt(txt, p) == IF p < Len(txt) THEN CharLen(txt, p) ELSE 1
(* Within an argument, something unexpected is a missing argument.         *)
Unexpected(txt, st, p) ==
  IF InCall(st)
  THEN Err([st EXCEPT !.pos = p], "missing", "", p - 1, 1 + LenAt(txt, p))
  ELSE Err([st EXCEPT !.pos = p], "unexpected", CharAt(txt, p), p, 0)
Ended(st, p) ==
  Err([st EXCEPT !.pos = p], "end", "", IF p = 0 THEN 0 ELSE p - 1, 0)
Illegal(txt, st, p) ==
  Err([st EXCEPT !.pos = p], "illegal", CharAt(txt, p), p, 0)
Expected(st, c, p) == Err([st EXCEPT !.pos = p], "expected", c, p, 0)

Push(st, frame) == [st EXCEPT !.stk = Append(@, frame)]
Pop(st) == [st EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
Top(st) == st.stk[Len(st.stk)]
(* Reads an element that operators of precedence prec end.                 *)
Element(st, frame, p, prec) ==
  [Push(st, frame) EXCEPT !.m = "atom", !.pos = p, !.prec = prec]
(* An atom of the element being read, whose precedence is prec, is `val`.  *)
Atom(st, p, prec, val) ==
  [st EXCEPT !.m = "post", !.pos = p, !.prec = prec, !.val = val]

(***************************************************************************)
(* Transitions.                                                            *)
(***************************************************************************)
ReadNumber(txt, st, p) ==
  LET q == NumberEnd(txt, p)
  IN IF NumberValid(txt, p, q)
     THEN [Atom(st, q, st.prec, Num(Lit(GlueBut(txt, p, q, "_"))))
             EXCEPT !.nend = q]
     ELSE Err(st, "malformed", Glue(txt, p, q), p, q - p)

(* After the `)` of a call.                                                *)
CloseCall(st, fn, args, start, prec, p) ==
  LET n == Len(args)
  IN IF fn.a >= 0 /\ n < fn.a THEN Err(st, "few", <<fn.a, n>>, start, p - start)
     ELSE IF fn.a >= 0 /\ n > fn.a
     THEN Err(st, "many", <<fn.a, n>>, start, p - start)
     ELSE Atom(st, p, prec, Call(fn, args))

ReadName(txt, syms, st, p) ==
  LET q == NameEnd(txt, p)
      name == Glue(txt, p, q)
      s == Resolve(syms, name)
      o == Trim(txt, q)        \* the opening parenthesis
      a == Trim(txt, o + 1)
  IN CASE s.k = "var" -> Atom(st, q, st.prec, Num(s.v))
       [] s.k = "free" -> Atom(st, q, st.prec, Var(name))
       [] s.k = "fn" /\ At(txt, o) # "(" -> Expected(st, "(", o)
       [] s.k = "fn" /\ At(txt, o) = "(" /\ At(txt, a) = ")" ->
            CloseCall(st, s.f, <<>>, p, st.prec, a + 1)
       [] s.k = "fn" /\ At(txt, o) = "(" /\ At(txt, a) # ")" ->
            Element(st, [f |-> "call", fn |-> s.f, args |-> <<>>, start |-> p,
                         prec |-> st.prec], a, NoPrec)

ReadAtom(txt, syms, st) ==
  LET p == Trim(txt, st.pos)
      c == At(txt, p)
  IN CASE c = EOF -> Ended(st, p)
       [] c \in NumStart -> ReadNumber(txt, st, p)
       [] c \in Letter -> ReadName(txt, syms, st, p)
       [] c \in {"+", "-"} ->
            Element(st, [f |-> "un", o |-> c, prec |-> st.prec], p + 1, UnaryPrec)
       [] c = "(" -> Element(st, [f |-> "par", prec |-> st.prec], p + 1, NoPrec)
       [] c = ")" -> Unexpected(txt, st, p)
       [] OTHER -> Illegal(txt, st, p)

ReadPost(txt, st) ==
  LET p == Trim(txt, st.pos)
      q == Trim(txt, p + 1)
  IN IF At(txt, p) # "!" THEN [st EXCEPT !.m = "loop"]
     ELSE IF At(txt, q) = "!" THEN Unexpected(txt, st, q)
     ELSE [st EXCEPT !.m = "loop", !.pos = p + 1, !.val = Un("!", @)]

(* Only spaces between the last number and p?                              *)
AfterNumber(txt, st, p) == st.nend >= 0 /\ Trim(txt, st.nend) = p

ReadOperator(txt, mode, st) ==
  LET p == Trim(txt, st.pos)
      c == At(txt, p)
      rhs(o, q, prec) ==
        Element(st, [f |-> "bin", o |-> o, l |-> st.val, prec |-> st.prec],
                q, prec)
      end == [st EXCEPT !.m = "ret", !.pos = p]
  IN IF c \in BinaryOps
     THEN IF Prec(c) > st.prec THEN rhs(c, p + 1, Prec(c)) ELSE end
     ELSE IF /\ ImplicitPrec(mode) > st.prec
             /\ \/ c \in GroupStart
                \/ c \in Digit /\ ~AfterNumber(txt, st, p)
     THEN rhs("*", p, ImplicitPrec(mode))
     ELSE end

Return(txt, st) ==
  LET p == st.pos
      c == At(txt, p)
      f == Top(st)
      out == Pop(st)
  IN IF st.stk = <<>>
     THEN IF c = EOF THEN [st EXCEPT !.m = "ok"] ELSE Unexpected(txt, st, p)
     ELSE CASE f.f = "bin" ->
                 [out EXCEPT !.m = "loop", !.prec = f.prec,
                             !.val = Bin(f.o, f.l, @)]
            [] f.f = "un" -> Atom(out, p, f.prec, Un(f.o, st.val))
            [] f.f = "par" ->
                 IF c = ")" THEN Atom(out, p + 1, f.prec, st.val)
                 ELSE Expected(st, ")", p)
            [] f.f = "call" ->
                 LET args == Append(f.args, st.val)
                 IN CASE c = "," ->
                           Element(out, [f EXCEPT !.args = args], p + 1, NoPrec)
                      [] c = ")" ->
                           CloseCall(out, f.fn, args, f.start, f.prec, p + 1)
                      [] c = EOF -> Ended(st, p)
                      [] OTHER -> Unexpected(txt, out, p)

Step(txt, mode, syms, st) ==
  CASE st.m = "atom" -> ReadAtom(txt, syms, st)
    [] st.m = "post" -> ReadPost(txt, st)
    [] st.m = "loop" -> ReadOperator(txt, mode, st)
    [] st.m = "ret" -> Return(txt, st)

Run(txt, mode, syms, st) ==
  Iterate(LAMBDA x : Step(txt, mode, syms, x), Done, st)

Parse(txt, mode, syms) == Run(txt, mode, syms, Start)

(***************************************************************************)
(* What the error says.                                                    *)
(***************************************************************************)
Message(err) ==
  CASE err.kind = "end" -> "Unexpected end of expression"
    [] err.kind = "unexpected" -> "Unexpected token: `" \o err.q \o "`"
    [] err.kind = "malformed" -> "Malformed number: `" \o err.q \o "`"
    [] err.kind = "illegal" -> "Illegal character: `" \o err.q \o "`"
    [] err.kind = "expected" -> "Expected token: `" \o err.q \o "`"
    [] err.kind = "few" ->
         "Too few arguments for function call, expected "
           \o ToString(err.q[1]) \o " got " \o ToString(err.q[2])
    [] err.kind = "many" ->
         "Too many arguments for function call, expected "
           \o ToString(err.q[1]) \o " got " \o ToString(err.q[2])
    [] err.kind = "missing" -> "Missing argument for function call"
=============================================================================
