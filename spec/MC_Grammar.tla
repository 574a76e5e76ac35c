----------------------------- MODULE MC_Grammar ----------------------------
(***************************************************************************)
(* The grammar, over token sequences.                                      *)
(*                                                                         *)
(* The sequences grow token by token, as long as what was read can still   *)
(* become an expression; so all sequences of at most N tokens are visited  *)
(* whose problem, if any, is in the last token.                            *)
(*                                                                         *)
(* Checked of the machine that reads expressions (Grammar), in both modes: *)
(*  - it accepts a sequence exactly when Meaning, a definition of the      *)
(*    grammar that splits a sequence at the operator that binds least,     *)
(*    gives it a tree, and reads that tree (C02);                          *)
(*  - spaces between the tokens change nothing but positions (C06);        *)
(*  - a displayed tree reads as that tree (C16);                           *)
(*  - an error is labelled within the input, and what precedes the error   *)
(*    could have become an expression (C07);                               *)
(*  - calls have the right number of arguments (C05).                      *)
(* With GEN, the sequences are printed: they become tests of the           *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Grammar, SequencesExt

CONSTANTS N, Kit, GEN

VARIABLE toks
vars == <<toks>>

Symbol(x) == x
MyLit(t) == t
MyConst(n) == n

Mine == [f |-> [k |-> "fn", f |-> Fn("f", 1, "h")],
         g |-> [k |-> "fn", f |-> Fn("g", -1, "h")],
         h |-> [k |-> "fn", f |-> Fn("h", 2, "h")],
         z |-> [k |-> "fn", f |-> Fn("z", 0, "h")],
         k |-> [k |-> "var", v |-> "5"]]
Functions == {"f", "g", "h", "z"}
Names == {"x", "y", "k"} \cup Functions
Numbers == {"2", "3", ".5"}
Tokens ==
  CASE Kit = "ops" -> {"x", "2", "+", "-", "*", "^", "!", "(", ")"}
    [] Kit = "jux" -> {"x", "2", "k", "-", "/", "^", "!", "(", ")"}
    [] Kit = "all" -> {"x", "2", ".5", "+", "-", "*", "/", "%", "^", "!", "(", ")", ",", "f", "g"}
    [] Kit = "call" -> {"f", "g", "h", "z", "(", ")", ",", "x", "-"}

Chars(str) == [i \in 1 .. Len(str) |-> SubSeq(str, i, i)]
Nameish(t) == t \in Names \cup {"2", "3"}
RECURSIVE Txt(_, _)
(* The text of tokens; sp is put between them, or a space where needed.    *)
Txt(ts, sp) ==
  IF ts = <<>> THEN Chars(sp)
  ELSE Chars(sp) \o Chars(ts[1]) \o
       (IF Len(ts) > 1 /\ sp = "" /\
           (\/ ts[1] \in Names /\ Nameish(ts[2])
            \/ ts[1] \in Numbers /\ ts[2] \in Numbers)
        THEN <<" ">> ELSE <<>>) \o Txt(Tail(ts), sp)

(***************************************************************************)
(* The grammar, by splitting at the operator that binds least.             *)
(***************************************************************************)
Ends(t) == t \in Numbers \cup (Names \ Functions) \cup {")", "!"}
Begins(t) == t \in Numbers \cup Names \cup {"("}
RECURSIVE Depth(_, _)
Depth(ts, i) ==
  IF i = 0 THEN 0
  ELSE Depth(ts, i - 1) + (IF ts[i] = "(" THEN 1 ELSE IF ts[i] = ")" THEN -1 ELSE 0)
(* Is position i outside of all parentheses?                               *)
Outer(ts, i) == Depth(ts, i - 1) = 0
IsBinary(ts, i, S) == ts[i] \in S /\ Outer(ts, i) /\ i > 1 /\ Ends(ts[i - 1])
(* Is there a juxtaposition before position i?                             *)
Juxtaposed(ts, i) ==
  /\ i > 1 /\ Outer(ts, i) /\ Ends(ts[i - 1]) /\ Begins(ts[i])
  /\ ts[i] # ".5"
  /\ ~(ts[i - 1] \in Numbers /\ ts[i] \in Numbers)
Best(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
First(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Bad == None

RECURSIVE Meaning(_, _), Args(_, _)
Meaning(ts, mode) ==
  LET n == Len(ts)
      at(S) == {i \in 1 .. n : IsBinary(ts, i, S)}
      jux == {i \in 1 .. n : Juxtaposed(ts, i)}
      sums == Best(at({"+", "-"}))
      prods == Best(at({"*", "/", "%"}) \cup (IF mode = "P" THEN jux ELSE {}))
      tight == Best(IF mode = "J" THEN jux ELSE {})
      signs == First({i \in 1 .. n : /\ ts[i] \in {"+", "-"} /\ Outer(ts, i)
                                     /\ (i = 1 \/ ~Ends(ts[i - 1]))})
      pows == at({"^"})
      both(o, l, r) == IF l = Bad \/ r = Bad THEN Bad ELSE Bin(o, l, r)
      split(i) ==
        IF ts[i] \in BinaryOps
        THEN both(ts[i], Meaning(SubSeq(ts, 1, i - 1), mode),
                  Meaning(SubSeq(ts, i + 1, n), mode))
        ELSE both("*", Meaning(SubSeq(ts, 1, i - 1), mode),
                  Meaning(SubSeq(ts, i, n), mode))
      inner == SubSeq(ts, 1, n - 1)
      wrap(o, t) == IF t = Bad THEN Bad ELSE Un(o, t)
  IN IF n = 0 \/ Depth(ts, n) # 0 \/ \E i \in 1 .. n : Depth(ts, i) < 0 THEN Bad
     ELSE IF sums # 0 THEN split(sums)
     ELSE IF prods # 0 THEN split(prods)
     ELSE IF tight # 0 THEN split(tight)
     ELSE IF signs = 1 THEN wrap(ts[1], Meaning(Tail(ts), mode))
     ELSE IF signs # 0
     THEN \* a sign takes all the powers that follow it
          IF ts[signs - 1] = "^" THEN split(signs - 1) ELSE Bad
     ELSE IF pows # {} THEN split(Best(pows))
     ELSE IF ts[n] = "!"
     THEN IF n > 1 /\ ts[n - 1] # "!" THEN wrap("!", Meaning(inner, mode)) ELSE Bad
     ELSE IF n = 1
     THEN IF ts[1] \in Numbers THEN Num(ts[1])
          ELSE IF ts[1] = "k" THEN Num("5")
          ELSE IF ts[1] \in {"x", "y"} THEN Var(ts[1]) ELSE Bad
     ELSE IF ts[n] # ")" THEN Bad
     ELSE IF ts[1] = "(" THEN Meaning(SubSeq(ts, 2, n - 1), mode)
     ELSE IF ts[1] \in Functions /\ ts[2] = "("
     THEN LET f == Mine[ts[1]].f
              as == Args(SubSeq(ts, 3, n - 1), mode)
          IN IF n = 3 THEN IF f.a \in {-1, 0} THEN Call(f, <<>>) ELSE Bad
             ELSE IF (\E i \in DOMAIN as : as[i] = Bad) \/ (f.a # -1 /\ f.a # Len(as))
             THEN Bad ELSE Call(f, as)
     ELSE Bad
(* The arguments, separated by the commas outside of parentheses.          *)
Args(ts, mode) ==
  LET c == First({i \in 1 .. Len(ts) : ts[i] = "," /\ Outer(ts, i)})
  IN IF c = 0 THEN <<Meaning(ts, mode)>>
     ELSE <<Meaning(SubSeq(ts, 1, c - 1), mode)>>
          \o Args(SubSeq(ts, c + 1, Len(ts)), mode)

(***************************************************************************)
(* Sequences.                                                              *)
(***************************************************************************)
Syms == Mine
Read(ts, mode) == Parse(Txt(ts, ""), mode, Syms)
(* Could more tokens make an expression of it?                             *)
Open(r, txt) == r.m = "ok" \/ r.err.kind = "end" \/
                (r.err.kind = "expected" /\ r.err.off = Len(txt))

Init == toks = <<>>
Next == /\ Len(toks) < N
        /\ LET txt == Txt(toks, "") IN Open(Parse(txt, "P", Syms), txt)
        /\ \E t \in Tokens : toks' = Append(toks, t)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN "" ELSE cs[1] \o Join(Tail(cs))

Agrees ==
  \A mode \in {"P", "J"} :
    LET r == Read(toks, mode)
        m == Meaning(toks, mode)
    IN IF m = Bad THEN r.m = "err" ELSE r.m = "ok" /\ r.val = m

(* Errors with the same text, at the same token.                           *)
Spacing ==
  \A mode \in {"P", "J"} : \A sp \in {" ", "\t", "\n  "} :
    LET r == Read(toks, mode)
        q == Parse(Txt(toks, sp), mode, Syms)
    IN /\ r.m = q.m
       /\ IF r.m = "ok" THEN r.val = q.val
          ELSE r.err.kind = q.err.kind /\ r.err.q = q.err.q

MyNum(v) == v
MyNeg(v) == FALSE
Shown(t) == Show(t, MyNum, MyNeg)
RoundTrip ==
  \A mode \in {"P", "J"} :
    LET r == Read(toks, mode)
    IN r.m = "ok" =>
         LET q == Parse(Chars(Shown(r.val)), mode, Syms)
             \* the constant k displays as its value
         IN q.m = "ok" /\ Shown(q.val) = Shown(r.val)

Labelled ==
  \A mode \in {"P", "J"} :
    LET txt == Txt(toks, "")
        r == Parse(txt, mode, Syms)
    IN r.m = "err" =>
         /\ r.err.off >= 0 /\ r.err.off + r.err.len <= Len(txt)
         /\ Message(r.err) # ""
         /\ r.err.kind \in {"few", "many"} =>
              txt[r.err.off + 1] \in Functions /\ txt[r.err.off + r.err.len] = ")"

RECURSIVE ArityOk(_)
ArityOk(t) ==
  CASE t.k \in {"num", "var"} -> TRUE
    [] t.k = "un" -> ArityOk(t.t)
    [] t.k = "bin" -> ArityOk(t.l) /\ ArityOk(t.r)
    [] t.k = "call" -> /\ t.f.a = -1 \/ t.f.a = Len(t.args)
                       /\ \A i \in DOMAIN t.args : ArityOk(t.args[i])
Arity == \A mode \in {"P", "J"} :
           LET r == Read(toks, mode) IN r.m = "ok" => ArityOk(r.val)

Generated == GEN => PrintT("TEST " \o ToString(toks))

(* Flawed grammars, to see that the properties tell: signs bind as * does; *)
(* / binds tighter than *; numbers may be juxtaposed if there is more than *)
(* one space between them; missing parentheses are labelled too far; the   *)
(* number of arguments isn't counted; signs and factorials are displayed   *)
(* without parentheses.                                                    *)
WrongUnary == 2
WrongPrec(op) == CASE op \in {"+", "-"} -> 1 [] op = "*" -> 2 [] op \in {"/", "%"} -> 3
                   [] op = "^" -> 4
WrongAfter(txt, s, p) == s.nend >= 0 /\ p - s.nend <= 1 /\ Trim(txt, s.nend) = p
WrongExpected(s, c, p) ==
  Err([s EXCEPT !.pos = p], "expected", c, p + Cardinality({i \in DOMAIN s.stk : s.stk[i].f = "call"}), 0)
WrongClose(s, fn, args, start, prec, p) == Atom(s, p, prec, Call(fn, args))
RECURSIVE WrongShown(_)
WrongShown(t) ==
  CASE t.k = "num" -> t.v
    [] t.k = "var" -> t.n
    [] t.k = "un" /\ t.o = "!" -> WrongShown(t.t) \o "!"
    [] t.k = "un" /\ t.o # "!" -> t.o \o WrongShown(t.t)
    [] t.k = "bin" -> "(" \o WrongShown(t.l) \o " " \o t.o \o " " \o WrongShown(t.r) \o ")"
    [] OTHER -> "f()"
============================================================================
