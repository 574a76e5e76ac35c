------------------------------- MODULE MC_Lex ------------------------------
(***************************************************************************)
(* Lexical elements, over all texts of a few characters.                   *)
(*                                                                         *)
(* Numbers and names are defined here as languages; an element is the      *)
(* longest prefix that is in one of them.  Checked of the machine that     *)
(* reads expressions:                                                      *)
(*  - where it ends a number or a name is where the longest prefix ends,   *)
(*    and which runs it takes for numbers (C03, C04);                      *)
(*  - the number that it makes of one is the one that its digits denote    *)
(*    (C03);                                                               *)
(*  - writing a space between all elements changes nothing but positions   *)
(*    (C03, C04, C06), and an expression never becomes another one by a    *)
(*    space within an element, but an error or a juxtaposition (C06).      *)
(* With GEN, the texts are printed: they become tests of the               *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Grammar, SequencesExt, Lite

CONSTANTS N, Kit, GEN

VARIABLE txt
vars == <<txt>>

Alphabet ==
  CASE Kit = "lit" -> {"1", "0", ".", "_", "e", "E", "+", "x"}
    [] Kit = "names" -> {"a", "e", "B", "1", "_", "'", "("}
    [] Kit = "mix" -> {"2", ".", "e", "a", "-", " ", "(", ")", "!"}

Mine == [a |-> [k |-> "var", v |-> <<7, 1>>],
         aa |-> [k |-> "fn", f |-> Fn("aa", -1, "h")],
         B |-> [k |-> "fn", f |-> Fn("B", 1, "d")]]

(***************************************************************************)
(* Languages.                                                              *)
(***************************************************************************)
All(s, S) == \A i \in DOMAIN s : s[i] \in S
Some(s, S) == \E i \in DOMAIN s : s[i] \in S
Sub(s, p, q) == SubSeq(s, p + 1, q)       \* from position p to position q
(* What is cut out as a number: a run of digits, points and underscores,   *)
(* and perhaps an exponent.                                                *)
IsRun(s) == s # <<>> /\ s[1] \in Digit \cup {"."} /\ All(s, NumChar)
IsExponent(s) ==
  /\ Len(s) >= 2 /\ s[1] \in {"e", "E"}
  /\ \/ All(Tail(s), Digit)
     \/ Len(s) >= 3 /\ s[2] \in {"+", "-"} /\ All(Tail(Tail(s)), Digit)
IsNumeral(s) ==
  IsRun(s) \/ \E k \in 1 .. Len(s) - 1 : IsRun(Sub(s, 0, k)) /\ IsExponent(Sub(s, k, Len(s)))
(* ... which is a number if its mantissa has a digit and at most one point *)
Mantissa(s) == CHOOSE k \in 1 .. Len(s) :
                 /\ IsRun(Sub(s, 0, k))
                 /\ k = Len(s) \/ IsExponent(Sub(s, k, Len(s)))
IsNumber(s) ==
  LET m == Sub(s, 0, Mantissa(s))
  IN Some(m, Digit) /\ Cardinality({i \in DOMAIN m : m[i] = "."}) <= 1
IsName(s) == s # <<>> /\ s[1] \in Letter /\ All(s, NameChar)

Longest(p, Lang(_)) ==
  LET E == {q \in p + 1 .. Len(txt) : Lang(Sub(txt, p, q))}
  IN CHOOSE q \in E : \A r \in E : r <= q

(* The ends of the elements, from position p on.                           *)
RECURSIVE Elements(_)
Elements(p) ==
  IF p >= Len(txt) THEN <<>>
  ELSE LET c == txt[p + 1]
           q == IF c \in Digit \cup {"."} THEN Longest(p, IsNumeral)
                ELSE IF c \in Letter THEN Longest(p, IsName) ELSE p + 1
       IN <<<<p, q>>>> \o Elements(q)

RECURSIVE Spaced(_)
Spaced(es) ==
  IF es = <<>> THEN <<>>
  ELSE Sub(txt, es[1][1], es[1][2]) \o <<" ">> \o Spaced(Tail(es))

(***************************************************************************)
(* The number that characters write.                                       *)
(***************************************************************************)
Val(c) == CHOOSE n \in 0 .. 9 : ToString(n) = c
Clean(s) == SelectSeq(s, LAMBDA c : c # "_")
RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
Scale(r, n) == IF n >= 0 THEN Rat(r[1] * Pow10(n), r[2]) ELSE Rat(r[1], r[2] * Pow10(-n))
RECURSIVE Nat10(_)
Nat10(s) == IF s = <<>> THEN 0 ELSE 10 * Nat10(SubSeq(s, 1, Len(s) - 1)) + Val(s[Len(s)])
(* By positions: each digit times the power of ten of its place.           *)
RECURSIVE Places(_, _, _)
Places(s, i, dot) ==
  IF i > Len(s) THEN <<0, 1>>
  ELSE IF s[i] = "." THEN Places(s, i + 1, dot)
  ELSE LAdd(Scale(<<Val(s[i]), 1>>, IF i < dot THEN dot - i - 1 ELSE dot - i),
            Places(s, i + 1, dot))
Denotes(s) ==
  LET k == Mantissa(s)
      m == Clean(Sub(s, 0, k))
      D == {i \in DOMAIN m : m[i] = "."}
      dot == IF D = {} THEN Len(m) + 1 ELSE CHOOSE i \in D : TRUE
      x == SubSeq(s, k + 2, Len(s))
      ex == IF k = Len(s) THEN 0
            ELSE IF x[1] = "-" THEN -Nat10(Tail(x))
            ELSE IF x[1] = "+" THEN Nat10(Tail(x)) ELSE Nat10(x)
      v == Places(m, 1, dot)
  IN IF v = <<0, 1>> THEN v ELSE IF ex > 3 \/ ex < -3 THEN LNaN ELSE Scale(v, ex)

(* The machine's literals, the way a conversion reads them: left to right. *)
RECURSIVE Read(_, _, _, _)
Read(t, i, acc, frac) ==   \* acc / 10^frac, frac = -1 before the point
  IF i > Len(t) THEN <<acc, frac, 0>>
  ELSE LET c == SubSeq(t, i, i)
       IN IF c = "." THEN Read(t, i + 1, acc, 0)
          ELSE IF c \in {"e", "E"}
          THEN LET rest == [k \in 1 .. Len(t) - i |-> SubSeq(t, i + k, i + k)]
               IN <<acc, frac, IF rest[1] = "-" THEN -Nat10(Tail(rest))
                               ELSE IF rest[1] = "+" THEN Nat10(Tail(rest)) ELSE Nat10(rest)>>
          ELSE Read(t, i + 1, 10 * acc + Val(c), IF frac < 0 THEN frac ELSE frac + 1)
MyLit(t) ==
  LET r == Read(t, 1, 0, -1)
      f == IF r[2] < 0 THEN 0 ELSE r[2]
  IN IF r[1] = 0 THEN <<0, 1>> ELSE IF r[3] > 3 \/ r[3] < -3 THEN LNaN
     ELSE Scale(Rat(r[1], Pow10(f)), r[3])
MyConst(n) == LConst(n)
(* Wrong: an exponent needs no digit.                                      *)
BadEnd(t, p) ==
  LET m == SkipIn(t, p, NumChar)
  IN IF At(t, m) \in {"e", "E"} THEN SkipIn(t, m + 1, Digit \cup {"+", "-"}) ELSE m
(* Wrong: a name ends before a digit.                                      *)
BadName(t, p) == SkipIn(t, p, Letter \cup {"_", "'"})

Init == txt = <<>>
Next == /\ Len(txt) < N
        /\ \E c \in Alphabet : txt' = Append(txt, c)
Spec == Init /\ [][Next]_vars

Ends ==
  \A i \in DOMAIN Elements(0) :
    LET p == Elements(0)[i][1]
        q == Elements(0)[i][2]
        c == txt[p + 1]
    IN CASE c \in Digit \cup {"."} ->
              /\ NumberEnd(txt, p) = q
              /\ NumberValid(txt, p, q) <=> IsNumber(Sub(txt, p, q))
         [] c \in Letter -> NameEnd(txt, p) = q
         [] OTHER -> TRUE

Denoted ==
  LET e == Elements(0)
      r == Parse(txt, "P", Mine)
  IN (Len(e) = 1 /\ txt[1] \in Digit \cup {"."} /\ IsNumber(txt)) =>
       r.m = "ok" /\ r.val = Num(Denotes(txt))

Munch ==
  \A mode \in {"P", "J"} :
    LET r == Parse(txt, mode, Mine)
        q == Parse(Spaced(Elements(0)), mode, Mine)
    IN /\ r.m = q.m
       /\ IF r.m = "ok" THEN r.val = q.val ELSE r.err.kind = q.err.kind /\ r.err.q = q.err.q

Generated == GEN => PrintT("TEST " \o ToString(txt))
============================================================================
