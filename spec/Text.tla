-------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Input texts and their lexical elements.                                 *)
(*                                                                         *)
(* A text is a sequence with one element per byte (see F64!Bytes), and a   *)
(* position is the number of bytes before it, as in the labels of errors.  *)
(* java/Text.java overrides the recursive operators by loops, which spares *)
(* TLC the recursion in long texts.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

EOF == "~eof"
CONT == "~cont"

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
          "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M",
          "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Letter == Lower \cup Upper
NameChar == Letter \cup Digit \cup {"_", "'"}
NumChar == Digit \cup {".", "_"}
(* ASCII whitespace (vertical tab is not one of them).                     *)
Space == {" ", "\t", "\n", "\f", "\r"}

At(txt, p) == IF p < Len(txt) THEN txt[p + 1] ELSE EOF

RECURSIVE SkipIn(_, _, _)
SkipIn(txt, p, S) ==
  IF p < Len(txt) /\ txt[p + 1] \in S THEN SkipIn(txt, TLCEval(p + 1), S) ELSE p

Trim(txt, p) == SkipIn(txt, p, Space)

(* The number of bytes of the character at p.                              *)
RECURSIVE CharLen(_, _)
CharLen(txt, p) == IF At(txt, p + 1) = CONT THEN 1 + CharLen(txt, p + 1) ELSE 1

Boundary(txt, p) == p = Len(txt) \/ (p < Len(txt) /\ txt[p + 1] # CONT)

RECURSIVE Glue(_, _, _)
(* The string of the elements of txt from position p to position q.        *)
Glue(txt, p, q) ==
  IF p >= q THEN "" ELSE
    (IF txt[p + 1] = CONT THEN "" ELSE txt[p + 1]) \o Glue(txt, p + 1, q)

RECURSIVE GlueBut(_, _, _, _)
GlueBut(txt, p, q, c) ==
  IF p >= q THEN "" ELSE
    (IF txt[p + 1] = c THEN "" ELSE txt[p + 1]) \o GlueBut(txt, p + 1, q, c)

RECURSIVE CountIn(_, _, _, _)
CountIn(txt, p, q, S) ==
  IF p >= q THEN 0 ELSE
    (IF txt[p + 1] \in S THEN 1 ELSE 0) + CountIn(txt, p + 1, q, S)

(* Where a number that begins at p ends.  `e` starts an exponent only if a *)
(* digit, or a sign and a digit, follows: `2e` is 2 times e.               *)
NumberEnd(txt, p) ==
  LET m  == SkipIn(txt, p, NumChar)
      ex == At(txt, m) \in {"e", "E"}
      c1 == At(txt, m + 1)
  IN IF ex /\ c1 \in Digit THEN SkipIn(txt, m + 1, Digit)
     ELSE IF ex /\ c1 \in {"+", "-"} /\ At(txt, m + 2) \in Digit
     THEN SkipIn(txt, m + 2, Digit)
     ELSE SkipIn(txt, m, Digit)

(* Is the text from p to q, cut by NumberEnd, a number?                    *)
NumberValid(txt, p, q) ==
  LET m == SkipIn(txt, p, NumChar)
  IN /\ CountIn(txt, p, m, {"."}) <= 1
     /\ CountIn(txt, p, m, Digit) >= 1

NameEnd(txt, p) == SkipIn(txt, p, NameChar)
============================================================================
