------------------------------- MODULE Library -----------------------------
(***************************************************************************)
(* The names that every context knows: constants and functions.            *)
(*                                                                         *)
(* A function is a record: its name n (also how it is displayed), its      *)
(* arity a (-1 if it takes any number of arguments), and what it computes, *)
(* s: the name of a built-in, or one of the functions that users define in *)
(* contexts (see Arith!User).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Fn(n, a, s) == [n |-> n, a |-> a, s |-> s]

Unary == {"sin", "sinh", "asin", "asinh", "cos", "cosh", "acos", "acosh",
          "tan", "tanh", "atan", "atanh", "ln", "log", "sqrt", "cbrt", "exp",
          "abs", "floor", "ceil", "round", "trunc", "recip", "fract", "gamma",
          "factorial"}
Binary == {"atan2", "logn", "hypot"}
Variadic == {"sum", "mean", "min", "max"}

BuiltInNames == Unary \cup Binary \cup Variadic \cup {"invert"}
BuiltIn ==
  [n \in BuiltInNames |->
     IF n = "invert" THEN Fn("recip", 1, "recip")
     ELSE Fn(n, IF n \in Unary THEN 1 ELSE IF n \in Binary THEN 2 ELSE -1, n)]
ConstantNames == {"pi", "e"}
============================================================================
