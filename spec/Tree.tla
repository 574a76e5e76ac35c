-------------------------------- MODULE Tree -------------------------------
(***************************************************************************)
(* Expression trees.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Num(v) == [k |-> "num", v |-> v]
Var(n) == [k |-> "var", n |-> n]
Un(o, t) == [k |-> "un", o |-> o, t |-> t]
Bin(o, l, r) == [k |-> "bin", o |-> o, l |-> l, r |-> r]
Call(f, args) == [k |-> "call", f |-> f, args |-> args]
None == [k |-> "none"]

RECURSIVE Vars(_)
(* The names of the variables of a tree.                                   *)
Vars(t) ==
  CASE t.k = "num" -> {}
    [] t.k = "var" -> {t.n}
    [] t.k = "un" -> Vars(t.t)
    [] t.k = "bin" -> Vars(t.l) \cup Vars(t.r)
    [] t.k = "call" -> UNION {Vars(t.args[i]) : i \in DOMAIN t.args}

RECURSIVE Subst(_, _, _)
(* The tree with the number v instead of the variable n.                   *)
Subst(t, n, v) ==
  CASE t.k = "num" -> t
    [] t.k = "var" -> IF t.n = n THEN Num(v) ELSE t
    [] t.k = "un" -> Un(t.o, Subst(t.t, n, v))
    [] t.k = "bin" -> Bin(t.o, Subst(t.l, n, v), Subst(t.r, n, v))
    [] t.k = "call" ->
         Call(t.f, [i \in DOMAIN t.args |-> Subst(t.args[i], n, v)])

RECURSIVE SubstAll(_, _, _)
(* Substitutes the pairs <<name, value>> of bs, from the i-th one on.      *)
SubstAll(t, bs, i) ==
  IF i > Len(bs) THEN t ELSE SubstAll(Subst(t, bs[i][1], bs[i][2]), bs, i + 1)

RECURSIVE Size(_)
Size(t) ==
  CASE t.k \in {"num", "var"} -> 1
    [] t.k = "un" -> 1 + Size(t.t)
    [] t.k = "bin" -> 1 + Size(t.l) + Size(t.r)
    [] t.k = "call" ->
         LET RECURSIVE S(_)
             S(i) == IF i > Len(t.args) THEN 0 ELSE Size(t.args[i]) + S(i + 1)
         IN 1 + S(1)

RECURSIVE Calls(_)
(* The set of the functions that a tree calls.                             *)
Calls(t) ==
  CASE t.k \in {"num", "var"} -> {}
    [] t.k = "un" -> Calls(t.t)
    [] t.k = "bin" -> Calls(t.l) \cup Calls(t.r)
    [] t.k = "call" -> {t.f} \cup UNION {Calls(t.args[i]) : i \in DOMAIN t.args}

Commutative == {"+", "*"}

(* When two expressions compare equal: the same structure, up to the order *)
(* of the operands of + and *.  eq compares the numbers.                   *)
SameTree(t, u, eq(_, _)) ==
  LET RECURSIVE Same(_, _)
      Same(a, b) ==
        /\ a.k = b.k
        /\ CASE a.k = "num" -> eq(a.v, b.v)
             [] a.k = "var" -> a.n = b.n
             [] a.k = "un" -> a.o = b.o /\ Same(a.t, b.t)
             [] a.k = "bin" ->
                  /\ a.o = b.o
                  /\ \/ Same(a.l, b.l) /\ Same(a.r, b.r)
                     \/ /\ a.o \in Commutative
                        /\ Same(a.l, b.r) /\ Same(a.r, b.l)
             [] a.k = "call" ->
                  /\ a.f = b.f
                  /\ Len(a.args) = Len(b.args)
                  /\ \A i \in DOMAIN a.args : Same(a.args[i], b.args[i])
  IN Same(t, u)

(* The displayed form: every operation in parentheses, a negative number   *)
(* that is the operand of a ^ or a ! too.  num(v) is the text of a number  *)
(* and neg(v) tells whether it has a minus sign.                           *)
Show(tree, num(_), neg(_)) ==
  LET RECURSIVE S(_), A(_, _)
      P(t) == IF t.k = "num" /\ neg(t.v) THEN "(" \o num(t.v) \o ")" ELSE S(t)
      A(args, i) == IF i > Len(args) THEN ""
                    ELSE (IF i > 1 THEN ", " ELSE "") \o S(args[i])
                         \o A(args, i + 1)
      S(t) ==
        CASE t.k = "num" -> num(t.v)
          [] t.k = "var" -> t.n
          [] t.k = "un" /\ t.o = "!" -> "(" \o P(t.t) \o "!)"
          [] t.k = "un" /\ t.o # "!" -> "(" \o t.o \o S(t.t) \o ")"
          [] t.k = "bin" ->
               "(" \o (IF t.o = "^" THEN P(t.l) ELSE S(t.l)) \o " " \o t.o
                   \o " " \o S(t.r) \o ")"
          [] t.k = "call" -> t.f.n \o "(" \o A(t.args, 1) \o ")"
  IN S(tree)
============================================================================
