------------------------------- MODULE MC_Bind -----------------------------
(***************************************************************************)
(* Bound expressions, and bound expressions as functions.                  *)
(*                                                                         *)
(* Binding an expression to names needs all its variables among them, and  *)
(* gives a function of as many numbers; used as a function f in another    *)
(* expression, f(a, ...) means the body with the arguments in the place of *)
(* the names, all at once: whatever the variables in the arguments are     *)
(* called (C19), and calling it with numbers is evaluating with the names  *)
(* standing for these numbers, by position (C12).                          *)
(* How = "sequence": the arguments are put in place one after the other,   *)
(* so that a name in an argument may be taken for a parameter.             *)
(* How = "dynamic": the body sees the variables of the caller first.       *)
(***************************************************************************)
EXTENDS System, Lite

CONSTANTS How

VARIABLES body, names, args, vals
vars == <<body, names, args, vals>>

MyLit(t) == <<2, 1>>
MyConst(n) == LConst(n)

X == Var("x") Y == Var("y") Z == Var("z")
Two == Num(<<2, 1>>)
Leaf == {X, Y, Two}
Bodies == Leaf \cup {Bin(o, l, r) : o \in {"+", "-", "/"}, l \in Leaf, r \in Leaf}
           \cup {Bin("-", Bin("*", l, r), X) : l \in Leaf, r \in Leaf}
           \cup {Call(Fn("h", 2, "h"), <<l, r>>) : l \in Leaf, r \in Leaf}
NameLists == {<<"x">>, <<"y">>, <<"x", "y">>, <<"y", "x">>, <<"x", "z">>, <<"y", "z", "x">>, <<"z">>, <<>>}
ArgTrees == {X, Y, Z, Two, Bin("-", Y, X), Un("-", X)}
Values == {<<0, 1>>, <<3, 1>>, <<-1, 2>>}
Env == [x |-> <<5, 1>>, y |-> <<-7, 2>>, z |-> <<1, 3>>]

Range(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Tuples(_, _)
Tuples(S, n) == IF n = 0 THEN {<<>>} ELSE {Append(t, e) : t \in Tuples(S, n - 1), e \in S}

(* Does the binding succeed, and what is missing?                          *)
Missing(t, ns) == Vars(t) \ Range(ns)
BindOk(t, ns) == Missing(t, ns) = {}

Index(ns, n) == CHOOSE i \in DOMAIN ns : ns[i] = n
RECURSIVE Put1(_, _, _), AtOnce(_, _, _)
Put1(t, n, u) ==
  CASE t.k = "num" -> t
    [] t.k = "var" -> IF t.n = n THEN u ELSE t
    [] t.k = "un" -> Un(t.o, Put1(t.t, n, u))
    [] t.k = "bin" -> Bin(t.o, Put1(t.l, n, u), Put1(t.r, n, u))
    [] t.k = "call" -> Call(t.f, [i \in DOMAIN t.args |-> Put1(t.args[i], n, u)])
(* ns[i] replaced by us[i], for all i at once.                             *)
AtOnce(t, ns, us) ==
  CASE t.k = "num" -> t
    [] t.k = "var" -> IF t.n \in Range(ns) THEN us[Index(ns, t.n)] ELSE t
    [] t.k = "un" -> Un(t.o, AtOnce(t.t, ns, us))
    [] t.k = "bin" -> Bin(t.o, AtOnce(t.l, ns, us), AtOnce(t.r, ns, us))
    [] t.k = "call" -> Call(t.f, [i \in DOMAIN t.args |-> AtOnce(t.args[i], ns, us)])
RECURSIVE InSequence(_, _, _, _)
InSequence(t, ns, us, i) ==
  IF i > Len(ns) THEN t ELSE InSequence(Put1(t, ns[i], us[i]), ns, us, i + 1)

World == Keep(EmptyWorld, "e", body, TRUE, "no")
F == AsFunction(World, "e", "f", names, Len(names))

(* What a call of the function gives.                                      *)
Called ==
  LET x == Eval(Call(F, args), Env, "s").v
  IN CASE How = "spec" -> x
       [] How = "sequence" -> Eval(InSequence(body, names, args, 1), Env, "s").v
       [] How = "dynamic" -> Eval(body, Env, "s").v

Init == body = None /\ names = <<>> /\ args = <<>> /\ vals = <<>>
Bind1 == /\ body = None
         /\ body' \in Bodies /\ names' \in NameLists
         /\ UNCHANGED <<args, vals>>
Call1 == /\ body # None /\ args = <<>> /\ BindOk(body, names)
         /\ args' \in Tuples(ArgTrees, Len(names))
         /\ vals' \in Tuples(Values, Len(names))
         /\ UNCHANGED <<body, names>>
Next == Bind1 \/ Call1
Spec == Init /\ [][Next]_vars

Chosen == body # None /\ BindOk(body, names) /\ Len(args) = Len(names)
Substituted == Chosen => Called = Eval(AtOnce(body, names, args), Env, "s").v
(* By position: a call with numbers, the context's variables aside.        *)
Positions ==
  (Chosen /\ Len(vals) = Len(names)) =>
    LET nums == [i \in DOMAIN vals |-> Num(vals[i])]
        env == [n \in Range(names) |-> vals[Index(names, n)]]
    IN Eval(Call(F, nums), <<>>, "s").v = Eval(body, env, "s").v
(* With all names bound, nothing is ever missing; else something may be.   *)
Enough ==
  body # None =>
    /\ BindOk(body, names) =>
         Eval(body, [n \in Range(names) |-> <<1, 1>>], "s").v # MISS
    /\ ~BindOk(body, names) =>
         Eval(body, [n \in Range(names) |-> <<1, 1>>], "s").v = MISS
============================================================================
