------------------------------- MODULE MC_Eval -----------------------------
(***************************************************************************)
(* Evaluating, one operation at a time and in any order.                   *)
(*                                                                         *)
(* A tree is evaluated by replacing a variable by its value, or an         *)
(* operation all of whose operands are numbers by its result, in any       *)
(* order.  All ways end, in the number that Eval gives (C08), with the     *)
(* calls that Eval tells, each once (C05), unless a variable has no value; *)
(* then, and only then, none ends in a number (C09).                       *)
(* Lazy: also a product with a number 0 is 0, before the other operand is  *)
(* known.  That isn't how expressions evaluate.                            *)
(***************************************************************************)
EXTENDS Simplify, Lite, TLC

CONSTANTS Kit, Lazy

VARIABLES orig, env, tree, done
vars == <<orig, env, tree, done>>

Q(p, q) == Num(<<p, q>>)
Leaf == {Var("x"), Var("y"), Q(0, 1), Q(2, 1), Q(-1, 2)}
Few == {Var("x"), Q(0, 1), Q(3, 1)}
Ops == {"+", "-", "*", "/", "%", "^"}
H(n) == Fn("h", n, "h")
One1 == Leaf \cup {Un(o, t) : o \in {"-", "!"}, t \in Leaf}
         \cup {Bin(o, l, r) : o \in Ops, l \in Leaf, r \in Leaf}
         \cup {Call(H(2), <<l, r>>) : l \in Leaf, r \in Leaf}
         \cup {Call(Fn("c", -1, "c"), <<l>>) : l \in Leaf} \cup {Call(H(0), <<>>)}
         \cup {Call(BuiltIn["abs"], <<l>>) : l \in Leaf}
Two == {Bin(o, l, r) : o \in Ops, l \in One1, r \in Few}
        \cup {Call(H(3), <<l, r, r>>) : l \in Few, r \in One1}
(* (With a parameter, so that TLC computes it only where it is used.)      *)
Three(n) == {Bin(o, l, r) : o \in {"+", "-", "*", "/"}, l \in One1, r \in One1}
Small == {Bin(o, l, r) : o \in {"*", "-"}, l \in {t \in One1 : t.k # "un"}, r \in {Var("x"), Num(<<0, 1>>)}}
Trees == One1 \cup (CASE Kit = "small" -> Small [] Kit = "mid" -> Two [] Kit = "deep" -> Two \cup Three(0))
Values == {<<0, 1>>, <<-2, 1>>, <<1, 3>>}
Envs == {<<>>} \cup [{"x"} -> Values] \cup [{"y"} -> Values] \cup [{"x", "y"} -> Values]

Known(t) == t.k = "num"

RECURSIVE Steps(_)
(* The pairs <<tree, calls>> that one operation makes of a tree.           *)
Steps(t) ==
  CASE t.k = "num" -> {}
    [] t.k = "var" -> IF t.n \in DOMAIN env THEN {<<Num(env[t.n]), <<>>>>} ELSE {}
    [] t.k = "un" ->
         IF Known(t.t)
         THEN {<<Num(CASE t.o = "+" -> t.t.v [] t.o = "-" -> LNeg(t.t.v)
                       [] t.o = "!" -> LFact(t.t.v)), <<>>>>}
         ELSE {<<Un(t.o, s[1]), s[2]>> : s \in Steps(t.t)}
    [] t.k = "bin" ->
         (IF Known(t.l) /\ Known(t.r)
          THEN {<<Num(LBin(t.o, t.l.v, t.r.v, "s")), <<>>>>}
          ELSE {<<Bin(t.o, s[1], t.r), s[2]>> : s \in Steps(t.l)}
               \cup {<<Bin(t.o, t.l, s[1]), s[2]>> : s \in Steps(t.r)})
         \cup (IF Lazy /\ t.o = "*" /\ Num(<<0, 1>>) \in {t.l, t.r}
               THEN {<<Num(<<0, 1>>), <<>>>>} ELSE {})
    [] t.k = "call" ->
         IF \A i \in DOMAIN t.args : Known(t.args[i])
         THEN LET vs == [i \in DOMAIN t.args |-> t.args[i].v]
                  v == IF t.f.s \in UserFunctions THEN User(t.f.s, vs, "s")
                       ELSE LLib(t.f.s, vs, "s")
              IN {<<Num(v), IF t.f.s \in UserFunctions THEN <<<<t.f.s, vs, v>>>> ELSE <<>>>>}
         ELSE UNION {{<<Call(t.f, [t.args EXCEPT ![i] = s[1]]), s[2]>> : s \in Steps(t.args[i])}
                     : i \in DOMAIN t.args}

Init == /\ orig = None /\ env = <<>> /\ tree = None /\ done = <<>>
Choose == /\ orig = None
          /\ orig' \in Trees /\ tree' = orig' /\ env' \in Envs
          /\ done' = done
Work == /\ orig # None
          /\ \E s \in Steps(tree) : tree' = s[1] /\ done' = done \o s[2]
          /\ UNCHANGED <<orig, env>>
Next == Choose \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* How often c is among the calls.                                         *)
Often(c, cs) == Cardinality({i \in DOMAIN cs : cs[i] = c})
SameCalls(a, b) == /\ Len(a) = Len(b)
                   /\ \A i \in DOMAIN a : Often(a[i], a) = Often(a[i], b)

Given == Vars(orig) \subseteq DOMAIN env
Value == orig # None =>
           LET x == Eval(orig, env, "s")
           IN /\ Known(tree) => Given /\ x.v = tree.v /\ SameCalls(done, x.c)
              /\ Given => Eval(tree, env, "s").v = x.v
              /\ x.v = MISS <=> ~Given
Stuck == orig # None /\ Steps(tree) = {} => (Known(tree) <=> Given)
(* Each operation makes the tree smaller or replaces a variable.           *)
Ended == <>(orig # None /\ ~ENABLED Work)
============================================================================
