-------------------------------- MODULE MC_Eq ------------------------------
(***************************************************************************)
(* When expressions compare equal.                                         *)
(*                                                                         *)
(* Two trees are equal when swapping the operands of some + and * makes    *)
(* the second one of the first: a transition swaps one pair of operands.   *)
(* Checked of SameTree (C17): it holds along these transitions, and only   *)
(* for trees that can be reached so; it is reflexive and symmetric; and    *)
(* what is equal evaluates to the same number.                             *)
(* Swappable gives the operators whose operands may be swapped: with more  *)
(* of them than + and * the model is wrong.                                *)
(***************************************************************************)
EXTENDS Simplify, Lite, TLC

CONSTANTS Swappable, Kit

VARIABLES a, b
vars == <<a, b>>

PlusTimes == {"+", "*"}
WithMinus == {"+", "*", "-"}
JustPlus == {"+"}

Leaf == {Var("x"), Var("y"), Num(<<2, 1>>)}
Ops == {"+", "-", "*", "^"}
One1 == Leaf \cup {Un("-", t) : t \in Leaf} \cup {Bin(o, l, r) : o \in Ops, l \in Leaf, r \in Leaf}
H(n) == Fn("h", n, "h")
Trees == One1 \cup {Bin(o, l, r) : o \in {"+", "*", "-"}, l \in One1, r \in Leaf}
          \cup {Bin(o, r, l) : o \in {"+", "*", "-"}, l \in One1, r \in Leaf}
          \cup {Call(H(2), <<l, r>>) : l \in One1, r \in Leaf}
          \cup (IF Kit = "deep"
                THEN {Bin(o, l, r) : o \in {"+", "-"}, l \in One1, r \in {Bin(p, m, n) : p \in {"+", "-"}, m \in Leaf, n \in Leaf}}
                ELSE {})

RECURSIVE Swaps(_)
(* The trees that one swap makes.                                          *)
Swaps(t) ==
  CASE t.k \in {"num", "var"} -> {}
    [] t.k = "un" -> {Un(t.o, u) : u \in Swaps(t.t)}
    [] t.k = "bin" -> {Bin(t.o, u, t.r) : u \in Swaps(t.l)}
                      \cup {Bin(t.o, t.l, u) : u \in Swaps(t.r)}
                      \cup (IF t.o \in Swappable THEN {Bin(t.o, t.r, t.l)} ELSE {})
    [] t.k = "call" -> UNION {{Call(t.f, [t.args EXCEPT ![i] = u]) : u \in Swaps(t.args[i])}
                              : i \in DOMAIN t.args}
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {Swaps(t) : t \in S} IN IF T = S THEN S ELSE Closure(T)

Init == a \in Trees /\ b = a
Swap == b' \in Swaps(b) /\ a' = a
(* Any other tree: does SameTree tell them apart?                          *)
Other == b = a /\ b' \in One1 /\ a' = a
Next == Swap \/ Other
Spec == Init /\ [][Next]_vars

Same(t, u) == SameTree(t, u, LAMBDA p, q : p = q)
Exactly == Same(a, b) <=> b \in Closure({a})
Symmetric == Same(a, b) = Same(b, a) /\ Same(b, b)
Envs == {[x |-> <<3, 1>>, y |-> <<-2, 1>>], [x |-> <<1, 2>>, y |-> <<5, 1>>], [x |-> <<-1, 1>>, y |-> <<0, 1>>]}
SameValue ==
  Same(a, b) => \A e \in Envs :
    LET p == Eval(a, e, "s")
        q == Eval(b, e, "s")
    IN p.f /\ q.f => p.v = q.v
============================================================================
