---------------------------- MODULE MC_Simplify ----------------------------
(***************************************************************************)
(* Simplifying, with numbers given to variables one after the other.       *)
(*                                                                         *)
(* Initially there is any small tree; a transition simplifies it, or gives *)
(* a variable a number and simplifies.  In all states, the tree evaluates  *)
(* as the original one does with the numbers given, whenever that is       *)
(* finite throughout (C10, C11), and needs no variable that isn't free in  *)
(* the original one (C09).  Rules with wrong ones among them (Simplify!    *)
(* WrongRules) violate this.  With GEN, the trees are printed: they become *)
(* tests of the implementation.                                            *)
(***************************************************************************)
EXTENDS Simplify, Lite, TLC

CONSTANTS Rules, Kit, Names, GEN

VARIABLES orig, tree, given
vars == <<orig, tree, given>>

AllStable == Stable
AllNightly == Stable \cup NightlyRules
Bad1 == Stable \cup {"a%1"}
Bad2 == Stable \cup {"0^a"}
Bad3 == Stable \cup {"a/0"}

Q(p, q) == Num(<<p, q>>)
Leaves == {Var(n) : n \in Names} \cup
          (IF Kit = "rules" THEN {Q(0, 1), Q(1, 1), Q(2, 1), Q(-1, 1)}
           ELSE {Q(0, 1), Q(1, 1), Q(-1, 2)})
Uns(S) == {Un(o, t) : o \in {"+", "-", "!"}, t \in S}
Negs(S) == {Un("-", t) : t \in S}
Bins(S, T) == {Bin(o, l, r) : o \in {"+", "-", "*", "/", "%", "^"}, l \in S, r \in T}
CallsOf(S) ==
  {Call(BuiltIn["abs"], <<a>>) : a \in S} \cup {Call(BuiltIn["hypot"], <<a, b>>) : a \in S, b \in S}
   \cup {Call(Fn("d", -1, "d"), <<>>)} \cup {Call(Fn("c", -1, "c"), <<a>>) : a \in S}
One1 == Leaves \cup Negs(Leaves) \cup Bins(Leaves, Leaves)
Small == Leaves \cup Negs(Leaves)
(* The trees whose first operand is t.                                     *)
Above(t) ==
  {t} \cup Uns({t}) \cup
  (CASE Kit = "rules" ->
          Bins({t}, IF t \in Small THEN One1 ELSE Small)
          \cup (IF t \in Leaves THEN CallsOf({t}) ELSE {})
     [] Kit = "deep" -> Bins({t}, One1)
          \cup {Call(BuiltIn["hypot"], <<t, u>>) : u \in Leaves})
Values == {<<0, 1>>, <<1, 1>>, <<-2, 1>>, <<1, 2>>}

Free == Names \ DOMAIN given

Init == /\ orig = None
        /\ tree \in One1
        /\ given = <<>>
Choose == /\ orig = None
          /\ orig' \in Above(tree)
          /\ tree' = orig'
          /\ UNCHANGED given
Give(n, v) ==
  /\ orig # None
  /\ n \in Free
  /\ tree' = Simple(Subst(tree, n, v), Rules, "n")
  /\ given' = [m \in DOMAIN given \cup {n} |-> IF m = n THEN v ELSE given[m]]
Tidy == /\ orig # None
        /\ tree' = Simple(tree, Rules, "n")
        /\ UNCHANGED given
Next == \/ Choose
        \/ /\ ~GEN
           /\ UNCHANGED orig
           /\ Tidy \/ \E n \in Names, v \in Values : Give(n, v)
Spec == Init /\ [][Next]_vars

Sound ==
  orig # None =>
  \A e \in [Free -> Values] :
    LET all == [n \in Names |-> IF n \in Free THEN e[n] ELSE given[n]]
        x == Eval(orig, all, "n")
    IN x.r => Eval(tree, e, "n").v = x.v
Needs == orig # None => Vars(tree) \subseteq Vars(orig) \cap Free
(* Simplifying what is simplified changes nothing that can be observed     *)
(* but perhaps the form; without variables nothing but a number is left.   *)
Folded == (orig # None /\ given # <<>> /\ Vars(tree) = {} /\ Vars(orig) \subseteq DOMAIN given)
            => tree.k = "num"
GenText(v) == IF v[1] < 0 THEN "(" \o ToString(v[1]) \o ")" ELSE ToString(v[1])
GenNeg(v) == FALSE
Generated == (GEN /\ orig # None) => PrintT("TEST " \o Show(orig, GenText, GenNeg))
============================================================================
