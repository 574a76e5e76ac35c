------------------------------ MODULE Simplify -----------------------------
(***************************************************************************)
(* The algebraic simplifications, as the implementation makes them.        *)
(*                                                                         *)
(* `Rules` is the set of the rules that are applied; those in NightlyRules *)
(* exist only when the crate is built by a nightly toolchain, those in     *)
(* WrongRules once existed and were wrong: MC_Simplify shows that every    *)
(* rule in Stable \cup NightlyRules is sound and that each wrong one isn't.*)
(***************************************************************************)
EXTENDS Arith

CONSTANTS SameNum(_, _), PanicNum

Zero == NatNum(0)
One == NatNum(1)
IsNum(t, v) == t.k = "num" /\ SameNum(t.v, v)
Equal(a, b) == SameTree(a, b, SameNum)
IsNeg(t) == t.k = "un" /\ t.o = "-"

Stable == {"0+a", "a+0", "0-a", "a-0", "a-a", "0*a", "a*0", "1*a", "a*1",
           "0/0", "0/a", "a/1", "a/a", "a^0", "a^1", "0%0", "0%a", "a%0",
           "a%a"}
NightlyRules == {"-a+a", "a+-a", "a--b", "-a*-b", "-a/-b"}
WrongRules == {"a%1", "0^a", "a/0"}

(* The rules in the order in which they are tried.                         *)
Order == <<"0+a", "a+0", "-a+a", "a+-a", "0-a", "a-0", "a-a", "a--b", "0*a",
           "a*0", "1*a", "a*1", "-a*-b", "0/0", "a/0", "0/a", "a/1", "a/a",
           "-a/-b", "a^0", "0^a", "a^1", "0%0", "0%a", "a%0", "a%1", "a%a">>

Applies(rule, o, l, r) ==
  CASE rule = "0+a" -> o = "+" /\ IsNum(l, Zero)
    [] rule = "a+0" -> o = "+" /\ IsNum(r, Zero)
    [] rule = "-a+a" -> o = "+" /\ IsNeg(l) /\ Equal(l.t, r)
    [] rule = "a+-a" -> o = "+" /\ IsNeg(r) /\ Equal(l, r.t)
    [] rule = "0-a" -> o = "-" /\ IsNum(l, Zero)
    [] rule = "a-0" -> o = "-" /\ IsNum(r, Zero)
    [] rule = "a-a" -> o = "-" /\ Equal(l, r)
    [] rule = "a--b" -> o = "-" /\ IsNeg(r)
    [] rule = "0*a" -> o = "*" /\ IsNum(l, Zero)
    [] rule = "a*0" -> o = "*" /\ IsNum(r, Zero)
    [] rule = "1*a" -> o = "*" /\ IsNum(l, One)
    [] rule = "a*1" -> o = "*" /\ IsNum(r, One)
    [] rule = "-a*-b" -> o = "*" /\ IsNeg(l) /\ IsNeg(r)
    [] rule = "0/0" -> o = "/" /\ IsNum(l, Zero) /\ IsNum(r, Zero)
    [] rule = "a/0" -> o = "/" /\ IsNum(r, Zero)
    [] rule = "0/a" -> o = "/" /\ IsNum(l, Zero)
    [] rule = "a/1" -> o = "/" /\ IsNum(r, One)
    [] rule = "a/a" -> o = "/" /\ Equal(l, r)
    [] rule = "-a/-b" -> o = "/" /\ IsNeg(l) /\ IsNeg(r)
    [] rule = "a^0" -> o = "^" /\ IsNum(r, Zero)
    [] rule = "0^a" -> o = "^" /\ IsNum(l, Zero)
    [] rule = "a^1" -> o = "^" /\ IsNum(r, One)
    [] rule = "0%0" -> o = "%" /\ IsNum(l, Zero) /\ IsNum(r, Zero)
    [] rule = "0%a" -> o = "%" /\ IsNum(l, Zero)
    [] rule = "a%0" -> o = "%" /\ IsNum(r, Zero)
    [] rule = "a%1" -> o = "%" /\ IsNum(r, One)
    [] rule = "a%a" -> o = "%" /\ Equal(l, r)

Becomes(rule, l, r, ch) ==
  CASE rule \in {"0+a", "1*a"} -> r
    [] rule \in {"a+0", "a-0", "a*1", "a/1", "a^1"} -> l
    [] rule \in {"-a+a", "a+-a", "a-a", "0*a", "a*0", "0/a", "0^a", "0%a",
                 "a%1", "a%a"} -> Num(Zero)
    [] rule = "0-a" -> Un("-", r)
    [] rule = "a--b" -> Bin("+", l, r.t)
    [] rule = "-a*-b" -> Bin("*", l.t, r.t)
    [] rule = "-a/-b" -> Bin("/", l.t, r.t)
    [] rule \in {"0/0", "0%0", "a%0"} -> Num(NanNum)
    [] rule = "a/0" -> Num(BinNum("/", One, Zero, ch))
    [] rule \in {"a/a", "a^0"} -> Num(One)

(* One simplification of an operation whose operands are simplified.       *)
Reduce(o, l, r, rules, ch) ==
  IF l.k = "num" /\ r.k = "num" THEN Num(BinNum(o, l.v, r.v, ch))
  ELSE LET on == {i \in DOMAIN Order :
                    Order[i] \in rules /\ Applies(Order[i], o, l, r)}
       IN IF on = {} THEN Bin(o, l, r)
          ELSE Becomes(Order[CHOOSE i \in on : \A j \in on : i <= j], l, r, ch)

RECURSIVE Simple(_, _, _)
Simple(t, rules, ch) ==
  CASE t.k \in {"num", "var"} -> t
    [] t.k = "un" ->
         LET x == Simple(t.t, rules, ch)
         IN IF t.o = "+" THEN x
            ELSE IF x.k # "num" THEN Un(t.o, x)
            ELSE Num(IF t.o = "-" THEN NegNum(x.v) ELSE FactNum(x.v))
    [] t.k = "bin" ->
         Reduce(t.o, Simple(t.l, rules, ch), Simple(t.r, rules, ch), rules, ch)
    [] t.k = "call" ->
         LET xs == [i \in DOMAIN t.args |-> Simple(t.args[i], rules, ch)]
             c == Call(t.f, xs)
         IN IF \A i \in DOMAIN xs : xs[i].k = "num"
            THEN LET e == Eval(c, <<>>, ch)
                 IN IF Failed(e.v) THEN Num(PanicNum) ELSE Num(e.v)
            ELSE c

RulesOf(ch) == IF ch = "n" THEN Stable \cup NightlyRules ELSE Stable

(* Simplifying for the pairs <<name, value>> of bs, one after the other.   *)
RECURSIVE SimplifyFor(_, _, _, _, _)
SimplifyFor(t, bs, i, rules, ch) ==
  IF i > Len(bs) THEN t
  ELSE SimplifyFor(Simple(Subst(t, bs[i][1], bs[i][2]), rules, ch),
                   bs, i + 1, rules, ch)
============================================================================
