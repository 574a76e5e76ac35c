-------------------------------- MODULE Arith ------------------------------
(***************************************************************************)
(* What expressions evaluate to.                                           *)
(*                                                                         *)
(* The numbers are a parameter: traces are judged with IEEE-754 binary64   *)
(* (F64), the models use a small domain that TLC can enumerate (Lite).     *)
(* `ch` is passed on to the functions of the standard library, which may   *)
(* differ between toolchains.                                              *)
(*                                                                         *)
(* Evaluating gives [v |-> value, r |-> regular, f |-> finite, c |-> calls]*)
(* the value, or MISS (a variable is missing) or BOOM (a user's function   *)
(* panicked); whether the evaluation was regular, that is, never gave NaN  *)
(* and didn't depend on the sign of a computed zero; whether it was finite *)
(* throughout; and the calls of users' functions.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Tree, Library

CONSTANTS
  BinNum(_, _, _, _),  \* BinNum(op, a, b, ch), op in + - * / % ^
  NegNum(_),
  FactNum(_),
  LibNum(_, _, _),     \* LibNum(name, args, ch)
  NatNum(_),           \* the number n
  FiniteNum(_),
  ZeroNum(_),
  NanNum,
  MISS, BOOM           \* not numbers
Failed(v) == v \in {MISS, BOOM}
Res(v, r, f, c) == [v |-> v, r |-> r, f |-> f, c |-> c]

(* The functions that users define: they tell the number and the order of  *)
(* their arguments, count them, halve the first one, or panic.             *)
UserFunctions == {"h", "c", "d", "b", "z"}
User(s, args, ch) ==
  CASE s = "h" ->
         LET RECURSIVE H(_)
             H(i) == IF i = 0 THEN NatNum(Len(args))
                     ELSE BinNum("+", BinNum("*", H(i - 1), NatNum(8), ch),
                                 args[i], ch)
         IN H(Len(args))
    [] s = "c" -> NatNum(Len(args))
    [] s = "d" -> IF args = <<>> THEN NatNum(0)
                  ELSE BinNum("/", args[1], NatNum(2), ch)
    [] s = "b" -> BOOM
    [] s = "z" -> IF args # <<>> /\ ZeroNum(args[1]) THEN BOOM
                  ELSE IF args = <<>> THEN NatNum(0) ELSE args[1]

(* Functions for which 0 and -0 are different.                             *)
ZeroSensitive(f, args) ==
  f.s \in {"atan2", "recip", "gamma"} /\ ZeroNum(args[1])
(* ... and operations: t is the tree, x and y are the operands' values.    *)
SignMatters(t, x, y, v) ==
  \/ t.o = "/" /\ ZeroNum(y) /\ t.r.k # "num"
  \/ t.o = "^" /\ ZeroNum(x) /\ ~FiniteNum(v)

RECURSIVE Eval(_, _, _)
Eval(t, env, ch) ==
  LET reg(v) == ~Failed(v) /\ v # NanNum
      fin(v) == ~Failed(v) /\ FiniteNum(v)
      leaf(v) == Res(v, reg(v), fin(v), <<>>)
  IN CASE t.k = "num" -> leaf(t.v)
       [] t.k = "var" -> IF t.n \in DOMAIN env THEN leaf(env[t.n]) ELSE leaf(MISS)
       [] t.k = "un" ->
            LET x == Eval(t.t, env, ch)
                v == CASE Failed(x.v) -> x.v
                       [] ~Failed(x.v) /\ t.o = "+" -> x.v
                       [] ~Failed(x.v) /\ t.o = "-" -> NegNum(x.v)
                       [] ~Failed(x.v) /\ t.o = "!" -> FactNum(x.v)
            IN Res(v, x.r /\ reg(v), x.f /\ fin(v), x.c)
       [] t.k = "bin" ->
            LET x == Eval(t.l, env, ch)
                y == Eval(t.r, env, ch)
                bad == Failed(x.v) \/ Failed(y.v)
                v == IF Failed(x.v) THEN x.v ELSE IF Failed(y.v) THEN y.v
                     ELSE BinNum(t.o, x.v, y.v, ch)
            IN Res(v, x.r /\ y.r /\ reg(v) /\ ~bad /\ ~SignMatters(t, x.v, y.v, v),
                   x.f /\ y.f /\ fin(v), x.c \o y.c)
       [] t.k = "call" ->
            LET xs == [i \in DOMAIN t.args |-> Eval(t.args[i], env, ch)]
                bad == {i \in DOMAIN xs : Failed(xs[i].v)}
                vs == [i \in DOMAIN xs |-> xs[i].v]
                rs == \A i \in DOMAIN xs : xs[i].r
                fs == \A i \in DOMAIN xs : xs[i].f
                RECURSIVE C(_)
                C(i) == IF i = 0 THEN <<>> ELSE C(i - 1) \o xs[i].c
                cs == C(Len(xs))
            IN IF bad # {}
               THEN Res(xs[CHOOSE i \in bad : \A j \in bad : i <= j].v, FALSE, FALSE, cs)
               ELSE CASE t.f.s = "hof" ->
                           \* a bound expression
                           LET n == t.f.names
                               e == [a \in {n[i] : i \in DOMAIN n} |->
                                       vs[CHOOSE i \in DOMAIN n :
                                            n[i] = a /\ \A j \in DOMAIN n :
                                              n[j] = a => j <= i]]
                               x == Eval(t.f.t, e, ch)
                           IN Res(x.v, rs /\ x.r, fs /\ x.f, cs \o x.c)
                      [] t.f.s \in UserFunctions ->
                           LET v == User(t.f.s, vs, ch)
                           IN Res(v, rs /\ reg(v), fs /\ fin(v),
                                  Append(cs, <<t.f.s, vs,
                                     IF Failed(v) THEN NatNum(0) ELSE v>>))
                      [] t.f.s \notin UserFunctions \cup {"hof"} ->
                           LET v == IF t.f.s = "factorial" THEN FactNum(vs[1])
                                    ELSE LibNum(t.f.s, vs, ch)
                           IN Res(v, rs /\ reg(v) /\ ~ZeroSensitive(t.f, vs),
                                  fs /\ fin(v), cs)

(* Does evaluating, or simplifying, maybe call a function that panics?     *)
RECURSIVE MayBoom(_)
MayBoom(t) ==
  \E f \in Calls(t) : f.s \in {"b", "z"} \/ (f.s = "hof" /\ MayBoom(f.t))
============================================================================
