----------------------------- MODULE MC_Library ----------------------------
(***************************************************************************)
(* What the built-in functions are named for.                              *)
(*                                                                         *)
(* Traces are judged with the functions of the standard library, which a   *)
(* process answers for.  Here these answers are held against what defines  *)
(* the functions: exactly where arithmetic is exact (rounding to integers, *)
(* orders, sums, factorials), otherwise up to a small relative error, with *)
(* equations and bounds that no other function of the library satisfies.   *)
(* NaturalLog, FromFloor, Swapped: `log` is the natural logarithm, `fract` *)
(* counts from the floor, the operands of `atan2` are swapped.             *)
(***************************************************************************)
EXTENDS Ieee, Library, FiniteSets

CONSTANTS Lib(_, _, _), Dense

VARIABLES fun, args, ch
vars == <<fun, args, ch>>

D(t) == F64Dec(t)
N(t) == F64Neg(D(t))
Zero == D("0")  One == D("1")  Two == D("2")  Half == D("0.5")
Pi == "400921fb54442d18"
E == "4005bf0a8b145769"
Add(a, b) == F64Bin("+", a, b)
Sub(a, b) == F64Bin("-", a, b)
Mul(a, b) == F64Bin("*", a, b)
Div(a, b) == F64Bin("/", a, b)
Le(a, b) == a # NaN64 /\ b # NaN64 /\ ~F64Less(b, a)
Between(a, x, b) == Le(a, x) /\ Le(x, b)
Mag(a) == IF F64Less(a, Zero) THEN F64Neg(a) ELSE a
(* Equal, or nearly so relative to the larger one (or to 1e-9).            *)
Close(a, b) ==
  \/ a = b
  \/ F64Same(a, b)
  \/ /\ F64Finite(a) /\ F64Finite(b)
     /\ LET m == IF F64Less(Mag(a), Mag(b)) THEN Mag(b) ELSE Mag(a)
        IN Le(Mag(Sub(a, b)), Add(Mul(m, D("1e-11")), D("1e-20")))
L(f, as) == Lib(f, as, ch)
Pow(a, b) == L("pow", <<a, b>>)

Some == {"0", "1", "2", "3", "7", "10", "0.5", "1.5", "2.5", "3.5", "0.25", "0.1", "0.3", "0.7", "0.99",
         "1e-3", "1e-8", "100", "12.75", "1000", "123.456", "20", "4.5"}
More == {"1e-12", "1e-300", "1e300", "4503599627370495.5", "9007199254740993", "0.49999999999999994", "170", "171", "1e6", "2.7", "0.6", "5.5",
         "6.5", "1.0000000000000002", "0.9999999999999999", "18", "5", "6", "4", "8", "9", "11", "12", "13", "33", "64"}
Texts == IF Dense THEN Some \cup More ELSE Some
Points == {D(t) : t \in Texts} \cup {N(t) : t \in Texts} \cup {Inf64, NegInf64}
Pairs == {D(t) : t \in {"0", "1", "2", "3", "0.5", "10", "7.25"}}
           \cup {N(t) : t \in {"0", "1", "2", "0.5", "3"}}
           \cup (IF Dense THEN {D("1e-5"), D("100"), D("0.1"), N("8"), Inf64, NegInf64, NaN64} ELSE {})
Lists == UNION {[1..n -> {N("1"), Zero, D("0.1"), D("2.5")}] : n \in 0..(IF Dense THEN 5 ELSE 4)}

Fits(f) == CASE f \in Unary -> {<<x>> : x \in Points}
             [] f \in Binary -> Pairs \X Pairs
             [] f \in Variadic -> Lists

Init == fun = "pi" /\ args = <<>> /\ ch \in {"s", "n"}
Next == /\ fun = "pi"
        /\ fun' \in Unary \cup Binary \cup Variadic
        /\ args' \in Fits(fun') /\ UNCHANGED ch
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(as, n) == IF n = 0 THEN Zero ELSE Add(Sum(as, n - 1), as[n])
RECURSIVE Product(_)
Product(n) == IF n = 0 THEN One ELSE Mul(Product(n - 1), NatF(n))
Integral(r) == F64Finite(r) => F64IsInt(r)

(* r is the value at x.                                                    *)
Of1(f, x, r) ==
  CASE f = "abs" -> r = IF F64Negative(x) THEN F64Neg(x) ELSE x
    [] f = "recip" -> r = Div(One, x)
    [] f = "floor" -> IF F64Finite(x) THEN Integral(r) /\ Le(r, x) /\ (F64Less(x, Add(r, One)) \/ r = x) ELSE r = x
    [] f = "ceil" -> IF F64Finite(x) THEN Integral(r) /\ Le(x, r) /\ (F64Less(Sub(r, One), x) \/ r = x) ELSE r = x
    [] f = "trunc" -> IF F64Finite(x) THEN Integral(r) /\ Le(Mag(r), Mag(x)) /\ (F64Less(Mag(x), Add(Mag(r), One)) \/ r = x)
                                           /\ (F64IsZero(r) \/ F64Negative(r) = F64Negative(x))
                      ELSE r = x
    [] f = "fract" -> IF F64Finite(x) THEN F64Same(r, Sub(x, L("trunc", <<x>>))) ELSE r = NaN64
    [] f = "round" -> IF F64Finite(x)
                      THEN /\ Integral(r) /\ Le(Mag(Sub(r, x)), Half)
                           /\ Mag(Sub(r, x)) = Half => F64Less(Mag(x), Mag(r))
                      ELSE r = x
    [] f = "sqrt" -> IF F64Less(x, Zero) THEN r = NaN64 ELSE Le(Zero, r) /\ Close(Mul(r, r), x)
    [] f = "cbrt" -> Close(Mul(r, Mul(r, r)), x)
    [] f = "exp" -> CASE x = Inf64 -> r = Inf64
                      [] x = NegInf64 -> F64IsZero(r)
                      [] x = Zero -> r = One
                      [] F64Finite(x) /\ Le(Mag(x), D("300")) ->
                           /\ Close(Mul(r, L("exp", <<F64Neg(x)>>)), One)
                           /\ Le(Mag(x), D("20")) => Close(L("exp", <<Add(x, One)>>), Mul(r, E))
                      [] OTHER -> TRUE
    [] f = "ln" -> CASE F64Less(x, Zero) -> r = NaN64
                     [] F64IsZero(x) -> r = NegInf64
                     [] x = Inf64 -> r = Inf64
                     [] OTHER -> Close(L("exp", <<r>>), x) \/ Le(D("50"), Mag(r))
    [] f = "log" -> CASE F64Less(x, Zero) -> r = NaN64
                      [] F64IsZero(x) -> r = NegInf64
                      [] x = Inf64 -> r = Inf64
                      [] OTHER -> Close(Pow(D("10"), r), x) \/ Le(D("20"), Mag(r))
    [] f = "sin" -> IF ~F64Finite(x) THEN r = NaN64
                    ELSE /\ Close(Add(Mul(r, r), LET c == L("cos", <<x>>) IN Mul(c, c)), One)
                         /\ r = F64Neg(L("sin", <<F64Neg(x)>>))
                         /\ Between(Zero, x, One) => Between(Sub(x, Div(Mul(x, Mul(x, x)), D("5.9999"))), r, x)
    [] f = "cos" -> IF ~F64Finite(x) THEN r = NaN64
                    ELSE /\ r = L("cos", <<F64Neg(x)>>)
                         /\ Between(Zero, x, One) => Between(Sub(One, Div(Mul(x, x), D("1.9999"))), r, One)
                         /\ Le(Mag(x), D("30")) =>
                              Close(Add(One, L("cos", <<Mul(Two, x)>>)), Mul(Two, Mul(r, r)))
                              \/ Le(Mag(r), D("1e-3"))
    [] f = "tan" -> IF ~F64Finite(x) THEN r = NaN64 ELSE Close(Mul(r, L("cos", <<x>>)), L("sin", <<x>>))
    [] f = "asin" -> IF F64Less(One, Mag(x)) THEN r = NaN64
                     ELSE Le(Mag(r), Div(Pi, D("1.999999999"))) /\ Close(L("sin", <<r>>), x)
    [] f = "acos" -> IF F64Less(One, Mag(x)) THEN r = NaN64
                     ELSE Between(Zero, r, Pi) /\ Le(Mag(Sub(L("cos", <<r>>), x)), D("1e-15"))
    [] f = "atan" -> /\ Le(Mag(r), Div(Pi, Two))
                     /\ Le(Mag(x), D("1e4")) => Close(L("tan", <<r>>), x)
                     /\ ~F64Finite(x) => Mag(r) = Div(Pi, Two) /\ F64Negative(r) = F64Negative(x)
    [] f = "sinh" -> /\ r = F64Neg(L("sinh", <<F64Neg(x)>>))
                     /\ Between(D("0.1"), Mag(x), D("20")) =>
                          Close(r, Div(Sub(L("exp", <<x>>), L("exp", <<F64Neg(x)>>)), Two))
                     /\ Le(Mag(x), D("1e-3")) => Le(Mag(Sub(r, x)), Mul(D("1e-6"), Mag(x)))
    [] f = "cosh" -> /\ r = L("cosh", <<F64Neg(x)>>)
                     /\ Le(Mag(x), D("20")) =>
                          Close(r, Div(Add(L("exp", <<x>>), L("exp", <<F64Neg(x)>>)), Two))
    [] f = "tanh" -> /\ Le(Mag(x), D("20")) => Close(Mul(r, L("cosh", <<x>>)), L("sinh", <<x>>))
                     /\ ~F64Finite(x) => Mag(r) = One
    [] f = "asinh" -> IF Le(Mag(x), D("1e6")) THEN Close(L("sinh", <<r>>), x) ELSE F64Negative(r) = F64Negative(x)
    [] f = "acosh" -> IF F64Less(x, One) THEN r = NaN64
                      ELSE Le(Zero, r) /\ (Le(x, D("1e6")) => Close(L("cosh", <<r>>), x))
    [] f = "atanh" -> CASE F64Less(One, Mag(x)) -> r = NaN64
                        [] Mag(x) = One -> ~F64Finite(r) /\ F64Negative(r) = F64Negative(x)
                        [] OTHER -> Close(L("tanh", <<r>>), x)
    [] f = "gamma" -> IF Between(Half, x, D("20"))
                      THEN /\ Close(L("gamma", <<Add(x, One)>>), Mul(x, r))
                           /\ x = Half => Close(Mul(r, r), Pi)
                           /\ F64IsInt(x) => Close(r, Product(F64Nat(x) - 1))
                      ELSE x = Inf64 => r = Inf64
    [] f = "factorial" -> /\ r = FactF(x)
                          /\ CASE x = Inf64 -> r = Inf64
                               [] F64Less(x, Zero) -> r = NaN64
                               [] F64Finite(x) /\ ~F64IsInt(x) -> r = NaN64
                               [] F64IsZero(x) -> r = One
                               [] F64Less(D("170"), x) -> r = Inf64
                               [] OTHER -> r = Mul(FactF(Sub(x, One)), x) /\ r = Product(F64Nat(x))

Of2(f, x, y, r) ==
  CASE f = "hypot" -> /\ Le(Zero, r) \/ r = NaN64
                      /\ F64Finite(x) /\ F64Finite(y) => Close(Mul(r, r), Add(Mul(x, x), Mul(y, y)))
                      /\ {Mag(x), Mag(y)} \cap {Inf64} # {} => r = Inf64
    [] f = "logn" -> F64Less(Zero, x) /\ F64Less(Zero, y) /\ y # One /\ F64Finite(x) /\ F64Finite(y) => Close(Pow(y, r), x)
    [] f = "atan2" -> IF F64Finite(x) /\ F64Finite(y)
                      THEN LET h == L("hypot", <<x, y>>)
                           IN /\ Le(Mag(r), Pi)
                              /\ Le(Mag(Sub(Mul(h, L("sin", <<r>>)), x)), Mul(D("1e-14"), Add(h, D("1e-300"))))
                              /\ Le(Mag(Sub(Mul(h, L("cos", <<r>>)), y)), Mul(D("1e-14"), Add(h, D("1e-300"))))
                              /\ F64Negative(r) = F64Negative(x)
                      ELSE x # NaN64 /\ y # NaN64 => F64Negative(r) = F64Negative(x)

OfN(f, as, r) ==
  LET n == Len(as)
      in == {as[i] : i \in DOMAIN as}
  IN CASE f = "sum" -> F64Same(r, Sum(as, n))
       [] f = "mean" -> IF n = 0 THEN r = NaN64 ELSE F64Same(r, Div(Sum(as, n), NatF(n)))
       [] f = "min" -> IF n = 0 THEN r = Inf64 ELSE (\E a \in in : F64Same(a, r)) /\ \A a \in in : Le(r, a)
       [] f = "max" -> IF n = 0 THEN r = NegInf64 ELSE (\E a \in in : F64Same(a, r)) /\ \A a \in in : Le(a, r)

Value == IF fun = "factorial" THEN FactF(args[1]) ELSE L(fun, args)
Means == CASE fun = "pi" -> ConstF("pi") = Pi /\ ConstF("e") = E
           [] fun \in Unary -> Of1(fun, args[1], Value)
           [] fun \in Binary -> Of2(fun, args[1], args[2], Value)
           [] fun \in Variadic -> OfN(fun, args, Value)
(* NaN gives NaN, and the toolchains agree nearly.                         *)
Nans == fun \in Unary \cup Binary => (IF fun = "factorial" THEN FactF(NaN64) ELSE L(fun, [i \in DOMAIN args |-> NaN64])) = NaN64
Alike == fun \notin {"pi", "factorial"} => Close(Lib(fun, args, "s"), Lib(fun, args, "n"))

TheLib(f, as, c) == LibF(f, as, c)
NaturalLog(f, as, c) == LibF(IF f = "log" THEN "ln" ELSE f, as, c)
FromFloor(f, as, c) == IF f = "fract" THEN F64Bin("-", as[1], LibF("floor", as, c)) ELSE LibF(f, as, c)
Swapped(f, as, c) == IF f = "atan2" THEN LibF(f, <<as[2], as[1]>>, c) ELSE LibF(f, as, c)
============================================================================
