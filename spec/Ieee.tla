-------------------------------- MODULE Ieee -------------------------------
(***************************************************************************)
(* The arithmetic that expressions are evaluated with, from F64.           *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences, TLC

Zero64 == F64Dec("0")
Inf64 == F64Dec("Infinity")
NegInf64 == F64Neg(Inf64)
NaN64 == "nan"

BinF(op, a, b, ch) ==
  IF op = "^" THEN F64Lib(ch, "pow", <<a, b>>) ELSE F64Bin(op, a, b)

(* n! for natural numbers, infinite when that is too large, NaN elsewhere. *)
FactF(a) ==
  CASE a = NaN64 -> NaN64
    [] a # NaN64 /\ F64Less(a, Zero64) -> NaN64
    [] a = Inf64 -> Inf64
    [] a # NaN64 /\ a # Inf64 /\ ~F64Less(a, Zero64) ->
         IF ~F64IsInt(a) THEN NaN64
         ELSE LET n == F64Nat(a) IN IF n = -1 \/ n > 170 THEN Inf64
                                    ELSE F64Fact(n)

LibF(name, args, ch) == F64Lib(ch, name, args)
NatF(n) == F64Dec(ToString(n))
ConstF(name) == F64Lib("s", name, <<>>)
(* Numbers are equal as `==` says it: NaN isn't equal to anything.         *)
EqualF(a, b) == a # NaN64 /\ b # NaN64 /\ F64Same(a, b)
============================================================================
