-------------------------------- MODULE Lite -------------------------------
(***************************************************************************)
(* A small arithmetic for the models: rationals <<p, q>> with q > 0, the   *)
(* infinities <<1, 0>> and <<-1, 0>>, and <<0, 0>>, which is not a number. *)
(* What is too large or can't be represented is not a number either.  It   *)
(* behaves as IEEE-754 arithmetic does, but for rounding and the signs of  *)
(* zeros.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

LNaN == <<0, 0>>
LInf == <<1, 0>>
LMiss == <<0, -1>>
LBoom == <<0, -2>>
LNeg(a) == <<-a[1], a[2]>>
LFinite(a) == a[2] # 0
LZero(a) == a[1] = 0 /\ a[2] # 0
LSame(a, b) == a = b /\ a # LNaN
LNat(n) == <<n, 1>>
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Abs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
(* The rational p / q, q # 0.                                              *)
Rat(p, q) ==
  LET g == Gcd(Abs(p), Abs(q))
      s == Sign(q)
      r == <<(s * p) \div g, Abs(q) \div g>>
  IN IF p = 0 THEN <<0, 1>>
     ELSE IF Abs(r[1]) > 10000 \/ r[2] > 10000 THEN LNaN ELSE r

LAdd(a, b) ==
  IF a = LNaN \/ b = LNaN THEN LNaN
  ELSE IF LFinite(a) /\ LFinite(b) THEN Rat(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
  ELSE IF LFinite(a) THEN b
  ELSE IF LFinite(b) \/ a = b THEN a ELSE LNaN
LMul(a, b) ==
  IF a = LNaN \/ b = LNaN THEN LNaN
  ELSE IF LFinite(a) /\ LFinite(b) THEN Rat(a[1] * b[1], a[2] * b[2])
  ELSE <<Sign(a[1]) * Sign(b[1]), 0>>
LDiv(a, b) ==
  IF a = LNaN \/ b = LNaN \/ (~LFinite(a) /\ ~LFinite(b)) THEN LNaN
  ELSE IF ~LFinite(b) THEN <<0, 1>>
  ELSE IF ~LFinite(a) THEN <<a[1] * (IF b[1] < 0 THEN -1 ELSE 1), 0>>
  ELSE IF LZero(b) THEN <<Sign(a[1]), 0>>
  ELSE Rat(a[1] * b[2], a[2] * b[1])
LTrunc(a) == <<Sign(a[1]) * (Abs(a[1]) \div a[2]), 1>>
LRem(a, b) ==
  IF a = LNaN \/ b = LNaN \/ ~LFinite(a) \/ LZero(b) THEN LNaN
  ELSE IF ~LFinite(b) THEN a
  ELSE LET d == LDiv(a, b)
       IN IF ~LFinite(d) THEN LNaN ELSE LAdd(a, LNeg(LMul(b, LTrunc(d))))
RECURSIVE LPower(_, _)
LPower(a, n) == IF n = 0 THEN <<1, 1>> ELSE LMul(a, LPower(a, n - 1))
LPow(a, b) ==
  IF LZero(b) \/ a = <<1, 1>> THEN <<1, 1>>
  ELSE IF a = LNaN \/ b = LNaN \/ ~LFinite(b) THEN LNaN
  ELSE IF b[2] = 1 /\ Abs(b[1]) <= 3
  THEN IF b[1] > 0 THEN LPower(a, b[1]) ELSE LDiv(<<1, 1>>, LPower(a, -b[1]))
  ELSE IF LZero(a) THEN (IF b[1] > 0 THEN <<0, 1>> ELSE LInf)
  ELSE LNaN
LBin(op, a, b, ch) ==
  CASE op = "+" -> LAdd(a, b) [] op = "-" -> LAdd(a, LNeg(b))
    [] op = "*" -> LMul(a, b) [] op = "/" -> LDiv(a, b)
    [] op = "%" -> LRem(a, b) [] op = "^" -> LPow(a, b)
LFact(a) ==
  IF a[2] # 1 \/ a[1] < 0 THEN (IF a = LInf THEN LInf ELSE LNaN)
  ELSE IF a[1] > 6 THEN LNaN
  ELSE <<CASE a[1] \in {0, 1} -> 1 [] a[1] = 2 -> 2 [] a[1] = 3 -> 6
           [] a[1] = 4 -> 24 [] a[1] = 5 -> 120 [] a[1] = 6 -> 720, 1>>
RECURSIVE LSum(_, _)
LSum(as, i) == IF i > Len(as) THEN <<0, 1>> ELSE LAdd(as[i], LSum(as, i + 1))
(* A few of the library's functions.                                       *)
LLib(name, as, ch) ==
  CASE name = "abs" -> <<Abs(as[1][1]), as[1][2]>>
    [] name = "recip" -> LDiv(<<1, 1>>, as[1])
    [] name = "sum" -> LSum(as, 1)
    [] name = "hypot" -> LAdd(LMul(as[1], as[1]), LMul(as[2], as[2]))
    [] OTHER -> LNaN
LLit(text) == <<1, 1>>
LConst(name) == IF name = "pi" THEN <<22, 7>> ELSE <<19, 7>>
============================================================================
