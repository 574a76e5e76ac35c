-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 binary64 numbers, as the conformance checks need them.         *)
(*                                                                         *)
(* A number is the string of the 16 hexadecimal digits of its bits; every  *)
(* NaN is the string "nan".  The operators are overridden by java/F64.java *)
(* (TLC loads the class of the same name); they are the trusted primitives *)
(* of the binding.  `/`, `%`, ... are Java's, which IEEE-754 determines    *)
(* completely; F64Lib asks a process (tools/primd.rs) for Rust's standard  *)
(* library functions (`powf`, `sin`, ...), one built per toolchain.        *)
(***************************************************************************)
LOCAL Abstract == CHOOSE x \in {"override missing"} : TRUE

(* The correctly rounded value of a decimal literal such as "1.5e-3".      *)
F64Dec(text) == Abstract
(* op in "+" "-" "*" "/" "%"                                               *)
F64Bin(op, a, b) == Abstract
F64Neg(a) == Abstract
F64Finite(a) == Abstract
F64IsZero(a) == Abstract
(* Numerically equal or both NaN: the sign of a zero is not looked at.     *)
F64Same(a, b) == Abstract
F64Less(a, b) == Abstract
F64Negative(a) == Abstract
(* The natural number that `a` is, or -1 (-0 is the natural number 0).     *)
F64Nat(a) == Abstract
F64IsInt(a) == Abstract
(* n! for a natural number n, multiplied in ascending order in doubles.    *)
F64Fact(n) == Abstract
(* The standard library function `name` of the toolchain `ch` on `args`.   *)
F64Lib(ch, name, args) == Abstract
(* An input text as a sequence with one element per *byte*: the first byte *)
(* of a character stands for it, the other ones are "~cont".               *)
Bytes(text) == Abstract
(* The text that Rust's `Display` produces for a number.                   *)
F64Text(a) == Abstract
============================================================================
