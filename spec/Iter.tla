-------------------------------- MODULE Iter -------------------------------
(***************************************************************************)
(* Iteration.  java/Iter.java overrides the definition by a loop, which    *)
(* spares TLC the recursion.                                               *)
(***************************************************************************)
RECURSIVE Iterate(_, _, _)
Iterate(f(_), done(_), x) == IF done(x) THEN x ELSE Iterate(f, done, f(x))
============================================================================
