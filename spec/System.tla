------------------------------- MODULE System ------------------------------
(***************************************************************************)
(* The library as its users see it: contexts, parsers that own a context,  *)
(* and expressions.                                                        *)
(*                                                                         *)
(* A world is a record                                                     *)
(*   ctx  the contexts: id -> [syms, decl]; syms gives the meaning of      *)
(*        names, decl is <<>> or <<the set of the declared variables>>     *)
(*   par  the contexts that the parsers own: id -> context                 *)
(*   exp  the expressions: id -> [t |-> tree, ex |-> exact, rr |-> reread] *)
(* The tree of an expression says what it *means*: it is the one that was  *)
(* read, with numbers in the place of the variables it was simplified for. *)
(* An implementation may represent it otherwise; if no simplification took *)
(* place, the expression is exact: it evaluates as its tree does in any    *)
(* case, and not only when the evaluation is regular.  Displaying an       *)
(* expression and reading it again keeps the meaning, "ok", or may not,    *)
(* "maybe": a simplified expression may have infinite numbers in it, which *)
(* can't be read.                                                          *)
(*                                                                         *)
(* Each operation of the interface is an operator from worlds to worlds.   *)
(* MC_System makes a next-state relation of them; Trace applies them to    *)
(* the operations that were recorded.                                      *)
(***************************************************************************)
EXTENDS Grammar, Simplify

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

EmptyCtx == [syms |-> <<>>, decl |-> <<>>]
EmptyWorld == [ctx |-> <<>>, par |-> <<>>, exp |-> <<>>]

(* A target is <<"c", id>> (a context) or <<"p", id>> (the one of a parser)*)
CtxOf(w, tgt) == IF tgt[1] = "p" THEN w.par[tgt[2]] ELSE w.ctx[tgt[2]]
PutCtx(w, tgt, c) ==
  IF tgt[1] = "p" THEN [w EXCEPT !.par = Put(@, tgt[2], c)]
  ELSE [w EXCEPT !.ctx = Put(@, tgt[2], c)]
Write(w, tgt, name, sym) ==
  LET c == CtxOf(w, tgt)
  IN PutCtx(w, tgt, [c EXCEPT !.syms = Put(@, name, sym)])

NewContext(w, c) == [w EXCEPT !.ctx = Put(@, c, EmptyCtx)]
SetVar(w, tgt, name, v) == Write(w, tgt, name, [k |-> "var", v |-> v])
SetFn(w, tgt, f) == Write(w, tgt, f.n, [k |-> "fn", f |-> f])
SetSymbols(w, tgt, syms) ==
  PutCtx(w, tgt, [CtxOf(w, tgt) EXCEPT !.syms = syms])
Declare(w, tgt, names) ==
  PutCtx(w, tgt, [CtxOf(w, tgt) EXCEPT !.decl = <<names>>])
CloneContext(w, c, tgt) == [w EXCEPT !.ctx = Put(@, c, CtxOf(w, tgt))]
NewParser(w, p, c) ==
  [w EXCEPT !.par = Put(@, p, IF c = "" THEN EmptyCtx ELSE w.ctx[c])]
CloneParser(w, p, q) == [w EXCEPT !.par = Put(@, p, w.par[q])]

(* What looking a name up in a context gives.                              *)
Lookup(w, tgt, name) ==
  LET s == CtxOf(w, tgt).syms
  IN IF name \in DOMAIN s THEN s[name] ELSE [k |-> "none"]

Undeclared(c, t) == IF c.decl = <<>> THEN {} ELSE Vars(t) \ c.decl[1]

(* What a parser makes of a text: the final state of the machine.          *)
Reading(w, mode, p, txt) ==
  Parse(txt, mode, IF p = "" THEN <<>> ELSE w.par[p].syms)

Keep(w, x, t, ex, rr) ==
  [w EXCEPT !.exp = Put(@, x, [t |-> t, ex |-> ex, rr |-> rr])]
CloneExpr(w, x, y) == [w EXCEPT !.exp = Put(@, y, w.exp[x])]
Forget(w, x) == [w EXCEPT !.exp = Without(@, x)]

(* Expression y is x with numbers in the place of some variables.          *)
Bind(w, x, y, bs) ==
  Keep(w, y, SubstAll(w.exp[x].t, bs, 1), w.exp[x].ex /\ bs = <<>>,
       w.exp[x].rr)

(* An expression, all of whose variables are among names, as a function.   *)
AsFunction(w, x, name, names, arity) ==
  [n |-> name, a |-> arity, s |-> "hof", t |-> w.exp[x].t, names |-> names,
   ex |-> w.exp[x].ex]

RECURSIVE ExactTree(_)
ExactTree(t) == \A f \in Calls(t) : f.s = "hof" => f.ex /\ ExactTree(f.t)
Exact(e) == e.ex /\ ExactTree(e.t)
============================================================================
