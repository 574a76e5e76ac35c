------------------------------ MODULE MC_System ----------------------------
(***************************************************************************)
(* Histories of contexts, parsers and expressions.                         *)
(*                                                                         *)
(* The log of a history is what was done.  What a name means in a context, *)
(* which variables are declared and what an expression is are defined here *)
(* on the log alone: by looking back for what was set last, through the    *)
(* copies.  Checked: System's worlds agree with the log (C13), an          *)
(* expression keeps the meaning it had when it was parsed (C13), and       *)
(* exactly the undeclared variables are rejected (C14).                    *)
(* Alias: a parser shares the context it was made of instead of owning a   *)
(* copy.  Merge: with_symbols adds to the symbols.  Both are wrong.        *)
(* With GEN, complete histories are printed as JSON.                       *)
(***************************************************************************)
EXTENDS System, Lite, Json, Randomization

CONSTANTS N, Alias, Merge, GEN

VARIABLES w, log
vars == <<w, log>>

MyLit(t) == <<2, 1>>
MyConst(n) == LConst(n)

CtxIds == {"c1", "c2"}
ParIds == {"p1", "p2"}
Names == {"x", "f", "sin"}
Values == {<<3, 1>>, <<4, 1>>}
Funs == {Fn(n, a, "h") : n \in {"f", "sin"}, a \in {1, -1}}
Texts == {"x", "f(x)", "x sin(2)", "f+y"}
Chars(t) == [i \in 1 .. Len(t) |-> SubSeq(t, i, i)]
Sets == {{}, {"x"}, {"x", "y", "f"}}
Maps == {<<>>, [n \in {"x"} |-> [k |-> "var", v |-> <<3, 1>>]],
         [n \in {"f"} |-> [k |-> "fn", f |-> Fn("f", -1, "h")]]}
Targets == {<<"c", c>> : c \in DOMAIN w.ctx} \cup {<<"p", p>> : p \in DOMAIN w.par}

Do(e, v) == w' = v /\ log' = Append(log, e)
(* What a parser made of context c is, if it only shares it.               *)
Shared(v) ==
  IF ~Alias THEN v
  ELSE [v EXCEPT !.par = [p \in DOMAIN @ |->
          LET L == {i \in DOMAIN log : log[i].op = "parser" /\ log[i].p = p}
          IN IF L = {} THEN @[p]
             ELSE LET i == CHOOSE i \in L : \A j \in L : j <= i
                  IN IF log[i].c = "" THEN @[p] ELSE v.ctx[log[i].c]]]

Next ==
  /\ Len(log) < N
  /\ \/ \E c \in CtxIds : Do([op |-> "ctx", c |-> c], NewContext(w, c))
     \/ \E t \in Targets :
          \/ \E n \in Names, v \in Values :
               Do([op |-> "var", t |-> t, n |-> n, v |-> v], Shared(SetVar(w, t, n, v)))
          \/ \E f \in Funs : Do([op |-> "fn", t |-> t, f |-> f], Shared(SetFn(w, t, f)))
          \/ \E S \in Sets : Do([op |-> "declare", t |-> t, names |-> S], Shared(Declare(w, t, S)))
          \/ \E m \in Maps :
               Do([op |-> "symbols", t |-> t, syms |-> m],
                  Shared(SetSymbols(w, t, IF Merge THEN m @@ CtxOf(w, t).syms ELSE m)))
          \/ \E c \in CtxIds : Do([op |-> "cclone", c |-> c, from |-> t], CloneContext(w, c, t))
     \/ \E p \in ParIds, c \in DOMAIN w.ctx \cup {""} :
          Do([op |-> "parser", p |-> p, c |-> c], NewParser(w, p, c))
     \/ \E p \in ParIds, q \in DOMAIN w.par :
          Do([op |-> "pclone", p |-> p, from |-> q], CloneParser(w, p, q))
     \/ \E p \in DOMAIN w.par, t \in Texts :
          LET r == Reading(w, "P", p, Chars(t))
              x == "e"
          IN Do([op |-> "parse", p |-> p, text |-> t, x |-> x],
                IF r.m = "ok" /\ Undeclared(w.par[p], r.val) = {}
                THEN Keep(w, x, r.val, TRUE, "no") ELSE Forget(w, x))
Init == w = EmptyWorld /\ log = <<>>
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Meanings, from the log.  Only the first n entries count.                *)
(***************************************************************************)
RECURSIVE Means(_, _, _), Declared(_, _)
Means(n, t, name) ==
  IF n = 0 THEN [k |-> "none"]
  ELSE LET e == log[n]
       IN CASE e.op = "var" /\ e.t = t /\ e.n = name -> [k |-> "var", v |-> e.v]
            [] e.op = "fn" /\ e.t = t /\ e.f.n = name -> [k |-> "fn", f |-> e.f]
            [] e.op = "symbols" /\ e.t = t ->
                 IF name \in DOMAIN e.syms THEN e.syms[name] ELSE [k |-> "none"]
            [] e.op = "ctx" /\ t = <<"c", e.c>> -> [k |-> "none"]
            [] e.op = "cclone" /\ t = <<"c", e.c>> -> Means(n - 1, e.from, name)
            [] e.op = "parser" /\ t = <<"p", e.p>> ->
                 IF e.c = "" THEN [k |-> "none"] ELSE Means(n - 1, <<"c", e.c>>, name)
            [] e.op = "pclone" /\ t = <<"p", e.p>> -> Means(n - 1, <<"p", e.from>>, name)
            [] OTHER -> Means(n - 1, t, name)
Declared(n, t) ==
  IF n = 0 THEN <<>>
  ELSE LET e == log[n]
       IN CASE e.op = "declare" /\ e.t = t -> <<e.names>>
            [] e.op = "ctx" /\ t = <<"c", e.c>> -> <<>>
            [] e.op = "cclone" /\ t = <<"c", e.c>> -> Declared(n - 1, e.from)
            [] e.op = "parser" /\ t = <<"p", e.p>> ->
                 IF e.c = "" THEN <<>> ELSE Declared(n - 1, <<"c", e.c>>)
            [] e.op = "pclone" /\ t = <<"p", e.p>> -> Declared(n - 1, <<"p", e.from>>)
            [] OTHER -> Declared(n - 1, t)

Lookups ==
  \A t \in Targets :
    /\ \A n \in Names \cup {"y"} : Lookup(w, t, n) = Means(Len(log), t, n)
    /\ CtxOf(w, t).decl = Declared(Len(log), t)

(* What the texts mean, spelt out.                                         *)
Parsed(n, p, text) ==
  LET t == <<"p", p>>
      x == Means(n, t, "x")
      f == Means(n, t, "f")
      s == Means(n, t, "sin")
      val(m, name) == IF m.k = "var" THEN Num(m.v) ELSE Var(name)
      two == Num(<<2, 1>>)
      sin2 == CASE s.k = "none" -> Call(BuiltIn["sin"], <<two>>)
                [] s.k = "fn" -> Call(s.f, <<two>>)
                [] s.k = "var" -> Bin("*", Num(s.v), two)
      tree == CASE text = "x" -> val(x, "x")
                [] text = "f(x)" ->
                     IF f.k = "fn" THEN Call(f.f, <<val(x, "x")>>)
                     ELSE Bin("*", val(f, "f"), val(x, "x"))
                [] text = "x sin(2)" ->
                     \* juxtapositions group to the left
                     IF s.k = "var"
                     THEN Bin("*", Bin("*", val(x, "x"), Num(s.v)), two)
                     ELSE Bin("*", val(x, "x"), sin2)
                [] text = "f+y" -> IF f.k = "fn" THEN None ELSE Bin("+", val(f, "f"), Var("y"))
      d == Declared(n, t)
  IN IF tree = None \/ (d # <<>> /\ ~(Vars(tree) \subseteq d[1])) THEN None ELSE tree

Expressions ==
  LET L == {i \in DOMAIN log : log[i].op = "parse"}
      i == CHOOSE i \in L : \A j \in L : j <= i
      m == Parsed(i - 1, log[i].p, log[i].text)
  IN IF L = {} THEN w.exp = <<>>
     ELSE IF m = None THEN "e" \notin DOMAIN w.exp
     ELSE "e" \in DOMAIN w.exp /\ w.exp["e"].t = m

(* A flaw: the variables of arguments needn't be declared.                 *)
RECURSIVE Shallow(_)
Shallow(t) ==
  CASE t.k \in {"num", "call"} -> {}
    [] t.k = "var" -> {t.n}
    [] t.k = "un" -> Shallow(t.t)
    [] t.k = "bin" -> Shallow(t.l) \cup Shallow(t.r)
LaxUndeclared(c, t) == IF c.decl = <<>> THEN {} ELSE Shallow(t) \ c.decl[1]

(* (One of many, as those that differ in the last operation are printed.)  *)
Generated == (GEN /\ Len(log) = N /\ RandomElement(1 .. 400) = 1) => PrintT("TEST " \o ToJson(log))
============================================================================
