-------------------------------- MODULE Trace ------------------------------
(***************************************************************************)
(* Conformance: are the recorded executions behaviours of System?          *)
(*                                                                         *)
(* The trace has one session per line: a sequence of operations of the     *)
(* interface with what each build of the crate was observed to do.  The    *)
(* operations drive System's operators, once for each way of reading       *)
(* juxtapositions; each observation has to be one that the specification   *)
(* allows in the state it has reached.                                     *)
(*                                                                         *)
(* All sessions are explored, one initial state each.  For an observation  *)
(* that isn't allowed, a line "REJECT" is printed that tells the session,  *)
(* the operation, the build and the clauses that fail; the specification   *)
(* then goes on from its own state, so that what follows is judged too.    *)
(* Every operation of every session is consumed: there are as many states  *)
(* as operations, plus one per session (checked by the caller).            *)
(***************************************************************************)
EXTENDS Ieee, System, Json, IOUtils, FiniteSets

Sessions == ndJsonDeserialize(IOEnv.TRACE)
(* Compare what is displayed with what the modelled simplifications give?  *)
(* Simplifying otherwise is no violation of anything.                      *)
Drift == "DRIFT" \in DOMAIN IOEnv /\ IOEnv.DRIFT = "1"

VARIABLES
  s,   \* the session
  i,   \* the number of operations consumed
  w    \* the worlds: for each way of reading juxtapositions, System's world

vars == <<s, i, w>>

Modes == {"P", "J"}
Cfg(c) == [mode |-> IF c \in {"sP0", "sP1", "nP0", "nP1"} THEN "P" ELSE "J",
           opt |-> c \in {"sP1", "nP1", "sJ1", "nJ1"},
           ch |-> IF c \in {"sP0", "sP1", "sJ0", "sJ1"} THEN "s" ELSE "n"]

Range(f) == {f[x] : x \in DOMAIN f}
(* A sequence of pairs as a function; the last pair with a name counts.    *)
FnOf(ps) ==
  [n \in {p[1] : p \in Range(ps)} |->
     ps[CHOOSE k \in DOMAIN ps : ps[k][1] = n /\ \A j \in DOMAIN ps :
          ps[j][1] = n => j <= k][2]]
Tag(b, tag) == IF b THEN {} ELSE {tag}

Crashed(r) == r.k \in {"panic", "crash", "hang"}
NotRun(r) == r.k \in {"noexpr", "skip"}

(***************************************************************************)
(* What the operations do (mode m, world v).                               *)
(***************************************************************************)
Sym(y) == IF y.k = "var" THEN [k |-> "var", v |-> y.v]
          ELSE [k |-> "fn", f |-> Fn(y.f.n, y.f.a, y.f.s)]
SymsOf(ys) ==
  [n \in {y.key : y \in Range(ys)} |->
     Sym(ys[CHOOSE k \in DOMAIN ys : ys[k].key = n /\ \A j \in DOMAIN ys :
              ys[j].key = n => j <= k])]

(* Does an expression, displayed, mean the same to this parser?            *)
RECURSIVE FiniteTree(_)
FiniteTree(t) ==
  CASE t.k = "num" -> F64Finite(t.v)
    [] t.k = "var" -> TRUE
    [] t.k = "un" -> FiniteTree(t.t)
    [] t.k = "bin" -> FiniteTree(t.l) /\ FiniteTree(t.r)
    [] t.k = "call" -> \A k \in DOMAIN t.args : FiniteTree(t.args[k])
Readable(v, p, t) ==
  LET syms == v.par[p].syms
  IN /\ FiniteTree(t)
     /\ \A n \in Vars(t) : Resolve(syms, n).k = "free"
     /\ \A f \in Calls(t) : Resolve(syms, f.n) = [k |-> "fn", f |-> f]
     /\ Undeclared(v.par[p], t) = {}

Apply(v, e, rd) ==
  CASE e.op = "ctx" -> NewContext(v, e.c)
    [] e.op = "var" -> SetVar(v, e.t, e.n, e.v)
    [] e.op = "fn" -> SetFn(v, e.t, Fn(e.f.n, e.f.a, e.f.s))
    [] e.op = "declare" -> Declare(v, e.t, Range(e.names))
    [] e.op = "symbols" -> SetSymbols(v, e.t, SymsOf(e.syms))
    [] e.op = "cclone" -> CloneContext(v, e.c, e.from)
    [] e.op = "parser" -> NewParser(v, e.p, e.c)
    [] e.op = "pclone" -> CloneParser(v, e.p, e.from)
    [] e.op = "parse" ->
         IF rd.m = "ok" /\ (e.via = "try_from" \/
                            Undeclared(v.par[e.p], rd.val) = {})
         THEN Keep(v, e.x, rd.val, TRUE, "no") ELSE Forget(v, e.x)
    [] e.op = "reparse" ->
         IF e.x \in DOMAIN v.exp /\ Readable(v, e.p, v.exp[e.x].t)
         THEN Keep(v, e.y, v.exp[e.x].t, v.exp[e.x].ex,
                     IF Eval(v.exp[e.x].t, FnOf(e.env), "s").f THEN "ok" ELSE "maybe")
         ELSE Forget(v, e.y)
    [] e.op \in {"simp", "simp4"} ->
         IF e.x \in DOMAIN v.exp THEN Bind(v, e.x, e.y, e.b)
         ELSE Forget(v, e.y)
    [] e.op = "clone" ->
         IF e.x \in DOMAIN v.exp THEN CloneExpr(v, e.x, e.y)
         ELSE Forget(v, e.y)
    [] e.op = "asfn" ->
         IF e.x \in DOMAIN v.exp /\ Vars(v.exp[e.x].t) \subseteq Range(e.names)
         THEN SetFn(v, e.t, AsFunction(v, e.x, e.n, e.names, e.a)) ELSE v
    [] e.op = "simpself" ->
         \* a panic leaves the expression as it was; whether a function that
         \* panics is called, the observations tell
         IF e.x \notin DOMAIN v.exp THEN v
         ELSE LET p == {o.r.k = "panic" : o \in {o2 \in Range(e.o) : ~NotRun(o2.r)}}
              IN IF p = {TRUE} THEN v
                 ELSE IF p = {FALSE} THEN Bind(v, e.x, e.x, e.b)
                 ELSE Forget(v, e.x)
    [] OTHER -> v

(***************************************************************************)
(* What may be observed.                                                   *)
(***************************************************************************)
(* A zero's sign doesn't matter in the arguments of optimized calls.       *)
Plain(a) == IF a = NaN64 THEN a ELSE IF F64IsZero(a) THEN Zero64 ELSE a
PlainCall(c) == <<c[1], [k \in DOMAIN c[2] |-> Plain(c[2][k])], Plain(c[3])>>
SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A x \in Range(a) \cup Range(b) :
       Cardinality({k \in DOMAIN a : a[k] = x})
         = Cardinality({k \in DOMAIN b : b[k] = x})

(* The functions that a tree calls, with the number of arguments.          *)
RECURSIVE Shapes(_)
Shapes(t) ==
  CASE t.k \in {"num", "var"} -> {}
    [] t.k = "un" -> Shapes(t.t)
    [] t.k = "bin" -> Shapes(t.l) \cup Shapes(t.r)
    [] t.k = "call" ->
         {<<t.f.s, Len(t.args)>>} \cup UNION {Shapes(t.args[k]) : k \in DOMAIN t.args}
           \cup (IF t.f.s = "hof" THEN Shapes(t.f.t) ELSE {})

(* Is the value of an expression the one that its tree has?                *)
ExactIn(x, cf) ==
  Exact(x) /\ (~cf.opt \/ (Vars(x.t) = {} /\ \A f \in Calls(x.t) : f.s # "hof"))
ValueOk(x, cf, ev, r) ==
  CASE r.k # "ok" -> FALSE
    [] r.k = "ok" /\ ExactIn(x, cf) -> r.v = ev.v
    [] r.k = "ok" /\ ~ExactIn(x, cf) -> ev.r => F64Same(r.v, ev.v)

NotProvided(n) == "Evaluation error: '" \o n \o "' was not provided"

(* The outcome r of evaluating x, all whose clauses have to hold.          *)
Outcome(x, cf, env, ev, r) ==
  LET miss == Vars(x.t) \ DOMAIN env
      named == r.k = "err" /\ \E n \in miss : r.m = NotProvided(n)
      boom == MayBoom(x.t)
      loose == cf.opt \/ ~Exact(x)
  IN IF Crashed(r)
     THEN Tag(boom /\ r.k = "panic" /\ (miss # {} \/ loose \/ ev.v = BOOM), "panic")
          \cup Tag(boom /\ r.k = "panic", "value")
     ELSE IF miss = {}
     THEN IF r.k # "ok" THEN {"required", "value"}
          ELSE IF ev.v = BOOM THEN Tag(loose, "boom")
          ELSE Tag(ValueOk(x, cf, ev, r), "value")
     ELSE IF r.k = "ok" THEN Tag(loose, "required") ELSE Tag(named, "required")

CallsOk(x, cf, ev, calls) ==
  IF Len(calls) >= 64 THEN TRUE
  ELSE IF ~cf.opt /\ Exact(x) THEN SameBag(calls, ev.c)
  ELSE /\ \A c \in Range(calls) : <<c[1], Len(c[2])>> \in Shapes(x.t)
       /\ ev.r => \A c \in Range(calls) :
                    PlainCall(c) \in {PlainCall(d) : d \in Range(ev.c)}

JudgeEval(x, cf, env, ev, r) ==
  Outcome(x, cf, env, ev, r) \cup
  (IF r.k = "ok" /\ ev.v # BOOM /\ ev.v # MISS
   THEN Tag(r.u = r.v, "unchecked")
        \cup (IF env = <<>> THEN Tag(r.nv = r.v /\ r.nvu = r.v, "novars") ELSE {})
        \cup Tag(CallsOk(x, cf, ev, r.calls) /\ CallsOk(x, cf, ev, r.ucalls), "calls")
   ELSE {})

(* Evaluations with all, exactly the required, more, or fewer variables.   *)
JudgeProbe(x, cf, env, ev, r) ==
  IF Crashed(r) THEN {"panic", "value"}
  ELSE LET need == Range(r.vars)
           full == Outcome(x, cf, env, ev, r.full)
           same(o) == o.k = r.full.k /\ (o.k = "ok" => o.v = r.full.v)
           cover == Vars(x.t) \subseteq DOMAIN env
       IN full
          \cup Tag(IF ~cf.opt /\ Exact(x) THEN need = Vars(x.t)
                   ELSE need \subseteq Vars(x.t), "vars")
          \cup (IF cover /\ ~MayBoom(x.t) /\ r.full.k = "ok"
                THEN Tag(same(r.only) /\ same(r.extra), "required")
                     \cup Tag(\A k \in DOMAIN r.without :
                                /\ r.without[k][2].k = "err"
                                /\ r.without[k][2].m = NotProvided(r.without[k][1]),
                              "required")
                     \cup Tag(IF need = {} THEN same(r.none)
                              ELSE /\ r.none.k = "err"
                                   /\ \E n \in need : r.none.m = NotProvided(n),
                              "required")
                ELSE {})

(* The help says which character or how many arguments to add or to remove,*)
(* or which names there are to choose from.                                *)
HelpOk(err, r) ==
  CASE err.kind = "expected" -> r.hq = <<err.q>>
    [] err.kind = "few" -> r.hn = <<ToString(err.q[1] - err.q[2])>>
    [] err.kind = "many" -> r.hn = <<ToString(err.q[2] - err.q[1])>>
    [] OTHER -> TRUE

(* One label, on whole characters of the input, which the error carries.   *)
Diagnostic(txt, r) ==
  Tag(r.n = 1 /\ r.src /\ r.rep, "diag")
  \cup Tag(Boundary(txt, r.off) /\ Boundary(txt, r.off + r.len), "bounds")

JudgeParse(v, e, cf, txt, rd, r) ==
  LET c == IF e.via = "try_from" THEN EmptyCtx ELSE v.par[e.p]
      unknown == IF rd.m = "ok" THEN Undeclared(c, rd.val) ELSE {}
      x == [t |-> rd.val, ex |-> TRUE, rr |-> "no"]
      mayboom == IF rd.m = "ok" THEN cf.opt /\ MayBoom(rd.val)
                 ELSE cf.opt /\ \E n \in DOMAIN c.syms :
                        c.syms[n].k = "fn" /\ c.syms[n].f.s \in {"b", "z"}
      undeclared == /\ r.k = "err"
                    /\ \E n \in unknown :
                         r.m = "Variable not previously declared: `" \o n \o "`"
      wrong == IF c.decl = <<>> THEN {"accept"} ELSE {"accept", "declared"}
  IN IF Crashed(r) THEN Tag(mayboom /\ r.k = "panic", "panic")
                        \cup Tag(mayboom /\ r.k = "panic", "accept")
     ELSE IF rd.m = "err"
     THEN IF r.k = "ok" THEN {"accept"}
          ELSE Tag(r.m = Message(rd.err), "msg")
               \cup Tag(r.off = rd.err.off /\ r.len = rd.err.len, "label")
               \cup Tag(HelpOk(rd.err, r), "help")
               \cup Diagnostic(txt, r)
     ELSE IF r.k = "err"
     THEN IF unknown = {} THEN wrong
          ELSE Tag(undeclared, "declared") \cup Tag(undeclared, "msg")
               \cup Tag(Range(r.hq) \ {""} = c.decl[1] \ {""}, "choices")
               \cup Diagnostic(txt, r)
     ELSE Tag(IF cf.opt THEN Range(r.vars) \cap unknown = {} ELSE unknown = {},
              "declared")
          \cup Tag(IF cf.opt THEN Range(r.vars) \subseteq Vars(rd.val)
                   ELSE Range(r.vars) = Vars(rd.val), "vars")
          \cup Tag(\A k \in DOMAIN r.calls :
                     <<r.calls[k][1], Len(r.calls[k][2])>> \in Shapes(rd.val),
                   "calls")
          \cup (IF cf.opt /\ Vars(rd.val) = {}
                THEN Tag(r.show = F64Text(Eval(rd.val, <<>>, cf.ch).v), "fold")
                ELSE {})
          \cup (IF ~Drift THEN {}
                ELSE IF cf.opt
                THEN Tag(r.show = Show(Simple(rd.val, RulesOf(cf.ch), cf.ch),
                                         F64Text, F64Negative), "drift")
                ELSE Tag(r.show = Show(rd.val, F64Text, F64Negative), "drift"))

JudgeReparse(v, e, cf, r) ==
  LET x == v.exp[e.x]
      loose == cf.opt \/ ~Exact(x)
  IN IF \/ ~Readable(v, e.p, x.t)
        \/ loose /\ ~Eval(x.t, FnOf(e.env), cf.ch).f THEN {}
     ELSE IF r.k # "ok" THEN {"reread"} \cup Tag(~Crashed(r), "panic")
     ELSE Tag(IF loose THEN Range(r.vars) \subseteq Vars(x.t)
              ELSE Range(r.vars) = Vars(x.t), "reread")

(* After a simplification: t is the tree with the numbers in it.           *)
Simplified(x, t, cf, r) ==
  IF Crashed(r)
  THEN Tag(MayBoom(x.t) /\ r.k = "panic", "panic")
       \cup Tag(MayBoom(x.t) /\ r.k = "panic", "removed")
  ELSE Tag(Range(r.vars) \subseteq Vars(t), "removed")

JudgeSimp4(x, t, cf, r) ==
  IF Crashed(r) THEN {"panic", "methods"}
  ELSE UNION {Simplified(x, t, cf, r.rs[k]) : k \in DOMAIN r.rs}
       \cup Tag(\A k \in DOMAIN r.rs : r.rs[k] = r.rs[1], "methods")

Join(names) ==
  LET RECURSIVE J(_)
      J(k) == IF k > Len(names) THEN ""
              ELSE (IF k > 1 THEN ", " ELSE "") \o names[k] \o J(k + 1)
  IN J(1)
BindMessage(names) ==
  IF Len(names) = 1 THEN "Variable '" \o names[1] \o "' was not provided"
  ELSE "Variables '" \o Join(names) \o "' were not provided"

(* own: the variables that the expression says it needs.                   *)
JudgeBind(x, cf, e, own, r) ==
  LET names == Range(e.names)
      miss == own \ names
      loose == cf.opt \/ ~Exact(x)
  IN IF Crashed(r) THEN {"panic", "bind"}
     ELSE Tag(IF loose THEN own \subseteq Vars(x.t) ELSE own = Vars(x.t), "vars")
     \cup
     IF miss # {}
     THEN IF r.k # "err" THEN {"bind"}
          ELSE Tag(/\ Range(r.names) = miss
                   /\ Len(r.names) = Cardinality(miss)
                   /\ r.kind = IF Cardinality(miss) = 1 THEN "one" ELSE "many"
                   /\ r.m = BindMessage(r.names), "bind")
     ELSE IF r.k # "bound" THEN {"bind"}
     ELSE IF ~(Vars(x.t) \subseteq names) THEN {}
     ELSE UNION {
            LET vals == e.calls[k]
                n == IF Len(vals) < Len(e.names) THEN Len(vals) ELSE Len(e.names)
                env == FnOf([j \in 1 .. n |-> <<e.names[j], vals[j]>>])
                ev == Eval(x.t, env, cf.ch)
                o == Outcome(x, cf, env, ev, r.rs[k])
            IN (IF o = {} THEN {} ELSE {"bind"}) \cup o
            : k \in DOMAIN e.calls}

RECURSIVE NoNaN(_)
NoNaN(t) ==
  CASE t.k = "num" -> t.v # NaN64
    [] t.k = "var" -> TRUE
    [] t.k = "un" -> NoNaN(t.t)
    [] t.k = "bin" -> NoNaN(t.l) /\ NoNaN(t.r)
    [] t.k = "call" -> \A k \in DOMAIN t.args : NoNaN(t.args[k])

JudgeEq(x, y, cf, e, r) ==
  IF Crashed(r) THEN {"panic", "eq"}
  ELSE LET same == SameTree(x.t, y.t, EqualF)
           exact == ~cf.opt /\ Exact(x) /\ Exact(y)
       IN Tag(r.b = r.c /\ r.ne = ~r.b, "eq")
          \cup (IF exact THEN Tag((NoNaN(x.t) => r.self) /\ (r.b <=> same), "eq")
                ELSE IF x = y /\ x.ex /\ r.self THEN Tag(r.b, "eq") ELSE {})
          \cup (IF r.b /\ ~same
                THEN UNION {
                       LET env == FnOf(e.envs[k])
                           a == Eval(x.t, env, cf.ch)
                           b == Eval(y.t, env, cf.ch)
                       IN Tag(a.r /\ a.f /\ b.r /\ b.f => F64Same(a.v, b.v), "eq")
                       : k \in DOMAIN e.envs}
                ELSE {})

JudgeGet(v, e, r) ==
  LET y == Lookup(v, e.t, e.n)
  IN IF Crashed(r) THEN {"panic", "ctx"}
     ELSE Tag(CASE y.k = "none" -> r.k = "none"
                [] y.k = "var" -> r.k = "var" /\ r.v = y.v
                [] y.k = "fn" -> r.k = "fn" /\ r.n = y.f.n /\ r.a = y.f.a, "ctx")

JudgeGetExp(v, e, r) ==
  LET d == CtxOf(v, e.t).decl
  IN IF Crashed(r) THEN {"panic", "ctx"}
     ELSE Tag(IF d = <<>> THEN r.k = "none"
              ELSE r.k = "set" /\ Range(r.names) = d[1], "ctx")

(* Contexts, and parsers, are equal if they mean the same.  Functions that  *)
(* were made of the same code needn't be equal.                            *)
SameSym(a, b) ==
  IF a.k = "var" /\ b.k = "var" THEN EqualF(a.v, b.v) ELSE a = b
JudgeCtxEq(v, e, r) ==
  LET a == CtxOf(v, e.t)
      b == CtxOf(v, e.u)
      same == /\ DOMAIN a.syms = DOMAIN b.syms
              /\ \A n \in DOMAIN a.syms : SameSym(a.syms[n], b.syms[n])
              /\ a.decl = b.decl
      plain == \A n \in DOMAIN a.syms : a.syms[n].k = "var"
      nan == \E n \in DOMAIN a.syms : a.syms[n].k = "var" /\ a.syms[n].v = NaN64
  IN IF Crashed(r) THEN {"panic", "ctxeq"}
     ELSE Tag(/\ r.b = r.c /\ r.ne = ~r.b /\ r.p
              /\ r.b => same
              /\ (same /\ plain /\ ~nan) => r.b
              /\ ~nan => r.self, "ctxeq")

(* Many threads: each sees what one alone would see.                       *)
JudgePar(v, e, cf, r) ==
  IF Crashed(r) THEN {"panic", "par"}
  ELSE UNION {
    LET job == e.jobs[k]
        rd == Reading(v, cf.mode, e.p, Bytes(job.text))
        seen == r.rs[k]
        env == FnOf(job.env)
        x == [t |-> rd.val, ex |-> TRUE, rr |-> "no"]
        y == [t |-> SubstAll(rd.val, job.b, 1), ex |-> job.b = <<>>]
        rest == [n \in DOMAIN env \ {job.b[j][1] : j \in DOMAIN job.b} |-> env[n]]
    IN IF rd.m = "err"
       THEN Tag(seen # <<>> /\ \A o \in Range(seen) :
                  o.k = "err" /\ o.m = Message(rd.err), "par")
       ELSE IF \E o \in Range(seen) : o.k # "ok" THEN {"par"}
       ELSE LET a == Eval(x.t, env, cf.ch)
                b == Eval(y.t, rest, cf.ch)
            IN UNION {(IF Outcome(x, cf, env, a, o.full) = {} THEN {} ELSE {"par"})
                      \cup (IF Outcome(y, cf, rest, b, o.part) = {} THEN {} ELSE {"par"})
                      : o \in Range(seen)}
               \cup Tag(seen # <<>>, "par")
    : k \in DOMAIN e.jobs}

(* A line of the REPL: an error, or the value, after each of the variables *)
(* that the expression needs was asked for once.                           *)
JudgeLine(e, cf, rd, r) ==
  LET env == FnOf(e.env)
      x == [t |-> rd.val, ex |-> TRUE, rr |-> "no"]
  IN IF rd.m = "err" THEN Tag(r.k = "err" /\ r.m = Message(rd.err), "repl")
     ELSE IF r.k # "ok" THEN {"repl"}
     ELSE LET need == Vars(rd.val)
              asked == Range(r.asked)
          IN Tag(/\ Cardinality(asked) = Len(r.asked)
                 /\ IF cf.opt THEN asked \subseteq need ELSE asked = need
                 /\ asked = Range(r.vars), "repl")
             \cup Tag(need \subseteq DOMAIN env =>
                        ValueOk(x, cf, Eval(rd.val, env, cf.ch), r), "repl")

UsesExpr == {"eval", "probe", "simp", "simp4", "simpself", "bind", "asfn",
             "clone", "reparse", "show"}

(* Does a tree use functions that may differ between toolchains?           *)
RECURSIVE UsesLib(_)
UsesLib(t) ==
  CASE t.k \in {"num", "var"} -> FALSE
    [] t.k = "un" -> UsesLib(t.t)
    [] t.k = "bin" -> t.o = "^" \/ UsesLib(t.l) \/ UsesLib(t.r)
    [] t.k = "call" -> TRUE

(* The clauses that observation r of the operation e by the build c fails. *)
(* ev is the evaluation, for the operations that evaluate.                 *)
Judge(v, e, cf, txt, rd, ev, r) ==
  IF NotRun(r) THEN {}
  ELSE IF e.op \in UsesExpr /\ e.x \notin DOMAIN v.exp THEN {}
  ELSE IF /\ e.op \in UsesExpr /\ v.exp[e.x].rr = "maybe"
          /\ cf.opt \/ ~Exact(v.exp[e.x]) THEN {}
  ELSE CASE e.op = "parse" -> JudgeParse(v, e, cf, txt, rd, r)
         [] e.op = "reparse" -> JudgeReparse(v, e, cf, r)
         [] e.op = "eval" -> JudgeEval(v.exp[e.x], cf, FnOf(e.env), ev, r)
         [] e.op = "probe" -> JudgeProbe(v.exp[e.x], cf, FnOf(e.env), ev, r)
         [] e.op = "show" ->
              IF Crashed(r) THEN {"panic"}
              ELSE Tag(IF cf.opt \/ ~Exact(v.exp[e.x])
                       THEN Range(r.vars) \subseteq Vars(v.exp[e.x].t)
                       ELSE Range(r.vars) = Vars(v.exp[e.x].t), "vars")
         [] e.op \in {"simp", "simpself"} ->
              LET x == v.exp[e.x]
                  t == SubstAll(x.t, e.b, 1)
              IN Simplified(x, t, cf, r)
                 \cup (IF r.k = "ok"
                       THEN Tag(\A k \in DOMAIN r.calls :
                                  <<r.calls[k][1], Len(r.calls[k][2])>> \in Shapes(t),
                                "calls")
                       ELSE {})
         [] e.op = "simp4" ->
              JudgeSimp4(v.exp[e.x], SubstAll(v.exp[e.x].t, e.b, 1), cf, r)
         [] e.op = "clone" ->
              IF Crashed(r) THEN {"panic"}
              ELSE Tag(Range(r.vars) \subseteq Vars(v.exp[e.x].t), "vars")
         [] e.op = "bind" ->
              JudgeBind(v.exp[e.x], cf, e,
                        IF Crashed(r) THEN {} ELSE Range(r.own), r)
         [] e.op = "asfn" ->
              IF Vars(v.exp[e.x].t) \subseteq Range(e.names)
              THEN Tag(r.k = "done", "bind") ELSE {}
         [] e.op = "eq" ->
              IF {e.x, e.y} \subseteq DOMAIN v.exp
              THEN JudgeEq(v.exp[e.x], v.exp[e.y], cf, e, r) ELSE {}
         [] e.op = "get" -> JudgeGet(v, e, r)
         [] e.op = "ctxeq" -> JudgeCtxEq(v, e, r)
         [] e.op = "getexp" -> JudgeGetExp(v, e, r)
         [] e.op = "line" -> JudgeLine(e, cf, rd, r)
         [] e.op = "leave" -> Tag(r.k = "bye" /\ r.code = 0, "repl")
         [] e.op = "par" -> JudgePar(v, e, cf, r)
         [] e.op = "end" -> IF Crashed(r) THEN {"panic", "heap"} ELSE Tag(r.bad = 0 /\ r.kept = 0, "heap")
         [] OTHER -> Tag(r.k = "done", "panic")

Init == /\ s \in DOMAIN Sessions
        /\ i = 0
        /\ w = [m \in Modes |-> EmptyWorld]

Next ==
  /\ i < Len(Sessions[s].ev)
  /\ i' = i + 1
  /\ s' = s
  /\ LET e == Sessions[s].ev[i + 1]
         txt == IF e.op \in {"parse", "line"} THEN Bytes(e.text) ELSE <<>>
         rd == [m \in Modes |->
                  IF e.op = "line" THEN Reading(w[m], m, "", txt)
                  ELSE IF e.op = "parse"
                  THEN Reading(w[m], m, IF e.via = "try_from" THEN "" ELSE e.p, txt)
                  ELSE <<>>]
         tr(m) == w[m].exp[e.x].t
         env == FnOf(e.env)
         has(m) == e.op \in {"eval", "probe"} /\ e.x \in DOMAIN w[m].exp
         evPs == IF has("P") THEN Eval(tr("P"), env, "s") ELSE <<>>
         evPn == IF has("P") /\ UsesLib(tr("P"))
                 THEN Eval(tr("P"), env, "n") ELSE evPs
         alike == has("P") /\ has("J") /\ tr("P") = tr("J")
         evJs == IF alike THEN evPs
                 ELSE IF has("J") THEN Eval(tr("J"), env, "s") ELSE <<>>
         evJn == IF alike THEN evPn
                 ELSE IF has("J") /\ UsesLib(tr("J"))
                 THEN Eval(tr("J"), env, "n") ELSE evJs
         evOf(cf) == IF cf.mode = "P" THEN (IF cf.ch = "s" THEN evPs ELSE evPn)
                     ELSE (IF cf.ch = "s" THEN evJs ELSE evJn)
         bad == {<<c, Judge(w[Cfg(c).mode], e, Cfg(c), txt, rd[Cfg(c).mode],
                            evOf(Cfg(c)), o.r)>>
                 : <<c, o>> \in UNION {{<<c2, o2>> : c2 \in Range(o2.c)} : o2 \in Range(e.o)}}
         rej == {b \in bad : b[2] # {}}
     IN /\ w' = [m \in Modes |-> Apply(w[m], e, rd[m])]
        /\ rej # {} =>
             PrintT("REJECT " \o ToJson([s |-> Sessions[s].id, i |-> i + 1,
                                         bad |-> rej]))

Spec == Init /\ [][Next]_vars
============================================================================
