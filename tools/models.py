"""The models that TLC checks, and the tests that it generates from them.

A model: module, constants (quick, thorough), invariants, temporal properties,
the arithmetic, and what TLC has to find: None (no error) or the names of what
a flawed variant has to violate."""
import os, re, threading, queue
import vlib

LC = ["Lit <- MyLit", "Const <- MyConst"]


class Model:
    def __init__(self, name, module, consts, inv=(), props=(), thorough=None, lite=True, expect=None, deadlock=False, test=None,
                 args=(), only=None, weight=1):
        self.name, self.module, self.consts, self.inv, self.props = name, module, list(consts), list(inv), list(props)
        self.thorough = thorough
        self.lite, self.expect, self.deadlock, self.test, self.args, self.only = lite, expect, deadlock, test, list(args), only
        self.weight = weight


def g(kit, n, gen=False, **kw):
    inv = ["Generated"] if gen else ["Agrees", "Spacing", "RoundTrip", "Labelled", "Arity"]
    return Model(f"grammar-{kit}{'-tests' if gen else ''}", "MC_Grammar", [f"N = {n}", f'Kit = "{kit}"', "GEN = " + str(gen).upper()] + LC,
                 inv, lite=False, test=kit if gen else None, **kw)


def gt(kit, quick, deep):
    return g(kit, quick, thorough=[f"N = {deep}", f'Kit = "{kit}"', "GEN = FALSE"] + LC)


def gx(kit, name, override, expect):
    """A flawed grammar."""
    return Model("grammar-flaw-" + name, "MC_Grammar", ["N = 5", f'Kit = "{kit}"', "GEN = FALSE"] + LC + [override],
                 ["Agrees", "Spacing", "RoundTrip", "Labelled", "Arity"], lite=False, expect=expect)


def lex(kit, n, deep):
    c = lambda k: [f"N = {k}", f'Kit = "{kit}"', "GEN = FALSE"] + LC
    return Model("lex-" + kit, "MC_Lex", c(n), ["Ends", "Denoted", "Munch"], lite=False, thorough=c(deep))


def lexx(kit, name, override, expect):
    return Model("lex-flaw-" + name, "MC_Lex", ["N = 4", f'Kit = "{kit}"', "GEN = FALSE", override] + LC, ["Ends", "Denoted", "Munch"],
                 lite=False, expect=expect)


def lext(kit, n, test):
    return Model("lex-" + kit + "-tests", "MC_Lex", [f"N = {n}", f'Kit = "{kit}"', "GEN = TRUE"] + LC, ["Generated"], lite=False, test=test)


def machine(kit, n, deep):
    c = lambda k: [f"N = {k}", f'Kit = "{kit}"'] + LC
    return Model("machine-" + kit, "MC_Machine", c(n), ["Viable", "Bounded", "Inside", "Label", "Accepted"], ["Terminates"], thorough=c(deep),
                 lite=False, deadlock=True)


def simp(rules, kit="rules", expect=None, thorough=None):
    c = lambda k: [f"Rules <- {rules}", f'Kit = "{k}"', 'Names = {"x", "y"}', "GEN = FALSE"]
    return Model(f"simplify-{rules}-{kit}", "MC_Simplify", c(kit), ["Sound", "Needs", "Folded"], expect=expect,
                 thorough=c(thorough) if thorough else None, weight=2)


def evalm(kit, lazy=False, live=False, thorough=None):
    c = lambda k: [f'Kit = "{k}"', "Lazy = " + str(lazy).upper()]
    return Model(f"eval-{kit}{'-flaw-lazy' if lazy else ''}{'-live' if live else ''}", "MC_Eval", c(kit), ["Value", "Stuck"], ["Ended"] if live else [],
                 expect="Value" if lazy else None, thorough=c(thorough) if thorough else None, weight=2)


def system(alias=False, merge=False, expect=None):
    c = lambda n: [f"N = {n}", "Alias = " + str(alias).upper(), "Merge = " + str(merge).upper(), "GEN = FALSE"] + LC
    return Model("system" + ("-flaw-alias" if alias else "") + ("-flaw-merge" if merge else ""), "MC_System", c(4), ["Lookups", "Expressions"],
                 expect=expect, thorough=None if expect else c(5))


def bindm(how, expect=None):
    return Model("bind-" + how, "MC_Bind", [f'How = "{how}"'] + LC, ["Substituted", "Positions", "Enough"], expect=expect)


def threads(cur=False, scr=False, expect=None):
    c = lambda t: ["Threads = {%s}" % t, "SharedCursor = " + str(cur).upper(), "SharedScratch = " + str(scr).upper()] + LC
    return Model("threads" + ("-flaw-cursor" if cur else "") + ("-flaw-scratch" if scr else ""), "MC_Threads", c("1, 2"), ["Same"], ["Finished"],
                 expect=expect, thorough=None if expect else c("1, 2, 3"))


def own(how, expect=None):
    return Model("ownership-" + how, "MC_Ownership", [f'How = "{how}"', "Nodes = 3"], ["Once", "Alive", "Whole", "Freed"], ["Unchanged"],
                 lite=False, expect=expect, thorough=None if expect else [f'How = "{how}"', "Nodes = 8"])


def eqm(sw, expect=None):
    c = lambda k: ["Swappable <- " + sw, f'Kit = "{k}"']
    return Model("eq-" + sw, "MC_Eq", c("small"), ["Exactly", "Symmetric", "SameValue"], expect=expect, thorough=None if expect else c("deep"))


def repl(flaw, expect=None, n=4):
    c = lambda k: [f"N = {k}", f'Flaw = "{flaw}"'] + LC
    return Model("repl-" + flaw, "MC_Repl", c(n), ["Answers"], [] if flaw == "eof" else ["Ends"], expect=expect, thorough=None if expect else c(5))


def library(lib="TheLib", expect=None):
    c = lambda dense: [f"Lib <- {lib}", "Dense = " + str(dense).upper()]
    return Model("library-" + lib, "MC_Library", c(False), ["Means", "Nans", "Alike"], lite=False, expect=expect, thorough=None if expect else c(True))


def machinex(name, override, expect):
    return Model("machine-flaw-" + name, "MC_Machine", ["N = 3", 'Kit = "text"', override] + LC, ["Viable", "Bounded", "Inside", "Label", "Accepted"],
                 ["Terminates"], lite=False, deadlock=True, expect=expect)


T_OPS, T_JUX, T_ALL, T_CALL = g("ops", 5, True), g("jux", 5, True), g("all", 4, True), g("call", 6, True)
T_LIT, T_NAMES = lext("lit", 4, "lit"), lext("names", 4, "names")
T_RULES = Model("simplify-tests", "MC_Simplify", ["Rules <- AllStable", 'Kit = "rules"', 'Names = {"x", "y"}', "GEN = TRUE"], ["Generated"], test="rules")
T_SYSTEM = Model("system-tests", "MC_System", ["N = 14", "Alias = FALSE", "Merge = FALSE", "GEN = TRUE"] + LC, ["Generated"], test="system",
                 args=["-simulate", "num=400", "-depth", "15", "-seed", str(vlib.SEED)])

FLAW_PREC = gx("ops", "sign", "UnaryPrec <- WrongUnary", "Agrees")
FLAW_DIV = gx("jux", "division", "Prec <- WrongPrec", "Agrees")

FLAW_SPACES = gx("jux", "spaces", "AfterNumber <- WrongAfter", "Spacing")
FLAW_LABEL = gx("call", "label", "Expected <- WrongExpected", "Labelled")
FLAW_ARITY = gx("call", "arity", "CloseCall <- WrongClose", "(Agrees|Arity)")
FLAW_SHOWN = gx("ops", "display", "Shown <- WrongShown", "RoundTrip")
FLAW_STUCK = machinex("stuck", "ReadPost <- StuckPost", "(Bounded|Terminates|Inside|Viable)")
FLAW_END = machinex("end", "Ended <- WrongEnded", "Label")
FLAW_DECLARED = Model("system-flaw-declared", "MC_System", ["N = 5", "Alias = FALSE", "Merge = FALSE", "GEN = FALSE", "Undeclared <- LaxUndeclared"] + LC,
                      ["Lookups", "Expressions"], expect="Expressions")

MODELS = {
    "C01": [T_OPS, T_CALL, machine("text", 4, 5), machine("call", 4, 5), FLAW_STUCK],
    "C02": [T_OPS, T_JUX, T_ALL, gt("ops", 5, 7), gt("jux", 5, 7), FLAW_PREC, FLAW_DIV],
    "C03": [T_LIT, lex("lit", 4, 6), lexx("lit", "exponent", "NumberEnd <- BadEnd", "Ends")],
    "C04": [T_NAMES, lex("names", 4, 6), lexx("names", "digits", "NameEnd <- BadName", "Ends")],
    "C05": [T_CALL, gt("call", 6, 8), FLAW_ARITY],
    "C06": [T_JUX, T_CALL, gt("all", 4, 5), lex("mix", 4, 6), FLAW_SPACES],
    "C07": [T_ALL, T_CALL, T_OPS, gt("all", 4, 5), machine("text", 4, 5), FLAW_LABEL, FLAW_END],
    "C08": [evalm("mid", thorough="deep"), evalm("small", True)],
    "C09": [T_RULES, evalm("small", live=True), simp("AllNightly"), ],
    "C10": [T_RULES, T_ALL, simp("AllStable"), simp("AllNightly", thorough="deep"), simp("Bad1", expect="Sound"), simp("Bad2", expect="Sound"),
            simp("Bad3", expect="Sound")],
    "C11": [T_RULES, simp("AllNightly", thorough="deep"), simp("Bad1", expect="Sound")],
    "C12": [bindm("spec"), bindm("sequence", "Substituted")],
    "C13": [T_SYSTEM, system(), system(alias=True, expect="Lookups"), system(merge=True, expect="Lookups")],
    "C14": [system(), FLAW_DECLARED],
    "C15": [threads(), threads(cur=True, expect="Same"), threads(scr=True, expect="Same")],
    "C16": [T_RULES, T_OPS, T_JUX, gt("ops", 5, 7), FLAW_SHOWN],
    "C17": [eqm("PlusTimes"), eqm("WithMinus", "Exactly"), eqm("JustPlus", "Exactly")],
    "C18": [evalm("small", live=True), library(), library("NaturalLog", "Means"), library("FromFloor", "Means"), library("Swapped", "Means")],
    "C19": [bindm("spec"), bindm("sequence", "Substituted"), bindm("dynamic", "Substituted")],
    "C20": [repl("none"), repl("buffer", "Answers"), repl("drain", "Answers"), repl("twice", "Answers"), repl("eof", "Answers", 2)],
    "C21": [own("swap"), own("copy", "Alive"), own("take", "Whole"), own("leak", "Alive")],
}


def run_model(m, workdir, tier, workers="2"):
    d = os.path.join(workdir, "mc-" + m.name)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, "model.cfg")
    consts = m.thorough if tier == "thorough" and m.thorough else m.consts
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\n")
        if not m.deadlock:
            f.write("CHECK_DEADLOCK FALSE\n")
        if m.lite:
            f.write(vlib.LITE)
        f.write("CONSTANTS\n" + "".join(f"  {c}\n" for c in consts))
        if m.inv:
            f.write("INVARIANTS " + " ".join(m.inv) + "\n")
        if m.props:
            f.write("PROPERTIES " + " ".join(m.props) + "\n")
    if m.test:
        workers = "1"
    r = vlib.tlc(os.path.join(vlib.SPEC, m.module + ".tla"), cfg, d, args=m.args, workers=workers,
                 heap="4g" if tier == "quick" else "10g", timeout=800 if tier == "quick" else 5400)
    r["model"] = m
    if m.expect:
        ok = r["code"] in (12, 13) and re.search(r"(Invariant|Property) " + m.expect + r" is violated", r["out"])
        if not ok:
            raise vlib.ToolError(f"the flawed model {m.name} should violate {m.expect}: {r['code']}\n{r['out'][-3000:]}")
    elif r["code"] != 0:
        lines = [l for l in r["out"].splitlines() if not l.startswith(("Loading", "Parsing", "Semantic", "Linting", '"TEST'))]
        raise vlib.ToolError(f"the model {m.name} fails ({r['code']}):\n" + "\n".join(lines)[-4000:])
    return r


def run_models(models, workdir, tier, parallel=4):
    """Runs the models, some at a time: the results, by name."""
    q = queue.Queue()
    for m in sorted(models, key=lambda m: (0 if m.test else 1, -m.weight)):
        q.put(m)
    out, errs = {}, []

    def work():
        while not errs:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            try:
                out[m.name] = run_model(m, workdir, tier)
            except Exception as e:  # noqa: BLE001
                errs.append(e)

    ts = [threading.Thread(target=work) for _ in range(parallel)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return out


def strings(s):
    """The strings in TLC's notation of a sequence of strings."""
    return [re.sub(r"\\(.)", r"\1", x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', s)]


def tests_of(results):
    """The tests that TLC printed: key -> list."""
    import json
    from gen import H
    tests = {k: [] for k in ("ops", "jux", "all", "call", "lit", "names", "rules", "system")}
    for r in results.values():
        k = r["model"].test
        if not k:
            continue
        seen = set()
        for line in r["out"].splitlines():
            if not line.startswith('"TEST '):
                continue
            t = vlib.unquote(line)[5:]
            if t in seen:
                continue
            seen.add(t)
        if not seen:
            raise vlib.ToolError("no tests from " + r["model"].name)
        for t in sorted(seen):
            if k in ("ops", "jux", "all", "call"):
                tests[k].append(strings(t))
            elif k in ("lit", "names"):
                tests[k].append("".join(strings(t)))
            elif k == "rules":
                tests[k].append(t)
            else:
                tests[k].append(history(json.loads(t), H))
        r["out"] = ""
    return tests


def history(log, H):
    """A history of MC_System as operations."""
    num = lambda v: H(v[0] / v[1])
    out = []
    ctxs, pars = set(), set()
    for e in log:
        e = dict(e)
        k = e["op"]
        if k == "var":
            e.update(v=num(e["v"]), via="set")
        elif k == "fn":
            e.update(how="dyn", via="with")
        elif k == "declare":
            e.update(via="set")
        elif k == "symbols":
            syms = e["syms"] if isinstance(e["syms"], dict) else {}
            e["syms"] = [{"key": n, "k": "var", "v": num(y["v"])} if y["k"] == "var" else
                         {"key": n, "k": "fn", "f": y["f"], "how": "static"} for n, y in syms.items()]
        elif k == "parse":
            e.update(via="parse")
        if k == "ctx" or k == "cclone":
            ctxs.add(e["c"])
        if k in ("parser", "pclone"):
            pars.add(e["p"])
        out.append(e)
        if k == "parse":
            out.append({"op": "eval", "x": "e", "env": [["x", H(7.5)], ["y", H(-1.25)], ["f", H(0.5)], ["sin", H(3.5)]]})
        for n in ("x", "f", "sin"):
            if k in ("var", "fn", "symbols", "cclone", "pclone", "parser"):
                for t in [["c", c] for c in sorted(ctxs)] + [["p", p] for p in sorted(pars)]:
                    out.append({"op": "get", "t": t, "n": n})
        if k in ("declare", "cclone", "parser", "pclone"):
            for t in [["c", c] for c in sorted(ctxs)] + [["p", p] for p in sorted(pars)]:
                out.append({"op": "getexp", "t": t})
    return out
