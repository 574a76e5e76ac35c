"""The workloads: for each property, the sessions that exercise it.

A workload is a function of a random generator, a scale (1 for quick) and the
tests that TLC generated; it returns a Sessions.  An event may carry a note:
  t     only events with this note count, if any event of the workload has it
  base  the indices of earlier events in the session: what is rejected there
        as well isn't this property's concern
"""
import json, re
from gen import *

STD = ["x", "y", "z"]


def mark(e, **kw):
    e["note"] = kw
    return e


def show(x):
    return {"op": "show", "x": x}


def clone(x, y):
    return {"op": "clone", "x": x, "y": y}


def eq(x, y, envs):
    return {"op": "eq", "x": x, "y": y, "envs": envs}


def ctx(c):
    return {"op": "ctx", "c": c}


def declare(t, names, via="set"):
    return {"op": "declare", "t": t, "via": via, "names": list(names)}


def get(t, n):
    return {"op": "get", "t": t, "n": n}


def getexp(t):
    return {"op": "getexp", "t": t}


def ctxeq(t, u):
    return {"op": "ctxeq", "t": t, "u": u}


def cclone(c, t):
    return {"op": "cclone", "c": c, "from": t}


def pclone(p, q):
    return {"op": "pclone", "p": p, "from": q}


def asfn(x, t, n, names, a=None, how="rt"):
    return {"op": "asfn", "x": x, "how": how, "t": t, "n": n, "names": list(names),
            "a": len(names) if a is None else a}


P = ["p", "p"]
HOWS = ["static", "dyn", "m", "md"]


def usual(p="p", hows=("static", "dyn", "m", "md", "static")):
    """The parser whose context MC_Grammar assumes."""
    t = ["p", p]
    return [parser(p), fn(t, "f", 1, "h", hows[0]), fn(t, "g", -1, "h", hows[1]),
            fn(t, "h", 2, "h", hows[2]), fn(t, "z", 0, "h", hows[3]), var(t, "k", 5.0)]


def nice(rng, names=("x", "y", "z")):
    return [[n, H(rng.choice(NICE))] for n in names]


# values that tell groupings and orders apart
SHARP = [["x", H(1.75)], ["y", H(-2.5)], ["z", H(0.625)]]


def sample(rng, items, n):
    items = list(items)
    if len(items) <= n:
        return items
    return rng.sample(items, n)


# ----------------------------------------------------------------------- C01
def deep_texts(n):
    return ["(" * n + "x" + ")" * n, "-" * n + "x", "+" * n + "2", "abs(" * n + "x" + ")" * n,
            "(" * n, ")" * n, "sum(" * n, "max(1," * n + "x" + ")" * n, "(" * n + ")" * n,
            "x" + "(x" * n + ")" * n, "2^" * n + "x", "x-" * n + "x", "x*" * n + "2",
            "1/" * n + "x", "x" + " x" * n, "(x!)" * n, "-(" * n + "1" + ")" * n,
            "hypot(x," * n + "1" + ")" * n, "x^-" * n + "1", "(" * n + "x" + "!)" * n]


def c01(rng, scale, tests):
    S = Sessions()
    use = lambda r: [show("x"), clone("x", "c"), eq("x", "c", []),
                     {"op": "eval", "x": "x", "env": values(r, STD)},
                     {"op": "eval", "x": "x", "env": []},
                     simp4("x", "y", values(r, r.sample(STD, r.choice([0, 1, 2, 3])))),
                     show("y"), bind("x", r.choice(["fixed", "array", "rt"]), r.sample(STD, r.choice([1, 2, 3])),
                                     []), ev("y", values(r, STD)), eq("x", "y", [])]
    texts = []
    st = Style(names=("x", "y", "z", "k", "X1", "ab'_"), consts=("pi", "e"), wrong=0.2,
               calls=("f", "g", "h", "z", "sin", "max", "logn", "gamma", "factorial", "mean"),
               arity={"f": 1, "g": -1, "h": 2, "z": 0})
    for _ in range(900 * scale):
        t = expression(rng, st, rng.choice([1, 2, 3, 5, 8, 13]))
        texts.append(spaced(rng, t, 0.2))
        texts.append(spaced(rng, damage(rng, t), 0.2))
    for _ in range(700 * scale):
        texts.append(noise(rng, rng.choice([1, 1, 2, 3, 4, 6, 10, 30])))
    for c in ODD:
        texts += [c, "1" + c, c + "1", "x" + c, "(" + c, "1+" + c, "sin(" + c + ")", "max(1," + c, "max(1" + c, "sin" + c,
                  "2 " + c, "1e" + c, "1." + c, c + c, "x!" + c, "f()" + c, "." + c]
    texts += ["", " ", "\t\n", "(", ")", "()", ",", "!", "!!", ".", "_", "e", "E", "1e", "1e+", "1e-", "1ee1", "e1", ".e1",
              "1.e1", "._1", "_1", "1__1", "1..", "sin", "sin(", "sin()", "sin)", "max()", "max(,", "max(1,)", "f(", "z()", "z(",
              "1e999", "1e-999", "-1e999", "9" * 400, "." + "0" * 400 + "1", "1e" + "9" * 30, "0" * 300, "1_" * 200 + "1",
              "x" * 3000, "_" * 100, "1" + " " * 3000, " " * 3000 + "x", "170!", "171!", "1e300!", "-1!", "0.5!", "(1e999)!",
              "(-1e999)!", "(0/0)!", "9007199254740993!", "4294967296!", "1e19!", "18446744073709551616!", "3!^2", "x!!!",
              "0^0", "0/0", "1%0", "0%0", "(0/0)^0", "1^(0/0)", "(-8)^(1/3)"]
    for ch in chunks(texts, 8):
        e = usual()
        for t in ch:
            e += [parse(t)] + use(rng)
        S.add(e + [END], "texts")
    for t in tests["ops"][:: max(1, 12 // scale)] + tests["call"][:: max(1, 12 // scale)]:
        pass
    for ch in chunks([tight(t) for t in sample(rng, tests["ops"] + tests["call"], 2500 * scale)], 40):
        S.add(usual() + [parse(t) for t in ch], "generated")
    # declared variables, odd contexts
    for _ in range(40 * scale):
        e = usual() + [declare(P, rng.sample(STD, rng.choice([0, 1, 2])))]
        e += [fn(P, rng.choice(["x", "e", "sin", "q"]), rng.choice([-1, 0, 1, 2, 255]), rng.choice("hcdbz"), rng.choice(HOWS)),
              var(P, rng.choice(["max", "pi", "y", "t"]), rng.choice(SPECIAL))]
        for _ in range(6):
            e += [parse(spaced(rng, expression(rng, st, rng.choice([1, 3, 6]))))] + use(rng)[:5]
        S.add(e + [END], "contexts")
    # nesting that has to work, and lengths
    for n in (30, 200, 500):
        for t in deep_texts(n):
            S.add([parser(), parse(t), show("x"), clone("x", "c"), {"op": "eval", "x": "x", "env": [["x", H(1.25)]]},
                   simp("x", "y", "multi", [["x", H(0.5)]]), END], "deep")
    return S


# ----------------------------------------------------------------------- C02
def groupings(rng, S, tests, n, kind, setup, vals):
    for ch in chunks(sample(rng, tests, n), 30):
        e = list(setup)
        for t in ch:
            e += [parse(tight(t)), ev("x", vals)]
        S.add(e, kind)


def c02(rng, scale, tests):
    S = Sessions()
    setup = usual()
    for kind in ("ops", "jux", "all"):
        groupings(rng, S, tests[kind], 6000 * scale, kind, setup, SHARP)
    styles = [Style(names=("x", "y", "z"), consts=("pi",), calls=("abs", "hypot", "g", "z"), arity={"g": -1, "z": 0}),
              Style(names=("x", "y", "z"), consts=(), calls=(), implicit=0.4, unary=0.05, paren=0.25, ops="^/*^"),
              Style(names=("x", "y", "z"), consts=(), calls=(), implicit=0.05, unary=0.3, fact=0.15, paren=0.1, ops="+-*/%^"),
              Style(names=("x", "y"), consts=("e",), calls=("max", "sum", "h"), arity={"h": 2}, call=0.3, paren=0.3,
                    implicit=0.25, fact=0.1)]
    for k in range(120 * scale):
        e = list(setup)
        for _ in range(12):
            t = expression(rng, rng.choice(styles), rng.choice([2, 3, 4, 5, 7, 10, 16, 30]))
            e.append(parse(tight(t)))
            e += [ev("x", SHARP), ev("x", nice(rng))]
        S.add(e, "random")
    # one missing, doubled or foreign token
    for k in range(60 * scale):
        e = list(setup)
        for _ in range(20):
            t = damage(rng, expression(rng, rng.choice(styles), rng.choice([2, 3, 5, 8])))
            e += [parse(tight(t)), ev("x", SHARP)]
        S.add(e, "damaged")
    # long chains of one or two operators
    for a in "+-*/%^":
        for b in "+-*/%^":
            e = list(setup)
            for n in (3, 6, 12):
                for _ in range(2):
                    t = ["x"]
                    for i in range(n):
                        t += [rng.choice([a, b]), rng.choice(["x", "y", "2", "3", "-1", "z", "(x)", "x!"][:6])]
                    e += [parse(tight(t)), ev("x", SHARP)]
            S.add(e, "chains")
    return S


# ----------------------------------------------------------------------- C03
def c03(rng, scale, tests):
    S = Sessions()
    texts = list(tests["lit"])
    hard = ["0.1", "0.3", "2.2250738585072011e-308", "2.2250738585072014e-308", "4.9e-324", "2.4703282292062327e-324",
            "2.4703282292062328e-324", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308",
            "1e308", "1e309", "1e-400", "9007199254740993", "9007199254740992.5", "9007199254740993.0000000000000001",
            "9007199254740991.5", "18014398509481985", "18014398509481987", "36893488147419103233",
            "123456789012345678901234567890", "0.000000000000000000000000000000000000000000001",
            "1.00000000000000011102230246251565404236316680908203125", "1.00000000000000011102230246251565404236316680908203124",
            "1.00000000000000011102230246251565404236316680908203126", "8.5", "4503599627370496.5", "4503599627370497.5",
            "6.02214076e23", "1e22", "1e23", "8.41e21", "9.5e-3", "7.3879e-20", "5e-1", "1e-5", "3.14159265358979323846",
            "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880",
            "1" + "0" * 308, "1" + "0" * 309, "0." + "0" * 330 + "1", "1_000_000.000_1", "1e+05", "1E-05", "1e0", "1e00000000001",
            "000000000000000000000000000000000001", "0.0e5", "0e999", "5e-324", "3e-324", "1.e1", ".5e1", "1._5", "_", "1_", "1_e1_",
            "1e1_0", "1e_1", "1_.5", "1._", "2_._e3"]
    texts += hard
    for _ in range(2500 * scale):
        l = literal(rng)
        texts.append(l)
        r = rng.random()
        if r < 0.25:
            texts.append(rng.choice(["-", "2*", "x*", "(", "-(", "x", "x^"]) + l + rng.choice(["", "e", "e+", "e-1", "E", ".", "_", "..", "x", "!", "e1", "(2)", " 2", ")"]))
        elif r < 0.35:
            k = rng.randrange(len(l) + 1)
            texts.append(l[:k] + rng.choice([" ", "\t", ".", "_", "e", "E", "+", "-", "1", "é"]) + l[k:])
    for _ in range(600 * scale):
        # many digits, with exponents of all sizes
        n = rng.choice([15, 16, 17, 18, 19, 20, 21, 25, 40, 80])
        d = "".join(rng.choice("0123456789") for _ in range(n))
        k = rng.randrange(n + 1)
        texts.append(d[:k] + "." + d[k:] + rng.choice(["e", "E"]) + str(rng.choice([rng.randrange(-345, 320), rng.randrange(-30, 30)])))
    for _ in range(400 * scale):
        x = abs(bits(rng))
        if x != float("inf"):
            texts += [repr(x), "%.17e" % x, "%.16e" % x]
    for _ in range(300 * scale):
        # sequences of numbers and names
        t = [rng.choice(["1", "2.5", ".5", "3.", "1e2", "e", "E1", "x", "_1", "(2)", "pi", "e2", "x2"]) for _ in range(rng.choice([2, 2, 3, 4]))]
        texts.append(rng.choice(["", " ", "  "]).join(t))
    for ch in chunks(texts, 25):
        e = [parser()]
        for t in ch:
            e += [parse(t), ev("x", [["x", H(1.0)], ["E", H(3.0)], ["E1", H(5.0)], ["e2", H(7.0)], ["x2", H(11.0)]])]
        S.add(e, "literals")
    return S


# ----------------------------------------------------------------------- C04
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def names_pool(rng):
    base = UNARY + BINARY + VARIADIC + ["pi", "e", "E", "PI", "Pi", "Sin", "SIN", "ln2", "log10", "max2", "e2", "e1", "pie", "epi", "sinx",
                                        "xsin", "x", "y", "xy", "x'", "x''", "x_", "x_1", "x1", "x2y", "X", "a", "b", "f", "F", "g'", "h_",
                                        "E1", "e_", "e'", "pi'", "pi2", "sinh", "asinh", "atan2", "atan", "atan22", "absolute", "n", "m",
                                        "z" * 80, "q" * 300, "A1b2C3_'", "O0", "l1I"]
    r = rng.random()
    if r < 0.75:
        return rng.choice(base)
    return rng.choice(LETTERS) + "".join(rng.choice(LETTERS + "0123456789_'") for _ in range(rng.choice([0, 1, 2, 3, 6, 12])))


def all_vals(rng, names):
    return [[n, H(rng.choice(NICE))] for n in dict.fromkeys(names)]


def c04(rng, scale, tests):
    S = Sessions()
    for k in range(220 * scale):
        names = [names_pool(rng) for _ in range(7)]
        e = [parser()]
        ar = {}
        for n in rng.sample(names, rng.choice([0, 1, 2, 3, 4])):
            if rng.random() < 0.5:
                a = rng.choice([-1, 0, 1, 2, 3])
                e.append(fn(P, n, a, rng.choice("hhcd"), rng.choice(HOWS)))
                ar[n] = a
            else:
                e.append(var(P, n, rng.choice(NICE)))
                ar.pop(n, None)
        known = [n for n in dict.fromkeys(names)]
        if rng.random() < 0.25:
            # what a name stands for doesn't depend on what is declared
            e.append(declare(P, [n for n in known + ["pi", "e", "sin", "max"] if rng.random() < 0.8], rng.choice(["set", "with"])))
        for _ in range(14):
            r = rng.random()
            n, m = rng.choice(known), rng.choice(known)
            if r < 0.3:
                t = rng.choice([n, n + "(" + m + ")", n + " (" + m + ")", n + "()", n + "(1,2)", n + " " + m, n + "*" + m, n + "2",
                                "2" + n, "2" + n + "(3)", n + "\t(\n" + m + ",2)", n + "^2", n + "!", "-" + n, n + "'", n + "_",
                                n + m, m + n, n.upper(), n.capitalize(), n.lower(), n.swapcase(), n + "." + m, n + "-" + m, "(" + n + ")(" + m + ")",
                                n + "é", "_" + n, "'" + n, "1e" + n, "2 " + n + " 3", n + " 2", n + " .5", "(" + n + ")", n + "(" + m + ")(2)"])
            else:
                st = Style(names=known, consts=("pi", "e"), calls=tuple(ar) + ("sin", "max", "hypot"), arity=ar, implicit=0.3, call=0.2,
                           wrong=0.08, num=number)
                t = spaced(rng, expression(rng, st, rng.choice([1, 2, 3, 4, 6])), 0.15)
            e += [parse(t), ev("x", all_vals(rng, known + [n + m, m + n, n + "2", n + "'", n + "_", n.upper(), n.capitalize(), n.lower(), n.swapcase()]))]
        S.add(e, "names")
    for ch in chunks(tests["names"], 30):
        e = [parser(), var(P, "a", 1.25), fn(P, "aa", -1, "h"), var(P, "e", -3.5), fn(P, "A", 1, "d")]
        for t in ch:
            e += [parse(t), ev("x", [[n, H(v)] for n, v in zip(["b", "ab", "ba", "bb", "a1", "b1", "B", "aB", "Ba"], NICE)])]
        S.add(e, "generated")
    # every built-in name, and its neighbours
    for n in UNARY + BINARY + VARIADIC + ["pi", "e"]:
        e = [parser()]
        for t in [n, n + "(1)", n + "(1,2)", n + "(1,2,3)", n + "()", n + " (2)", n + "x", "x" + n, n + "1", n + "'", n.upper() + "(2)", n[:-1] + "(2)",
                  n.capitalize() + " 2", "2" + n, n + n, n + "_(2)"]:
            e += [parse(t), ev("x", all_vals(rng, [n + "x", "x" + n, n + "1", n + "'", n.upper(), n[:-1], n.capitalize(), n + n, n + "_"]))]
        # declared
        e += [declare(P, [n, "x", "y", n + "'"], rng.choice(["set", "with"]))]
        for t in [n, n + "(2)", n + "(2,3)", "2" + n, n + " x", n + "'", n + "(x)"]:
            e += [parse(t), ev("x", SHARP + [[n + "'", H(1.5)], [n, H(0.75)]])]
        # redefined
        e += [var(P, n, 2.5)]
        for t in [n, n + "(2)", "2" + n, n + " x"]:
            e += [parse(t), ev("x", SHARP)]
        e += [fn(P, n, 2, "h")]
        for t in [n, n + "(2,3)", n + "(2)", "2" + n + "(x,y)"]:
            e += [parse(t), ev("x", SHARP)]
        S.add(e, "built-ins")
    return S


# ----------------------------------------------------------------------- C05
def c05(rng, scale, tests):
    S = Sessions()
    for hows in (("static",) * 5, ("dyn",) * 5, ("m",) * 5, ("md",) * 5):
        groupings(rng, S, tests["call"], 900 * scale, "call", usual(hows=hows), SHARP)
    arities = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 31, 100, 127, 128, 200, 254, 255, -1]
    for a in arities:
        for how in HOWS + ["mdn", "mn"]:
            # without a name, the macro takes the identifier
            u = "horner" if how in ("mn", "mdn") and a == -1 else "h%d" % a if how == "mdn" and a < 10 else "u"
            e = [parser(), fn(P, u, a, "h", how), fn(P, "v", rng.choice([1, 2, -1]), "c", rng.choice(HOWS))]
            ns = {max(0, a + d) for d in (-2, -1, 0, 1, 2)} if a >= 0 else {0, 1, 2, 3, 5, 9, 17, 64, 255, 256, 257, 300}
            if a in (0, 1, 2, 12, 255):
                ns |= {256, 257, 258, 256 + a, 512 + a}
            for n in sorted(ns):
                args = [rng.choice(["1", "2", "3", "x", "y", "-x", "x+y", "2*y", "0.5", "x^2", "7"]) for _ in range(n)]
                e += [parse(u + "(" + ",".join(args) + ")"), ev("x", SHARP)]
            S.add(e, "arity")
    st = Style(names=("x", "y"), consts=(), calls=("u", "v", "w", "max", "atan2", "logn", "sqrt", "sum"), call=0.45, wrong=0.12, paren=0.05)
    for k in range(150 * scale):
        ar = {"u": rng.choice([0, 1, 2, 3, 4, 5, 9]), "v": rng.choice([1, 2, 3, 6, 7, 8]), "w": -1}
        st.arity.update(ar)
        e = [parser()] + [fn(P, n, a, rng.choice("hhcd"), rng.choice(HOWS)) for n, a in ar.items()]
        for _ in range(10):
            t = expression(rng, st, rng.choice([2, 4, 8, 14]))
            e += [parse(tight(t)), ev("x", SHARP), ev("x", nice(rng))]
        S.add(e, "calls")
    for n in BINARY + VARIADIC + UNARY:
        e = [parser()]
        for k in range(6):
            e += [parse(n + "(" + ",".join(rng.sample(["x", "y", "z", "2", "0.5", "3"], k)) + ")"), ev("x", [["x", H(0.3)], ["y", H(2.25)], ["z", H(0.75)]])]
        S.add(e, "built-ins")
    return S


# ----------------------------------------------------------------------- C06
def c06(rng, scale, tests):
    S = Sessions()
    setup = usual()
    st = Style(names=("x", "y", "k", "e1"), calls=("f", "g", "h", "z", "max", "sin"), arity={"f": 1, "g": -1, "h": 2, "z": 0}, call=0.2,
               wrong=0.05, implicit=0.3)
    vals = nice(rng, ("x", "y", "e1"))
    toks = []
    for _ in range(700 * scale):
        t = expression(rng, st, rng.choice([1, 2, 3, 5, 8]))
        toks.append(t if rng.random() < 0.75 else damage(rng, t))
    toks += sample(rng, tests["jux"], 500 * scale) + sample(rng, tests["call"], 500 * scale)
    ws = [" ", "\t", "\n", "\f", "\r"]
    for ch in chunks(toks, 4):
        e = list(setup)
        for t in ch:
            b = len(e)
            e += [parse(tight(t)), ev("x", vals)]
            texts = [spaced(rng, t, 0.5), spaced(rng, t, 1.0)]
            w = rng.choice(ws)
            texts.append(w.join(t))                         # one kind everywhere
            k = rng.randrange(len(t) + 1) if t else 0       # or in one place
            texts.append(tight(t[:k]) + rng.choice(ws) * rng.choice([1, 1, 2, 300]) + tight(t[k:]))
            for x in texts:
                e += [mark(parse(x), t=1, base=[b]), mark(ev("x", vals), t=1, base=[b, b + 1])]
        S.add(e, "spaces")
    # within a token, whitespace separates
    for _ in range(60 * scale):
        e = list(setup)
        for _ in range(8):
            t = rng.choice(["12", "1.5", "1e5", "1e-5", "12.25", "xy", "max(1)", "pi", "e1", "x1", "sin(2)", "1_0", ".5", "1.", "2E+3"])
            k = rng.randrange(1, len(t)) if len(t) > 1 else 1
            x = t[:k] + rng.choice(ws) + t[k:]
            e += [mark(parse(x), t=1, base=[]), mark(ev("x", vals + nice(rng, ("p", "i", "s", "in", "m", "ax", "ma", "x"))), t=1, base=[])]
        S.add(e, "inside")
    return S


# ----------------------------------------------------------------------- C07
def c07(rng, scale, tests):
    S = Sessions()
    setup = usual()
    texts = [tight(t) for t in sample(rng, tests["all"], 2500 * scale) + sample(rng, tests["call"], 1500 * scale)
             + sample(rng, tests["ops"], 1000 * scale)]
    st = Style(names=("x", "k"), calls=("f", "g", "h", "z", "sin", "max"), arity={"f": 1, "g": -1, "h": 2, "z": 0}, call=0.3, wrong=0.2)
    for _ in range(1200 * scale):
        t = damage(rng, expression(rng, st, rng.choice([1, 2, 3, 5, 9])))
        texts.append(spaced(rng, t, rng.choice([0, 0.3])))
    for c in ODD:
        for ctxt in ["%s", "1%s", "1+%s", "x %s", "(%s", "(1%s", "sin%s", "sin(%s", "max(1%s", "max(1,%s", "x!%s", "  %s  ", "é%s", "1.2%s3",
                     "max(é%s)", "(x)%s", "2^%s", "\t%sx", "f(2,%s)", "h(%s,1)", "1..2%s", "-%s", "x!! %s", "é", "1_%s", "f(x) %s", "z(%s)"]:
            texts.append(ctxt.replace("%s", c))
    for ch in chunks(texts, 40):
        S.add(list(setup) + [parse(t) for t in ch], "errors")
    for _ in range(30 * scale):
        e = list(setup) + [declare(P, rng.sample(["x", "y", "zé"[:1]], rng.choice([0, 1])))]
        for _ in range(20):
            e.append(parse(spaced(rng, expression(rng, Style(names=("x", "y", "w", "long_name'"), calls=("f", "max"), arity={"f": 1}), rng.choice([1, 2, 4])), 0.2)))
        S.add(e, "declared")
    return S


# ----------------------------------------------------------------------- C08
def c08(rng, scale, tests):
    S = Sessions()
    sp = SPECIAL + [-1.5, 1e-300, 2.0 ** 53, -170.5, 3.0000000000000004, 1e-8]
    for o in "+-*/%^":
        pairs_ = [(a, b) for a in sp for b in sp]
        for ch in chunks(pairs_, 60):
            e = [parser(), parse("x" + o + "y")]
            e += [ev("x", [["x", H(a)], ["y", H(b)]]) for a, b in ch]
            S.add(e, "operators")
    for t in ["-x", "+x", "x!", "-x!", "(-x)!", "x^2", "x^3", "x^-1", "x^0.5", "x^0", "2^x", "10^x", "0^x", "1^x", "x%1", "x%2", "x%-3", "5.5%x",
              "1/x", "0/x", "x/0", "x*0", "x-x", "x+x", "x/x", "x%x", "x^x", "x*x", "--x", "-(-x)", "-(0)", "0*-x", "-0*x", "0-x", "-x-0", "x+0",
              "x*1", "x/1", "x-0", "1*x", "x*-1", "x/-1", "x^1", "2x", "x x", "x(x)", "x!^x", "2-x", "abs(-x)", "min(x,0)", "max(0,x)", "sum(x,-x)"]:
        e = [parser(), parse(t)]
        for v in sp + [float(n) for n in range(-3, 25)] + [bits(rng) for _ in range(12)]:
            e.append(ev("x", [["x", H(v)]]))
        S.add(e, "unary")
    for _ in range(60 * scale):
        o = rng.choice("+-*/%^")
        e = [parser(), parse("x" + o + "y")]
        for _ in range(40):
            a, b = bits(rng), bits(rng)
            if rng.random() < 0.5:
                a, b = rng.uniform(-50, 50), rng.choice([rng.uniform(-9, 9), float(rng.randrange(-20, 20)), rng.randrange(-20, 20) / 2])
            e.append(ev("x", [["x", H(a)], ["y", H(b)]]))
        S.add(e, "any")
    st = [Style(names=("x", "y", "z"), wrong=0, calls=("sin", "exp", "ln", "sqrt", "max", "mean", "hypot", "atan2", "floor", "gamma", "g"), arity={"g": -1}),
          Style(names=tuple("abcdefghijklmnopqrstuvw"), consts=(), calls=(), numw=0.1),
          Style(names=(), consts=("pi", "e"), numw=1.0, calls=("cos", "log", "sum", "recip"))]
    for _ in range(130 * scale):
        s = rng.choice(st)
        e = usual()
        for _ in range(6):
            e.append(parse(tight(expression(rng, s, rng.choice([2, 4, 7, 12, 25, 60])))))
            if s.names:
                vs = [values(rng, s.names, q) for q in (0.0, 0.3, 0.8)]
                e += [ev("x", v) for v in vs] + [ev("x", vs[0])]
            else:
                e += [ev("x", []), ev("x", [])]
        S.add(e, "expressions")
    return S


# ----------------------------------------------------------------------- C09
RULEY = ["0", "1", "2", "-1", "x", "y", "(-x)", "(x-x)", "(y*0)", "x!", "0.0", "(2-1)", "(1-1)", "(x/x)", "(x-y)", "z"]


def ruley(rng, depth=2):
    """Expressions that the simplification rules apply to."""
    if depth == 0 or rng.random() < 0.25:
        return rng.choice(RULEY)
    r = rng.random()
    if r < 0.12:
        return "(-" + ruley(rng, depth - 1) + ")"
    if r < 0.2:
        return rng.choice(["abs", "sum", "sqrt", "floor"]) + "(" + ruley(rng, depth - 1) + ")"
    if r < 0.26:
        return rng.choice(["max", "hypot", "sum"]) + "(" + ruley(rng, depth - 1) + "," + ruley(rng, depth - 1) + ")"
    a = ruley(rng, depth - 1)
    b = a if rng.random() < 0.2 else ruley(rng, depth - 1)
    return "(" + a + rng.choice("+-*/%^") + b + ")"


def c09(rng, scale, tests):
    S = Sessions()
    st = Style(names=("x", "y", "z", "w1", "a'"), calls=("abs", "max", "sum", "hypot", "g", "z0"), arity={"g": -1, "z0": 0})
    allnames = ["x", "y", "z", "w1", "a'", "k"]
    setup = [parser(), fn(P, "g", -1, "h"), fn(P, "z0", 0, "c"), var(P, "k", 5.0)]
    for _ in range(330 * scale):
        e = list(setup)
        for _ in range(5):
            t = tight(expression(rng, st, rng.choice([1, 2, 3, 5, 8, 14]))) if rng.random() < 0.55 else ruley(rng, rng.choice([1, 2, 3]))
            vs = values(rng, allnames, 0.1)
            e += [parse(t), probe("x", vs), show("x"), probe("x", values(rng, rng.sample(allnames, 3), 0.1)), clone("x", "c"), probe("c", vs)]
            b = values(rng, rng.sample(allnames, rng.choice([1, 1, 2])), 0.4)
            e += [simp("x", "y", rng.choice(["one", "inplace", "multi", "multiinplace"]), b), probe("y", vs), show("y"),
                  probe("y", [v for v in vs if v[0] not in [c[0] for c in b]])]
            b2 = values(rng, rng.sample(allnames, 1), 0.4)
            e += [simpself("y", rng.choice(["inplace", "multi"]), b2), probe("y", vs), show("y")]
        S.add(e, "probes")
    for ch in chunks(sample(rng, tests["rules"], 1500 * scale), 12):
        e = [parser(), fn(P, "c", -1, "c"), fn(P, "d", -1, "d")]
        for t in ch:
            e += [parse(t), probe("x", [["x", H(1.5)], ["y", H(2.5)]]), simp("x", "y", "one", [["x", H(rng.choice([0.0, 1.0, 2.0, -1.0]))]]),
                  probe("y", [["y", H(2.5)]])]
        S.add(e, "rules")
    return S


# ----------------------------------------------------------------------- C10
RVALS = [[a, b] for a in (0.0, 1.0, -2.0, 0.5, 3.25) for b in (0.0, 1.0, -2.0, 0.5, 1.75)]


def c10(rng, scale, tests):
    S = Sessions()
    setup = [parser(), fn(P, "c", -1, "c"), fn(P, "d", -1, "d"), fn(P, "g", -1, "h"), var(P, "k", 5.0)]
    for ch in chunks(sample(rng, tests["rules"], 6000 * scale), 12):
        e = list(setup)
        for t in ch:
            e.append(parse(t))
            e += [ev("x", [["x", H(a)], ["y", H(b)]]) for a, b in [(1.75, -2.5)] + rng.sample(RVALS, 2)]
        S.add(e, "rules")
    for _ in range(260 * scale):
        e = list(setup)
        for _ in range(6):
            r = rng.random()
            t = ruley(rng, rng.choice([1, 2, 2, 3, 4])) if r < 0.6 else tight(expression(rng, Style(
                names=("x", "y", "k"), calls=("abs", "sum", "g", "max", "c"), arity={"g": -1, "c": -1}, numw=0.6), rng.choice([2, 4, 7, 12])))
            e.append(parse(t))
            e += [ev("x", values(rng, ["x", "y", "z"], q)) for q in (0.0, 0.3, 0.9)]
        S.add(e, "random")
    # without variables: a single number
    st = Style(names=("k",), consts=("pi", "e"), numw=0.8, calls=("abs", "sum", "g", "max", "sin", "exp", "recip", "mean", "min", "d"),
               arity={"g": -1, "d": -1}, fact=0.1)
    for _ in range(150 * scale):
        e = list(setup)
        for _ in range(10):
            e += [parse(tight(expression(rng, st, rng.choice([1, 2, 3, 5, 9])))), ev("x", [])]
        S.add(e, "constants")
    for o in "+-*/%^":
        for ch in chunks([(a, b) for a in ("0", "1", "2", "-1", "0.5", "(0/0)", "(1/0)", "(-1/0)", "(-0)", "3") for b in
                          ("0", "1", "2", "-1", "0.5", "(0/0)", "(1/0)", "(-1/0)", "(-0)", "3")], 25):
            e = [parser()]
            for a, b in ch:
                e += [parse(a + o + b), ev("x", []), parse("x" + o + b), ev("x", [["x", H(2.0)]]), ev("x", [["x", H(-0.5)]]),
                      parse(a + o + "x"), ev("x", [["x", H(2.0)]]), ev("x", [["x", H(1.5)]]),
                      parse("(x" + o + a + ")" + rng.choice("+-*/%^") + b), ev("x", [["x", H(2.5)]]),
                      parse("(x" + o + a + ")" + o + b), ev("x", [["x", H(-1.25)]]), ev("x", [["x", H(3.0)]])]
            S.add(e, "numbers")
    # the same inputs are accepted, with the same errors
    for ch in chunks(sample(rng, tests["all"], 1000 * scale), 40):
        S.add(usual() + [z for t in ch for z in (parse(tight(t)), ev("x", SHARP))], "accepted")
    return S


# ----------------------------------------------------------------------- C11
def c11(rng, scale, tests):
    S = Sessions()
    setup = [parser(), fn(P, "c", -1, "c"), fn(P, "d", -1, "d"), fn(P, "g", -1, "h"), var(P, "k", 5.0)]
    names = ["x", "y", "z"]
    hows = ["one", "inplace", "multi", "multiinplace"]

    def one(e, t, q):
        vs = values(rng, names, q)
        b0 = len(e)
        e += [parse(t), ev("x", vs)]
        base = [b0, b0 + 1]
        order = rng.sample(vs, rng.choice([0, 1, 1, 2, 2, 3]))
        binds = list(order)
        if rng.random() < 0.3 and binds:        # given twice: the first counts
            n = rng.choice(binds)[0]
            binds.append([n, H(9.75)])
        if rng.random() < 0.3:                  # a name that doesn't occur
            binds.insert(rng.randrange(len(binds) + 1), ["unused", H(3.5)])
        if rng.random() < 0.15:                 # many, again and again
            given = [b[0] for b in order]
            binds += [[rng.choice(given + given + ["unused", "other", "k", "c", "g", "X"]), H(rng.choice([-3.5, 0.0, 1.0, 2.25, 50.0, -0.0]))] for _ in range(rng.choice([2, 5, 9, 20]))]
            if rng.random() < 0.5:
                rng.shuffle(binds)
        rest = [v for v in vs if v[0] not in [b[0] for b in order]]
        e += [mark(simp("x", "y", rng.choice(hows), binds), t=1, base=base), mark(ev("y", rest), t=1, base=base)]
        e += [mark(ev("y", vs), t=1, base=base)]
        if rng.random() < 0.5:
            # one after the other, in any order
            e += [mark(clone("x", "s"), t=1, base=base)]
            for b in binds:
                e += [mark(simpself("s", rng.choice(["inplace", "multi"]), [b]), t=1, base=base)]
            e += [mark(ev("s", rest), t=1, base=base)]
        e += [mark(simp4("x", "w", binds), t=1, base=base), mark(ev("w", rest), t=1, base=base)]
        # the original is as it was
        e += [mark(ev("x", vs), t=1, base=base), mark(show("x"), t=1, base=base)]

    for ch in chunks(sample(rng, tests["rules"], 900 * scale), 6):
        e = list(setup)
        for t in ch:
            one(e, t, 0.5)
        S.add(e, "rules")
    st = Style(names=tuple(names) + ("k",), calls=("abs", "sum", "g", "max", "hypot"), arity={"g": -1})
    for _ in range(330 * scale):
        e = list(setup)
        for _ in range(5):
            t = ruley(rng, rng.choice([1, 2, 3, 4])) if rng.random() < 0.5 else tight(expression(rng, st, rng.choice([2, 4, 7, 12])))
            one(e, t, rng.choice([0, 0.4]))
        S.add(e, "random")
    return S


# ----------------------------------------------------------------------- C12
def c12(rng, scale, tests):
    S = Sessions()
    pool = ["x", "y", "z", "a", "b1", "c'", "d_e", "w", "t", "u", "v", "q"]
    exprs = lambda ns: " + ".join("%d*%s^%d" % (i + 2, n, 1 + i % 2) for i, n in enumerate(ns)) if ns else "2+3"
    for k in range(230 * scale):
        e = [parser()]
        for _ in range(3):
            m = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 9])
            used = rng.sample(pool, m)
            t = exprs(used) if rng.random() < 0.6 else tight(expression(rng, Style(names=tuple(used) or ("x",)), rng.choice([2, 4, 8])))
            e.append(parse(t))
            for _ in range(5):
                r = rng.random()
                if r < 0.45:      # enough
                    names = used + rng.sample([p for p in pool if p not in used], rng.choice([0, 0, 1, 2]))
                elif r < 0.75:    # one or more missing
                    names = rng.sample(used, max(0, m - rng.choice([1, 1, 2, 3])))
                    names += rng.sample([p for p in pool if p not in used], rng.choice([0, 1, 3]))
                else:
                    names = rng.sample(pool, rng.choice([0, 1, 2, 3, 9, 12]))
                rng.shuffle(names)
                how = rng.choice(["fixed", "array", "rt"])
                n = len(names)
                vals = [[rng.choice(NICE) for _ in range(n)] for _ in range(2)]
                if (how == "fixed" and 1 <= n <= 9) or (how == "array" and n in (0, 1, 2, 3, 4, 5, 6, 9, 12)):
                    calls = vals
                else:
                    how = "rt"
                    calls = vals + [[1.5] * (n + 1), [1.5, 2.5, 0.25] * 5, vals[0][:-1], vals[0][:1], []]
                e.append(bind("x", how, names, calls))
        S.add(e, "bind")
    # every number of names, for each way to bind; every position matters
    for n in range(1, 10):
        for m in range(0, n + 1):
            e = [parser()]
            names = pool[:n]
            used = rng.sample(names, m)
            e.append(parse(exprs(used)))
            v = [float(2 ** i) + 0.5 for i in range(n)]
            for how in ("fixed", "array", "rt"):
                if how == "array" and n in (7, 8):
                    continue
                e += [bind("x", how, names, [v, v[::-1]]), bind("x", how, names[::-1], [v])]
                # one name missing, several missing
                for lack in (1, 2, 4):
                    if m >= lack:
                        less = [q for q in names if q not in used[:lack]]
                        if less and not (how == "array" and len(less) in (7, 8)):
                            e += [bind("x", how, less, [])]
            S.add(e, "positions")
    # simplified first: what was bound isn't needed
    for _ in range(60 * scale):
        e = [parser()]
        for _ in range(4):
            used = rng.sample(pool, rng.choice([1, 2, 3, 4]))
            e += [parse(exprs(used)), simp("x", "y", "multi", [[used[0], H(2.5)]])]
            names = used[1:] + rng.choice([[], ["n1"]])
            rng.shuffle(names)
            e += [bind("y", "rt", names, [[1.5] * len(names)]), bind("y", "rt", used, [[0.5 * i for i in range(len(used))]])]
            if len(used) > 2:
                e += [bind("y", "fixed", used[:1], [[1.0]]), bind("y", "rt", used[2:], [])]
        S.add(e, "simplified")
    return S


# ----------------------------------------------------------------------- C13
STRANGE = [NAN, INF, -INF, 0.0, -0.0, 5e-324, -1e-310, 1.7976931348623157e308, 2.0 ** 53 + 2, 0.1, 1e-9]


def history(rng, S, n, declared):
    names = ["x", "y", "f", "g", "sin", "max", "pi", "e", "t'"]
    ctxs, pars, exps = [], [], []
    e = []
    for step in range(n):
        r = rng.random()
        tgt = rng.choice([["c", c] for c in ctxs] + [["p", p] for p in pars] or [None])
        if not ctxs or r < 0.06:
            c = rng.choice(["c1", "c2", "c3"])
            e.append(ctx(c))
            ctxs = sorted(set(ctxs) | {c})
        elif not pars or r < 0.14:
            p = rng.choice(["p1", "p2", "p3"])
            e.append(parser(p, rng.choice(ctxs + [""])))
            pars = sorted(set(pars) | {p})
        elif r < 0.19:
            c = rng.choice(["c1", "c2", "c3"])
            e.append(cclone(c, tgt))
            ctxs = sorted(set(ctxs) | {c})
        elif r < 0.23:
            p = rng.choice(["p1", "p2", "p3"])
            e.append(pclone(p, rng.choice(pars)))
            pars = sorted(set(pars) | {p})
        elif r < 0.37:
            e.append(var(tgt, rng.choice(names), rng.choice(NICE if rng.random() < 0.7 else STRANGE), rng.choice(["set", "with"])))
        elif r < 0.49:
            e.append(fn(tgt, rng.choice(names), rng.choice([-1, 0, 1, 2]), rng.choice("hcd"), rng.choice(HOWS), rng.choice(["set", "with"])))
        elif r < 0.52:
            syms = []
            for k in rng.sample(names, rng.choice([0, 1, 2, 3])):
                if rng.random() < 0.5:
                    syms.append({"key": k, "k": "var", "v": H(rng.choice(NICE if rng.random() < 0.8 else STRANGE))})
                else:
                    syms.append({"key": k, "k": "fn", "how": rng.choice(HOWS),
                                 "f": {"n": rng.choice([k, k, "other"]), "a": rng.choice([-1, 1, 2]), "s": rng.choice("hcd")}})
            e.append({"op": "symbols", "t": tgt, "syms": syms})
        elif r < (0.62 if declared else 0.545):
            e.append(declare(tgt, rng.sample(names + ["u", "w"], rng.choice([0, 1, 3, 5, 9])), rng.choice(["set", "with"])))
        elif r < 0.68:
            e += [get(tgt, rng.choice(names + ["nothing", "X", "t", "x'", "F", "Pi"])), getexp(tgt)]
            if rng.random() < 0.4:
                e.append(ctxeq(tgt, rng.choice([["c", c] for c in ctxs] + [["p", p] for p in pars])))
        else:
            x = rng.choice(["a", "b", "c"])
            q = rng.random()
            ns = names + ["u", "w"]
            if q < 0.35:
                n_ = rng.choice(ns)
                t = rng.choice(["%s", "%s(1)", "%s(2,3)", "%s()", "2%s", "%s+x", "%s y"]) % n_
            else:
                t = tight(expression(rng, Style(names=tuple(ns), calls=("f", "g", "sin", "max"), arity={"f": 1, "g": 1}, call=0.25,
                                               implicit=0.2), rng.choice([1, 2, 4])))
            via = "parse"
            if rng.random() < 0.06:
                via = "try_from"
            e.append(parse(t, x, rng.choice(pars), via))
            exps = sorted(set(exps) | {x})
        if exps and rng.random() < 0.45:
            e.append(ev(rng.choice(exps), [[n_, H(v)] for n_, v in zip(names + ["u", "w"], NICE + [3.5])]))
    S.add(e + [END], "history")


def c13(rng, scale, tests):
    S = Sessions()
    for _ in range(300 * scale):
        history(rng, S, rng.choice([20, 40, 60]), False)
    for h in tests["system"]:
        S.add(h + [END], "generated")
    # the same definitions in another order, and one that differs
    for _ in range(60 * scale):
        e = [ctx("c1"), ctx("c2"), ctxeq(["c", "c1"], ["c", "c2"])]
        ns = rng.sample(["x", "y", "z", "f", "sin", "X", "x'", "k1", "k_"], rng.choice([1, 2, 4, 8]))
        vs = {n: rng.choice(NICE + [0.0, -0.0, INF]) for n in ns}
        fs = {n for n in ns if rng.random() < rng.choice([0, 0.3])}
        for c in ("c1", "c2"):
            for n in rng.sample(ns, len(ns)):
                if rng.random() < 0.2:
                    e.append(var(["c", c], n, 77.0))
                e.append(fn(["c", c], n, 1, "h", "static", rng.choice(["set", "with"])) if n in fs else var(["c", c], n, vs[n], rng.choice(["set", "with"])))
        d = rng.sample(ns + ["w", "q"], rng.choice([0, 1, 2]))
        if rng.random() < 0.5:
            e += [declare(["c", c], rng.sample(d, len(d))) for c in ("c1", "c2")]
        e += [parser("p1", "c1"), parser("p2", "c2")]
        e += [ctxeq(a, b) for a, b in ((["c", "c1"], ["c", "c2"]), (["p", "p1"], ["p", "p2"]), (["p", "p1"], ["c", "c2"]))]
        for _ in range(3):
            t = rng.choice([["c", "c2"], ["p", "p2"]])
            n = rng.choice(ns + ["w"])
            e.append(rng.choice([var(t, n, rng.choice(NICE)), fn(t, n, rng.choice([-1, 1]), rng.choice("hc"), rng.choice(HOWS)), declare(t, rng.sample(ns + ["w", "q"], rng.choice([0, 1, 2])))]))
            e += [ctxeq(["c", "c1"], t), ctxeq(t, ["c", "c1"]), ctxeq(["p", "p1"], t), ctxeq(["p", "p1"], ["c", "c1"])]
            e += [cclone("c3", t), ctxeq(["c", "c3"], t), ctxeq(["c", "c1"], ["c", "c3"])]
        S.add(e + [END], "equal")
    # two functions of one name, made in any two ways, that may differ in what
    # they do or take
    one = [("h", 1), ("c", 1), ("d", 1), ("h", -1), ("c", -1), ("h", 2)]
    for how in HOWS:
        for other in HOWS:
            for (s, a), (u, b) in itertools.product(one, one):
                if rng.random() > 0.5 * scale:
                    continue
                e = [ctx("c1"), ctx("c2"), fn(["c", "c1"], "f", a, s, how), fn(["c", "c2"], "f", b, u, other), parser("p1", "c1"), parser("p2", "c2")]
                e += [ctxeq(["c", "c1"], ["c", "c2"]), ctxeq(["c", "c2"], ["c", "c1"]), ctxeq(["p", "p1"], ["p", "p2"]), ctxeq(["p", "p2"], ["c", "c1"])]
                e += [cclone("c3", ["c", "c1"]), ctxeq(["c", "c3"], ["p", "p1"]), fn(["c", "c3"], "f", b, u, other), ctxeq(["c", "c3"], ["c", "c1"]), ctxeq(["c", "c3"], ["p", "p2"])]
                S.add(e + [END], "functions")
    return S


# ----------------------------------------------------------------------- C14
def c14(rng, scale, tests):
    S = Sessions()
    for _ in range(120 * scale):
        history(rng, S, rng.choice([20, 40]), True)
    pool = ["x", "y", "z", "xy", "x1", "X", "f", "k", "pi", "e", "sin", "a'"]
    for _ in range(260 * scale):
        e = [parser(), fn(P, "f", 1, "h"), var(P, "k", 2.5)]
        if rng.random() < 0.3:
            e += [ctx("c"), fn(["c", "c"], "f", 1, "h"), declare(["c", "c"], rng.sample(pool, rng.choice([0, 1, 2, 4])), rng.choice(["set", "with"])), parser("p", "c")]
        for _ in range(3):
            if rng.random() < 0.8:
                e.append(declare(P, rng.sample(pool, rng.choice([0, 1, 2, 3, 6])), rng.choice(["set", "with"])))
            for _ in range(6):
                r = rng.random()
                if r < 0.3:
                    t = ruley(rng, rng.choice([1, 2]))
                elif r < 0.5:
                    t = rng.choice(pool[:6]) + rng.choice(["", "+1", "*0", "-x", "^0", "+y", " z"])
                else:
                    t = tight(expression(rng, Style(names=("x", "y", "z", "xy", "k", "X", "a'"), calls=("f", "sin", "max"), arity={"f": 1}), rng.choice([1, 2, 4, 7])))
                e += [parse(t), ev("x", all_vals(rng, pool))]
        S.add(e, "declared")
    return S


# ----------------------------------------------------------------------- C15
def c15(rng, scale, tests):
    S = Sessions()
    st = Style(names=("x", "y", "k"), calls=("g", "sin", "max", "sum", "hypot"), arity={"g": -1}, wrong=0.05)
    rounds = 12 if scale == 1 else 60
    for _ in range(45 * scale):
        e = [parser(), fn(P, "g", -1, "h", rng.choice(HOWS)), var(P, "k", 5.0)]
        jobs = []
        for _ in range(rng.choice([2, 4, 8])):
            r = rng.random()
            t = expression(rng, st, rng.choice([1, 3, 6, 12]))
            t = spaced(rng, t if r < 0.8 else damage(rng, t), 0.2)
            vs = values(rng, ["x", "y"], 0.2)
            # the same text again, with other values: shared and bound once
            more = ["m%d" % i for i in range(rng.choice([0, 0, 0, 1, 3, 4, 7, 10]))]
            for _ in range(rng.choice([1, 2, 3])):
                jobs.append({"text": t, "env": vs + [[n, H(rng.choice(NICE))] for n in more], "b": [rng.choice(vs)] if rng.random() < 0.7 else []})
                vs = values(rng, ["x", "y"], 0.2)
        # alone ...
        for j in jobs:
            e += [parse(j["text"]), ev("x", j["env"])]
        base = list(range(3, len(e)))
        # ... at once ...
        e.append(mark({"op": "par", "p": "p", "threads": rng.choice([2, 4, 8]), "rounds": rounds, "jobs": jobs}, t=1, base=base))
        # ... and again, in another order, mixed with other things
        first = {j["text"]: 3 + 2 * k for k, j in enumerate(jobs)}
        for j in rng.sample(jobs, len(jobs)) + rng.sample(jobs, len(jobs)):
            b = first[j["text"]]
            if jobs[(b - 3) // 2] is not j:
                continue
            for _ in range(rng.choice([0, 1, 2])):
                e.append(parse(tight(damage(rng, expression(rng, st, 4))), "o"))
                e.append(ev("o", nice(rng)))
            e += [mark(parse(j["text"]), t=1, base=[b]), mark(ev("x", j["env"]), t=1, base=[b, b + 1]),
                  clone("x", "c"), simp("x", "c", "multi", [["x", H(0.5)]]), mark(ev("x", j["env"]), t=1, base=[b, b + 1])]
        S.add(e, "threads")
    # histories: the same texts with several parsers, whose contexts differ and change, again and again
    for _ in range(90 * scale):
        e = [parser("p"), parser("q"), parser("r")]
        version = {"p": 0, "q": 0, "r": 0}
        pool = ["g", "h", "k", "x", "y", "sin", "max", "e"]

        def define(p):
            version[p] += 1
            t = ["p", p]
            n = rng.choice(pool)
            r = rng.random()
            if r < 0.45:
                e.append(fn(t, n, rng.choice([-1, 1, 2]), rng.choice("hcd"), rng.choice(HOWS), rng.choice(["set", "with"])))
            elif r < 0.8:
                e.append(var(t, n, rng.choice(NICE), rng.choice(["set", "with"])))
            elif r < 0.9:
                e.append({"op": "symbols", "t": t, "syms": []})
            else:
                e.append(declare(t, rng.sample(pool, rng.choice([2, 5, 8]))))

        for p in rng.sample("pqr", rng.choice([1, 2])):
            for _ in range(rng.choice([1, 2, 3])):
                define(p)
        style = Style(names=("x", "y", "k", "e"), calls=("g", "h", "sin", "max"), arity={"g": -1, "h": 1}, wrong=0.1, call=0.25)
        texts = [tight(expression(rng, style, rng.choice([1, 2, 4]))) for _ in range(4)] + ["x", "g(x)", "k", "h(2)", "sin(x)", "g(x,y)", "2e", "g+1"]
        seen = {}
        vs = [["x", H(1.25)], ["y", H(-0.5)], ["k", H(3.0)], ["g", H(0.25)], ["h", H(7.5)], ["sin", H(2.0)], ["max", H(-3.0)], ["e", H(5.0)]]
        for _ in range(36):
            t, p = rng.choice(texts), rng.choice("pqr")
            if rng.random() < 0.1:
                define(rng.choice("pqr"))
            b = len(e)
            key = (t, p, version[p])
            base = [seen[key]] if key in seen else []
            seen.setdefault(key, b)
            e += [parse(t, "x", p), ev("x", vs)]
            if base:
                mark(e[-2], t=1, base=base)
                mark(e[-1], t=1, base=[base[0], base[0] + 1])
        S.add(e, "again")
    return S


# ----------------------------------------------------------------------- C16
def c16(rng, scale, tests):
    S = Sessions()
    setup = [parser(), fn(P, "g", -1, "h"), fn(P, "c", -1, "c"), fn(P, "d", -1, "d"), fn(P, "z0", 0, "h"), var(P, "k", -5.5), fn(P, "n'_1", 2, "h")]
    names = ["x", "y", "z"]
    st = [Style(names=tuple(names) + ("k",), calls=("g", "z0", "abs", "invert", "recip", "factorial", "n'_1", "max", "sin", "ln"),
                arity={"g": -1, "z0": 0, "n'_1": 2}, fact=0.12, unary=0.2, num=literal_mild),
          Style(names=("x", "k"), calls=("g",), arity={"g": -1}, ops="^", unary=0.3, fact=0.2, implicit=0.3),
          Style(names=("x",), calls=(), num=literal_mild, fact=0.02)]

    def again(e, x, env, base):
        k = len(e)
        e += [mark(reparse(x, "r", env), t=1, base=base), mark(ev("r", env), t=1, base=base),
              mark(reparse("r", "r2", env), t=1, base=base + [k]), mark(ev("r2", env), t=1, base=base + [k, k + 1])]

    for _ in range(300 * scale):
        e = list(setup)
        for _ in range(5):
            t = tight(expression(rng, rng.choice(st), rng.choice([1, 2, 3, 5, 9]))) if rng.random() < 0.7 else ruley(rng, rng.choice([1, 2, 3]))
            vs = values(rng, names, rng.choice([0, 0.3]))
            b = len(e)
            e += [parse(t), ev("x", vs)]
            again(e, "x", vs, [b, b + 1])
            b = len(e)
            bs = values(rng, rng.sample(names, rng.choice([1, 2])), 0.2)
            rest = [v for v in vs if v[0] not in [c[0] for c in bs]]
            e += [simp("x", "y", "multi", bs), ev("y", rest)]
            again(e, "y", rest, [b, b + 1])
        S.add(e, "random")
    for ch in chunks(sample(rng, tests["rules"], 700 * scale) + [tight(t) for t in sample(rng, tests["ops"] + tests["jux"], 900 * scale)], 12):
        e = usual() + setup[2:4]
        for t in ch:
            b = len(e)
            e += [parse(t), ev("x", SHARP)]
            again(e, "x", SHARP, [b, b + 1])
        S.add(e, "generated")
    # numbers, where signs and sizes matter
    for _ in range(60 * scale):
        e = list(setup)
        for _ in range(5):
            v = rng.choice([bits(rng), rng.uniform(-9, 9), float(rng.randrange(-9, 9)), -0.0, 5e-324, -1e300, 1e21, -1e-7])
            if v in (INF, -INF):
                v = 1.5
            e.append(var(P, "k", v))
            t = rng.choice(["k", "k^2", "2^k", "k!", "-k", "k x", "x k", "2k", "(k)", "k^x", "x^k", "x-k", "x+k", "k-x", "g(k)", "g(k,x)", "-k^x", "(-k)^x",
                            "k^x^2", "x^k^2", "-(k)", "x*k", "x/k", "x%k", "k%x", "(k!)x", "x^(k!)", "(x^k)!", "-x^k", "k(x)", "k+k", "abs(k)^x"])
            vs = values(rng, ["x"], 0)
            b = len(e)
            e += [parse(t), ev("x", vs)]
            again(e, "x", vs, [b, b + 1])
        S.add(e, "numbers")
    return S


def literal_mild(rng):
    r = rng.random()
    if r < 0.6:
        return number(rng, 0)
    return rng.choice(["1e21", "1e-7", "123456789.123", "0.1", "1e300", "2.5e-300", "4503599627370497.5", "1e15", "1e16", "1e17", "3e-5", "00.10"])


# ----------------------------------------------------------------------- C17
def tree(rng, n):
    if n <= 1:
        return rng.choice([("v", "x"), ("v", "y"), ("v", "z"), ("n", "2"), ("n", "3"), ("n", "0.5"), ("n", "1"), ("n", "0")])
    r = rng.random()
    if r < 0.1:
        return ("u", rng.choice("-+!"), tree(rng, n - 1))
    if r < 0.2:
        return ("c", rng.choice(["abs", "sin", "g", "i"]), [tree(rng, n - 1)])
    if r < 0.28:
        k = rng.randrange(1, n)
        return ("c", rng.choice(["max", "min", "hypot", "g"]), [tree(rng, k), tree(rng, max(1, n - k))])
    k = rng.randrange(1, n)
    return ("b", rng.choice("+*+*-/%^"), tree(rng, k), tree(rng, max(1, n - k)))


def text_of(t):
    if t[0] in "vn":
        return t[1]
    if t[0] == "u":
        return "(" + (text_of(t[2]) + "!" if t[1] == "!" else t[1] + text_of(t[2])) + ")"
    if t[0] == "c":
        return t[1] + "(" + ",".join(text_of(a) for a in t[2]) + ")"
    return "(" + text_of(t[2]) + t[1] + text_of(t[3]) + ")"


def swapped(rng, t, p, ops="+*"):
    """The tree with the operands of some operators swapped."""
    if t[0] in "vn":
        return t
    if t[0] == "u":
        return ("u", t[1], swapped(rng, t[2], p, ops))
    if t[0] == "c":
        a = [swapped(rng, x, p, ops) for x in t[2]]
        if "c" in ops and rng.random() < p:
            a.reverse()
        return ("c", t[1], a)
    l, r = swapped(rng, t[2], p, ops), swapped(rng, t[3], p, ops)
    if t[1] in ops and rng.random() < p:
        l, r = r, l
    return ("b", t[1], l, r)


def mutated(rng, t):
    """The tree with one thing changed."""
    if t[0] in "vn":
        return tree(rng, 1)
    if t[0] == "u":
        return rng.choice([t[2], ("u", rng.choice("-+!"), t[2]), ("u", t[1], mutated(rng, t[2]))])
    if t[0] == "c":
        k = rng.randrange(len(t[2]))
        if rng.random() < 0.3:
            return ("c", {"abs": "sin", "sin": "abs", "max": "min", "min": "max", "g": "i", "hypot": "max", "i": "g"}[t[1]], t[2])
        if t[1] == "g" and rng.random() < 0.3:
            return ("c", "g", t[2] + [t[2][0]] if rng.random() < 0.5 else t[2][:1])
        return ("c", t[1], [mutated(rng, a) if i == k else a for i, a in enumerate(t[2])])
    r = rng.random()
    if r < 0.25:
        return ("b", rng.choice("+*-/%^"), t[2], t[3])
    if r < 0.45 and t[2][0] == "b":
        # regrouped
        return ("b", t[2][1], t[2][2], ("b", t[1], t[2][3], t[3]))
    if r < 0.7:
        return ("b", t[1], mutated(rng, t[2]), t[3])
    return ("b", t[1], t[2], mutated(rng, t[3]))


def c17(rng, scale, tests):
    S = Sessions()
    for _ in range(420 * scale):
        e = [parser(), fn(P, "g", -1, "h"), fn(P, "i", -1, "h"), parser("q"), fn(["p", "q"], "g", -1, "h"), fn(["p", "q"], "i", 1, "h"),
             fn(["p", "q"], "abs", 1, "c")]
        for _ in range(4):
            t = tree(rng, rng.choice([1, 2, 3, 4, 6, 9]))
            us = [t, swapped(rng, t, 0.5), swapped(rng, t, 1.0), swapped(rng, t, 0.3, "+*-/%^c"), mutated(rng, t), mutated(rng, swapped(rng, t, 0.5)), tree(rng, 3)]
            envs = [values(rng, ["x", "y", "z"], 0) for _ in range(3)]
            e.append(parse(text_of(t)))
            for u in us:
                e += [parse(text_of(u), "y", "p" if rng.random() < 0.85 else "q"), eq("x", "y", envs)]
            e += [clone("x", "c"), eq("x", "c", envs), eq("c", "x", envs)]
            b = values(rng, [rng.choice(["x", "y"])], 0.3)
            e += [simp("x", "s", "multi", b), simp("c", "s2", "one", b), eq("s", "s2", envs), eq("x", "s", envs)]
        S.add(e, "trees")
    for _ in range(50 * scale):
        # tight pairs of texts
        e = [parser(), fn(P, "g", -1, "h")]
        pool = ["x", "y", "x y", "y x", "x+y", "y+x", "x-y", "y-x", "x*y", "y*x", "x/y", "y/x", "x%y", "y%x", "x^y", "y^x", "x+y+z", "z+(x+y)", "(z+x)+y",
                "x+(y+z)", "-x", "--x", "+x", "x!", "2", "2.0", "3", "0", "-0", "(-0)", "0*x", "-2", "(-2)", "2x", "x*2", "max(x,y)", "max(y,x)", "min(x,y)",
                "g(x,y)", "g(y,x)", "g(x)", "g()", "abs(x)", "recip(x)", "invert(x)", "1/0", "2/0", "-1/0", "pi", "3.141592653589793", "(x+y)*(z+x)",
                "(x+z)*(y+x)", "(z+x)*(x+y)", "x*y*z", "z*(y*x)", "(x-y)+z", "z+(y-x)", "(x*y)-(y*x)", "(y*x)-(x*y)", "x^(y+z)", "x^(z+y)", "sin(x+y)", "sin(y+x)",
                "max(x+y,2)", "max(y+x,2)", "max(2,x+y)", "(x+y)!", "(y+x)!", "-(x*y)", "-(y*x)"]
        for _ in range(20):
            a, b = rng.choice(pool), rng.choice(pool)
            e += [parse(a, "x"), parse(b, "y"), eq("x", "y", [values(rng, ["x", "y", "z"], 0)])]
        S.add(e, "pairs")
    return S


# ----------------------------------------------------------------------- C18
def c18(rng, scale, tests):
    S = Sessions()
    sp = SPECIAL + [0.25, 0.75, -0.75, 2.5, 3.5, -3.5, 1.0000000000000002, 0.9999999999999999, 1e-20, 100.0, 1000.0, 1e22, 3.141592653589793,
                    1.5707963267948966, 2.718281828459045, 4.0, 9.0, 27.0, -8.0, -27.0, 1.2e308, 4503599627370495.5, 171.5, 170.5, -0.5, 0.49999999999999994]
    for n in UNARY + ["!"]:
        t = "x!" if n == "!" else n + "(x)"
        vals_ = sp + [float(k) for k in range(-4, 30)] + [rng.uniform(-3, 3) for _ in range(12 * scale)] + [bits(rng) for _ in range(12 * scale)]
        if n in ("!", "factorial"):
            vals_ += [float(k) for k in range(30, 180)] + [k + 0.5 for k in range(0, 180, 7)] + [2.0 ** 31, 2.0 ** 32, 2.0 ** 63, 2.0 ** 64, 1e300, 255.0, 256.0, 257.0, 300.0]
        for ch in chunks(vals_, 60):
            S.add([parser(), parse(t)] + [ev("x", [["x", H(v)]]) for v in ch], n)
        # numbers: folded when parsing
        e = [parser()]
        for v in rng.sample([0, 1, 2, 3, 5, 0.5, 0.25, 0.1, 7, 10, 20, 1.5, 100], 6):
            e += [parse(t.replace("x", repr(v)), "x"), ev("x", [])]
            e += [parse(t.replace("x", "(-%r)" % v), "x"), ev("x", [])]
        S.add(e, n)
    for n in BINARY:
        ps = [(a, b) for a in SPECIAL for b in SPECIAL] + [(rng.uniform(-5, 5), rng.uniform(-5, 5)) for _ in range(40 * scale)] \
            + [(float(a), float(b)) for a in (1, 2, 4, 8, 10, 100, 1000, 27) for b in (2, 3, 10, 0.5)]
        for ch in chunks(ps, 60):
            S.add([parser(), parse(n + "(x,y)")] + [ev("x", [["x", H(a)], ["y", H(b)]]) for a, b in ch], n)
        S.add([parser()] + [z for a in ("0", "2", "8", "100", "-1", "0.5") for b in ("2", "10", "0", "-3", "1") for z in
                            (parse("%s(%s,%s)" % (n, a, b)), ev("x", []))], n)
    for n in VARIADIC:
        for k in list(range(0, 9)) + [16, 33]:
            e = [parser(), parse(n + "(" + ",".join("a%d" % i for i in range(k)) + ")")]
            for _ in range(14):
                q = rng.choice([0.0, 0.2, 0.8])
                e.append(ev("x", [["a%d" % i, H(rng.choice(SPECIAL) if rng.random() < q else rng.uniform(-9, 9))] for i in range(k)]))
            e += [parse(n + "(" + ",".join(rng.choice(["1", "2.5", "-3", "0.1", "1e300", "7"]) for i in range(k)) + ")"), ev("x", [])]
            S.add(e, n)
    e = [parser()]
    for t in ["pi", "e", "e^1", "2pi", "pi e", "e^x", "sin(pi)", "ln(e)", "log(100)", "ln(10)", "log(10)", "logn(8,2)", "logn(2,8)", "recip(4)", "invert(4)",
              "fract(-1.25)", "fract(1.75)", "round(2.5)", "round(-2.5)", "round(0.5)", "cbrt(27)", "hypot(3,4)", "atan2(1,-1)", "atan2(-1,1)", "gamma(5)",
              "factorial(5)", "5!", "0!", "sum()", "mean()", "min()", "max()", "mean(1,2,4)", "sum(0.1,0.2,0.3)", "20!", "22!", "23!", "170!", "171!",
              "gamma(0.5)", "gamma(171)", "gamma(-0.5)", "trunc(-1.5)", "floor(-1.5)", "ceil(-1.5)", "abs(-2)", "exp(1)", "min(2,-1,3)", "max(2,-1,3)"]:
        e += [parse(t), ev("x", [["x", H(1.5)]] if "x" in t.replace("exp", "").replace("max", "") else [])]
    S.add(e, "constants")
    return S


# ----------------------------------------------------------------------- C19
def c19(rng, scale, tests):
    S = Sessions()
    vals = [["x", H(1.75)], ["y", H(-2.5)], ["z", H(0.625)], ["a", H(3.5)], ["b", H(-0.375)]]
    for _ in range(330 * scale):
        e = [parser(), parser("q")]
        defs = {"p": {}, "q": {}}
        for k in range(rng.choice([1, 2, 3, 4])):
            src, dst = rng.choice("pq"), rng.choice("pq")
            pars = rng.sample(["x", "y", "a", "b", "n"], rng.choice([1, 1, 2, 3, 4, 5]))
            calls = tuple(defs[src]) + ("max", "abs")
            tame = dict(ops="+-*+-*/^", fact=0.01, num=lambda r: number(r, 0.02)) if rng.random() < 0.75 else {}
            st = Style(names=tuple(pars), consts=(), calls=calls, arity=defs[src], call=0.3, **tame)
            body = tight(expression(rng, st, rng.choice([1, 2, 4, 6])))
            if rng.random() < 0.15:
                e.append(var(["p", src], rng.choice(["x", "y", "b"]), rng.choice(NICE)))
            name = "f%d" % k if rng.random() < 0.85 else rng.choice(["f0", "sin", "x", "a"])
            how = rng.choice(["rt", "macro", "array", "fixed", "twice", "twice"])
            a = len(pars)
            if how == "rt" and rng.random() < 0.15:
                a = -1
            e += [parse(body, "d", src), asfn("d", ["p", dst], name, pars, a, how)]
            if a >= 0 and name != "x":
                defs[dst][name] = a
            if rng.random() < 0.3:
                # a simplified one, with the rest of the parameters
                e += [simp("d", "s", "multi", [[pars[0], H(2.5)]]), asfn("s", ["p", dst], name + "s", pars, len(pars), "rt")]
                defs[dst][name + "s"] = len(pars)
            for p in "pq":
                if defs[p]:
                    st = Style(names=("x", "y", "a"), consts=("pi",), calls=tuple(defs[p]) + ("min",), arity=defs[p], call=0.45, **tame)
                    for _ in range(3):
                        e += [parse(tight(expression(rng, st, rng.choice([1, 2, 4, 7]))), "x", p), mark(ev("x", vals), t=1, base=[]),
                              mark(ev("x", nice(rng, ("x", "y", "z", "a", "b"))), t=1, base=[]),
                              simp("x", "w", "one", [["x", H(0.5)]]), mark(ev("w", vals), t=1, base=[])]
        S.add(e + [END], "nested")
    # the definition's own context changes later
    for _ in range(40 * scale):
        e = [parser(), var(P, "k", 2.0), fn(P, "g", 1, "h"), parse("k*x+g(y)", "d"), asfn("d", P, "f", ["x", "y"], 2, rng.choice(["rt", "macro", "array"])),
             parse("f(y,x)", "u"), ev("u", vals), var(P, "k", 9.0), fn(P, "g", 1, "c"), mark(ev("u", vals), t=1, base=[]),
             parse("f(y,x)+k", "v"), mark(ev("v", vals), t=1, base=[]), fn(P, "f", 2, "c"), mark(ev("v", vals), t=1, base=[]), mark(ev("u", vals), t=1, base=[]),
             parse("f(y,x)", "w"), mark(ev("w", vals), t=1, base=[]), END]
        S.add(e, "later")
    # long chains of definitions
    for n in (5, 20, 60, 130):
        for how in ("rt", "macro", "array", "fixed", "twice", "any"):
            if how == "twice" and n > 8:
                continue
            pick = lambda: rng.choice(["rt", "macro", "array", "fixed"] + ["twice"] * (n < 8)) if how == "any" else how
            e = [parser(), parse("x+1", "d"), asfn("d", P, "f0", ["x"], 1, pick())]
            for k in range(1, n):
                e += [parse("f%d(x)*0.5+y" % (k - 1), "d"), simp("d", "d2", "one", [["y", H(0.25)]]), asfn("d2", P, "f%d" % k, ["x"], 1, pick())]
            e += [parse("f%d(y)" % (n - 1)), mark(ev("x", vals), t=1, base=[]), mark(ev("x", nice(rng)), t=1, base=[]), END]
            S.add(e, "chain")
    return S


# ----------------------------------------------------------------------- C21
def c21(rng, scale, tests):
    S = Sessions()
    names = ["x", "y"]
    st = Style(names=tuple(names) + ("k",), calls=("b", "v", "g", "abs", "max", "v"), arity={"b": 1, "v": 1, "g": -1}, call=0.35)
    for _ in range(420 * scale):
        e = [parser(), fn(P, "b", 1, "b", rng.choice(["static", "dyn", "md"])), fn(P, "v", 1, "z", rng.choice(["dyn", "static", "md"])),
             fn(P, "g", -1, "h", rng.choice(["dyn", "static"])), var(P, "k", rng.choice([0.0, 1.5])),
             parse("g(x,v(y))", "ok"), ev("ok", nice(rng))]
        for _ in range(4):
            r = rng.random()
            if r < 0.5:
                t = tight(expression(rng, st, rng.choice([1, 2, 4, 7])))
            else:
                t = rng.choice(["v(x)", "v(x)+y", "y*v(x)", "g(v(x),y,v(y))", "v(v(x))", "v(x-y)", "v(x)^v(y)", "-v(x)", "v(x)!", "max(v(x),v(y))", "v(0)", "b(1)",
                                "b(x)", "v(k)", "x+v(0)", "g(y,b(1),x)", "v(x*0)", "(x+y)*v(x)", "g(g(x,y),v(x),g(y))", "v(y)-v(x)", "g(x,1+2,v(x),3+4)"])
            zero = [["x", H(0.0)], ["y", H(rng.choice([0.0, 2.5]))]]
            vs = nice(rng, names)
            e += [parse(t), ev("x", vs), ev("x", zero), ev("x", vs),
                  parse(rng.choice(["x+1", "g(x,y)", "v(x)", "k y"]), "n"), ev("n", vs)]
            how = rng.choice(["inplace", "multi"])
            b = rng.choice([[zero[0]], zero, [vs[1], zero[0]], [zero[1], vs[0]], []])
            # several in place are several operations
            e += [simpself("x", how, b if how == "multi" else b[:1]),
                  show("x"), ev("x", vs), ev("x", zero), simp("x", "y", rng.choice(["one", "multi", "inplace", "multiinplace"]), [zero[0]]),
                  ev("y", vs), ev("x", vs), simpself("x", "inplace", [vs[0]]), ev("x", vs), clone("x", "c"), ev("c", vs),
                  bind("x", rng.choice(["fixed", "rt", "array"]), names, [[0.0, 1.5], [1.5, 0.0], [2.5, 0.5]]), ev("x", vs)]
        S.add(e + [END], "panics")
    return S


WORK = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
        "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C21": c21}


# ----------------------------------------------------------------------- C20
def nvars(text):
    return sorted(set(re.findall(r"(?<![A-Za-z_'])(?:[xyz])(?![\w'])", text)))


def c20(rng, scale, tests):
    S = Sessions()
    st = Style(names=("x", "y", "z"), consts=("pi", "e"), calls=("sin", "max", "hypot", "sum", "abs"), wrong=0.15, implicit=0.2)
    fixed = ["2+2", "x", "x+x", "x+y", "y+x", "x*x*x", "1/0", "-1/0", "0/0", "2+", ")", "(", "", "   ", "\t", "max(", "sin(1,2)", "1e21", "1e-7", "0.1+0.2",
             "x y z", "exits", "Exit", "quit", "exit+1", "é", "1..2", "3!", "x!", "2x", "exitt", "exit exit", "x exit"[:1], "e", "pi", "sin"]

    def text(batch):
        r = rng.random()
        if r < 0.4:
            return rng.choice(fixed)
        t = expression(rng, st, rng.choice([1, 2, 4, 7]))
        if r > 0.8:
            t = damage(rng, t)
        t = tight(t).replace("\n", " ").replace("\r", " ").replace("\u2028", " ")
        return t[:60]

    def line(batch):
        t = text(batch)
        if t.strip() == "exit":
            t = "1"
        nl = rng.choice(["\n", "\n", "\n", " \n", "\r\n"])
        e = {"op": "line", "p": "", "text": rng.choice(["", "", " "]) + t + nl}
        if batch:
            # all questions have the same answer, as their order isn't known
            v = rng.choice([2.0, 0.5, -1.25])
            e["env"] = [[n, H(v)] for n in ("x", "y", "z", "exits", "Exit", "quit", "exitt", "exit")]
        else:
            e["env"] = [[n, H(rng.choice(NICE + [0.0, 1.0]))] for n in ("x", "y", "z", "exits", "Exit", "quit", "exitt", "exit")]
        return e

    for _ in range(70 * scale):
        ev_ = [line(False) for _ in range(rng.choice([0, 1, 3, 8, 15]))]
        how = rng.choice(["eof", "eof", "exit\n", "exit", " exit \n", "\texit\r\n"])
        S.add(ev_ + [{"op": "leave", "how": how}], "dialogue")
    for _ in range(70 * scale):
        ev_ = []
        for _ in range(rng.choice([0, 1, 4, 10, 20])):
            e = line(True)
            # how many answers each way of reading calls for: only lines
            # that every build reads alike, and without optimized variables
            n = nvars(e["text"])
            if n and not re.fullmatch(r"\s*(x|x\+x|x\+y|y\+x|x\*x\*x|x y z|2x|x!|sin\(x\)|max\(x,y,z\)|\(x-y\)\*z)\s*", e["text"]):
                e["text"] = rng.choice(["x", "x+x", "x+y", "x y z", "x*x*x", "2x", "sin(x)", "max(x,y,z)", "(x-y)*z"]) + "\n"
                n = nvars(e["text"])
            if re.search(r"exit|quit|Exit", e["text"]):
                e["text"], n = "7\n", []
            a = [[k, e["env"][0][1]] for k in n]
            e["batch"] = {"P": a, "J": a}
            ev_.append(e)
        how = rng.choice(["eof", "exit\n", "exit", " exit \n"])
        leave = {"op": "leave", "how": how, "after": "2+2\nx\n1\n" if how.endswith("\n") and rng.random() < 0.6 else ""}
        if ev_ and how == "eof" and rng.random() < 0.5 and not ev_[-1]["batch"]["P"]:
            ev_[-1]["text"] = ev_[-1]["text"].rstrip("\n\r")      # no newline at the end
            if not ev_[-1]["text"]:
                ev_[-1]["text"] = "2"
        S.add(ev_ + [leave], "batch")
    return S


WORK["C20"] = c20


# --------------------------------------------------------------------- names
# other names, that are easily taken for one another
OTHERS = [{"x": "a", "y": "A", "z": "aA"}, {"x": "ab", "y": "aB", "z": "Ab"}, {"x": "v1", "y": "v10", "z": "v01"}, {"x": "x", "y": "x'", "z": "x''"},
          {"x": "x_", "y": "x", "z": "x__"}, {"x": "y", "y": "x", "z": "z"}, {"x": "abcdefgh", "y": "abcdefgi", "z": "abcdefg"},
          {"x": "r" * 16 + "a", "y": "r" * 16 + "b", "z": "r" * 16}, {"x": "X", "y": "x", "z": "Y"}, {"x": "E", "y": "e1", "z": "Pi"},
          {"x": "e_", "y": "pi'", "z": "sin1"}, {"x": "ba", "y": "ab", "z": "aab"}, {"x": "q" * 300 + "1", "y": "q" * 300 + "2", "z": "q" * 255},
          {"x": "b'c", "y": "b_c", "z": "b'C"}, {"x": "inf", "y": "NaN", "z": "nan"}]
OTHER_FNS = [{}, {"f": "F", "g": "f", "h": "H"}, {"f": "sin1", "g": "sinx", "h": "Sin"}, {"c": "cos_", "d": "d1", "f": "f1", "g": "f10", "h": "f11"},
             {"g": "Max", "f": "max'", "h": "ma"}, {"g": "h", "h": "g"}]
NAME = re.compile(r"[A-Za-z][A-Za-z0-9_']*")


def renamed(ev, m):
    """The session with other names, or None if they'd clash."""
    text = lambda t: NAME.sub(lambda k: m.get(k.group(), k.group()), t)
    name = lambda n: m.get(n, n)
    pair = lambda ps: [[name(n), v] for n, v in ps]
    used = set(NAME.findall(json.dumps([[e.get("text"), e.get("env"), e.get("b"), e.get("names"), e.get("n"), e.get("f"), e.get("syms"), e.get("jobs")] for e in ev])))
    if any(n in used and n not in m for n in m.values()):
        return None

    def fnn(f):
        return dict(f, n=name(f["n"]))

    out = []
    for e in ev:
        e = dict(e)
        for k, how in (("text", text), ("env", pair), ("b", pair), ("names", lambda ns: [name(n) for n in ns]), ("n", name), ("f", fnn),
                       ("envs", lambda es: [pair(v) for v in es]), ("jobs", lambda js: [dict(j, text=text(j["text"]), env=pair(j["env"]), b=pair(j["b"])) for j in js]),
                       ("syms", lambda ys: [dict(y, key=name(y["key"]), **({"f": fnn(y["f"])} if "f" in y else {})) for y in ys])):
            if k in e:
                e[k] = how(e[k])
        out.append(e)
    return out


def rename(rng, S, share):
    for s in S.all:
        if rng.random() < share:
            ev = renamed(s["ev"], {**rng.choice(OTHERS), **rng.choice(OTHER_FNS)})
            if ev is not None:
                s["ev"] = ev


# --------------------------------------------------------------------- sizes
def with_sizes(pid, small):
    def both(rng, scale, tests):
        import hard, wide
        S = small(rng, scale, tests)
        if pid != "C20":
            rename(rng, S, 0.25)
        wide.WIDE[pid](S, rng, scale)
        if pid in hard.HARDER:
            hard.HARDER[pid](S, rng, scale)
        return S
    return both


WORK = {pid: with_sizes(pid, w) for pid, w in WORK.items()}
