"""Sizes: for each property, sessions in which one thing is large (a number of
arguments, variables, digits, names, characters, terms, levels, repetitions),
around the powers of two and of ten at which counters, buffers and caches have
their limits."""
import re
from gen import *
import work as W
from work import P, SHARP, cclone, mark, show, clone, eq, ctx, declare, get, getexp, asfn

# numbers of things
FEW = [8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40]
MANY = [63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300]


def pick(rng, scale, few=5, many=4, top=None):
    a = FEW if scale > 1 else rng.sample(FEW, few)
    b = MANY if scale > 1 else rng.sample(MANY, many)
    return sorted(n for n in a + b if top is None or n <= top)


def names(n, p="v"):
    return ["%s%d" % (p, i) for i in range(n)]


def nums(rng, n):
    return [rng.choice(["1", "2", "3", "0.5", "4", "7", "x", "y", "-x", "2*y"]) for _ in range(n)]


def vals(rng, ns):
    """Different values, whose sums and products are exact for long."""
    return [[n, H((i * 37 + rng.randrange(5)) % 1009 + 0.5)] for i, n in enumerate(ns)]


def weighted(ns):
    """An expression that tells the variables apart."""
    return "+".join("%d*%s" % (i % 61 + 2, n) for i, n in enumerate(ns))


def c01(S, rng, scale):
    for n in pick(rng, scale) + [1000]:
        e = W.usual()
        for t in ["hypot(" + "1," * n + "1)", "f(" + "x," * n + "2", "h(" + "x," * n, "max(" + "1," * n + ")", "g(" + ",".join(names(n)) + ")",
                  "z(" + "1," * n + "1)", "x" * n, "x" * n + "(2)", "1" * n, "1" * n + "." + "2" * n + "e5", "1." + "." * n, " " * n + ")",
                  "x+" * n + ")", "1e" + "0" * n + "5", "1e" + "1" * n, "1" + "_" * n + "e3", ",".join(["1"] * n), "é" * n, "x" + "é" * n,
                  "(" * min(n, 500) + "é", "2 " * n, "x " * min(n, 500)]:
            e += [parse(t), show("x"), {"op": "eval", "x": "x", "env": [["x", H(0.5)], ["y", H(1.5)]]}]
        e += [parse(weighted(names(min(n, 400)))), show("x"), ev("x", vals(rng, names(min(n, 400)))), bind("x", "rt", [], []), bind("x", "rt", names(n), [])]
        for i in range(0, len(e) - len(W.usual()), 30):
            a = len(W.usual()) + i
            S.add(W.usual() + e[a:a + 30] + [END], "sizes")
    # (a report of an error beyond column 65535 can't be rendered: see known-findings.txt)
    for n in (60000, 65535, 65536, 70000):
        e = [parser()]
        for t in ["x" * n, "1" * n, " " * n + "x" + " " * n, "1" + " " * n + "+1", "1" + "_" * n + "1", "1." + "0" * n + "1e" + "0" * n + "1", "x" * n + " " * n + "(" + " " * n + "1)",
                  "max(" + " " * n + "x" + "," + "y" * n + ")"]:
            e += [parse(t), ev("x", [["x", H(1.0)], ["x" * n, H(1.5)], ["y" * n, H(0.5)]])]
        for t in [" " * n + "1+é", " " * n, "1" + " " * n + "+", "x" * n + "é", "sin" + " " * n + "x", "é" * (n // 2), "1." * (n // 2)]:
            if n == 60000:
                e += [parse(t)]
        S.add(e, "sizes")


def c02(S, rng, scale):
    for n in pick(rng, scale):
        e = W.usual()
        for ops in ("+-", "*/", "*/%", "+-*/%^", "^", "-", "/", " ", "+ "):
            t = ["x"]
            for _ in range(n):
                o = rng.choice(ops)
                t += [o, rng.choice(["x", "y", "z", "(x)", "x", "y!"])] if o == " " else [o, rng.choice(["x", "y", "2", "0.5", "z", "-1", "(x)", "3"])]
            e += [parse(" ".join(t)), ev("x", SHARP)]
        k = min(n, 120)
        for a, b in (("(", ")"), ("(1+", ")"), ("x-(", ")"), ("2/(", ")"), ("-(", ")"), ("-", ""), ("x^-", ""), ("abs(", ")"), ("x(", ")"), ("h(1,", ")"), ("(", "!)")):
            e += [parse(a * k + "x" + b * k), ev("x", SHARP), parse(a * k + "x*y" + b * (k - 1)), ev("x", SHARP)]
        S.add(e, "sizes")
        # all precedences, deep inside and at all levels
        e = W.usual()
        st = Style(names=("x", "y", "z"), calls=("f", "h", "abs"), arity={"f": 1, "h": 2}, paren=0.05)
        for k in (n, 2 * n):
            for a, b in (("(", ")"), ("abs(", ")"), ("h(1,", ")"), ("(x*", ")"), ("2^(", ")"), ("-(", ")"), ("(", ")!"), ("x-(2*", ")/y"), ("(z^-", ")%x")):
                for inner in ("2*x^2-y", "2x^2y", "x-y-z", "-x^2", "x/y z", "x^2^y", tight(expression(rng, st, 6))):
                    e += [parse(a * k + inner + b * k), ev("x", SHARP)]
        for i in range(len(W.usual()), len(e), 42):
            S.add(W.usual() + e[i:i + 42], "sizes")


def c03(S, rng, scale):
    dig = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
    half = "1.00000000000000011102230246251565404236316680908203125"
    e = [parser()]
    n = [50, 64, 100, 128, 255, 256, 257, 310, 400, 500, 768, 769, 800, 1000, 1100, 2000]
    texts = []
    for k in n if scale > 1 else rng.sample(n, 8) + [400, 800]:
        texts += [dig(k), dig(k) + "." + dig(k), "0." + "0" * k + dig(20), dig(20) + "0" * k, "0." + "0" * k + "1e" + str(k), "1" + "0" * k + "e-" + str(k),
                  half + "0" * k, half + "0" * k + "1", dig(k) + "e-" + str(k), "0." + dig(k) + "e%d" % rng.randrange(-300, 300),
                  "1e" + "0" * k + "3", "2e-" + "0" * k + "7", "1" + "_" * k + "2", "_".join(dig(k)), dig(3) + "." + "_" * k + dig(3), "0" * k + dig(3) + ".5",
                  "1e" + dig(k), "0e" + "9" * k, "1." + "." * k, dig(k) + "." + dig(3) + "." + dig(3), "9" * k + "e" + str(-k - rng.randrange(-20, 330))]
    # halfway between doubles, and just beside: many digits decide
    for _ in range(30 * scale):
        x = abs(bits(rng))
        if x in (0, INF) or x > 1e300:
            continue
        from fractions import Fraction
        import struct
        y = struct.unpack(">d", struct.pack(">q", struct.unpack(">q", struct.pack(">d", x))[0] + 1))[0]
        m = (Fraction(x) + Fraction(y)) / 2
        p = 0
        d = m.denominator
        while d > 1 and p < 1100:
            d //= 2
            p += 1
        s = str(m.numerator * 5 ** p).rjust(p + 1, "0")
        s = s[:len(s) - p] + "." + s[len(s) - p:]
        texts += [s, s + "1", s + "0" * 50 + "1", s[:-1] + str(int(s[-1]) - 1) + "9" if s[-1] in "123456789" else s]
    for ch in chunks(texts, 20):
        e = [parser()]
        for t in ch:
            e += [parse(t), ev("x", []), parse("x*" + t + "/x"), ev("x", [["x", H(1.0)]])]
        S.add(e, "sizes")


def c04(S, rng, scale):
    for n in pick(rng, scale, 3, 3) + [1000, 5000]:
        a = rng.choice("aZq") * n
        e = [parser(), var(P, a, 2.5), fn(P, a + "f", 1, "h"), var(P, a[:-1], -1.5), var(P, a + "'", 4.0), var(P, "b" + a, 7.0)]
        for t in [a, a[:-1], a + "'", a + "f(2)", a + "f", a + "x", "b" + a, "2" + a, a + " " + a[:-1], a + "+" + a + "y", a + "_", "c" + a, a[:-2], a + "(3)",
                  a.swapcase(), a + a, a + "f(" + a + ")", a + "f (" + a + "x)"]:
            e += [parse(t), show("x"), ev("x", [[m, H(v)] for m, v in zip(dict.fromkeys([a + "x", a + "y", a + "_", "c" + a, a[:-2], a.swapcase(), a + a]), NICE)])]
        S.add(e, "sizes")
    # many names in one context, and many in one expression
    for n in pick(rng, scale, 2, 3):
        e = [parser()]
        ns = names(n, rng.choice(["n", "k_", "x'"]))
        for i, m in enumerate(ns):
            e.append(var(P, m, i + 0.5) if i % 3 else fn(P, m, 1, "h", rng.choice(W.HOWS)))
        for i in rng.sample(range(n), min(n, 20)):
            m = ns[i]
            e += [parse(m + "(2)+" + ns[i - 1] + "(3)"), ev("x", []), parse(m + "0+" + m + "' 2"), ev("x", [[m + "0", H(3.0)], [m + "'", H(0.5)]])]
        e += [parse("+".join(m + "(x)" for m in ns)), ev("x", SHARP)]
        S.add(e, "sizes")


def c05(S, rng, scale):
    for n in pick(rng, scale):
        e = W.usual()
        e += [fn(P, "u", n if n < 256 else -1, "h", "dyn"), fn(P, "w", -1, "c", "static")]
        ns = names(n)
        vs = vals(rng, ns) + SHARP
        for t in ["u(" + ",".join(ns) + ")", "u(" + ",".join(reversed(ns)) + ")", "g(" + ",".join(nums(rng, n)) + ")", "g(" + ",".join("g(%s,x)" % m for m in ns[:60]) + ")",
                  "max(" + ",".join(ns) + ")", "sum(" + ",".join(ns) + ")", "u(" + ",".join(nums(rng, n - 1)) + ")", "u(" + ",".join(nums(rng, n + 1)) + ")",
                  "f(" * min(n, 120) + "x" + ")" * min(n, 120), "h(x," * min(n, 120) + "y" + ")" * min(n, 120), "h(" * min(n, 120) + "x" + ",y)" * min(n, 120),
                  "+".join("f(%s)" % m for m in ns), "g(x," * min(n, 60) + "z()" + ",y)" * min(n, 60)]:
            e += [parse(t), ev("x", vs)]
        S.add(e, "sizes")


def c06(S, rng, scale):
    for n in pick(rng, scale, 3, 3) + [1000, 4096, 50000]:
        e = W.usual()
        for t in (["1", "+", "x"], ["f", "(", "x", ")", "!"], ["2", "x", "^", "-", "k"], ["x", "(", "y", ")", ")"], ["h", "(", "x", ",", "y", ")", "%", "3"],
                  ["1.5", "é"], ["h", "(", "x", ")"]):
            b = len(e)
            e += [parse("".join(t)), ev("x", SHARP)]
            for _ in range(2):
                k = rng.randrange(len(t) + 1)
                w = rng.choice([" ", "\t", "\n", "\r", "\f", "\r\n"]) * n
                e += [mark(parse("".join(t[:k]) + w + "".join(t[k:])), t=1, base=[b]), mark(ev("x", SHARP), t=1, base=[b, b + 1])]
        S.add(e, "sizes")


def c07(S, rng, scale):
    for n in pick(rng, scale, 4, 4) + [1000, 60000]:
        k = min(n, 400)
        n = min(n, 60000)
        e = W.usual() + [fn(P, "q" * k, 2, "h")]
        for t in ["%s)", "%s+é", "%s+1.2.3", "%s+", "%s+h(1)", "%s+h(1,2,3)", "%s+sin", "%s+(1", "%s+max(1,)", "%s+sin+1", "%s 1 2"]:
            for p in (" " * n + "1", "1" + "0" * n, "x" * n, "1" + "+x" * k, "max(" + "1," * k + "2)", "x'é" if n < 20 else "-" * k + "1"):
                if n > 5000 and rng.random() < 0.6:
                    continue
                e.append(parse(t % p))
        e += [parse(t) for t in ["1.%s." % ("5" * n), "1" + "." * n, "1" + "_" * n + "..", "sin(" + "1," * k + "2)", "q" * k + "(1)", "1+" + "q" * k + "(1,2,3)",
                                 "q" * k, "h(" + "1," * k + "é)", "h(" + "1," * k + ")", "f(" * k, "f(" * k + "x" + ")" * (k - 1), "(" * k, "é" * k, "x" + " é" * k]]
        S.add(e, "sizes")


def c08(S, rng, scale):
    for n in pick(rng, scale, 3, 4):
        ns = names(n)
        e = W.usual()
        vs = [vals(rng, ns), values(rng, ns, 0.02), [[m, H(rng.uniform(-2, 2))] for m in ns]]
        for t in [weighted(ns), "-".join(ns), "*".join(ns), "/".join(ns), "max(" + ",".join(ns) + ")", "g(" + ",".join(ns) + ")",
                  "+".join("%s*%s" % (a, b) for a, b in zip(ns, ns[1:])), "(" * min(n, 100) + "".join("%s-%s)" % ("" if i else ns[0], m) for i, m in enumerate(ns[1:min(n, 100) + 1])),
                  "%".join(ns), "+".join("%s^2" % m for m in ns), "+".join("%s!" % m for m in ns[:20])]:
            e += [parse(t)] + [ev("x", v) for v in vs] + [ev("x", vs[0])]
        S.add(e, "sizes")


def c09(S, rng, scale):
    for n in pick(rng, scale, 3, 4):
        ns = names(n)
        e = W.usual()
        vs = vals(rng, ns + ["more"])
        k = min(n, 40)
        for t in [weighted(ns), "max(" + ",".join(ns) + ")", "g(" + ",".join(reversed(ns)) + ")", "(" * (k - 1) + ns[0] + "".join("-%s)" % m for m in ns[1:k]),
                  "*".join(ns) + "+0", "".join("%s/(" % m for m in ns[:k - 1]) + ns[k - 1] + ")" * (k - 1), "+".join("f(%s)" % m for m in ns),
                  "h(" * (k - 1) + ns[0] + "".join(",%s)" % m for m in ns[1:k]), "+".join("0*%s" % m for m in ns)]:
            e += [parse(t), probe("x", vs), show("x"), simp("x", "y", "multi", rng.sample(vs, n // 2)), probe("y", vs), show("y")]
        S.add(e, "sizes")


def c10(S, rng, scale):
    for n in pick(rng, scale, 3, 3):
        e = [parser(), fn(P, "c", -1, "c"), fn(P, "d", -1, "d"), fn(P, "g", -1, "h"), var(P, "k", 5.0)]
        ds = [rng.choice(["1", "2", "0.1", "0.3", "1e100", "3", "7", "0", "1e-200", "k"]) for _ in range(n)]
        k = min(n, 100)
        for t in ["+".join(ds), "*".join(ds), "-".join(ds), "x+" + "+".join(ds), "x*" + "*".join(ds), "+".join(ds) + "+x", "/".join(ds[:20]) + "/x", "g(" + ",".join(ds) + ")",
                  "g(" + ",".join(ds) + ",x)", "sum(" + ",".join(["x"] + ds) + ")", "x-" + "-".join(ds), "-" * k + "x", "(" * k + "x" + "-1)" * k, "(" * k + "x" + "*1)" * k,
                  "0*(" + "+".join(["x"] * n) + ")", "(" + "+".join(["x"] * k) + ")-(" + "+".join(["x"] * k) + ")", "x" + "-x" * n, "x" + "/2" * n, "x" + "/0.1" * n, "x*0.1*0.3" + "*1" * k,
                  "-(" * k + "x" + ")" * k + "-" + "-" * k + "x", "abs(" * k + "2" + ")" * k, "g(" * k + "1+2" + ",3)" * k, "(2^" * 9 + "0.5" + ")" * 9]:
            e += [parse(t), ev("x", SHARP), ev("x", [["x", H(0.1)]])]
        S.add(e, "sizes")


def c11(S, rng, scale):
    for n in pick(rng, scale, 3, 4):
        ns = names(n)
        e = W.usual()
        vs = vals(rng, ns)
        # (simplifying a chain takes cubic time)
        ks = ns[:40]
        for t in [weighted(ks), "max(" + ",".join(ns) + ")", "g(" + ",".join(ns) + ")", "+".join("%s*%s" % (a, b) for a, b in zip(ks, ks[1:])), "+".join("f(%s)" % m for m in ks), "g(" + ",".join("f(%s-%d)" % (m, i) for i, m in enumerate(ns)) + ")"]:
            b0 = len(e)
            e += [parse(t), ev("x", vs)]
            for m in (1, n // 2, n - 1, n):
                bs = rng.sample(vs, m)
                rest = [v for v in vs if v[0] not in {b[0] for b in bs}]
                bs += [[b[0], H(rng.choice([-7.25, 1000.5, 0.0, -0.0]))] for b in rng.sample(bs, min(3, m))]
                e += [mark(simp4("x", "y", bs), t=1, base=[b0, b0 + 1]), mark(ev("y", rest), t=1, base=[b0, b0 + 1]), mark(ev("y", vs), t=1, base=[b0, b0 + 1])]
            e += [mark(ev("x", vs), t=1, base=[b0, b0 + 1])]
        S.add(e, "sizes")


def c12(S, rng, scale):
    for n in pick(rng, scale, 5, 6):
        ns = names(n, rng.choice(["v", "q'", "A_"]))
        e = [parser(), parse(weighted(ns))]
        vs = [i * 1.5 + 0.25 for i in range(n)]
        e += [bind("x", "rt", ns, [vs, vs[::-1], vs + [3.5] * 5, vs[:-1], vs[:n // 2], []]), bind("x", "rt", ns[::-1], [vs]), bind("x", "rt", ns[1:], []),
              bind("x", "rt", ns[:-1] + ["more"], []), bind("x", "rt", ns[:n // 2], []), bind("x", "rt", [], []), bind("x", "rt", ns[:-2], []),
              bind("x", "fixed", ns[:9], []), bind("x", "array", ns[:12], []), bind("x", "rt", ns + names(n, "w"), [vs + vs, vs]), bind("x", "rt", names(n, "w") + ns, [vs + vs, vs])]
        used = ns[::max(1, n // 5)][:3]
        e += [parse("-".join(used)), bind("x", "rt", ns, [vs, vs[::-1], vs[:n // 2]]), bind("x", "rt", ns[::-1], [vs]), bind("x", "array", (used + names(9, "u"))[:9], [vs[:9]] if n >= 9 else [])]
        long = ["l" * n + c for c in "abc"]
        e += [parse("-".join(long)), bind("x", "fixed", long, [[1.5, 2.25, 7.0]]), bind("x", "rt", long[:2], []), bind("x", "rt", [long[0], "l" * n], []), bind("x", "array", long[::-1], [[1.5, 2.25, 7.0]])]
        S.add(e, "sizes")


def c13(S, rng, scale):
    for n in pick(rng, scale, 3, 3):
        ns = names(n)
        e = [ctx("c1")]
        C1 = ["c", "c1"]
        for i, m in enumerate(ns):
            e.append(var(C1, m, i + 0.25, rng.choice(["set", "with"])) if rng.random() < 0.6 else
                     fn(C1, m, rng.choice([-1, 1, 2]), "h", rng.choice(W.HOWS), rng.choice(["set", "with"])))
        e += [cclone("c2", C1), parser("p1", "c1"), parser("p2", "c2")]
        for m in rng.sample(ns, min(n, 12)):
            e += [get(C1, m), get(["c", "c2"], m), get(["p", "p1"], m), parse(m + "(1)", "a", "p1"), ev("a", []), var(["c", "c2"], m, -3.5), get(C1, m), get(["c", "c2"], m),
                  parse(m + "(1)", "b", "p1"), ev("b", []), fn(["p", "p2"], m, 1, "c"), parse(m + "(1)", "b", "p2"), ev("b", []), parse(m + "x(1)", "b", "p2"), ev("b", [[m + "x", H(2.0)]])]
        # the same name again and again
        for i in range(n):
            e.append(var(C1, "k", i + 0.5) if i % 2 else fn(C1, "k", 1, "h", "dyn"))
        e += [get(C1, "k"), parser("p3", "c1"), parse("k(3)", "a", "p3"), ev("a", []), ev("a", [["k", H(1.0)]])]
        e.append({"op": "symbols", "t": C1, "syms": [{"key": m, "k": "var", "v": H(2.0)} for m in ns[:n // 3]]})
        e += [get(C1, m) for m in rng.sample(ns, 8)] + [get(C1, "k"), get(["p", "p1"], ns[-1])]
        S.add(e + [END], "sizes")


def c14(S, rng, scale):
    for n in pick(rng, scale, 4, 4):
        ns = names(n)
        e = [parser(), declare(P, ns, rng.choice(["set", "with"]))]
        for k in (1, 2, n // 2, n - 1, n):
            us = rng.sample(ns, k)
            e += [parse("+".join(us)), ev("x", vals(rng, ns))]
            us[rng.randrange(k)] += "x"
            e += [parse("+".join(us)), parse("max(" + ",".join(us) + ")")]
        e += [parse("+".join(ns + [q])) for q in ("w", ns[-1] + "1", "V0", "v")]
        e += [declare(P, ns[: n // 2]), parse(ns[0]), parse(ns[-1]), parse("+".join(ns)), declare(P, []), parse(ns[0]), parse("1"), declare(P, ["l" * n]), parse("l" * n), parse("l" * (n - 1)),
              parse("l" * n + "l")]
        S.add(e, "sizes")


def c15(S, rng, scale):
    # many different texts, and the first ones again; many evaluations
    for n in (40, 150, 600):
        e = [parser(), fn(P, "g", -1, "h"), var(P, "k", 5.0)]
        texts = ["%d*x+%s" % (i, rng.choice(["y", "g(x,%d)" % i, "k", "max(x,%d)" % i, "(y+%d)!" % (i % 7), "sin(x*%d)" % i])) for i in range(n)]
        vs = [["x", H(1.25)], ["y", H(3.0)]]
        for t in texts:
            e += [parse(t), ev("x", vs)]
        for i in rng.sample(range(n), 20) + list(range(10)):
            b = 3 + 2 * i
            e += [mark(parse(texts[i]), t=1, base=[b]), mark(ev("x", vs), t=1, base=[b, b + 1])]
        S.add(e, "sizes")
    for t in ["x!+y", "g(x,y)", "x^y", "max(x,y)*k", "x%y", "sin(x)+cos(y)"]:
        e = [parser(), fn(P, "g", -1, "h"), var(P, "k", 5.0), parse(t)]
        seen = {}
        for _ in range(150):
            a, b = rng.randrange(0, 12), rng.randrange(1, 5)
            v = ev("x", [["x", H(a)], ["y", H(b)]])
            if (a, b) in seen:
                v = mark(v, t=1, base=[3, seen[a, b]])
            else:
                seen[a, b] = len(e)
            e.append(v)
        S.add(e, "sizes")


def c16(S, rng, scale):
    for n in pick(rng, scale, 4, 3):
        ns = names(n)
        vs = vals(rng, ns + ["x", "y"])
        e = [parser(), fn(P, "g", -1, "h"), fn(P, "q" * n, 2, "h"), var(P, "k", -5.5)]
        k = min(n, 60)
        for t in [weighted(ns), "-".join(ns), "max(" + ",".join(ns) + ")", "g(" + ",".join("%s-%d" % (m, i) for i, m in enumerate(ns)) + ")", "q" * n + "(x," + "l" * n + ")",
                  "(" * k + "x" + "-1)" * k, "-" * k + "x", "x^" * 6 + "2", "(x-" * k + "1" + ")" * k, "g(" * k + "x" + ",y)" * k, "(" * k + "x" + "!)" * 9 + ")" * (k - 9) if k > 9 else "x!",
                  "".join(ns), "0." + "0" * min(n, 300) + "1*x", "1" + "0" * min(n, 300) + "*x", "x" * n + "*2", "0.1" + "234567890" * (n // 9) + "x", "x/" + "/".join(["3"] * n), "k^2" + "*x" * n]:
            b = len(e)
            env = vs + [["l" * n, H(2.5)], ["".join(ns), H(1.5)], ["x" * n, H(3.0)]]
            env = [list(z) for z in dict(map(tuple, env)).items()]
            e += [parse(t), ev("x", env), mark(reparse("x", "r", env), t=1, base=[b, b + 1]), mark(ev("r", env), t=1, base=[b, b + 1]),
                  simp("x", "y", "multi", env[:n // 2]), ev("y", env), mark(reparse("y", "r", env), t=1, base=[b, b + 1]), mark(ev("r", env), t=1, base=[b, b + 1])]
        S.add(e, "sizes")


def c17(S, rng, scale):
    for n in pick(rng, scale, 4, 3):
        e = [parser(), fn(P, "g", -1, "h"), fn(P, "q" * n, 1, "h"), fn(P, "q" * n + "r", 1, "h")]
        ns = names(n)
        envs = [values(rng, ["x", "y", "z"], 0) for _ in range(2)]
        k = min(n, 60)
        deep = lambda leaf, o="-": "(" * k + leaf + (o + "1)") * k
        swap = lambda leaf, o="+": ("(1" + o) * k + leaf + ")" * k
        alt = lambda leaf: "".join(rng.choice(["(1+", "(x*"]) for _ in range(k)) + leaf + ")" * k
        st = rng.getstate()
        a1 = alt("x")
        rng.setstate(st)
        a2 = alt("y")
        pairs = [("max(" + ",".join(ns) + ")", "max(" + ",".join(ns[:-1] + ["other"]) + ")"), ("max(" + ",".join(ns) + ")", "max(" + ",".join(ns[:-1]) + ")"),
                 ("max(" + ",".join(ns) + ")", "max(" + ",".join(ns) + ")"), ("g(" + ",".join(ns) + ")", "g(" + ",".join([ns[1], ns[0]] + ns[2:]) + ")"),
                 ("+".join(ns), "+".join(ns[:-1] + ["x"])), ("+".join(ns), "+".join(ns)), ("-".join(ns), "-".join(ns)), ("-".join(ns), "-".join(ns[:-2] + [ns[-1], ns[-2]])),
                 (deep("x"), deep("y")), (deep("x"), deep("x")), (deep("x", "+"), swap("x", "+")), (deep("x", "*"), swap("x", "*")), (deep("x", "-"), swap("x", "-")), (deep("x", "+"), swap("y", "+")),
                 (a1, a2), (a1, a1), ("x" * n, "x" * (n + 1)), ("l" * n + "a", "l" * n + "b"), ("l" * n + "a", "l" * n + "a"), ("q" * n + "(x)", "q" * n + "r(x)"), ("q" * n + "(x)", "q" * n + "(x)"),
                 ("x+0.1", "x+0.1" + "0" * n), ("x+0.1", "x+0.10000000000000002"), ("x*1" + "0" * k, "x*1" + "0" * (k - 1) + "1"), ("x+1e%d" % -min(n, 300), "x+2e%d" % -min(n, 300)),
                 ("x+0.3", "x+0.30000000000000004"), ("x-1e16", "x-10000000000000002"), ("-" * k + "x", "-" * (k + 1) + "x"), ("-" * k + "x", "-" * k + "x"), ("(x" + "!)" * 1, "(y!)")]
        for a, b in pairs:
            e += [parse(a), parse(b, "y"), eq("x", "y", envs), clone("x", "c"), eq("x", "c", envs)]
        S.add(e, "sizes")


def c18(S, rng, scale):
    for n in W.VARIADIC:
        for k in pick(rng, scale, 3, 4):
            ns = names(k, "a")
            e = [parser(), parse(n + "(" + ",".join(ns) + ")")]
            for q in (0, 0, 0.02, 0.5):
                e.append(ev("x", [[m, H(rng.choice(SPECIAL) if rng.random() < q else rng.uniform(-9, 9))] for m in ns]))
            e += [ev("x", [[m, H(0.1)] for m in ns]), ev("x", [[m, H(INF)] for m in ns]), ev("x", [[m, H(-INF)] for m in ns]), ev("x", [[m, H(-0.0)] for m in ns]),
                  ev("x", [[m, H(1e308)] for m in ns]), ev("x", [[m, H(NAN if i == k - 1 else 1.0)] for i, m in enumerate(ns)]), ev("x", [[m, H(NAN if i == 0 else 1.0)] for i, m in enumerate(ns)]),
                  ev("x", [[m, H(-9.0 if i == k - 1 else 1.0)] for i, m in enumerate(ns)]), ev("x", [[m, H(9.0 if i == k - 1 else 1.0)] for i, m in enumerate(ns)]),
                  ev("x", [[m, H(-9.0 if i == 0 else 1.0)] for i, m in enumerate(ns)]), ev("x", [[m, H(9.0 if i == k // 2 else 1.0)] for i, m in enumerate(ns)])]
            S.add(e, n)


def c19(S, rng, scale):
    for n in [4, 5, 7, 9] + pick(rng, scale, 3, 3):
        ns = names(n)
        e = [parser(), parse(weighted(ns), "d"), asfn("d", P, "f", ns, min(n, 255) if n < 256 else -1, rng.choice(["rt", "twice", "fixed"])), parse("-".join(ns[::-1]), "d"),
             asfn("d", P, "r", ns, -1, "twice"), parse(ns[0] + "-" + ns[-1], "d"), asfn("d", P, "t", ns, -1, "rt")]
        vs = vals(rng, ns) + SHARP
        rev = ns[::-1]
        for t in ["f(" + ",".join(ns) + ")", "f(" + ",".join(rev) + ")", "r(" + ",".join(ns) + ")-r(" + ",".join(rev) + ")", "t(" + ",".join(rev) + ")*2", "f(" + ",".join(["x"] * (n - 1) + ["t(" + ",".join(ns) + ")"]) + ")",
                  "r(" + ",".join(ns + ["x", "y"]) + ")"]:
            e += [parse(t), mark(ev("x", vs), t=1, base=[]), simp("x", "w", "multi", vs[:n // 2]), mark(ev("w", vs), t=1, base=[])]
        # called many times, with different values, in one evaluation
        e += [parse("2*t+u", "d"), asfn("d", P, "s", ["t", "u"], 2, "rt"), parse("+".join("s(%s,%d)" % (m, i) for i, m in enumerate(ns))), mark(ev("x", vs), t=1, base=[])]
        k = min(n, 40)
        e += [parse("s(" * k + "x" + ",y)" * k), mark(ev("x", [["x", H(0.5)], ["y", H(-0.25)]]), t=1, base=[]), END]
        S.add(e, "sizes")


def c21(S, rng, scale):
    # a panic, again and again; deep inside; in one of many calls
    for n in (5, 20, 100, 300):
        e = [parser(), fn(P, "v", 1, "z", rng.choice(["dyn", "static", "md"])), fn(P, "g", -1, "h"), parse("g(x,v(y))+2*x", "ok"), parse("v(x)+y", "o2")]
        good, bad = [["x", H(1.5)], ["y", H(2.5)]], [["x", H(0.0)], ["y", H(0.0)]]
        for i in range(n):
            e.append(ev(rng.choice(["ok", "o2"]), bad))
            if i % 7 == 3:
                e += [simpself("o2", "inplace", [bad[0]]), ev("ok", good)]
        e += [ev("ok", good), ev("o2", good), show("o2"), bind("ok", "rt", ["x", "y"], [[1.5, 2.5], [0.0, 0.0], [2.5, 1.5]]), ev("ok", good), parse("v(x)*2", "n"), ev("n", good)]
        k = min(n, 100)
        for t in ["v(" * k + "y" + ")" * k, "+".join(["v(x)"] * k) + "+v(y)", "g(" + "x," * k + "v(y))", "(" * k + "v(y)" + "+x)" * k, "g(x," * k + "v(y)" + ")" * k]:
            e += [parse(t, "n"), ev("n", good), ev("n", [["x", H(1.5)], ["y", H(0.0)]]), ev("n", good), simpself("n", "multi", [["x", H(1.5)], ["y", H(0.0)]]), show("n"), ev("n", good)]
        S.add(e + [END], "sizes")


def c20(S, rng, scale):
    """Long lines, many variables, many lines."""
    for n in (12, 40, 120, 400, 1200):
        ns = names(n)
        evs = []
        # (what it prints of deep trees takes time that grows with the cube)
        deep = [weighted(ns), "+".join(ns) + "+)", "(" * n + "x" + ")" * n, "1" + "+1" * n] if n < 150 else []
        for t in deep + ["x" * n, "1" * n, " " * n + "2*3", "max(" + ",".join(ns) + ")", "max(" + "1," * n + ")", "x"]:
            evs.append({"op": "line", "p": "", "text": t + "\n", "env": vals(rng, ns) + [["x", H(1.5)], ["x" * n, H(2.5)]]})
        S.add(evs + [{"op": "leave", "how": rng.choice(["eof", "exit\n"])}], "dialogue")
    evs = []
    for i in range(150):
        evs.append({"op": "line", "p": "", "text": rng.choice(["%d+1\n" % i, "x+%d\n" % i, "%d+\n" % i, "\n", "y*x+%d\n" % i]), "env": [["x", H(i + 0.5)], ["y", H(-1.5)]]})
    S.add(evs + [{"op": "leave", "how": "eof"}], "dialogue")
    # what another program would take for a command, a comment or the last answer
    words = ["help", "q", "quit", "bye", "clear", "cls", "history", "vars", "ans", "Ans", "last", "let x", "x = 2", "x=2", "let x = 2", "set x 2", "x 2",
             "help()", "exit()", "exit(1)", "EXIT", "Exit", "eXit", "exit x", "x exit", "exit!", "exit;", "exit,", "-exit", "exit'", "exits", "(exit)", "1exit", "exit 1", "2 exit", "exit+exit",
             "x*X", "x+X*x'", "x_+x-_x", "xX-Xx", "Max(x)", "a'*a-A", "e*E", "pi-Pi", "sin X", "nan", "inf", "x y X", "x1-x10-x01", "x''-x'", "!", "!!", "x!!", "$x", "x?", "%", "%x", "^", "^x", "..", "x..y", "1...", "_", "_1", "__"]
    words += [c + t for c in "#;:/!?@$%&*+-=<>.,|\\~`'\"_^()[]{}" for t in ("", "x", " 1", c, "q")] + ["//x", "-- x", "/* x */", "x // y", "x # y", "x; y", "x;", "1, 2", "'x'", '"x"', ">> x", "x >> y", "\\x", "x\\"]
    words += ["\ufeffx", "x\u00a0y", "\u2003x", "x\u200b", "\u03c0", "x\u00b2", "\x00", "x\x00", "\x1b[A", "\x7f", "\x04", "x\x0b", "\x0cx"]
    ns = sorted({n for t in words for n in re.findall(r"[A-Za-z][\w']*", t)})
    env = [[n, H(1.5 + 0.25 * k)] for k, n in enumerate(ns)]
    for _ in range(scale):
        rng.shuffle(words)
        for ch in [words[k:k + 40] for k in range(0, len(words), 40)]:
            evs = [{"op": "line", "p": "", "text": a + t + b + "\n", "env": env} for t in ch for a, b in [rng.choice([("", ""), ("", ""), ("", ""), (" ", ""), ("", " "), ("", "\r")])]]
            # (the same line twice, answered otherwise)
            evs += [dict(e, env=[[n, H(-2.0 - 0.125 * k)] for k, n in enumerate(ns)]) for e in rng.sample(evs, 6) for e in (e, e)]
            S.add(evs + [{"op": "leave", "how": rng.choice(["eof", "exit\n"])}], "dialogue")


WIDE = {"C%02d" % k: globals()["c%02d" % k] for k in range(1, 22) if "c%02d" % k in globals()}
