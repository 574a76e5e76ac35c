"""Algebra that a rewriting might get wrong, with the values for which it does:
sums and products that round, overflow or cancel, powers of negative numbers,
functions of functions; and repetitions of an operation with values that are
easily taken for each other."""
import itertools, math, re, struct
from gen import *
from work import P, SHARP, mark, show, clone, ctx, cclone
import work as W

# (x, y, z): what is lost when terms or factors are rearranged
HARD = [(0.1, 0.7, 0.3), (5.0, 49.0, 0.1), (1e200, 1e200, 1e-200), (1.0, 1e30, -1e30), (1e30, 1.0, -1.0), (1e-200, 1e-200, 1e200),
        (-3.0, 0.5, 2.0), (INF, 2.0, -1.0), (-INF, 0.5, 3.0), (2.0, INF, 0.5), (0.5, -INF, 2.0), (1e16, 1.0, -1e16), (0.1, -0.3, 0.2), (1e308, 1e308, 0.5),
        (-2.0, 3.0, -0.5), (7.0, 3.0, 5.0), (-7.0, 3.0, -2.0), (5.5, -2.0, 0.25), (1000.0, 0.001, 999.0), (5e-324, 2.0, 0.5), (-0.5, -0.5, -4.0), (3.0, 1.0, 0.1),
        (49.0, 49.0, 49.0), (-5.0, -5.0, 5.0), (0.1, 0.1, 0.1), (1e300, 1e-300, 1e10), (2.5, 2.0, -1.0), (1.0, 0.1, 10.0), (170.0, 3.0, 171.0), (0.3, 3.0, 0.9)]
CONSTS = ["2", "0.5", "3", "0.1", "(-1)", "10", "1e200", "(-2)", "4", "1", "0", "0.3", "7", "1e-200", "(1/3)", "(-0.5)", "1e16", "100"]
LEAF = ["x", "x", "y", "y", "C", "C", "(-x)", "(-y)", "z"]
OPS = "+-*/%^"


def hard(rng):
    return [[n, H(v)] for n, v in zip("xyz", rng.choice(HARD))]


MORE = ["360", "12", "60", "8", "16", "5", "6", "9", "180", "0.01", "1000", "2.5", "1.5", "24", "0.125", "1e6", "365.25", "(-4)", "(-12)", "0.2", "1e-9", "255", "256", "1024", "(2/3)", "90", "11", "13", "1.1", "99.9", "(-0.1)", "1e300", "(-3)"]


def constant(rng):
    r = rng.random()
    return rng.choice(CONSTS) if r < 0.6 else rng.choice(MORE) if r < 0.85 else str(rng.randrange(1, 400)) if r < 0.93 else "%.3g" % rng.uniform(0, 50)


def filled(rng, t):
    """Constants in the places of C; the later ones often have to do with the first."""
    first = None
    while "C" in t:
        c = constant(rng)
        if first and rng.random() < 0.6:
            v = number_of(first)
            c = rng.choice([first, first, repr(2 * v), repr(v / 2), repr(-v), repr(1 / v) if v else "0", repr(v * v), repr(v * 3), repr(1 - v), repr(v + 1), repr(v - 1)])
            if c.startswith("-"):
                c = "(%s)" % c
            if "inf" in c or "nan" in c:
                c = first
        first = first or c
        t = t.replace("C", c, 1)
    return t


def number_of(c):
    c = c.strip("()")
    a, _, b = c.partition("/")
    return float(a) / float(b or 1)


def close(rng, t):
    """Values for an expression: the hard ones, or some that have to do with its constants."""
    v = hard(rng)
    cs = [float(c) for c in re.findall(r"(?<![\w.])\d+(?:\.\d+)?(?:e-?\d+)?", t)]
    if cs and rng.random() < 0.5:
        for p in v:
            if rng.random() < 0.6:
                c = rng.choice(cs)
                p[1] = H(rng.choice([c, -c, c + 1, c - 1, 2 * c, -2 * c, c / 2, -c / 2, 1 - c, 1 / c if c else 0.0, 3 * c + 1, -c - 1, 0.25 * c, -0.25 * c, c * c, c + 0.5]))
    return v


def generic(rng):
    """Values of alike magnitudes with all their digits: roundings tell the order of operations."""
    return [[n, H(rng.choice([1, 1, -1]) * 10 ** rng.uniform(-0.7, 0.9))] for n in "xyz"]


def two(rng):
    """All expressions of two operators, up to the choice of constants."""
    for o, q in itertools.product(OPS, OPS):
        for a, b, c in itertools.product(["x", "y", "C"], repeat=3):
            if (a, b, c) == ("C", "C", "C") or "x" not in (a, b, c):
                continue
            for t in ("(%s%s%s)%s%s" % (a, o, b, q, c), "%s%s(%s%s%s)" % (a, o, b, q, c)):
                yield filled(rng, t)
                if t.count("C") == 2:
                    # the same constant twice, small or large, and two that have something to do with each other
                    yield t.replace("C", rng.choice(["2", "3", "0.5", "0.1", "5", "(-1)", "(-2)", "7"]))
                    yield t.replace("C", rng.choice(["360", "12", "100", "16", "24", "60", "9", "1000", "10"]))
                    yield filled(rng, t)


def signs(rng):
    """The same with signs somewhere."""
    for o, q in itertools.product(OPS, OPS):
        a, b, c = (rng.choice(["x", "y", "C"]) for _ in range(3))
        for k in range(1, 8):
            s = ["(-%s)" % v if k >> i & 1 else v for i, v in enumerate((a, b, c))]
            yield filled(rng, "(%s%s%s)%s%s" % (s[0], o, s[1], q, s[2]))
            yield filled(rng, "%s%s(%s%s%s)" % (s[0], o, s[1], q, s[2]))
        yield filled(rng, "-(%s%s%s)%s%s" % (a, o, b, q, c))
        yield filled(rng, "-(%s%s(%s%s%s))" % (a, o, b, q, c))
        yield filled(rng, "%s%s-(%s%s%s)" % (a, o, b, q, c))
    for o in OPS:
        for a, b in itertools.product(["x", "y", "C"], repeat=2):
            if "C" != a or "C" != b:
                for t in ("-(%s%s%s)", "-(-(%s%s%s))", "(-%s)%s%s", "%s%s(-%s)", "(-%s)%s(-%s)", "(%s%s%s)!", "--%s%s-%s", "+(%s%s%s)", "-(-%s%s-%s)"):
                    yield filled(rng, t % (a, o, b))


def three(rng, n):
    for _ in range(n):
        a, b, c, d = (rng.choice(LEAF) for _ in range(4))
        if rng.random() < 0.4:
            c, d = rng.choice([(a, b), (b, a), (a, d), (c, b), (b, d), (c, a)])
        o, q, r = (rng.choice(OPS) for _ in range(3))
        if rng.random() < 0.3:
            r = o
        t = rng.choice(["(%s%s%s)%s(%s%s%s)", "((%s%s%s)%s%s)%s%s", "(%s%s(%s%s%s))%s%s", "%s%s((%s%s%s)%s%s)", "%s%s(%s%s(%s%s%s))"]) % (a, o, b, q, c, r, d)
        yield filled(rng, t)


ONE = [f for f in UNARY if f != "gamma"] + ["gamma"]


def functions(rng):
    """Functions of functions, and around and inside of operators."""
    for f, g in itertools.product(ONE, ONE):
        yield "%s(%s(x))" % (f, g)
    for f in ONE:
        for t in ("%s(-x)", "-%s(x)", "%s(x)!", "%s(x!)", "%s(x^2)", "%s(x)^2", "%s(x*x)", "%s(x*y)", "%s(x/y)", "%s(x+y)", "%s(x-y)", "%s(x^y)", "%s(x%%y)",
                  "%s(1/x)", "1/%s(x)", "%s(2*x)", "%s(x)^(-1)", "%s(abs(x))", "abs(%s(x))", "%s(x+1)", "%s(-x)^2", "%s(0*x)", "%s(x*1)", "%s(x^0.5)",
                  "%s(10^x)", "%s(2^x)", "%s(e^x)", "e^%s(x)", "10^%s(x)", "%s(-x)*-1", "%s(x)-1", "%s(x)%%1", "%s(sum(x))", "%s(max(x,y))"):
            yield t % f
        for t in ("%s(x)%s%s(x)", "%s(x)%s%s(y)", "%s(-x)%s%s(x)", "%s(x)^2%s%s(x)^2"):
            yield t % (f, rng.choice(OPS), f)
        yield "%s(x)%s%s(x)" % (f, rng.choice(OPS), rng.choice(ONE))
        yield "%s(x)^2%s%s(x)^2" % (f, rng.choice("+-*/"), rng.choice(ONE))
        for v in VARIADIC:
            yield "%s(%s(x), y)" % (v, f)
            yield "%s(%s(x,y))" % (f, v)
    for v in VARIADIC + BINARY:
        for t in ("%s(x,x)", "%s(x,-x)", "%s(x,y)-%s(y,x)", "%s(-x,-y)", "-%s(x,y)", "%s(x,0)", "%s(0,x)", "%s(1,x)", "%s(x,1)", "%s(x,y)^2", "%s(2*x,2*y)", "%s(x,2)", "%s(x,10)",
                  "%s(x^2,x)", "%s(x^2,y^2)", "%s(%s(x,y),x)", "%s(x,e)", "%s(x,x^2)", "%s(abs(x),abs(y))", "%s(x,y)*%s(x,y)", "%s(%s(x,y),%s(y,x))", "%s(2,x)", "%s(-x,y)", "%s(x,-y)"):
            yield t.replace("%s", v)
    for v in VARIADIC:
        for t in ("%s(x)", "%s(x,y,x)", "%s(x,y,z)", "%s(%s(x,y),z)", "%s(x,%s(y,z))", "%s(x,x,x)", "%s(x,1,y,2)", "%s(1,2,x)", "%s(x,1,2)", "%s(0,0,x)", "%s(x,-x,y)", "%s(x*2,y*2,z*2)",
                  "%s(x+1,y+1)", "%s(1,x,1)", "%s()", "%s(x,%s())", "%s(x,0,y,0)"):
            yield t.replace("%s", v)


KNOWN = ["sin(x)^2+cos(x)^2", "1-sin(x)^2", "1-cos(x)^2", "sin(x)/cos(x)", "cosh(x)^2-sinh(x)^2", "exp(x)*exp(y)", "exp(x)/exp(y)", "exp(x+y)", "ln(x)+ln(y)", "ln(x*y)", "ln(x)-ln(y)",
         "ln(x/y)", "ln(x^y)", "y*ln(x)", "log(x)/log(y)", "ln(x)/ln(2)", "ln(x)/ln(10)", "logn(x,y)*logn(y,x)", "sqrt(x)*sqrt(y)", "sqrt(x)*sqrt(x)", "sqrt(x)^2", "sqrt(x*y)",
         "sqrt(x^2+y^2)", "sqrt(x^4)", "(x^y)^z", "(x*y)^z", "x^y*x^z", "x^y/x^z", "x^z*y^z", "x^(y+z)", "x^(y-z)", "x^(-y)", "(1/x)^y", "x^y^z", "x^(y^z)", "x^0.5", "x^(1/3)",
         "x^(1/2)", "(x^2)^0.5", "(x^2)^(1/2)", "(x^3)^(1/3)", "x^2^0.5", "x^1.5", "x^(-1)", "x^(-0.5)", "x^3", "x^4", "x*x*x", "x*x", "e^x", "e^(x+y)", "10^x", "2^x", "1^x", "0^x", "(-1)^x",
         "x*y+x*z", "x*(y+z)", "x*y-x*z", "x*(y-z)", "x/y+z/y", "(x+y)/z", "x/z+y/z", "(x+y)*(x-y)", "x^2-y^2", "(x+y)^2", "x^2+2*x*y+y^2", "x+x", "x+x+x", "2*x+3*x", "x-2*x", "x*2/2", "x/2*2",
         "x/3*3", "x*3/3", "x*y/y", "x/y*y", "x+y-y", "x-y+y", "x+y-x", "(x-y)-x", "x-(x-y)", "x-(y-x)", "x-(x+y)", "x-(y+z)", "x-(y-z)", "(x-y)-z", "x+(y-z)", "x/(y/z)", "x/(y*z)",
         "x/y/z", "x*(y/z)", "(x*y)/z", "x*(1/y)", "1/(1/x)", "1/x/y", "(1/x)*(1/y)", "x*y*z", "x*(y*z)", "x+(y+z)", "x+y+z", "x-y-z", "-x-y", "-(x+y)", "-(x-y)", "-x*y", "x*-y", "-x/y", "x/-y",
         "-x*-y", "-x/-y", "-x^2", "(-x)^2", "(-x)^3", "(-x)^y", "-x%y", "-(x%y)", "x%-y", "(-x)%y", "(-x)%(-y)", "x%y%y", "(x%y)%z", "(x+y)%y", "(x*y)%y", "(x*y)%x", "(x%y)+(z%y)", "x%1", "x-x%1",
         "x-x%y", "(x-x%y)/y", "x%y/y", "(2*x)%2", "x!/x", "(x-1)!*x", "x!*x!", "(x!)!", "factorial(x)/x", "gamma(x+1)", "gamma(x)*x", "floor(x)+1", "floor(x+1)", "ceil(x)-1", "-floor(-x)",
         "floor(x)-x", "x-floor(x)", "x-trunc(x)", "trunc(x)+fract(x)", "round(x+0.5)", "round(x)-x", "floor(x+0.5)", "trunc(x/y)*y", "abs(x)*abs(y)", "abs(x*y)", "abs(x)^2", "abs(x^2)",
         "abs(x)/x", "x/abs(x)", "abs(x-y)-abs(y-x)", "abs(abs(x)-y)", "max(x,y)+min(x,y)", "max(x,y)-min(x,y)", "max(x,-x)", "min(x,-x)", "-max(-x,-y)", "max(x,x)", "max(min(x,y),x)", "mean(x,y)*2",
         "mean(x,y)-sum(x,y)/2", "sum(x,y)-x", "sum(x,-x,y)", "hypot(x,y)^2", "hypot(x,0)", "hypot(x,x)", "hypot(-x,y)", "atan(x/y)", "atan2(y,x)", "atan2(x,x)", "atan2(0,x)", "atan2(x,0)", "tan(atan(x))",
         "atan(tan(x))", "sin(asin(x))", "asin(sin(x))", "cos(acos(x))", "acos(cos(x))", "sin(-x)", "-sin(x)", "cos(-x)", "tan(-x)", "sin(x+pi)", "sin(x+2*pi)", "cos(x+pi)", "sin(pi)", "cos(pi/2)",
         "sin(pi-x)", "sin(2*x)", "2*sin(x)*cos(x)", "cos(x)^2-sin(x)^2", "sinh(-x)", "cosh(-x)", "tanh(-x)", "sinh(x)/cosh(x)", "(exp(x)-exp(-x))/2", "(exp(x)+exp(-x))/2", "exp(-x)", "1/exp(x)",
         "exp(x)^y", "exp(x*y)", "exp(2*x)", "exp(x)^2", "exp(0*x)", "ln(exp(x))", "exp(ln(x))", "log(10^x)", "10^log(x)", "ln(e^x)", "e^ln(x)", "logn(2^x,2)", "2^logn(x,2)", "ln(1/x)", "-ln(x)",
         "ln(x^2)", "2*ln(x)", "ln(sqrt(x))", "ln(x)/2", "log(x)+log(y)", "cbrt(x)^3", "cbrt(x^3)", "cbrt(-x)", "-cbrt(x)", "sqrt(x)/x", "x/sqrt(x)", "1/sqrt(x)", "recip(recip(x))", "recip(x)*x",
         "1/recip(x)", "recip(x*y)", "x*recip(y)", "invert(x)*recip(x)", "0*x", "x*0", "0/x", "x/0*0", "x-x", "x/x", "x%x", "x^0", "0^0*x", "(x-x)*y", "(x-x)/y", "x/(y-y)", "(x/x)*y", "x^(y-y)",
         "(y-y)^x", "x*(y/y)", "x+(y-y)", "x-(y-y)", "(x*0)+y", "(x^0)*y", "x*1*y", "1*x*1", "0+x+0", "x-0-y", "0-x-y", "0-(x-y)", "0-(0-x)", "-(0-x)", "1/(x/y)", "(x/y)/(x/z)", "(x/y)*(y/z)",
         "(x*y)/(x*z)", "(x+y)/(y+x)", "(x+y)-(y+x)", "(x*y)-(y*x)", "(x-y)/(y-x)", "(x-y)+(y-x)", "(x*y)%(y*x)", "(x^y)-(y^x)", "(x/y)-(y/x)", "x*y-y*x+z", "(-x)+x", "x+(-x)", "-x+y+x", "(-(x+y))+(y+x)",
         "x--x", "x-(-y)", "x+-y", "(-x)-(-y)", "(-x)+(-y)", "x^2/x", "x^3/x^2", "x^2*x", "x*x^2", "x^y*x", "x/x^2", "2^x*2^y", "(2^x)^y", "4^x/2^x", "(x/y)^2", "x^2/y^2", "(2*x)^2", "4*x^2", "(x*y)^0.5",
         "x^0.5*y^0.5", "x^0.5*x^0.5", "(x^0.5)^2", "0.1*x+0.2*x", "0.3*x-0.1*x", "x*0.1*10", "x/10*10", "x/0.1", "x*10", "x*0.5", "x/2", "x/4", "x*0.25", "x/3", "x*(1/3)", "x/7", "x/49", "x*1e200*1e200",
         "1e200*x*1e-200", "x/1e-200/1e-200", "1e308+x+1e308", "x+1e16-1e16", "1+x-1", "1-x-1", "x+1-1", "2+x+3", "2*x*3", "(x+2)+3", "(x+0.1)+0.2", "(x*0.1)*3", "0.1*(3*x)", "3-(x-2)", "3-(2-x)",
         "(x-2)-3", "(x-0.1)-0.2", "2-(3+x)", "2*(x+3)", "2/(3/x)", "2/(x/3)", "(2/x)/3", "(x/2)/3", "(x/3)/7", "(2*x)/3", "6/(2*x)", "(x%7)%3", "(x%3)%7", "(x^2)^3", "(x^0.5)^4", "2^(3^x)", "(2^3)^x"]


def algebra(rng, scale, part=1.0):
    texts = list(two(rng)) + list(signs(rng)) + list(three(rng, 1500 * scale))
    if part < 1:
        texts = rng.sample(texts, int(len(texts) * part))
    return KNOWN + texts


def c10(S, rng, scale):
    for ch in chunks(algebra(rng, scale), 20):
        e = [parser()]
        for t in ch:
            e += [parse(t)] + [ev("x", close(rng, t)) for _ in range(4 + 3 * (t in KNOWN))] + [ev("x", generic(rng))]
        S.add(e, "algebra")
    for ch in chunks(functions(rng), 20):
        e = [parser()]
        for t in ch:
            e += [parse(t)] + [ev("x", hard(rng)) for _ in range(3)] + [ev("x", [["x", H(rng.choice([-1.5, 1000.0, 0.7, -0.25, 3.0]))], ["y", H(0.3)], ["z", H(-2.5)]]), ev("x", generic(rng)), ev("x", generic(rng))]
        S.add(e, "functions")
    vals = [v for v in SPECIAL if v == v] + [-3.0, 0.1, 49.0, -0.1]
    for o in OPS:
        for ch in chunks([t % ((c, o) if k else (o, c)) for c in CONSTS + ["(-3)", "1.5", "(1/0)", "(-1/0)", "1e308", "5e-324"] for k, t in enumerate(["x%s%s", "%s%sx"])], 8):
            e = [parser()]
            for t in ch:
                e += [parse(t)] + [ev("x", [["x", H(v)]]) for v in vals]
            S.add(e, "constants")
    redefined(S, rng, scale)
    # no variables: folded
    texts = []
    for o, ps in edges(rng, 70 * scale).items():
        for a, b in ps:
            if abs(a) < INF and abs(b) < INF:
                a, b = ("(%r)" % v if v < 0 or rng.random() < 0.1 else repr(v) for v in (a, b))
                texts += ["%s%s%s" % (a, o, b)]
                r = rng.random()
                if r < 0.1:
                    texts.append("max(%s%s%s,x)" % (a, o, b))
                elif r < 0.2:
                    texts.append("x*(%s%s%s)" % (a, o, b))
    for f in UNARY + ["!", "-", "sum", "hypot", "atan2", "logn", "min", "mean"]:
        for _ in range(12 * scale):
            v = rng.choice([rng.choice([1, -1]) * 10 ** rng.uniform(-2, 2), float(rng.randrange(0, 40)), rng.randrange(0, 100) / 4, 10 ** rng.uniform(-300, 300)])
            v = "(%r)" % v if v < 0 else repr(v)
            w = repr(rng.choice([2.0, 0.1, 1e10, 0.3, 7.0, float(rng.randrange(1, 50))]))
            texts.append("-" + v if f == "-" else v + "!" if f == "!" else "%s(%s,%s)" % (f, v, w) if f in ("sum", "hypot", "atan2", "logn", "min", "mean") else "%s(%s)" % (f, v))
    rng.shuffle(texts)
    for ch in chunks(texts, 30):
        S.add([parser()] + [q for t in ch for q in (parse(t), ev("x", [["x", H(1.5)]]))], "folded")


def redefined(S, rng, scale, one=None):
    """The names of the built-in functions mean something else."""
    texts = list(functions(rng))
    texts = [t for t in KNOWN if "(x" in t and t[0] not in "(x-"] + (texts if scale > 1 else rng.sample(texts, 900))
    for ch in chunks(texts, 20):
        e = [parser()]
        for n, a in [(n, 1) for n in UNARY] + [(n, 2) for n in BINARY] + [(n, -1) for n in VARIADIC]:
            if rng.random() < 0.9:
                e.append(fn(P, n, a, rng.choice("hhhd"), rng.choice(W.HOWS)))
        for t in ch:
            if one:
                one(e, t)
            else:
                e += [parse(t), ev("x", close(rng, t)), ev("x", [["x", H(1.5)], ["y", H(-2.25)], ["z", H(3.0)]])]
        S.add(e, "redefined")


def c11(S, rng, scale):
    def one(e, t, via):
        v = close(rng, t) if rng.random() < 0.6 else generic(rng)
        b = len(e)
        e += [parse(t), ev("x", v)]
        base = [b, b + 1]
        bind = rng.sample(v, rng.choice([1, 1, 2]))
        rest = [p for p in v if p not in bind]
        e += [mark(simp("x", "y", rng.choice(via), bind), t=1, base=base), mark(ev("y", rest), t=1, base=base)]

    texts = algebra(rng, scale, 0.7) + rng.sample(list(functions(rng)), 700)
    hows = ["one", "inplace", "multi", "multiinplace"]
    for ch in chunks(texts, 20):
        e = [parser()]
        for t in ch:
            one(e, t, hows)
        S.add(e, "algebra")
    redefined(S, rng, scale, lambda e, t: one(e, t, hows))
    for o, ps in edges(rng, 100 * scale).items():
        for ch in chunks(ps, 50):
            e = [parser(), parse("x%sy" % o), parse("sum(x%sy,x,2)-y" % o, "w")]
            for a, b in ch:
                a, b = [["x", H(a)]], [["y", H(b)]]
                if rng.random() < 0.5:
                    a, b = b, a
                x = rng.choice("xxw")
                k = len(e)
                e.append(ev(x, a + b))
                e += [mark(o, t=1, base=[k]) for o in (simp(x, "s", rng.choice(hows), a), ev("s", b), simp(x, "s", rng.choice(hows), a + b), ev("s", []))]
            S.add(e, "edges")


def c08(S, rng, scale):
    for ch in chunks(algebra(rng, scale, 0.5), 20):
        e = [parser()]
        for t in ch:
            e += [parse(t), ev("x", close(rng, t)), ev("x", generic(rng))]
        S.add(e, "algebra")
    for ch in chunks(rng.sample(list(functions(rng)), 500), 20):
        e = [parser()]
        for t in ch:
            e += [parse(t), ev("x", close(rng, t)), ev("x", generic(rng))]
        S.add(e, "functions")
    vals = SPECIAL + [-3.0, 0.1, 49.0, -0.1, 1e-170, 1e155]
    for o in OPS:
        for ch in chunks([t % ((c, o) if k else (o, c)) for c in CONSTS + ["(-3)", "1.5", "(1/0)", "(-1/0)", "1e308", "5e-324", "(-0)", "(0/0)"] for k, t in enumerate(["x%s%s", "%s%sx"])], 14):
            e = [parser()]
            for t in ch:
                e += [parse(t)] + [ev("x", [["x", H(v)]]) for v in vals]
            S.add(e, "constants")


def c03(S, rng, scale):
    """Few digits at each place around the point, exponents, zeros before and after."""
    dig = lambda n: rng.choice("123456789") + "".join(rng.choice("0123456789") for _ in range(n - 1))
    texts = []
    for k in range(0, 45):
        for m in (dig(rng.choice([1, 2, 3])), dig(rng.randrange(4, 12)), dig(rng.randrange(12, 16)), dig(rng.randrange(16, 21)), dig(rng.randrange(20, 30))):
            places = [m + "0" * k, "0." + "0" * max(0, k - len(m)) + m[-max(1, k):], m + "e" + str(k), m + "e-" + str(k), m + "." + "0" * k + "e" + str(k), "." + "0" * k + m,
                      m[0] + "." + m[1:] + "e" + rng.choice("+-") + str(k), "0" * k + m + "." + dig(2), m + "." + dig(max(1, k)), dig(max(1, k)) + "." + m]
            texts += rng.sample(places, min(len(places), 5 * scale)) + [places[1]]
    for k in list(range(285, 330)):
        texts += [dig(rng.choice([1, 2, 5, 16, 17])) + "e" + rng.choice("+--") + str(k), dig(1) + "." + dig(rng.choice([1, 5, 15, 16])) + "E" + rng.choice("+--") + str(k)]
    for x in (2 ** 53 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2, 2 ** 53 + 3, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1025, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 2049, 2 ** 24 + 1, 2 ** 31, 2 ** 32 + 1, 2 ** 127 + 1, 2 ** 128 - 1):
        t = str(x)
        texts += [t, t + ".0", t + ".5", t + "e1", t + "e-1", t + "000", t[:-3] + "." + t[-3:], "0." + t, t[0] + "." + t[1:], t + "e22", t + "e-22", t + "e23", t + "e-23"]
    # exponents with zeros in front, huge ones, what stands before them
    for _ in range(300 * scale):
        m = rng.choice([dig(1), dig(3), dig(1) + ".", "." + dig(2), dig(1) + "." + dig(4), "0", "0.0", dig(2) + "_", dig(1) + "_" + dig(3), dig(1) + "._", "00" + dig(1), dig(18), "0." + "0" * 20 + dig(2), "_" + dig(1), "1__0", dig(3) + ".0_0"])
        k = rng.choice([str(rng.randrange(0, 25)), str(rng.randrange(280, 340)), dig(rng.randrange(3, 25)), "0", "7"])
        texts.append(m + rng.choice("eE") + rng.choice(["", "", "+", "-"]) + "0" * rng.choice([0, 0, 1, 2, 4, 8, 30]) + k + rng.choice([""] * 9 + ["_", "e", "e1", ".", "_1", "x", "+", " 1", ".5"]))
    for k in (100, 308, 330, 400, 800):
        d = rng.choice([dig(1), dig(5), dig(17)])
        texts += [d + "0" * k + "e-" + str(k + rng.choice([0, 1, 5])), "0." + "0" * k + d + "e" + str(k + rng.choice([0, 1, 3])), d + "0" * k + "." + "0" * 30 + "e-" + str(k), "0" * k + d, d + "." + "0" * k + "1"]
    for ch in chunks(texts, 40):
        e = [parser()]
        for t in ch:
            e += [parse(t), ev("x", [["x", H(1.0)], ["e", H(1.0)]])]
        S.add(e, "places")


def c09(S, rng, scale):
    """Which variables are needed doesn't depend on the values of the other ones."""
    texts = rng.sample(algebra(rng, scale, 0.3), 900) + rng.sample(list(functions(rng)), 300) + ["1^x", "0^x", "x^0", "0*x*y", "x/x", "(x-x)*y", "0/x", "0%x", "x%x", "1*x", "0-x", "x!*0", "min(x,y)*0", "1^x^y", "0^(x+y)"]
    for ch in chunks(texts, 15):
        e = [parser()]
        for t in ch:
            v = hard(rng)
            if rng.random() < 0.3:
                v[rng.randrange(3)][1] = H(rng.choice([0.0, 1.0, -0.0, NAN, INF]))
            e += [parse(t), W.probe("x", v)]
        S.add(e, "algebra")


def again(e, t, *envs):
    """Reads t, displays it and reads that; what is wrong about t itself doesn't count."""
    b = len(e)
    e += [parse(t)] + [ev("x", v) for v in envs]
    base = list(range(b, len(e)))
    e += [mark({"op": "reparse", "p": "p", "x": "x", "y": "y", "env": envs[0]}, t=1, base=base)]
    e += [mark(ev("y", v), t=1, base=base) for v in envs] + [mark(show("y"), t=1, base=base)]


def c16(S, rng, scale):
    texts = rng.sample(algebra(rng, scale, 0.4), 800) + rng.sample(list(functions(rng)), 200)
    for ch in chunks(texts, 12):
        e = [parser()]
        for t in ch:
            v, w = hard(rng), hard(rng)
            again(e, t, v, w)
            b = len(e) - 1
            e += [W.simp("x", "s", "one", [rng.choice(v)]), ev("s", v)]
            e += [mark({"op": "reparse", "p": "p", "x": "s", "y": "u", "env": v}, t=1, base=[b + 1, b + 2]), mark(ev("u", v), t=1, base=[b + 1, b + 2])]
        S.add(e, "algebra")


def shapes(S, rng, scale):
    """Each kind of operand at each place, displayed and read again."""
    kinds = ["x", "2", "C", "-x", "x!", "f(x)", "-f(x)", "f(x)!", "g(x,y)", "g()", "(x+y)", "(x-y)", "(x*y)", "(x/y)", "(x%y)", "(x^y)", "-(x+y)", "-(x*y)", "-(x^y)", "(-x)!",
             "(-f(x))!", "-x!", "-f(x)!", "--x", "-(-f(x))", "(x+y)!", "(x^y)!", "(x!)!", "f(x)y", "2x", "-2x", "f(-x)", "f(x!)", "f(x+y)", "f(-f(x))", "f(x)^y", "(-x)^y", "-x^y", "k", "-k", "-2", "sin(x)", "-max(x,y)", "+x"]
    texts = []
    for a in kinds:
        texts += ["-(%s)" % a, "(%s)!" % a, "f(%s)" % a, "g(%s,%s)" % (a, rng.choice(kinds)), "-(-(%s))" % a, "(-(%s))!" % a]
        for b in kinds:
            for o in "^" + "".join(rng.sample("+-*/%", 2 if scale == 1 else 5)):
                texts.append("(%s)%s(%s)" % (a, o, b))
    rng.shuffle(texts)
    for ch in chunks(texts, 40):
        e = list(W.usual())
        for t in ch:
            t = t.replace("C", rng.choice(["7", "0.5", "1e-9", "2.5e30", "(-3)", "(0-0.25)"]))
            env = [["x", H(rng.choice([2.0, 3.0, 0.75]))], ["y", H(rng.choice([2.0, 3.0, -1.5]))]]
            again(e, t, env)
        S.add(e, "shapes")


def aliased(S, rng, scale):
    """Functions under other names than their own."""
    for _ in range(25 * scale):
        ns = ["x", "y", "f", "g", "sin", "k"]
        keys = rng.sample(["u", "v", "w", "t", "max", "Z"], 3)
        own = [rng.choice(ns) for _ in keys]
        syms = [{"key": a, "k": "fn", "how": rng.choice(["static", "dyn", "md"]), "f": {"n": b, "a": rng.choice([1, -1]), "s": "h"}} for a, b in zip(keys, own)]
        if rng.random() < 0.3:
            syms.append({"key": rng.choice(["x", "y", "s"]), "k": "var", "v": H(2.5)})
        e = [parser(), {"op": "symbols", "t": P, "syms": syms}]
        d = rng.choice([None, [], rng.sample(ns, 2), keys])
        if d is not None:
            e.append(W.declare(P, d))
        for _ in range(20):
            a, n = rng.randrange(len(keys)), rng.choice(ns)
            n = rng.choice([n, own[a], own[a]])
            t = rng.choice(["%s(%s)", "%s(%s)+1", "-%s(%s)", "%s(%s+y)", "%s(-%s)", "%s(%s!)", "%s(%s)^x", "2%s(%s)"]) % (keys[a], n)
            if rng.random() < 0.3:
                t = t.replace(n, "%s(%s)" % (rng.choice(keys), n), 1) if n not in keys[a] else t
            full = [[m, H(1.5 + 0.25 * i)] for i, m in enumerate(ns)]
            e += [parse(t), ev("x", full), ev("x", [q for q in full if q[0] != n]), W.simp("x", "s", "one", [[n, H(2.0)]]), ev("s", full)]
        S.add(e, "aliased")


def magnitudes(rng, n):
    """Numbers of all magnitudes, in particular around powers of 2 and 10."""
    out = []
    for k in range(-1074, 1024):
        if rng.random() < 0.25 or -70 < k < 70:
            v = math.ldexp(1.0, k)
            near = [math.nextafter(v, 0), math.nextafter(v, INF), v * 1.5, v * 1.03125, v * (1 + rng.random())]
            out += [v] + (near if 0 < k < 70 else rng.sample(near, 1))
    for k in range(-320, 309):
        v = float("1e%d" % k)
        if rng.random() < 0.3 or -24 < k < 24:
            out += [v, v * rng.randrange(2, 10), rng.choice([math.nextafter(v, 0), math.nextafter(v, INF), v * rng.random() * 10, float("%de%d" % (rng.randrange(1, 100000), k))])]
    out += [float(rng.randrange(10 ** rng.randrange(1, 22))) + rng.choice([0, 0, 0.5, 0.25, 0.125]) for _ in range(n)]
    out = [v * rng.choice([1, 1, -1]) for v in out if abs(v) < INF]
    rng.shuffle(out)
    return out


def c16_all(S, rng, scale):
    c16(S, rng, scale)
    shapes(S, rng, scale)
    for vs in chunks(magnitudes(rng, 300 * scale), 60):
        e = list(W.usual())
        for ten in chunks(vs, 10):
            again(e, "g(x," + ",".join(repr(abs(v)) for v in ten) + ")", [["x", H(1.5)]])
        for v in vs:
            # alone, so that nothing absorbs its last digit
            again(e, "x*" + repr(abs(v)), [["x", H(1.0)]])
        for three in chunks(vs, 3):
            if len(three) < 3:
                continue
            env = [["w", H(2.0)]]
            e += [parse(rng.choice(["g(w,x,y,u)", "x*w+y^w-w/u", "h(w-x,(w+y)!)+u*w"]))]
            b = len(e)
            e += [W.simp("x", "s", "multi", [[n, H(v)] for n, v in zip("xyu", three)]), ev("s", env)]
            e += [mark({"op": "reparse", "p": "p", "x": "s", "y": "y", "env": env}, t=1, base=[b, b + 1]), mark(ev("y", env), t=1, base=[b, b + 1])]
        S.add(e, "magnitudes")


def c17(S, rng, scale):
    """Two and three operators against nearly the same."""
    def near(t):
        r = rng.random()
        if r < 0.3:      # another operator
            k = rng.choice([i for i, c in enumerate(t) if c in "+-*/%^"] or [0])
            return t[:k] + rng.choice("+-*/%^") + t[k + 1:]
        if r < 0.5:      # another leaf
            k = rng.choice([i for i, c in enumerate(t) if c in "xyz"] or [0])
            return t[:k] + rng.choice("xyz1") + t[k + 1:]
        if r < 0.65:     # regrouped
            return t.replace("(", "", 1).replace(")", "", 1) if t.count("(") == 1 and t.count(")") == 1 else t.replace("(", "-(", 1)
        if r < 0.8:      # swapped
            return t.translate(str.maketrans("xy", "yx"))
        return rng.choice(["%s+0", "-%s", "+%s", "%s*1", "(%s)", "--%s", "1*%s", "sum(%s)", "%s/1", "%s^1", "abs(%s)", "(%s)!"]) % (t if t[0] == "(" and t[-1] == ")" and t.count("(") == 1 else "(" + t + ")")

    for ch in chunks(rng.sample(list(two(rng)) + list(signs(rng)), 700) + rng.sample(KNOWN, 150) + rng.sample([t for t in functions(rng) if "x" in t], 250), 12):
        e = [parser()]
        for t in ch:
            envs = [hard(rng)]
            e += [parse(t), parse(near(t), "y"), W.eq("x", "y", envs), parse(near(t), "u"), W.eq("u", "x", envs), W.eq("u", "y", envs)]
            if "(" in t and "x" in t:
                # a mirrored one
                a, _, b = t.partition("(") if t[0] != "(" else ("", "", "")
                if a and t.endswith(")") and a[-1] in OPS and t.count("(") == 1:
                    e += [parse("(" + b + a[-1] + a[:-1], "m"), W.eq("x", "m", envs)]
        S.add(e, "algebra")


def c17_all(S, rng, scale):
    c17(S, rng, scale)
    # numbers that look alike, from a context or by simplification
    vs = ALIKE + [1e300, 1e-300, 3.0, 1e-320, 9007199254740993.0, 9007199254740994.0, 0.1, 0.09999999999999999, 1e15, 1e15 + 0.125]
    pairs = [(a, b) for a in vs for b in vs if a is b or rng.random() < 0.5]
    rng.shuffle(pairs)
    for ch in chunks(pairs, 24):
        e = [parser(), parser("q"), fn(P, "g", -1, "h"), fn(["p", "q"], "g", -1, "h")]
        for a, b in ch:
            t = rng.choice(["x+o", "o*x", "x-o", "o^y", "g(x,o)", "-o", "max(o,x)", "o", "(x/o)*y", "o!-x"])
            u = {"x+o": "o+x", "o*x": "x*o"}.get(t, t)
            e += [var(P, "o", a), var(["p", "q"], "o", b), parse(t), parse(u, "y", "q"), W.eq("x", "y", [hard(rng)]), W.eq("x", "x", [hard(rng)]), clone("y", "c"), W.eq("y", "c", [hard(rng)])]
            e += [parse(t.replace("o", "w"), "u"), simp("u", "v", "one", [["w", H(b)]]), W.eq("x", "v", [hard(rng)]), W.eq("v", "y", [hard(rng)])]
        S.add(e, "numbers")


def c19(S, rng, scale):
    texts = [t for t in rng.sample(algebra(rng, scale, 0.3), 500) + rng.sample(list(functions(rng)), 150)]
    for ch in chunks(texts, 8):
        e = [parser()]
        for t in ch:
            ns = rng.sample("xyz", 3)
            how = rng.choice(["rt", "macro", "fixed", "array", "twice"])
            e += [parse(t, "d"), W.asfn("d", P, "f", ns, 3, how)]
            for call in rng.sample(["f(x,y,z)", "f(z,x,y)", "f(y,y,x)", "-f(x,1,z)", "f(x,y,z)-f(z,y,x)", "f(f(x,y,z),y,x)", "f(0.1,x,-y)"], 2):
                e += [parse(call)] + [mark(ev("x", hard(rng)), t=1, base=[]) for _ in range(2)]
        S.add(e, "algebra")
    # values that are nearly the same, one after the other
    bodies = ["x/y", "1/x+y", "atan2(x,y)", "x^y", "1/(x*y)", "h(x,y)", "x-y", "g(y,x)", "min(x,y)", "f(x)/y", "x%y", "1/x", "atan2(x,-1)", "x*3", "f(x)", "x", "x!", "7", "f(2)", "x+y*u", "g(x,y,u)/u", "h(u,y)-x", "1/x-1/y-1/u", "sqrt(x)"]
    for _ in range(40 * scale):
        e = W.usual()
        calls = []
        for k in range(rng.choice([1, 1, 2])):
            t = rng.choice(bodies)
            ns = ["x", "y", "u"]
            ns = ns[:max([i + 1 for i, m in enumerate(ns) if m in re.findall("[a-z]+", t)] or [rng.choice([0, 1, 2])])]
            rng.shuffle(ns)
            name = "t%d" % k
            how = rng.choice(["rt", "macro", "fixed", "array", "twice"])
            if not ns:
                how = "rt"
            e += [parse(t, "d"), W.asfn("d", P, name, ns, None, how)]
            call = lambda *a: name + "(" + ",".join(a[:len(ns)]) + ")"
            calls += [call("x", "y", "u"), call("x", "x", "x"), call("y", "x", "y"), call("x", "y", "y") + "-" + call("y", "x", "y"), "1/" + call("x", "y", "x"), call("-x", "y", "x") + "+" + call("x", "-y", "x"), call(call("x", "y", "u"), "y", "x")]
        calls = rng.sample(calls, 3)
        for i, t in enumerate(calls):
            e.append(parse(t, "x%d" % i))
        for v in walk(rng, ["x", "y", "u"], 36):
            e.append(mark(ev("x%d" % rng.randrange(3), v), t=1, base=[]))
        S.add(e, "alike")
    # definitions that are named as the built-in functions
    bodies = ["t/2", "t-3", "t*t-1", "1/t", "2-t", "t!-t", "t*0.7+1", "-t", "t^3", "t*1.5"]
    pairs = ["t-u", "t/u", "t*2-u", "u^2-t", "t+u/3"]
    names = sorted({*UNARY, *BINARY, *VARIADIC})
    for ch in chunks(rng.sample(names, len(names)), 2):
        for _ in range(scale):
            e = [parser()]
            for n in ch:
                two = rng.random() < 0.25
                ps = rng.sample(["t", "u"], 2) if two else ["t"]
                e += [parse(rng.choice(pairs if two else bodies), "d"), W.asfn("d", P, n, ps, len(ps), rng.choice(["rt", "macro", "fixed", "array", "twice"]))]
                ts = ["%s(%s(x,y),x)", "%s(x,%s(y,x))", "%s(x,y)+%s(y,x)", "-%s(-x,y)-%s(x,-y)", "%s(x,x)*%s(y,x)"] if two else \
                    ["%s(%s(x))", "-%s(-%s(x))", "%s(x)-%s(-x)", "%s(-x)+%s(x)", "%s(x)^2-%s(x)", "%s(x^2)*%s(y)", "%s(x)/%s(y)", "%s(x!)-%s(y)", "%s(%s(x)+y)", "%s(2.5)-%s(x)"]
                for t in rng.sample(ts, min(len(ts), 7)):
                    e.append(parse(t % (n, n)))
                    e += [mark(ev("x", generic(rng)), t=1, base=[]), mark(ev("x", [["x", H(8.0)], ["y", H(-2.5)]]), t=1, base=[])]
                o = rng.choice(["abs", "sqrt", "exp", "ln", "round", "sin"])
                for t in ("%s(%s(x))" % (n, o), "%s(%s(x))" % (o, n)):
                    if not two:
                        e += [parse(t), mark(ev("x", generic(rng)), t=1, base=[])]
            S.add(e, "built-ins")


# -------------------------------------------------------------- repetitions
ALIKE = [0.0, -0.0, NAN, 1.0, 1.0000000000000002, -1.0, 0.5, INF, -INF, 2.0, 5e-324, 0.30000000000000004, 0.3]
# these tell the values above apart
TELL = ["1/x", "atan2(x,-1)", "x*3", "x-y", "1/x-1/y", "atan2(x,-1)-2*atan2(y,-1)", "x^y", "y!-x", "f(x)", "h(x,y)", "g(x,y,x)", "h(y,x)", "x", "-x", "g()", "z()+x", "f(f(x))-y", "max(x,y)",
        "x%y", "f(x)*f(y)", "h(x,1)", "sum(x,y)", "x-f(y)", "abs(x)/x", "recip(x)", "atan2(y,x)", "k*x", "sqrt(x)", "sin(x)"]


def walk(rng, ns, n):
    """Assignments of which each differs little from one before."""
    v = {m: rng.choice(ALIKE) for m in ns}
    seen = [dict(v)]
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            m = rng.choice(ns)
            v[m] = -v[m] if rng.random() < 0.5 else rng.choice(ALIKE)
        elif r < 0.5 and len(ns) > 1:
            a, b = rng.sample(ns, 2)
            v[a], v[b] = v[b], v[a]
        elif r < 0.65:
            v = dict(rng.choice(seen))
        elif r < 0.75:
            c = rng.choice(ALIKE)
            v = {m: c for m in ns}
        elif r < 0.85:
            v = {m: -c for m, c in v.items()}
        else:
            v = {m: rng.choice(ALIKE) for m in ns}
        seen.append(dict(v))
        yield [[m, H(c)] for m, c in v.items()]


def repeats(S, rng, scale, kind="alike"):
    """Evaluations of the same expressions, again and again."""
    for _ in range(24 * scale):
        e = W.usual()
        ts = rng.sample(TELL, 3)
        for i, t in enumerate(ts):
            e.append(parse(t, "x%d" % i))
        for v in walk(rng, ["x", "y"], 40):
            e.append(ev("x%d" % rng.randrange(3), v))
        S.add(e, kind)


def times(e, n):
    return dict(e, times=n)


GOOD = [["x", H(1.5)], ["y", H(-2.5)], ["u", H(0.5)]]


def often(S, rng, scale):
    """An operation, thousands of times: what it leaves behind adds up."""
    def again(e, o, n):
        # as once, so always
        b = len(e)
        e.append(o)
        e.append(mark(times(o, n), t=1, base=[b]))

    ops = [parse(t, "o") for t in ("1+", "", "(", "1)", "f(1,2)", "h(1)", "g(1,", "g(,1)", "1.2.3", "x@", "f 1", "1 2", "3!!", "((((((((1", "f(f(f(f(", "g(g(g(1,)))", "-(-(-(",
                                   "x", "1", "x+y*u", "f(x)+g(x,y)", "h(f(1),2)", "(((x)))", "sin(x)^2", "-(-(-x))", "f(f(f(f(x))))", "k*x+1e5", "x!", "2^3^x", "max(x,1,2)-pi")]
    ops += [ev("x", GOOD), ev("x", GOOD[:1]), ev("x", [[n, H(NAN)] for n in "xyu"]), {"op": "probe", "x": "x", "env": GOOD[:2]}, show("x"), clone("x", "o"),
            W.eq("x", "x2", [GOOD]), simp("x", "o", "one", GOOD[:1]), simp("x", "o", "multi", GOOD[:2]), bind("x", "fixed", ["x", "y", "u"], [[1.0, 2.0, 3.0], [0.5, -0.0, 2.5]]),
            bind("x", "rt", ["x", "y", "u"], [[1.0, 2.0, 3.0], [1.0]]), bind("x", "array", ["x"], [])]
    bad = 17        # (errors are rendered each time)
    ops = [(o, 70000 if k >= bad and rng.random() < 0.15 else 0) for k, o in enumerate(ops)]
    for n in (300, 2500):
        for ch in chunks(rng.sample(ops, len(ops)), 7):
            e = W.usual() + [parse("g(x,y)+f(2)*x-h(y,x)*u", "x"), parse("g(x,y)+x*f(2)-h(y,x)*u", "x2"), ev("x", GOOD), parse("x-1", "y")]
            first = len(e)
            e += [parse("2*(x+f(y))", "w"), ev("w", GOOD), ev("x", GOOD), ev("y", GOOD), parse("g(1", "w")]
            for o, m in ch:
                again(e, o, m if m and n == 2500 else n)
                e += [mark(parse("2*(x+f(y))", "w"), t=1, base=[first]), mark(ev("w", GOOD), t=1, base=[first + 1]), mark(ev("x", GOOD), t=1, base=[first + 2]),
                      mark(ev("y", GOOD), t=1, base=[first + 3]), mark(parse("g(1", "w"), t=1, base=[first + 4])]
            S.add(e, "often")


def c21(S, rng, scale):
    """Panics, thousands of times."""
    for n in (300, 3000, 70000):
        e = [parser(), fn(P, "v", 1, "z", rng.choice(["dyn", "static", "md"])), fn(P, "g", -1, "h", rng.choice(W.HOWS)), parse("g(x,v(y))+2*x", "ok"), parse("v(x)+y", "o2"),
             parse("v(v(x)-1)+g(x,y,v(y))", "o3")]
        bad = [["x", H(0.0)], ["y", H(0.0)]]
        for o in (ev("ok", bad), ev("o2", bad), ev("o3", bad), simp("ok", "w", "multi", bad), simp("o2", "w", "one", bad[:1]), parse("v(0)+1", "w"), parse("g(1,(v(0)", "w"),
                  bind("ok", "rt", ["x", "y"], [[0.0, 0.0], [1.0, 0.5]]), bind("o2", "fixed", ["x", "y"], [[0.0, 0.0], [1.0, 0.5]]), simpself("o2", "inplace", bad[:1])):
            e += [times(o, n if n < 10000 or rng.random() < 0.3 else 1000), ev("ok", GOOD[:2]), ev("o2", GOOD[:2]), ev("o3", GOOD[:2]), show("o2"), parse("v(x)*2+g(y)", "n"), ev("n", GOOD[:2])]
        S.add(e + [END], "often")


def c01(S, rng, scale):
    """Nested dozens of times: what doubles with each level takes forever."""
    for n in (25, 60, 200):
        for a, z in (("-(", ")"), ("(1+", ")"), ("(", "+1)"), ("(x*", ")"), ("(", "*y)"), ("abs(", ")"), ("max(x,", ")"), ("max(", ",y)"), ("(x-", ")"), ("(", "/y)"), ("(", "!)"), ("sum(1,", ",2)"),
                     ("(2^", ")"), ("(y%", ")"), ("(-x*", ")"), ("(x+-", ")"), ("f(", ")"), ("h(x,", ")")):
            t = a * n + rng.choice("xy") + z * n
            e = W.usual() + [parse(t), show("x"), ev("x", GOOD[:2]), clone("x", "c"), W.eq("x", "c", [GOOD[:2]]), parse(t, "c"), W.eq("x", "c", [GOOD[:2]]), parse(t.replace("x", "q"), "c"),
                             W.eq("x", "c", [GOOD[:2]]), reparse("x", "r", GOOD[:2])]
            for b in (GOOD[:1], GOOD[1:2], [["q", H(1.0)]], GOOD[:2]):
                e += [simp4("x", "y", b), ev("y", GOOD[:2])]
            e += [bind("x", "rt", ["x", "y"], [[1.0, 2.0]]), {"op": "probe", "x": "x", "env": GOOD[:1]}]
            S.add(e, "nested")


def c05(S, rng, scale):
    """Equal arguments, and equal calls: each is invoked."""
    for _ in range(30 * scale):
        e = [parser()] + [fn(P, n, a, s, rng.choice(W.HOWS if s == "h" else ["static", "dyn"])) for n, a, s in (("f", 1, "h"), ("g", -1, "h"), ("h", 2, "h"), ("c", -1, "c"), ("d", 1, "d"), ("z", 0, "h"))]
        for _ in range(8):
            q = rng.choice(["f(x)", "g(x,y)", "d(x)", "c(x)", "z()", "h(x,x)", "g()", "f(f(x))", "d(1)", "x", "f(x+1)"])
            t = rng.choice(["h(%s,%s)", "g(%s,%s,%s)", "%s+%s", "%s*%s", "%s-%s", "%s/%s", "%s^%s", "%s%%%s", "f(%s)+f(%s)", "g(%s,y,%s)", "g(x,%s,%s)", "h(%s,f(%s))", "c(%s,%s)", "(%s+%s)*(%s+%s)", "g(%s,-%s)", "max(%s,%s)"])
            t = t.replace("%%", "\0").replace("%s", q).replace("\0", "%")
            for v in (GOOD[:2], rng.choice([[["x", H(a)], ["y", H(a)]] for a in (0.0, 1.0, NAN, -1.5)])):
                e += [parse(t), ev("x", v)]
        S.add(e, "equal")


def c12(S, rng, scale):
    """The function of a binding, called again and again."""
    for k in range(40 * scale):
        e = W.usual()
        for how in ("fixed", "array", "rt"):
            n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 9]) if how == "array" else rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9])
            ns = ["x", "y", "v", "w", "u", "q", "r", "s", "t"][:n]
            t = rng.choice([t for t in TELL if n > 1 or "y" not in t])
            if n > 2 and rng.random() < 0.7:
                t = "g(" + ",".join(rng.sample(ns, n)) + ")"
            order = rng.sample(ns, n)
            calls = []
            for v in walk(rng, ns, 25):
                v = dict(v)
                calls.append([number_in(v[m]) for m in order])
                if how == "rt" and rng.random() < 0.4:
                    c = calls[-1]
                    calls.append(rng.choice([c[:-1], c + [1.5], c[:1], [], c + c, c]))
            e += [parse(t), bind("x", how, order, calls)]
        S.add(e, "again")
    for ch in chunks(rng.sample(algebra(rng, scale, 0.5), 700), 15):
        e = [parser()]
        for t in ch:
            ns = rng.sample("xyz", 3)
            rows = [list(v) for v in rng.sample(HARD, 3)] + [[rng.choice(SPECIAL) for _ in ns], [rng.choice([1e-170, 1e155, -1e-170, 0.7]) for _ in ns]]
            e += [parse(t), bind("x", rng.choice(["fixed", "array", "rt"]), ns, rows)]
        S.add(e, "algebra")


def number_in(h):
    if h == "nan":
        return NAN
    return struct.unpack(">d", bytes.fromhex(h))[0]


def scales(rng, n):
    """Numbers of all sizes: approximations are good in some range only."""
    out = []
    for k in range(n):
        r = rng.random()
        s = rng.choice([1, 1, 1, -1])
        if r < 0.3:
            v = 10.0 ** rng.uniform(-12, 3)
        elif r < 0.5:
            v = 2.0 ** rng.uniform(-60, 70)
        elif r < 0.6:
            v = 1 + rng.choice([-1, 1]) * 2.0 ** -rng.uniform(1, 52)
        elif r < 0.7:
            v = rng.uniform(0, 40)
        elif r < 0.8:
            v = rng.uniform(0, 760)
        elif r < 0.88:
            v = rng.randrange(1, 400) * 1.5707963267948966 * (1 + rng.choice([0, 0, 2e-16, -2e-16, 1e-9]))
        elif r < 0.94:
            v = float(rng.randrange(0, 300)) + rng.choice([0, 0.5, 0.5, 1e-9, -1e-9])
        else:
            v = 10.0 ** rng.uniform(-320, 308)
        out.append(s * v)
    return out


def c18(S, rng, scale):
    """Built-ins, again and again with values alike."""
    for f in UNARY:
        for ch in chunks(scales(rng, 480 * scale), 80):
            S.add([parser(), parse("%s(x)" % f)] + [ev("x", [["x", H(v)]]) for v in ch], "scales")
    for f in BINARY:
        a, b = scales(rng, 400 * scale), scales(rng, 400 * scale)
        for k, _ in enumerate(a):
            if rng.random() < 0.3:
                b[k] = a[k] * rng.choice([1, -1, 1e-9, 1e9, 1 + 1e-15, 0.5])
        for ch in chunks(list(zip(a, b)), 80):
            S.add([parser(), parse("%s(x,y)" % f)] + [ev("x", [["x", H(u)], ["y", H(v)]]) for u, v in ch], "scales")
    # around the places where functions of doubles saturate, overflow, turn or lose their fractions
    near = [709.78, 708.4, 745.13, 710.47, 88.7, 18.7, 19.06, 22.0, 36.7, 37.4, 171.62, 170.6, 1.0, 0.5, 2.0, math.pi / 2, math.pi, 2 * math.pi, 100 * math.pi, 2.0 ** 10, 2.0 ** 20, 2.0 ** 24, 2.0 ** 28, 2.0 ** 31, 2.0 ** 32,
            2.0 ** 51, 2.0 ** 52, 2.0 ** 53, 2.0 ** 54, 2.0 ** 63, 2.0 ** 64, 1e-8, 1e-4, 0.1, 0.01, 2.0 ** -26, 2.0 ** -27, 2.0 ** -28, 2.0 ** -52, 2.0 ** -53, 2.0 ** -1022, 1e154, 1.34e154, 1e-154, 1e102, 10.0, 100.0, 1000.0, 1e5, 1e6]
    for f in UNARY:
        vs = []
        for v in near:
            vs += [v, math.nextafter(v, 0), math.nextafter(v, INF)] + [v * (1 + rng.uniform(-1, 1) * d) for d in (0.04, 0.01, 1e-6)] + [-v * (1 + rng.uniform(-1, 1) * rng.choice([0.04, 0.001, 0])) for _ in range(2)]
        vs += [rng.choice([1, 1, -1]) * 10 ** rng.uniform(-3, 3) for _ in range(200 * scale)]
        vs += [rng.choice([1, 1, -1]) * (rng.randrange(0, 200) + rng.choice([0, 0.5, 0.25, 1e-12, -1e-12])) for _ in range(40 * scale)]
        for ch in chunks(vs, 90):
            S.add([parser(), parse("%s(x)" % f)] + [ev("x", [["x", H(v)]]) for v in ch], "near")
    for ch in chunks(rng.sample(UNARY, len(UNARY)), 3):
        e = [parser()] + [parse("%s(x)" % f, "x%d" % i) for i, f in enumerate(ch)]
        for v in walk(rng, ["x"], 45):
            e.append(ev("x%d" % rng.randrange(len(ch)), v))
        S.add(e, "alike")
    for ch in chunks(BINARY + VARIADIC, 2):
        e = [parser()] + [parse("%s(x,y)" % f, "x%d" % i) for i, f in enumerate(ch)]
        for v in walk(rng, ["x", "y"], 45):
            e.append(ev("x%d" % rng.randrange(len(ch)), v))
        S.add(e, "alike")


def edges(rng, n):
    """Operands for which an operator is done otherwise, or that are near to such ones."""
    one = [1.0, math.nextafter(1, 0), math.nextafter(1, 2), 1 + 1e-9, 0.5, 2.0, 10.0, 3.0, 0.1, 1.5, 0.0, INF, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e154, 1e-154, 7.0]
    powers = [2.0 ** k for k in range(0, 70)]
    whole = powers + [v + 1 for v in powers] + [v - 1 for v in powers] + [float(k) for k in range(0, 40)] + [3e9, 5e9 + 1, 1e15 + 1, 1e16, 2.0 ** 1023, 1e300]
    other = [v + 0.5 for v in powers[:54]] + [1 / 3, 2 / 3, 0.25, 0.2, 1e-3, 1e-9, 1e-300, NAN, INF] + [k + 0.5 for k in range(12)] + [k / 3 for k in range(1, 12)]
    out = {}
    for o in OPS:
        ps = []
        for _ in range(n):
            a, b = rng.choice(one), rng.choice(whole if rng.random() < 0.65 else other)
            if o != "^":
                r = rng.random()
                a, b = (rng.choice(whole + other), b) if r < 0.4 else (b, a) if r < 0.6 else (a, b)
                if rng.random() < 0.3:
                    b = rng.choice([a, math.nextafter(a, 0), a * 2, a / 2, a * 3, a / 3, a + 1, a * 2.0 ** 60, a / 2.0 ** 53])
            elif rng.random() < 0.2:
                a = rng.choice(whole)
            ps.append((a * rng.choice([1, -1]), b * rng.choice([1, 1, -1])))
        out[o] = ps
    return out


def c08_all(S, rng, scale):
    c08(S, rng, scale)
    for o, ps in edges(rng, 500 * scale).items():
        for ch in chunks(ps, 80):
            S.add([parser(), parse("x%sy" % o)] + [ev("x", [["x", H(u)], ["y", H(v)]]) for u, v in ch], "edges")
    for o in OPS:
        a, b = scales(rng, 240 * scale), scales(rng, 240 * scale)
        for k, _ in enumerate(a):
            r = rng.random()
            if r < 0.3:
                b[k] = a[k] * rng.choice([1, -1, 1e-9, 1e9, 1 + 1e-15, 0.5, 3, 1 / 3])
            elif r < 0.6 and o == "^":
                b[k] = rng.choice([1, -1]) * rng.choice([0.5, 0.25, 1 / 3, 1.5, 2.5, rng.randrange(2, 70), rng.randrange(2, 7), rng.randrange(2, 5), 1e-3])
        for ch in chunks(list(zip(a, b)), 80):
            S.add([parser(), parse("x%sy" % o)] + [ev("x", [["x", H(u)], ["y", H(v)]]) for u, v in ch], "scales")
    repeats(S, rng, scale)


# --------------------------------------------------------------- other names
def twist(rng, n):
    """A name that something careless would take for the other."""
    return rng.choice([" " + n, n + " ", "\t" + n, n + "\n", n.swapcase(), n + "'", n + "_", "_" + n, n[:-1] or "w", n + n, n + "1", n + "(", "(" + n + ")", "+" + n, "-" + n, n + "!", n + ".", "1" + n,
                       n + "\u00e9", n.replace(n[0], chr(0xff41 + (ord(n[0].lower()) - 97) % 26)), "'" + n, n + "''", n.title(), n + "\u00a0", "\u200b" + n, '"' + n + '"', n + ",", n + "\x00"])


WORDS = ["x", "y", "xy", "f", "sin", "pi", "max", "x'", "e", "e1", "interest", "Rate", "k_2", "t''"]


def twisted(rng, n):
    for _ in range(20):
        t = twist(rng, n)
        if t != n:
            return t
    return n + "q"


def c13(S, rng, scale):
    for _ in range(40 * scale):
        e = [ctx("c1"), parser("p1", "c1")]
        ts = [["c", "c1"], ["p", "p1"]]
        for _ in range(6):
            n = rng.choice(WORDS)
            m = twisted(rng, n)
            t = rng.choice(ts)
            e += [rng.choice([var(t, n, rng.choice(W.NICE if rng.random() < 0.7 else W.STRANGE)), fn(t, n, rng.choice([-1, 1, 2]), "h", rng.choice(W.HOWS))]), W.get(t, m), W.get(t, n), W.get(t, ""), parse(n + "+1", "a", "p1"), parse(n + "(1)", "b", "p1")]
            if rng.random() < 0.7:
                e += [rng.choice([var(t, m, rng.choice(W.NICE), rng.choice(["set", "with"])), fn(t, m, rng.choice([-1, 1, 2]), "c", rng.choice(W.HOWS))]), W.get(t, n), W.get(t, m), W.get(t, twisted(rng, m)),
                      parse(n + "+1", "a", "p1"), parse(n + "(1)", "b", "p1"), ev("b", [["x", H(2.0)]]), cclone("c2", t), W.get(["c", "c2"], m), W.ctxeq(t, ["c", "c2"])]
            if rng.random() < 0.3:
                d = [rng.choice(WORDS) for _ in range(3)] + [m]
                e += [W.declare(t, list(dict.fromkeys(d))), W.getexp(t)] + [parse(q, "a", "p1") for q in (n, d[0], d[1] + "+" + d[2], "2" + n)]
        S.add(e + [W.END], "odd names")


def odd_names(S, rng, scale, marks=False):
    """Variables and values whose names are alike."""
    for _ in range(50 * scale):
        e = [parser()]
        for _ in range(6):
            ns = [n for n in rng.sample(["x", "y", "xy", "interest", "Rate", "k_2", "t''", "a1", "alpha", "X"], 3)]
            odd = list(dict.fromkeys(twisted(rng, rng.choice(ns)) for _ in range(rng.choice([1, 3, 8, 30]))))
            odd = [m for m in odd if m not in ns]
            t = rng.choice(["%s-2*%s/%s", "max(%s,%s-%s)", "%s^%s+%s!", "-%s %s(%s)"]) % tuple(ns)
            vs = [[n, H(v)] for n, v in zip(ns, rng.sample([2.0, 3.5, -1.0, 0.5, 4.0, 7.25], 3))]
            more = [[m, H(rng.choice([1.0, 9.75, -3.0]))] for m in odd]
            k = rng.randrange(3)
            e += [parse(t)]
            for env in (vs, vs + more, vs[:k] + vs[k + 1:] + more, more, vs[k:k + 1] + more):
                env = list(env)
                rng.shuffle(env)
                e.append(ev("x", env))
            some = odd[:rng.choice([1, 2, 5])]
            own = [W.simp4("x", "y", more + vs[:k]), ev("y", vs), ev("y", vs[k:]), ev("y", more)]
            b = len(e)
            e += [ev("x", vs)] + ([mark(o, t=1, base=[b]) for o in own] if marks else own)
            e += [bind("x", "rt", ns + odd, [[1.5 * i + 2 for i in range(len(ns + odd))]]), bind("x", "rt", odd + ns[1:], []), bind("x", "array", (some + ns)[:8], [[2.0 + i for i in range(len((some + ns)[:8]))]]),
                  bind("x", "array", (odd + ns[:2])[:9], [])]
            # the names that can be read
            sane = [m for m in odd if re.fullmatch(r"[A-Za-z][A-Za-z0-9_']*", m)][:5]
            if sane:
                t2 = "+".join("%d*%s" % (3 * i + 2, m) for i, m in enumerate(sane + ns))
                own = [W.simp4("x", "y", vs), ev("y", more), ev("y", vs)]
                b = len(e) + 1
                e += [parse(t2), ev("x", vs + more), ev("x", vs)] + ([mark(o, t=1, base=[b]) for o in own] if marks else own) + [bind("x", "rt", sane + ns, [[1.5 * i + 2 for i in range(len(sane + ns))]]), bind("x", "rt", ns, []), W.show("x")]
        S.add(e, "odd names")


def place(S, rng, scale):
    """Texts that are read one after the other from the same place in memory."""
    base = ["g(x,y)+f(2)*x-h(y,x)*u", "1+2+3+4+5+6+(7-x)", "x*(y+2.5e3)^2!", "max(x,1,2)-pi*k_1", "interest*(rate+0.125)", "f(f(f(x)))", "-x^-y", "g(1,2,3)", "x", "2", "((((x))))", "1 2 + 3", "g(1,,2)", "x + $ + y"]
    for _ in range(30 * scale):
        e = list(W.usual())
        t = rng.choice(base)
        for _ in range(14):
            r = rng.random()
            if r < 0.25:
                t = rng.choice(base)
            elif r < 0.8:
                k = rng.randrange(len(t))
                t = t[:k] + rng.choice("xyuk12+-*()!,. ") + t[k + rng.choice([0, 1, 1, 1, 2]):]
            elif r < 0.9:
                e.append(rng.choice([fn(P, "f", rng.choice([1, 2]), "hc"[len(e) % 2]), var(P, "k", rng.choice(W.NICE)), W.declare(P, ["x", "y", "u", "interest", "rate", "k_1"]), W.declare(P, ["x"]), var(P, "x", 2.5)]))
            e += [parse(t, "x", "p", "reuse"), ev("x", [[n, H(v)] for n, v in zip(["x", "y", "u", "interest", "rate", "k_1"], [1.5, -2.5, 0.5, 7.0, 3.0, 9.0])])]
            if rng.random() < 0.3:
                e.append(show("x"))
        S.add(e, "place")


def c15(S, rng, scale):
    repeats(S, rng, scale)
    often(S, rng, scale)
    place(S, rng, scale)


def and_odd(f, marks=False):
    def both(S, rng, scale):
        f(S, rng, scale)
        odd_names(S, rng, scale, marks)
    return both


SIGNS = ["", "", "", "", "-", "-", "--", "+", "-+", "+-", "---"]
AFTER = [""] * 9 + ["!"]
ATOMS = ["x", "y", "w", "2", "3", "0.5", "x", "y", "k", "(x)", "(y-w)", "f(y)", "g(w, 2)", "h(x, y)", "(-x)", "pi", "(2)", "2x", "z()", "f(2)(3)", "(x)(y)", "2(x)", "x(y)", "w(y-x)"]


def c02(S, rng, scale):
    """Signs, factorials and juxtapositions at every place around one to four operators."""
    join = ["+", "-", "*", "/", "%", "^", ""]

    def operand(plain):
        s, a, f = rng.choice(SIGNS), rng.choice(ATOMS[:9] if plain else ATOMS), rng.choice(AFTER)
        return s, a, f

    def text(ops, plain):
        t = ""
        for i in range(len(ops) + 1):
            s, a, f = operand(plain)
            if i and not ops[i - 1]:
                s = ""
                if t[-1] in "0123456789." and a[0] in "0123456789.":
                    a = "(%s)" % a
                elif t[-1].isalpha():
                    a = rng.choice([" x", " y", " w", " f(y)", " k", "(y)", "(-w)"])
            t += (ops[i - 1] if i else "") + s + a + f
        if rng.random() < 0.15:
            t = rng.choice(["-(%s)", "(%s)^2", "2^(%s)", "%s-1", "x*(%s)", "(%s)!"]) % t
        return t

    texts = []
    for o in itertools.product(join, repeat=2):
        texts += [text(o, k % 2 == 0) for k in range(26 * scale)]
    for o in itertools.product(join, repeat=3):
        texts += [text(o, k % 2 == 0) for k in range(5 * scale)]
    for o in join:
        texts += [text((o,), k % 3 > 0) for k in range(40 * scale)]
    for _ in range(500 * scale):
        texts.append(text([rng.choice(join) for _ in range(4)], True))
    # every arrangement of signs around powers and one more operator
    for a, b, c in itertools.product(["", "-", "--", "+"], repeat=3):
        for o, q in [("^", "^")] + [("^", j) for j in rng.sample("+-*/%", 1)] + [(j, "^") for j in rng.sample("+-*/%", 1)]:
            texts.append("%sx%s%sy%s%sw" % (a, o, b, q, c))
            texts.append("%s2%s%s3%s%s2" % (a, o, b, q, c))
    rng.shuffle(texts)
    for ch in chunks(texts, 24):
        e = list(W.usual())
        for t in ch:
            e += [parse(t), ev("x", [["x", H(1.75)], ["y", H(-2.5)], ["w", H(0.625)]]), ev("x", [["x", H(3.0)], ["y", H(2.0)], ["w", H(1.25)]])]
        S.add(e, "affixes")


# every character there is in ASCII, and some that look like others
LOOKALIKES = "\u0085\u00a0\u1680\u2003\u2028\u2029\u202f\u205f\u3000\u200b\u200d\u2060\ufeff\u00ad\u180e" \
    "\uff11\u0661\u00b2\u00bd\u2160\u2212\u2013\uff0b\uff0d\u00d7\u00f7\u2215\u22c5\u00b7\uff08\uff09\u066b\u201a\uff0c\uff0e" \
    "\u03c0\u212f\u0435\u0445\uff58\u00aa\u00b5\u00df\u0130\u0131\u017f\u212a\u2032\u2019\u0301\u00ff\u0100\u07ff\u0800\uffff\U00010000\U0001d465\U0010ffff"
PLACES = ["%sx", "x%s", "x%s+y", "x+%sy", "x%sy", "1%s2", "1%s", "%s1", "a%sb", "f(%sx)", "f(x%s)", "f%s(x)", "h(x%s,y)", "h(x,%sy)",
          "(%sx)", "(x%s)", "(x)%s", "x!%s", "x%s!", "-%sx", "x*%s-y", "2e%s3", "2%se3", "2.%s5", "2%s.5", "x_%s1", "%s", "%s%s",
          "x%s%sy", " %s x", "x %s ", "1_%s2", "x%s(y)", "2%sx", "z(%s)", "%s(x)", "e%s", "x'%s"]


def characters(S, rng, scale):
    texts = []
    for c in [chr(k) for k in range(128)] + list(LOOKALIKES):
        odd = not c.isalnum() or ord(c) > 127
        for p in PLACES if odd or scale > 1 else rng.sample(PLACES, 6):
            t = p.replace("%s", c)
            if t:
                texts.append(t)
    rng.shuffle(texts)
    for ch in chunks(texts, 30):
        e = list(W.usual())
        for t in ch:
            e += [parse(t), ev("x", [["x", H(1.75)], ["y", H(-2.5)]])]
        S.add(e, "characters")


def blanks(S, rng, scale):
    """Whitespace of all kinds at each place, against spaces (or, if only Unicode has it so, a letter with an accent)."""
    jobs = []
    for p in PLACES + ["x+1%s", "%s2*x+1", "f(x)%s", "f(x,%sy)", "f(x%s,y)", "(x+y)%s", "2%s(x)", "g(%s)", "g(x,y%s)", "1.5%s", "x%%sy", "x%s^%sy", "-%s-x", "$%s", "x+%s", "%s)", "g(x,%s)", "x'%sy'"]:
        for c in "\t\n\x0c\r":
            for n in rng.sample([1, 2, 3, 17], 2):
                jobs.append((p.replace("%s", " " * n), p.replace("%s", "".join(rng.choice([c, c, " "]) for _ in range(n - 1)) + c)))
        for c in "\x0b\x1c\x1f\x85\xa0\u1680\u2003\u2028\u2029\u202f\u205f\u3000\u200b\u200d\u2060\ufeff\u00ad\u180e\x00\x08":
            jobs.append((p.replace("%s", "\xe9" if len(c.encode()) == 2 else "\x01" if c < "\x80" else "\u2202"), p.replace("%s", c)))
    rng.shuffle(jobs)
    for ch in chunks(jobs, 20):
        e = list(W.usual())
        for s, t in ch:
            b = len(e)
            env = [["x", H(1.75)], ["y", H(-2.5)]]
            e += [parse(s), ev("x", env), mark(parse(t), t=1, base=[b]), mark(ev("x", env), t=1, base=[b, b + 1])]
        S.add(e, "blanks")


def chains(S, rng, scale):
    """Operators of one level, many times in a row, with values whose roundings tell the order."""
    names = "xyzwvu"
    texts = []
    for o in ["+", "-", "*", "/", "%", "^", " ", "+-", "*/", "*%", "/%", "*/%", "* ", "/ ", "+*", "-/", "^*", "+-*/%"]:
        for n in list(range(2, 12)) + [rng.randint(12, 20), rng.randint(21, 40)] + ([66, 130] if scale > 1 else []):
            for style in "vvsc":
                t = rng.choice(names)
                for _ in range(n):
                    a = rng.choice(names)
                    if style == "s" and rng.random() < 0.3:
                        a = rng.choice(["(%s+%s)", "(%s-%s)", "(%s*%s)", "-(%s/%s)"]) % (a, rng.choice(names))
                    elif style == "c" and rng.random() < 0.3:
                        a = repr(rng.uniform(0.5, 2.0))
                    q = rng.choice(o)
                    t += q + ("(%s)" % a if q == " " and a[0] not in names else a)
                texts.append(t)
    rng.shuffle(texts)
    for ch in chunks(texts, 18):
        e = list(W.usual())
        for t in ch:
            for lo, hi in ((-0.4, 0.5), (-0.1, 0.1)):
                env = [[n, H(10 ** rng.uniform(lo, hi))] for n in names]
                e += [parse(t), ev("x", env)] if lo < -0.2 else [ev("x", env)]
        S.add(e, "chains")


def then(f, g):
    def both(S, rng, scale):
        f(S, rng, scale)
        g(S, rng, scale)
    return both


HARDER = {"C14": aliased, "C02": then(c02, then(characters, chains)), "C06": blanks, "C07": characters, "C13": c13, "C03": c03, "C09": then(and_odd(c09), aliased), "C16": c16_all, "C17": c17_all, "C19": c19, "C01": then(c01, characters), "C05": c05, "C21": c21, "C08": then(c08_all, chains), "C10": then(c10, chains), "C11": and_odd(c11, True), "C12": and_odd(c12), "C15": c15, "C18": c18}
