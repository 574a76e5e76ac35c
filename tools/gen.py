"""Workloads: the sessions that the builds of the crate are driven through.

Everything here only chooses *inputs*; what has to come out is decided by the
specification.  All choices come from random.Random(seed)."""
import itertools, random, struct
from vlib import hexf

INF, NAN = float("inf"), float("nan")
NICE = [1.5, -0.75, 2.25, -3.0, 0.5, 4.0, 0.125, -1.25, 7.0, 10.0]
SPECIAL = [0.0, -0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, 10.0, 1.5, -2.5, 170.0, 171.0, 1e308,
           -1e308, 5e-324, 2.2250738585072014e-308, 1e16, 9007199254740993.0, INF, -INF, NAN]
SPACES = [" ", "\t", "\n", "\f", "\r", "  ", " \t ", "\r\n"]
UNARY = ["sin", "sinh", "asin", "asinh", "cos", "cosh", "acos", "acosh", "tan", "tanh", "atan",
         "atanh", "ln", "log", "sqrt", "cbrt", "exp", "abs", "floor", "ceil", "round", "trunc",
         "recip", "invert", "fract", "gamma", "factorial"]
BINARY = ["atan2", "logn", "hypot"]
VARIADIC = ["sum", "mean", "min", "max"]
NAMECH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'")
NUMCH = set("0123456789._")


# ------------------------------------------------------------------ operations
def H(x):
    return hexf(float(x))


def env(**kw):
    return [[k, H(v)] for k, v in kw.items()]


def parse(text, x="x", p="p", via="parse"):
    return {"op": "parse", "p": p, "x": x, "text": text, "via": via}


def ev(x, e):
    return {"op": "eval", "x": x, "env": e}


def probe(x, e):
    return {"op": "probe", "x": x, "env": e}


def simp(x, y, how, b):
    return {"op": "simp", "x": x, "y": y, "how": how, "b": b}


def simpself(x, how, b):
    return {"op": "simpself", "x": x, "how": how, "b": b}


def simp4(x, y, b):
    return {"op": "simp4", "x": x, "y": y, "b": b}


def reparse(x, y, e, p="p"):
    return {"op": "reparse", "p": p, "x": x, "y": y, "env": e}


def parser(p="p", c=""):
    return {"op": "parser", "p": p, "c": c}


def var(t, n, v, via="set"):
    return {"op": "var", "t": t, "n": n, "v": H(v), "via": via}


def fn(t, n, a, s="h", how="static", via="set"):
    return {"op": "fn", "t": t, "f": {"n": n, "a": a, "s": s}, "how": how, "via": via}


def bind(x, how, names, calls):
    return {"op": "bind", "x": x, "how": how, "names": names, "calls": [[H(v) for v in c] for c in calls]}


END = {"op": "end"}


class Sessions:
    """Collects sessions and numbers them."""

    def __init__(self):
        self.all = []

    def add(self, events, kind):
        self.all.append({"id": len(self.all), "kind": kind, "ev": events})


# ---------------------------------------------------------------------- tokens
def glued(a, b, c=""):
    """Could the tokens a and b, written without a space, be read otherwise?"""
    if not a or not b:
        return False
    x, y = a[-1], b[0]
    if a[0].isdigit() or a[0] == ".":
        # a number: another number, or a letter that may begin an exponent
        if y in NUMCH:
            return True
        return y in "eE"
    if a[0] in NAMECH:
        return y in NAMECH
    return False


def tight(tokens):
    out = ""
    for k, t in enumerate(tokens):
        if k and glued(tokens[k - 1], t):
            out += " "
        out += t
    return out


def spaced(rng, tokens, p=0.4):
    out = rng.choice(SPACES) if rng.random() < p else ""
    for k, t in enumerate(tokens):
        if k and (glued(tokens[k - 1], t) or rng.random() < p):
            out += rng.choice(SPACES)
        out += t
    if rng.random() < p:
        out += rng.choice(SPACES)
    return out


def number(rng, wild=0.15):
    r = rng.random()
    if r < 0.5:
        return rng.choice(["0", "1", "2", "3", "4", "5", "7", "10"])
    if r < 1 - wild:
        return rng.choice(["0.5", "1.5", "2.25", ".5", "3.", "0.1", "12.75", "1e1", "2E-1", "1_0", "0.0", "6.", "00", "1."])
    return literal(rng)


def literal(rng):
    """A well-formed number, as odd as they come."""
    def digits(n):
        return "".join(rng.choice("0123456789_" if rng.random() < 0.3 else "0123456789") for _ in range(n))
    a, b = digits(rng.choice([0, 1, 1, 2, 3, 8, 20])), digits(rng.choice([0, 0, 1, 2, 5, 20]))
    a = a.lstrip("_")
    m = a + ("." + b if b or rng.random() < 0.3 else "")
    if not any(c.isdigit() for c in m):
        m = rng.choice("0123456789") + m
    if rng.random() < 0.4:
        m += rng.choice("eE") + rng.choice(["", "+", "-"]) + "".join(
            rng.choice("0123456789") for _ in range(rng.choice([1, 1, 1, 2, 2, 3])))
    return m


class Style:
    """What random expressions are made of."""

    def __init__(self, names=("x", "y"), consts=("pi", "e"), calls=("abs", "sqrt", "max", "sum", "hypot"),
                 arity=None, implicit=0.16, fact=0.06, unary=0.12, paren=0.16, call=0.1, wrong=0.0,
                 ops="+-*/%^", num=number, numw=0.4):
        self.names, self.consts, self.calls = names, consts, calls
        self.arity = dict({n: 1 for n in UNARY}, **{n: 2 for n in BINARY}, **{n: -1 for n in VARIADIC})
        self.arity.update(arity or {})
        self.implicit, self.fact, self.unary, self.paren, self.call = implicit, fact, unary, paren, call
        self.wrong, self.ops, self.num, self.numw = wrong, ops, num, numw


def expression(rng, st, size):
    """The tokens of a (mostly) well-formed expression of about `size` atoms."""
    out = []
    stack = []          # for each open parenthesis: the arguments still to come, or None
    left = size
    want = True         # an operand comes next
    postable = False
    while True:
        if want:
            r = rng.random()
            if r < st.unary:
                out.append(rng.choice("+--"))
                continue
            r -= st.unary
            if r < st.paren and left > 1:
                out.append("(")
                stack.append(None)
                continue
            r -= st.paren
            if r < st.call and st.calls and left > 0:
                f = rng.choice(st.calls)
                n = st.arity[f]
                if n < 0:
                    n = rng.choice([0, 1, 1, 2, 2, 3, 5])
                if rng.random() < st.wrong:
                    n = max(0, n + rng.choice([-1, 1, 2]))
                out += [f, "("]
                if n == 0:
                    out.append(")")
                    want, postable = False, True
                    left -= 1
                else:
                    stack.append(n - 1)
                continue
            left -= 1
            if rng.random() < st.numw or not st.names:
                out.append(st.num(rng))
            elif st.consts and rng.random() < 0.12:
                out.append(rng.choice(st.consts))
            else:
                out.append(rng.choice(st.names))
            want, postable = False, True
        else:
            r = rng.random()
            if postable and r < st.fact:
                out.append("!")
                postable = False
                continue
            if stack and rng.random() < (0.35 if left > 0 else 0.8):
                k = stack.pop()
                if k:
                    out.append(",")
                    stack.append(k - 1)
                    want = True
                else:
                    out.append(")")
                    postable = True
                continue
            if left <= 0 and not stack:
                return out
            if rng.random() < st.implicit:
                # a juxtaposition: a name, a parenthesis, or a number after another thing
                want = True
                q = rng.random()
                if q < 0.5 and st.names:
                    out.append(rng.choice(st.names))
                    want, postable = False, True
                    left -= 1
                elif q < 0.8:
                    out.append("(")
                    stack.append(None)
                elif not out[-1][0].isdigit() and out[-1][0] != ".":
                    out.append(st.num(rng))
                    want, postable = False, True
                    left -= 1
                else:
                    out.append(rng.choice(st.ops))
                continue
            out.append(rng.choice(st.ops))
            want = True


ODD = ["é", "→", "😀", "\u00a0", "\u3000", "\0", "@", "#", "$", "&", "\\", "\"", "{", "}", "[", "]", "~",
       "=", "<", ">", ":", ";", "?", "|", "`", "\x0b", "\u0301", "．", "٣", "ⅷ", "½", "'", "_", "\x7f", "\u2028", "\ufeff"]


def damage(rng, tokens):
    """Tokens with some of them missing, doubled, swapped or foreign."""
    t = list(tokens)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(len(t) + 1)
        r = rng.randrange(6)
        if r == 0 and t:
            del t[min(k, len(t) - 1)]
        elif r == 1 and t:
            t.insert(k, t[min(k, len(t) - 1)])
        elif r == 2:
            t.insert(k, rng.choice(ODD))
        elif r == 3:
            t.insert(k, rng.choice(["(", ")", "!", ",", "*", "^", "+", ".", "1..2", "_", "1.2.3", "sin", "max", "x", "2", "%"]))
        elif r == 4:
            t = t[:k]
        elif len(t) > 1:
            i, j = rng.randrange(len(t)), rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
    return t


def noise(rng, n):
    """Any text."""
    al = list("0123456789..__eE++--**//%^!()(),, \t\nxyzsinpimaxlogn'") + ODD
    return "".join(rng.choice(al) for _ in range(n))


def values(rng, names, special=0.3):
    return [[n, H(rng.choice(SPECIAL) if rng.random() < special else
                   rng.choice(NICE) if rng.random() < 0.7 else
                   rng.choice([rng.uniform(-5, 5), float(rng.randrange(-4, 9))]))] for n in names]


def chunks(items, n):
    items = list(items)
    for k in range(0, len(items), n):
        yield items[k:k + n]


def bits(rng):
    """Any double."""
    while True:
        x = struct.unpack(">d", rng.getrandbits(64).to_bytes(8, "big"))[0]
        if x == x:
            return x
