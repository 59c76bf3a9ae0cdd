"""Algebra over value terms: polynomial normal forms, case splitting on branch conditions."""
from fractions import Fraction
from .terms import *

NANK = ("nan",)


class Need(Exception):
    def __init__(self, key):
        self.key = key


class Poly:
    """Sum of monomials over opaque atoms.  m: {((atom, exp), ...): Fraction}."""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v != 0}

    @staticmethod
    def const(v):
        return Poly({(): Fraction(v)})

    @staticmethod
    def atom(k):
        return Poly({((k, 1),): Fraction(1)})

    def key(self):
        return ("p",) + tuple(sorted(self.m.items(), key=repr))

    def __eq__(self, o):
        return self.m == o.m

    def __hash__(self):
        return hash(self.key())

    def isnan(self):
        return any(a == NANK for k in self.m for a, _ in k)

    def isconst(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def value(self):
        return self.m.get((), Fraction(0))

    def __add__(self, o):
        if self.isnan() or o.isnan():
            return Poly.atom(NANK)
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Poly(m)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.isnan() or o.isnan():
            return Poly.atom(NANK)
        m = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                e = dict(k1)
                for a, n in k2:
                    e[a] = e.get(a, 0) + n
                k = tuple(sorted(((a, n) for a, n in e.items() if n != 0), key=repr))
                m[k] = m.get(k, 0) + v1 * v2
        return Poly(m)

    def inv(self):
        if self.isnan():
            return self
        if len(self.m) == 1:
            (k, v), = self.m.items()
            return Poly({tuple((a, -n) for a, n in k): 1 / v})
        return Poly.atom(("inv",) + self.key())

    def div(self, o):
        if self.isnan():
            return self
        if o.isconst():
            if o.value() == 0:
                return Poly.atom(("div0",))
            return Poly({k: v / o.value() for k, v in self.m.items()})
        return self * o.inv()

    def single(self):
        """(atom, coefficient) if this is c*atom."""
        if len(self.m) == 1:
            (k, v), = self.m.items()
            if len(k) == 1 and k[0][1] == 1:
                return k[0][0], v
        return None, None

    def atoms(self):
        return {a for k in self.m for a, _ in k}

    def lead(self):
        """Sign of a canonical leading coefficient."""
        if not self.m:
            return 1
        k = min((x for x in self.m), key=repr)
        return 1 if self.m[k] > 0 else -1


def num(v):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return None
    if v != v:
        return "nan"
    if v in (float("inf"), float("-inf")):
        return None
    return Fraction(repr(v)) if isinstance(v, float) else Fraction(v)


ID1 = {"builtins.float", "numpy.float64", "numpy.asarray", "numpy.float32"}
ABS = {"builtins.abs", "numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs"}
MAXF = {"builtins.max": "max", "builtins.min": "min", "numpy.maximum": "max", "numpy.minimum": "min"}
PCT = {"numpy.percentile": 100, "numpy.quantile": 1, "numpy.nanpercentile": 100, "numpy.nanquantile": 1}
NUMERIC = {"builtins." + x for x in ("max", "min", "len", "int", "float", "abs", "sum", "round", "str", "bool", "list", "dict", "set", "sorted", "tuple", "range")}
NANS = {"numpy.nan", "math.nan", "numpy.NaN", "numpy.NAN"}


def args_of(t):
    pos, kw = [], {}
    for x in t.a[1:]:
        if type(x) is T and x.op == "kw":
            kw[x.a[0]] = x.a[1]
        else:
            pos.append(x)
    return pos, kw


def keymap(own, key):
    m = {own: key}
    if own.op == "tuple" and own.a and all(x.op == "idx" and x.a[1].op == "c" and cval(x.a[1]) == i and x.a[0] is own.a[0].a[0] for i, x in enumerate(own.a)):
        m[own.a[0].a[0]] = key
        if key.op == "tuple" and len(key.a) == len(own.a):
            m.update(zip(own.a, key.a))
    return m


def loopval(mu, key):
    """What a dict filled in a loop (d[k] = v) holds under a key it was filled with."""
    if mu.next is None or is_const(key):
        return None
    if not (mu.init.op == "dict" and not mu.init.a):
        return None
    memo = {}

    def last(t, d):
        """What the iteration ending in state t stored under its own key (None: nothing)."""
        if t is mu:
            return None
        if t.id in memo:
            return memo[t.id]
        if d > 40:
            raise KeyError
        if t.op == "ite":
            a, b = last(t.a[1], d + 1), last(t.a[2], d + 1)
            r = b if a is None else a if b is None else ite(t.a[0], a, b)
        elif t.op == "setitem" and not is_const(t.a[1]):
            last(t.a[0], d + 1)
            r = t.a[2] if t.a[1] is key else subst(t.a[2], keymap(t.a[1], key))
        else:
            raise KeyError
        memo[t.id] = r
        return r
    try:
        r = last(mu.next, 0)
    except KeyError:
        return None
    if r is not None and any(x is mu for x in reach(r, control=False, stop=lambda y: y.op == "mu")):
        return None     # accumulates over visits to the same key
    return r


def strip1(t):
    while t.op == "call" and t.a[0] in ID1 and len(t.a) == 2:
        t = t.a[1]
    return t


class Norm:
    """Normaliser within one world (assignment of truth values to condition keys)."""

    def __init__(self, world=None, cuts=None):
        self.world = world or {}
        self.cuts = cuts if cuts is not None else {}
        self.memo = {}
        self.cmemo = {}

    # ---- conditions
    def cond(self, t):
        k = t.id
        if k in self.cmemo:
            return self.cmemo[k]
        r = self._cond(t)
        self.cmemo[k] = r
        return r

    def look(self, key):
        if key in self.world:
            return self.world[key]
        raise Need(key)

    def _cond(self, t):
        v = truth(t)
        if v is not None:
            return v
        op, a = t.op, t.a
        if op == "not":
            return not self.cond(a[0])
        if op == "and":
            for x in a:
                if not self.cond(x):
                    return False
            return True
        if op == "or":
            for x in a:
                if self.cond(x):
                    return True
            return False
        if op == "ite":
            return self.cond(a[1]) if self.cond(a[0]) else self.cond(a[2])
        if op in ("lt", "le"):
            x, y = self.n(a[0]), self.n(a[1])
            d = y - x
            if x.isnan() or y.isnan():
                return False
            if d.isconst():
                return d.value() > 0 if op == "lt" else d.value() >= 0
            if op == "lt":
                return self.pos(d)
            return not self.pos(-d)
        if op == "call" and a[0] in ("numpy.isnan", "math.isnan", "numpy.isfinite", "math.isfinite", "pandas.isna", "pandas.isnull") and len(a) == 2:
            x = self.n(a[1])
            fin = a[0].endswith("isfinite")
            if x.isnan():
                return not fin
            if x.isconst():
                return fin
            v = self.look(("nan",) + x.key())
            return v if not fin else not v
        if op == "call" and a[0] == "builtins.bool" and len(a) == 2:
            return self.cond(a[1])
        if op == "is" and a[1] is NONE:
            x = self.res(a[0])
            if x is NONE:
                return True
            if x.op in ("c", "bin", "un", "tuple", "list", "dict", "new", "lt", "le", "eq", "append", "setitem", "comp") or \
                    x.op == "call" and (x.a[0] in NUMERIC or x.a[0].startswith(("numpy.", "math.", "pandas."))):
                return False
        return self.look(("t", t.id))

    def pos(self, d):
        """0 < d"""
        if d.lead() < 0:
            # 0 < -e
            k = ("neg",) + (-d).key()
            if ("pos",) + (-d).key() in self.world and self.world[("pos",) + (-d).key()]:
                return False
            return self.look(k)
        return self.look(("pos",) + d.key())

    # ---- values
    def n(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._n(t)
            if r.isnan():
                r = Poly.atom(NANK)
            self.memo[t.id] = r
        return r

    def res(self, t):
        """Resolve top-level branches."""
        while True:
            if t.op == "ite":
                t = t.a[1] if self.cond(t.a[0]) else t.a[2]
            elif t.op == "idx" and t.a[0].op == "ite":
                t = idx(self.res(t.a[0]), t.a[1])
                if t.op == "idx" and t.a[0].op == "ite":
                    return t
            elif t.op == "idx" and t.a[0].op == "mu" and loopval(t.a[0], t.a[1]) is not None:
                t = loopval(t.a[0], t.a[1])
            elif t.op == "attr" and t.a[0].op == "ite":
                t = attr(self.res(t.a[0]), t.a[1])
                if t.op == "attr" and t.a[0].op == "ite":
                    return t
            else:
                return t

    def clamp(self, t):
        """a if a > b else b."""
        c, p, q = t.a
        if c.op == "not":
            c, p, q = c.a[0], q, p
        if c.op not in ("lt", "le") or truth(c) is not None or p.op in ("tuple", "list", "dict") or q.op in ("tuple", "list", "dict"):
            return None
        if not ({strip1(p), strip1(q)} <= {strip1(c.a[0]), strip1(c.a[1])}):
            return None
        x, y, p, q = (self.n(z) for z in (*c.a, p, q))
        if any(z.isnan() or z.isconst() and z.value() == 0 for z in (x, y)) or x.isconst() and y.isconst():
            return None
        if p == y and q == x:
            return self.maxmin("max", [x, y])
        if p == x and q == y:
            return self.maxmin("min", [x, y])
        return None

    def _n(self, t):
        while t.op == "ite" and truth(t.a[0]) is None:
            r = self.clamp(t)
            if r is not None:
                return r
            t = t.a[1] if self.cond(t.a[0]) else t.a[2]
        t = self.res(t)
        if t.id in self.cuts:
            return self.cuts[t.id]
        op, a = t.op, t.a
        if op == "c":
            v = num(cval(t))
            if v == "nan":
                return Poly.atom(NANK)
            if v is not None:
                return Poly.const(v)
            if cval(t) == float("inf"):
                return Poly.atom(("inf",))
            return Poly.atom(("t", t.id))
        if op == "glob" and a[0] in NANS:
            return Poly.atom(NANK)
        if op == "glob" and a[0] in ("numpy.inf", "math.inf") or op == "c" and isinstance(cval(t), float) and cval(t) == float("inf"):
            return Poly.atom(("inf",))
        if op == "bin":
            o = a[0]
            if o in "+-*/":
                x, y = self.n(a[1]), self.n(a[2])
                return x + y if o == "+" else x - y if o == "-" else x * y if o == "*" else x.div(y)
            if o == "**" and a[2].op == "c" and isinstance(cval(a[2]), int) and 0 < cval(a[2]) < 5:
                x = self.n(a[1])
                r = x
                for _ in range(cval(a[2]) - 1):
                    r = r * x
                return r
            if o == "**" and a[2].op == "c" and cval(a[2]) == 0.5:
                return self.sqrt(self.n(a[1]))
        if op == "un" and a[0] == "-":
            return -self.n(a[1])
        if op == "un" and a[0] == "+":
            return self.n(a[1])
        if op == "call":
            f = a[0]
            pos, kw = args_of(t)
            if f in ID1 and len(pos) == 1:
                return self.n(pos[0])
            if f in ABS and len(pos) == 1:
                return self.abs(self.n(pos[0]))
            if f in ("numpy.sqrt", "math.sqrt") and len(pos) == 1:
                return self.sqrt(self.n(pos[0]))
            if f in MAXF and len(pos) > 1 and not kw:
                return self.maxmin(MAXF[f], [self.n(x) for x in pos])
            if f in PCT and len(pos) >= 2 and pos[1].op not in ("list", "tuple"):
                return Poly.atom(("quantile", self.key(pos[0]), self.n(pos[1]).div(Poly.const(PCT[f])).key()))
            if f.startswith("scipy.stats.") and f.count(".") == 3:
                r = self.dist(f, pos, kw)
                if r is not None:
                    return r
        if op == "m" and a[1] in ("ppf", "sf", "cdf", "isf") and a[0].op == "glob" and a[0].a[0].startswith("scipy.stats."):
            pos = [x for x in a[2:] if x.op != "kw"]
            kw = {x.a[0]: x.a[1] for x in a[2:] if x.op == "kw"}
            r = self.dist(a[0].a[0] + "." + a[1], pos, kw)
            if r is not None:
                return r
        if op == "idx":
            o, k = a
            if o.op == "call" and o.a[0] in PCT and k.op == "c":
                pos, kw = args_of(o)
                if len(pos) >= 2 and pos[1].op in ("list", "tuple") and isinstance(cval(k), int) and cval(k) < len(pos[1].a):
                    return Poly.atom(("quantile", self.key(pos[0]), self.n(pos[1].a[cval(k)]).div(Poly.const(PCT[o.a[0]])).key()))
        return Poly.atom(("t", t.id))

    def key(self, t):
        t = self.res(t)
        return ("t", t.id)

    def sqrt(self, x):
        if x.isnan():
            return Poly.atom(NANK)
        if x.isconst():
            v = x.value()
            if v == 0 or v == 1:
                return x
        return Poly.atom(("sqrt",) + x.key())

    def abs(self, x):
        if x.isnan():
            return Poly.atom(NANK)
        if x.isconst():
            return Poly.const(abs(x.value()))
        if x.lead() < 0:
            x = -x
        s, c = x.single()
        if s is not None and s[0] in ("sqrt", "abs") and c > 0:
            return x
        return Poly.atom(("abs",) + x.key())

    def maxmin(self, f, xs):
        cs = [x for x in xs if x.isconst()]
        rest = sorted((x for x in xs if not x.isconst()), key=lambda p: repr(p.key()))
        if cs:
            v = max(c.value() for c in cs) if f == "max" else min(c.value() for c in cs)
            if not rest:
                return Poly.const(v)
            rest = [Poly.const(v)] + rest
        if len(set(rest)) == 1:
            return rest[0]
        return Poly.atom((f,) + tuple(x.key() for x in rest))

    def dist(self, f, pos, kw):
        d, fn = f.split(".")[2:]
        if d not in ("norm", "t") or fn not in ("ppf", "sf", "cdf", "isf"):
            return None
        names = ["q" if fn in ("ppf", "isf") else "x"] + (["df"] if d == "t" else []) + ["loc", "scale"]
        b = dict(zip(names, pos))
        b.update(kw)
        if set(b) - set(names[:2] if d == "t" else names[:1]):
            return None
        x = self.n(b[names[0]])
        df = (self.n(b["df"]).key(),) if d == "t" and "df" in b else ()
        if x.isnan():
            return Poly.atom(NANK)
        one = Poly.const(1)
        if fn == "isf":
            x, fn = one - x, "ppf"
        if fn == "ppf":
            # ppf(q) = -ppf(1-q): keep the form whose constant part is 1 (or >= 1/2)
            if x.value() < Fraction(1, 2) and not x.isconst() or x.isconst() and x.value() < Fraction(1, 2):
                return -Poly.atom(("ppf", d, (one - x).key()) + df)
            return Poly.atom(("ppf", d, x.key()) + df)
        flip = x.lead() < 0
        k = Poly.atom(("sf", d, (-x if flip else x).key()) + df)
        if fn == "sf":
            return one - k if flip else k
        return k if flip else one - k


def worlds(fn, cap=400):
    """Run fn(Norm) once per feasible assignment of the conditions it meets.  Yields (world, result)."""
    st = [{}]
    n = 0
    while st:
        w = st.pop()
        try:
            r = fn(Norm(w))
        except Need as e:
            n += 1
            if n > cap:
                raise Overflow()
            for v in (False, True):
                w2 = dict(w)
                w2[e.key] = v
                st.append(w2)
            continue
        yield w, r


class Overflow(Exception):
    pass
