"""Scalar closed forms as canonical algebraic expressions (computer algebra on extracted terms; nothing is evaluated)."""
import glob as _g
import sys
from .terms import *
from .alg import Norm, Need
try:
    import sympy as sp
except ImportError:
    sys.path += _g.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")
    import sympy as sp

FLOAT = {"builtins.float", "numpy.float64", "numpy.asarray", "numpy.array"}
INTS = {"builtins.int", "numpy.int64", "math.trunc"}


class Opaque(Exception):
    """The value is missing (None, NaN) or not a scalar."""


def args(t, skip=1):
    pos = [x for x in t.a[skip:] if not (type(x) is T and x.op in ("kw", "star", "dstar"))]
    kw = {x.a[0]: x.a[1] for x in t.a[skip:] if type(x) is T and x.op == "kw"}
    return pos, kw


class Sym(Norm):
    """Canonical expressions in one world.  positive: symbols known to be positive (quantities such as counts and deviations).
    assume(cond term, self) may decide a condition."""

    def __init__(self, world=None, leaf=None, assume=None):
        super().__init__(world)
        self.leaf = leaf or (lambda t: None)
        self.assume = assume
        self.atoms = {}
        self.emem = {}

    def _cond(self, t):
        if self.assume is not None:
            v = self.assume(t, self)
            if v is not None:
                return v
        return super()._cond(t)

    def atom(self, f, *xs):
        """The function atom f(xs...), equal arguments shared."""
        for ys, s in self.atoms.get(f, []):
            if len(ys) == len(xs) and all(same(x, y) for x, y in zip(xs, ys)):
                return s
        s = sp.Symbol("%s#%d" % (f, len(self.atoms.get(f, []))), **({"positive": True} if f == "norm" else {"real": True}))
        self.atoms.setdefault(f, []).append((xs, s))
        return s

    def argsof(self, s):
        """(function, arguments) of an atom, or None."""
        for f, l in self.atoms.items():
            for xs, y in l:
                if y == s:
                    return f, xs
        return None

    def e(self, t):
        r = self.emem.get(t.id)
        if r is None:
            r = self.emem[t.id] = self._e(t)
        return r

    def sym(self, t):
        t = self.res(t)
        x = self.leaf(t)
        return x if x is not None else sp.Symbol("t%d" % t.id, real=True)

    def clamped(self, t):
        """x if x > y else y."""
        c, p, q = t.a
        if c.op == "not":
            c, p, q = c.a[0], q, p
        if c.op in ("lt", "le") and {p, q} == {c.a[0], c.a[1]} and p.op not in ("tuple", "list", "dict"):
            return self.extreme("max" if p is c.a[1] else "min", [self.e(p), self.e(q)])
        return None

    def _e(self, t):
        while t.op == "ite" and truth(t.a[0]) is None:
            x = self.clamped(t)
            if x is not None:
                return x
            t = t.a[1] if self.cond(t.a[0]) else t.a[2]
        t = self.res(t)
        x = self.leaf(t)
        if x is not None:
            return x
        op, a = t.op, t.a
        if op == "c":
            v = cval(t)
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                raise Opaque(show(t, 2))
            if v != v:
                raise Opaque("nan")
            if v in (float("inf"), float("-inf")):
                return sp.oo if v > 0 else -sp.oo
            return sp.Integer(v) if isinstance(v, int) else sp.Rational(repr(v))
        if op == "glob" and a[0] in ("numpy.inf", "math.inf"):
            return sp.oo
        if op == "glob" and a[0] in ("numpy.nan", "math.nan", "numpy.NaN"):
            raise Opaque("nan")
        if op == "bin" and a[0] in ("+", "-", "*", "/", "**", "//"):
            x, y = self.e(a[1]), self.e(a[2])
            if a[0] == "//":
                return self.atom("floor", x / y)
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "**": lambda: x ** (sp.Rational(1, 2) if y == sp.Rational(1, 2) else y)}[a[0]]()
        if op == "un" and a[0] in "+-":
            return self.e(a[1]) if a[0] == "+" else -self.e(a[1])
        if op == "call":
            p, k = args(t)
            f = a[0]
            if f in FLOAT and len(p) == 1:
                return self.e(p[0])
            if f in INTS and len(p) == 1:
                x = self.e(p[0])
                q = self.argsof(x)
                return x if x.is_integer or q and q[0] in ("ceil", "floor", "round", "max", "min", "trunc") else self.atom("trunc", x)
            if f in ("numpy.sqrt", "math.sqrt") and len(p) == 1:
                return sp.sqrt(self.e(p[0]))
            if f in ("numpy.square",) and len(p) == 1:
                return self.e(p[0]) ** 2
            if f in ("numpy.power", "math.pow", "builtins.pow") and len(p) == 2:
                return self.e(p[0]) ** self.e(p[1])
            if f in ("numpy.ceil", "math.ceil") and len(p) == 1:
                return self.atom("ceil", self.e(p[0]))
            if f in ("numpy.floor", "math.floor") and len(p) == 1:
                return self.atom("floor", self.e(p[0]))
            if f in ("builtins.round", "numpy.round") and len(p) == 1:
                return self.atom("round", self.e(p[0]))
            if f in ("numpy.exp", "math.exp") and len(p) == 1:
                return sp.exp(self.e(p[0]))
            if f in ("numpy.log", "math.log") and len(p) == 1:
                return sp.log(self.e(p[0]))
            if f in ("builtins.abs", "numpy.abs", "math.fabs", "numpy.absolute") and len(p) == 1:
                return self.unabs(sp.Abs(self.e(p[0])))
            if f in ("builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum") and len(p) > 1:
                xs = [self.e(x) for x in p]
                return self.extreme("max" if "max" in f else "min", xs)
            if f.startswith("scipy.stats.") and f.count(".") == 3:
                r = self.dist(*f.split(".")[2:], p, k)
                if r is not None:
                    return r
        if op == "m" and a[0].op == "glob" and a[0].a[0].startswith("scipy.stats."):
            p, k = args(t, 2)
            r = self.dist(a[0].a[0].split(".")[-1], a[1], p, k)
            if r is not None:
                return r
        return sp.Symbol("t%d" % t.id, real=True)

    def unabs(self, x):
        """|x| split on the sign of its argument (worlds are keyed by the argument)."""
        for y in sorted(x.atoms(sp.Abs), key=sp.srepr):
            fs = sp.Mul.make_args(sp.factor(y.args[0]))
            fs = [f for f in fs if not (f.is_positive or f.is_Pow and (f.exp * 2).is_integer and not f.exp.is_integer)]
            k = ("sign", sp.srepr(sp.Mul(*fs)))
            v = self.world.get(k) if fs else True
            if v is None:
                raise Need(k)
            x = x.subs(y, y.args[0] if v else -y.args[0])
        return x

    def extreme(self, f, xs):
        out = []
        for x in xs:
            q = self.argsof(x)
            for y in (q[1] if q and q[0] == f else [x]):
                if not any(same(y, z) for z in out):
                    out.append(y)
        if len(out) == 1:
            return out[0]
        nums = [x for x in out if x.is_number]
        if len(nums) > 1:
            v = (max if f == "max" else min)(nums)
            out = [x for x in out if not x.is_number] + [v]
        return self.atom(f, *sorted(out, key=lambda x: sp.srepr(sp.factor(x))))

    def dist(self, d, fn, p, k):
        if fn not in ("cdf", "sf", "ppf", "isf"):
            return None
        names = {"norm": [], "chi2": ["df"], "ncx2": ["df", "nc"], "t": ["df"]}.get(d)
        if names is None:
            return None
        names = ["x"] + names + ["loc", "scale"]
        b = dict(zip(names, p))
        for x, y in k.items():
            b["x" if x == "q" else x] = y
        v = {n: self.e(x) for n, x in b.items()}
        if "x" not in v or set(v) - set(names):
            return None
        loc, scale = v.pop("loc", sp.Integer(0)), v.pop("scale", sp.Integer(1))
        x = v.pop("x")
        rest = [v[n] for n in names[1:-2]] if set(names[1:-2]) <= set(v) else None
        if rest is None:
            return None
        sym = d in ("norm", "t")
        if fn in ("cdf", "sf"):
            return self.cdf(d, (x - loc) / scale, rest, sym, fn == "sf")
        return loc + scale * self.ppf(d, x if fn == "ppf" else 1 - x, rest, sym)

    def cdf(self, d, x, rest, sym, sf=False):
        x = sp.together(sp.expand(x))
        if sym:
            for ys, s in self.atoms.get(d + "cdf", []):
                if len(ys) == len(rest) + 1 and all(same(y, r) for y, r in zip(ys[1:], rest)) and same(ys[0], -x):
                    return s if sf else 1 - s
        s = self.atom(d + "cdf", x, *rest)
        return 1 - s if sf else s

    def ppf(self, d, x, rest, sym):
        if sym:
            for ys, s in self.atoms.get(d + "ppf", []):
                if len(ys) == len(rest) + 1 and all(same(y, r) for y, r in zip(ys[1:], rest)) and same(ys[0], 1 - x):
                    return -s
        return self.atom(d + "ppf", x, *rest)


_cache = {}


def same(x, y):
    """Algebraically equal."""
    if x == y:
        return True
    k = (x, y)
    if k not in _cache:
        d = x - y
        try:
            r = sp.simplify(d) == 0 if d.free_symbols else sp.nsimplify(sp.simplify(d)) == 0
        except Exception:
            r = False
        if not r and x.free_symbols == y.free_symbols:
            r = sp.simplify(sp.expand(x ** 2 - y ** 2)) == 0 and sp.simplify(x / y) == 1
        _cache[k] = bool(r)
    return _cache[k]


def symworlds(fn, cap=400, **kw):
    st, n = [{}], 0
    while st:
        w = st.pop()
        try:
            r = fn(Sym(w, **kw))
        except Need as e:
            n += 1
            if n > cap:
                raise
            for v in (False, True):
                st.append({**w, e.key: v})
            continue
        yield w, r
