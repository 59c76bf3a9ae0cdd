"""Array terms at exact generic points: entries are rationals, transcendental functions and factorisations stay uninterpreted
(the same argument always has the same, otherwise arbitrary, value).  Two expressions that agree here agree as expressions."""
import glob as _g
import random
import sys
from .rows import *
from .rows import uniq, ordered
from .terms import *
if "numpy" not in sys.modules:
    sys.path += _g.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")
import numpy as np

ND = np.ndarray


def q(x):
    """Exact entry."""
    if isinstance(x, bool) or isinstance(x, (Fraction, str, tuple)) or x is None:
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if x != x or x in (INF, -INF) else Fraction(str(float(x)))
    return x


def arr(v):
    """Nested sequences as an array of exact entries."""
    if isinstance(v, ND):
        return v
    if isinstance(v, Se):
        v = v.list()
    if isinstance(v, Fr):
        v = [[c[r] for c in v.cols.values()] for r in v.rows]
    if not isinstance(v, (list, tuple, range)):
        out = np.empty((), dtype=object)
        out[()] = q(v)
        return out
    v = [arr(x) if isinstance(x, (list, ND, Se)) else x for x in v]
    if v and isinstance(v[0], ND):
        out = np.empty((len(v),) + v[0].shape, dtype=object)
        for i, x in enumerate(v):
            if x.shape != v[0].shape:
                raise Open("ragged array")
            out[i] = x
        return out
    out = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        out[i] = q(x)
    return out


def native(k):
    """Index arrays in numpy's own types."""
    if isinstance(k, tuple):
        return tuple(native(x) for x in k)
    if isinstance(k, Se):
        k = arr(k)
    if isinstance(k, list):
        k = arr(k)
    if isinstance(k, ND) and k.dtype == object:
        f = [x for x in k.ravel()]
        if all(isinstance(x, bool) for x in f):
            return k.astype(bool)
        if all(isinstance(x, int) for x in f):
            return k.astype(int)
        raise Open("index")
    if isinstance(k, Fraction) and k.denominator == 1:
        return int(k)
    return k


def finite(v):
    return not (isinstance(v, float) and (v != v or v in (INF, -INF)))


class Free:
    """Uninterpreted functions: a square of a rational for each argument (so that roots stay rational)."""

    def __init__(self, seed=1):
        self.r, self.seen = random.Random(seed), {}

    def __call__(self, *key):
        if key not in self.seen:
            self.seen[key] = Fraction(self.r.randint(2, 60), self.r.randint(2, 60)) ** 2
        return self.seen[key]

    def exp(self, x):
        if not finite(x):
            return x if x != -INF else 0
        return Fraction(1) if x == 0 else self("exp", Fraction(x))

    def sqrt(self, x):
        if not finite(x):
            return x
        x = Fraction(x)
        if x < 0:
            return NAN
        return self.root(x.numerator) / self.root(x.denominator)

    def root(self, n):
        """Multiplicative: root(ab) = root(a) root(b), root(a)**2 = a for squares."""
        if n == 0:
            return Fraction(0)
        out, p = Fraction(1), 2
        while p * p <= n and p < 2000:
            while n % (p * p) == 0:
                n //= p * p
                out *= p
            if n % p == 0:
                n //= p
                out *= self("root", p)
            p += 1
        r = int_root(n)
        return out * (r if r is not None else self("root", n))

    def svd(self, m):
        key = ("svd", m.shape, tuple(Fraction(x) for x in m.ravel()))
        k = min(m.shape)
        g = lambda tag, a, b: arr([[Fraction(self(key, tag, i, j).numerator % 23 - 11, 7) for j in range(b)] for i in range(a)])
        # the middle singular value is the boundary case of a threshold, all are positive and decreasing
        s = arr(sorted([self(key, "s", i) / 40 for i in range(k)], reverse=True))
        return g("u", m.shape[0], k), s, g("v", k, m.shape[1])


def int_root(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def lstsq(X, y):
    """Exact least squares; only for full column rank (up to columns of zeros)."""
    n, k = X.shape
    used = [j for j in range(k) if any(X[r, j] != 0 for r in range(n))]
    if len(used) < k:                        # a column of zeros has coefficient zero in the shortest solution
        out = arr([Fraction(0)] * k)
        out[used] = lstsq(X[:, used], y)
        return out
    A = [[sum(X[r, i] * X[r, j] for r in range(n)) for j in range(k)] + [sum(X[r, i] * y[r] for r in range(n))] for i in range(k)]
    for i in range(k):
        p = next((r for r in range(i, k) if A[r][i] != 0), None)
        if p is None:
            raise Open("least squares without full rank")
        A[i], A[p] = A[p], A[i]
        d = A[i][i]
        A[i] = [Fraction(x) / d for x in A[i]]
        for r in range(k):
            if r != i and A[r][i] != 0:
                f = A[r][i]
                A[r] = [x - f * z for x, z in zip(A[r], A[i])]
    return arr([row[k] for row in A])


def red(f, v, axis=None, keep=False):
    """Reduction of exact entries over an axis (all axes if None)."""
    v = arr(v)
    if axis is None:
        return f([x for x in v.ravel()])
    if isinstance(axis, tuple):
        raise Open("axes")
    w = np.moveaxis(v, axis, -1)
    out = np.empty(w.shape[:-1], dtype=object)
    for k in np.ndindex(*w.shape[:-1]):
        out[k] = f([x for x in w[k]])
    return np.expand_dims(out, axis) if keep else out


def total(xs):
    t = Fraction(0)
    for x in xs:
        t = arith("+", t, x)
    return t


def some(xs):
    return [x for x in xs if not isnan(x)]


def biggest(xs):
    return NAN if any(isnan(x) for x in xs) else max(xs)


def smallest(xs):
    return NAN if any(isnan(x) for x in xs) else min(xs)


def middle(xs):
    xs, k = sorted(xs), len(xs) // 2
    return xs[k] if len(xs) % 2 else (xs[k] + xs[k - 1]) / 2


def avg(xs):
    return arith("/", total(xs), Fraction(len(xs))) if xs else NAN


REDUCE = {"sum": total, "nansum": lambda v: total(some(v)), "mean": avg, "nanmean": lambda v: avg(some(v)), "max": biggest, "amax": biggest, "min": smallest,
          "amin": smallest, "nanmax": lambda v: max(some(v)), "nanmin": lambda v: min(some(v)), "any": lambda v: any(bool(x) for x in v),
          "all": lambda v: all(bool(x) for x in v), "count_nonzero": lambda v: sum(1 for x in v if x), "prod": lambda v: math.prod(v), "median": middle}


class Points(Rows):
    def __init__(self, env, free, calls=None):
        Rows.__init__(self, env)
        self.free, self.calls = free, calls or (lambda t, args: None)
        self.asked = []

    def ev(self, t):
        if t.id in self.memo:
            return self.memo[t.id]
        self.steps = -10 ** 9 if self.steps >= 0 else self.steps
        self.count = getattr(self, "count", 0) + 1
        if self.count > 400000:
            raise Open("too long")
        return Rows.ev(self, t)

    def loop(self, t):
        v = Rows.loop(self, t)
        return v

    # ---- elementwise
    def lift(self, f, *xs):
        if any(isinstance(x, ND) for x in xs):
            xs = [x if isinstance(x, ND) else arr(x) for x in xs]
            try:
                bs = np.broadcast_arrays(*xs)
            except ValueError:
                raise Open("shapes")
            out = np.empty(bs[0].shape, dtype=object)
            for k in np.ndindex(*out.shape):
                out[k] = q(f(*[b[k] for b in bs]))
            return out if out.shape else out[()]
        return Rows.lift(self, f, *xs)

    def cmp(self, o, x, y):
        return Rows.cmp(self, o, x, y)

    def truth(self, t):
        v = self.ev(t)
        if isinstance(v, ND):
            if v.size == 1:
                return bool(v.ravel()[0])
            raise Open("truth of an array")
        return Rows.truth(self, t)

    def bin(self, op, x, y):
        if op == "@":
            return self.dot(arr(x), arr(y))
        if op in "&|^" and (isinstance(x, ND) or isinstance(y, ND)):
            return self.lift(lambda p, r: bool(p) and bool(r) if op == "&" else bool(p) or bool(r) if op == "|" else bool(p) != bool(r), x, y)
        if isinstance(x, bool) and not isinstance(y, (ND, Se)):
            x = int(x) if op in "+-*/" else x
        def f(a, b):
            a = int(a) if isinstance(a, bool) else a
            b = int(b) if isinstance(b, bool) else b
            if op == "*" and (not finite(a) or not finite(b)):
                return float("nan") if isnan(a) or isnan(b) or a == 0 or b == 0 else INF if (a > 0) == (b > 0) else -INF
            if op == "/":
                if b == 0 or not finite(a) or not finite(b):
                    if isnan(a) or isnan(b) or (b == 0 and a == 0) or (not finite(a) and not finite(b)):
                        return NAN
                    return 0 if not finite(b) else (INF if a > 0 else -INF)
                return Fraction(a) / Fraction(b)
            if op == "**":
                if not finite(a):
                    return a if isnan(a) else INF
                if Fraction(b).denominator == 1:
                    return Fraction(a) ** int(b)
                if b == Fraction(1, 2):
                    return self.free.sqrt(a)
                raise Open("power")
            if not finite(a) or not finite(b):
                if isnan(a) or isnan(b):
                    return NAN
                if op in "+-":
                    return float(a) + float(b) if op == "+" else float(a) - float(b)
            return arith(op, a, b)
        if isinstance(x, ND) or isinstance(y, ND) or (num(x) and num(y)):
            return self.lift(f, x, y)
        return Rows.bin(self, op, x, y)

    def dot(self, x, y):
        try:
            r = np.dot(x, y) if x.ndim and y.ndim else x * y
        except (ValueError, TypeError):
            raise Open("product")
        return r

    # ---- terms
    def go(self, t):
        o, a = t.op, t.a
        if o == "c":
            v = cval(t)
            return q(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v
        if o == "stale" and a[0] in self.env:
            return self.env[a[0]]
        if o in ("broke", "exc"):
            return False
        if o == "iter":
            return len(self.iter(a[0])) > 0
        if o == "ite" and a[0].op == "ran" and a[0].a[0].op == "iter":
            it = a[0].a[0].a[0]
            return self.last(it, a[1]) if self.iter(it) else self.ev(a[2])
        if o == "or" and a[0].op in ("cfg", "param"):
            v = self.ev(a[0])
            if isinstance(v, (list, tuple, dict, str)) or v is None:
                return v or (self.ev(a[1]) if len(a) == 2 else self.ev(mk("or", *a[1:])))
        if o == "ran":
            return len(self.iter(a[0].a[0] if a[0].op == "iter" else a[0])) > 0
        if o == "ite" and a[0].op == "broke" and not any(x.op in ("cfg", "param") and x.a[0] == "tol" for x in reach([a[0]])):
            return self.stopped(t)
        if o == "glob" and a[0] in ("numpy.newaxis",):
            return None
        if o == "glob" and a[0] in self.env:
            return self.env[a[0]]
        if o in ("fcall", "call", "m"):
            r = self.calls(self, t)
            if r is not None:
                return r[0]
        if o == "comp":
            v = Rows.go(self, t)
            return v
        return Rows.go(self, t)

    def stopped(self, t):
        """The value where a search through a collection stops."""
        c = t.a[0].a[0]
        its = {(x.op[0], x.a[0].id, cval(x.a[1])): x.a[0] for x in reach([c]) if x.op in ("elem", "pos")}
        its = {k[1:]: x for k, x in its.items() if k not in self.bound} or {k[1:]: x for k, x in its.items()}
        if len(its) != 1 or any(x.op == "mu" and x.id not in self.bound and x.cond in its.values() for x in reach([c])):
            raise Open("loop that stops early")
        for b in self.iter(next(iter(its.values())), next(iter(its))[1]):
            old = self.bind(b)
            try:
                if self.truth(c):
                    return self.ev(t.a[1])
            finally:
                self.unbind(old)
        return self.ev(t.a[2])

    def seq(self, v):
        if isinstance(v, ND):
            return [x for x in v]
        return Rows.seq(self, v)

    def inn(self, v, s):
        if isinstance(s, ND):
            return v in list(s.ravel())
        return Rows.inn(self, v, s)

    def attr(self, v, n):
        if isinstance(v, ND):
            if n == "T":
                return v.T
            if n == "shape":
                return tuple(int(x) for x in v.shape)
            if n == "size":
                return int(v.size)
            if n == "ndim":
                return int(v.ndim)
            if n == "values":
                return v
            if n == "dtype":
                return ("dtype", "f")
        if isinstance(v, Fr) and n == "values":
            return arr(v)
        if isinstance(v, Fr) and n == "T":
            return Fr(list(v.cols), {r: {c: v.cols[c][r] for c in v.cols} for r in v.rows})
        if isinstance(v, list) and n == "shape":
            return (len(v),)
        if isinstance(v, Se) and n == "values":
            return arr(v)
        return Rows.attr(self, v, n)

    def index(self, v, k):
        if isinstance(v, list) and isinstance(k, (ND, tuple)) and not isinstance(k, Se):
            v = arr(v)
        if isinstance(v, ND):
            try:
                r = v[native(k)]
            except (IndexError, ValueError):
                raise Open("index")
            return r.copy() if isinstance(r, ND) else r
        if isinstance(v, (list, tuple)) and isinstance(k, Fraction):
            k = int(k)
        if isinstance(v, Se) and isinstance(k, ND):
            return Se([r for r, x in zip(v.rows, k) if x], v.vals, v.name)
        return Rows.index(self, v, k)

    def store(self, v, k, x):
        if isinstance(v, list) and not isinstance(k, (int, str)):
            v = arr(v)
        if isinstance(v, ND):
            w = v.copy()
            try:
                w[native(k)] = arr(x) if isinstance(x, (list, Se)) else x if isinstance(x, ND) else q(x)
            except (IndexError, ValueError):
                raise Open("store")
            return w
        return Rows.store(self, v, k, x)

    # ---- calls
    def shape(self, v):
        return tuple(int(x) for x in v) if isinstance(v, (tuple, list)) else (int(v),)

    def call(self, t):
        n = t.a[0]
        pos, kw = self.args(t, 1)
        E = self.ev
        s = n.split(".")[-1]
        if n.startswith("numpy."):
            if n in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
                out = np.empty(self.shape(E(pos[0] if pos else kw["shape"])), dtype=object)
                x = Fraction(s == "ones") if s != "full" else E(pos[1] if len(pos) > 1 else kw["fill_value"])
                d = kw.get("dtype") or (pos[1] if s != "full" and len(pos) > 1 else None)
                out[...] = bool(x) if d is not None and d.op == "glob" and d.a[0] in ("builtins.bool", "numpy.bool_") else q(x)
                return out
            if n in ("numpy.zeros_like", "numpy.ones_like", "numpy.full_like", "numpy.empty_like"):
                v = arr(E(pos[0]))
                out = np.empty(v.shape, dtype=object)
                d = kw.get("dtype")
                x = Fraction(s == "ones_like") if s != "full_like" else E(pos[1])
                out[...] = bool(x) if d is not None and d.op == "glob" and d.a[0] in ("builtins.bool", "numpy.bool_") else q(x)
                return out
            if n == "numpy.arange":
                return arr(list(range(*[int(E(x)) for x in pos])))
            if n in ("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.copy", "numpy.asanyarray"):
                return arr(E(pos[0])).copy()
            if n in ("numpy.abs", "numpy.absolute", "numpy.fabs"):
                return self.lift(lambda x: x if isnan(x) else abs(x), self.some(E(pos[0])))
            if n == "numpy.exp":
                return self.lift(self.free.exp, self.some(E(pos[0])))
            if n == "numpy.sqrt":
                return self.lift(self.free.sqrt, self.some(E(pos[0])))
            if n == "numpy.square":
                return self.bin("*", *[self.some(E(pos[0]))] * 2)
            if n in ("numpy.power",):
                return self.bin("**", E(pos[0]), E(pos[1]))
            if n in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide") and not kw:
                return self.bin({"add": "+", "subtract": "-", "multiply": "*", "divide": "/"}[s], E(pos[0]), E(pos[1]))
            if n in ("numpy.isnan", "numpy.isfinite", "numpy.isinf"):
                f = {"isnan": isnan, "isfinite": finite, "isinf": lambda v: not finite(v) and not isnan(v)}[s]
                return self.lift(f, self.some(E(pos[0])))
            if n in ("numpy.maximum", "numpy.minimum"):
                return self.lift(lambda x, y: NAN if isnan(x) or isnan(y) else max(x, y) if s == "maximum" else min(x, y), self.some(E(pos[0])), self.some(E(pos[1])))
            if n == "numpy.nan_to_num":
                z = E(kw["nan"]) if "nan" in kw else E(pos[1]) if len(pos) > 1 else Fraction(0)
                return self.lift(lambda x: z if isnan(x) else Fraction(0) if not finite(x) else x, self.some(E(pos[0])))
            if n == "numpy.where":
                if len(pos) == 1:
                    v = native(arr(E(pos[0])))
                    return tuple(arr([int(i) for i in x]) for x in np.where(v))
                c, x, y = [self.some(E(p)) for p in pos]
                return self.lift(lambda c, x, y: x if c else y, c, x, y)
            if n in ("numpy.nonzero", "numpy.flatnonzero"):
                v = np.nonzero(native(arr(E(pos[0]))))
                v = tuple(arr([int(i) for i in x]) for x in v)
                return v if s == "nonzero" else v[0]
            if s in REDUCE and n == "numpy." + s:
                ax = E(kw["axis"]) if "axis" in kw else E(pos[1]) if len(pos) > 1 else None
                if kw.keys() - {"axis", "keepdims", "dtype"}:
                    raise Open("options of " + s)
                return red(REDUCE[s], self.some(E(pos[0])), None if ax is None else int(ax), "keepdims" in kw and self.truth(kw["keepdims"]))
            if n in ("numpy.std", "numpy.var"):
                xs = list(arr(E(pos[0])).ravel())
                if kw.keys() - {"ddof"}:
                    raise Open("options of " + s)
                m, d = avg(xs), int(E(kw["ddof"])) if "ddof" in kw else 0
                if len(xs) <= d or isnan(m):
                    return NAN
                v = total([(x - m) ** 2 for x in xs]) / (len(xs) - d)
                return v if s == "var" else self.free.sqrt(v)
            if n == "numpy.outer":
                x, y = arr(E(pos[0])).ravel(), arr(E(pos[1])).ravel()
                return self.lift(lambda a, b: arith("*", a, b), x[:, None], y[None, :])
            if n == "numpy.diff" and not kw:
                v = arr(E(pos[0]))
                return self.lift(lambda a, b: arith("-", int(a), int(b)) if isinstance(a, bool) else arith("-", a, b), v[1:], v[:-1])
            if n == "numpy.dot" or n == "numpy.matmul":
                return self.dot(arr(E(pos[0])), arr(E(pos[1])))
            if n == "numpy.linalg.svd":
                v = arr(E(pos[0]))
                if not all(finite(x) for x in v.ravel()):
                    raise Open("svd of undefined entries")
                self.asked.append(("svd", v))
                r = self.free.svd(v)
                return r if not ("compute_uv" in kw and not self.truth(kw["compute_uv"])) else r[1]
            if n == "numpy.linalg.lstsq":
                X, y = arr(E(pos[0])), arr(E(pos[1]))
                return (lstsq(X, y), arr([]), X.shape[1], arr([]))
            if n == "numpy.linalg.solve":
                return lstsq(arr(E(pos[0])), arr(E(pos[1])))
            if n == "numpy.concatenate":
                vs = [arr(x) for x in self.seq(E(pos[0]))]
                return np.concatenate(vs, axis=int(E(kw["axis"])) if "axis" in kw else 0)
            if n in ("numpy.column_stack", "numpy.vstack", "numpy.stack"):
                vs = [arr(x) for x in self.seq(E(pos[0]))]
                return np.column_stack(vs) if s == "column_stack" else np.vstack(vs) if s == "vstack" else np.stack(vs)
            if n in ("numpy.expand_dims",):
                return np.expand_dims(arr(E(pos[0])), int(E(kw["axis"] if "axis" in kw else pos[1])))
            if n in ("numpy.transpose",) and len(pos) == 1:
                return arr(E(pos[0])).T
            if n == "numpy.ravel":
                return arr(E(pos[0])).ravel()
            if n in ("numpy.logical_and", "numpy.logical_or", "numpy.logical_xor"):
                return self.bin({"and": "&", "or": "|", "xor": "^"}[s.split("_")[1]], arr(E(pos[0])), arr(E(pos[1])))
            if n == "numpy.logical_not":
                return self.lift(lambda x: not x, self.some(E(pos[0])))
            if n == "numpy.unique" and not kw:
                return arr(sorted(set(arr(E(pos[0])).ravel())))
        if n in ("pandas.isna", "pandas.isnull", "pandas.notna", "pandas.notnull"):
            f = isnan if "is" in s[:2] else (lambda x: not isnan(x))
            v = E(pos[0])
            if isinstance(v, Fr):
                return Fr(v.rows, {c: {r: f(x) for r, x in w.items()} for c, w in v.cols.items()})
            return self.lift(f, self.some(v))
        if n == "math.sqrt":
            return self.free.sqrt(E(pos[0]))
        if n == "math.exp":
            return self.free.exp(E(pos[0]))
        if n == "builtins.len":
            v = E(pos[0])
            return len(v.rows) if isinstance(v, (Fr, Se)) else len(v)
        if n in ("builtins.abs",):
            v = E(pos[0])
            return self.lift(lambda x: x if isnan(x) else abs(x), v)
        if n in ("builtins.max", "builtins.min"):
            vs = [E(x) for x in pos] if len(pos) > 1 else self.seq(E(pos[0]))
            return (biggest if s == "max" else smallest)([x.ravel()[0] if isinstance(x, ND) else x for x in vs])
        if n == "builtins.sum":
            return total(self.seq(E(pos[0])))
        if n in ("builtins.any", "builtins.all"):
            return (any if s == "any" else all)(bool(x) for x in self.seq(E(pos[0])))
        if n in ("builtins.int", "builtins.float", "numpy.float64", "builtins.bool"):
            v = E(pos[0])
            v = v.ravel()[0] if isinstance(v, ND) and v.size == 1 else v
            if isinstance(v, bool) and s != "bool":
                return int(v)
            if num(v):
                return bool(v) if s == "bool" else int(v) if s == "int" else v
        if n == "builtins.range":
            return list(range(*[int(E(x)) for x in pos]))
        if n == "builtins.zip":
            vs = []
            for x in pos:
                if x.op in ("star", "starred", "splat"):
                    vs += [self.seq(y) for y in self.seq(E(x.a[0]))]
                else:
                    vs.append(self.seq(E(x)))
            return [tuple(z) for z in zip(*vs)]
        return Rows.call(self, t)

    def some(self, v):
        return arr(v) if isinstance(v, (list, range)) else v

    def method(self, t):
        a, n = t.a, t.a[1]
        pos, kw = self.args(t, 2)
        E = self.ev
        v = E(a[0])
        if isinstance(v, list) and n in ("sum", "mean", "any", "all", "max", "min", "std", "copy", "astype", "flatten", "ravel", "reshape"):
            v = arr(v)
        if isinstance(v, ND):
            if n == "astype":
                d = pos[0]
                if d.op == "glob" and d.a[0] in ("builtins.bool", "numpy.bool_"):
                    return self.lift(bool, v)
                if d.op == "glob" and ("int" in d.a[0] or "float" in d.a[0]):
                    return self.lift(lambda x: int(x) if isinstance(x, bool) else x, v)
                return v
            if n in ("copy",):
                return v.copy()
            if n in ("flatten", "ravel"):
                return v.flatten()
            if n == "reshape":
                k = E(pos[0]) if len(pos) == 1 else tuple(E(x) for x in pos)
                return v.reshape(tuple(int(x) for x in k) if isinstance(k, tuple) else int(k))
            if n in REDUCE:
                ax = E(kw["axis"]) if "axis" in kw else E(pos[0]) if pos else None
                return red(REDUCE[n], v, None if ax is None else int(ax), "keepdims" in kw and self.truth(kw["keepdims"]))
            if n == "tolist":
                return [x for x in v] if v.ndim == 1 else v.tolist()
            if n == "item":
                return v.ravel()[0]
            if n == "transpose" and not pos:
                return v.T
            if n == "dot":
                return self.dot(v, arr(E(pos[0])))
        if isinstance(v, Fr) and n == "pivot":
            k = {z: E(x) for z, x in kw.items()}
            i, c, y = k["index"], k["columns"], k["values"]
            at = {(v.cols[i][r], v.cols[c][r]): v.cols[y][r] for r in v.rows}
            if len(at) != len(v.rows):
                raise Open("pivot with repeated cells")
            rows, cols = ordered(uniq(v.cols[i].values())), ordered(uniq(v.cols[c].values()))
            return Fr(rows, {u: {r: at.get((r, u), NAN) for r in rows} for u in cols})
        if isinstance(v, Fr) and n == "reindex":
            rows = list(self.seq(E(kw["index"]))) if "index" in kw else v.rows
            cols = list(self.seq(E(kw["columns"]))) if "columns" in kw else list(v.cols)
            return Fr(rows, {c: {r: v.cols[c].get(r, NAN) if c in v.cols else NAN for r in rows} for c in cols})
        if isinstance(v, Fr) and n == "astype":
            return v
        if isinstance(v, dict) and n == "get":
            k = E(pos[0])
            return v[k] if k in v else (E(pos[1]) if len(pos) > 1 else None)
        return Rows.method(self, t)
