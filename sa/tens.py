"""Sums of products over labelled axes: a canonical form of array expressions (means, sums, inner products, selections)."""
from fractions import Fraction
from itertools import permutations
from .terms import *

PASS = {"numpy.asarray", "numpy.array", "builtins.float", "numpy.float64", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.squeeze",
        "numpy.copy", "numpy.nan_to_num0"}
PASSM = {"copy", "astype", "to_numpy", "item", "tolist"}
FN = {"numpy.abs": "abs", "numpy.absolute": "abs", "numpy.fabs": "abs", "math.fabs": "abs", "builtins.abs": "abs", "numpy.exp": "exp", "math.exp": "exp", "numpy.log": "log", "math.log": "log"}


ELEM = {"numpy.round", "numpy.around", "builtins.round", "numpy.floor", "numpy.ceil", "numpy.rint", "numpy.clip", "numpy.sign", "numpy.log1p", "numpy.maximum", "numpy.minimum"}
RED = {"numpy.median", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "numpy.prod", "numpy.percentile", "numpy.quantile"}


class Open(Exception):
    """Not understood."""


class Mismatch(Open):
    """Two axes over different collections combined element by element."""

    def __init__(self, a, b):
        Open.__init__(self, "axes %r and %r" % (a, b))
        self.a, self.b = a, b


class TV:
    """free: domains of the axes; terms: {(scalars, factors, bound domains): coefficient}.
    scalars ((atom, power)...), factors ((atom, (index...)), power)...; index k < len(free) is an axis, the rest are summed over."""
    __slots__ = ("free", "terms")

    def __init__(self, free, terms):
        self.free, self.terms = tuple(free), {k: v for k, v in terms.items() if v}

    def key(self):
        return tuple(sorted(((k, v) for k, v in self.terms.items()), key=repr))

    def __eq__(self, o):
        return isinstance(o, TV) and self.free == o.free and self.terms == o.terms

    def __add__(self, o):
        free, a, b = align(self, o)
        t = dict(a)
        for k, v in b.items():
            t[k] = t.get(k, 0) + v
        return TV(free, t)

    def __neg__(self):
        return TV(self.free, {k: -v for k, v in self.terms.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        free, a, b = align(self, o)
        return TV(free, collect(mul1(x, y, len(free)) + (v * w,) for x, v in a.items() for y, w in b.items()))

    def inv(self):
        if len(self.terms) == 1:
            (k, v), = self.terms.items()
            sc, fs, bd = k
            s = tuple(sorted(((x, -p) for x, p in sc), key=repr))
            if not bd:
                f = tuple(sorted(((x, i, -p) for x, i, p in fs), key=repr))
                return TV(self.free, {(s, f, ()): 1 / v})
            nf = len(self.free)
            inner = ("mono", fs, bd)
            return TV(self.free, {(s, ((inner, tuple(range(nf)), -1),) if nf else (), ()): 1 / v} if nf
                      else {(tuple(sorted(s + ((inner, -1),), key=repr)), (), ()): 1 / v})
        if not self.terms:
            raise Open("division by nothing")
        lead = min(self.terms.items(), key=lambda kv: repr(kv[0]))[1]
        inner = ("poly", TV(self.free, {k: v / lead for k, v in self.terms.items()}).key())
        nf = len(self.free)
        if nf:
            return TV(self.free, {((), ((inner, tuple(range(nf)), -1),), ()): 1 / lead})
        return TV(self.free, {(((inner, -1),), (), ()): 1 / lead})

    def fn(self, name):
        """An elementwise function."""
        nf = len(self.free)
        inner = ("fn", name, self.key())
        if nf:
            return TV(self.free, {((), ((inner, tuple(range(nf)), 1),), ()): Fraction(1)})
        return TV(self.free, {(((inner, 1),), (), ()): Fraction(1)})

    def sum(self, ax):
        """Sum over one axis."""
        nf = len(self.free)
        ax %= nf
        d = self.free[ax]
        if d is None:
            raise Open("sum over a length-one axis")
        out = []
        for (sc, fs, bd), v in self.terms.items():
            # the axis becomes the last bound index
            m = {i: i if i < ax else i - 1 for i in range(nf) if i != ax}
            m[ax] = nf - 1 + len(bd)
            for j in range(len(bd)):
                m[nf + j] = nf - 1 + j
            out.append((sc, [(x, tuple(m[i] for i in ix), p) for x, ix, p in fs], list(bd) + [d], nf - 1, v))
        return TV(self.free[:ax] + self.free[ax + 1:], collect(out))

    def mean(self, ax):
        d = self.free[ax % len(self.free)]
        return self.sum(ax) * dim(d).inv()

    def dot(self, o):
        """self @ o."""
        if not self.free or not o.free:
            raise Open("product with a number")
        n, m = len(self.free), len(o.free)
        da = self.free[-1]
        db = o.free[0] if m == 1 else o.free[-2]
        if da != db:
            raise Mismatch(da, db)
        # elementwise over a common index: self axes, then o's others
        rest = list(o.free)
        rest.pop(0 if m == 1 else m - 2)
        free = list(self.free) + rest
        A = TV(free, dict(self.shift(list(range(n)), len(free))))
        pos = []
        j = n
        for i in range(m):
            if i == (0 if m == 1 else m - 2):
                pos.append(n - 1)
            else:
                pos.append(j)
                j += 1
        B = TV(free, dict(o.shift(pos, len(free))))
        return (A * B).sum(n - 1)

    def shift(self, pos, nf):
        """Terms with axis i placed at pos[i] of nf axes."""
        n = len(self.free)
        for (sc, fs, bd), v in self.terms.items():
            m = {i: pos[i] for i in range(n)}
            for j in range(len(bd)):
                m[n + j] = nf + j
            yield canon(sc, [(x, tuple(m[i] for i in ix), p) for x, ix, p in fs], list(bd), nf), v

    def perm(self, order):
        """Axes reordered: new axis k is old axis order[k]."""
        pos = [order.index(i) for i in range(len(order))]
        return TV([self.free[i] for i in order], dict(self.shift(pos, len(order))))

    def new(self, ax):
        """A length-one axis inserted."""
        n = len(self.free)
        pos = [i if i < ax else i + 1 for i in range(n)]
        return TV(self.free[:ax] + (None,) + self.free[ax:], dict(self.shift(pos, n + 1)))

    def select(self, ax, k):
        """Elements k of one axis."""
        f = list(self.free)
        f[ax] = ("sel", f[ax], k)
        return TV(f, self.terms)

    def take(self, ax, k):
        """The element at one position of an axis."""
        n = len(self.free)
        out = []
        for (sc, fs, bd), v in self.terms.items():
            m = {i: i if i < ax else i - 1 for i in range(n) if i != ax}
            for j in range(len(bd)):
                m[n + j] = n - 1 + j
            s, g = list(sc), []
            for x, ix, p in fs:
                if ax in ix:
                    y = ("at", x, tuple(i == ax for i in ix), k)
                    ix = tuple(m[i] for i in ix if i != ax)
                    if ix:
                        g.append((y, ix, p))
                    else:
                        s.append((y, p))
                else:
                    g.append((x, tuple(m[i] for i in ix), p))
            out.append((s, g, list(bd), n - 1, v))
        return TV(self.free[:ax] + self.free[ax + 1:], collect(out))


def collect(ms):
    t = {}
    for sc, fs, bd, nf, v in ms:
        k = canon(sc, fs, bd, nf)
        t[k] = t.get(k, 0) + v
    return t


def mul1(x, y, nf):
    (s1, f1, b1), (s2, f2, b2) = x, y
    n1 = len(b1)
    f2 = [(a, tuple(i if i < nf else i + n1 for i in ix), p) for a, ix, p in f2]
    return list(s1) + list(s2), list(f1) + f2, list(b1) + list(b2), nf


def canon(sc, fs, bd, nf):
    """Canonical monomial: powers merged, empty sums counted, bound indices relabelled."""
    fs, bd = list(fs), list(bd)
    # an identity matrix renames the index it is summed over
    again = True
    while again:
        again = False
        for q, (x, ix, p) in enumerate(fs):
            if x == "I" and max(ix) >= nf and ix[0] != ix[1]:
                i, j = max(ix), min(ix)
                fs = [(y, tuple(j if z == i else z - (z > i) for z in iy), r) for n, (y, iy, r) in enumerate(fs) if n != q]
                bd.pop(i - nf)
                again = True
                break
    f = {}
    for x, ix, p in fs:
        f[x, ix] = f.get((x, ix), 0) + p
    fs = [(x, ix, p) for (x, ix), p in f.items() if p]
    s = {}
    for x, p in sc:
        s[x] = s.get(x, 0) + p
    # factors linked by summed indices; groups that reach no axis are numbers of their own
    up = {}

    def root(i):
        while up.setdefault(i, i) != i:
            i = up[i]
        return i
    for _, ix, _ in fs:
        b = [i for i in ix if i >= nf]
        for i in b[1:]:
            up[root(i)] = root(b[0])
    tied = {root(i) for _, ix, _ in fs for i in ix if i >= nf and any(k < nf for k in ix)}
    groups, keep = {}, []
    for x, ix, p in fs:
        b = [root(i) for i in ix if i >= nf]
        if b and b[0] not in tied:
            groups.setdefault(b[0], []).append((x, ix, p))
        else:
            keep.append((x, ix, p))
    used = {i for _, ix, _ in fs for i in ix}
    for n, d in enumerate(bd):
        if nf + n not in used:
            s["dim", d] = s.get(("dim", d), 0) + 1
    for g in groups.values():
        x = ("mono",) + label(g, bd, nf, 0)
        s[x] = s.get(x, 0) + 1
    return (tuple(sorted(((x, p) for x, p in s.items() if p), key=repr)),) + label(keep, bd, nf, nf)


def label(fs, bd, nf, to):
    """Factors with their summed indices numbered from `to`, canonically."""
    ks = sorted({i for _, ix, _ in fs for i in ix if i >= nf})
    if len(ks) > 6:
        raise Open("too many sums")
    best = None
    for pm in permutations(range(len(ks))):
        q = {i: to + pm[n] for n, i in enumerate(ks)}
        b2 = [None] * len(ks)
        for n, i in enumerate(ks):
            b2[pm[n]] = bd[i - nf]
        g = tuple(sorted(((x, tuple(q.get(i, i) for i in ix), p) for x, ix, p in fs), key=repr))
        r = (repr((b2, g)), g, tuple(b2))
        if best is None or r[0] < best[0]:
            best = r
    return best[1], best[2]


def align(a, b):
    """Common axes (numpy broadcasting) and the terms of both over them."""
    n = max(len(a.free), len(b.free))
    fa = (None,) * (n - len(a.free)) + a.free
    fb = (None,) * (n - len(b.free)) + b.free
    free = []
    for x, y in zip(fa, fb):
        if x is None or y is None or x == y:
            free.append(x if y is None else y)
        else:
            raise Mismatch(x, y)
    ta = dict(a.shift([n - len(a.free) + i for i in range(len(a.free))], n))
    tb = dict(b.shift([n - len(b.free) + i for i in range(len(b.free))], n))
    return free, ta, tb


def num(v):
    return TV((), {((), (), ()): Fraction(v)})


def atom(x, free=()):
    if free:
        return TV(free, {((), ((x, tuple(range(len(free))), 1),), ()): Fraction(1)})
    return TV((), {(((x, 1),), (), ()): Fraction(1)})


def dim(d):
    return atom(("dim", d))


def args_of(t, start=1):
    pos, kw = [], {}
    for x in t.a[start:]:
        if type(x) is T and x.op == "kw":
            kw[x.a[0]] = x.a[1]
        else:
            pos.append(x)
    return pos, kw


class Tens:
    """Terms into canonical forms.  leaf(t) -> TV or None names the atoms; N resolves branches."""

    def __init__(self, N, leaf):
        self.N, self.leaf = N, leaf
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.go(t)
        return r

    def axis(self, kw, pos, at):
        ax = kw.get("axis", pos[at] if len(pos) > at else None)
        if ax is None or ax is NONE:
            return None
        if not is_const(ax) or not isinstance(cval(ax), int):
            raise Open("axis")
        return cval(ax)

    def red(self, v, ax, f):
        if ax is not None:
            return f(v, ax)
        if not v.free:
            return v
        while v.free:
            v = f(v, 0)
        return v

    def go(self, t):
        t = self.N.res(t)
        v = self.leaf(t)
        if v is not None:
            return v
        o, a = t.op, t.a
        if o == "c":
            if isinstance(cval(t), float) and 0 < cval(t) <= 1e-8:
                return atom("eps")
            if isinstance(cval(t), (int, float)) and cval(t) == cval(t) and abs(cval(t)) != float("inf"):
                return num(Fraction(cval(t)))
            raise Open("constant")
        if o == "bin":
            x, y = self(a[1]), None
            if a[0] == "**":
                if is_const(a[2]) and cval(a[2]) == 2:
                    return x * x
                if is_const(a[2]) and cval(a[2]) == 0.5:
                    return x.fn("sqrt")
                if is_const(a[2]) and cval(a[2]) == -1:
                    return x.inv()
                raise Open("power")
            y = self(a[2])
            if a[0] == "+":
                return x + y
            if a[0] == "-":
                return x - y
            if a[0] == "*":
                return x * y
            if a[0] == "/":
                return x * y.inv()
            if a[0] == "@":
                return x.dot(y)
            raise Open("operator " + a[0])
        if o == "un" and a[0] in ("-", "+"):
            x = self(a[1])
            return -x if a[0] == "-" else x
        if o == "attr":
            if a[1] == "T":
                x = self(a[0])
                return x.perm(list(range(len(x.free)))[::-1])
            if a[1] == "values":
                return self(a[0])
            if a[1] == "size":
                x = self(a[0])
                r = num(1)
                for d in x.free:
                    r = r * dim(d)
                return r
            raise Open("attribute " + a[1])
        if o == "m":
            if a[1] in PASSM:
                return self(a[0])
            pos, kw = args_of(t, 2)
            if a[1] in ("mean", "sum"):
                return self.red(self(a[0]), self.axis(kw, pos, 0), TV.mean if a[1] == "mean" else TV.sum)
            if a[1] == "dot" and len(pos) == 1:
                return self(a[0]).dot(self(pos[0]))
            raise Open("method " + a[1])
        if o == "call":
            return self.call(t)
        if o == "idx":
            return self.index(t)
        raise Open(o)

    def call(self, t):
        n = t.a[0]
        pos, kw = args_of(t)
        if n in PASS:
            return self(pos[0])
        if n in FN:
            return self(pos[0]).fn(FN[n])
        if n in ("numpy.sqrt", "math.sqrt"):
            return self(pos[0]).fn("sqrt")
        if n in ("numpy.square",):
            x = self(pos[0])
            return x * x
        if n in ("numpy.power", "numpy.float_power", "builtins.pow", "math.pow") and len(pos) == 2 and not kw:
            return self(mk("bin", "**", pos[0], pos[1]))
        if n in ("numpy.negative", "numpy.reciprocal"):
            return -self(pos[0]) if n == "numpy.negative" else self(pos[0]).inv()
        if n in ("numpy.true_divide",):
            return self(pos[0]) * self(pos[1]).inv()
        if n in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide"):
            x, y = self(pos[0]), self(pos[1])
            return x + y if n == "numpy.add" else x - y if n == "numpy.subtract" else x * y if n == "numpy.multiply" else x * y.inv()
        if n in ("numpy.mean", "numpy.sum", "builtins.sum"):
            if kw.keys() - {"axis"}:
                raise Open("options of " + n)
            return self.red(self(pos[0]), self.axis(kw, pos, 1), TV.mean if n == "numpy.mean" else TV.sum)
        if n == "numpy.average":
            w = kw.get("weights")
            x, ax = self(pos[0]), self.axis(kw, pos, 1)
            if w is None:
                return self.red(x, ax, TV.mean)
            w = self(w)
            if len(w.free) != 1:
                raise Open("weights")
            if ax is None:
                if len(x.free) != 1:
                    raise Open("axis of an average")
                ax = 0
            ax %= len(x.free)
            ww = w
            for _ in range(len(x.free) - 1 - ax):
                ww = ww.new(len(ww.free))
            return (x * ww).sum(ax) * w.sum(0).inv()
        if n in ("numpy.dot", "numpy.matmul", "numpy.inner", "numpy.vdot"):
            x, y = self(pos[0]), self(pos[1])
            if n == "numpy.dot" and (not x.free or not y.free):
                return x * y
            if n == "numpy.inner" and len(y.free) > 1:
                y = y.perm(list(range(len(y.free)))[::-1])
            return x.dot(y)
        if n == "numpy.einsum" and is_str(pos[0]):
            return self.einsum(cval(pos[0]), [self(x) for x in pos[1:]])
        if n in ELEM:
            x = self(pos[0])
            return x.fn((n, tuple(z.id for z in pos[1:]), tuple(sorted((k, z.id) for k, z in kw.items()))))
        if n in RED:
            x, ax = self(pos[0]), self.axis(kw, pos, 1)
            f = x.free
            rest = () if ax is None else f[:ax % len(f)] + f[ax % len(f) + 1:]
            return atom(("red", n, x.key(), f, ax), rest)
        if n in ("numpy.transpose",):
            x = self(pos[0])
            return x.perm(list(range(len(x.free)))[::-1])
        if n == "builtins.len":
            x = self(pos[0])
            return dim(x.free[0])
        if n in ("numpy.ones", "numpy.zeros"):
            return TV(self.shape(pos[0]), num(1).terms if n == "numpy.ones" else {})
        if n in ("numpy.eye", "numpy.identity"):
            d, = self.shape(pos[0])
            return TV((d, d), {((), (("I", (0, 1), 1),), ()): Fraction(1)})
        if n in ("numpy.std", "numpy.var"):
            x, d = self(pos[0]), kw.get("ddof", const(0))
            if not is_const(d) or kw.keys() - {"ddof", "axis"} or len(x.free) != 1:
                raise Open(n)
            k = dim(x.free[0])
            e = x - x.mean(0)
            v = (e * e).sum(0) * (k - num(cval(d))).inv()
            return v.fn("sqrt") if n == "numpy.std" else v
        if n in ("numpy.ones_like", "numpy.zeros_like"):
            return TV(self(pos[0]).free, num(1).terms if n == "numpy.ones_like" else {})
        if n == "numpy.full":
            return self(pos[1]) * TV(self.shape(pos[0]), num(1).terms)
        if n == "numpy.full_like":
            return self(pos[1]) * TV(self(pos[0]).free, num(1).terms)
        if n in ("numpy.linalg.norm",) and len(pos) == 1 and not kw:
            x = self(pos[0])
            return self.red(x * x, None, TV.sum).fn("sqrt")
        raise Open(n)

    def shape(self, t):
        ts = t.a if t.op in ("tuple", "list") else (t,)
        out = []
        for x in ts:
            v = self(x)
            (k, c), = v.terms.items() if len(v.terms) == 1 else ((None, None),)
            if k is None or c != 1 or k[1] or len(k[0]) != 1 or k[0][0][1] != 1 or type(k[0][0][0]) is not tuple or k[0][0][0][0] != "dim":
                raise Open("length")
            out.append(k[0][0][0][1])
        return tuple(out)

    def einsum(self, spec, xs):
        ins, _, out = spec.replace(" ", "").partition("->")
        ins = ins.split(",")
        if len(ins) != len(xs) or any(len(i) != len(x.free) or len(set(i)) != len(i) for i, x in zip(ins, xs)):
            raise Open("einsum")
        if not _:
            al = "".join(ins)
            out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
        letters = list(out) + sorted(set("".join(ins)) - set(out))
        r = None
        for i, x in zip(ins, xs):
            free = [None] * len(letters)
            for c, d in zip(i, x.free):
                free[letters.index(c)] = d
            y = TV(free, dict(x.shift([letters.index(c) for c in i], len(letters))))
            r = y if r is None else r * y
        while len(r.free) > len(out):
            r = r.sum(len(r.free) - 1)
        return r

    def index(self, t):
        o, k = t.a
        if o.op == "attr" and o.a[1] == "shape" and is_const(k):
            x = self(o.a[0])
            return dim(x.free[cval(k)])
        x = self(o)
        ks = list(k.a) if k.op == "tuple" else [k]
        ax = 0
        for q in ks:
            if q is NONE or q.op == "glob" and q.a[0] == "numpy.newaxis":
                x = x.new(ax)
                ax += 1
            elif q.op == "slice":
                if any(z is not NONE for z in q.a):
                    if ax >= len(x.free):
                        raise Open("index")
                    x = x.select(ax, q.id)
                ax += 1
            elif is_const(q) and isinstance(cval(q), int) and not isinstance(cval(q), bool):
                x = x.take(ax, cval(q))
            else:
                if ax >= len(x.free):
                    raise Open("index")
                s = self.sel(q)
                if s[0] == "at":
                    x = x.take(ax, s[1])
                else:
                    x = x.select(ax, s[1])
                    ax += 1
        return x

    def sel(self, q):
        """How an index picks: ('at', key) one element, ('sel', key) several."""
        return "sel", self.N.res(q).id
