"""Matrix expressions of the source as canonical sums of products of named matrices (linear algebra on extracted terms)."""
from .terms import *
from .alg import Norm, Poly, Need, NANK

WRAP = {"builtins.float", "builtins.int", "numpy.float64", "numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.atleast_1d",
        "numpy.squeeze", "numpy.ravel", "builtins.list", "builtins.tuple", "numpy.real"}
SAME = {"astype", "copy", "to_numpy", "ravel", "flatten", "squeeze", "tolist", "item"}
LS = {"scipy.linalg.lstsq", "numpy.linalg.lstsq"}
SOLVE = {"numpy.linalg.solve", "scipy.linalg.solve"}
INV = {"numpy.linalg.inv", "numpy.linalg.pinv", "scipy.linalg.inv", "scipy.linalg.pinv"}


class Unknown(Exception):
    pass


def pos(t, skip=1):
    return [x for x in t.a[skip:] if not (type(x) is T and x.op in ("kw", "star", "dstar"))]


def kw(t, name, skip=1):
    for x in t.a[skip:]:
        if type(x) is T and x.op == "kw" and x.a[0] == name:
            return x.a[1]
    return None


class MF:
    """Sum of scalar * product of factors.  Factors:
    ("a", id, transposed)   a matrix of the source        ("v", ((vector key, power), ...), transposed)   elementwise product of vectors
    ("D", ((vector key, power), ...))   diagonal            ("C", labels key, transposed)   sums over rows with equal labels
    ("inv", key, transposed)   inverse of a sum             ("col", key, i) ..."""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v.m}

    def key(self):
        return ("mf",) + tuple(sorted(((k, v.key()) for k, v in self.m.items()), key=repr))

    def __eq__(self, o):
        return self.m == o.m

    def __hash__(self):
        return hash(self.key())


def msum(a, b):
    m = dict(a.m)
    for k, v in b.m.items():
        m[k] = m[k] + v if k in m else v
    return MF(m)


def mscale(a, s):
    return MF({k: v * s for k, v in a.m.items()})


def tr1(f):
    if f[0] in ("a", "v", "C"):
        return (*f[:-1], not f[-1])
    if f[0] == "inv":
        return f if f[2] is None else (f[0], f[1], not f[2])
    return f


def mtr(a):
    return MF({tuple(tr1(f) for f in reversed(k)): v for k, v in a.m.items()})


def merge(S, U=()):
    d = {}
    for k, n in S + U:
        while k[0] in ("abs", "sqrt") and n % 2 == 0:
            if k[0] == "abs" or len(k[1]) == 1:
                n, m = (n, k[1]) if k[0] == "abs" else (n // 2, k[1])
                if len(m) == 1:
                    k, n = m[0][0], m[0][1] * n
                    continue
                for q, e in m[1:]:
                    d[q] = d.get(q, 0) + e * n
                k, n = m[0][0], m[0][1] * n
                continue
            break
        d[k] = d.get(k, 0) + n
    return tuple(sorted(((k, n) for k, n in d.items() if n), key=repr))


ONES = ()       # elementwise product of no vectors


def mprod(k):
    """Canonical factor sequence with its scalar."""
    s = Poly.const(1)
    out = []
    for f in k:
        out.append(f)
        while len(out) > 1:
            x, y = out[-2], out[-1]
            if x[0] == "D" and y[0] == "D":
                out[-2:] = [("D", merge(x[1], y[1]))]
            elif x[0] == "D" and y[0] == "v" and not y[2]:
                out[-2:] = [("v", merge(x[1], y[1]), False)]
            elif x[0] == "v" and x[2] and y[0] == "D":
                out[-2:] = [("v", merge(x[1], y[1]), True)]
            elif x[0] == "v" and x[2] and y[0] == "v" and not y[2]:
                out[-2:] = []
                s = s * Poly.atom(("dot", merge(x[1], y[1])))
            elif x[0] == "D" and not x[1]:
                out[-2:] = [y]
            elif y[0] == "D" and not y[1]:
                out[-2:] = [x]
            else:
                break
    if out == [("D", ONES)]:
        out = []
    # inv(A) A
    i = 0
    while i < len(out):
        f = out[i]
        if f[0] == "inv" and len(f[1]) == 2:
            seq, sc = f[1][1]
            if f[2] in (None, False):
                n = len(seq)
                if tuple(out[i + 1:i + 1 + n]) == seq:
                    out[i:i + 1 + n] = []
                    i = 0
                    continue
                if i >= n and tuple(out[i - n:i]) == seq:
                    out[i - n:i + 1] = []
                    i = 0
                    continue
        i += 1
    return tuple(out), s


def mmul(a, b):
    m = MF({})
    for k1, v1 in a.m.items():
        for k2, v2 in b.m.items():
            k, s = mprod(k1 + k2)
            m = msum(m, MF({k: v1 * v2 * s}))
    return m


def minv(a):
    if len(a.m) == 1:
        (k, v), = a.m.items()
        if not k:
            return MF({(): Poly.const(1).div(v)})
        if len(k) == 1 and k[0][0] == "inv" and k[0][2] is None:
            mk_ = dict_of(k[0][1])
            return mscale(mk_, Poly.const(1).div(v))
        one = MF({k: Poly.const(1)})
        sym = None if mtr(one) == one else False
        return MF({(("inv", one.key(), sym),): Poly.const(1).div(v)})
    return MF({(("inv", a.key(), None if mtr(a) == a else False),): Poly.const(1)})


def dict_of(key):
    return MF({k: Poly(dict(v[1:])) for k, v in key[1:]})


def mono(*fs):
    k, s = mprod(tuple(fs))
    return MF({k: s})


IDENT = MF({(): Poly.const(1)})


class Scal(Norm):
    """Scalars that are read off arrays, in one world."""

    def __init__(self, world, base, M):
        super().__init__(world)
        self.base, self.M = base, M

    def _cond(self, t):
        return type(self.base)._cond(self.base, t)

    def cond(self, t):
        return self.base.cond(t)

    def res(self, t):
        return self.base.res(t)

    def _n(self, t):
        if t.op != "ite":
            x = self.M.scalar(self.base.res(t))
            if x is not None:
                return x
        return super()._n(t)


class Mat:
    """Reader of matrix expressions in one world (N).  dims: known dimension of terms; same: groups of arrays with equally many rows."""

    def __init__(self, N, dims=None):
        self.N = N
        self.S = Scal(N.world, N, self)
        self.dims = dims or {}
        self.memo = {}
        self.dmemo = {}
        self.rown = {}
        self.kept = {}
        self.alias = {}     # root term -> name of a known quantity
        self.column = None

    # ---- wrappers
    def strip(self, t):
        while True:
            t = self.N.res(t)
            if t.op == "call" and t.a[0] in WRAP and pos(t) and type(pos(t)[0]) is T and pos(t)[0].op not in ("list", "comp", "tuple"):
                t = pos(t)[0]
            elif t.op == "m" and t.a[1] in SAME:
                t = t.a[0]
            elif t.op == "m" and t.a[1] == "reshape" and self.dim(t.a[0]) == 1 and len(pos(t, 2)) == 1 and is_const(pos(t, 2)[0]):
                t = t.a[0]
            elif t.op == "attr" and t.a[1] == "values":
                t = t.a[0]
            elif t.op == "idx" and t.a[1].op == "ite":
                t = idx(t.a[0], self.N.res(t.a[1]))
            else:
                return t

    def labels(self, t):
        """Root of a label vector: what is equal where the labels are equal."""
        while True:
            t = self.strip(t)
            if t.op == "idx" and is_const(t.a[1]) and t.a[0].op == "call":
                f, k = t.a[0].a[0], cval(t.a[1])
                if f == "pandas.factorize" and k == 0 or f == "numpy.unique" and k == 1 and kw(t.a[0], "return_inverse") is not None \
                        and kw(t.a[0], "return_index") is None:
                    t = pos(t.a[0])[0]
                    continue
            if t.op == "call" and t.a[0] in ("pandas.Series", "pandas.Categorical", "pandas.to_numeric") and pos(t):
                t = pos(t)[0]
                continue
            if self.column is not None:
                x = self.column(t)
                if x is not t:
                    t = x
                    continue
            return t

    # ---- dimensions
    def dim(self, t):
        t = self.N.res(t)
        if t.id not in self.dmemo:
            self.dmemo[t.id] = None
            self.dmemo[t.id] = self._dim(t)
        return self.dmemo[t.id]

    def _dim(self, t):
        op, a = t.op, t.a
        if t in self.dims:
            return self.dims[t]
        if op == "c":
            return 0
        if op == "call":
            f, p = a[0], pos(t)
            if f in ("numpy.column_stack", "numpy.vstack", "numpy.outer", "numpy.diag", "numpy.eye", "numpy.identity", "numpy.row_stack", "pandas.DataFrame") or f in INV:
                return 2 if f != "numpy.diag" or self.dim(p[0]) == 1 else 1
            if f in ("numpy.ones", "numpy.zeros", "numpy.full", "numpy.empty"):
                return len(p[0].a) if p[0].op == "tuple" else 1
            if f in SOLVE and len(p) == 2:
                return self.dim(p[1])
            if f in ("numpy.dot", "numpy.matmul") and len(p) == 2:
                return self._mm(*p)
            if f in ("numpy.sum", "numpy.mean", "builtins.sum", "numpy.var", "numpy.std"):
                return self._red(t, p[0], p[1:])
            if f in ("numpy.where", "numpy.nonzero") and len(p) == 1:
                return 2        # a tuple of arrays
            if f in ("numpy.unique", "numpy.where", "numpy.arange", "pandas.unique", "numpy.flatnonzero", "numpy.diff", "numpy.setdiff1d"):
                return 1
            if f in ("numpy.multiply", "numpy.add", "numpy.subtract", "numpy.divide", "numpy.power") and len(p) == 2:
                return self._ew(*p)
            if f in ("numpy.transpose", "numpy.abs", "numpy.sqrt", "numpy.square", "numpy.isnan", "numpy.exp", "numpy.log") and p:
                return self.dim(p[0])
            if f in WRAP | {"numpy.array"} and p:
                x = self.N.res(p[0])
                if x.op in ("list", "tuple") and x.a:
                    d = self.dim(x.a[0])
                    return None if d is None else d + 1
                if x.op == "comp" and type(x.a[1]) is T:
                    d = self.dim(x.a[1])
                    return None if d is None else d + 1
                return 0 if f in ("builtins.float", "builtins.int", "numpy.float64") and self.dim(x) is None else self.dim(x)
            if f in ("builtins.len",):
                return 0
        if op == "bin":
            if a[0] == "@":
                return self._mm(a[1], a[2])
            return self._ew(a[1], a[2])
        if op == "un":
            return self.dim(a[1])
        if op in ("eq", "lt", "le"):
            return self._ew(a[0], a[1])
        if op == "not":
            return self.dim(a[0])
        if op == "attr":
            if a[1] == "T" or a[1] == "values":
                return self.dim(a[0])
            if a[1] == "shape":
                return 1
            if a[1] in ("size", "ndim"):
                return 0
        if op == "m":
            f = a[1]
            if f in ("ravel", "flatten"):
                return 1
            if f in SAME:
                return self.dim(a[0])
            if f == "reshape":
                p = pos(t, 2)
                return len(p[0].a) if len(p) == 1 and p[0].op == "tuple" else len(p)
            if f == "dot":
                return self._mm(a[0], a[2])
            if a[0].op == "m" and a[0].a[1] == "groupby":
                return self.dim(a[0].a[0])
            if f in ("sum", "mean"):
                return self._red(t, a[0], pos(t, 2))
        if op == "idx":
            o, k = a
            o = self.N.res(o)
            if o.op == "call" and o.a[0] in LS and is_const(k) and cval(k) == 0:
                return self.dim(pos(o)[1])
            if o.op == "attr" and o.a[1] == "shape":
                return 0
            d = self.dim(o)
            if d is None:
                if o.op in ("param", "mu", "setitem") or o.op == "m" and o.a[1] in ("copy", "reset_index", "sort_values", "assign"):
                    if is_str(k) or k.op in ("param", "cfg", "fstr", "elem"):
                        return 1        # a column of a frame
                return None
            ks = list(k.a) if k.op == "tuple" else [k]
            for x in ks:
                x = self.N.res(x)
                if x is NONE or x.op == "glob" and x.a[0] == "numpy.newaxis":
                    d += 1
                elif x.op == "slice" or x.op == "c" and x.a[0] == "ellipsis":
                    pass
                elif x.op == "call" and x.a[0] == "numpy.ix_":
                    pass
                elif self.dim(x) == 0 or x.op in ("elem", "pos", "cfg") or x.op == "param" and self.dim(x) is None:
                    d -= 1
                elif self.dim(x) is None and x.op in ("idx", "ite", "attr", "mu", "m"):
                    d -= 1 if x.op != "m" else 0
            return max(d, 0)
        if op == "setitem":
            return self.dim(a[0])
        if op == "mu":
            return self.dim(t.init)
        if op in ("list", "tuple"):
            return 1
        if op == "comp":
            d = self.dim(a[1]) if type(a[1]) is T else None
            return None if d is None else d + 1
        return None

    def _mm(self, x, y):
        d, e = self.dim(x), self.dim(y)
        return None if d is None or e is None else {(2, 2): 2, (2, 1): 1, (1, 2): 1, (1, 1): 0}.get((d, e))

    def _ew(self, x, y):
        d, e = self.dim(x), self.dim(y)
        return None if d is None or e is None else max(d, e)

    def _red(self, t, x, rest):
        d = self.dim(x)
        ax = kw(t, "axis") or (rest[0] if rest else None)
        if ax is None or ax is NONE:
            return 0
        if kw(t, "keepdims") is not None:
            return d
        return None if d is None else d - 1

    # ---- matrices
    def mf(self, t):
        t = self.strip(t)
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._mf(t)
        return r

    def vec(self, t):
        """Multiset of vectors whose elementwise product t is, with a scalar."""
        x = self.mf(t)
        if len(x.m) == 1:
            (k, v), = x.m.items()
            if len(k) == 1 and k[0][0] == "v" and not k[0][2]:
                return k[0][1], v
        return (((x.key(), 1),), Poly.const(1))

    def own(self, t):
        """A vector or matrix of the source, by name."""
        d = self.dim(t)
        k = self.alias.get(t, t.id)
        if d == 1:
            return MF({(("v", ((("t", k), 1),), False),): Poly.const(1)})
        if d == 2:
            return MF({(("a", k, False),): Poly.const(1)})
        if d == 0:
            return MF({(): self.S.n(t)})
        raise Unknown("dimension of %s" % show(t, 3))

    def _mf(self, t):
        op, a = t.op, t.a
        if t in self.alias:
            return self.own(t)
        if op == "bin":
            o, x, y = a
            if o == "@":
                return self.mm(x, y)
            if o in "+-":
                dx, dy = self.dim(x), self.dim(y)
                if dx == dy and dx is not None:
                    X, Y = self.mf(x), self.mf(y)
                    return msum(X, Y if o == "+" else mscale(Y, Poly.const(-1)))
                if 0 in (dx, dy) and self.dim(t) is not None:
                    return self.own(t)
                raise Unknown("sum of unlike shapes %s" % show(t, 3))
            if o == "*":
                return self.had(x, y)
            if o == "/":
                if self.dim(y) == 0:
                    return mscale(self.mf(x), Poly.const(1).div(self.S.n(y)))
                if self.dim(x) == 1 and self.dim(y) == 1:
                    S, s = self.vec(x)
                    U, u = self.vec(y)
                    return MF({(("v", merge(S, tuple((k, -n) for k, n in U)), False),): s.div(u)})
            if o == "**" and is_const(y) and isinstance(cval(y), (int, float)) and cval(y) in (2, 0.5, 3, 1):
                if self.dim(x) == 1 and cval(y) in (1, 2, 3):
                    S, s = self.vec(x)
                    n = int(cval(y))
                    for _ in range(n - 1):
                        s = s * self.vec(x)[1]
                    return MF({(("v", merge(tuple((k, m * n) for k, m in S)), False),): s})
                if self.dim(x) == 1 and cval(y) == 0.5:
                    return self._mf(mk("call", "numpy.sqrt", x))
        if op == "un" and a[0] == "-":
            return mscale(self.mf(a[1]), Poly.const(-1))
        if op == "attr" and a[1] == "T":
            x = self.mf(a[0])
            return x if self.dim(a[0]) == 1 else mtr(x)
        if op == "m":
            p = pos(t, 2)
            if a[1] == "dot" and len(p) == 1:
                return self.mm(a[0], p[0])
            if a[1] == "transpose" and not p:
                return mtr(self.mf(a[0]))
            g = self.strip(a[0])
            if g.op == "m" and g.a[1] == "groupby" and (a[1] in ("sum", "mean", "max", "min", "first", "last", "median", "std", "var", "count", "prod")
                                                        or a[1] in ("agg", "aggregate") and len(p) == 1 and is_str(p[0])):
                r = self.grouped(g)
                agg = a[1] if not p or a[1] not in ("agg", "aggregate") else cval(p[0])
                return r if agg == "sum" else MF({(("a", ("agg", agg, r.key()), False),): Poly.const(1)})
            if a[1] == "sum":
                return self.total(t, a[0], p)
        if op == "call":
            f, p = a[0], pos(t)
            if f in ("numpy.dot", "numpy.matmul") and len(p) == 2:
                return self.mm(*p)
            if f == "numpy.multiply" and len(p) == 2:
                return self.had(*p)
            if f == "numpy.transpose" and len(p) == 1:
                return mtr(self.mf(p[0]))
            if f in ("numpy.add", "numpy.subtract") and len(p) == 2:
                return self._mf(mk("bin", "+" if f.endswith("add") else "-", *p))
            if f in ("numpy.divide", "numpy.true_divide") and len(p) == 2:
                return self._mf(mk("bin", "/", *p))
            if f in SOLVE and len(p) == 2:
                return mmul(minv(self.mf(p[0])), self.mf(p[1]))
            if f in INV and len(p) == 1:
                return minv(self.mf(p[0]))
            if f in ("numpy.eye", "numpy.identity"):
                return IDENT
            if f == "numpy.diag" and len(p) == 1 and self.dim(p[0]) == 1:
                S, s = self.vec(p[0])
                return mscale(mono(("D", S)), s)
            if f == "numpy.outer" and len(p) == 2 and self.dim(p[0]) == 1 and self.dim(p[1]) == 1:
                return mmul(self.mf(p[0]), mtr(self.mf(p[1])))
            if f == "numpy.square" and len(p) == 1:
                return self._mf(mk("bin", "**", p[0], const(2)))
            if f in ("numpy.abs", "numpy.absolute", "numpy.fabs", "numpy.sqrt") and len(p) == 1 and self.dim(p[0]) == 1:
                S, s = self.vec(p[0])
                if s == Poly.const(1):
                    return MF({(("v", ((("sqrt" if f == "numpy.sqrt" else "abs", S), 1),), False),): s})
            if f == "numpy.power" and len(p) == 2:
                return self._mf(mk("bin", "**", *p))
            if f == "numpy.ones" and self.dim(t) == 1:
                return MF({(("v", ONES, False),): Poly.const(1)})
            if f in ("numpy.sum", "builtins.sum"):
                return self.total(t, p[0], p[1:])
            if f == "numpy.linalg.multi_dot" and len(p) == 1 and p[0].op in ("list", "tuple") and len(p[0].a) > 1:
                r = p[0].a[0]
                for x in p[0].a[1:]:
                    r = mk("bin", "@", r, x)
                return self.mf(r)
            if f in ("pandas.DataFrame",) and p:
                return self.mf(p[0])
            if f in ("numpy.array", "numpy.asarray", "numpy.vstack", "numpy.stack", "numpy.row_stack") and p and p[0].op in ("comp", "list"):
                r = self.stacked(p[0])
                if r is not None:
                    return r
            if f == "numpy.einsum":
                r = self.einsum(p)
                if r is not None:
                    return r
        if op == "idx":
            o, k = a
            ks = list(k.a) if k.op == "tuple" else [k]
            full = lambda x: x.op == "slice" and all(y is NONE for y in x.a)
            new = lambda x: x is NONE or x.op == "glob" and x.a[0] == "numpy.newaxis"
            if all(full(x) for x in ks):
                return self.mf(o)
            if len(ks) == 2 and full(ks[0]) and not full(ks[1]) and self.dim(o) == 2 and self.dim(t) == 2:
                c = mk("idx", self.strip(o), mk("tuple", ks[0], self.selroot(ks[1])))
                return MF({(("a", self.alias.get(c, c.id), False),): Poly.const(1)})
            if self.dim(o) == 1 and len(ks) == 2 and full(ks[0]) and new(ks[1]):
                return self.mf(o)           # a column
            if self.dim(o) == 1 and len(ks) == 2 and full(ks[1]) and new(ks[0]):
                return mtr(self.mf(o))      # a row
        if op == "mu":
            r = self.looped(t)
            if r is not None:
                return r
        return self.own(t)

    def iscol(self, t):
        t = self.strip(t)
        if t.op != "idx" or t.a[1].op != "tuple" or len(t.a[1].a) != 2 or self.dim(t.a[0]) != 1:
            return t.op == "m" and t.a[1] == "reshape" and self.dim(t.a[0]) == 1 and [cval(x) for x in pos(t, 2) if is_const(x)] == [-1, 1]
        return t.a[1].a[0].op == "slice"

    def isrow(self, t):
        t = self.strip(t)
        return t.op == "idx" and t.a[1].op == "tuple" and len(t.a[1].a) == 2 and self.dim(t.a[0]) == 1 and t.a[1].a[1].op == "slice"

    def colof(self, t):
        t = self.strip(t)
        return t.a[0]

    def mm(self, x, y):
        if self.dim(x) == 1 and self.dim(y) == 1:
            (S, s), (U, u) = self.vec(x), self.vec(y)
            return MF({(): s * u * Poly.atom(("dot", merge(S, U)))})
        X, Y = self.mf(x), self.mf(y)
        if self.dim(x) == 1:
            X = mtr(X)
        r = mmul(X, Y)
        if self.dim(x) == 1 and self.dim(y) == 2:
            r = mtr(r)      # kept as a column
        return r

    def had(self, x, y):
        dx, dy = self.dim(x), self.dim(y)
        if dx == 0:
            return mscale(self.mf(y), self.S.n(x))
        if dy == 0:
            return mscale(self.mf(x), self.S.n(y))
        if dx == 1 and dy == 1:
            S, s = self.vec(x)
            U, u = self.vec(y)
            return MF({(("v", merge(S, U), False),): s * u})
        for p, q in ((x, y), (y, x)):
            if self.iscol(p) and self.dim(q) == 2 and not self.iscol(q):
                S, s = self.vec(self.colof(p))
                if self.isrow(q):
                    return mmul(mscale(mono(("v", S, False)), s), self.mf(q))
                return mmul(mscale(mono(("D", S)), s), self.mf(q))
            if (self.dim(p) == 1 or self.isrow(p)) and self.dim(q) == 2:
                S, s = self.vec(p if self.dim(p) == 1 else self.colof(p))
                return mmul(self.mf(q), mscale(mono(("D", S)), s))
        raise Unknown("elementwise product %s" % show(mk("bin", "*", x, y), 3))

    def total(self, t, x, rest):
        d = self.dim(x)
        ax = kw(t, "axis") or (rest[0] if rest else None)
        one = MF({(("v", ONES, False),): Poly.const(1)})
        if d == 1:
            S, s = self.vec(x)
            return MF({(): s * Poly.atom(("dot", S))})
        if ax is None or ax is NONE or d == 1:
            r = mmul(mtr(one), self.mf(x))
            return r if d == 1 else mmul(r, one)
        if d == 2 and is_const(ax):
            if cval(ax) == 0:
                return mtr(mmul(mtr(one), self.mf(x)))
            return mmul(self.mf(x), one)
        raise Unknown("sum %s" % show(t, 3))

    def grouped(self, g):
        p = pos(g, 2)
        if len(p) != 1:
            raise Unknown("groupby %s" % show(g, 3))
        l = self.labels(p[0])
        if is_str(l) or l.op in ("param", "cfg") and self.dims.get(l) != 1 and l not in self.alias:
            raise Unknown("groupby %s" % show(g, 3))
        return mmul(mono(("C", self.alias.get(l, l.id), False)), self.mf(g.a[0]))

    def stacked(self, x):
        """One row per distinct label: sums over the rows with that label."""
        if x.op != "comp":
            return None
        from .masks import lookup   # noqa: F401
        elt, its, cs = x.a[1], x.a[2], x.a[3]
        if type(its) is not T or len(its.a) != 1 or len(cs.a):
            return None
        l = self.uniq(its.a[0])
        if l is None:
            return None
        return self.persum(elt, l, its.a[0])

    def uniq(self, it):
        it = self.N.res(it)
        while it.op == "call" and it.a[0] in ("builtins.sorted", "builtins.list", "numpy.asarray", "numpy.sort") and pos(it):
            it = self.N.res(pos(it)[0])
        if it.op == "idx" and is_const(it.a[1]) and cval(it.a[1]) == 0 and it.a[0].op == "call" and it.a[0].a[0] == "numpy.unique":
            it = it.a[0]
        if it.op == "call" and it.a[0] in ("numpy.unique", "pandas.unique", "builtins.set") and pos(it):
            return self.labels(pos(it)[0])
        if it.op == "m" and it.a[1] == "unique":
            return self.labels(it.a[0])
        return None

    def masked(self, t, l):
        """M when t is the rows of M with label equal to the loop's."""
        t = self.strip(t)
        if t.op != "idx":
            return None
        k = t.a[1]
        if k.op == "tuple" and len(k.a) == 2 and k.a[1].op == "slice":
            k = k.a[0]
        k = self.N.res(k)
        if k.op != "eq":
            return None
        if any(self.labels(x) is l for x in k.a) and any(self.strip(x).op == "elem" for x in k.a):
            return t.a[0]
        return None

    def persum(self, elt, l, it):
        """Row sums over one label of a matrix, for all labels: C M."""
        e = self.strip(elt)
        C = mono(("C", self.alias.get(l, l.id), False))
        x = None
        if e.op == "call" and e.a[0] == "numpy.sum":
            x, ax = pos(e)[0], kw(e, "axis") or (pos(e)[1] if len(pos(e)) > 1 else None)
        elif e.op == "m" and e.a[1] == "sum":
            x, ax = e.a[0], kw(e, "axis") or (pos(e, 2)[0] if pos(e, 2) else None)
        if x is not None:
            M = self.masked(x, l)
            if M is not None and (self.dim(M) == 1 or ax is not None and is_const(ax) and cval(ax) == 0):
                return mmul(C, self.mf(M))
            x2 = self.strip(x)
            if x2.op == "bin" and x2.a[0] == "*":
                parts = []
                for y in x2.a[1:]:
                    m = self.masked(self.colof(y) if self.iscol(y) else y, l)
                    if m is None:
                        return None
                    parts.append(idx(m, mk("tuple", mk("slice", NONE, NONE, NONE), NONE)) if self.iscol(y) else m)
                return mmul(C, self.had(*parts))
            return None
        if e.op == "bin" and e.a[0] == "@" or e.op == "m" and e.a[1] == "dot":
            a, b = (e.a[1], e.a[2]) if e.op == "bin" else (e.a[0], e.a[2])
            a = self.strip(a)
            if a.op == "attr" and a.a[1] == "T":
                A, B = self.masked(a.a[0], l), self.masked(b, l)
                if A is not None and B is not None and self.dim(B) == 1:
                    S, s = self.vec(B)
                    return mmul(C, mmul(mscale(mono(("D", S)), s), self.mf(A)))
        return None

    def looped(self, t):
        """meat += outer(s, s) over the distinct labels."""
        if t.next is None or t.cond is None:
            return None
        nx = self.N.res(t.next)
        it = t.cond
        if it.op == "iter":
            it = it.a[0]
        l = self.uniq(it)
        if l is None or nx.op != "bin" or nx.a[0] != "+" or t not in nx.a[1:]:
            return None
        z = self.N.res(t.init)
        if not (z.op == "call" and z.a[0] in ("numpy.zeros", "numpy.zeros_like")) and not (is_const(z) and cval(z) == 0):
            return None
        add = self.strip(nx.a[2] if nx.a[1] is t else nx.a[1])
        s = None
        if add.op == "call" and add.a[0] == "numpy.outer" and len(pos(add)) == 2 and self.strip(pos(add)[0]) is self.strip(pos(add)[1]):
            s = pos(add)[0]
        elif add.op == "bin" and add.a[0] == "@":
            x, y = self.strip(add.a[1]), self.strip(add.a[2])
            cx = self.colof(x) if self.iscol(x) else x
            if y.op == "attr" and y.a[1] == "T" and self.strip(y.a[0]) is x:
                s = cx
            elif self.isrow(y) and self.colof(y) is cx:
                s = cx
        if s is None:
            return None
        M = self.persum(s, l, it)
        return None if M is None else mmul(mtr(M), M)

    def einsum(self, p):
        if len(p) == 4 and is_str(p[0]):
            e = cval(p[0]).replace(" ", "")
            if e in ("ij,i,ik->jk", "ni,n,nj->ij", "ki,k,kj->ij", "ia,i,ib->ab"):
                S, s = self.vec(p[2])
                return mmul(mmul(mtr(self.mf(p[1])), mscale(mono(("D", S)), s)), self.mf(p[3]))
        return None

    # ---- scalars
    def scalar(self, t):
        op, a = t.op, t.a
        if t in self.alias:
            return Poly.atom(("q", self.alias[t]))
        if op == "idx" and a[0].op == "attr" and a[0].a[1] == "shape" and is_const(a[1]):
            k = cval(a[1])
            return self.rows(a[0].a[0]) if k == 0 else self.cols(a[0].a[0]) if k in (1, -1) else None
        if op == "attr" and a[1] == "size" and self.dim(a[0]) == 1:
            return self.rows(a[0])
        if op == "call" and a[0] == "builtins.len" and len(pos(t)) == 1:
            return self.count(pos(t)[0])
        if op == "call" and a[0] == "builtins.int" and len(pos(t)) == 1:
            x = self.N.res(pos(t)[0])
            y = pos(x)[0] if x.op == "call" and x.a[0] in ("numpy.sum", "builtins.sum", "numpy.count_nonzero") and pos(x) else x.a[0] if x.op == "m" and x.a[1] == "sum" else None
            r = self.counted(y) if y is not None else None
            return r if r is not None else self.scalar(x) if x.op == "call" and x.a[0] == "builtins.len" or x.op == "idx" and x.a[0].op == "attr" else None
        if op == "m" and a[1] == "nunique":
            return Poly.atom(("groups", self.lkey(a[0])))
        if op == "call" and a[0] in ("numpy.sum", "builtins.sum", "numpy.count_nonzero") and len(pos(t)) == 1 and self.dim(pos(t)[0]) in (1, 2) or \
                op == "m" and a[1] == "sum" and len(a) == 2 and self.dim(a[0]) in (1, 2):
            x = pos(t)[0] if op == "call" else a[0]
            r = self.counted(x)
            if r is not None:
                return r
            return self.tosc(t)
        if op == "call" and a[0] in ("numpy.mean",) and len(pos(t)) == 1 and self.dim(pos(t)[0]) == 1 or op == "m" and a[1] == "mean" and len(a) == 2 and self.dim(a[0]) == 1:
            x = pos(t)[0] if op == "call" else a[0]
            v = self.tosc(mk("call", "numpy.sum", x))
            return None if v is None else v.div(self.count(x) or self.rows(x))
        if (op == "bin" and a[0] == "@" or op == "m" and a[1] == "dot" or op == "call" and a[0] in ("numpy.dot", "numpy.inner", "numpy.vdot", "numpy.matmul")) and self.dim(t) == 0:
            return self.tosc(t)
        return None

    def tosc(self, t):
        try:
            if t.op == "call" and t.a[0] in ("numpy.inner", "numpy.vdot"):
                r = self.mm(*pos(t))
            else:
                r = self._mf(t)
        except Unknown:
            return None
        s = Poly.const(0)
        for k, v in r.m.items():
            if not k:
                s = s + v
            else:
                one = MF({k: Poly.const(1)})
                o = mtr(one)
                s = s + v * Poly.atom(("form", min(one.key(), o.key(), key=repr)))
        return s

    def lkey(self, t):
        l = self.labels(t)
        return self.alias.get(l, l.id)

    def count(self, x):
        x = self.N.res(x)
        l = self.uniq(x)
        if l is not None:
            return Poly.atom(("groups", self.alias.get(l, l.id)))
        if x.op in ("list", "tuple"):
            return Poly.const(len(x.a))
        return self.rows(x)

    def counted(self, x):
        """Number of true entries."""
        x = self.strip(x)
        flip = False
        while x.op == "not" or x.op == "un" and x.a[0] == "~":
            flip = not flip
            x = self.strip(x.a[-1])
        if x.op == "call" and x.a[0] in ("numpy.isnan", "pandas.isna", "numpy.isfinite") and len(pos(x)) == 1:
            if x.a[0].endswith("isfinite"):
                flip = not flip
            c = self.strip(pos(x)[0])
            k = self.keptof(c)
            if k is None:
                return None
            n, kk = k
            return kk if flip else n - kk
        return None

    def keptof(self, c):
        """(all, kept) for a coefficient vector padded with NaN where columns were dropped."""
        if c.op == "setitem":
            b = self.strip(c.a[0])
            if b.op == "call" and b.a[0] == "numpy.full" and len(pos(b)) == 2:
                return self.S.n(pos(b)[0]), self.sizeof(c.a[1])
        if c.op == "idx" and is_const(c.a[1]) and cval(c.a[1]) == 0 and c.a[0].op == "call" and c.a[0].a[0] in LS:
            n = self.cols(pos(c.a[0])[0])
            return n, n
        return None

    def sizeof(self, sel):
        """Number of positions selected."""
        return Poly.atom(("size", self.selroot(sel).id))

    def selroot(self, sel):
        """Canonical selection: positions where a padded vector holds a value are the positions it was filled at."""
        while True:
            sel = self.strip(sel)
            if sel.op == "idx" and is_const(sel.a[1]) and cval(sel.a[1]) == 0 and sel.a[0].op == "call" and sel.a[0].a[0] in ("numpy.where", "numpy.nonzero"):
                sel = pos(sel.a[0])[0]
                continue
            if sel.op == "call" and sel.a[0] == "numpy.flatnonzero":
                sel = pos(sel)[0]
                continue
            x, flip = sel, False
            while x.op == "not" or x.op == "un" and x.a[0] == "~":
                flip, x = not flip, self.strip(x.a[-1])
            if x.op == "call" and x.a[0] in ("numpy.isnan", "numpy.isfinite") and len(pos(x)) == 1 and flip == (x.a[0] == "numpy.isnan"):
                c = self.strip(pos(x)[0])
                if c.op == "setitem":
                    sel = c.a[1]
                    continue
            return sel

    def cols(self, X):
        X = self.strip(X)
        if X.op == "idx" and X.a[1].op == "tuple" and len(X.a[1].a) == 2 and X.a[1].a[0].op == "slice":
            k = self.N.res(X.a[1].a[1])
            if k.op != "slice":
                return self.sizeof(k)
        if X.op == "attr" and X.a[1] == "T":
            return self.rows(X.a[0])
        return Poly.atom(("cols", self.alias.get(X, X.id)))

    def rows(self, x):
        r = self.rowroot(x)
        return Poly.atom(("rows", r))

    def rowroot(self, x, d=0):
        x = self.strip(x)
        if x in self.rown:
            return self.rown[x]
        op, a = x.op, x.a
        if d > 40:
            return x.id
        if op == "call" and a[0] in ("numpy.column_stack", "numpy.hstack") and pos(x):
            l = self.N.res(pos(x)[0])
            if l.op in ("list", "tuple"):
                for y in l.a:
                    y = self.strip(y)
                    if not (y.op == "call" and y.a[0] == "numpy.ones"):
                        return self.rowroot(y, d + 1)
        if op == "call" and a[0] in ("numpy.ones", "numpy.zeros", "numpy.full", "numpy.empty") and pos(x):
            n = self.N.res(pos(x)[0])
            if n.op == "call" and n.a[0] == "builtins.len":
                return self.rowroot(pos(n)[0], d + 1)
            if n.op == "idx" and n.a[0].op == "attr" and n.a[0].a[1] == "shape" and is_const(n.a[1]) and cval(n.a[1]) == 0:
                return self.rowroot(n.a[0].a[0], d + 1)
        if op == "bin" and a[0] in "+-*/":
            for y in a[1:]:
                if self.dim(y):
                    return self.rowroot(y, d + 1)
        if op == "bin" and a[0] in ("**",):
            return self.rowroot(a[1], d + 1)
        if op == "bin" and a[0] == "@" and self.dim(a[1]) == 2:
            return self.rowroot(a[1], d + 1)
        if op == "idx":
            k = a[1]
            if k.op == "tuple" and k.a and k.a[0].op == "slice" and all(y is NONE for y in k.a[0].a):
                return self.rowroot(a[0], d + 1)
            if is_str(k) or k.op in ("param", "cfg", "fstr") or k.op == "list":
                return self.rowroot(a[0], d + 1)
        if op == "m" and a[1] in ("copy", "astype", "assign"):
            return self.rowroot(a[0], d + 1)
        if op == "setitem":
            return self.rowroot(a[0], d + 1)
        if op == "mu":
            return self.rowroot(x.init, d + 1)
        return self.alias.get(x, x.id)
