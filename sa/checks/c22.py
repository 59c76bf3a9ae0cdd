"""C22: reported standard errors come from the documented covariance estimator of the reported fit."""
from ..terms import *
from ..alg import worlds, Norm, Overflow, Poly
from ..deps import fields_of
from ..entry import analyze
from ..infer import strip
from ..mat import Mat, MF, Unknown, minv, mmul, mtr, mscale, msum, mono, pos, kw, LS
from ..vec import Agg
from ..layout import Layout, Unknown as LUnknown
from .c19 import recs, _agg
from .c20 import Given, solved, deep, P, configs, text, DATA

ONE = Poly.const(1)
SQRT = {"numpy.sqrt", "math.sqrt"}


class VN(Given):
    """Given, where tests for missing coefficients follow from whether columns were dropped."""

    def _cond(self, t):
        if t.op == "is" and t.a[1] is NONE and t.a[0].op == "ite" and self.res(t.a[0]) in self.given:
            return False
        if t.op == "call" and t.a[0] in ("numpy.any", "numpy.all", "builtins.any", "builtins.all") and len(pos(t)) == 1 or \
                t.op == "m" and t.a[1] in ("any", "all") and len(t.a) == 2:
            x = self.res(pos(t)[0] if t.op == "call" else t.a[0])
            every = (t.a[0] if t.op == "call" else t.a[1]).endswith("all")
            flip = False
            while x.op == "not" or x.op == "un" and x.a[0] == "~":
                flip, x = not flip, self.res(x.a[-1])
            if x.op == "call" and x.a[0] in ("numpy.isnan", "numpy.isfinite") and len(pos(x)) == 1:
                if x.a[0].endswith("isfinite"):
                    flip = not flip
                c = deep(self, pos(x)[0])
                d = dropped(self, c)
                if d is not None:
                    # isnan is true somewhere, never everywhere, when columns were dropped
                    return (d if not every else False) if not flip else (True if not every else not d)
        return super()._cond(t)


def dropped(N, c):
    if c.op == "setitem":
        return True
    if c.op == "idx" and is_const(c.a[1]) and cval(c.a[1]) == 0 and c.a[0].op == "call" and c.a[0].a[0] in LS:
        return False
    return None


def padded(N, t):
    """(value, kept) of an array padded with NaN at the columns dropped, or (t, None)."""
    t = deep(N, t)
    if t.op == "setitem":
        b = deep(N, t.a[0])
        if b.op == "call" and b.a[0] in ("numpy.full", "numpy.full_like") and nanlike(N, pos(b)[-1]):
            return deep(N, t.a[2]), N.res(t.a[1])
    return t, None


def nanlike(N, t):
    t = strip(N, t)
    return t.op == "glob" and t.a[0] in ("numpy.nan", "math.nan") or is_const(t) and cval(t) != cval(t)


def entryof(N, t):
    """(matrix, row, column) of a matrix element."""
    t = strip(N, t)
    if t.op != "idx":
        return None
    k = N.res(t.a[1])
    if k.op == "tuple" and len(k.a) == 2 and all(x.op != "slice" for x in k.a):
        return t.a[0], N.res(k.a[0]), N.res(k.a[1])
    o = N.res(t.a[0])
    if o.op == "idx" and k.op != "tuple" and k.op != "slice":
        return o.a[0], N.res(o.a[1]), k
    d = deep(N, o)
    if d.op == "call" and d.a[0] in ("numpy.diag", "numpy.diagonal") and len(pos(d)) == 1:
        return pos(d)[0], k, k
    if d.op == "m" and d.a[1] == "diagonal":
        return d.a[0], k, k
    return None


def variance(N, t):
    """v when t is the square root of v (possibly kept from going below zero)."""
    t = strip(N, t)
    x = None
    if t.op == "call" and t.a[0] in SQRT and len(pos(t)) == 1:
        x = strip(N, pos(t)[0])
    elif t.op == "bin" and t.a[0] == "**" and is_const(t.a[2]) and cval(t.a[2]) == 0.5:
        x = strip(N, t.a[1])
    elif t.op == "call" and t.a[0] == "numpy.power" and is_const(pos(t)[1]) and cval(pos(t)[1]) == 0.5:
        x = strip(N, pos(t)[0])
    elif t.op == "idx":
        # np.sqrt(np.diag(V))[i]
        o = deep(N, t.a[0])
        if o.op == "call" and o.a[0] in SQRT and len(pos(o)) == 1:
            return mk("idx", pos(o)[0], t.a[1])
    while x is not None and x.op == "call" and x.a[0] in ("builtins.max", "numpy.maximum") and len(pos(x)) == 2:
        z = [y for y in pos(x) if not (is_const(N.res(y)) and cval(N.res(y)) in (0, 0.0))]
        if len(z) != 1:
            break
        x = strip(N, z[0])
    return x


def rule(M, X, u, kind, ids=None):
    """The documented covariance matrix."""
    x = M.mf(X)
    A = minv(mmul(mtr(x), x))
    n, k = M.rows(X), M.cols(X)
    S, s = u
    if kind == "classical":
        ss = Poly.atom(("dot", tuple((a, 2 * b) for a, b in S))) * s * s
        return mscale(A, ss.div(n - k))
    if kind == "robust":
        meat = mmul(mtr(x), mmul(mscale(mono(("D", tuple((a, 2 * b) for a, b in S))), s * s), x))
        f = n.div(n - k)
    else:
        l = M.lkey(ids)
        G = Poly.atom(("groups", l))
        sc = mmul(mono(("C", l, False)), mmul(mscale(mono(("D", S)), s), x))
        meat = mmul(mtr(sc), sc)
        f = G.div(G - ONE) * (n - ONE).div(n - k)
    return mscale(mmul(A, mmul(meat, A)), f)


NAMES = {"classical": "the classical one (residual variance times (X'X)^-1)", "robust": "the heteroskedasticity-robust one (HC1)",
         "cluster": "the cluster-robust one"}


EW = {"numpy.abs", "numpy.sqrt", "numpy.mean", "numpy.sum", "numpy.std", "numpy.var", "numpy.median", "numpy.max", "numpy.min", "numpy.maximum", "numpy.minimum",
      "numpy.exp", "numpy.log", "numpy.sign", "numpy.clip", "numpy.square", "numpy.ones_like", "numpy.zeros_like", "builtins.len", "builtins.max", "builtins.min",
      "numpy.diag", "numpy.linalg.inv", "numpy.linalg.pinv", "numpy.linalg.solve", "numpy.unique", "numpy.cumsum", "numpy.sort", "numpy.eye", "numpy.asarray",
      "builtins.float", "builtins.int", "numpy.ones", "numpy.linalg.norm", "numpy.outer"}
EM = {"mean", "sum", "std", "var", "max", "min", "copy", "astype", "dot", "clip", "cumsum", "diagonal", "reshape", "ravel"}


class Read:
    """Is a canonical form built from the design, outcome, coefficients, residuals and labels of the fit alone?"""

    def __init__(self, M, known):
        self.M = M
        self.known = {M.strip(x) for x in known if x is not None}
        self.odd = None
        self.ids = set()
        for x in known:
            if x is not None and M.dim(x) == 2:
                self.ids |= {f[1] for k in M.mf(x).m for f in k if f[0] == "a"}
                a = M.cols(x).single()[0]
                self.ids |= {a[1]} if a else set()

    def term(self, t, d=0):
        if type(t) is not T:
            return isinstance(t, str)
        t = self.M.strip(t)
        if t in self.known or is_const(t):
            return True
        if d > 12:
            return False
        if t.op in ("param", "cfg"):
            return True
        if t.op == "idx" and (is_str(t.a[1]) or t.a[1].op in ("param", "cfg", "fstr")) and (t.a[0].op == "param" or d):
            return True         # a column of a frame
        if t.op == "call" and t.a[0] in EW or t.op == "m" and t.a[1] in EM:
            return all(self.term(x, d + 1) for x in t.a if type(x) is T)
        if t.op in ("bin", "un", "tuple", "slice", "kw", "attr", "list"):
            return t.op != "attr" or t.a[1] in ("T", "shape", "size", "values") and self.term(t.a[0], d + 1) if t.op == "attr" else \
                all(self.term(x, d + 1) for x in t.a if type(x) is T)
        if t.op == "glob":
            return t.a[0].startswith("numpy.")
        if t.op == "idx":
            return self.term(t.a[0], d + 1) and self.term(t.a[1], d + 1)
        return False

    def ident(self, i):
        if isinstance(i, tuple) and i and i[0] == "agg":
            return self.any(i[2])
        if i in self.ids:
            return True
        t = byid(i) if isinstance(i, int) else None
        if t is not None and self.term(t):
            return True
        self.odd = show(t, 4) if t is not None else str(i)
        return False

    def any(self, k):
        """Any key."""
        if not isinstance(k, tuple) or not k:
            return True
        h = k[0]
        if h == "mf":
            return all(self.any(f) for fs, s in k[1:] for f in fs) and all(self.any(s) for fs, s in k[1:])
        if h == "p":
            return all(self.any(a) for m, _ in k[1:] for a, _ in m)
        if h == "inv" and len(k) == 3 and isinstance(k[1], tuple) and k[1] and k[1][0] == "mf":
            return self.any(k[1])
        if h == "inv":
            return self.any(("p",) + tuple(k[2:]))
        if h in ("D", "v"):
            return all(self.any(b) for b, _ in k[1])
        if h in ("abs", "sqrt") and len(k) == 2:
            return all(self.any(b) for b, _ in k[1])
        if h in ("sqrt", "abs"):
            return self.any(tuple(k[1:]))
        if h == "dot":
            return all(self.any(b) for b, _ in k[1])
        if h == "form":
            return self.any(k[1])
        if h in ("max", "min"):
            return all(self.any(x) for x in k[1:])
        if h in ("t", "a", "C", "groups", "rows", "cols", "size"):
            return self.ident(k[1])
        return False


def understood(V, M, X, ids, u, more=()):
    """Parts of V that are not made of the design, outcome, coefficients, residuals, labels or their counts."""
    r = Read(M, [X, ids, fullterm(M, X), *more])
    bad = []
    for fs, s in V.m.items():
        for k in (*fs, s.key()):
            if not r.any(k):
                bad.append(r.odd or k)
    return bad


def fullterm(M, X):
    X = M.strip(X)
    while X.op == "idx" and X.a[1].op == "tuple":
        X = M.strip(X.a[0])
    return X


def differs(V, want, kinds, M, X, u, ids):
    """Text of how V departs from the rule."""
    for k, w in kinds.items():
        if w == V:
            return "it is %s" % NAMES[k]
    a, b = shape(V), shape(want)
    if a == b:
        return "it is scaled differently (small-sample factor or degrees of freedom)"
    return "it is another matrix"


def shape(V):
    return frozenset(V.m)


class One:
    """Judges the covariance matrix behind one standard error."""

    def __init__(self, c, who, tag):
        self.c, self.who, self.tag = c, who, tag

    def fail(self, rule_, text_, t):
        self.c.find("%s:%s%s" % (rule_, self.who, self.tag), "%s%s: %s" % (self.who, self.tag, text_), where=self.who, path=show(t, 5)[:300])

    def undecided(self, what):
        self.c.undecide("%s%s: %s" % (self.who, self.tag, what))

    def fitof(self, N, b):
        """(X, y, kept, lstsq coefficients) of the coefficient vector b."""
        v, kept = padded(N, b)
        s = solved(N, v)
        return None if s is None else (s[0], s[1], kept, v)

    def matrix(self, N, V, b, kind, ids=None, u=None):
        """V against the rule for the fit with coefficients b (or residuals u of the design b)."""
        M = Mat(N)
        if u is None:
            f = self.fitof(N, b)
            if f is None:
                self.undecided("coefficients %s" % show(deep(N, b), 3))
                return
            X, y, kept, bb = f
            M.dims.update({M.strip(y): 1, M.strip(X): 2, N.res(y): 1, N.res(X): 2})
            if kept is not None and M.strip(X).op == "idx":
                M.dims.update({M.strip(M.strip(X).a[0]): 2, N.res(M.strip(X).a[0]): 2})
        else:
            X, kept = b, None
            M.dims.update({M.strip(X): 2, M.strip(u): 1, N.res(X): 2, N.res(u): 1})
        if ids is not None:
            M.column = lambda t: origin(N, t)
            M.dims[M.strip(ids)] = 1
            M.dims[mk("cfg", "cluster_ids")] = 1
        try:
            if u is None:
                same_rows(M, N, X, y)
                r = msum(M.mf(y), mscale(mmul(M.mf(X), M.mf(bb)), Poly.const(-1)))
                S = (((r.key(), 1),), ONE)
            else:
                same_rows(M, N, X, u)
                S = M.vec(u)
            v, vk = padded(N, V)
            if vk is not None:
                vk = deep(N, vk)
                if vk.op == "call" and vk.a[0] == "numpy.ix_" and len(pos(vk)) == 2:
                    ks = {M.selroot(x) for x in pos(vk)}
                elif vk.op == "tuple":
                    ks = {M.selroot(y) for y in vk.a}
                else:
                    ks = {None}
                if kept is not None and ks != {M.selroot(kept)}:
                    self.fail("placed", "the variances of the columns kept are filed under other columns than their coefficients", V)
                    return
            elif nanlike(N, v) or v.op == "call" and v.a[0] == "numpy.full" and nanlike(N, pos(v)[-1]):
                self.c.ob("covariances", (self.who, self.tag, "none"))
                return
            got = M.mf(v)
            want = rule(M, X, S, kind, ids)
        except Unknown as e:
            self.undecided(str(e))
            return
        if got == want:
            self.c.ob("covariances", (self.who, self.tag, kind, kept is not None))
            return
        bad = understood(got, M, X, ids, S, (y, bb) if u is None else (u,))
        if bad:
            import os
            if os.environ.get("C22DEBUG"):
                print("GOT", got.m, "\nWANT", want.m, "\nBAD", bad)
            self.undecided("covariance with %s" % str(bad[0])[:80])
            return
        kinds = {k: rule(M, X, S, k, ids) for k in NAMES if k != kind and (k != "cluster" or ids is not None)}
        self.fail("covariance", "the covariance matrix is not %s of the fit: %s" % (NAMES[kind], differs(got, want, kinds, M, X, S, ids)), V)

    def coefficient(self, N, est, se, kind, ids=None):
        """A coefficient and its standard error."""
        e = strip(N, est)
        if e.op != "idx":
            if e.op not in ("c", "glob", "undef"):
                self.undecided("estimate %s" % show(e, 3))
            return False
        if strip(N, se).op in ("c", "glob", "undef"):
            return False
        v = variance(N, se)
        if v is None:
            self.undecided("standard error %s" % show(strip(N, se), 4))
            return False
        q = entryof(N, v)
        if q is None:
            self.undecided("variance %s" % show(v, 4))
            return False
        V, i, j = q
        k = N.res(e.a[1])
        if i is not j:
            self.fail("entry", "the variance is element (%s, %s) of the covariance matrix" % (show(i, 2), show(j, 2)), v)
            return True
        if i is not k:
            d = N.n(i) - N.n(k)
            if d.isconst() or i.op == k.op == "elem" or i.op == k.op == "idx":
                self.fail("entry", "the standard error is that of coefficient %s, the effect is coefficient %s" % (show(i, 3), show(k, 3)), v)
            else:
                self.undecided("position %s of the variance" % show(i, 3))
            return True
        self.matrix(N, V, e.a[0], kind, ids)
        return True


def origin(N, t):
    """The caller's column a column of a derived frame holds."""
    if t.op != "idx":
        return t
    try:
        x = Layout(N).col(t)
    except LUnknown:
        return t
    x = x.a[0] if x.op == "each" and len(x.a) == 1 else x
    return mk("idx", x.a[1], x.a[0]) if x.op == "src" else x


def same_rows(M, N, X, y):
    """X and y have the same number of rows."""
    r = M.rowroot(X)
    M.rown[M.strip(y)] = r
    q = M.rowroot(M.strip(y))
    x = M.strip(X)
    M.rown[x] = r
    M.rowalias = (r, q)


def run_worlds(c, who, tag, fn, cap=4000):
    try:
        for _ in worlds(fn, cap):
            pass
    except Overflow:
        c.undecide("%s%s: too many branches" % (who, tag))


def functions(S, c):
    """compute_robust_vcov, solve_ols and LinearRegression on the caller's arrays."""
    X, y, u, ids = P("X"), P("y"), P("residuals"), P("cluster_ids")
    e = S.find("compute_robust_vcov")
    for cl in (False, True):
        r = analyze(S.P, e[1], e[2], fixed={} if cl else {"cluster_ids": NONE}, rust=False)
        o = One(c, "compute_robust_vcov", "(cluster_ids)" if cl else "")

        def fn(w):
            N = VN(w.world, {ids} if cl else set())
            o.matrix(N, r.retterm, X, "cluster" if cl else "robust", ids if cl else None, u=u)
        run_worlds(c, o.who, o.tag, fn)
    e = S.find("solve_ols")
    for cl in (False, True):
        r = analyze(S.P, e[1], e[2], fixed={"return_fitted": TRUE, "return_vcov": TRUE, **({} if cl else {"cluster_ids": NONE})}, rust=False)
        o = One(c, "solve_ols", "(cluster_ids)" if cl else "")

        def fn(w):
            N = VN(w.world, {ids} if cl else set())
            t = N.res(r.retterm)
            if t.op == "tuple" and len(t.a) == 4:
                o.matrix(N, t.a[3], t.a[0], "cluster" if cl else "robust", ids if cl else None)
        run_worlds(c, o.who, o.tag, fn)
    e = S.find("LinearRegression.fit")
    for rob, icpt in ((True, True), (True, False), (False, True), (False, False)):
        for cl in ("", "cluster_ids", "cluster_ids of the object", "cluster_ids of the call and the object"):
            own = mk("cfg", "cluster_ids")
            r = analyze(S.P, e[1], e[2], fixed={} if cl.startswith("cluster_ids") and cl != "cluster_ids of the object" else {"cluster_ids": NONE},
                        options={"include_intercept": const(icpt), "robust": const(rob), **({} if cl.endswith("object") else {"cluster_ids": NONE})}, rust=False)
            l = own if cl == "cluster_ids of the object" else ids
            F = {k: r.I.snap(v) for k, v in r.I.heap[r.selfref.loc].fields.items()}
            o = One(c, "LinearRegression", "(%s)" % ", ".join((["robust"] if rob else ["not robust"]) + ([cl] if cl else [])))
            kind = "cluster" if cl else "robust" if rob else "classical"
            o.tag += "" if not icpt else " with intercept"

            def fn(w):
                N = VN(w.world, {ids, own} if cl else set())
                o.matrix(N, F["vcov_"], F["coefficients_"], kind, l if cl else None)
            run_worlds(c, o.who, o.tag, fn)


def simple(S, c, entry, options, fixed, names, kinds):
    who = entry.split(".")[0]
    e = S.find(entry)
    for opts, kind, ids, tag in kinds:
        for g in configs(names):
            fx = dict(fixed)
            fx.update({n: NONE for n in names if n not in g})
            r = analyze(S.P, e[1], e[2], fixed=fx, options={k: const(v) if type(v) is not T else v for k, v in {**options, **opts}.items()}, rust=False)
            given = {P(n) for n in g} | ({mk("cfg", "cluster")} if kind == "cluster" and opts.get("cluster", 0) != None else set())
            o = One(c, who, "(%s)" % ", ".join([tag] + list(g)))
            F = fields_of(r.retterm)
            seen = []

            def fn(w):
                N = VN(w.world, given)
                for est, se in zip(F.get("att", []), F.get("se", [])):
                    if o.coefficient(N, est, se, kind, ids):
                        seen.append(1)
            run_worlds(c, who, o.tag, fn)
            if seen:
                c.ob("standard errors", (who, o.tag))


# ---- averages of coefficients
def sub_(N, t):
    """(V, rows, columns) of a submatrix, leading-block slices taken off V."""
    t = strip(N, t)
    if t.op != "idx":
        return None
    k = N.res(t.a[1])
    V = t.a[0]
    if k.op == "call" and k.a[0] == "numpy.ix_" and len(pos(k)) == 2:
        return (block(N, V), *pos(k))
    if k.op == "tuple" and len(k.a) == 2 and k.a[0] is WHOLE:
        o = strip(N, V)
        if o.op == "idx" and N.res(o.a[1]).op != "tuple":
            return block(N, o.a[0]), o.a[1], k.a[1]
        if o.op == "idx" and N.res(o.a[1]).op == "tuple" and N.res(o.a[1]).a[1] is WHOLE:
            return block(N, o.a[0]), N.res(o.a[1]).a[0], k.a[1]
    return None


WHOLE = mk("slice", NONE, NONE, NONE)


def block(N, V):
    """The matrix a leading square block is cut from."""
    while True:
        x = strip(N, V)
        if x.op == "idx":
            k = N.res(x.a[1])
            if k.op == "tuple" and len(k.a) == 2 and all(y.op == "slice" and y.a[0] in (NONE, const(0)) and y.a[2] is NONE for y in k.a):
                V = x.a[0]
                continue
        return V


def vector(N, t):
    t = strip(N, t)
    while t.op == "attr" and t.a[1] == "T":
        t = strip(N, t.a[0])
    return t


def times(N, t):
    """Factors of a matrix product."""
    t = strip(N, t)
    if t.op == "bin" and t.a[0] == "@":
        return times(N, t.a[1]) + times(N, t.a[2])
    if t.op == "m" and t.a[1] == "dot" and len(t.a) == 3:
        return times(N, t.a[0]) + times(N, t.a[2])
    if t.op == "call" and t.a[0] in ("numpy.dot", "numpy.matmul", "numpy.inner", "numpy.vdot") and len(pos(t)) == 2:
        return times(N, pos(t)[0]) + times(N, pos(t)[1])
    if t.op == "call" and t.a[0] == "numpy.linalg.multi_dot" and len(pos(t)) == 1 and N.res(pos(t)[0]).op in ("list", "tuple"):
        return [y for x in N.res(pos(t)[0]).a for y in times(N, x)]
    return [t]


def form(N, t):
    """(w, V, rows, columns, u) of w' V[rows, columns] u, the weights None when they are all one."""
    t = strip(N, t)
    x = pos(t)[0] if t.op == "call" and t.a[0] == "numpy.sum" and len(pos(t)) == 1 else t.a[0] if t.op == "m" and t.a[1] == "sum" and len(t.a) == 2 else None
    if x is not None:
        q = sub_(N, x)
        if q:
            return None, *q, None
        x = strip(N, x)
        if x.op == "bin" and x.a[0] == "*":
            for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                q, o = sub_(N, b), strip(N, a)
                if q and o.op == "call" and o.a[0] == "numpy.outer":
                    return vector(N, pos(o)[0]), *q, vector(N, pos(o)[1])
                f = times(N, a)
                if len(f) == 2 and (q := sub_(N, f[1])):
                    return vector(N, f[0]), *q, vector(N, b)
                if len(f) == 2 and (q := sub_(N, f[0])):
                    return vector(N, f[1]), *q, vector(N, b)
        return None
    if t.op == "call" and t.a[0] == "numpy.einsum" and len(pos(t)) == 4 and is_str(pos(t)[0]):
        e = cval(pos(t)[0]).replace(" ", "").replace("->", "").split(",")
        z = dict(zip(e, pos(t)[1:]))
        m = [k for k in z if len(k) == 2]
        if len(m) == 1 and len(z) == 3 and m[0][0] in z and m[0][1] in z and (q := sub_(N, z[m[0]])):
            return vector(N, z[m[0][0]]), *q, vector(N, z[m[0][1]])
        return None
    f = times(N, t)
    if len(f) == 3 and (q := sub_(N, f[1])):
        return vector(N, f[0]), *q, vector(N, f[2])
    return None


def lengths(A, p, src):
    """p with the number of elements of the source written as its sum of ones."""
    one = A.total(src, Poly.const(1))
    out = Poly({})
    for m, co in p.m.items():
        r = Poly({(): co})
        for a, n in m:
            t = byid(a[1]) if a[0] == "t" else None
            q = Poly.atom(a)
            if t is not None and t.op == "call" and t.a[0] == "builtins.len":
                s = A.source(pos(t)[0])
                if s.key() == src.key():
                    q = one
            elif t is not None and t.op == "attr" and t.a[1] == "size":
                s = A.length(t)
                if s is not None and s.key() == src.key():
                    q = one
            for _ in range(abs(n)):
                r = r * q if n > 0 else r.div(q)
        out = out + r
    return out


def average(N, A, o, est, se, kind, ids, cells=None):
    """A weighted sum of coefficients: its variance uses the same coefficients and weights, and their full covariance matrix."""
    if strip(N, se).op in ("c", "glob", "undef") or strip(N, est).op in ("c", "glob", "undef"):
        return False
    v = variance(N, se)
    if v is None:
        o.undecided("standard error %s" % show(strip(N, se), 4))
        return False
    p = A.scalar(est)
    if len(p.m) != 1:
        o.undecided("average %s" % show(est, 3))
        return False
    e = weights(A, p)
    if e is None:
        r = nested(N, A, o, est, v, p, kind, ids)
        if r is not None:
            return r
        if own(A, v, N, True):
            o.fail("average", "the variance of the average adds variances; covariances are left out", v)
            return True
        o.undecided("average %s" % show(est, 3))
        return False
    src, coef, w = e
    C, K = coef.a
    for x in reach(strip(N, est), control=False):
        if x.op == "idx" and x.a[0] is not C and A.canon(x.a[0]) is C:
            C = x.a[0]          # as the source has it
            break
    s, co = N.n(v).single() if len(N.n(v).m) == 1 else (None, None)
    q, scale = None, Poly.const(1)
    for m, c_ in N.n(v).m.items() if len(N.n(v).m) == 1 else ():
        scale = Poly({(): c_})
        for a, n in m:
            f = form(N, byid(a[1])) if a[0] == "t" and n == 1 and q is None else None
            if f:
                q = f
            else:
                scale = scale * Poly({((a, n),): 1})
    if q is None:
        if own(A, v, N):
            o.fail("average", "the variance of the average adds the coefficients' own variances; their covariances are left out", v)
            return True
        o.undecided("variance of the average %s" % show(v, 4))
        return False
    a, V, I, J, b = q
    ws = []
    for x, i in ((a, I), (b, J)):
        xi = A.vec(i)
        z = N.res(i)
        if xi is None and z.op == "idx" and N.res(z.a[1]).op == "slice" and N.res(z.a[1]) is not WHOLE:
            xi = A.vec(z.a[0])
            if xi is not None and xi[0].key() == src.key() and xi[1] == A.scalar(K):
                o.fail("average", "the variance is not that of the coefficients averaged", v)
                return True
            xi = None
        if xi is None:
            o.undecided("the coefficients averaged %s" % show(N.res(i), 3))
            return False
        if xi[0].key() != src.key() or xi[1] != A.scalar(K):
            if xi[0].base is src.base or xi[1] == A.scalar(K):
                o.fail("average", "the variance is not that of the coefficients averaged", v)
                return True
            o.undecided("the coefficients averaged %s" % show(N.res(i), 3))
            return False
        if x is None:
            ws.append(Poly.const(1))
            continue
        xw = A.vec(x)
        if xw is None:
            o.undecided("weights %s" % show(x, 3))
            return False
        if xw[0].key() != src.key():
            o.undecided("weights over %s" % show(x, 3))
            return False
        ws.append(xw[1])
    scale = A_scale(A, scale)
    got = lengths(A, scale * ws[0] * ws[1], src)
    want = lengths(A, w * w, src)
    if got != want:
        o.fail("average", "the variance of the average is not taken with the weights of the average", v)
        return True
    o.matrix(N, V, C, kind, ids)
    return True


def keyed(N, A, D):
    """(loops, key, amount) of a dict amounts are added up in, under keys met in nested loops."""
    loops, conds, x = [], [], D
    top = D
    if D.init.op != "dict" or D.init.a:
        return None
    while True:
        if x.next is None or x.cond is None:
            return None
        loops.append((x.cond, []))
        n = x.next
        while n.op == "ite":
            c, a, b = n.a
            if b is x:
                loops[-1][1].append(c)
                n = a
            elif a is x:
                loops[-1][1].append(neg(c))
                n = b
            else:
                return None
        if n.op == "mu" and n.init is x:
            x = n
            continue
        if n.op != "setitem":
            return None
        key, v = n.a[1], n.a[2]
        if v.op != "bin" or v.a[0] != "+":
            return None
        for prev, amount in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if any(y.op == "idx" and y.a[0] is x and y.a[1] is key or y.op == "m" and y.a[0] is x and y.a[1] == "get" for y in reach(prev, control=False)):
                return loops, key, amount
        return None


def nested(N, A, o, est, v, p, kind, ids):
    """A weighted sum, over periods, of weighted sums of coefficients, with the weights of the variance added up by coefficient."""
    f = None
    if len(N.n(v).m) == 1:
        at, co = N.n(v).single()
        f = form(N, byid(at[1])) if at is not None and co == 1 and at[0] == "t" else None
    if f is None or f[0] is None or f[4] is None or N.res(f[0]) is not N.res(f[4]) and A.canon(N.res(f[0])) is not A.canon(N.res(f[4])):
        return None
    w, V, I, J, _ = f
    if N.res(I) is not N.res(J):
        return None
    D, K = listed(N, A, w), A.vec(I)
    if D is None or K is None:
        return None
    q = keyed(N, A, D)
    k, kc = K[1].single()
    if q is None or k is None or kc != 1 or k[0] != "t" or K[0].base is not D or K[0].conds:
        return None
    loops, key, amount = q
    at = subst(byid(k[1]), {y: key for y in reach(byid(k[1])) if y.op == "elem" and y.a[0] is D})
    # the coefficients of the estimate
    betas = set()

    def look(p):
        for m in p.m:
            for a, n in m:
                deep_(a)

    def deep_(a):
        if a[0] == "SUM":
            for x, n in a[2]:
                deep_(x)
        elif a[0] == "t" and byid(a[1]).op == "idx" and beta(byid(a[1]).a[0]):
            betas.add(byid(a[1]).a[0])
    look(p)
    if len(betas) != 1:
        return None
    C, = betas
    for x in reach(strip(N, est), control=False):
        if x.op == "idx" and x.a[0] is not C and A.canon(x.a[0]) is C:
            real = x.a[0]
            break
    else:
        real = C
    got = A.scalar(amount) * Poly.atom(("t", mk("idx", C, A.canon(at)).id))
    for it, conds in reversed(loops):
        s = A.source(it)
        s = s.add(A.canon(c) for c in conds if c.op != "in")
        got = A.total(s, got)
    if got != p:
        o.fail("average", "the variance of the average is not taken with the weights of the average", v)
        return True
    o.matrix(N, V, real, kind, ids)
    return True


def listed(N, A, w):
    """The dict a list of values comes from."""
    w = strip(N, w)
    while w.op == "call" and w.a[0] in ("builtins.list", "numpy.array", "numpy.fromiter", "builtins.tuple") and pos(w):
        w = strip(N, pos(w)[0])
    if w.op == "m" and w.a[1] == "values":
        D = A.base(w.a[0])
        return D if D.op == "mu" else None
    if w.op == "comp" and w.a[0] == "list" and w.a[1].op == "idx":
        D = A.base(w.a[1].a[0])
        k = w.a[1].a[1]
        return D if D.op == "mu" and k.op == "elem" and A.base(k.a[0]) is D else None
    return None


def A_scale(A, p):
    out = Poly({})
    for m, co in p.m.items():
        r = Poly({(): co})
        for a, n in m:
            q = A.scalar(byid(a[1])) if a[0] == "t" else Poly.atom(a)
            for _ in range(abs(n)):
                r = r * q if n > 0 else r.div(q)
        out = out + r
    return out


def weights(A, p):
    """(source, coefficient term, weight) of a weighted sum of coefficients."""
    (mono_, co), = p.m.items()
    best = None
    for a, n in mono_:
        if a[0] != "SUM" or n != 1:
            continue
        for x, k in a[2]:
            t = byid(x[1]) if x[0] == "t" and k == 1 else None
            if t is not None and t.op == "idx" and beta(t.a[0]):
                best = a, x, t
    if best is None:
        return None
    a, x, t = best
    w = Poly({tuple(z for z in mono_ if z != (a, 1)): co}) * Poly({tuple(z for z in a[2] if z != (x, 1)): 1})
    return A.srcs[a[1]], t, w


def beta(t):
    """Is this a vector of least squares coefficients?"""
    while t.op == "setitem":
        t = t.a[2]
    return t.op == "idx" and is_const(t.a[1]) and cval(t.a[1]) == 0 and t.a[0].op == "call" and t.a[0].a[0] in LS


def own(A, v, N, parts=False):
    """Is this made of the coefficients' own variances, without their covariances?"""
    seen = 0
    todo = [v]
    while todo:
        t = strip(N, todo.pop())
        f = form(N, t)
        if f is not None:
            if not parts or N.res(f[2]) is not N.res(f[3]):
                return False
            seen += 1
            continue
        if t.op == "call" and t.a[0] in ("numpy.diag", "numpy.diagonal", "numpy.trace") and len(pos(t)) == 1 or t.op == "m" and t.a[1] in ("diagonal", "trace"):
            if covariance(N, pos(t)[0] if t.op == "call" else t.a[0]):
                seen += 1
                continue
        q = entryof(N, t)
        if q and covariance(N, q[0]):
            if q[1] is not q[2]:
                return False
            seen += 1
            continue
        w = variance(N, t)
        if w is not None:
            todo.append(w)
            continue
        if t.op in ("bin", "un", "call", "m") and (t.op != "call" or t.a[0] in EW or t.a[0] in ("numpy.array", "numpy.asarray", "builtins.sum", "builtins.float", "builtins.list")):
            todo += [x for x in t.a if type(x) is T]
        elif t.op == "comp" and t.a[0] == "list" and type(t.a[1]) is T:
            todo.append(t.a[1])
        elif t.op in ("mu", "idx", "elem", "attr"):
            if t.op == "mu":
                e = A.appended(t)
                if e is not None:
                    todo.append(e[0])
                    continue
            c = A.canon(t)
            if c is not t:
                todo.append(c)
        elif t.op == "ite":
            todo += [t.a[1], t.a[2]]
    return seen > 0


def covariance(N, V):
    q = sub_(N, V)
    V = padded(N, q[0] if q else block(N, V))[0]
    return sum(y.op == "call" and y.a[0] in (*LS, "numpy.linalg.solve", "numpy.linalg.inv", "numpy.linalg.pinv") for y in reach(V, control=False)) > 1


CL = mk("cfg", "cluster")


def col(n):
    return mk("idx", DATA, n)


def multiperiod(S, c):
    who = "MultiPeriodDiD"
    e = S.find(who + ".fit")
    names = ("covariates", "fixed_effects", "absorb")
    for opts, kind, ids, tag in FOUR:
        for g in configs(names) if not opts.get("robust", True) else ((), ("absorb",)):
            for post in (True, False):
                fx = {n: NONE for n in names if n not in g}
                given = {P(n) for n in g} | ({CL} if kind == "cluster" else set())
                if post:
                    given.add(P("post_periods"))
                else:
                    fx["post_periods"] = NONE
                r = analyze(S.P, e[1], e[2], fixed=fx, options={k: const(v) for k, v in opts.items()}, rust=False)
                F = fields_of(r.retterm)
                o = One(c, who, "(%s)" % ", ".join([tag] + list(g) + (["post_periods"] if post else [])))
                seen, done = [], set()
                for x in reach(mk("tuple", *F.get("period_effects", []))):
                    if x.op != "setitem" or x.a[2].op != "new" or x.id in done:
                        continue
                    done.add(x.id)

                    def fn(w):
                        N = VN(w.world, given)
                        v = N.res(x.a[2])
                        if o.coefficient(N, attr(v, "effect"), attr(v, "se"), kind, ids):
                            seen.append(1)
                    run_worlds(c, who, o.tag, fn)
                if seen:
                    c.ob("standard errors", (who, o.tag))
                o = One(c, who, o.tag[:-1] + ", average)")
                seen = []

                def fn(w):
                    N = VN(w.world, given)
                    if average(N, Agg(N), o, F["avg_att"][0], F["avg_se"][0], kind, ids):
                        seen.append(1)
                run_worlds(c, who, o.tag, fn)
                if seen:
                    c.ob("standard errors", (who, o.tag))


FOUR = [({"robust": True, "cluster": None}, "robust", None, "robust"), ({"robust": False, "cluster": None}, "classical", None, "not robust"),
        ({"robust": True}, "cluster", col(CL), "cluster"), ({"robust": False}, "cluster", col(CL), "not robust, cluster")]


def sunab(S, c):
    who = "SunAbraham"
    e = S.find(who + ".fit")
    for g in ((), ("covariates",)):
        for opts, ids, tag in (({"cluster": None}, col(P("unit")), "by unit"), ({}, col(CL), "cluster")):
            r = analyze(S.P, e[1], e[2], fixed={} if g else {"covariates": NONE}, options={"n_bootstrap": const(0), **{k: const(v) for k, v in opts.items()}}, rust=False)
            F = fields_of(r.retterm)
            given = {P(n) for n in g} | (set() if opts else {CL})
            tag2 = ", ".join([tag] + list(g))
            o = One(c, who, "(%s)" % tag2)
            seen = []
            for t in F["event_study_effects"]:
                for k, rec, est in recs(t):
                    if not _agg(rec):
                        continue
                    d = {cval(kv.a[0]): kv.a[1] for kv in rec.a if kv.op == "kv" and is_str(kv.a[0])}

                    def fn(w):
                        N = VN(w.world, given)
                        if average(N, Agg(N), o, est, d["se"], "cluster", ids):
                            seen.append(1)
                    run_worlds(c, who, o.tag, fn)
            if seen:
                c.ob("standard errors", (who, o.tag))
            o = One(c, who, "(%s)" % (tag2 + ", overall"))
            got = []

            def fn(w):
                N = VN(w.world, given)
                if average(N, Agg(N), o, F["overall_att"][0], F["overall_se"][0], "cluster", ids):
                    got.append(1)
            run_worlds(c, who, o.tag, fn)
            if got:
                c.ob("standard errors", (who, o.tag))


def run(S, c):
    c.rule("Rule: each reported standard error is traced back to an element of a covariance matrix; the matrix is put into a canonical sum of "
           "products (design, residual, cluster-sum and inverse factors with a scalar in counts) and must equal the documented estimator "
           "for the design and residuals of the same fit.")
    S = S.python()
    functions(S, c)
    simple(S, c, "DifferenceInDifferences.fit", {"inference": "analytical"}, {"formula": NONE}, ("covariates", "fixed_effects", "absorb"),
           FOUR)
    multiperiod(S, c)
    sunab(S, c)
    simple(S, c, "TwoWayFixedEffects.fit", {"inference": "analytical"}, {}, ("covariates",),
           [({"cluster": None}, "cluster", col(P("unit")), "by unit"), ({}, "cluster", col(CL), "cluster")])
    simple(S, c, "TripleDifference.fit", {"estimation_method": "reg"}, {}, ("covariates",),
           [({"robust": True}, "robust", None, "robust"), ({"robust": False}, "classical", None, "not robust")])
    c.floor("standard errors", 8)
    c.floor("covariances", 8)
