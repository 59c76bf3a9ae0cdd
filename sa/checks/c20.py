"""C20: the regression estimators solve the documented least-squares problem and report the documented coefficient of it."""
from ..terms import *
from ..alg import worlds, Norm, Overflow, loopval
from ..deps import fields_of
from ..entry import analyze
from ..infer import strip
from ..layout import Layout, Unknown, Reordered, ONE, PREV, prod, lin, pos, kw, ID, SEQ
from ..masks import INF

VAR = mk("var")
P = lambda n: mk("param", n)
DATA = P("data")
LS = {"scipy.linalg.lstsq", "numpy.linalg.lstsq"}


class Given(Norm):
    """Worlds in which the named optional arguments are given and not empty."""

    def __init__(self, world, given):
        super().__init__(world)
        self.given = given

    def full(self, t):
        """Given; a collection filled in a loop, with something to go over."""
        while t.op == "call" and t.a[0] in SEQ and len(t.a) == 2 or t.op == "m" and t.a[1] in ("keys", "items", "values") and len(t.a) == 2:
            t = t.a[1] if t.op == "call" else t.a[0]
        return t in self.given or t.op == "mu" and root(t).op in ("dict", "list") and not root(t).a

    def _cond(self, t):
        if self.full(t):
            return True
        if t.op == "is" and t.a[1] is NONE and (t.a[0] in self.given or t.a[0].op in ("m", "idx", "attr") and t.a[0].a[0].op != "param"):
            return False
        if t.op in ("lt", "le", "eq"):
            for i in (0, 1):
                x, y = t.a[i], t.a[1 - i]
                if x.op == "call" and x.a[0] == "builtins.len" and self.full(x.a[1]) and is_const(y):
                    if t.op == "eq" and cval(y) == 0 or t.op in ("lt", "le") and i == 0 and cval(y) <= (0 if t.op == "le" else 1):
                        return False
                    if t.op == "lt" and i == 1 and cval(y) == 0 or t.op == "le" and i == 1 and cval(y) in (0, 1):
                        return True
        return super()._cond(t)


def solved(N, t):
    """(X, y) when t is the coefficient vector of a least-squares fit of y on X."""
    t = strip(N, t)
    if t.op == "idx" and is_const(t.a[1]) and cval(t.a[1]) == 0 and t.a[0].op == "call" and t.a[0].a[0] in LS:
        p = pos(t.a[0])
        return (p[0], p[1]) if len(p) >= 2 else None
    if t.op == "call" and t.a[0] in ("numpy.linalg.solve", "scipy.linalg.solve") and len(pos(t)) == 2:
        a, b = (strip(N, x) for x in pos(t))
        if a.op == "bin" and a.a[0] == "@" and b.op == "bin" and b.a[0] == "@" and strip(N, a.a[1]) is strip(N, b.a[1]):
            x = strip(N, a.a[1])
            if x.op == "attr" and x.a[1] == "T" and strip(N, x.a[0]) is strip(N, a.a[2]):
                return a.a[2], b.a[2]
    return None


def coefficient(N, t):
    """(X, y, k) when t is a coefficient of a least-squares fit."""
    t = strip(N, t)
    if t.op != "idx":
        return None
    s = solved(N, t.a[0])
    return (*s, t.a[1]) if s else None


GRAMMAR = {"any", "lt", "le", "part", "before", "all", "later", "but", "first", "one", "src", "prod", "lin", "term", "gm", "mean", "eq", "iter", "prev", "dummies", "rep", "elem", "var", "param", "c", "cfg"}


def name(t):
    op, a = t.op, t.a
    if t is ONE:
        return "constant"
    if op == "src":
        return name(a[0])
    if op == "param":
        return a[0]
    if op == "var" or op == "elem":
        return "each"
    if op == "prod":
        return "*".join(sorted(name(x) for x in a))
    if op == "eq":
        return "[%s]" % "==".join(sorted(name(x) for x in a))
    if op == "all":
        return "periods"
    if op == "later":
        return "later periods"
    if op == "but":
        return "periods but %s" % name(a[0])
    if op == "first":
        return "first pre-period"
    if op == "part":
        return "%s[%s:%s]" % (name(a[0]), *("" if x is NONE else show(x) for x in a[1:]))
    if op == "before":
        return "the column %d before %s" % (cval(a[0]), name(a[1]))
    if op == "any":
        return " or ".join(sorted(name(x) for x in a))
    if op in ("lt", "le"):
        return "[%s %s %s]" % (name(a[0]), {"lt": "<", "le": "<="}[op], name(a[1]))
    if op == "rep":
        return "for each of %s: %s" % (name(a[0]), name(a[1]))
    if op == "gm":
        return "%s(%s by %s)" % (cval(a[2]) if len(a) > 2 else "mean", name(a[0]), name(a[1]))
    if op == "mean":
        return "mean(%s)" % name(a[0])
    if op == "lin":
        return " ".join(sorted("%+g %s" % (cval(x.a[0]), name(x.a[1])) for x in a))
    if op == "iter":
        return "demeaned by %s: %s" % (name(a[0]), name(a[2]))
    if op == "dummies":
        return "dummies of %s%s" % (name(a[0]), "" if cval(a[1]) else " (no level dropped)")
    return show(t, 2)


def known(t):
    for x in reach(t, control=False, stop=lambda y: y.op in ("src", "rep", "elem")):
        if x.op == "src":
            if x.a[0].op not in ("param", "c", "var", "elem", "cfg") or x.a[1] is not DATA:
                return False
        elif x.op == "rep":
            if not known(x.a[1]) or x.a[0].op not in ("param", "all", "later", "but", "part"):
                return False
        elif x.op not in GRAMMAR:
            return False
    return True


class Canon:
    def __init__(self, L, iters=None):
        self.L = L
        self.iters = iters or (lambda L, it: it)

    def dummies(self, f):
        f = self.L.N.res(f)
        if f.op != "call" or f.a[0] != "pandas.get_dummies" or not pos(f):
            return None
        d = kw(f, "drop_first")
        if d is None or not is_const(d):
            d = const(False) if d is None else None
        if d is None or kw(f, "columns") is not None:
            return None
        return mk("dummies", self.L.col(pos(f)[0]), const(bool(cval(d))))

    def seg(self, s):
        """One canonical term for a column or a run of columns."""
        L = self.L
        if s[0] == "col":
            c = s[1]
            d = self.dummies(c) if c.op == "call" else None
            return d if d is not None else c
        if s[0] != "rep":
            raise Unknown("columns under a condition")
        it = L.over(s[1])
        if len(s[2]) != 1:
            raise Unknown("several columns per pass")
        x = s[2][0]
        f = it.a[0] if it.op == "attr" and it.a[1] == "columns" else it
        d = self.dummies(f)
        if d is not None and x[0] == "col":
            if x[1].op == "dummy" and L.N.res(x[1].a[0]) is L.N.res(f) and x[1].a[1].op == "elem":
                return d
            raise Unknown("dummies")
        b = self.seg(x)
        return mk("rep", self.iters(L, it), subst(b, each(L, it, b)))

    def segs(self, ss):
        return [self.seg(s) for s in ss]


def each(L, it, b):
    """The loop's own element in a term, as the canonical variable."""
    own = {it}
    if it.op == "comp" and it.a[1].op == "elem":
        own.add(L.over(it.a[1].a[0]))
    return {e: VAR for e in reach(b, control=False) if e.op == "elem" and L.over(e.a[0]) in own}


# ---- the documented designs
class Spec:
    """Documented outcome, regressors and coefficient of interest of an estimator."""

    def __init__(self, cls, base, target, demean=None, given=(), outcome="outcome", keyed=None):
        self.cls, self.base, self.target, self.demean, self.given = cls, base, target, demean, given

    def tr(self, c):
        return c if self.demean is None else self.demean(c)

    def columns(self):
        out = [self.tr(c) if c is not ONE else c for c in self.base]
        if "covariates" in self.given:
            out.append(mk("rep", P("covariates"), self.tr(col("covariates", True))))
        if "fixed_effects" in self.given:
            out.append(mk("rep", P("fixed_effects"), mk("dummies", col("fixed_effects", True), const(True))))
        return out


def col(n, each=False):
    return mk("src", VAR if each else P(n), DATA)


def absorbed(c):
    return over_rep(c, lambda x: mk("iter", P("absorb"), lin([(1, PREV), (-1, mk("gm", PREV, mk("elem", P("absorb"), const(0))))]), x))


def within(c):
    return over_rep(c, lambda x: lin([(1, x), (-1, mk("gm", x, P("unit"))), (-1, mk("gm", x, P("time"))), (1, mk("mean", x))]))


def over_rep(c, f):
    return mk("rep", c.a[0], f(c.a[1])) if c.op == "rep" else f(c)


def raw(c):
    """A column before group means were taken out of it."""
    if c.op == "rep":
        return mk("rep", c.a[0], raw(c.a[1]))
    if c.op == "iter":
        return c.a[2]
    if c.op == "lin":
        plain = [x.a[1] for x in c.a if x.a[1].op not in ("gm", "mean")]
        if len(plain) == 1 and any(x.a[1].op == "gm" for x in c.a):
            return plain[0]
    return c


def same(L, a, b):
    if a is b:
        return True
    if a.op == "rep" and b.op == "rep":
        return L.over(a.a[0]) is L.over(b.a[0]) and same(L, a.a[1], b.a[1])
    return False


class Judge:
    def __init__(self, c, who, tag, iters=None):
        self.c, self.who, self.tag, self.iters = c, who, tag, iters

    def canon(self, L):
        return Canon(L, self.iters)

    def find(self, rule, what, text, t):
        self.c.find("%s:%s:%s" % (rule, self.who + (self.tag if rule != "not-demeaned" else ""), what), "%s%s: %s" % (self.who, self.tag, text), where=self.who, path=show(t, 5)[:300])

    def design(self, L, spec, X, y, k=None):
        """Compares a design with its specification; its columns when it was read completely."""
        try:
            Y = L.col(y)
            cols = self.canon(L).segs(L.cols(X))
        except Reordered:
            if k is not None and is_const(k):
                self.find("order", "sorted", "the columns are sorted by name while the effect is read at a fixed position", X)
            else:
                self.c.undecide("%s%s: columns sorted" % (self.who, self.tag))
            return None
        except Unknown as u:
            self.c.undecide("%s%s: %s" % (self.who, self.tag, u))
            return None
        want = [spec.tr(col("outcome"))]
        for cs, exp, role in (([Y], want, "outcome"), (cols, spec.columns(), "regressor")):
            left = list(exp)
            extra = []
            for x in cs:
                m = [e for e in left if same(L, e, x)]
                if m:
                    left.remove(m[0])
                else:
                    extra.append(x)
            if spec.demean is not None:
                left = [e for e in left if e is not ONE]
            self.c.ob(role + "s", (self.who, self.tag, role, len(cs)))
            if not all(known(x) for x in extra):
                bad = [x for x in extra if not known(x)]
                self.c.undecide("%s%s: %s %s" % (self.who, self.tag, role, name(bad[0])))
                return None
            for x in list(extra):
                m = [e for e in left if same(L, raw(e), x)]
                if m:
                    left.remove(m[0])
                    extra.remove(x)
                    self.find("not-demeaned", name(x), "the %s %s is used as it is while the outcome has group means taken out" % (role, name(x)), X)
            for x in extra:
                self.find("extra", name(x), "%s %s is not part of the documented regression" % (role, name(x)), X)
            for x in left:
                self.find("missing", name(x), "documented %s %s is missing" % (role, name(x)), X)
        return cols

    def target(self, L, spec, cols, X, k, key=None):
        """The reported coefficient is that of the documented column."""
        try:
            got = place(self.canon(L), cols, k)
        except Unknown as u:
            self.c.undecide("%s%s: coefficient %s: %s" % (self.who, self.tag, show(k, 3), u))
            return
        want = spec.target if key is None else spec.target(key)
        self.c.ob("reported coefficients", (self.who, self.tag))
        if got is not want and raw(got) is not want and got is not spec.tr(want):
            if known(got) and known(want):
                self.find("coefficient", name(raw(got)), "the effect reported is the coefficient of %s, not of %s" % (name(got), name(want)), X)
            else:
                self.c.undecide("%s%s: column %s" % (self.who, self.tag, name(got)))


def place(C, cols, k):
    """The column a coefficient's position denotes."""
    L = C.L
    k = L.N.res(k)
    while k.op == "call" and k.a[0] == "builtins.int" and len(k.a) == 2:
        k = L.N.res(k.a[1])
    if is_const(k) and isinstance(cval(k), int):
        i = cval(k)
        for j, x in enumerate(cols):
            if x.op in ("rep", "dummies"):
                if i < 0:
                    break
                raise Unknown("position after a run of columns")
            if j == i:
                return x
        if i < 0:
            tail = cols[i:]
            if len(tail) == -i and not any(x.op in ("rep", "dummies") for x in tail):
                return tail[0]
        raise Unknown("no such position")
    if k.op == "bin" and k.a[0] == "-" and is_const(k.a[2]) and cval(k.a[2]) in (1, 2, 3):
        s = k.a[1]
        if s.op == "idx" and is_const(s.a[1]) and cval(s.a[1]) == 1 and s.a[0].op == "attr" and s.a[0].a[1] == "shape":
            S = s.a[0].a[0]
            part = L.cols(S)
            last = part[-1]
            if last[0] != "col":
                raise Unknown("last column of a run")
            head = C.segs(part[:-1])
            # the columns before it are those the finished matrix starts with, up to this pass of the loop
            if [x.id for x in head] == [x.id for x in cols[:len(head)]]:
                if head and head[-1].op == "rep":
                    it = L.over(part[-2][1])
                    if subst(last[1], each(L, it, last[1])) is head[-1].a[1]:
                        return last[1] if cval(k.a[2]) == 1 else mk("before", const(cval(k.a[2]) - 1), last[1])
                if len(cols) > len(head) and cols[len(head)] is last[1] and cval(k.a[2]) == 1:
                    return last[1]
            raise Unknown("columns before it differ")
    raise Unknown("position")


D, T_, Y = col("treatment"), col("time"), col("outcome")
G, PT = col("group"), col("partition")


def configs(names):
    out = [()]
    for n in names:
        out += [x + (n,) for x in out]
    return out


def text(g):
    return "" if not g else "(%s)" % ",".join(g)


def simple(S, c, entry, options, fixed, names, spec):
    """An estimator whose `att` is one coefficient."""
    who = entry.split(".")[0]
    e = S.find(entry)
    for g in configs(names):
        fx = dict(fixed)
        fx.update({n: NONE for n in names if n not in g})
        r = analyze(S.P, e[1], e[2], fixed=fx, options={k: const(v) for k, v in options.items()}, rust=False)
        sp = spec(g)
        given = {P(n) for n in g}
        j = Judge(c, who, text(g))
        seen = 0
        F = fields_of(r.retterm)
        for t in F.get("att", []):
            def fn(w):
                N = Given(w.world, given)
                q = coefficient(N, t)
                if q is None:
                    return N, None, strip(N, t)
                return N, q, None
            try:
                for w, (N, q, x) in worlds(fn, 4000):
                    if q is None:
                        if x.op == "setitem" or x.op == "idx" and x.a[0].op == "setitem" or x.op in ("c", "undef", "glob"):
                            continue        # coefficients of the columns kept
                        c.undecide("%s%s: effect %s" % (who, text(g), show(x, 3)))
                        continue
                    L = Layout(N)
                    cols = j.design(L, sp, *q)
                    if cols is not None:
                        j.target(L, sp, cols, q[0], q[2])
                    seen += 1
            except Overflow:
                c.undecide("%s%s: too many branches" % (who, text(g)))
        if seen:
            c.ob("designs", (who, g))
        fitted(c, j, F, given)
        labels(c, j, F, given)


def fitted(c, j, F, given):
    """Residuals are y - Xb and fitted values Xb, of the coefficients reported."""
    for f in ("residuals", "fitted_values", "r_squared"):
        for t in F.get(f, []):
            def fn(w):
                N = Given(w.world, given)
                return N, verdict(N, f, t)
            try:
                for w, (N, v) in worlds(fn, 4000):
                    if v is None:
                        c.undecide("%s%s: %s" % (j.who, j.tag, f))
                    elif v is True:
                        c.ob("fit quantities", (j.who, j.tag, f))
                    elif v:
                        j.find("fit", f, "%s is %s" % (f, v), t)
            except Overflow:
                c.undecide("%s%s: %s, too many branches" % (j.who, j.tag, f))


def deep(N, t, d=12):
    """Term with conversions and branches stripped at every level of arithmetic."""
    t = strip(N, t)
    while t.op == "call" and t.a[0] in ID and pos(t):
        t = strip(N, pos(t)[0])
    while t.op == "m" and t.a[1] in ("astype", "copy", "ravel") or t.op == "attr" and t.a[1] == "values":
        t = strip(N, t.a[0])
        while t.op == "call" and t.a[0] in ID and pos(t):
            t = strip(N, pos(t)[0])
    if d <= 0:
        return t
    if t.op == "bin":
        return mk("bin", t.a[0], deep(N, t.a[1], d - 1), deep(N, t.a[2], d - 1))
    if t.op == "call" and t.a[0] in ("numpy.sum", "numpy.mean", "builtins.sum") and len(pos(t)) == 1:
        return mk("call", t.a[0], deep(N, pos(t)[0], d - 1))
    if t.op == "m" and t.a[1] in ("sum", "mean") and len(t.a) == 2:
        return mk("call", "numpy." + t.a[1], deep(N, t.a[0], d - 1))
    if t.op == "m" and t.a[1] == "dot" and len(t.a) == 3:
        return mk("bin", "@", deep(N, t.a[0], d - 1), deep(N, t.a[2], d - 1))
    if t.op == "call" and t.a[0] in ("numpy.dot", "numpy.matmul") and len(pos(t)) == 2:
        return mk("bin", "@", *[deep(N, x, d - 1) for x in pos(t)])
    if t.op == "call" and t.a[0] == "numpy.square" and len(pos(t)) == 1:
        return mk("bin", "**", deep(N, pos(t)[0], d - 1), const(2))
    if t.op == "call" and t.a[0] in ("numpy.dot", "numpy.inner") and len(pos(t)) == 2:
        return mk("bin", "@", *[deep(N, x, d - 1) for x in pos(t)])
    return t


def product(N, t):
    """(X, b) of X @ b."""
    return (t.a[1], t.a[2]) if t.op == "bin" and t.a[0] == "@" else None


def isfit(N, t):
    """True when t is X @ b with b the fit of some y on X (then y is returned); text when X or b is another."""
    p = product(N, t)
    if p is None:
        return None
    s = solved(N, p[1])
    if s is None:
        return None
    return ("y", deep(N, s[1])) if deep(N, s[0]) is p[0] else ("bad", "not the product of the regressors and their coefficients")


def isres(N, t):
    if t.op != "bin" or t.a[0] not in "+-":
        return None
    o, a, b = t.a
    fa, fb = isfit(N, a), isfit(N, b)
    if o == "-" and fb is not None and fb[0] == "y":
        return ("y", a) if fb[1] is a else ("bad", "measured from another outcome than the one fitted")
    if fb is not None and fb[0] == "bad" or fa is not None and fa[0] == "bad":
        return (fa or fb) if (fa or fb)[0] == "bad" else fb
    if fa is not None and fa[0] == "y" and o == "-":
        return ("bad", "fitted minus outcome") if fa[1] is b else None
    if o == "+":
        return ("bad", "outcome plus fitted") if fb is not None or fa is not None else None
    return None


def verdict(N, f, t):
    t = deep(N, t)
    if is_const(t) or t.op in ("undef", "glob"):
        return True
    if f == "fitted_values":
        v = isfit(N, t)
    elif f == "residuals":
        v = isres(N, t)
    else:
        v = rsq(N, t)
    if v is None:
        if any(x.op == "call" and x.a[0] in LS and pos(x) and reduced(N, pos(x)[0]) for x in reach(t, control=False)):
            return True     # columns dropped: C12
        return None
    return True if v[0] == "y" else v[1]


def reduced(N, X):
    X = deep(N, X)
    return X.op == "idx" and X.a[1].op == "tuple"


def rsq(N, t):
    p = N.n(t)
    inv = [a for a in p.atoms()]
    if t.op == "bin" and t.a[0] == "-" and is_const(t.a[1]) and cval(t.a[1]) == 1:
        q = t.a[2]
        if q.op == "bin" and q.a[0] == "/":
            num, den = sumsq(q.a[1]), sumsq(q.a[2])
            if num is None or den is None:
                return None
            r = isres(N, num)
            if r is None:
                return ("bad", "not one minus the residual share") if isres(N, den) else None
            if r[0] != "y":
                return r
            if den.op == "bin" and den.a[0] == "-" and den.a[1] is r[1] and den.a[2].op == "call" and den.a[2].a[0] == "numpy.mean" and den.a[2].a[1] is r[1]:
                return ("y", r[1])
            if den is r[1]:
                return ("bad", "relative to the uncentred outcome")
    return None


def sumsq(t):
    if t.op == "call" and t.a[0] in ("numpy.sum", "builtins.sum") and len(t.a) == 2:
        x = t.a[1]
        if x.op == "bin" and x.a[0] == "**" and is_const(x.a[2]) and cval(x.a[2]) == 2:
            return x.a[1]
        if x.op == "bin" and x.a[0] == "*" and x.a[1] is x.a[2]:
            return x.a[1]
    if t.op == "bin" and t.a[0] == "@" and t.a[1] is t.a[2]:
        return t.a[1]
    return None


# ---- names
def denote(L, n):
    """The column a coefficient's name says it belongs to (None: free text)."""
    if n.op == "param":
        return mk("src", n, DATA)
    if n.op in ("elem", "var"):
        return mk("src", n, DATA)
    parts = n.a if n.op == "fstr" else [n]
    words, cur = [], []
    for x in parts:
        if is_str(x):
            bits = cval(x).replace(" * ", ":").replace("*", ":").replace(" x ", ":").split(":")
            for i, b in enumerate(bits):
                if i:
                    words.append(cur)
                    cur = []
                if b:
                    cur.append(const(b))
        else:
            cur.append(x)
    words.append(cur)
    out = []
    for w in words:
        if len(w) == 1 and is_str(w[0]) and cval(w[0]).strip("()").lower() in ("const", "intercept", "constant"):
            out.append(ONE)
        elif len(w) == 1 and not is_str(w[0]):
            out.append(mk("src", w[0], DATA))
        elif len(w) == 2 and is_str(w[0]) and cval(w[0]) == "period_":
            out.append(mk("eq", *sorted((col("time"), w[1]), key=lambda x: x.id)))
        else:
            return None
    return prod(out)


def nameseg(C, s):
    L = C.L
    if s[0] == "item":
        return denote(L, s[1])
    if s[0] != "rep" or len(s[2]) != 1:
        raise Unknown("names")
    it = L.over(s[1])
    f = it.a[0] if it.op == "attr" and it.a[1] == "columns" else it
    d = C.dummies(f)
    if d is not None:
        return d
    if s[2][0][0] == "item":
        n = s[2][0][1]
        if n.op == "elem" and L.over(n.a[0]) is it:
            b = mk("src", VAR, DATA)
        else:
            b = denote(L, n)
            if b is None:
                return None
            b = subst(b, each(L, it, b))
    else:
        b = nameseg(C, s[2][0])
        if b is None:
            return None
        b = subst(b, each(L, it, b))
    return mk("rep", C.iters(L, it), b)


def labels(c, j, F, given):
    """Every named coefficient is that of the column its name says."""
    for t in F.get("coefficients", []):
        def fn(w):
            N = Given(w.world, given)
            x = N.res(t)
            if x.op != "comp" or x.a[0] != "dict":
                return None
            its = next(y for y in x.a if type(y) is T and y.op == "iters")
            z = N.res(its.a[0]) if len(its.a) == 1 else None
            if z is None or z.op != "call" or z.a[0] != "builtins.zip" or len(pos(z)) != 2:
                return None
            s = solved(N, pos(z)[1])
            if s is None:
                return None
            L = Layout(N)
            C = j.canon(L)
            try:
                return [nameseg(C, y) for y in L.seq(pos(z)[0])], C.segs(L.cols(s[0]))
            except Unknown as u:
                return str(u)
        try:
            for w, v in worlds(fn, 4000):
                if v is None:
                    continue
                if type(v) is str:
                    c.undecide("%s%s: names: %s" % (j.who, j.tag, v))
                    continue
                ns, cols = v
                c.ob("named coefficients", (j.who, j.tag))
                if len(ns) != len(cols):
                    if all(n is not None and known(n) for n in ns) and all(known(x) for x in cols):
                        j.find("names", "count", "the coefficients' names and the regressors are not the same number of columns", t)
                    continue
                for n, x in zip(ns, cols):
                    if n is not None and known(n) and known(x) and raw(x) is not n:
                        j.find("names", name(raw(x)), "the coefficient of %s is reported under the name of %s" % (name(raw(x)), name(n)), t)
        except Overflow:
            c.undecide("%s%s: names, too many branches" % (j.who, j.tag))


# ---- several effects
ALL, LATER = mk("all"), mk("later")


def periods(L, it):
    """The set of periods a list goes over, canonically."""
    N = L.N
    it = N.res(L.over(it))
    if it.op == "param":
        return it
    if it.op in ("m", "call") and isall(L, it):
        return ALL
    if it.op == "idx" and it.a[1].op == "slice":
        lo, hi = N.res(it.a[1].a[0]), N.res(it.a[1].a[1])
        if isall(L, it.a[0]) and half(L, lo) and hi is NONE:
            return LATER
        b = periods(L, it.a[0])
        if is_const(lo) and is_const(hi) and b.op in ("all", "later", "param", "but", "part"):
            return mk("part", b, lo, hi)
    if it.op == "comp" and it.a[0] == "list":
        its = next(x for x in it.a if type(x) is T and x.op == "iters")
        cs = [y for y in next(x for x in it.a if type(x) is T and x.op == "conds").a]
        if len(its.a) == 1 and len(cs) == 1 and isall(L, its.a[0]) and it.a[1].op == "elem" and L.over(it.a[1].a[0]) is L.over(its.a[0]):
            k = cs[0]
            if k.op == "not" and k.a[0].op == "eq":
                o = [x for x in k.a[0].a if x is not it.a[1]]
                if len(o) == 1:
                    return mk("but", refperiod(L, o[0]))
            if k.op == "not" and k.a[0].op == "in" and k.a[0].a[0] is it.a[1]:
                return mk("but", periods(L, k.a[0].a[1]))
    return it


def isall(L, t):
    t = L.over(t)
    x = None
    if t.op == "m" and t.a[1] == "unique" and len(t.a) == 2:
        x = t.a[0]
    if t.op == "call" and t.a[0] in ("numpy.unique", "builtins.set") and len(t.a) == 2:
        x = t.a[1]
    try:
        return x is not None and L.col(x) is col("time")
    except Unknown:
        return False


def half(L, t):
    t = L.N.res(t)
    return t.op == "bin" and t.a[0] == "//" and is_const(t.a[2]) and cval(t.a[2]) == 2 and t.a[1].op == "call" and t.a[1].a[0] == "builtins.len" and isall(L, t.a[1].a[1])


FIRST = mk("first")


def refperiod(L, t):
    t = L.N.res(t)
    if t.op == "param":
        return t
    if t.op == "idx" and is_const(t.a[1]) and cval(t.a[1]) == 0:
        o = L.N.res(t.a[0])
        if o.op == "idx" and o.a[1].op == "slice" and isall(L, o.a[0]) and o.a[1].a[0] is NONE and half(L, o.a[1].a[1]):
            return FIRST
        if o.op == "comp":
            q = periods(L, o)
            if q.op == "but":
                return FIRST
    return t


def multiperiod(S, c):
    who = "MultiPeriodDiD"
    e = S.find(who + ".fit")
    for g in configs(("covariates", "fixed_effects", "absorb")):
        for post in (True, False):
            for ref in (True, False):
                if g and post != ref:
                    continue
                fx = {n: NONE for n in ("covariates", "fixed_effects", "absorb") if n not in g}
                given = {P(n) for n in g}
                for n, v in (("post_periods", post), ("reference_period", ref)):
                    if v:
                        given.add(P(n))
                    else:
                        fx[n] = NONE
                r = analyze(S.P, e[1], e[2], fixed=fx, rust=False)
                F = fields_of(r.retterm)
                after = P("post_periods") if post else LATER
                skip = mk("but", P("reference_period") if ref else FIRST)
                at = lambda p: mk("eq", *sorted((T_, p), key=lambda x: x.id))
                sp = Spec(who, [ONE, D, mk("rep", skip, at(VAR)), mk("rep", after, prod([D, at(VAR)]))], lambda k: prod([D, at(k)]),
                          absorbed if "absorb" in g else None, g)
                tag = text(g + (("post_periods",) if post else ()) + (("reference_period",) if ref else ()))
                j = Judge(c, who, tag, periods)
                seen = 0
                done = set()
                for x in reach(mk("tuple", *F.get("period_effects", []))):
                    if x.op != "setitem" or x.a[2].op != "new" or x.id in done:
                        continue
                    done.add(x.id)
                    seen += effects(c, j, sp, x, given)
                if seen:
                    c.ob("designs", (who, tag))
                fitted(c, j, F, given)
                labels(c, j, F, given)


def effects(c, j, sp, x, given):
    """Effects filed under a period: the coefficient of that period's column."""
    n = 0

    def fn(w):
        N = Given(w.world, given)
        v = N.res(x.a[2])
        q = coefficient(N, attr(v, "effect"))
        per = attr(v, "period")
        return N, q, strip(N, attr(v, "effect")), N.res(per)
    try:
        for w, (N, q, t, per) in worlds(fn, 4000):
            if q is None:
                if not (t.op in ("c", "undef", "glob", "setitem") or t.op == "idx" and t.a[0].op == "setitem"):
                    c.undecide("%s%s: effect %s" % (j.who, j.tag, show(t, 3)))
                continue
            n += 1
            L = Layout(N)
            cols = j.design(L, sp, *q)
            key = N.res(x.a[1])
            if per.op == "elem" and key.op == "elem" and per is not key:
                j.find("period", "label", "an effect filed under one period names another", t)
            if cols is not None:
                j.target(L, sp, cols, q[0], q[2], key)
    except Overflow:
        c.undecide("%s%s: too many branches" % (j.who, j.tag))
    return n


def linreg(S, c):
    """LinearRegression and solve_ols fit the caller's matrix, with a leading constant when asked for."""
    e = S.find("LinearRegression.fit")
    for icpt in (True, False):
        r = analyze(S.P, e[1], e[2], options={"include_intercept": const(icpt)}, rust=False)
        F = {k.rstrip("_"): [r.I.snap(v)] for k, v in r.I.heap[r.selfref.loc].fields.items()}
        direct(c, Judge(c, "LinearRegression", "(intercept)" if icpt else "(no intercept)"), F, icpt)
    e = S.find("LinearRegression.predict")
    for icpt in (True, False):
        r = analyze(S.P, e[1], e[2], options={"include_intercept": const(icpt)}, rust=False)
        want = ([ONE] if icpt else []) + [P("X")]
        for w, v in worlds(lambda N: predicted(N, r.retterm), 2000):
            if v is None:
                continue
            c.ob("predictions", icpt)
            if v != want and all(x is ONE or x is P("X") for x in v):
                c.find("design:LinearRegression.predict:%s" % icpt, "predictions use the columns [%s], the fit [%s]" % (", ".join(map(name, v)), ", ".join(map(name, want))),
                       where="LinearRegression.predict")
    e = S.find("solve_ols")
    for full in (True, False):
        r = analyze(S.P, e[1], e[2], fixed={"return_fitted": const(full)}, rust=False)
        F = {}
        for t in tuples(r.retterm):
            ns = ["coefficients", "residuals", "fitted_values", "vcov"] if full else ["coefficients", "residuals", "vcov"]
            for k, v in zip(ns, t.a):
                F.setdefault(k, []).append(v)
        direct(c, Judge(c, "solve_ols", ""), F, False)


def predicted(N, t):
    t = deep(N, t)
    if t.op != "bin" or t.a[0] != "@":
        return None
    L = Layout(N)
    if L.strip(t.a[1]) is P("X"):
        return [P("X")]
    try:
        return [x[1] if x[0] == "col" else None for x in L.cols(t.a[1])]
    except Unknown:
        return None


def tuples(t):
    if t.op == "ite":
        yield from tuples(t.a[1])
        yield from tuples(t.a[2])
    elif t.op == "tuple":
        yield t


def direct(c, j, F, icpt):
    for t in F.get("coefficients", []):
        def fn(N):
            s = solved(N, t)
            if s is None:
                return None
            L = Layout(N)
            X = L.strip(s[0])
            if X is P("X"):
                return [X], L.strip(s[1])
            try:
                return [x[1] if x[0] == "col" else None for x in L.cols(X)], L.strip(s[1])
            except Unknown as u:
                return str(u), None
        for w, v in worlds(fn, 4000):
            if v is None:
                continue
            if type(v[0]) is str:
                if not v[0].startswith("part of a matrix"):
                    c.undecide("%s%s: %s" % (j.who, j.tag, v[0]))
                continue
            c.ob("designs", (j.who, j.tag))
            want = ([ONE] if icpt else []) + [P("X")]
            if v[0] != want and all(x is ONE or x is P("X") for x in v[0]):
                j.find("design", "columns", "the matrix fitted is [%s], documented [%s]" % (", ".join(map(name, v[0])), ", ".join(map(name, want))), t)
            if v[1] is not P("y"):
                c.undecide("%s%s: outcome %s" % (j.who, j.tag, show(v[1], 3)))
    fitted(c, j, F, set())


# ---- cohort by relative time
def fills(t, iters=(), conds=(), opened=()):
    """Writes of a loop nest: (what is iterated, under which conditions, kind, key, value, state before it)."""
    if t in opened:
        return
    if t.op == "mu":
        yield from fills(t.next, iters + (t.cond,), conds, opened + (t,))
    elif t.op == "ite":
        yield from fills(t.a[1], iters, conds + (t.a[0],), opened)
        yield from fills(t.a[2], iters, conds + (mk("not", t.a[0]),), opened)
    elif t.op == "setitem":
        yield iters, conds, "set", t.a[1], t.a[2], t.a[0]
        yield from fills(t.a[0], iters, conds, opened)
    elif t.op == "bin" and t.a[0] == "+":
        yield iters, conds, "add", t.a[1], t.a[2], t.a[1]
        yield from fills(t.a[1], iters, conds, opened)


def root(t):
    while t.op == "mu":
        t = t.init
    return t


def sunab(S, c):
    who = "SunAbraham"
    e = S.find(who + ".fit")
    for g in configs(("covariates",)):
        fx = {"n_bootstrap": const(0)}
        if not g:
            fx["covariates"] = NONE
        r = analyze(S.P, e[1], e[2], fixed=fx, rust=False)
        F = fields_of(r.retterm)
        given = {P(n) for n in g}
        j = Judge(c, who, text(g))
        done = set()
        for x in reach(mk("tuple", *F.get("cohort_effects", []))):
            if x.op != "setitem" or x.a[1].op != "tuple" or len(x.a[1].a) != 2 or x.id in done:
                continue
            done.add(x.id)

            def fn(w):
                N = Given(w.world, given)
                q = coefficient(N, x.a[2])
                if q is None:
                    return None
                L = Layout(N)
                try:
                    return N, L, q, L.col(q[1]), L.cols(q[0]), None
                except Reordered as u:
                    k = N.res(q[2])
                    return N, L, q, None, None, "sorted" if k.op == "idx" and N.res(k.a[0]).op == "mu" else str(u)
                except Unknown as u:
                    return N, L, q, None, None, str(u)
            try:
                for w, v in worlds(fn, 4000):
                    if v is None:
                        continue
                    if v[5] == "sorted":
                        j.find("order", "sorted", "the columns are sorted by name while coefficients are read in the order the cells were built", v[2][0])
                        continue
                    if v[5]:
                        c.undecide("%s: %s" % (who, v[5]))
                        continue
                    c.ob("designs", (who, g))
                    cohort(c, j, x, g, *v[:5])
            except Overflow:
                c.undecide(who + ": too many branches")


def cohort(c, j, x, g, N, L, q, y, cols):
    if y is not within(col("outcome")):
        (j.find("outcome", name(y), "the outcome used is %s" % name(y), q[1]) if known(y) else c.undecide("%s: outcome %s" % (j.who, show(y, 4))))
        return
    reps = [s for s in cols if s[0] == "rep"]
    if len(reps) != len(cols) or not reps or len(reps[0][2]) != 1 or reps[0][2][0][0] != "col":
        c.undecide("%s: columns" % j.who)
        return
    rest = []
    try:
        rest = Canon(L).segs(reps[1:])
    except Unknown as u:
        c.undecide("%s: %s" % (j.who, u))
    want = [within(mk("rep", P("covariates"), col("covariates", True)))] if g else []
    for t in rest:
        if t in want:
            want.remove(t)
        elif known(t):
            j.find("not-demeaned" if want and t is raw(want[0]) else "extra", name(t), "regressor %s is not part of the documented regression" % name(t), q[0])
        else:
            want = []
            c.undecide("%s: regressor %s" % (j.who, name(t)))
    for t in want:
        j.find("missing", name(t), "documented regressor %s is missing" % name(t), q[0])
    # the interaction columns
    d = L.over(reps[0][1])
    C = reps[0][2][0][1]
    core = raw(C)
    if C is core or within(core) is not C:
        if C is core:
            j.find("not-demeaned", "interactions", "the cohort-by-time indicators are used without taking unit and time means out", q[0])
        else:
            c.undecide("%s: indicator %s" % (j.who, show(C, 4)))
        return
    if core.op == "any":
        j.find("cell", "indicator", "the indicator of a cell is %s" % name(core), q[0])
        return
    if core.op != "prod" or len(core.a) != 2 or any(f.op != "eq" for f in core.a):
        c.undecide("%s: indicator %s" % (j.who, show(core, 4)))
        return
    gk = rk = None
    for f in core.a:
        el = [z for z in f.a if z.op == "elem"]
        ot = [z for z in f.a if z.op != "elem"]
        if len(el) != 1 or len(ot) != 1:
            continue
        o = ot[0]
        if o is col("first_treat"):
            gk = el[0]
        else:
            k = reltime(c, j, o)
            if k:
                rk = el[0]
    if gk is None or rk is None:
        c.undecide("%s: indicator %s" % (j.who, show(core, 4)))
        return
    c.ob("cohort-by-time columns", (j.who, j.tag))
    # the position a cell's coefficient is read from
    k = N.res(q[2])
    if k.op != "idx":
        c.undecide("%s: position %s" % (j.who, show(k, 3)))
        return
    M = N.res(k.a[0])
    ok = lockstep(c, j, N, L, M, d, gk, rk)
    if ok:
        key, own = N.res(x.a[1]), k.a[1]
        e = mk("elem", M, const(0))
        plain = own is key or L.over(own.a[0]) is M and own.op == "elem" if own.op in ("elem", "tuple") else False
        if key.op == "tuple" and plain and own.op == "elem":
            if [z.a[1] for z in key.a if z.op == "idx" and z.a[0] is own] == [const(1), const(0)]:
                j.find("cell", "swapped", "effects are filed under (relative time, cohort)", q[0])
        c.ob("cells", (j.who, j.tag, x.id))
    # the periods gone over
    refs(c, j, N, L, d, rk)


def reltime(c, j, o):
    """o is time since first treatment."""
    x = o
    if o.op == "when":
        x = o.a[1]
    f, t = col("first_treat"), col("time")
    if x is lin([(1, t), (-1, f)]):
        return True
    if known(x):
        j.find("reltime", name(x), "relative time is %s, not time - first_treat" % name(x), x)
        return True
    return False


def lockstep(c, j, N, L, M, d, gk, rk):
    """The position stored for (g, e) is the number of columns before the one built for (g, e)."""
    wd = list(fills(d))
    wm = list(fills(M))
    if len(wd) != 1 or len(wm) != 1 or wd[0][2] != "set" or wm[0][2] != "set":
        c.undecide("%s: column positions" % j.who)
        return False
    it, cond, _, key, val, before = wm[0]
    if it != wd[0][0]:
        c.undecide("%s: column positions" % j.who)
        return False
    if key.op != "tuple" or len(key.a) != 2:
        c.undecide("%s: cells" % j.who)
        return False
    if key.a != (gk, rk):
        if key.a == (rk, gk):
            return True
        c.undecide("%s: cells" % j.who)
        return False
    if cond != wd[0][1]:
        j.find("cell", "condition", "a position is recorded for cells without a column", val)
        return False
    v = N.res(val)
    off = 0
    if v.op == "bin" and v.a[0] in "+-" and is_const(v.a[2]):
        off = cval(v.a[2]) * (1 if v.a[0] == "+" else -1)
        v = v.a[1]
    if v.op == "call" and v.a[0] == "builtins.len" and len(v.a) == 2:
        s = v.a[1]
        if s is wd[0][5]:
            pass
        elif s.op == "setitem" and s.a[0] is wd[0][5]:
            off += 1
        else:
            c.undecide("%s: column positions" % j.who)
            return False
    elif v.op == "mu":
        # the counter: same loops, same conditions, one per column
        top = v
        while top.init.op == "mu":
            top = top.init
        wc = list(fills(top))
        if len(wc) != 1 or wc[0][2] != "add" or wc[0][0] != it or not is_const(wc[0][4]) or wc[0][3] is not v or not is_const(root(top)):
            c.undecide("%s: column positions" % j.who)
            return False
        if wc[0][1] != wd[0][1]:
            j.find("cell", "counter", "the position counter advances for cells without a column", val)
            return False
        if cval(wc[0][4]) != 1:
            j.find("cell", "counter", "the position counter advances by %s per column" % cval(wc[0][4]), val)
            return False
        off += cval(root(top))
    else:
        c.undecide("%s: column positions" % j.who)
        return False
    if off:
        j.find("cell", "offset", "a cell's coefficient is read %+d columns away from its own" % off, val)
        return False
    return True


def refs(c, j, N, L, d, rk):
    """The relative times estimated leave out the reference period -1 - anticipation, and only it (and far ends)."""
    its = [w[0] for w in fills(d)]
    it = None
    for i in (its[0] if its else ()):
        x = N.res(i)
        if x.op == "comp" and x.a[1] is rk or L.over(x) is L.over(rk.a[0]):
            it = x
    if it is None:
        c.undecide("%s: relative times" % j.who)
        return
    if it.op != "comp":
        j.find("reference", "included", "the reference period is among the relative times estimated", it)
        return
    cs = []

    def flat(k):
        if k.op == "and":
            for z in k.a:
                flat(z)
        else:
            cs.append(k)
    for k in next(z for z in it.a if type(z) is T and z.op == "conds").a:
        flat(k)
    want = N.n(mk("bin", "-", const(-1), mk("cfg", "anticipation")))
    hit = False
    for k in cs:
        e = k.a[0] if k.op == "not" else None
        if e is not None and e.op == "eq" and rk in e.a:
            o = [z for z in e.a if z is not rk]
            p = N.n(o[0])
            if p == want:
                hit = True
            elif all(a[0] == "t" and byid(a[1]).op in ("cfg", "param") for a in p.atoms()):
                j.find("reference", "period", "the relative time left out is %s, not -1 - anticipation" % show(o[0], 3), it)
                hit = True
        elif k.op == "eq" and rk in k.a:
            j.find("reference", "only", "only the reference period is estimated", it)
        elif k.op in ("lt", "le") and rk in k.a:
            o = [z for z in k.a if z is not rk]
            p = N.n(o[0]) if o else None
            if p is not None and (p.isconst() and abs(p.value()) < 20 or not p.isconst() and all(a[0] == "t" and byid(a[1]) is mk("cfg", "anticipation") for a in p.atoms())):
                j.find("reference", "cut", "relative times beyond %s are left out" % show(o[0], 3), it)
    c.ob("reference periods", (j.who, j.tag))
    if not hit:
        j.find("reference", "included", "the reference period is among the relative times estimated", it)


def run(S, c):
    c.rule("Rule: the matrix handed to the least-squares solver by each regression estimator is read column by column (which input "
           "column, product, dummy or demeaned variable it holds) and compared with the documented design, in every combination of "
           "optional arguments; the reported effect is the coefficient at the position of the documented column; residuals are y - Xb.")
    S = S.python()
    for inf in ("analytical", "wild_bootstrap"):
        simple(S, c, "DifferenceInDifferences.fit", {"inference": inf}, {"formula": NONE}, ("covariates", "fixed_effects", "absorb"),
               lambda g: Spec("DifferenceInDifferences", [ONE, D, T_, prod([D, T_])], prod([D, T_]), absorbed if "absorb" in g else None, g))
    simple(S, c, "TwoWayFixedEffects.fit", {"inference": "analytical"}, {}, ("covariates",),
           lambda g: Spec("TwoWayFixedEffects", [ONE, prod([D, T_])], prod([D, T_]), within, g))
    simple(S, c, "TripleDifference.fit", {"estimation_method": "reg"}, {}, ("covariates",),
           lambda g: Spec("TripleDifference", [ONE, G, PT, T_, prod([G, PT]), prod([G, T_]), prod([PT, T_]), prod([G, PT, T_])],
                          prod([G, PT, T_]), None, g))
    multiperiod(S, c)
    linreg(S, c)
    sunab(S, c)
    c.floor("designs", 8)
