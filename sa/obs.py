"""Observation-level values by cell: what an array holds for one observation of each cell of a finite partition,
as an expression in that observation's own quantities and in sums over cells.  Holds for any number of observations per cell."""
import random
from .terms import *
from .sym import Sym, args, sp, Opaque
from .alg import Need

PASS = {"numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.asanyarray", "builtins.float", "numpy.float64", "numpy.ravel", "numpy.squeeze",
        "numpy.nan_to_num", "builtins.list", "builtins.tuple", "numpy.copy", "numpy.atleast_1d"}
PASSM = {"copy", "astype", "to_numpy", "ravel", "flatten", "squeeze", "item", "tolist"}
LS = {"scipy.linalg.lstsq", "numpy.linalg.lstsq"}
clip = sp.Function("clip", real=True, positive=True)


class Unread(Exception):
    pass


class Wrong(Unread):
    """Readable, and combines quantities that do not belong together."""


class Obs:
    """cells: tuple of cells (in storage order if `ordered`, else interleaved); val: {cell: expression or bool}."""

    def __init__(self, cells, val, ordered=False):
        self.cells, self.val, self.ordered = tuple(cells), val, ordered

    def map(self, f):
        return Obs(self.cells, {k: f(self.val[k]) for k in self.cells}, self.ordered)

    def boolean(self):
        return all(isinstance(self.val[k], bool) for k in self.cells)


class Mat:
    """Covariates of the observations in `cells`."""

    def __init__(self, cells, ordered=False):
        self.cells, self.ordered = tuple(cells), ordered


class Des:
    """Columns side by side."""

    def __init__(self, cols):
        self.cols = cols
        self.cells = cols[0].cells

    def key(self):
        return tuple("X" if isinstance(c, Mat) else tuple(str(c.val[k]) for k in c.cells) and ("1" if all(c.val[k] == 1 for k in c.cells) else
                     str([(k, str(c.val[k])) for k in c.cells])) for c in self.cols)


class Coef:
    """undefined: entries of dropped columns are NaN."""

    def __init__(self, kind, key, form, undefined=False):
        self.kind, self.key, self.form, self.undefined = kind, key, form, undefined

    def defined(self):
        return Coef(self.kind, self.key, self.form)


class NanMask:
    def __init__(self, of):
        self.of = of


class Trans:
    def __init__(self, x):
        self.x = x


class Xsum:
    """Design' times values."""

    def __init__(self, form, val):
        self.form, self.val = form, val


def num01(v):
    return sp.Integer(int(v)) if isinstance(v, bool) else v


def isobs(s):
    return s.name.startswith("o:")


def own(x):
    return x.is_Symbol and isobs(x) or any(isobs(s) for s in x.free_symbols)


class Cells(Sym):
    """leaf2(t, N) -> Obs | Mat | expression | None names what is given."""

    def __init__(self, I, cells, given, assume=None, world=None, deficient=False):
        self.deficient = deficient
        self.I, self.universe, self.given = I, tuple(cells), given
        self.assume2 = assume
        self.sums = {}
        self.lets = {}
        self.fits = {}
        self.resp = {}
        self.vals = {}
        self.calls = 0
        super().__init__(world, assume=self.assume1)

    # ---- sums
    def num(self, k):
        return sp.Symbol("n_%s" % (k,), positive=True, integer=True)

    def count(self, cells):
        if set(cells) == set(self.universe) and len(cells) > 2:
            return sp.Symbol("n_all", positive=True, integer=True)
        return sum((self.num(k) for k in cells), sp.Integer(0))

    def hide(self, v):
        """A name for a compound number, so that sums are expanded in what varies between observations only."""
        v = num01(v)
        if own(v) or not v.free_symbols or not v.has(sp.Add):
            return v
        s = self.lets.get(v)
        if s is None:
            s = self.lets[v] = sp.Symbol("L%d" % len(self.lets), **({"positive": True} if v.is_positive else {"real": True}))
        return s

    def canon(self, e):
        e = sp.sympify(e)
        if any(q.is_Pow and q.exp.is_negative and q.base.is_Add and own(q.base) for q in sp.preorder_traversal(e)):
            e = sp.cancel(sp.together(e))
        return sp.expand(e)

    def S(self, k, e):
        e = self.canon(num01(e))
        out = sp.Integer(0)
        for t in sp.Add.make_args(e):
            sc, ob = [], []
            for f in sp.Mul.make_args(t):
                if own(f):
                    for g in self.primitive(f):
                        (ob if own(g) else sc).append(g)
                else:
                    sc.append(f)
            if not ob:
                out += sp.Mul(*sc) * self.num(k)
                continue
            ob = sp.Mul(*ob)
            s = self.sums.get((k, ob))
            if s is None:
                s = self.sums[k, ob] = sp.Symbol("S%d" % len(self.sums), **({"positive": True} if ob.is_positive else {"real": True}))
            out += sp.Mul(*sc) * s
        return out

    def primitive(self, f):
        """Factors of f with what does not vary between observations, and the sign, taken out of sums."""
        b, x = f.as_base_exp()
        if not b.is_Add or not x.is_Integer:
            return [f]
        out = []
        for g in sp.Mul.make_args(sp.factor_terms(b)):
            if own(g) and g.is_Add and g.could_extract_minus_sign():
                out.append(sp.Integer(-1) ** x)
                g = -g
            out.append(g ** x)
        return out

    def total(self, v):
        return sum((self.S(k, v.val[k]) for k in v.cells), sp.Integer(0))

    # ---- conditions
    def assume1(self, t, N):
        if self.assume2 is not None:
            v = self.assume2(t, self)
            if v is not None:
                return v
        if t.op in ("exc", "excpart"):
            return False
        if t.op in ("lt", "le", "eq"):
            try:
                x, y = [self.go(z) for z in t.a]
            except (Unread, Opaque):
                # designs of full rank, or not
                if any(x.op == "call" and x.a[0] == "scipy.linalg.qr" for x in reach([t])):
                    v = t.op == "eq" if self.rankish(t) else False
                    return not v if self.deficient and any(x.op == "call" and x.a[0] in ("numpy.sum", "builtins.len", "numpy.count_nonzero") for x in t.a) else v
                return None
            if isinstance(x, (Obs, Mat, Des)) or isinstance(y, (Obs, Mat, Des)) or not isinstance(x, sp.Basic) or not isinstance(y, sp.Basic):
                return None
            d = sp.expand(y - x)
            if d.is_number:
                return bool(d == 0) if t.op == "eq" else bool(d > 0) if t.op == "lt" else bool(d >= 0)
            # groups have several members, and what is measured varies
            pos = self.positive(d)
            if pos is not None:
                return False if t.op == "eq" else pos
        if t.op == "call" and t.a[0] in ("numpy.any", "builtins.any") and len(t.a) == 2:
            try:
                x = self.go(t.a[1])
                if isinstance(x, NanMask):
                    return x.of.undefined
            except (Unread, Opaque):
                pass
        if t.op == "call" and t.a[0] in ("numpy.any", "builtins.any") and any(x.op == "call" and x.a[0] in ("numpy.isnan", "numpy.isinf") for x in reach([t])):
            return False
        if t.op == "call" and t.a[0] in ("numpy.all", "builtins.all") and any(x.op == "call" and x.a[0] == "numpy.isfinite" for x in reach([t])):
            return True
        if t.op == "call" and t.a[0] in ("numpy.isnan", "numpy.isinf"):
            return False
        if t.op == "call" and t.a[0] == "numpy.isfinite":
            return True
        return None

    def rankish(self, t):
        return any(x.op == "attr" and x.a[1] == "shape" for x in t.a for x in reach([x]))

    def positive(self, d):
        """Sign of counts and sums against constants: more than two members, positive totals."""
        d = sp.expand(d)
        k = d.as_coefficients_dict().get(sp.Integer(1), 0)
        r = d - k
        for s, v in ((r, True), (-r, False)):
            if s.is_positive or s.is_Add and all(x.is_positive for x in s.args) or s.is_Mul and s.is_positive:
                if abs(k) <= 3:
                    return v
            if k == 0 and (s.is_nonnegative or s.is_Pow and s.exp == sp.Rational(1, 2)):
                return v
        got = {self.sample(d, seed) for seed in range(5)}
        return got.pop() if len(got) == 1 else None

    def sample(self, d, seed):
        """Sign on made-up observations: what holds on all of them is taken as the ordinary case."""
        rng = random.Random(seed)
        size = {k: rng.randint(5, 9) for k in self.universe}
        data, num = {}, {}
        names = {s: e for e, s in self.lets.items()}
        back = {s: e for e, s in self.sums.items()}

        def cl(x, lo, hi):
            return min(max(x, lo), hi)

        def val(e, k=None, i=None):
            at = {}
            for s in sorted(e.free_symbols, key=str):
                if isobs(s):
                    at[s] = data.setdefault((s, k, i), rng.gauss(0.3, 1))
                    continue
                if s not in num:
                    if s in names:
                        num[s] = val(names[s])
                    elif s in back:
                        q, v = back[s]
                        num[s] = sum(val(v, q, j) for j in range(size[q]))
                    else:
                        q = [c for c in self.universe if self.num(c) == s]
                        num[s] = float(size[q[0]] if q else sum(size.values()) if s.name == "n_all" else rng.uniform(0.01, 0.05))
                at[s] = num[s]
            f = e.xreplace({s: sp.Float(v) for s, v in at.items()})
            return float(f.replace(clip, cl))
        try:
            return val(sp.sympify(d)) > 0
        except (TypeError, ValueError, ZeroDivisionError):
            return None

    # ---- values
    def go(self, t):
        while t.op == "ite" and truth(t.a[0]) is None:
            t = t.a[1] if self.cond(t.a[0]) else t.a[2]
        t = self.res(t)
        r = self.vals.get(t.id)
        if r is None:
            r = self.given(t, self)
            if r is None:
                r = self.eval(t)
            self.vals[t.id] = r
        return r

    def bc(self, x, y, f):
        if isinstance(x, Obs) and isinstance(y, Obs):
            x, y = self.align(x, y)
            return Obs(x.cells, {k: f(self.hide(x.val[k]), self.hide(y.val[k])) for k in x.cells}, x.ordered)
        if isinstance(x, Obs) and isinstance(y, sp.Basic):
            y = self.hide(y)
            return x.map(lambda v: f(self.hide(v), y))
        if isinstance(y, Obs) and isinstance(x, sp.Basic):
            x = self.hide(x)
            return y.map(lambda v: f(x, self.hide(v)))
        if isinstance(x, sp.Basic) and isinstance(y, sp.Basic):
            return f(x, y)
        raise Unread("operands")

    def align(self, *xs):
        """The same arrays, rows in one order; a constant array takes any order."""
        if len({frozenset(x.cells) for x in xs}) != 1:
            raise Unread("arrays over %s" % " and ".join(str(x.cells) for x in xs))
        o = [x for x in xs if x.ordered]
        if not o:
            return xs
        out = []
        for x in xs:
            if x.ordered and x.cells == o[0].cells:
                out.append(x)
            elif isinstance(x, Obs) and not x.ordered and len({x.val[k] for k in x.cells}) == 1 and not own(sp.sympify(num01(x.val[x.cells[0]]))):
                out.append(Obs(o[0].cells, x.val, True))
            else:
                raise (Wrong if x.ordered else Unread)("rows of groups %s are paired with rows of groups %s" % (", ".join(o[0].cells), ", ".join(x.cells)))
        return out

    def arr(self, t):
        v = self.go(t)
        if not isinstance(v, Obs):
            raise Unread("array " + show(t, 3)[:80])
        return v

    def sc(self, t):
        v = self.go(t)
        if not isinstance(v, sp.Basic):
            raise Unread("number " + show(t, 3)[:80])
        return v

    def over(self, t):
        """Array of the length (or shape) given."""
        x = self.sc(t)
        for m in range(1, 1 << len(self.universe)):
            cs = [k for i, k in enumerate(self.universe) if m >> i & 1]
            if sp.expand(self.count(cs) - x) == 0:
                return tuple(cs)
        raise Unread("length " + show(t, 3)[:80])

    def e(self, t):
        return self.sc(t)

    def fn(self, v, f):
        return v.map(lambda x: f(num01(x))) if isinstance(v, Obs) else f(v)

    def _div(self, x, y):
        return x / y

    def eval(self, t):
        o, a = t.op, t.a
        if o == "c":
            v = cval(t)
            if isinstance(v, bool):
                return sp.Integer(int(v))
            if isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
                return sp.Integer(v) if isinstance(v, int) else sp.Rational(repr(v))
            raise Unread("constant " + show(t, 1))
        if o == "bin":
            if a[0] in ("&", "|", "^"):
                x, y = self.arr(a[1]), self.arr(a[2])
                if not x.boolean() or not y.boolean():
                    raise Unread("mask")
                return Obs(x.cells, {k: bool({"&": x.val[k] and y.val[k], "|": x.val[k] or y.val[k], "^": x.val[k] != y.val[k]}[a[0]]) for k in x.cells}, x.ordered)
            x, y = self.go(a[1]), self.go(a[2])
            if a[0] == "@":
                return self.mm(x, y)
            ops = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q, "**": lambda p, q: p ** q}
            if a[0] in ops:
                return self.bc(x, y, ops[a[0]])
            raise Unread("operator " + a[0])
        if o == "un":
            x = self.go(a[1])
            if a[0] == "-" and isinstance(x, Xsum):
                return Xsum(x.form, x.val.map(lambda v: -num01(v)))
            if a[0] == "-" and isinstance(x, Trans):
                return Trans(("neg", x.x))
            if a[0] == "-":
                return self.fn(x, lambda v: -v)
            if a[0] == "~" and isinstance(x, Obs) and x.boolean():
                return x.map(lambda v: not v)
        if o == "not":
            x = self.go(a[0])
            if isinstance(x, Obs) and x.boolean():
                return x.map(lambda v: not v)
        if o in ("eq", "lt", "le"):
            x, y = self.go(a[0]), self.go(a[1])
            if isinstance(x, Obs) or isinstance(y, Obs):
                r = self.bc(x, y, lambda p, q: (p, q))
                out = {}
                for k in r.cells:
                    d = sp.simplify(r.val[k][1] - r.val[k][0])
                    if not d.is_number:
                        raise Unread("comparison " + show(t, 3)[:80])
                    out[k] = bool(d == 0 if o == "eq" else d > 0 if o == "lt" else d >= 0)
                return Obs(r.cells, out, r.ordered)
        if o in ("and", "or"):
            xs = [self.go(x) for x in a]
            if all(isinstance(x, Obs) and x.boolean() for x in xs):
                f = all if o == "and" else any
                return Obs(xs[0].cells, {k: f(x.val[k] for x in xs) for k in xs[0].cells}, xs[0].ordered)
        if o == "attr":
            if a[1] == "T":
                return Trans(self.go(a[0]))
            if a[1] == "size":
                return self.count(self.go(a[0]).cells)
            if a[1] == "values":
                return self.go(a[0])
            if a[1] == "x" and a[0].op == "call" and a[0].a[0] == "scipy.optimize.minimize":
                return self.logit(a[0])
        if o == "idx":
            return self.index(t)
        if o == "setitem":
            return self.store(t)
        if o == "m":
            if a[1] in PASSM:
                return self.go(a[0])
            p, k = args(t, 2)
            if a[1] in ("std", "var") and "ddof" not in k and not any(
                    x.op == "attr" and x.a[1] == "values" or x.op == "m" and x.a[1] in ("to_numpy",) or x.op == "call" and x.a[0].startswith("numpy.")
                    for x in reach([a[0]])):
                raise Unread("%s() of a series or an array" % a[1])
            if a[1] in ("sum", "mean", "std", "var", "dot", "any", "all", "clip"):
                return self.red(("numpy." + a[1]), [a[0]] + p, k, t)
        if o == "call":
            p, k = args(t)
            return self.red(a[0], p, k, t)
        raise Unread("%s %s" % (o, show(t, 3)[:80]))

    def red(self, f, p, k, t):
        if f == "numpy.nan_to_num":
            v = self.go(p[0])
            return v.defined() if isinstance(v, Coef) else v
        if f in ("numpy.isnan", "pandas.isna", "pandas.isnull"):
            v = self.go(p[0])
            if isinstance(v, Coef):
                return NanMask(v)
        if f == "numpy.where" and len(p) == 3:
            c = self.go(p[0])
            if isinstance(c, NanMask):
                x, y = self.go(p[1]), self.go(p[2])
                if isinstance(x, sp.Basic) and x == 0 and isinstance(y, Coef) and y.key == c.of.key:
                    return y.defined()
                raise Unread("where")
        if f in PASS:
            return self.go(p[0])
        if f == "builtins.int":
            return self.sc(p[0])
        if f == "builtins.len":
            v = self.go(p[0])
            if isinstance(v, (Obs, Mat, Des)):
                return self.count(v.cells)
        if f in ("numpy.zeros", "numpy.ones", "numpy.empty"):
            s = self.res(p[0])
            if s.op == "tuple" and len(s.a) == 1:
                s = s.a[0]
            cs = self.over(s)
            return Obs(cs, {c: sp.Integer(1 if f == "numpy.ones" else 0) for c in cs}, len(cs) == 1)
        if f == "numpy.full":
            cs = self.over(p[0])
            v = self.sc(p[1])
            return Obs(cs, {c: v for c in cs}, len(cs) == 1)
        if f in ("numpy.zeros_like", "numpy.ones_like", "numpy.full_like"):
            x = self.arr(p[0])
            v = sp.Integer(0 if "zeros" in f else 1) if len(p) == 1 else self.sc(p[1])
            return x.map(lambda _: v)
        if f in ("numpy.sum", "builtins.sum", "numpy.nansum", "numpy.count_nonzero"):
            xs = self.items(p[0])
            if xs is not None:
                return sum((self.sc(x) for x in xs), sp.Integer(0))
            v = self.go(p[0])
            if isinstance(v, Obs) and set(k) <= {"axis"}:
                return self.total(v)
            raise Unread("sum")
        if f in ("numpy.mean", "numpy.nanmean", "numpy.average"):
            v = self.arr(p[0])
            w = k.get("weights")
            if w is not None:
                w = self.arr(w)
                return self.total(self.bc(v, w, lambda x, y: x * y)) / self.total(w)
            return self.total(v) / self.count(v.cells)
        if f in ("numpy.var", "numpy.std"):
            v = self.arr(p[0])
            d = k.get("ddof")
            d = self.sc(d) if d is not None else sp.Integer(0)
            n = self.count(v.cells)
            r = (self.total(v.map(lambda x: num01(x) ** 2)) - self.total(v) ** 2 / n) / (n - d)
            return r if f == "numpy.var" else sp.sqrt(r)
        if f in ("numpy.sqrt", "math.sqrt"):
            return self.fn(self.go(p[0]), sp.sqrt)
        if f in ("numpy.power", "math.pow", "numpy.float_power"):
            return self.bc(self.go(p[0]), self.go(p[1]), lambda x, y: x ** y)
        if f == "numpy.reciprocal":
            return self.fn(self.go(p[0]), lambda x: 1 / x)
        if f in ("numpy.square",):
            return self.fn(self.go(p[0]), lambda x: x ** 2)
        if f in ("numpy.exp", "math.exp"):
            return self.fn(self.go(p[0]), sp.exp)
        if f in ("numpy.log", "math.log"):
            return self.fn(self.go(p[0]), sp.log)
        if f == "numpy.log1p":
            return self.fn(self.go(p[0]), lambda x: sp.log(1 + x))
        if f == "numpy.logaddexp":
            return self.bc(self.go(p[0]), self.go(p[1]), lambda x, y: sp.log(sp.exp(x) + sp.exp(y)))
        if f == "scipy.special.expit":
            return self.fn(self.go(p[0]), lambda x: 1 / (1 + sp.exp(-x)))
        if f in ("numpy.abs", "numpy.absolute", "builtins.abs"):
            return self.fn(self.go(p[0]), sp.Abs)
        if f in ("numpy.multiply", "numpy.divide", "numpy.true_divide", "numpy.subtract", "numpy.add"):
            g = {"mult": lambda x, y: x * y, "divi": lambda x, y: x / y, "true": lambda x, y: x / y, "subt": lambda x, y: x - y, "add": lambda x, y: x + y}
            return self.bc(self.go(p[0]), self.go(p[1]), g[f[6:10]])
        if f in ("numpy.negative",):
            return self.fn(self.go(p[0]), lambda x: -x)
        if f == "numpy.clip":
            lo = p[1] if len(p) > 1 else k.get("a_min", k.get("min"))
            hi = p[2] if len(p) > 2 else k.get("a_max", k.get("max"))
            lo, hi = self.sc(lo), self.sc(hi)
            if lo.is_number and hi.is_number and lo <= -30 and hi >= 30:
                return self.go(p[0])          # against overflow only
            return self.fn(self.go(p[0]), lambda x: clip(sp.cancel(x) if not x.atoms(sp.Function) else x, lo, hi))
        if f in ("numpy.logical_and", "numpy.logical_or"):
            return self.go(mk("bin", "&" if f.endswith("and") else "|", p[0], p[1]))
        if f == "numpy.logical_not":
            return self.go(p[0]).map(lambda v: not v)
        if f == "numpy.where" and len(p) == 3:
            c = self.arr(p[0])
            x, y = self.go(p[1]), self.go(p[2])
            return Obs(c.cells, {q: num01((x.val[q] if isinstance(x, Obs) else x) if c.val[q] else (y.val[q] if isinstance(y, Obs) else y)) for q in c.cells}, c.ordered)
        if f in ("numpy.dot", "numpy.matmul", "numpy.inner", "numpy.vdot"):
            return self.mm(self.go(p[0]), self.go(p[1]))
        if f in ("numpy.column_stack", "numpy.hstack", "numpy.c_"):
            s = self.res(p[0])
            if s.op in ("list", "tuple"):
                cols = []
                for x in s.a:
                    v = self.go(x)
                    if isinstance(v, Des):
                        cols += v.cols
                    elif isinstance(v, (Obs, Mat)):
                        cols.append(v)
                    else:
                        raise Unread("column")
                if f == "numpy.hstack" and all(isinstance(c, Obs) for c in cols):
                    return self.cat(cols)
                return Des(self.align(*cols))
        if f in ("numpy.concatenate", "numpy.vstack", "numpy.append", "numpy.r_"):
            s = self.res(p[0])
            xs = list(s.a) if f != "numpy.append" else [p[0], p[1]]
            if s.op in ("list", "tuple") or f == "numpy.append":
                return self.cat([self.go(x) for x in xs])
        if f in ("builtins.max", "builtins.min") and len(p) == 2:
            x, y = self.sc(p[0]), self.sc(p[1])
            d = self.positive(sp.expand(x - y))
            if d is not None:
                return x if d == (f == "builtins.max") else y
            return self.atom(f[-3:], x, y)
        raise Unread("call " + f)

    def items(self, t):
        """Entries of a list written out or appended to, one by one."""
        while t.op == "ite" and truth(t.a[0]) is None:
            t = t.a[1] if self.cond(t.a[0]) else t.a[2]
        t = self.res(t)
        if t.op in ("list", "tuple"):
            return list(t.a)
        if t.op == "append":
            xs = self.items(t.a[0])
            return None if xs is None else xs + [t.a[1]]
        return None

    def cat(self, xs):
        cells = [c for x in xs for c in x.cells]
        if len(set(cells)) != len(cells) or any(len(x.cells) > 1 and not x.ordered for x in xs):
            raise Unread("blocks joined")
        if all(isinstance(x, Obs) for x in xs):
            return Obs(cells, {c: num01(x.val[c]) for x in xs for c in x.cells}, True)
        if all(isinstance(x, Mat) for x in xs):
            return Mat(cells, True)
        if all(isinstance(x, Des) for x in xs) and len({len(x.cols) for x in xs}) == 1:
            return Des([self.cat([x.cols[i] for x in xs]) for i in range(len(xs[0].cols))])
        raise Unread("blocks joined")

    def mm(self, x, y):
        if isinstance(x, Des) and isinstance(y, Coef) and y.undefined:
            raise Wrong("predictions use the undefined coefficients of dropped columns")
        if isinstance(x, Trans) and isinstance(x.x, tuple) and x.x[0] == "neg":
            r = self.mm(Trans(x.x[1]), y)
            return Xsum(r.form, r.val.map(lambda v: -num01(v))) if isinstance(r, Xsum) else -r
        if isinstance(x, Trans) and isinstance(x.x, Des) and isinstance(y, Obs):
            return Xsum(x.x.key(), y)
        if isinstance(x, Des) and isinstance(y, Coef):
            if x.key() != y.form:
                raise (Wrong if len(x.key()) == len(y.form) else Unread)("a model fitted on columns %s predicts from columns %s" % (", ".join(y.form), ", ".join(x.key())))
            s = sp.Symbol("o:%s" % self.fitname(y), real=True)
            order = x.cols[0].ordered
            return Obs(x.cells, {k: s for k in x.cells}, order)
        if isinstance(x, Trans) and isinstance(x.x, Obs):
            x = x.x
        if isinstance(x, Obs) and isinstance(y, Obs):
            return self.total(self.bc(x, y, lambda p, q: p * q))
        raise Unread("product")

    def fitname(self, c):
        k = (c.kind, c.key)
        return self.fits.setdefault(k, "%s%d" % (c.kind, len(self.fits)))

    def regression(self, design, y):
        """Coefficients of least squares of y on design."""
        if not isinstance(design, Des) or not isinstance(y, Obs) or set(design.cells) != set(y.cells):
            raise Unread("regression")
        key = (tuple(sorted((str(k), str(self.canon(num01(y.val[k])))) for k in y.cells)), design.key())
        self.resp[key] = {k: num01(y.val[k]) for k in y.cells}
        return Coef("mu", key, design.key())

    def logit(self, t):
        p, k = args(t)
        fun, x0 = p[0] if p else k.get("fun"), p[1] if len(p) > 1 else k.get("x0")
        if fun is None or fun.op != "func":
            raise Unread("objective")
        key0 = ("logit", fun.id)
        if key0 in self.fits:
            return self.fits[key0]
        self.calls += 1
        b = mk("param", "coefficients@%d" % fun.id)
        body = self.I.snap(self.I.call(fun, [b], {}, None))
        outer = self.given
        form = []

        def given(t, N):
            if t is b:
                return Coef("z", ("arg", fun.id), form)
            return outer(t, N)

        class AnyForm(list):
            pass
        self.given = given
        old = self.mm

        def mm(x, y):
            if isinstance(x, Des) and isinstance(y, Coef) and y.kind == "z":
                form.append(x)
                return Obs(x.cells, {q: sp.Symbol("o:z", real=True) for q in x.cells}, x.cols[0].ordered)
            return old(x, y)
        self.mm = mm
        try:
            nll = self.sc(body)
            jac = k.get("jac")
            g = None
            if jac is not None and jac.op == "func":
                b2 = self.I.snap(self.I.call(jac, [b], {}, None))
                g = self.go(b2)
        finally:
            self.given, self.mm = outer, old
            del self.__dict__["mm"]
        if not form or len({(f.key(), f.cells) for f in form}) != 1:
            raise Unread("logistic design")
        des = form[0]
        z = sp.Symbol("o:z", real=True)
        rest = sp.expand(nll)
        scale = rest.coeff(self.S(des.cells[0], sp.log(1 + sp.exp(z))))
        if not scale.is_positive:
            raise Wrong("the objective of the propensity model is not the logistic likelihood: %s" % rest)
        D = {c: sp.cancel(-rest.coeff(self.S(c, z)) / scale) for c in des.cells}
        want = -sum((self.S(c, D[c] * z - sp.log(1 + sp.exp(z))) for c in des.cells), sp.Integer(0))
        if sp.simplify(rest - scale * want) != 0 or any(v not in (0, 1) for v in D.values()):
            raise Wrong("the objective of the propensity model is not the logistic likelihood: %s" % rest)
        D = {c: int(v) for c, v in D.items()}
        if g is not None:
            if not isinstance(g, Xsum) or g.form != des.key():
                raise Unread("gradient of the logistic likelihood")
            if any(sp.simplify(num01(g.val.val[c]) + scale * (D[c] - 1 / (1 + sp.exp(-z)))) != 0 for c in des.cells):
                raise Wrong("the gradient handed to the propensity model is not that of its likelihood")
        r = Coef("logit", (tuple(sorted((str(c), D[c]) for c in des.cells)), des.key()), des.key())
        self.fits[key0] = r
        return r

    def index(self, t):
        o, i = t.a
        oo = self.res(o)
        if oo.op == "call" and oo.a[0] in LS and is_const(i) and cval(i) == 0:
            p, _ = args(oo)
            return self.regression(self.go(p[0]), self.go(p[1]))
        if oo.op == "attr" and oo.a[1] == "shape" and is_const(i):
            v = self.go(oo.a[0])
            if cval(i) == 0:
                return self.count(v.cells)
            if isinstance(v, Mat):
                return sp.Symbol("covariates", positive=True, integer=True)
            if isinstance(v, Des):
                return sum((sp.Symbol("covariates", positive=True, integer=True) if isinstance(c, Mat) else sp.Integer(1) for c in v.cols), sp.Integer(0))
        if oo.op in ("setitem", "dict"):
            r = self.lookup(oo, i)
            if r is not None:
                return self.go(r)
        x = self.go(o)
        ii = self.res(i)
        if ii.op == "slice":
            return self.cut(x, ii)
        if ii.op == "tuple" and len(ii.a) == 2 and self.res(ii.a[1]).op == "slice" and all(z is NONE for z in self.res(ii.a[1]).a):
            ii = self.res(ii.a[0])
            if ii.op == "slice":
                return self.cut(x, ii)
        if ii.op == "tuple" and len(ii.a) == 2 and isinstance(x, Des) and self.res(ii.a[0]).op == "slice" and all(z is NONE for z in self.res(ii.a[0]).a) \
                and any(y.op == "call" and y.a[0] == "scipy.linalg.qr" for y in reach([ii.a[1]])):
            return x             # the columns kept
        m = self.go(ii)
        if isinstance(m, Obs) and m.boolean():
            return self.pick(x, m)
        raise Unread("index " + show(t, 3)[:80])

    def pick(self, x, m):
        cs = tuple(c for c in x.cells if m.val.get(c))
        if set(m.cells) != set(x.cells) or not cs:
            raise Unread("mask of another array")
        if isinstance(x, Obs):
            return Obs(cs, {c: x.val[c] for c in cs}, x.ordered or len(cs) == 1)
        if isinstance(x, Mat):
            return Mat(cs, x.ordered or len(cs) == 1)
        if isinstance(x, Des):
            return Des([self.pick(c, m) for c in x.cols])
        raise Unread("masked")

    def cut(self, x, s):
        if s.a[2] is not NONE:
            raise Unread("step")
        if isinstance(x, Des):
            return Des([self.cut(c, s) for c in x.cols])
        n = self.count(x.cells)
        lo = sp.Integer(0) if s.a[0] is NONE else self.sc(s.a[0])
        hi = n if s.a[1] is NONE else self.sc(s.a[1])
        lo, hi = [n + z if z.could_extract_minus_sign() else z for z in (lo, hi)]
        if not x.ordered:
            raise Unread("slice of interleaved observations")
        at, pos = {sp.Integer(0): 0}, sp.Integer(0)
        for i, c in enumerate(x.cells):
            pos = sp.expand(pos + self.num(c))
            at[pos] = i + 1
        lo, hi = sp.expand(lo), sp.expand(hi)
        if lo not in at or hi not in at or at[lo] >= at[hi]:
            raise (Wrong if all(self.counts(z) for z in (lo, hi)) else Unread)("rows %s to %s of groups %s do not begin and end where a group does" % (
                lo, hi, ", ".join(x.cells)))
        cs = x.cells[at[lo]:at[hi]]
        return Obs(cs, {c: x.val[c] for c in cs}, True) if isinstance(x, Obs) else Mat(cs, True)

    def counts(self, z):
        """A sum of group sizes."""
        return z.is_Add and all(x in map(self.num, self.universe) for x in z.args) or z == 0 or z in list(map(self.num, self.universe))

    def lookup(self, d, k):
        k = self.plain(self.res(k))
        if k is None:
            return None
        while d.op == "setitem":
            j = self.plain(self.res(d.a[1]))
            if j is None:
                return None
            if j == k:
                return d.a[2]
            d = self.res(d.a[0])
        if d.op == "dict":
            for kv in reversed(d.a):
                if kv.op != "kv":
                    return None
                j = self.plain(self.res(kv.a[0]))
                if j is None:
                    return None
                if j == k:
                    return kv.a[1]
        return None

    def plain(self, t):
        if is_const(t):
            return cval(t)
        if t.op == "tuple":
            xs = [self.plain(self.res(x)) for x in t.a]
            return None if None in xs else tuple(xs)
        return None

    def store(self, t):
        b = self.res(t.a[0])
        if b.op == "call" and b.a[0] in ("numpy.full", "numpy.full_like") and len(b.a) == 3 and b.a[2].op == "c" and cval(b.a[2]) != cval(b.a[2]):
            v = self.go(t.a[2])
            if isinstance(v, Coef):
                return Coef(v.kind, v.key, v.form, True)
        if b.op != "call" or not b.a[0].startswith("numpy."):
            v = self.go(t.a[0])
            if isinstance(v, Coef):
                m, z = self.go(t.a[1]), self.go(t.a[2])
                if isinstance(m, NanMask) and m.of.key == v.key and isinstance(z, sp.Basic) and z == 0:
                    return v.defined()
                raise Unread("coefficients changed")
        x, m = self.arr(t.a[0]), self.go(t.a[1])
        v = self.go(t.a[2])
        if not isinstance(m, Obs) or not m.boolean() or set(m.cells) != set(x.cells):
            raise Unread("store " + show(t, 3)[:80])
        out = dict(x.val)
        for c in m.cells:
            if m.val[c]:
                if isinstance(v, Obs):
                    if set(v.cells) != {q for q in m.cells if m.val[q]}:
                        raise Unread("stored block")
                    out[c] = num01(v.val[c])
                elif isinstance(v, sp.Basic):
                    out[c] = v
                else:
                    raise Unread("stored value")
        return Obs(x.cells, out, x.ordered)


def relations(N):
    """Normal equations of the fits: residuals sum to zero and are orthogonal to the predictions (designs with an intercept)."""
    out = {}
    for (kind, key), name in list(N.fits.items()):
        if kind != "mu" or "1" not in key[1]:
            continue
        m = sp.Symbol("o:" + name, real=True)
        val = N.resp[key]
        cells = [c for c in N.universe if c in val]
        for p, q in ((m, lambda v: v), (m ** 2, lambda v: v * m)):
            last = N.S(cells[-1], p)
            if last.is_Symbol:
                out[last] = sum(N.S(c, q(val[c])) for c in cells) - sum(N.S(c, p) for c in cells[:-1])
    return out


def equal(x, y, N, tries=2):
    """Identity of closed forms, at random exact points of every sum and count they mention."""
    x, y = sp.sympify(x), sp.sympify(y)
    if x == y:
        return True
    names = {s: e for e, s in N.lets.items()}
    rel = relations(N)
    root = any(q.is_Pow and q.exp.is_Rational and not q.exp.is_Integer for z in (x, y) for q in sp.Mul.make_args(z))
    rng = random.Random(7)
    at = {}

    def leaf(s):
        if s not in at:
            if s in names:
                at[s] = val(names[s])
            elif s in rel:
                at[s] = val(rel[s])
            elif s.name == "n_all":
                at[s] = sum((leaf(N.num(k)) for k in N.universe), sp.Integer(0))
            else:
                at[s] = sp.Rational(rng.randint(2, 997), rng.randint(2, 97))
        return at[s]

    def val(e):
        fs = e.atoms(sp.core.function.AppliedUndef)
        e = e.xreplace({f: leaf(("f", f) if False else sp.Symbol("fn:" + str(f))) for f in fs if not any(f != g and f in g.atoms(sp.core.function.AppliedUndef) for g in fs)})
        return e.xreplace({s: leaf(s) for s in e.free_symbols})
    for _ in range(tries):
        at.clear()
        if root:
            p, q = val(x ** 2), val(y ** 2)
            if (sp.Mul.make_args(x)[0].is_negative is True) != (sp.Mul.make_args(y)[0].is_negative is True):
                return False
        else:
            p, q = val(x), val(y)
        d = p - q
        if d.is_Rational:
            if d != 0:
                return False
        elif abs(sp.N(d, 40)) > 1e-25 * (1 + abs(sp.N(p, 40))):
            return False
    return True
