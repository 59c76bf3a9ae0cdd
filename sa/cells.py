"""A staggered panel as cells (first-treatment period, period): row subsets become sets of cells, counts and means become
rational functions of the numbers of units and periods per cell.  Decided on representatives of every order type."""
import hashlib
from fractions import Fraction
from .terms import *
from .alg import Poly
from .tens import args_of, Open

INF = float("inf")


class Rat:
    """Quotient of polynomials, kept as coefficient * product of primitive factors with exponents, so that equal ones cancel."""
    __slots__ = ("c", "f")

    def __init__(self, n, d=()):
        self.c, self.f = Fraction(1), {}
        self._mul(n, 1)
        for x in d:
            self._mul(x, -1)

    def _mul(self, p, e):
        if not p.m:
            if e < 0:
                raise Open("division by zero")
            self.c, self.f = Fraction(0), {}
            return
        if not self.c:
            return
        # common monomial
        com = None
        for k in p.m:
            k = dict(k)
            com = k if com is None else {a: min(n, k[a]) for a, n in com.items() if a in k}
        lead = p.m[min(p.m, key=repr)]
        if lead != 1 or com:
            q = {}
            for k, v in p.m.items():
                k = tuple((a, n - com.get(a, 0)) for a, n in k if n != com.get(a, 0))
                q[k] = v / lead
            p = Poly(q)
        self.c *= lead ** e
        for a, n in com.items():
            self._add(Poly.atom(a), n * e)
        if not p.isconst():
            self._add(p, e)

    def _add(self, p, e):
        n = self.f.get(p, 0) + e
        if n:
            self.f[p] = n
        else:
            self.f.pop(p, None)

    @staticmethod
    def make(c, f):
        r = Rat(Poly.const(1))
        r.c, r.f = c, (dict(f) if c else {})
        return r

    @staticmethod
    def of(v):
        return Rat(Poly.const(v))

    def __add__(self, o):
        if not self.c:
            return o
        if not o.c:
            return self
        g = {}
        for p in set(self.f) | set(o.f):
            g[p] = min(self.f.get(p, 0), o.f.get(p, 0))
        s = Poly({})
        for x in (self, o):
            t = Poly.const(x.c)
            for p in set(x.f) | set(g):
                for _ in range(x.f.get(p, 0) - g.get(p, 0)):
                    if len(t.m) * len(p.m) > 60000:
                        raise Open("formula too large")
                    t = t * p
            s = s + t
        r = Rat.make(Fraction(1), {p: n for p, n in g.items() if n})
        r._mul(s, 1)
        return r

    def __neg__(self):
        return Rat.make(-self.c, self.f)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = Rat.make(self.c * o.c, self.f)
        if r.c:
            for p, n in o.f.items():
                r._add(p, n)
        return r

    def inv(self):
        if not self.c:
            raise Open("division by zero")
        return Rat.make(1 / self.c, {p: -n for p, n in self.f.items()})

    def __eq__(self, o):
        if self.c == o.c and self.f == o.f:
            return True
        if self.at() != o.at():
            return False            # different at a point
        return not (self - o).c

    def at(self, one=False):
        """Value where the atoms are fixed distinct integers (or all one)."""
        v = self.c
        for p, n in self.f.items():
            x = Fraction(0)
            for k, co in p.m.items():
                for a, e in k if not one else ():
                    co = co * Fraction(int(hashlib.md5(repr(a).encode()).hexdigest()[:4], 16) + 1) ** e
                x += co
            if not x:
                return None
            v *= x ** n
        return v

    def iszero(self):
        return not self.c

    def poly(self):
        """Plain polynomial."""
        t = Poly.const(self.c)
        for p, n in self.f.items():
            if n < 0:
                raise Open("quotient in a sum")
            for _ in range(n):
                t = t * p
        return t

    def sign(self):
        """1 / 0 / -1 / None when all atoms being positive settles it or not."""
        if not self.c:
            return 0
        s = 1 if self.c > 0 else -1
        for p, n in self.f.items():
            if all(v > 0 for v in p.m.values()):
                continue
            if all(v < 0 for v in p.m.values()):
                s *= (-1) ** n
                continue
            return None
        return s


def P(*k):
    return Rat(Poly.atom(k))


PASSC = {"numpy.asarray", "numpy.array", "pandas.to_numeric", "builtins.float", "builtins.int", "numpy.float64", "pandas.Series"}
SETC = {"builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted", "builtins.frozenset", "numpy.asarray", "numpy.array", "numpy.unique", "numpy.sort", "pandas.unique"}
PASSM = {"astype", "to_numpy", "copy", "ravel", "tolist", "to_list", "reset_index", "item", "dropna", "values"}


class Cells:
    """cohorts, times: representatives.  roles: {term: 'time'|'cohort'|'unit'|'outcome'} column names; names: {term id: value};
    hook(t) -> Rat/number/str or None."""

    def __init__(self, cohorts, times, roles, names, hook=None):
        self.C, self.T = tuple(cohorts), tuple(times)
        self.roles = {t.id: r for t, r in roles.items()}
        self.names = dict(names)
        self.hook = hook
        self.all = frozenset((c, t) for c in self.C for t in self.T)
        self.memo = {}
        self.point = None       # 'ones' / 'apart': decide comparisons of counts and means at one panel

    # ---- frames
    def frame(self, t):
        """(kind, cells) of a table: 'rows' one row per unit and period, 'units' one per unit."""
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._frame(t)
        return r

    def _frame(self, t):
        o, a = t.op, t.a
        if o == "param" and a[0] in ("data", "df"):
            return "rows", self.all
        if o == "setitem":
            return self.frame(a[0])
        if o == "ite":
            return self.frame(a[1] if self.truth(a[0]) else a[2])
        if o == "attr" and a[1] in ("loc", "values"):
            return self.frame(a[0])
        if o == "idx":
            if a[1].id in self.roles or is_str(a[1]) or a[1].op == "list":
                raise Open("column")
            k = a[1]
            if k.op == "tuple":
                raise Open("column")
            kind, rows = self.frame(a[0])
            return kind, frozenset(x for x in rows if self.mask(k, x))
        if o == "m":
            if a[1] in ("copy", "reset_index", "sort_values", "dropna"):
                return self.frame(a[0])
            if a[1] in ("first", "agg") and a[0].op == "m" and a[0].a[1] == "groupby":
                g = a[0]
                if len(g.a) > 2 and self.roles.get(g.a[2].id) == "unit":
                    if a[1] == "agg" and not (t.a[2].op == "dict" and all(x.op == "kv" and is_str(x.a[1]) and cval(x.a[1]) in ("first", "min", "max", "last") for x in t.a[2].a)):
                        raise Open("aggregate")
                    return "units", self.frame(g.a[0])[1]
            if a[1] == "drop_duplicates" and len(a) > 2:
                k = a[2].a[1] if a[2].op == "kw" else a[2]
                if k.op == "list" and len(k.a) == 1:
                    k = k.a[0]
                if self.roles.get(k.id) == "unit":
                    return "units", self.frame(a[0])[1]
        raise Open("table " + show(t, 2)[:60])

    def col(self, t):
        """(frame term, role) of a column."""
        while True:
            if t.op == "m" and t.a[1] in PASSM:
                t = t.a[0]
            elif t.op == "attr" and t.a[1] == "values":
                t = t.a[0]
            elif t.op == "call" and t.a[0] in PASSC and len(t.a) > 1:
                t = t.a[1]
            else:
                break
        if t.op != "idx":
            return None
        f, k = t.a
        if f.op == "attr" and f.a[1] == "loc" and k.op == "tuple" and len(k.a) == 2:
            r = self.roles.get(k.a[1].id)
            return (idx(f.a[0], k.a[0]), r) if r else None
        if f.op == "m" and f.a[1] == "groupby":
            return None
        r = self.roles.get(k.id)
        if r:
            return f, r
        g = self.col(f)               # a column, then a row selection
        if g and not is_const(k):
            return mk("idx", g[0], k), g[1]
        return None

    # ---- conditions on rows
    def val(self, x, at):
        """Number (or unit class) of an elementwise value at a cell."""
        if x.id in self.names:
            return self.names[x.id]
        if is_const(x):
            return cval(x)
        if x.op == "glob" and x.a[0] in ("numpy.inf", "math.inf"):
            return INF
        if x.op == "call" and x.a[0] in PASSC and len(x.a) > 1 and not self.col(x):
            return self.val(x.a[1], at)
        if x.op == "ite":
            return self.val(x.a[1] if self.truth(x.a[0], at) else x.a[2], at)
        if x.op == "bin" and x.a[0] in "+-*":
            p, q = self.val(x.a[1], at), self.val(x.a[2], at)
            if isinstance(p, (int, float)) and isinstance(q, (int, float)):
                return p + q if x.a[0] == "+" else p - q if x.a[0] == "-" else p * q
        if x.op == "call" and x.a[0] in ("builtins.min", "builtins.max", "numpy.min", "numpy.max") and len(x.a) == 2 or \
                x.op == "m" and x.a[1] in ("min", "max") and len(x.a) == 2:
            s = x.a[1] if x.op == "call" else x.a[0]
            f = min if (x.a[0] if x.op == "call" else x.a[1]).endswith("min") else max
            k, m = self.members(s)
            if m and k in ("time", "cohort"):
                return f(m)
        if at is not None:
            c = self.col(x)
            if c:
                if c[1] == "cohort":
                    return at[0]
                if c[1] == "time":
                    return at[1]
                if c[1] == "unit":
                    return ("u", at[0])
            if x.op == "idx" and x.a[0].op == "setitem":
                v = self.column_value(x.a[0], x.a[1])
                if v is not None:
                    return self.val(v, at)
        if self.hook:
            v = self.hook(x)
            if v is not None and not isinstance(v, Rat):
                return v
        raise Open("value " + show(x, 3)[:80])

    def column_value(self, f, k):
        while f.op == "setitem":
            if f.a[1] is k:
                return f.a[2]
            f = f.a[0]
        return None

    def mask(self, m, at):
        return bool(self.truth(m, at))

    def truth(self, x, at=None):
        v = truth(x)
        if v is not None:
            return v
        if x.id in self.names and not isinstance(self.names[x.id], str):
            return bool(self.names[x.id])
        o, a = x.op, x.a
        if o == "iter":
            return True
        if o == "is" or o == "isnot":
            if a[1] is NONE:
                n = self.isnone(a[0])
                return n if o == "is" else not n
        if o == "not" or o == "un" and a[0] in ("~", "not"):
            return not self.truth(a[-1], at)
        if o in ("and", "or"):
            for y in a:
                r = self.truth(y, at)
                if r != (o == "and"):
                    return r
            return o == "and"
        if o == "bin" and a[0] in "&|^":
            p, q = self.truth(a[1], at), self.truth(a[2], at)
            return (p and q) if a[0] == "&" else (p or q) if a[0] == "|" else p != q
        if o == "bin" and a[0] == "*":
            return self.truth(a[1], at) and self.truth(a[2], at)
        if o == "ite":
            return self.truth(a[1] if self.truth(a[0], at) else a[2], at)
        if o in ("eq", "lt", "le", "ne"):
            return self.cmp(o, a[0], a[1], at)
        if o == "call":
            pos, kw = args_of(x)
            f = a[0]
            if f in ("numpy.logical_and", "numpy.logical_or") and len(pos) == 2:
                p, q = self.truth(pos[0], at), self.truth(pos[1], at)
                return (p and q) if f.endswith("and") else (p or q)
            if f == "numpy.logical_not":
                return not self.truth(pos[0], at)
            if f in ("numpy.isinf", "numpy.isposinf", "math.isinf"):
                return self.val(pos[0], at) == INF
            if f in ("numpy.isfinite", "math.isfinite"):
                try:
                    return self.val(pos[0], at) != INF
                except Open:
                    return not self.empty(pos[0])
            if f in ("numpy.isin", "numpy.in1d"):
                return self.isin(self.val(pos[0], at), pos[1])
            if f in ("numpy.isnan", "math.isnan", "pandas.isna", "pandas.isnull"):
                return self.empty(pos[0])
            if f in ("pandas.notna", "pandas.notnull"):
                return not self.empty(pos[0])
            if f == "builtins.bool" or f in PASSC:
                return self.truth(pos[0], at)
            if f in ("builtins.any", "builtins.all", "numpy.any", "numpy.all") and len(pos) == 1 and pos[0].op in ("list", "tuple"):
                r = [self.truth(y, at) for y in pos[0].a]
                return any(r) if f.endswith("any") else all(r)
        if o == "m":
            if a[1] == "isin" and len(a) == 3:
                return self.isin(self.val(a[0], at), a[2])
            if a[1] in ("isna", "isnull", "notna", "notnull"):
                return a[1].startswith("not")
            if a[1] in ("eq", "ne", "gt", "ge", "lt", "le") and len(a) == 3:
                if a[1] in ("gt", "ge"):
                    return self.cmp("lt" if a[1] == "gt" else "le", a[2], a[0], at)
                return self.cmp(a[1], a[0], a[2], at)
            if a[1] == "between" and len(a) == 4:
                return self.cmp("le", a[2], a[0], at) and self.cmp("le", a[0], a[3], at)
            if a[1] in ("astype", "to_numpy", "copy"):
                return self.truth(a[0], at)
            if a[1] in ("any", "all") and len(a) == 2:
                f, rows = self.maskrows(a[0])
                r = [self.mask(a[0], q) for q in rows]
                return any(r) if a[1] == "any" else all(r)
        if o == "attr" and a[1] == "empty":
            return not self.frame(a[0])[1]
        if o == "attr" and a[1] == "values":
            return self.truth(a[0], at)
        if o == "in":
            return self.isin(self.val(a[0], at), a[1])
        if at is not None and o == "idx" and a[0].op == "setitem":
            v = self.column_value(a[0], a[1])
            if v is not None:
                return self.truth(v, at)
        try:
            k, m = self.members(x)
            return bool(m)
        except Open:
            pass
        s = self.rat(x).sign()
        if s is None:
            raise Open("condition")
        return s != 0

    def isnone(self, x):
        if x is NONE:
            return True
        if x.op == "ite":
            return self.isnone(x.a[1] if self.truth(x.a[0]) else x.a[2])
        if x.op in ("new", "dict", "list", "tuple", "bin") or is_const(x):
            return False
        raise Open("None?")

    def cmp(self, o, p, q, at):
        try:
            u, v = self.val(p, at), self.val(q, at)
        except Open:
            d = self.rat(q) - self.rat(p)
            s = d.sign()
            if self.point is not None:
                v = d.at(self.point == "ones")
                s = 0 if not v else 1 if v > 0 else -1       # None: a factor vanishes
            elif s is None:
                raise Open("comparison of %s with %s" % (show(p, 2)[:50], show(q, 2)[:50]))
            return s == 0 if o == "eq" else s != 0 if o == "ne" else s > 0 if o == "lt" else s >= 0
        if o in ("lt", "le") and not all(isinstance(z, (int, float)) for z in (u, v)):
            raise Open("order")
        return u == v if o == "eq" else u != v if o == "ne" else u < v if o == "lt" else u <= v

    def empty(self, x):
        """Whether a mean is of no rows."""
        try:
            self.rat(x)
            return False
        except Open as e:
            if str(e) == "division by zero":
                return True
            raise

    def maskrows(self, m):
        for y in reach([m], control=False):
            if y.op == "idx":
                c = self.col(y)
                if c:
                    return c[0], self.frame(c[0])[1]
        raise Open("rows of a mask")

    # ---- sets
    def isin(self, v, s):
        return v in self.members(s)[1]

    def members(self, s):
        """(role, values) of a collection of periods, cohorts or units (units: their classes)."""
        r = self.memo.get(("set", s.id))
        if r is None:
            r = self.memo["set", s.id] = self._members(s)
        return r

    def _members(self, s):
        o, a = s.op, s.a
        if o == "ite":
            return self.members(a[1] if self.truth(a[0]) else a[2])
        if o == "call" and a[0] in SETC and len(a) > 1 and (a[1].op != "idx" or self.col(a[1]) is None or a[0] in ("numpy.unique", "builtins.set", "pandas.unique", "builtins.frozenset")):
            c = self.col(a[1])
            if c is None:
                return self.members(a[1])
            return self.proj(c)
        if o == "m" and a[1] in ("unique", "drop_duplicates"):
            c = self.col(a[0])
            if c:
                return self.proj(c)
        if o == "m" and a[1] in ("tolist", "to_list", "copy", "astype", "to_numpy"):
            return self.members(a[0])
        if o == "attr" and a[1] == "values":
            return self.members(a[0])
        if o == "bin" and a[0] in "|&-^":
            k, x = self.members(a[1])
            k2, y = self.members(a[2])
            return k, x | y if a[0] == "|" else x & y if a[0] == "&" else x - y if a[0] == "-" else x ^ y
        if o == "bin" and a[0] == "+":
            k, x = self.members(a[1])
            k2, y = self.members(a[2])
            if x & y:
                raise Open("repeated elements")
            return k, x | y
        if o == "m" and a[1] in ("union", "intersection", "difference") and len(a) == 3:
            k, x = self.members(a[0])
            k2, y = self.members(a[2])
            return k, x | y if a[1] == "union" else x & y if a[1] == "intersection" else x - y
        if o == "comp":
            it = [x for x in a if type(x) is T and x.op == "iters"]
            cs = [y for x in a if type(x) is T and x.op == "conds" for y in x.a]
            if len(it) == 1 and len(it[0].a) == 1 and a[1].op == "elem" and a[1].a[0] is it[0].a[0]:
                k, m = self.members(it[0].a[0])
                out = set()
                e = a[1].id
                had = self.names.get(e)
                for v in m:
                    self.names[e] = v
                    keep = self.memo
                    self.memo = dict(keep)
                    ok = all([self.truth(q) for q in cs])
                    self.memo = keep
                    if ok:
                        out.add(v)
                if had is None:
                    self.names.pop(e, None)
                else:
                    self.names[e] = had
                return k, frozenset(out)
        if o == "idx" and self.col(a[0]) is None and a[1].op not in ("slice",) and not is_const(a[1]):
            k, m = self.members(a[0])
            out = set()
            for v in m:
                if self.elemtruth(a[1], a[0], v):
                    out.add(v)
            return k, frozenset(out)
        if o in ("list", "tuple", "set"):
            return "time", frozenset(self.val(y, None) for y in a)
        raise Open("collection " + show(s, 3)[:80])

    def elemtruth(self, m, arr, v):
        had = self.names.get(arr.id)
        self.names[arr.id] = v
        try:
            return self.truth(m)
        finally:
            if had is None:
                self.names.pop(arr.id, None)
            else:
                self.names[arr.id] = had

    def proj(self, c):
        f, role = c
        kind, rows = self.frame(f)
        if role == "time":
            return "time", frozenset(t for _, t in rows)
        if role == "cohort":
            return "cohort", frozenset(q for q, _ in rows)
        if role == "unit":
            return "unit", frozenset(("u", q) for q, _ in rows)
        raise Open("values of a column")

    def count(self, k, m):
        r = Rat.of(0)
        for v in sorted(m, key=repr):
            if k == "time":
                r = r + P("p", v)
            elif k == "unit":
                r = r + P("n", v[1])
            else:
                r = r + Rat.of(1)       # one value per cohort representative is no number of cohorts
                raise Open("number of cohorts")
        return r

    def rows(self, kind, cells):
        r = Rat.of(0)
        if kind == "units":
            return self.count("unit", {("u", c) for c, _ in cells})
        by = {}
        for t in {t for _, t in cells}:
            by.setdefault(frozenset(c for c, u in cells if u == t), set()).add(t)
        for cs, ts in sorted(by.items(), key=lambda q: repr(sorted(q[0], key=repr))):
            r = r + self.count("unit", {("u", c) for c in cs}) * self.count("time", ts)
        return r

    def total(self, f):
        kind, cells = self.frame(f)
        if kind != "rows":
            raise Open("outcome of units")
        r = Rat.of(0)
        for c, t in sorted(cells, key=repr):
            r = r + P("y", c, t)
        return r

    # ---- numbers
    def rat(self, x):
        r = self.memo.get(("rat", x.id))
        if r is None:
            r = self.memo["rat", x.id] = self._rat(x)
        return r

    def _rat(self, x):
        if self.hook:
            v = self.hook(x)
            if isinstance(v, Rat):
                return v
        o, a = x.op, x.a
        if x.id in self.names and isinstance(self.names[x.id], (int, float)) and self.names[x.id] != INF:
            return Rat.of(Fraction(self.names[x.id]))
        if o == "c" and isinstance(cval(x), (int, float)) and cval(x) == cval(x) and abs(cval(x)) != INF:
            return Rat.of(Fraction(cval(x)))
        if o == "bin":
            if a[0] == "**" and is_const(a[2]) and isinstance(cval(a[2]), int) and 0 < cval(a[2]) < 5:
                p = self.rat(a[1])
                r = p
                for _ in range(cval(a[2]) - 1):
                    r = r * p
                return r
            p, q = self.rat(a[1]), self.rat(a[2])
            if a[0] in "+-*/":
                return p + q if a[0] == "+" else p - q if a[0] == "-" else p * q if a[0] == "*" else p * q.inv()
        if o == "un" and a[0] in "+-":
            return -self.rat(a[1]) if a[0] == "-" else self.rat(a[1])
        if o == "ite":
            return self.rat(a[1] if self.truth(a[0]) else a[2])
        if o == "call":
            pos, kw = args_of(x)
            f = a[0]
            if f == "builtins.len" and len(pos) == 1:
                return self.length(pos[0])
            if f in ("builtins.float", "builtins.int", "numpy.float64") and len(pos) == 1:
                return self.rat(pos[0])
            if f in ("numpy.mean", "numpy.nanmean", "numpy.average") and len(pos) == 1 and not kw:
                return self.mean(pos[0])
            if f in ("numpy.sum", "builtins.sum", "numpy.count_nonzero") and len(pos) == 1 and not kw:
                return self.sum(pos[0])
        if o == "m":
            if a[1] == "mean" and len(a) == 2:
                return self.mean(a[0])
            if a[1] == "sum" and len(a) == 2:
                return self.sum(a[0])
            if a[1] == "nunique" and len(a) == 2:
                c = self.col(a[0])
                if c:
                    return self.count(*self.proj(c))
            if a[1] == "count" and len(a) == 2:
                c = self.col(a[0])
                if c:
                    return self.rows(*self.frame(c[0]))
            if a[1] == "item":
                return self.rat(a[0])
        if o == "attr" and a[1] == "size":
            return self.length(a[0])
        if o == "idx" and a[0].op == "attr" and a[0].a[1] == "shape" and is_const(a[1]) and cval(a[1]) == 0:
            return self.length(a[0].a[0])
        raise Open("number " + show(x, 3)[:80])

    def length(self, s):
        c = self.col(s)
        if c:
            return self.rows(*self.frame(c[0]))
        try:
            return self.rows(*self.frame(s))
        except Open:
            return self.count(*self.members(s))

    def mean(self, t):
        c = self.col(t)
        if c and c[1] == "outcome":
            n = self.rows(*self.frame(c[0]))
            return self.total(c[0]) * n.inv()
        raise Open("mean of " + show(t, 2)[:60])

    def sum(self, t):
        c = self.col(t)
        if c and c[1] == "outcome":
            return self.total(c[0])
        f, rows = self.maskrows(t)
        kind, rows = self.frame(f)
        return self.rows(kind, frozenset(q for q in rows if self.mask(t, q)))
