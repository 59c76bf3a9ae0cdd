"""Tables derived from a data argument, read off value terms row by row: selections, assigned columns, groupings, and the loops that build them."""
import math
from fractions import Fraction
from .terms import *
from .alg import Poly

NAN = float("nan")
INF = float("inf")


class Open(Exception):
    pass


def isnan(v):
    return isinstance(v, float) and v != v


def num(v):
    return isinstance(v, (int, float, Fraction, bool)) and not isinstance(v, str)


class Sym:
    """A linear combination of named unknowns (all of them defined numbers)."""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v}

    @staticmethod
    def of(v):
        if isinstance(v, Sym):
            return v
        if num(v) and not (isinstance(v, float) and (v != v or v in (INF, -INF))):
            return Sym({"": Fraction(v)})
        raise Open("number")

    def __eq__(self, o):
        return isinstance(o, Sym) and self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __repr__(self):
        return "Sym(%r)" % (self.d,)


def arith(op, x, y):
    if isnan(x) or isnan(y):
        return NAN
    if isinstance(x, str) and isinstance(y, str) and op == "+":
        return x + y
    if isinstance(x, (list, tuple)) and type(x) is type(y) and op == "+":
        return x + y
    if isinstance(x, Sym) or isinstance(y, Sym):
        a, b = Sym.of(x), Sym.of(y)
        if op in "+-":
            d = dict(a.d)
            for k, v in b.d.items():
                d[k] = d.get(k, 0) + (v if op == "+" else -v)
            return Sym(d)
        if op == "*":
            if set(b.d) <= {""}:
                a, b = b, a
            if set(a.d) <= {""}:
                return Sym({k: v * a.d.get("", 0) for k, v in b.d.items()})
        if op == "/" and set(b.d) == {""}:
            return Sym({k: v / b.d[""] for k, v in a.d.items()})
        raise Open("product of unknowns")
    if not num(x) or not num(y):
        raise Open("arithmetic on %s and %s" % (type(x).__name__, type(y).__name__))
    inf = any(isinstance(z, float) and z in (INF, -INF) for z in (x, y))
    if op == "+":
        r = x + y if inf else Fraction(x) + Fraction(y)
    elif op == "-":
        r = x - y if inf else Fraction(x) - Fraction(y)
    elif op == "*":
        r = x * y if inf else Fraction(x) * Fraction(y)
    elif op == "/":
        if y == 0:
            raise Open("division by zero")
        r = x / y if inf else Fraction(x) / Fraction(y)
    elif op == "//":
        r = x // y
    elif op == "%":
        r = x % y
    elif op == "**" and isinstance(y, int):
        r = Fraction(x) ** y
    else:
        raise Open("operator " + op)
    if isinstance(r, Fraction) and r.denominator == 1:
        r = int(r)
    return r


class Draw:
    """Members drawn at random."""

    def __init__(self, pool, size, replace, key):
        self.pool, self.size, self.replace, self.key = pool, size, replace, key


class Drawn:
    """Whether one value is among the drawn ones."""
    __slots__ = ("draw", "v", "neg")

    def __init__(self, draw, v, neg=False):
        self.draw, self.v, self.neg = draw, v, neg

    def __eq__(self, o):
        return isinstance(o, Drawn) and (self.draw, self.v, self.neg) == (o.draw, o.v, o.neg)

    def __hash__(self):
        return hash((id(self.draw), self.v, self.neg))


class Fr:
    """A table: row labels in order and, per column, the value of each row."""

    def __init__(self, rows, cols, names=("",)):
        self.rows, self.cols, self.names = list(rows), dict(cols), names

    def __len__(self):
        return len(self.rows)

    def pick(self, rows):
        rows = list(rows)
        return Fr(rows, {k: {r: c[r] for r in rows} for k, c in self.cols.items()}, self.names)

    def content(self):
        """Rows as a sorted list, labels forgotten."""
        return [tuple((k, c[r]) for k, c in self.cols.items()) for r in self.rows]


class Se:
    """A column: labels in order and a value for each."""

    def __init__(self, rows, vals, name=None):
        self.rows, self.vals, self.name = list(rows), vals, name

    def __len__(self):
        return len(self.rows)

    def list(self):
        return [self.vals[r] for r in self.rows]


class Group:
    def __init__(self, fr, keys, cols=None, single=True):
        self.fr, self.keys, self.cols, self.single = fr, keys, cols, single

    def groups(self):
        out = {}
        for r in self.fr.rows:
            k = tuple(self.fr.cols[c][r] for c in self.keys)
            if any(isnan(v) for v in k):
                continue
            out.setdefault(k if len(self.keys) > 1 else k[0], []).append(r)
        return out


class Fit:
    """One call left unexpanded."""

    def __init__(self, term, args):
        self.term, self.args = term, args


class Obj:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Rng:
    pass


def ordered(vs):
    vs = list(vs)
    try:
        return sorted(vs)
    except TypeError:
        raise Open("order")


def mean(vs):
    vs = [v for v in vs if not isnan(v)]
    if not vs:
        return NAN
    t = 0
    for v in vs:
        t = arith("+", t, v)
    return arith("/", t, len(vs))


def uniq(vs, drop=False):
    out = []
    for v in vs:
        if isnan(v):
            if not drop and not any(isnan(w) for w in out):
                out.append(v)
        elif v not in out:
            out.append(v)
    return out


def filled(rows, vals, how):
    last, w = NAN, {}
    for r in rows if how == "ffill" else list(rows)[::-1]:
        last = last if isnan(vals[r]) else vals[r]
        w[r] = last
    return w


def repeated(keys, rows, keep):
    n, seen, w = {}, set(), {}
    for k in keys:
        n[k] = n.get(k, 0) + 1
    for r, k in (list(zip(rows, keys))[::-1] if keep == "last" else zip(rows, keys)):
        w[r] = n[k] > 1 if keep is False else k in seen
        seen.add(k)
    return w


CAST = {"astype", "to_numpy", "copy", "tolist", "to_list", "to_frame", "ravel", "infer_objects"}
STAT = {"mean", "median", "std", "sum", "min", "max", "nunique", "first", "last", "count", "size"}


def stat(f, vs, keepnan=False):
    good = [v for v in vs if not isnan(v)]
    if f == "size":
        return len(vs)
    if f == "count":
        return len(good)
    if f == "nunique":
        return len(uniq(good))
    if f == "sum":
        t = 0
        for v in good:
            t = arith("+", t, v)
        return t
    if not good:
        return NAN
    if f == "mean":
        return mean(good)
    if f in ("min", "max"):
        if any(isinstance(v, Sym) for v in good):
            return good[0] if len(good) == 1 else Sym({(f,) + tuple(sorted(map(repr, good))): Fraction(1)})
        return min(good) if f == "min" else max(good)
    if f == "std":
        if len(good) < 2:
            return NAN
        return Sym({("std",) + tuple(sorted(map(repr, good))): Fraction(1)})
    if f == "median":
        if len(good) < 3:
            return mean(good)
        if not all(num(v) for v in good):
            return Sym({("median",) + tuple(sorted(map(repr, good))): Fraction(1)})
        g, k = sorted(good), len(good) // 2
        return g[k] if len(g) % 2 else mean(g[k - 1:k + 1])
    if f in ("first", "last"):
        return good[0] if f == "first" else good[-1]
    raise Open(f)


class Lab(tuple):
    """A row by position and label (labels may repeat)."""

    def __new__(cls, i, label):
        return tuple.__new__(cls, (i, label))


class Rows:
    """env: {parameter name: value}.  fits(term, args) -> value of an unexpanded call."""

    def __init__(self, env, opaque=None, truths=None):
        self.env, self.opaque, self.truths = env, opaque, truths or {}
        self.memo, self.bound = {}, {}
        self.fits = []
        self.draws = {}
        self.steps = 0
        self.eager = self.interp = None
        self.dep, self.mus = {}, {}

    def ev(self, t):
        if t.id in self.memo:
            return self.memo[t.id]
        self.steps += 1
        if self.steps > 60000:
            raise Open("too long")
        r = self.go(t)
        self.memo[t.id] = r
        if t.op == "mu":
            self.mus[t.id] = t
        return r

    def bind(self, m):
        old = (self.memo, self.bound)
        ks = {k if isinstance(k, int) else k[1] for k in m}
        self.memo = {i: v for i, v in self.memo.items() if not (self.deps(i) & ks)}
        self.bound = {**self.bound, **m}
        return old

    def deps(self, i):
        """Loops and iterables whose current element a term looks at."""
        r = self.dep.get(i)
        if r is None:
            r = set()
            for y in reach([byid(i) or self.mus[i]]):
                if y.op == "mu":
                    r.add(y.id)
                elif y.op in ("elem", "pos"):
                    r.add(y.a[0].id)
            self.dep[i] = r
        return r

    def unbind(self, old):
        self.memo, self.bound = old

    # ---- truth
    def truth(self, t):
        v = self.ev(t)
        if isinstance(v, (Se, Fr)):
            raise Open("truth of a column")
        if isinstance(v, (Sym, Drawn)):
            raise Open("truth of an unknown")
        if isinstance(v, Draw):
            return v.size > 0
        return bool(v)

    # ---- elementwise
    def lift(self, f, *xs):
        se = [x for x in xs if isinstance(x, Se)]
        if se:
            rows = se[0].rows
            for s in se[1:]:
                if set(s.rows) != set(rows):
                    raise Open("columns of different tables")
            return Se(rows, {r: f(*[x.vals[r] if isinstance(x, Se) else x for x in xs]) for r in rows}, se[0].name)
        ls = [x for x in xs if isinstance(x, list)]
        if ls:
            n = len(ls[0])
            if any(len(x) != n for x in ls):
                raise Open("arrays of different lengths")
            return [f(*[x[i] if isinstance(x, list) else x for x in xs]) for i in range(n)]
        return f(*xs)

    def cmp(self, o, x, y):
        if isinstance(x, Sym) or isinstance(y, Sym):
            d = arith("-", x, y).d
            if o in ("eq", "ne") and not d:
                return o == "eq"
            if set(d) <= {""}:
                c = d.get("", 0)
                return {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0}[o]
            raise Open("comparison of unknowns")
        if isinstance(x, Drawn) or isinstance(y, Drawn):
            q, k = (x, y) if isinstance(x, Drawn) else (y, x)
            if k in (0, 1) and o in ("eq", "ne"):
                return Drawn(q.draw, q.v, q.neg != ((k == 1) != (o == "eq")))
            raise Open("comparison of a draw")
        if isnan(x) or isnan(y):
            return o == "ne"
        if o == "eq":
            return x == y
        if o == "ne":
            return x != y
        try:
            return x < y if o == "lt" else x <= y
        except TypeError:
            raise Open("order")

    def no(self, x):
        if isinstance(x, Drawn):
            return Drawn(x.draw, x.v, not x.neg)
        if isinstance(x, Sym):
            raise Open("not of an unknown")
        return not x

    def inn(self, v, s):
        if isinstance(s, Draw):
            return Drawn(s, v) if v in s.pool else False
        if isinstance(s, Se):
            s = s.list()
        if isinstance(s, Fr):
            s = list(s.cols)
        if isnan(v):
            return any(isnan(w) for w in s)
        return v in s

    def col(self, fr, name):
        if name not in fr.cols:
            raise Open("column %r" % (name,))
        return Se(fr.rows, fr.cols[name], name)

    def seq(self, v):
        if isinstance(v, Se):
            return v.list()
        if isinstance(v, Fr):
            return list(v.cols)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (list, tuple, range)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return ordered(v)
        raise Open("items of " + type(v).__name__)

    # ---- terms
    def go(self, t):
        o, a = t.op, t.a
        if o == "c":
            v = cval(t)
            return v
        if o == "param" or o == "cfg":
            if a[0] in self.env:
                return self.env[a[0]]
            raise Open("parameter " + a[0])
        if o == "elem":
            k = self.e(a[0], cval(a[1]))
            if k in self.bound:
                return self.bound[k]
            raise Open("element")
        if o == "pos":
            k = ("p", a[0].id, cval(a[1]))
            if k in self.bound:
                return self.bound[k]
            raise Open("pos")
        if o == "mu":
            if t.id in self.bound:
                return self.bound[t.id]
            return self.loop(t)
        if o == "glob":
            if a[0] in ("numpy.nan", "math.nan"):
                return NAN
            if a[0] in ("numpy.inf", "math.inf"):
                return INF
            return a[0]
        if o in ("exc", "excpart"):
            return False
        if o == "ite":
            return self.ev(a[1] if self.truth(a[0]) else a[2])
        if o == "not":
            v = self.ev(a[0])
            if isinstance(v, (list, tuple, dict, set, frozenset, str, range)):
                return not v
            return self.lift(self.no, self.ev(a[0]))
        if o in ("and", "or"):
            for x in a:
                v = self.truth(x)
                if v != (o == "and"):
                    return v
            return o == "and"
        if o == "boolop":
            v = None
            for x in a[1:]:
                v = self.ev(x)
                if self.truth(x) != (a[0] in ("and", "And")):
                    return v
            return v
        if o in ("is", "isnot"):
            x, y = self.ev(a[0]), self.ev(a[1])
            r = (x is None and y is None) if a[1] is NONE or a[0] is NONE else x is y
            return r if o == "is" else not r
        if o in ("eq", "lt", "le", "ne"):
            return self.lift(lambda x, y: self.cmp(o, x, y), self.ev(a[0]), self.ev(a[1])) if not self.plain(a) else self.ev(a[0]) == self.ev(a[1])
        if o == "in":
            return self.inn(self.ev(a[0]), self.ev(a[1]))
        if o == "un":
            x = self.ev(a[1])
            if a[0] in ("~", "not"):
                return self.lift(self.no, x)
            if a[0] == "-":
                return self.lift(lambda v: arith("-", 0, v), x)
            return x
        if o == "bin":
            return self.bin(a[0], self.ev(a[1]), self.ev(a[2]))
        if o in ("tuple", "list", "set"):
            vs = [self.ev(x) for x in a]
            return tuple(vs) if o == "tuple" else vs if o == "list" else frozenset(vs)
        if o == "dict":
            d = {}
            for x in a:
                if x.op == "star" and isinstance(self.ev(x.a[0]), dict):
                    d.update(self.ev(x.a[0]))
                    continue
                if x.op != "kv":
                    raise Open("dict")
                d[self.ev(x.a[0])] = self.ev(x.a[1])
            return d
        if o == "fstr":
            return "".join(str(self.ev(x)) if type(x) is T else str(x) for x in a)
        if o == "slice":
            return slice(*[self.ev(x) for x in a])
        if o == "new":
            if self.eager and a[0].endswith(self.eager):
                d = {}
                for f in a[1:]:
                    try:
                        d[f.a[0]] = self.ev(f.a[1])
                    except Open:
                        d[f.a[0]] = Open
                return Obj(a[0], d)
            return Obj(a[0], {f.a[0]: f.a[1] for f in a[1:]})
        if o == "fcall":
            f = Fit(t, [self.ev(x) if x.op != "new" else x for x in a[1:]])
            f.self_ = None
            if a[1].op == "new":
                f.self_ = {}
                for x in a[1].a[1:]:
                    try:
                        f.self_[x.a[0]] = self.ev(x.a[1])
                    except Open:
                        f.self_[x.a[0]] = Open
            f.sig_ = self.sig(f)
            self.fits.append(f)
            return f
        if o == "attr":
            return self.attr(self.ev(a[0]), a[1])
        if o == "setattr" and a[1] == "index":
            v, ix = self.ev(a[0]), self.seq(self.ev(a[2]))
            if isinstance(v, Fr) and len(ix) == len(v.rows):
                new = [Lab(i, x) for i, x in enumerate(ix)]
                return Fr(new, {k: {q: c[r] for q, r in zip(new, v.rows)} for k, c in v.cols.items()})
            raise Open("index")
        if o == "idx":
            return self.index(self.ev(a[0]), self.ev(a[1]) if a[1].op != "slice" else self.ev(a[1]))
        if o == "setitem":
            return self.store(self.ev(a[0]), self.ev(a[1]), self.ev(a[2]))
        if o == "append":
            return self.seq(self.ev(a[0])) + [self.ev(a[1])]
        if o == "extend":
            return self.seq(self.ev(a[0])) + self.seq(self.ev(a[1]))
        if o == "comp":
            return self.comp(t)
        if o == "isinstance":
            return self.isinst(self.ev(a[0]), a[1])
        if o == "call":
            return self.call(t)
        if o == "m":
            return self.method(t)
        raise Open(o)

    def plain(self, a):
        return False

    def bin(self, op, x, y):
        if op in "&|^":
            if isinstance(x, (set, frozenset)) and isinstance(y, (set, frozenset)):
                return frozenset(x & y if op == "&" else x | y if op == "|" else x ^ y)
            def f(p, q):
                if isinstance(p, Drawn) or isinstance(q, Drawn):
                    d, k = (p, q) if isinstance(p, Drawn) else (q, p)
                    if k in (True, False) and op != "^":
                        return d if bool(k) == (op == "&") else (op == "|")
                    raise Open("draws combined")
                p, q = bool(p), bool(q)
                return p and q if op == "&" else p or q if op == "|" else p != q
            return self.lift(f, x, y)
        if op == "-" and isinstance(x, (set, frozenset)):
            return frozenset(x) - frozenset(self.seq(y))
        if isinstance(x, list) and isinstance(y, list) and op == "+":
            return x + y                     # lists of names; arrays of values are added through lift by the callers that know
        return self.lift(lambda p, q: arith(op, p, q), x, y)

    def attr(self, v, n):
        if isinstance(v, Fit):
            return Sym({(v.term.id, n, self.sig(v)): Fraction(1)}) if n != "conf_int" else ("conf_int", v.term.id, v.sig_)
        if isinstance(v, Fr):
            if n == "columns":
                return list(v.cols)
            if n == "index":
                return list(v.rows)
            if n == "empty":
                return not v.rows
            if n in ("loc",):
                return v
            if n == "shape":
                return (len(v.rows), len(v.cols))
        if isinstance(v, Se):
            if n == "values":
                return v.list()
            if n == "index":
                return list(v.rows)
            if n == "empty":
                return not v.rows
            if n in ("loc",):
                return v
            if n == "size":
                return len(v.rows)
            if n == "dtype":
                return ("dtype", v)
        if isinstance(v, list) and n in ("size",):
            return len(v)
        if isinstance(v, list) and n == "empty":
            return not v
        raise Open("attribute " + n)

    def sig(self, f):
        """What the call was given, as a key."""
        k = []
        for x in f.args:
            if isinstance(x, Fr):
                k.append(tuple((n, tuple((r, self.tag(c[r])) for r in x.rows)) for n, c in x.cols.items()))
            elif isinstance(x, (str, int)):
                k.append(x)
        return tuple(k)

    def tag(self, v):
        if isinstance(v, Drawn):
            return ("drawn", id(v.draw), str(v.v), v.neg)
        return repr(v)

    def index(self, v, k):
        if isinstance(v, Fr):
            if isinstance(k, str):
                return self.col(v, k)
            if isinstance(k, list) and all(isinstance(x, str) for x in k) and all(x in v.cols for x in k):
                return Fr(v.rows, {x: v.cols[x] for x in k}, v.names)
            if isinstance(k, Se) and set(v.rows) <= set(k.rows):
                return v.pick([r for r in v.rows if self.flag(k.vals[r])])
            if isinstance(k, list) and len(k) == len(v.rows) and all(isinstance(x, (bool, int)) for x in k):
                return v.pick([r for r, x in zip(v.rows, k) if x])
            if isinstance(k, tuple) and len(k) == 2:
                f = v if isinstance(k[0], slice) and k[0] == slice(None) else self.index(v, k[0])
                return self.index(f, k[1])
            raise Open("selection")
        if isinstance(v, Se):
            if isinstance(k, Se) and set(v.rows) <= set(k.rows):
                rows = [r for r in v.rows if self.flag(k.vals[r])]
                return Se(rows, {r: v.vals[r] for r in rows}, v.name)
            if isinstance(k, (str, int, Fraction)) and k in v.vals and not isinstance(k, bool):
                return v.vals[k]
            raise Open("selection")
        if isinstance(v, Group):
            if isinstance(k, str):
                return Group(v.fr, v.keys, [k], True)
            if isinstance(k, list):
                return Group(v.fr, v.keys, k, False)
        if isinstance(v, dict):
            if k in v:
                return v[k]
            raise Open("key")
        if isinstance(v, (list, tuple, str)):
            if isinstance(k, slice):
                return v[k]
            if isinstance(k, int) and not isinstance(k, bool) and -len(v) <= k < len(v):
                return v[k]
            if isinstance(k, list) and len(k) == len(v) and all(isinstance(x, bool) for x in k):
                return [x for x, q in zip(v, k) if q]
            if isinstance(k, list) and all(isinstance(x, int) and not isinstance(x, bool) for x in k):
                return [v[x] for x in k]
        raise Open("index")

    def flag(self, x):
        if isinstance(x, (Drawn, Sym)):
            raise Open("rows picked by chance")
        return bool(x)

    def store(self, v, k, x):
        if isinstance(v, Fr):
            if isinstance(k, str):
                return Fr(v.rows, {**v.cols, k: self.column(v, x)}, v.names)
            if isinstance(k, list) and all(isinstance(n, str) for n in k):
                if isinstance(x, Fr) and set(v.rows) <= set(x.rows):
                    return Fr(v.rows, {**v.cols, **{n: {r: x.cols[n][r] for r in v.rows} for n in k}}, v.names)
                raise Open("columns")
            if isinstance(k, tuple) and k and k[0] == ".loc" and isinstance(k[1], tuple) and len(k[1]) == 2 and isinstance(k[1][1], str):
                m, n = k[1]
                old = v.cols.get(n, {r: NAN for r in v.rows})
                new = self.column(v, x) if isinstance(x, (Se, list)) else {r: x for r in v.rows}
                if not isinstance(m, Se):
                    raise Open("rows")
                return Fr(v.rows, {**v.cols, n: {r: new[r] if self.flag(m.vals[r]) else old[r] for r in v.rows}}, v.names)
        if isinstance(v, dict):
            return {**v, k: x}
        if isinstance(v, list) and isinstance(k, int) and -len(v) <= k < len(v):
            w = list(v)
            w[k] = x
            return w
        raise Open("store")

    def column(self, v, x):
        if isinstance(x, Se):
            return {r: x.vals.get(r, NAN) for r in v.rows}
        if isinstance(x, list):
            if len(x) != len(v.rows):
                raise Open("column of another length")
            return dict(zip(v.rows, x))
        return {r: x for r in v.rows}

    # ---- loops
    def loop(self, t):
        if t.next is None or t.cond is None:
            raise Open("loop")
        return self.passes(self.group(t), self.iter(t.cond, t.depth))[t.id]

    def group(self, t):
        """The variables a loop carries, as far as this one depends on them."""
        group, seen, todo = [t], set(), [t.next]
        while todo:
            y = todo.pop()
            if y.id in seen:
                continue
            seen.add(y.id)
            if y.op == "ran":
                continue
            if y.op == "iter":
                raise Open("loop that stops early")
            if y.op == "mu" and y.cond is t.cond and y.id not in self.bound:
                if y in group or y.next is None or y.next.id < t.id:
                    continue                    # itself, or an earlier loop over the same collection
                group.append(y)
                todo.append(y.next)
                continue
            todo += children(y)
        return group

    def passes(self, group, vals):
        state = {m.id: self.ev(m.init) for m in group}
        for b in vals:
            old = self.bind({**state, **b})
            try:
                state = {m.id: self.ev(m.next) for m in group}
            finally:
                self.unbind(old)
        return state

    def last(self, it, t):
        """Value of a term of the body in a loop's last pass."""
        mus = {x.id: x for x in reach([t]) if x.op == "mu" and x.cond is it and x.id not in self.bound and x.next is not None}
        group = []
        vals = self.iter(it, mus[max(mus)].depth if mus else self.level(it, t))
        if mus:
            top = mus[max(mus)]
            for m in sorted(mus.values(), key=lambda m: -m.id):
                if m not in group and m.next.id >= top.id:
                    group += [y for y in self.group(m) if y not in group]
        old = self.bind({**self.passes(group, vals[:-1]), **vals[-1]})
        try:
            return self.ev(t)
        finally:
            self.unbind(old)

    def e(self, c, d):
        return "e", c.id, d

    def iter(self, c, d=0):
        """Bindings of one pass after another over an iterable; d: how many enclosing loops run over the same one."""
        if c.op == "m" and c.a[1] in ("values", "items", "keys") and len(c.a) == 2:
            v = self.ev(c.a[0])
            if isinstance(v, dict):
                return [{self.e(c.a[0], d): k, self.e(c, d): k if c.a[1] == "keys" else v[k] if c.a[1] == "values" else (k, v[k])} for k in v]
        if c.op == "comp" and c.a[0] == "list":
            out = []
            self.walk(c, lambda m: out.append({**m, **self.elems(c, self.ev(c.a[1]), len(out), d)}))
            return out
        return [self.elems(c, x, i, d) for i, x in enumerate(self.seq(self.ev(c)))]

    def elems(self, c, x, i, d):
        """What one pass over an iterable binds."""
        m = {self.e(c, d): x, ("p", c.id, d): i}
        if c.op == "call" and c.a[0] == "builtins.enumerate" and len(c.a) == 2:
            m.update(self.elems(c.a[1], x[1], x[0], d))
        elif c.op == "call" and c.a[0] == "builtins.zip" and len(x) == len(c.a) - 1:
            for y, z in zip(c.a[1:], x):
                m.update(self.elems(y, z, i, d))
        elif c.op == "call" and c.a[0] == "builtins.range" and len(c.a) == 2 and c.a[1].op == "call" and c.a[1].a[0] == "builtins.len" and len(c.a[1].a) == 2:
            m["p", c.a[1].a[1].id, d] = x
        return m

    def level(self, it, body):
        """Depth of a loop over an iterable, told by the elements its body looks at."""
        ws = walked(it)
        ds = sorted({cval(x.a[1]) for x in reach(body) if x.op in ("elem", "pos") and x.a[0] in ws})
        free = [d for d in ds if not any(k in self.bound for w in ws for k in (("e", w.id, d), ("p", w.id, d)))]
        return free[0] if free else ds[-1] + 1 if ds else 0

    def walk(self, t, f):
        """Calls f with the bindings of every pass of a comprehension."""
        it = [x for x in t.a if type(x) is T and x.op == "iters"]
        cs = [y for x in t.a if type(x) is T and x.op == "conds" for y in x.a]
        if len(it) != 1:
            raise Open("comprehension")
        known = getattr(t, "depth", None)

        def rec(i, m):
            if i == len(it[0].a):
                if all([self.truth(q) for q in cs]):
                    f(m)
                return
            c = it[0].a[i]
            for b in self.iter(c, known[i] if known else self.level(c, [t.a[1]] + cs)):
                old = self.bind(b)
                try:
                    rec(i + 1, {**m, **b})
                finally:
                    self.unbind(old)
        rec(0, {})

    def comp(self, t):
        out, e = [], t.a[1]
        self.walk(t, lambda m: out.append((self.ev(e.a[0]), self.ev(e.a[1])) if e.op == "kv" else self.ev(e)))
        if t.a[0] == "dict":
            return dict(out)
        if t.a[0] == "set":
            return frozenset(out)
        return out

    # ---- calls
    def args(self, t, start):
        pos, kw = [], {}
        for x in t.a[start:]:
            if type(x) is T and x.op == "kw":
                kw[x.a[0]] = x.a[1]
            else:
                pos.append(x)
        return pos, kw

    def call(self, t):
        n = t.a[0]
        pos, kw = self.args(t, 1)
        E = self.ev
        if n in ("builtins.sorted", "numpy.sort"):
            if kw:
                raise Open("sorted")
            return ordered(self.seq(E(pos[0])))
        if n in ("builtins.list", "numpy.array", "numpy.asarray"):
            return self.seq(E(pos[0])) if pos else []
        if n == "builtins.tuple":
            return tuple(self.seq(E(pos[0]))) if pos else ()
        if n in ("builtins.set", "builtins.frozenset"):
            return frozenset(self.seq(E(pos[0]))) if pos else frozenset()
        if n in ("pandas.unique",):
            return uniq(self.seq(E(pos[0])))
        if n == "numpy.unique" and not kw:
            return ordered(uniq(self.seq(E(pos[0]))))
        if n == "builtins.dict":
            v = E(pos[0]) if pos else {}
            d = dict(v) if isinstance(v, (dict, list)) else None
            if d is None:
                raise Open("dict")
            d.update({k: E(x) for k, x in kw.items()})
            return d
        if n == "builtins.zip":
            return [tuple(q) for q in zip(*[self.seq(E(x)) for x in pos])]
        if n == "builtins.enumerate":
            return list(enumerate(self.seq(E(pos[0]))))
        if n == "builtins.range" or n == "numpy.arange":
            return list(range(*[E(x) for x in pos]))
        if n == "builtins.len":
            v = E(pos[0])
            if isinstance(v, Draw):
                return v.size
            if isinstance(v, Group):
                return len(v.groups())
            return len(v)
        if n in ("builtins.int", "builtins.float", "numpy.float64"):
            v = E(pos[0])
            if isinstance(v, (Se, Fr, list, str)):
                raise Open(n)
            return v
        if n == "builtins.bool":
            return self.truth(pos[0])
        if n == "builtins.str":
            return str(E(pos[0]))
        if n in ("builtins.min", "builtins.max"):
            vs = [E(x) for x in pos]
            vs = self.seq(vs[0]) if len(vs) == 1 else vs
            return stat(n[9:], vs)
        if n in ("builtins.any", "builtins.all", "numpy.any", "numpy.all"):
            v = [self.flag(x) for x in self.seq(E(pos[0]))]
            return any(v) if n.endswith("any") else all(v)
        if n in ("builtins.sum", "numpy.sum", "numpy.nansum", "numpy.mean", "numpy.nanmean", "numpy.median", "numpy.nanmedian"):
            if kw or len(pos) > 1:
                raise Open(n)
            vs = self.seq(E(pos[0]))
            if "nan" not in n and n != "builtins.sum" and any(isnan(v) for v in vs) and not isinstance(E(pos[0]), Se):
                return NAN
            return stat("sum" if n.endswith("sum") else "median" if n.endswith("median") else "mean", vs)
        if n in ("numpy.zeros", "numpy.ones", "numpy.empty"):
            k = E(pos[0])
            if not isinstance(k, int):
                raise Open(n)
            return [1 if n.endswith("ones") else 0] * k
        if n == "numpy.full":
            return [E(pos[1])] * E(pos[0])
        if n in ("numpy.isnan", "pandas.isna", "pandas.isnull", "math.isnan"):
            return self.lift(isnan, E(pos[0]))
        if n in ("pandas.notna", "pandas.notnull"):
            return self.lift(lambda v: not isnan(v), E(pos[0]))
        if n in ("numpy.isinf", "math.isinf"):
            return self.lift(lambda v: isinstance(v, float) and v in (INF, -INF), E(pos[0]))
        if n in ("numpy.isfinite", "math.isfinite"):
            return self.lift(lambda v: not isnan(v) and not (isinstance(v, float) and v in (INF, -INF)), E(pos[0]))
        if n in ("numpy.logical_and", "numpy.logical_or", "numpy.logical_xor"):
            return self.bin({"and": "&", "or": "|", "xor": "^"}[n.split("_")[1]], E(pos[0]), E(pos[1]))
        if n == "numpy.logical_not":
            return self.lift(self.no, E(pos[0]))
        if n in ("numpy.isin", "numpy.in1d"):
            s = E(pos[1])
            return self.lift(lambda v: self.inn(v, s), E(pos[0]))
        if n == "numpy.where" and len(pos) == 3:
            def w(q, x, y):
                if isinstance(q, Drawn):
                    if (x, y) == (1, 0):
                        return q
                    if (x, y) == (0, 1):
                        return Drawn(q.draw, q.v, not q.neg)
                return x if self.flag(q) else y
            return self.lift(w, *[E(x) for x in pos])
        if n in ("numpy.random.default_rng", "numpy.random.RandomState"):
            return Rng()
        if n == "pandas.api.types.is_datetime64_any_dtype":
            return self.truths.get("datetime", False)
        if n == "pandas.api.types.is_numeric_dtype":
            v = E(pos[0])
            v = v[1] if isinstance(v, tuple) and v and v[0] == "dtype" else v
            return all(num(x) or isinstance(x, Sym) for x in v.list())
        if n == "pandas.to_datetime":
            return E(pos[0])
        if n == "pandas.MultiIndex.from_product":
            ls = [self.seq(x) for x in E(pos[0])]
            names = E(kw["names"])
            rows = [()]
            for l in ls:
                rows = [r + (x,) for r in rows for x in l]
            return ("multi", rows, names)
        if n == "pandas.DataFrame":
            if "index" in kw and not pos:
                v = E(kw["index"])
                if isinstance(v, tuple) and v and v[0] == "multi":
                    f = Fr(v[1], {}, tuple(v[2]))
                    return f
            if pos and not kw.keys() - {"index"}:
                d = E(pos[0])
                if isinstance(d, dict) and all(isinstance(x, (list, Se)) for x in d.values()):
                    n_ = len(next(iter(d.values())))
                    ix = E(kw["index"]) if "index" in kw else list(range(n_))
                    return Fr(ix, {k: dict(zip(ix, self.seq(x))) for k, x in d.items()})
            raise Open(n)
        if n == "pandas.melt":
            return self.melt(E(pos[0]), {k: E(x) for k, x in kw.items()})
        if n == "pandas.merge" and len(pos) == 2:
            return self.merge(E(pos[0]), E(pos[1]), {k: E(x) for k, x in kw.items()})
        if n == "pandas.concat":
            fs = E(pos[0])
            if all(isinstance(f, Fr) for f in fs) and all(list(f.cols) == list(fs[0].cols) for f in fs):
                rows, cols = [], {k: {} for k in fs[0].cols}
                for f in fs:
                    for r in f.rows:
                        q = Lab(len(rows), r[1] if isinstance(r, Lab) else r)
                        rows.append(q)
                        for k in cols:
                            cols[k][q] = f.cols[k][r]
                return Fr(rows, cols)
        if n == "numpy.abs" or n == "builtins.abs":
            def ab(v):
                if isinstance(v, Sym):
                    raise Open("size of an unknown")
                return v if isnan(v) else abs(v)
            return self.lift(ab, E(pos[0]))
        raise Open(n)

    def isinst(self, v, t):
        names = [x.a[0] for x in (t.a if t.op in ("tuple", "list") else (t,)) if type(x) is T and x.op == "glob"]
        k = {"builtins.list": list, "builtins.tuple": tuple, "builtins.set": (set, frozenset), "builtins.frozenset": frozenset, "builtins.str": str,
             "builtins.int": int, "builtins.float": float, "builtins.dict": dict, "pandas.Series": Se, "pandas.DataFrame": Fr, "numpy.ndarray": (), "pandas.Index": ()}
        if not names or any(n not in k for n in names):
            raise Open("isinstance")
        return any(isinstance(v, k[n]) for n in names)

    def melt(self, f, kw):
        ids, vals = kw["id_vars"], kw["value_vars"]
        var, val = kw.get("var_name", "variable"), kw.get("value_name", "value")
        rows, cols = [], {k: {} for k in list(ids) + [var, val]}
        for c in vals:
            for r in f.rows:
                q = (c, r)
                rows.append(q)
                for i in ids:
                    cols[i][q] = f.cols[i][r]
                cols[var][q], cols[val][q] = c, f.cols[c][r]
        return Fr(rows, cols)

    def merge(self, x, y, kw):
        on, how = kw.get("on"), kw.get("how", "inner")
        on = [on] if isinstance(on, str) else on
        if kw.keys() - {"on", "how"} or on is None or how not in ("left", "inner", "outer"):
            raise Open("merge")
        extra = [k for k in y.cols if k not in on]
        if any(k in x.cols for k in extra):
            raise Open("merge")
        rows, cols = [], {k: {} for k in list(x.cols) + extra}
        key = lambda f, r: tuple(f.cols[k][r] for k in on)
        used = set()
        for r in x.rows:
            hit = [s for s in y.rows if key(y, s) == key(x, r)]
            used |= set(hit)
            for s in hit or ([None] if how != "inner" else []):
                q = len(rows)
                rows.append(q)
                for k in x.cols:
                    cols[k][q] = x.cols[k][r]
                for k in extra:
                    cols[k][q] = y.cols[k][s] if s is not None else NAN
        if how == "outer":
            for s in y.rows:
                if s not in used:
                    q = len(rows)
                    rows.append(q)
                    for k in cols:
                        cols[k][q] = y.cols[k][s] if k in y.cols else NAN
        return Fr(rows, cols)

    def apply(self, fun, x):
        """The value of a local function for one argument."""
        if self.interp is None:
            raise Open("local function")
        b = mk("param", "row@%d@%r" % (fun.id, x))
        self.env[b.a[0]] = x
        return self.ev(self.interp.snap(self.interp.call(fun, [b], {}, None)))

    def method(self, t):
        a, n = t.a, t.a[1]
        pos, kw = self.args(t, 2)
        E = self.ev
        v = E(a[0])
        if n == "round" and isinstance(v, (Fr, Se)):
            return v                         # shown digits, not values
        if n == "map" and len(pos) == 1 and pos[0].op == "func" and isinstance(v, (list, Se)):
            f = {}
            for x in self.seq(v):
                if repr(x) not in f:
                    f[repr(x)] = self.apply(pos[0], x)
            return [f[repr(x)] for x in v] if isinstance(v, list) else self.lift(lambda x: f[repr(x)], v)
        if n in CAST:
            return self.seq(v) if n in ("tolist", "to_list", "to_numpy", "ravel") and isinstance(v, Se) else v
        if n == "isin":
            s = E(pos[0])
            return self.lift(lambda x: self.inn(x, s), v)
        if n in ("isna", "isnull", "notna", "notnull"):
            f = (lambda x: isnan(x)) if n.startswith("is") else (lambda x: not isnan(x))
            if isinstance(v, Fr):
                return Fr(v.rows, {k: {r: f(x) for r, x in c.items()} for k, c in v.cols.items()})
            return self.lift(f, v)
        if n in ("eq", "ne", "lt", "le", "gt", "ge") and len(pos) == 1:
            y = E(pos[0])
            if n in ("gt", "ge"):
                return self.lift(lambda p, q: self.cmp("lt" if n == "gt" else "le", q, p), v, y)
            return self.lift(lambda p, q: self.cmp(n, p, q), v, y)
        if n == "between" and len(pos) == 2 and not kw:
            lo, hi = E(pos[0]), E(pos[1])
            return self.lift(lambda x: self.cmp("le", lo, x) and self.cmp("le", x, hi), v)
        if n in ("sub", "add", "mul", "div") and len(pos) == 1 and not kw:
            return self.lift(lambda p, q: arith({"sub": "-", "add": "+", "mul": "*", "div": "/"}[n], p, q), v, E(pos[0]))
        if n in ("lower", "upper") and isinstance(v, str):
            return getattr(v, n)()
        if isinstance(v, Rng):
            if n == "choice" and pos:
                k = t.id, tuple(sorted((str(i), repr(x)) for i, x in self.bound.items() if isinstance(x, (int, str))))
                if k not in self.draws:
                    size = kw.get("size", pos[1] if len(pos) > 1 else None)
                    rep = kw.get("replace", pos[2] if len(pos) > 2 else None)
                    if kw.keys() - {"size", "replace"}:
                        raise Open("weighted draw")
                    if size is None:
                        raise Open("single draw")
                    self.draws[k] = Draw(self.seq(E(pos[0])), E(size), True if rep is None else self.truth(rep), t.id)
                return self.draws[k]
            if n == "permutation" and len(pos) == 1 and not kw:
                raise Open("permutation")
            raise Open("draw")
        if isinstance(v, dict):
            if n == "get":
                return v.get(E(pos[0]), E(pos[1]) if len(pos) > 1 else None)
            if n in ("keys", "values", "items") and not pos:
                return list(getattr(v, n)())
            if n == "copy":
                return v
        if isinstance(v, (set, frozenset)):
            if n in ("issubset", "issuperset", "union", "intersection", "difference") and len(pos) == 1:
                r = getattr(frozenset(v), n)(frozenset(self.seq(E(pos[0]))))
                return r
        if isinstance(v, Group):
            return self.grouped(v, n, pos, kw)
        if isinstance(v, Fr):
            return self.framed(v, n, pos, kw)
        if isinstance(v, Se):
            return self.seried(v, n, pos, kw)
        if isinstance(v, list):
            if n in STAT and not pos and not kw:
                return stat(n, v)
            if n == "intersection":
                o = self.seq(E(pos[0]))
                return [x for x in v if x in o]
            if n in ("any", "all") and not pos:
                r = [self.flag(x) for x in v]
                return any(r) if n == "any" else all(r)
        if isinstance(v, str) and n == "join":
            return v.join(str(x) for x in self.seq(E(pos[0])))
        raise Open("method " + n)

    def seried(self, v, n, pos, kw):
        E = self.ev
        if n == "unique":
            return uniq(v.list())
        if n == "drop_duplicates" and not pos and not kw:
            return uniq(v.list())
        if n == "dropna":
            rows = [r for r in v.rows if not isnan(v.vals[r])]
            return Se(rows, v.vals, v.name)
        if n in STAT and not pos and not kw:
            return stat(n, v.list())
        if n in ("any", "all") and not pos:
            r = [self.flag(x) for x in v.list()]
            return any(r) if n == "any" else all(r)
        if n == "fillna" and len(pos) == 1 and not kw:
            x = E(pos[0])
            return self.lift(lambda q: x if isnan(q) else q, v)
        if n in ("ffill", "bfill") and not pos and not kw:
            return Se(v.rows, filled(v.rows, v.vals, n), v.name)
        if n == "duplicated" and not kw:
            keep = E(pos[0]) if pos else "first"
            return Se(v.rows, repeated([v.vals[r] for r in v.rows], v.rows, keep), v.name)
        if n == "map" and len(pos) == 1:
            d = E(pos[0])
            if isinstance(d, dict):
                return self.lift(lambda q: d.get(q, NAN), v)
        if n == "reset_index" and "drop" in kw and self.truth(kw["drop"]):
            return Se(range(len(v.rows)), dict(enumerate(v.list())), v.name)
        if n == "reset_index" and isinstance(v.name, tuple):
            key, col = v.name
            ix = range(len(v.rows))
            return Fr(ix, {key: dict(zip(ix, v.rows)), col: dict(zip(ix, v.list()))})
        if n == "sort_values" and not pos and not kw:
            rows = sorted(v.rows, key=lambda r: v.vals[r])
            return Se(rows, v.vals, v.name)
        if n == "clip":
            raise Open("clip")
        if n == "groupby":
            raise Open("groupby of a column")
        raise Open("method " + n)

    def framed(self, v, n, pos, kw):
        E = self.ev
        if n == "reset_index":
            if "drop" in kw and self.truth(kw["drop"]):
                ix = range(len(v.rows))
                return Fr(ix, {k: {i: c[r] for i, r in enumerate(v.rows)} for k, c in v.cols.items()})
            if v.names != ("",) and not pos and not kw:
                ix = range(len(v.rows))
                many = len(v.names) > 1
                cols = {m: {i: (r[j] if many else r) for i, r in enumerate(v.rows)} for j, m in enumerate(v.names)}
                cols.update({k: {i: c[r] for i, r in enumerate(v.rows)} for k, c in v.cols.items()})
                return Fr(ix, cols)
            raise Open("reset_index")
        if n == "merge" and len(pos) >= 1:
            k = {q: E(x) for q, x in kw.items()}
            if len(pos) > 1:
                k["how"] = E(pos[1])
            return self.merge(v, E(pos[0]), k)
        if n == "assign" and not pos:
            for k, x in kw.items():
                v = self.store(v, k, E(x))
            return v
        if n == "sort_values":
            by = E(kw["by"] if "by" in kw else pos[0])
            by = [by] if isinstance(by, str) else by
            asc = E(kw["ascending"]) if "ascending" in kw else True
            if kw.keys() - {"by", "ascending"} or asc not in (True, False):
                raise Open("sort_values")
            try:
                return v.pick(sorted(v.rows, key=lambda r: tuple(v.cols[b][r] for b in by), reverse=not asc))
            except TypeError:
                raise Open("order")
        if n == "groupby":
            ks = E(pos[0] if pos else kw["by"])
            ks = [ks] if isinstance(ks, str) else ks
            if not all(isinstance(k, str) and k in v.cols for k in ks):
                raise Open("groupby")
            return Group(v, ks)
        if n == "drop":
            k = E(kw["columns"] if "columns" in kw else pos[0])
            if "columns" not in kw and E(kw.get("axis", const(0))) not in (1, "columns"):
                raise Open("drop rows")
            k = [k] if isinstance(k, str) else k
            return Fr(v.rows, {c: x for c, x in v.cols.items() if c not in k}, v.names)
        if n == "rename" and "columns" in kw and not pos:
            d = E(kw["columns"])
            return Fr(v.rows, {d.get(c, c): x for c, x in v.cols.items()}, v.names)
        if n == "select_dtypes":
            return Fr(v.rows, {c: x for c, x in v.cols.items() if all(num(q) or isinstance(q, Sym) for q in x.values())}, v.names)
        if n == "drop_duplicates":
            k = E(kw["subset"] if "subset" in kw else pos[0]) if (pos or "subset" in kw) else list(v.cols)
            k = [k] if isinstance(k, str) else k
            seen, rows = set(), []
            for r in v.rows:
                q = tuple(v.cols[c][r] for c in k)
                if q not in seen:
                    seen.add(q)
                    rows.append(r)
            return v.pick(rows)
        if n == "dropna":
            k = E(kw["subset"]) if "subset" in kw else list(v.cols)
            k = [k] if isinstance(k, str) else k
            return v.pick([r for r in v.rows if not any(isnan(v.cols[c][r]) for c in k)])
        if n == "fillna" and len(pos) == 1 and not kw:
            x = E(pos[0])
            return Fr(v.rows, {k: {r: x if isnan(q) else q for r, q in c.items()} for k, c in v.cols.items()}, v.names)
        if n in ("ffill", "bfill") and not pos and not kw:
            return Fr(v.rows, {k: filled(v.rows, c, n) for k, c in v.cols.items()}, v.names)
        if n == "duplicated":
            k = E(kw["subset"] if "subset" in kw else pos[0]) if (pos or "subset" in kw) else list(v.cols)
            k = [k] if isinstance(k, str) else k
            return Se(v.rows, repeated([tuple(v.cols[c][r] for c in k) for r in v.rows], v.rows, E(kw["keep"]) if "keep" in kw else "first"))
        if n in ("head", "tail", "sample"):
            raise Open(n)
        raise Open("method " + n)

    def grouped(self, g, n, pos, kw):
        E = self.ev
        gs = g.groups()
        try:
            order = sorted(gs)
        except TypeError:
            raise Open("order")
        if n in ("ffill", "bfill") and g.cols and not pos and not kw:
            out = {}
            for c in g.cols:
                w = {}
                for k in gs:
                    w.update(filled(gs[k], g.fr.cols[c], n))
                out[c] = w
            if g.single:
                return Se(g.fr.rows, out[g.cols[0]], g.cols[0])
            return Fr(g.fr.rows, out, g.fr.names)
        if n == "transform" and g.cols and g.single and len(pos) == 1:
            f = E(pos[0])
            if f in STAT:
                w = {}
                for k, rows in gs.items():
                    s = stat(f, [g.fr.cols[g.cols[0]][r] for r in rows])
                    w.update({r: s for r in rows})
                return Se(g.fr.rows, w, g.cols[0])
        if n == "agg" and not pos and kw and g.cols and g.single:
            d = {c: E(f) for c, f in kw.items()}
            if all(isinstance(f, str) and f in STAT for f in d.values()):
                return Fr(order, {c: {k: stat(f, [g.fr.cols[g.cols[0]][r] for r in gs[k]]) for k in order} for c, f in d.items()}, tuple(g.keys))
        if kw.keys() - {"dropna"}:
            raise Open("options of " + n)
        if n == "size" and not pos:
            return Se(order, {k: len(gs[k]) for k in order}, (g.keys[0], "size"))
        if n in STAT and not pos:
            cols = g.cols or [c for c in g.fr.cols if c not in g.keys]
            out = {c: {k: stat(n, [g.fr.cols[c][r] for r in gs[k]]) for k in order} for c in cols}
            if g.single and g.cols:
                return Se(order, out[cols[0]], (g.keys[0], cols[0]) if len(g.keys) == 1 else None)
            return Fr(order, out, tuple(g.keys))
        if n == "agg" and len(pos) == 1:
            d = E(pos[0])
            if isinstance(d, str) and d in STAT:
                return self.grouped(g, d, [], {})
            if isinstance(d, list) and g.cols and g.single:
                d = [x if isinstance(x, tuple) else (x, x) for x in d]
                if all(isinstance(f, str) and f in STAT for _, f in d):
                    return Fr(order, {c: {k: stat(f, [g.fr.cols[g.cols[0]][r] for r in gs[k]]) for k in order} for c, f in d}, tuple(g.keys))
            if isinstance(d, dict) and g.cols is None and all(isinstance(f, str) and f in STAT and c in g.fr.cols for c, f in d.items()):
                return Fr(order, {c: {k: stat(f, [g.fr.cols[c][r] for r in gs[k]]) for k in order} for c, f in d.items()}, tuple(g.keys))
        raise Open("groupby " + n)
