"""Row masks and period look-ups of staggered designs, decided on the order types of (cohort, group, period, anticipation)."""
import itertools
from .terms import *
from .alg import args_of, Poly, Norm

INF = float("inf")


class Unknown(Exception):
    pass


def lookup(t):
    """Value a dict built entry by entry holds under the key of idx(t, key), with the key put in place of the entry's own."""
    o, key = t.a
    if o.op == "comp" and o.a[0] == "dict" and type(o.a[1]) is T and o.a[1].op == "kv":
        return subst(o.a[1].a[1], {o.a[1].a[0]: key})
    if o.op != "mu" or o.next is None or o.init.op != "dict" or o.init.a or is_const(key):
        return None

    def last(x, d=0):
        if x is o or d > 40:
            return None
        if x.op == "ite":
            a, b = last(x.a[1], d + 1), last(x.a[2], d + 1)
            return b if a is None else a if b is None else ite(x.a[0], a, b)
        if x.op == "setitem" and not is_const(x.a[1]):
            return x.a[2] if x.a[1] is key else subst(x.a[2], {x.a[1]: key})
        return None
    return last(o.next)


PASS_M = {"to_numpy", "astype", "first", "max", "min", "reset_index", "values", "copy", "reindex", "fillna", "item", "to_list", "tolist", "ravel", "flatten", "agg", "nth", "head"}
PASS_C = {"numpy.asarray", "numpy.array", "pandas.to_numeric", "builtins.float", "builtins.int", "numpy.float64"}


class Design:
    """Names of the quantities: g, t are terms, cohort(term) says whether a term is the vector of first-treatment periods."""

    def __init__(self, names, cohort):
        self.names = {x.id: n for x, n in names.items()}
        self.cohort = cohort

    def num(self, x, env, d=0):
        if d > 40:
            raise Unknown()
        if x.id in self.names:
            return env[self.names[x.id]]
        if x.op == "c":
            v = cval(x)
            if isinstance(v, (int, float)):
                return v
            raise Unknown()
        if x.op == "cfg" and x.a[0] in env:
            return env[x.a[0]]
        if x.op == "glob" and x.a[0] in ("numpy.inf", "math.inf"):
            return INF
        if x.op == "un" and x.a[0] in "+-":
            v = self.num(x.a[1], env, d + 1)
            return -v if x.a[0] == "-" else v
        if x.op == "bin" and x.a[0] in "+-*":
            a, b = self.num(x.a[1], env, d + 1), self.num(x.a[2], env, d + 1)
            return a + b if x.a[0] == "+" else a - b if x.a[0] == "-" else a * b
        if x.op == "ite":
            return self.num(x.a[1] if self.scalar(x.a[0], env, d + 1) else x.a[2], env, d + 1)
        if x.op == "call" and x.a[0] in ("builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum"):
            pos, kw = args_of(x)
            if len(pos) > 1 and not kw:
                v = [self.num(p, env, d + 1) for p in pos]
                return max(v) if "max" in x.a[0] else min(v)
        if x.op == "call" and x.a[0] in ("builtins.abs", "numpy.abs", "numpy.absolute", "math.fabs") and len(x.a) == 2:
            return abs(self.num(x.a[1], env, d + 1))
        if x.op == "call" and x.a[0] in PASS_C and len(x.a) == 2:
            return self.num(x.a[1], env, d + 1)
        if self.cohort(x):
            return env["c"]
        if x.op == "idx":
            v = lookup(x)
            if v is not None:
                return self.num(v, env, d + 1)
        raise Unknown()

    def scalar(self, x, env, d=0):
        return self.bool(x, env, {}, d, True)

    def bool(self, x, env, atoms, d=0, strict=False):
        """Truth of an elementwise (or scalar) condition; atoms: {id: truth} of conditions about missing values."""
        if d > 60:
            raise Unknown()
        v = truth(x)
        if v is not None:
            return v
        B = lambda y: self.bool(y, env, atoms, d + 1, strict)
        if x.op in ("lt", "le", "eq"):
            a, b = self.num(x.a[0], env), self.num(x.a[1], env)
            return a < b if x.op == "lt" else a <= b if x.op == "le" else a == b
        if x.op == "not" or x.op == "un" and x.a[0] in ("~", "not"):
            return not B(x.a[-1])
        if x.op == "bin" and x.a[0] in "&|^":
            a, b = B(x.a[1]), B(x.a[2])
            return (a and b) if x.a[0] == "&" else (a or b) if x.a[0] == "|" else a != b
        if x.op == "bin" and x.a[0] == "*":
            return B(x.a[1]) and B(x.a[2])
        if x.op == "and":
            return all([B(y) for y in x.a])
        if x.op == "or":
            return any([B(y) for y in x.a])
        if x.op == "ite":
            return B(x.a[1]) if self.scalar(x.a[0], env, d + 1) else B(x.a[2])
        if x.op == "call":
            pos, kw = args_of(x)
            f = x.a[0]
            if f in ("numpy.logical_and", "numpy.logical_or", "numpy.logical_xor") and len(pos) == 2:
                a, b = B(pos[0]), B(pos[1])
                return (a and b) if f.endswith("and") else (a or b) if f.endswith("_or") else a != b
            if f == "numpy.logical_not" and len(pos) == 1:
                return not B(pos[0])
            if f in ("numpy.isinf", "numpy.isposinf") and len(pos) == 1:
                return self.num(pos[0], env) == INF
            if f in ("numpy.equal", "numpy.not_equal", "numpy.greater", "numpy.greater_equal", "numpy.less", "numpy.less_equal") and len(pos) == 2:
                a, b = self.num(pos[0], env), self.num(pos[1], env)
                return {"equal": a == b, "not_equal": a != b, "greater": a > b, "greater_equal": a >= b, "less": a < b, "less_equal": a <= b}[f[6:]]
            if f in ("numpy.isin", "numpy.in1d") and len(pos) == 2 and pos[1].op in ("list", "tuple", "set"):
                a = self.num(pos[0], env)
                return any(a == self.num(y, env) for y in pos[1].a)
            if f == "numpy.where" and len(pos) == 3:
                return B(pos[1]) if B(pos[0]) else B(pos[2])
            if f in ("numpy.asarray", "numpy.array") and pos:
                return B(pos[0])
            if f in ("numpy.isnan", "numpy.isfinite", "pandas.isna", "pandas.isnull", "pandas.notna", "pandas.notnull", "numpy.any", "numpy.all") and not strict:
                return self.atom(x, pos[0], env, atoms)
        if x.op == "m" and x.a[1] in ("isin",) and x.a[2].op in ("list", "tuple", "set"):
            a = self.num(x.a[0], env)
            return any(a == self.num(y, env) for y in x.a[2].a)
        if x.op == "m" and x.a[1] in ("isna", "isnull", "notna", "notnull", "any", "all") and not strict:
            return self.atom(x, x.a[0], env, atoms)
        if x.op == "m" and x.a[1] in ("eq", "ne", "gt", "ge", "lt", "le") and len(x.a) == 3:
            a, b = self.num(x.a[0], env), self.num(x.a[2], env)
            return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[x.a[1]]
        if x.op == "m" and x.a[1] in ("to_numpy", "astype", "copy"):
            return B(x.a[0])
        if x.op == "attr" and x.a[1] == "values":
            return B(x.a[0])
        if x.op == "idx":
            y = lookup(x)
            if y is not None:
                return B(y)
        raise Unknown()

    def atom(self, x, arg, env, atoms):
        try:
            self.num(arg, env)
            ok = False
        except Unknown:
            ok = True
        if not ok:
            return "is" in x.a[0] and "not" in x.a[0]   # cohorts are never missing
        if "miss" in env:
            f = x.a[0] if x.op == "call" else x.a[1]
            try:
                l = lin(arg, Norm())
            except Exception:
                l = None
            if l and not f.endswith(("any", "all")):
                try:
                    gone = any(env["miss"].get(self.num(period(col)[0], env), False) for co, mat, col, ms in l)
                except (Unknown, KeyError):
                    gone = None
                if gone is not None:
                    return gone if f.split(".")[-1] in ("isnan", "isna", "isnull") else not gone
        if x.id not in atoms:
            raise NeedAtom(x.id)
        return atoms[x.id]

    def table(self, m, env, cap=8):
        """Set of truth values the mask takes at this grid point over all missing-value patterns."""
        out = set()
        st = [{}]
        while st:
            a = st.pop()
            try:
                out.add(self.bool(m, env, a))
            except NeedAtom as e:
                if len(a) >= cap:
                    raise Unknown()
                st += [{**a, e.key: True}, {**a, e.key: False}]
        return out


class NeedAtom(Exception):
    def __init__(self, key):
        self.key = key


MASKOPS = {"lt", "le", "eq", "not"}


def maskish(k):
    if k.op in MASKOPS or k.op == "bin" and k.a[0] in "&|^" or k.op == "un" and k.a[0] == "~":
        return True
    if k.op == "call" and k.a[0].startswith(("numpy.logical_", "numpy.is")):
        return True
    if k.op == "m" and k.a[1] in ("isin", "isna", "notna"):
        return True
    if k.op == "ite":
        return maskish(k.a[1]) and maskish(k.a[2])
    if k.op == "idx":
        v = lookup(k)
        return v is not None and maskish(v)
    return False


def rowsel(k):
    """The row mask an index stands for: a mask, or the positions where it is true."""
    while True:
        if k.op == "call" and k.a[0] in ("numpy.flatnonzero",) and len(k.a) == 2:
            k = k.a[1]
        elif k.op == "idx" and k.a[0].op == "call" and k.a[0].a[0] in ("numpy.where", "numpy.nonzero") and len(k.a[0].a) == 2 and k.a[1].op == "c" and cval(k.a[1]) == 0:
            k = k.a[0].a[1]
        elif k.op == "m" and k.a[1] in ("to_numpy", "copy", "astype") or k.op == "attr" and k.a[1] == "values":
            k = k.a[0]
        else:
            break
    return k if maskish(k) else None


class Altered(Exception):
    """Outcomes are replaced or reduced by something else than a difference or a mean."""


ALTER = {"ffill", "bfill", "fillna", "interpolate", "pad", "backfill", "rank", "diff", "cumsum", "shift", "clip", "round", "rolling", "expanding", "ewm", "replace", "mask", "where", "sort_values", "sort_index"}
ALTERC = {"numpy.where", "numpy.nan_to_num", "numpy.clip", "numpy.round", "numpy.abs", "numpy.log", "numpy.exp", "numpy.sort", "numpy.cumsum", "numpy.maximum", "numpy.minimum"}
REDUCE = {"median", "max", "min", "sum", "nanmedian", "percentile", "quantile", "nansum", "prod", "std", "var", "ptp", "amax", "amin"}


def altered(mat):
    """Method between the table of outcomes and its use that changes values."""
    while True:
        if mat.op == "m":
            if mat.a[1] in ("pivot", "pivot_table", "unstack"):
                return None
            if mat.a[1] in ALTER and mat.a[1] not in ("sort_values", "sort_index"):
                return mat.a[1]
            mat = mat.a[0]
        elif mat.op == "attr" or mat.op == "idx":
            mat = mat.a[0]
        elif mat.op == "call" and len(mat.a) > 1 and type(mat.a[1]) is T:
            if mat.a[0] in ALTERC:
                return mat.a[0]
            mat = mat.a[1]
        else:
            return None


SLICE = ("slice",)


def full(k):
    return k.op == "slice" and all(x is NONE for x in k.a)


def period(k):
    """(term of the period a column index stands for, positional offset)."""
    off = 0
    while k.op == "bin" and k.a[0] in "+-" and k.a[2].op == "c" and isinstance(cval(k.a[2]), int) and _col(k.a[1]) is not None:
        off += cval(k.a[2]) if k.a[0] == "+" else -cval(k.a[2])
        k = k.a[1]
    p = _col(k)
    return (p, off) if p is not None else (k, 0)


def _col(k):
    while k.op == "call" and k.a[0] in ("builtins.int",) and len(k.a) == 2:
        k = k.a[1]
    if k.op == "idx" and k.a[0].op in ("comp", "mu", "call", "attr", "dict", "setitem") and not is_const(k.a[1]):
        return k.a[1]
    if k.op == "m" and k.a[1] in ("index", "get_loc", "searchsorted", "get") and len(k.a) >= 3:
        return k.a[2]
    return None


def lin(t, N, masks=()):
    """Array term as a list of (coefficient, matrix, column index, masks); None when it is not of that form."""
    t = N.res(t)
    op, a = t.op, t.a
    if op == "bin" and a[0] in "+-":
        x, y = lin(a[1], N, masks), lin(a[2], N, masks)
        if x is None or y is None:
            return None
        return x + [(-c if a[0] == "-" else c, m, k, s) for c, m, k, s in y]
    if op == "un" and a[0] in "+-":
        x = lin(a[1], N, masks)
        return None if x is None else [(-c if a[0] == "-" else c, m, k, s) for c, m, k, s in x]
    if op == "call" and a[0] in ("numpy.asarray", "numpy.array", "numpy.subtract", "numpy.add"):
        pos, kw = args_of(t)
        if a[0] in ("numpy.subtract", "numpy.add") and len(pos) == 2:
            return lin(mk("bin", "-" if a[0].endswith("t") else "+", pos[0], pos[1]), N, masks)
        return lin(pos[0], N, masks)
    if op == "call" and a[0] == "numpy.compress" and len(a) == 3 and rowsel(a[1]) is not None:
        return lin(a[2], N, masks + (rowsel(a[1]),))
    if op == "call" and a[0] == "numpy.take" and len(a) == 3 and rowsel(a[2]) is not None:
        return lin(a[1], N, masks + (rowsel(a[2]),))
    if op == "call" and a[0] in ALTERC and any(type(x) is T and lin(x, N) is not None for x in a[1:]):
        raise Altered("%s is applied to the outcomes" % a[0])
    if op == "m" and a[1] in ALTER and lin(a[0], N) is not None:
        raise Altered("%s is applied to the outcomes" % a[1])
    if op == "attr" and a[1] == "values":
        return lin(a[0], N, masks)
    if op == "idx":
        k = a[1]
        if rowsel(k) is not None:
            return lin(a[0], N, masks + (rowsel(k),))
        if k.op == "tuple" and len(k.a) == 2:
            r, col = k.a
            if full(r):
                return [(1, a[0], col, masks)]
            if rowsel(r) is not None:
                return [(1, a[0], col, masks + (rowsel(r),))]
    return None


def strip1(t, N):
    t = N.res(t)
    while t.op == "call" and t.a[0] in ("builtins.float", "builtins.int", "numpy.float64") and len(t.a) == 2:
        t = N.res(t.a[1])
    return t


def count_of(t, N):
    """Mask whose rows this counts, as a tuple of masks."""
    t = strip1(t, N)
    if t.op == "call" and t.a[0] in ("numpy.sum", "numpy.count_nonzero", "builtins.sum") and len(t.a) == 2 and maskish(t.a[1]):
        return (t.a[1],)
    if t.op == "m" and t.a[1] == "sum" and len(t.a) == 2 and maskish(t.a[0]):
        return (t.a[0],)
    if t.op == "call" and t.a[0] == "builtins.len" and len(t.a) == 2:
        return rows_of(t.a[1], N)
    if t.op == "attr" and t.a[1] == "size":
        return rows_of(t.a[0], N)
    if t.op == "idx" and t.a[0].op == "attr" and t.a[0].a[1] == "shape" and t.a[1].op == "c" and cval(t.a[1]) == 0:
        return rows_of(t.a[0].a[0], N)
    return None


def rows_of(t, N):
    """Masks applied to the rows of an array."""
    t = N.res(t)
    if t.op == "idx" and rowsel(t.a[1]) is not None:
        r = rows_of(t.a[0], N)
        return (r or ()) + (rowsel(t.a[1]),)
    if t.op == "idx" and t.a[1].op == "tuple" and t.a[1].a and rowsel(t.a[1].a[0]) is not None:
        return (rowsel(t.a[1].a[0]),)
    if t.op == "call" and t.a[0] == "numpy.compress" and len(t.a) == 3 and rowsel(t.a[1]) is not None:
        return (rows_of(t.a[2], N) or ()) + (rowsel(t.a[1]),)
    if t.op == "call" and t.a[0] == "numpy.flatnonzero" and rowsel(t) is not None:
        return (rowsel(t),)
    if t.op == "bin":
        a, b = rows_of(t.a[1], N), rows_of(t.a[2], N)
        return a or b
    if t.op == "call" and t.a[0] in ("builtins.list", "numpy.asarray", "numpy.array") and len(t.a) >= 2:
        return rows_of(t.a[1], N)
    return None


def means(p, N):
    """Polynomial as a combination of group means: [(coef, matrix, column, masks)], or None."""
    out = []
    for mono, v in p.m.items():
        d = dict(mono)
        pos = [k for k, n in mono if n == 1]
        neg = [k for k, n in mono if n == -1]
        if len(pos) != 1 or len(mono) != len(pos) + len(neg) or pos[0][0] != "t":
            return None
        x = byid(pos[0][1])
        arr = None
        if x.op == "call" and x.a[0] in ("numpy.mean", "numpy.average") and len(x.a) == 2 and not neg:
            arr = x.a[1]
        elif x.op == "m" and x.a[1] == "mean" and len(x.a) == 2 and not neg:
            arr = x.a[0]
        elif len(neg) == 1 and neg[0][0] == "t":
            if x.op == "call" and x.a[0] in ("numpy.sum", "builtins.sum") and len(x.a) == 2:
                arr = x.a[1]
            elif x.op == "m" and x.a[1] == "sum" and len(x.a) == 2:
                arr = x.a[0]
            n = count_of(byid(neg[0][1]), N)
            if arr is not None and (n is None or n != rows_of(arr, N)):
                return None
        if arr is None:
            f = x.a[0].split(".")[-1] if x.op == "call" else x.a[1] if x.op == "m" else None
            if f in REDUCE:
                y = x.a[1] if x.op == "call" and len(x.a) > 1 else x.a[0]
                if type(y) is T and lin(y, N) is not None and not (f == "sum" and neg):
                    raise Altered("the %s of the changes is taken instead of their mean" % f)
            return None
        l = lin(arr, N)
        if l is None:
            return None
        out += [(v * c, m, k, s) for c, m, k, s in l]
    return out


def feasible(world, D, env):
    """Does this grid point satisfy the world's conditions (those that can be evaluated)?"""
    for k, v in world.items():
        try:
            if k[0] == "t":
                x = byid(k[1])
                if x is not None and D.scalar(x, env) != v:
                    return False
            elif k[0] in ("pos", "neg") and k[1] == "p":
                s = 0
                for mono, co in k[2:]:
                    w = co
                    for a, n in mono:
                        if a[0] != "t" or n < 0:
                            raise Unknown()
                        w *= int(D.num(byid(a[1]), env)) ** n
                    s += w
                if (s > 0 if k[0] == "pos" else s < 0) != v:
                    return False
        except (Unknown, KeyError, OverflowError, ValueError):
            pass
    return True
