"""C26: honest bounds are computed from the event study's own post-period effects, their covariance block and its pre-period effects."""
import re
from ..terms import *
from ..alg import Need, Overflow
from ..entry import analyze
from ..sym import Sym, same, args, sp, Opaque
from .c24 import listed

FIT = "HonestDiD.fit"
CELLS = [(t, g, f) for t in (-2, -1, 0, 1) for g in (0, 1) for f in (False, True)]
NCELL = {k: sp.Symbol("n%d%d%d" % (k[0] + 2, k[1], k[2]), positive=True) for k in CELLS}
NMP = {k: sp.Symbol("n_" + k, positive=True) for k in ("pre", "post")}
RESULTS = mk("param", "results")
ALPHA = sp.Symbol("alpha", real=True)
MSYM = sp.Symbol("M", real=True)
MCFG = sp.Symbol("Mconfigured", real=True)
WRAP = ("numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple", "numpy.asanyarray", "numpy.atleast_1d", "numpy.ravel")


class Unread(Exception):
    pass


def fields(t):
    return {x.a[0]: x.a[1] for x in t.a if type(x) is T and x.op == "f"}


class Hon(Sym):
    def __init__(self, kind, world=None, zero=None, leaves=None):
        self.kind, self.zero, self.leaves = kind, zero, leaves or {}
        self.M = self.leaves.get("M", MSYM)
        super().__init__(world, leaf=self.leaf1, assume=self.assume1)

    # ---- what is given
    def leaf1(self, t):
        if t.id in self.leaves:
            return self.leaves[t.id]
        if t.op in ("param", "cfg") and t.a[0] in ("M", "self.M"):
            return MCFG if t.op == "cfg" else MSYM
        if t.op in ("param", "cfg") and t.a[0] in ("alpha", "self.alpha"):
            return ALPHA
        if t.op == "attr" and t.a[0] is RESULTS and t.a[1] in ("avg_se", "overall_se"):
            return sp.Symbol("scale", positive=True)
        return None

    def coefs(self, t):
        t = self.res(t)
        while t.op == "or":
            t = t.a[0] if t.a[0].op != "dict" else t.a[1]
        while t.op == "call" and t.a[0] in WRAP + ("builtins.dict",) and len(t.a) == 2 or t.op == "m" and t.a[1] in ("keys", "copy") and len(t.a) == 2:
            t = self.res(t.a[1] if t.op == "call" else t.a[0])
            while t.op == "or":
                t = t.a[0] if t.a[0].op != "dict" else t.a[1]
        return t.op == "attr" and t.a[1] == "coefficients" and t.a[0] is RESULTS

    def names(self, t, v):
        """A name made from period v as the interactions are named."""
        for x in reach([t]):
            if x.op == "fstr" and len(x.a) >= 2 and x.a[-1] is v and is_const(x.a[-2]) and str(cval(x.a[-2])).endswith(":period_"):
                return True
        return False

    def assume1(self, t, N):
        if t.op in ("exc", "excpart"):
            return False
        if t.op == "isinstance" and t.a[0] is RESULTS:
            q = t.a[1].a[0] if t.a[1].op == "cls" else ""
            return {"mp": "MultiPeriod", "cs": "CallawaySantAnna"}[self.kind] in str(q)
        if t.op == "hasattr":
            return True
        if t.op == "attr" and t.a[1] == "success":
            return True
        if t.op == "attr" and t.a[0] is RESULTS and t.a[1] in ("coefficients", "event_study_effects", "pre_periods", "post_periods", "period_effects"):
            return True
        if t.op == "is" and t.a[1] is NONE:
            x = t.a[0]
            if x.op in ("param", "cfg") and x.a[0] in ("M", "self.M"):
                return x.op == "param" and self.M is MCFG
            if x.id in self.leaves:
                return False
            if x.op == "attr" and x.a[0] is RESULTS and x.a[1] in ("coefficients", "event_study_effects"):
                return False
            if x.op in ("ite", "idx") and any(y.op == "fstr" for y in reach([x])):
                return False
        if t.op == "in" and any(y.op == "fstr" for y in reach([t])):
            return not (t.a[0] is NONE)
        if t.op == "call" and t.a[0] in ("builtins.all", "builtins.any") and any(y.op == "fstr" for y in reach([t])):
            return t.a[0].endswith("all")
        if t.op in ("comp", "mu"):
            try:
                s, _ = self.seq(t)
                return True
            except Unread:
                return None
        if t.op in ("eq", "lt", "le"):
            # sizes
            zero = [x for x in t.a if is_const(x) and cval(x) == 0 and not isinstance(cval(x), bool)]
            oth = [x for x in t.a if x not in zero]
            if t.op in ("eq", "lt") and len(zero) == 1 and len(oth) == 1 and (t.op == "eq" or zero[0] is t.a[0]):
                if self.is_maxabs(oth[0]):
                    z = self.zero
                    return z if t.op == "eq" else (None if z is None else not z)
                o = self.res(oth[0])
                if o.op == "idx" and o.a[0].op == "attr" and o.a[0].a[1] == "shape" and any(y.op == "mu" or y.op == "call" and y.a[0] in ("numpy.zeros", "numpy.diff") for y in reach([o])):
                    try:
                        self.size(o)
                    except Unread:
                        return t.op == "lt"
            try:
                x, y = self.size(t.a[0]), self.size(t.a[1])
            except Unread:
                if t.op == "eq" and any(z.op == "attr" and z.a[1] == "vcov" for z in reach([t])) and any(z.op == "attr" and z.a[1] == "coefficients" for z in reach([t])):
                    return True
                if t.op == "eq" and any(z.op == "fstr" for z in reach([t])):
                    return True
                return None
            d = sp.expand(y - x)
            if not d.free_symbols:
                return bool(d == 0) if t.op == "eq" else bool(d > 0) if t.op == "lt" else bool(d >= 0)
            cs = d.as_coefficients_dict()
            k = cs.pop(sp.Integer(1), 0)
            if all(v > 0 for v in cs.values()) and sum(cs.values()) + k > 0 or all(v < 0 for v in cs.values()) and sum(cs.values()) + k < 0:
                up = sum(cs.values()) > 0
                return False if t.op == "eq" else up
            if t.op in ("lt", "le") and k and all(v > 0 for v in list((-d).as_coefficients_dict().values())[:0]):
                return None
            if t.op == "lt" and is_const(t.a[1]) and cval(t.a[1]) in (2, 3):
                return False
        return None

    def is_maxabs(self, t):
        try:
            return "maxabs" in [self.argsof(s)[0] for s in self.e(t).free_symbols if self.argsof(s)]
        except (Unread, Opaque):
            return False

    # ---- sets of periods
    def dom(self, t):
        t = self.res(t)
        if t.op == "call" and t.a[0] in WRAP and len(t.a) == 2:
            return self.dom(t.a[1])
        if t.op == "call" and t.a[0] == "builtins.sorted":
            p, k = args(t)
            if len(p) == 1 and not k:
                d = self.dom(p[0])
                return d[:2] + ("sorted",)
            raise Unread("order of " + show(t, 3))
        if t.op == "m" and t.a[1] in ("keys", "items", "values") and len(t.a) == 2:
            return self.dom(t.a[0])
        if t.op == "m" and t.a[1] in ("copy", "tolist") and len(t.a) == 2:
            return self.dom(t.a[0])
        if t.op == "attr" and t.a[0] is RESULTS:
            if t.a[1] in ("post_periods", "pre_periods") and self.kind == "mp":
                return ("mp", t.a[1][:-8], "given")
            if t.a[1] == "period_effects" and self.kind == "mp":
                return ("mp", "post", "given")
            if t.a[1] == "event_study_effects" and self.kind == "cs":
                return ("cs", frozenset(CELLS), "given")
        if t.op in ("comp", "mu"):
            v, b = self.pieces(t)
            return b[1]
        if t.op == "idx" and t.a[1].op == "slice":
            return self.cut(self.dom(t.a[0]), t.a[1])
        raise Unread("periods " + show(t, 3)[:80])

    def size(self, t):
        t = self.res(t)
        if t.op == "c" and isinstance(cval(t), int):
            return sp.Integer(cval(t))
        if t.op == "bin" and t.a[0] in "+-*":
            x, y = self.size(t.a[1]), self.size(t.a[2])
            return x + y if t.a[0] == "+" else x - y if t.a[0] == "-" else x * y
        if t.op == "un" and t.a[0] == "-":
            return -self.size(t.a[1])
        if t.op == "call" and t.a[0] in ("builtins.len", "numpy.size") and len(t.a) == 2:
            return self.length(t.a[1])
        if t.op == "attr" and t.a[1] == "size":
            return self.length(t.a[0])
        if t.op == "idx" and is_const(t.a[1]) and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
            m = self.res(t.a[0].a[0])
            try:
                s = self.mat(m)
            except Unread:
                s = None
            if s is not None and s[0] in ("block", "diag"):
                return self.count(s[-1])
            r = self.dims(m)
            return r[cval(t.a[1])]
        if t.op == "call" and t.a[0] == "builtins.int" and len(t.a) == 2:
            return self.size(t.a[1])
        raise Unread("size " + show(t, 3)[:80])

    def dims(self, m):
        """(rows, columns) of a constraint matrix."""
        m = self.res(m)
        if m.op == "mu" and m.init is not None:
            return self.dims(m.init)
        if m.op == "setitem":
            return self.dims(m.a[0])
        if m.op == "un":
            return self.dims(m.a[1])
        if m.op == "call" and m.a[0] in ("numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty"):
            s = self.res(args(m)[0][0])
            if s.op == "tuple" and len(s.a) == 2:
                return self.size(s.a[0]), self.size(s.a[1])
            return (self.size(s),)
        if m.op == "call" and m.a[0] in ("numpy.vstack", "numpy.concatenate", "numpy.row_stack"):
            parts = self.parts(m)
            ds = [self.dims(x) for x in parts]
            return (sum(d[0] for d in ds),) + ds[0][1:]
        if m.op == "call" and m.a[0] in ("numpy.eye", "numpy.identity"):
            return (self.size(args(m)[0][0]),) * 2
        if m.op == "call" and m.a[0] == "numpy.diff":
            p, k = args(m)
            n = k.get("n") or (p[1] if len(p) > 1 else const(1))
            d = self.dims(p[0])
            ax = k.get("axis")
            if ax is not None and is_const(ax) and cval(ax) == 0:
                return (d[0] - cval(n),) + d[1:]
        raise Unread("shape of " + show(m, 3)[:80])

    def parts(self, m):
        s = self.res(args(m)[0][0])
        if s.op in ("tuple", "list"):
            return list(s.a)
        raise Unread("stack")

    def count(self, d):
        if d[0] == "cut":
            return sp.expand(d[2][1] - d[2][0])
        if d[0] == "mp" and d[1] not in NMP:
            raise Unread("periods %s" % (d,))
        return NMP[d[1]] if d[0] == "mp" else sum((NCELL[c] for c in d[1]), sp.Integer(0))

    def length(self, t):
        t = self.res(t)
        try:
            v = self.vec(t)
        except Unread:
            v = None
        if v is not None:
            if v[0] == "val":
                return self.count(v[2])
            if v[0] == "const":
                return v[2]
            if v[0] == "lvec":
                return self.count(self.post())
        return self.count(self.dom(t))

    def post(self):
        return ("mp", "post", "given") if self.kind == "mp" else ("cs", frozenset(c for c in CELLS if c[0] >= 0 and c[1] and c[2]), "sorted")

    def cut(self, d, sl):
        lo, hi, st = sl.a
        if st is not NONE:
            raise Unread("slice")
        n = self.count(d)
        a = self.size(lo) if lo is not NONE else sp.Integer(0)
        b = self.size(hi) if hi is not NONE else n
        a, b = [x + n if x.could_extract_minus_sign() else x for x in (a, b)]
        if sp.expand(a) == 0 and sp.expand(b - n) == 0:
            return d
        if d[0] == "cs" and d[2] == "sorted":
            cuts = {}
            for t0 in (-2, -1, 0, 1, 2):
                s = frozenset(c for c in d[1] if c[0] < t0)
                cuts.setdefault(sp.expand(sum((NCELL[c] for c in s), sp.Integer(0))), s)
            if sp.expand(a) in cuts and sp.expand(b) in cuts:
                return ("cs", cuts[sp.expand(b)] - cuts[sp.expand(a)], "sorted")
        return ("cut", d[:3], (sp.expand(a), sp.expand(b)))

    # ---- lists with one entry per period
    def pieces(self, t):
        """(value per pass, (loop variable, period set)) of a list built one entry per period."""
        t = self.res(t)
        if t.op == "comp":
            its = [x for x in t.a if type(x) is T and x.op == "iters"]
            if len(its) != 1 or len(its[0].a) != 1:
                raise Unread("loops of " + show(t, 2))
            coll, val = its[0].a[0], t.a[1]
            conds = [y for x in t.a if type(x) is T and x.op == "conds" for y in x.a]
        elif t.op == "mu":
            x = listed(t)
            if x is None or type(t.cond) is not T:
                raise Unread("loop " + show(t, 2))
            coll, (val, conds) = t.cond, x
        else:
            raise Unread("list " + show(t, 2))
        d = self.dom(coll)
        vs = [x for x in reach([val] + conds) if x.op == "elem"]
        var = None
        for x in vs:
            try:
                y = self.strip(x.a[0])
                if y is self.strip(coll) or self.dom(x.a[0]) == d:
                    var = x
                    break
            except Unread:
                pass
        for cnd in conds:
            d = self.filter(d, cnd, var)
        return val, (var, d)

    def strip(self, t):
        t = self.res(t)
        while t.op == "m" and t.a[1] in ("keys", "items") and len(t.a) == 2 or t.op == "call" and t.a[0] in ("builtins.list", "builtins.tuple") and len(t.a) == 2:
            t = self.res(t.a[0] if t.op == "m" else t.a[1])
        return t

    def filter(self, d, cnd, var):
        if d[0] == "mp":
            if var is not None and self.names(cnd, var) or any(x.op == "fstr" for x in reach([cnd])):
                return d
            ks = [x for x in reach([cnd]) if x.op in ("in",)]
            if cnd.op == "in" and cnd.a[0] is var:
                o = self.dom(cnd.a[1])
                if o[:2] == d[:2]:
                    return d
                return ("mp", "none", d[2])
            raise Unread("filter " + show(cnd, 3)[:80])
        if d[0] == "cs":
            return ("cs", frozenset(c for c in d[1] if self.truth(cnd, var, c)), d[2])
        raise Unread("filter")

    def truth(self, t, var, cell):
        if t.op == "not":
            return not self.truth(t.a[0], var, cell)
        if t.op == "and":
            return all(self.truth(x, var, cell) for x in t.a)
        if t.op == "or":
            return any(self.truth(x, var, cell) for x in t.a)
        if t.op in ("lt", "le", "eq"):
            x, y = (self.cellval(z, var, cell) for z in t.a)
            if x != x or y != y:
                return False
            return x < y if t.op == "lt" else x <= y if t.op == "le" else x == y
        if t.op == "call" and t.a[0] in ("numpy.isfinite", "math.isfinite", "numpy.isnan", "math.isnan", "pandas.isna", "pandas.notna") and len(t.a) == 2:
            x = self.cellval(t.a[1], var, cell)
            return (x == x) == (t.a[0].endswith(("isfinite", "notna")))
        if t.op == "call" and t.a[0] == "builtins.bool":
            return self.truth(t.a[1], var, cell)
        if t.op == "in" and t.a[0] is var:
            return cell in self.dom(t.a[1])[1]
        v = truth(t)
        if v is not None:
            return v
        x = self.cellval(t, var, cell)
        return bool(x)

    def cellval(self, t, var, cell):
        if t is var:
            return cell[0]
        if is_const(t) and isinstance(cval(t), (int, float)):
            return cval(t)
        k = None
        if t.op == "idx" and is_str(t.a[1]):
            k, o = cval(t.a[1]), t.a[0]
        elif t.op == "m" and t.a[1] == "get" and is_str(t.a[2]):
            k, o = cval(t.a[2]), t.a[0]
        if k is not None and (o.op == "idx" and o.a[1] is var):
            if k == "n_groups":
                return cell[1]
            if k == "se":
                return 1.0 if cell[2] else float("nan")
        if t.op == "un" and t.a[0] == "-":
            return -self.cellval(t.a[1], var, cell)
        raise Unread("value " + show(t, 3)[:80])

    def seq(self, t):
        """(what is listed, set of periods)."""
        val, (var, d) = self.pieces(t)
        if var is None:
            raise Unread("entries of " + show(t, 2))
        return self.entry(val, var), d

    def entry(self, val, var):
        val = self.res(val)
        if val.op == "call" and val.a[0] in ("builtins.float", "numpy.float64") and len(val.a) == 2:
            return self.entry(val.a[1], var)
        if val.op == "call" and val.a[0] in ("builtins.abs", "numpy.abs", "numpy.absolute", "math.fabs") and len(val.a) == 2:
            return "abs " + self.entry(val.a[1], var)
        if val.op == "bin" and val.a[0] == "**" and is_const(val.a[2]) and cval(val.a[2]) == 2:
            return "square " + self.entry(val.a[1], var)
        if val.op == "bin" and val.a[0] == "*" and self.res(val.a[1]) is self.res(val.a[2]):
            return "square " + self.entry(val.a[1], var)
        if val is var:
            return "period"
        if self.kind == "mp":
            o = val.a[0] if val.op == "attr" else None
            if o is not None and o.op == "idx" and o.a[0].op == "attr" and o.a[0].a[1] == "period_effects" and o.a[1] is var:
                return val.a[1]
            if val.op == "idx" and self.coefs(val.a[0]) and self.names(val.a[1], var):
                return "effect"
            if val.op == "m" and val.a[1] == "index" and self.coefs(val.a[0]) and self.names(val.a[2], var):
                return "position"
        else:
            k = None
            if val.op == "idx" and is_str(val.a[1]):
                k, o = cval(val.a[1]), val.a[0]
            elif val.op == "m" and val.a[1] == "get" and len(val.a) >= 3 and is_str(val.a[2]):
                k, o = cval(val.a[2]), val.a[0]
            if k and o.op == "idx" and o.a[1] is var:
                self.dom(o.a[0])
                return k
        raise Unread("entry " + show(val, 4)[:100])

    def vec(self, t):
        """("val", what, periods) | ("const", value, n) | ("lvec",) | ("scaled", factor, vec)."""
        t = self.res(t)
        if t.op == "call" and t.a[0] in WRAP + ("numpy.float64",) and len(args(t)[0]) == 1:
            return self.vec(args(t)[0][0])
        if t.op == "m" and t.a[1] in ("astype", "copy", "ravel", "flatten"):
            return self.vec(t.a[0])
        if t.op in ("cfg", "param") and t.a[0] in ("l_vec", "self.l_vec"):
            return ("lvec",)
        if t.op == "call" and t.a[0] in ("numpy.ones", "numpy.zeros"):
            s = args(t)[0][0]
            return ("const", sp.Integer(1 if t.a[0].endswith("ones") else 0), self.size(s))
        if t.op == "call" and t.a[0] in ("numpy.full", "numpy.repeat"):
            s, v = args(t)[0][:2]
            if t.a[0] == "numpy.repeat":
                s, v = v, s
            return ("const", self.e(v), self.size(s))
        if t.op == "call" and t.a[0] in ("numpy.ones_like", "numpy.full_like", "numpy.zeros_like"):
            p = args(t)[0]
            return ("const", {"ones": sp.Integer(1), "zero": sp.Integer(0)}.get(t.a[0][6:10]) if len(p) == 1 else self.e(p[1]), self.length(p[0]))
        if t.op == "bin" and t.a[0] in "*/":
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if t.a[0] == "/" and a is not t.a[1]:
                    break
                try:
                    v = self.vec(a)
                except Unread:
                    continue
                try:
                    k = self.scalar(b)
                except (Unread, Opaque):
                    continue
                k = 1 / k if t.a[0] == "/" else k
                return self.scale(v, k)
        if t.op == "un" and t.a[0] == "-":
            return self.scale(self.vec(t.a[1]), sp.Integer(-1))
        if t.op == "call" and t.a[0] in ("numpy.abs", "numpy.absolute"):
            v = self.vec(args(t)[0][0])
            if v[0] == "val":
                return ("val", "abs " + v[1], v[2])
            if v[0] == "lvec":
                return v + ("abs",)
        if t.op == "call" and t.a[0] in ("numpy.clip", "numpy.maximum", "numpy.minimum", "numpy.sort", "numpy.flip", "numpy.flipud", "numpy.cumsum", "numpy.roll"):
            v = self.vec(args(t)[0][0])
            if v[0] == "lvec":
                return v + (show(t, 2)[:40],)
        if t.op == "bin" and t.a[0] == "**" and is_const(t.a[2]) and cval(t.a[2]) == 2 or t.op == "call" and t.a[0] == "numpy.square":
            v = self.vec(t.a[1])
            if v[0] == "val":
                return ("val", "square " + v[1], v[2])
            if v[0] == "lvec":
                return v + ("square",)
        if t.op == "bin" and t.a[0] == "*" and self.res(t.a[1]) is self.res(t.a[2]):
            v = self.vec(t.a[1])
            if v[0] == "val":
                return ("val", "square " + v[1], v[2])
        if t.op == "call" and t.a[0] == "numpy.sqrt":
            v = self.vec(args(t)[0][0])
            if v[0] == "val" and v[1].startswith("square "):
                return ("val", v[1][7:], v[2])
            if v[0] == "val":
                return ("val", "root " + v[1], v[2])
        if t.op == "idx" and t.a[1].op == "slice":
            v = self.vec(t.a[0])
            if v[0] == "val":
                return ("val", v[1], self.cut(v[2], t.a[1]))
            if v[0] == "lvec":
                return v + ("part " + show(t.a[1], 2)[:30],)
        if t.op in ("comp", "mu"):
            w, d = self.seq(t)
            return ("val", w, d)
        if t.op == "call" and t.a[0] in ("numpy.diag", "numpy.diagonal") or t.op == "m" and t.a[1] == "diagonal":
            m = self.mat(t.a[1] if t.op == "call" else t.a[0])
            if m[0] in ("block", "diag"):
                return ("val", "square se" if m[0] == "block" else m[1], m[-1])
        raise Unread("vector " + show(t, 3)[:100])

    def scale(self, v, k):
        if v[0] == "const":
            return ("const", sp.simplify(v[1] * k), v[2])
        if v[0] == "scaled":
            return ("scaled", sp.simplify(v[1] * k), v[2]) if sp.simplify(v[1] * k) != 1 else v[2]
        return ("scaled", k, v)

    def scalar(self, t):
        t = self.res(t)
        try:
            return self.size(t)
        except Unread:
            pass
        x = self.e(t)
        if any(s.name.startswith("t") and s.name[1:].isdigit() for s in x.free_symbols):
            raise Unread("scalar " + show(t, 3)[:80])
        return x

    def mat(self, t):
        """("diag", what, periods) | ("block", periods) | ("full",)"""
        t = self.res(t)
        if t.op == "call" and t.a[0] in ("numpy.asarray", "numpy.array") and len(t.a) == 2:
            return self.mat(t.a[1])
        if t.op == "call" and t.a[0] == "numpy.diag" and len(t.a) == 2:
            v = self.vec(t.a[1])
            if v[0] == "val":
                return ("diag", v[1], v[2])
        if t.op == "attr" and t.a[1] == "vcov" and t.a[0] is RESULTS:
            return ("full",)
        if t.op == "idx":
            m = self.mat(t.a[0])
            ix = self.res(t.a[1])
            if ix.op == "tuple" and len(ix.a) == 2 and all(self.res(x).op == "slice" for x in ix.a):
                if self.res(ix.a[0]) is not self.res(ix.a[1]):
                    return ("mixed",)
                if m[0] == "full":
                    return ("corner",)
                return m[:-1] + (self.cut(m[-1], self.res(ix.a[0])),) if m[0] in ("diag", "block") else m
            pos = None
            if ix.op == "call" and ix.a[0] == "numpy.ix_" and len(ix.a) == 3:
                pos = ix.a[1], ix.a[2]
            elif ix.op == "tuple" and len(ix.a) == 2:
                a, b = t.a[1].a
                if b.op == "slice" and False:
                    pos = None
            if pos and m[0] == "full":
                a, b = self.vec(pos[0]), self.vec(pos[1])
                if a[0] == "val" and a[1] == "position":
                    return ("block", a[2]) if a == b else ("mixed",)
                if a[0] == "val" and b[0] == "val" and a != b:
                    return ("mixed",)
        raise Unread("covariance " + show(t, 3)[:100])

    # ---- scalars
    def chain(self, t):
        t = self.res(t)
        if t.op == "bin" and t.a[0] == "@":
            return self.chain(t.a[1]) + self.chain(t.a[2])
        if t.op == "m" and t.a[1] == "dot" and len(t.a) == 3:
            return self.chain(t.a[0]) + self.chain(t.a[2])
        if t.op == "call" and t.a[0] in ("numpy.dot", "numpy.matmul", "numpy.inner", "numpy.vdot") and len(t.a) == 3:
            return self.chain(t.a[1]) + self.chain(t.a[2])
        if t.op == "call" and t.a[0] == "numpy.linalg.multi_dot":
            s = self.res(t.a[1])
            if s.op in ("list", "tuple"):
                return [y for x in s.a for y in self.chain(x)]
        if t.op == "attr" and t.a[1] == "T":
            return self.chain(t.a[0])
        return [t]

    def fac(self, v):
        return (v[1], v[2]) if v[0] == "scaled" else (sp.Integer(1), v)

    def name(self, v):
        return sp.Symbol(str(tuple(sorted(map(str, x)) if isinstance(x, frozenset) else tuple(sorted(map(str, y)) if isinstance(y, frozenset) else str(y) for y in x)
                                   if isinstance(x, tuple) else str(x) for x in v)))

    def dot(self, a, b):
        (k, a), (l, b) = self.fac(a), self.fac(b)
        if str(a) > str(b):
            a, b = b, a
        return k * l * self.atom("dot", self.name(a), self.name(b))

    def quad(self, a, m, b):
        (k, a), (l, b) = self.fac(a), self.fac(b)
        return k * l * self.atom("quad", self.name(a), self.name(m), self.name(b))

    def _e(self, t):
        while t.op == "ite" and truth(t.a[0]) is None:
            t2 = t
            x = self.clamped(t)
            if x is not None:
                return x
            t = t2.a[1] if self.cond(t2.a[0]) else t2.a[2]
        t = self.res(t)
        x = self.leaf(t)
        if x is not None:
            return x
        if t.op == "call" and t.a[0] == "builtins.len" or t.op == "attr" and t.a[1] == "size" or t.op == "idx" and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
            try:
                return self.size(t)
            except Unread:
                pass
        ch = self.chain(t)
        try:
            if len(ch) == 2:
                return self.dot(self.vec(ch[0]), self.vec(ch[1]))
            if len(ch) == 3:
                return self.quad(self.vec(ch[0]), self.mat(ch[1]), self.vec(ch[2]))
            f = t.a[0] if t.op == "call" else "numpy." + t.a[1] if t.op == "m" and len(t.a) == 2 and type(t.a[1]) is str else ""
            arg = self.res(args(t)[0][0]) if t.op == "call" and args(t)[0] else t.a[0] if t.op == "m" else None
            if f in ("numpy.sum", "builtins.sum") and arg is not None and arg.op == "bin" and arg.a[0] == "*":
                return self.dot(self.vec(arg.a[1]), self.vec(arg.a[2]))
            if f in ("numpy.mean", "numpy.average") and arg is not None and (t.op == "m" or len(t.a) == 2):
                v = self.vec(arg)
                n = self.length(arg)
                return self.dot(("const", sp.simplify(1 / n), n), v)
            if f in ("builtins.max", "numpy.max", "numpy.amax", "numpy.nanmax") and arg is not None and (t.op == "m" or len(args(t)[0]) == 1):
                v = self.vec(arg)
                if v[0] == "val":
                    if v[1].startswith("abs "):
                        return self.atom("maxabs", self.name(v[2][:2]), self.name((v[1],)))
                    return self.atom("max of", self.name(v))
            if f in ("builtins.min", "numpy.min", "numpy.mean", "numpy.median", "builtins.sum", "numpy.sum") and arg is not None:
                v = self.vec(arg)
                return self.atom("other " + f, self.name(v))
            if f == "numpy.linalg.norm":
                p, k = args(t)
                o = k.get("ord") or (p[1] if len(p) > 1 else None)
                v = self.vec(p[0])
                if v[0] == "val" and o is not None and o.op == "glob" and o.a[0].endswith("inf"):
                    return self.atom("maxabs", self.name(v[2][:2]), self.name(("abs " + v[1],)))
        except Unread:
            pass
        if t.op == "attr" and t.a[1] == "fun" and t.a[0].op == "call" and t.a[0].a[0] == "scipy.optimize.linprog":
            x = self.lp(t.a[0])
            if x is not None:
                return x
        return super()._e(t)

    # ---- smoothness programme
    def lp(self, t):
        """min c'delta subject to the documented second differences, in terms of the largest |l'delta|."""
        p, k = args(t)
        c = p[0] if p else k.get("c")
        A = k.get("A_ub") or (p[1] if len(p) > 1 else None)
        b = k.get("b_ub") or (p[2] if len(p) > 2 else None)
        if c is None or A is None or b is None:
            return None
        try:
            s, place, total = self.objective(c)
            rows, lim = self.ineq(A, b)
        except Unread:
            return None
        bd = k.get("bounds")
        free = bd is not None and self.res(bd).op == "tuple" and all(x is NONE for x in self.res(bd).a)
        if not free or "A_eq" in k or not s.is_number:
            return None
        return -sp.Abs(s) * self.atom("vmax", sp.Symbol(place), sp.Symbol(str(total)), sp.Symbol(rows), lim)

    def objective(self, c):
        c = self.res(c)
        if c.op == "un" and c.a[0] == "-":
            s, p, n = self.objective(c.a[1])
            return -s, p, n
        if c.op == "setitem":
            z = self.vec(c.a[0])
            sl = self.res(c.a[1])
            if z[0] != "const" or z[1] != 0 or sl.op != "slice" or sl.a[2] is not NONE:
                raise Unread("objective")
            n = z[2]
            lo = self.size(sl.a[0]) if sl.a[0] is not NONE else sp.Integer(0)
            hi = self.size(sl.a[1]) if sl.a[1] is not NONE else n
            k, v = self.fac(self.vec(c.a[2]))
            k, nm = self.loading(k, v)
            return k, "%s at %s:%s" % (nm, sp.expand(lo), sp.expand(hi)), sp.expand(n)
        if c.op == "call" and c.a[0] in ("numpy.concatenate", "numpy.hstack"):
            pa = self.parts(c)
            if len(pa) == 2:
                z, v = self.vec(pa[0]), self.vec(pa[1])
                k, v = self.fac(v)
                if z[0] == "const" and z[1] == 0:
                    k, nm = self.loading(k, v)
                    n = z[2] + self.length(pa[1])
                    return k, "%s at %s:%s" % (nm, sp.expand(z[2]), sp.expand(n)), sp.expand(n)
        raise Unread("objective")

    def loading(self, k, v):
        if v[0] == "const":
            r = sp.simplify(v[1] * self.count(self.post()))
            return (k * r, "uniform") if r.is_number else (k, str(v[1]))
        return k, str(v)

    def diffs(self, A):
        """Stencil of a banded constraint matrix."""
        A = self.res(A)
        if A.op == "call" and A.a[0] == "numpy.diff":
            p, k = args(A)
            m = self.res(p[0])
            n = k.get("n") or (p[1] if len(p) > 1 else const(1))
            if m.op == "call" and m.a[0] in ("numpy.eye", "numpy.identity") and is_const(n):
                st = [1]
                for _ in range(cval(n)):
                    st = [a - b for a, b in zip([0] + st, st + [0])]
                d = self.dims(A)
                return "%s %s x %s" % (tuple(st), sp.expand(d[0]), sp.expand(d[1]))
        if A.op == "mu" and A.next is not None and A.init.op == "call" and A.init.a[0] == "numpy.zeros":
            x, st = self.res(A.next), {}
            var = None
            while x is not A:
                if x.op != "setitem":
                    raise Unread("stencil")
                ix = x.a[1]
                if ix.op != "tuple" or len(ix.a) != 2 or ix.a[0].op != "elem" or not is_const(x.a[2]):
                    v = self.scalar(x.a[2])
                else:
                    v = sp.Integer(cval(x.a[2])) if isinstance(cval(x.a[2]), int) else sp.Rational(repr(cval(x.a[2])))
                i, j = ix.a
                off = 0
                if j is not i:
                    if j.op == "bin" and j.a[0] == "+" and is_const(j.a[2]) and j.a[1] is i:
                        off = cval(j.a[2])
                    elif j.op == "bin" and j.a[0] == "+" and is_const(j.a[1]) and j.a[2] is i:
                        off = cval(j.a[1])
                    elif j.op == "bin" and j.a[0] == "-" and is_const(j.a[2]) and j.a[1] is i:
                        off = -cval(j.a[2])
                    else:
                        raise Unread("stencil")
                st.setdefault(off, v)
                x = self.res(x.a[0])
            r = A.cond
            d = self.dims(A)
            if type(r) is T and r.op == "call" and r.a[0] == "builtins.range" and len(r.a) == 2 and same(self.size(r.a[1]), d[0]):
                lo, hi = min(st), max(st)
                return "%s %s x %s" % (tuple(int(st.get(i, 0)) if st.get(i, sp.Integer(0)).is_integer else st.get(i) for i in range(lo, hi + 1)), sp.expand(d[0]), sp.expand(d[1]))
        raise Unread("constraints " + show(A, 3)[:80])

    def ineq(self, A, b):
        """(stencil of two-sided rows, limit)."""
        A, b = self.res(A), self.res(b)
        if A.op == "call" and A.a[0] in ("numpy.vstack", "numpy.concatenate", "numpy.row_stack"):
            pa = [self.res(x) for x in self.parts(A)]
            if len(pa) == 2:
                neg_ = [x for x in pa if x.op == "un" and x.a[0] == "-"]
                pos_ = [x for x in pa if x not in neg_]
                if len(neg_) == 1 and len(pos_) == 1 and self.res(neg_[0].a[1]) is pos_[0]:
                    v = self.vec(b)
                    if v[0] == "const" and same(v[2], sp.expand(2 * self.dims(pos_[0])[0])):
                        return "|%s|" % self.diffs(pos_[0]), v[1]
                elif len(pos_) == 2 and pos_[0] is pos_[1]:
                    v = self.vec(b)
                    if v[0] == "const":
                        return "one-sided twice %s" % self.diffs(pos_[0]), v[1]
        v = self.vec(b)
        if v[0] == "const":
            return "one-sided %s" % self.diffs(A), v[1]
        raise Unread("inequalities")


KNOWN_ATOMS = {"dot", "quad", "maxabs", "max of", "vmax", "max", "min", "normppf"}


def infinite(N, x):
    if x.has(sp.oo, -sp.oo, sp.nan, sp.zoo):
        return True
    return any(infinite(N, y) for s in x.free_symbols for p in [N.argsof(s)] if p and p[0] in ("max", "min") for y in p[1])


class Check:
    def __init__(self, S, c):
        self.S, self.c = S, c

    def understood(self, N, x):
        for s in x.free_symbols:
            if s in (MSYM, MCFG, ALPHA) or s.name == "scale" or s.name.startswith("each"):
                continue
            p = N.argsof(s)
            if p and (p[0] in KNOWN_ATOMS or p[0].startswith("other ")):
                if p[0] in ("max", "min", "normppf"):
                    if not all(self.understood(N, y) for y in p[1]):
                        return False
                continue
            return False
        return True

    def text(self, N, x):
        s = str(sp.simplify(x))
        for y in x.free_symbols:
            p = N.argsof(y)
            if p:
                s = s.replace(str(y), "%s(%s)" % (p[0], "; ".join(map(str, p[1]))))
        return s[:400]

    def want(self, N, method, zero, vc):
        """Documented (theta, se, lb, ub) in this world."""
        post = N.post()
        n = N.count(post)
        L = ("lvec",) if not N.lnone else ("const", sp.simplify(1 / n), n)
        th = N.dot(L, ("val", "effect", post))
        S_ = ("block", post) if vc else ("diag", "square se", post)
        se = sp.sqrt(N.quad(L, S_, L))
        out = []
        if N.kind == "mp":
            ds = [("mp", "pre")]
        else:
            ds = [("cs", frozenset(c for c in CELLS if c[0] < 0 and c[1])), ("cs", frozenset(c for c in CELLS if c[0] < 0 and c[1] and c[2]))]
        npre = NMP["pre"] if N.kind == "mp" else sum(NCELL[c] for c in CELLS if c[0] < 0 and c[1] and c[2])
        tot = sp.expand(npre + n)
        place = "%s at %s:%s" % ("uniform" if N.lnone else "('lvec',)", sp.expand(npre), tot)
        for d in ds:
            mp = sp.Integer(0) if zero else N.atom("maxabs", N.name(d), N.name(("abs effect",)))
            rm = th - N.M * mp, th + N.M * mp
            v = N.atom("vmax", sp.Symbol(place), sp.Symbol(str(tot)), sp.Symbol("|(1, -2, 1) %s x %s|" % (sp.expand(tot - 2), tot)), N.M)
            sd = th - v, th + v
            if method == "relative_magnitude":
                b = rm
            elif method == "smoothness":
                b = sd
            else:
                b = N.extreme("max", [rm[0], sd[0]]), N.extreme("min", [rm[1], sd[1]])
            out.append((th, se) + b)
        return out


def nworlds(kind, zero, leaves, fn, cap=120):
    st, n = [{}], 0
    while st:
        w = st.pop()
        N = Hon(kind, w, zero, leaves)
        try:
            r = fn(N)
        except Need as e:
            n += 1
            if n > cap:
                raise Overflow()
            st += [{**w, e.key: v} for v in (False, True)]
            continue
        yield N, r


def flag(N, name):
    """Value this world gives to `name is None`, or None if it never asked."""
    for k, v in N.world.items():
        if k[0] == "t":
            t = byid(k[1])
            if t is not None and t.op == "is" and t.a[1] is NONE and show(t.a[0], 2).endswith(name):
                return v
    return None


def judge(K, c, kind, method, F, where, tag, leaves=None, base=None):
    """Compare (original_estimate, original_se, lb, ub, ci_lb, ci_ub) with the documented values in every world."""
    seen = {}
    for zero in ((False, True) if method != "smoothness" else (False,)):
        def go(N):
            o = {}
            for f in F:
                try:
                    o[f] = N.e(F[f])
                except (Opaque, Unread) as x:
                    o[f] = None
            return o
        try:
            for N, o in nworlds(kind, zero, leaves, go):
                ln = flag(N, "l_vec")
                vn = flag(N, "vcov")
                ws = []
                for N.lnone in ((True, False) if ln is None else (ln,)):
                    vs = [vc for vc in ((True, False) if vn is None else (not vn,)) if kind == "mp" or not vc] or [False]
                    ws += [x for vc in vs for x in K.want(N, method, zero, vc)]
                z = N.ppf("norm", 1 - ALPHA / 2, [], True)
                for f, got in o.items():
                    cands = []
                    for th, se, lb, ub in ws:
                        crossing = method == "combined"
                        m = {"original_estimate": [th], "original_se": [se], "lb": [lb] + [th] * crossing, "ub": [ub] + [th] * crossing,
                             "ci_lb": [lb - z * se] + [th - z * se] * crossing, "ci_ub": [ub + z * se] + [th + z * se] * crossing}
                        cands += m[f]
                    if got is None:
                        seen.setdefault(f, []).append(("open", "value"))
                    elif any(same(got, x) for x in cands):
                        seen.setdefault(f, []).append(("ok", vn))
                    elif infinite(N, got):
                        seen.setdefault(f, []).append(("inf", ""))
                    elif K.understood(N, got):
                        seen.setdefault(f, []).append(("bad", K.text(N, got), K.text(N, cands[0])))
                    else:
                        seen.setdefault(f, []).append(("open", K.text(N, got)))
        except Overflow:
            c.undecide("%s: too many cases" % tag)
            return
    for f, l in seen.items():
        bad = [x for x in l if x[0] == "bad"]
        whole = [x for x in bad if "('full',)" in x[1] or "('corner',)" in x[1]]
        if len(whole) == len(bad) and any(x[0] == "ok" and x[1] is not True for x in l):
            bad = []            # the names are looked up; without a match there is no block to read
        if bad:
            c.find("%s:%s" % (f, tag), "%s (%s) is %s; documented %s" % (f, tag, bad[0][1], bad[0][2]), where=where)
        elif any(x[0] == "ok" for x in l):
            c.ob(f, tag)
            if any(x[0] == "open" for x in l):
                c.undecide("%s (%s): %s" % (f, tag, [x[1] for x in l if x[0] == "open"][0]))
        else:
            c.undecide("%s (%s): %s" % (f, tag, l[0][1] if l else ""))


def unbounded(K, c, method, t, where):
    """A programme whose constraints all vanish on linear trends leaves the slope, and the bounds, free."""
    if method != "smoothness":
        return
    for kind in ("mp", "cs"):
        for N, at in nworlds(kind, False, {}, lambda N: [N.e(fields(t)["lb"])]):
            for xs, s in N.atoms.get("vmax", []):
                st = re.match(r"\|\(([-0-9, ]*)\)", str(xs[2]))
                if st is None:
                    continue
                v = [int(x) for x in st.group(1).split(",") if x.strip()]
                if sum(v) == 0 and sum(i * x for i, x in enumerate(v)) == 0:
                    c.find("unbounded:smoothness", "the smoothness programme restricts second differences alone: a linear trend of any slope is feasible, so the "
                           "bounds are infinite at every M (documented: M = 0 is parallel trends)", where=where)
                    return
                c.ob("bounded", kind)


def includes(t):
    """(lower end, upper end, closed) of a test that an interval contains zero; None if it is no such test."""
    if t.op == "not":
        x = t.a[0]
        if x.op == "or":
            return includes(mk("and", *[neg(y) for y in x.a]))
        return None
    if t.op == "and" and len(t.a) == 2:
        lo = hi = None
        closed = True
        for x in t.a:
            if x.op == "not" and x.a[0].op in ("lt", "le"):
                x = mk("le" if x.a[0].op == "lt" else "lt", x.a[0].a[1], x.a[0].a[0])
            if x.op not in ("lt", "le"):
                return None
            a, b = x.a
            za, zb = is_const(a) and cval(a) == 0, is_const(b) and cval(b) == 0
            closed = closed and x.op == "le"
            if zb and not za:
                lo = a
            elif za and not zb:
                hi = b
        if lo is not None and hi is not None:
            return lo, hi, closed
    return None


def inside(t):
    """(test that zero is inside, sign) for a condition or its negation."""
    r = includes(t)
    if r is not None:
        return r, True
    r = includes(neg(t))
    if r is not None:
        return r, False
    return None, None


def mids(t):
    """(x, y) if t is their midpoint."""
    if t.op == "bin" and t.a[0] == "/" and is_const(t.a[2]) and cval(t.a[2]) == 2 and t.a[1].op == "bin" and t.a[1].a[0] == "+":
        return t.a[1].a[1], t.a[1].a[2]
    if t.op == "bin" and t.a[0] == "*":
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if is_const(x) and cval(x) == 0.5 and y.op == "bin" and y.a[0] == "+":
                return y.a[1], y.a[2]
    if t.op == "bin" and t.a[0] == "+":
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if y.op == "bin" and y.a[0] == "/" and is_const(y.a[2]) and cval(y.a[2]) == 2 and y.a[1].op == "bin" and y.a[1].a[0] == "-" and y.a[1].a[2] is x:
                return x, y.a[1].a[1]
    if t.op == "call" and t.a[0] == "numpy.mean" and len(t.a) == 2 and t.a[1].op in ("list", "tuple") and len(t.a[1].a) == 2:
        return t.a[1].a
    return None


def cis(K, c, kinds, test, where, tag, leaves):
    lo, hi, closed = test
    if not closed:
        c.find("endpoint:" + tag, "an interval with an end at zero does not count as containing zero (%s)" % tag, where=where)
    for kind in kinds:
        judge(K, c, kind, "relative_magnitude", {"ci_lb": lo, "ci_ub": hi}, where, "%s/%s" % (tag, kind), leaves)


def bisection(K, c, t, where, tag, kinds):
    """Every search keeps the last value at which the interval excludes zero below and one at which it includes zero above."""
    done = set()
    ends = []
    for x in reach([t]):
        if x.op != "mu" or x.next is None or x.next.op != "ite":
            continue
        m = [y for y in reach([x.next]) if mids(y) is not None and x in mids(y)]
        for md in m[:1]:
            a, b = mids(md)
            o = b if a is x else a
            if o.op != "mu" or (o.id, x.id) in done or o is x:
                continue
            done.add((x.id, o.id))
            (r, s), (r2, s2) = inside(x.next.a[0]), inside(o.next.a[0]) if o.next.op == "ite" else (None, None)
            if r is None or r2 is None:
                c.undecide("search in %s: %s" % (tag, show(x.next.a[0], 3)[:100]))
                continue

            def role(mu, s):
                p, q = (mu.next.a[1], mu.next.a[2]) if s else (mu.next.a[2], mu.next.a[1])   # inside, outside
                return "hi" if p is md and q is mu else "lo" if p is mu and q is md else None
            ra, rb = role(x, s), role(o, s2)
            if {ra, rb} != {"lo", "hi"}:
                if None in (ra, rb):
                    c.undecide("search in %s: ends %s %s" % (tag, ra, rb))
                else:
                    c.find("search:" + tag, "both ends of the search move to the midpoint in the same case", where=where)
                continue
            cis(K, c, kinds, r, where, tag + " midpoint", {md.id: MSYM})
            lo, hi = (x, o) if ra == "lo" else (o, x)
            ends.append((lo, hi))
            c.ob("search", tag)
    return ends


def sensitivity(S, K, c):
    e = S.find("HonestDiD.sensitivity_analysis")
    if e is None:
        c.undecide("sensitivity_analysis not found")
        return
    where = "%s (%s:%d)" % (e[1].qual, e[1].mod.name, e[1].node.lineno)
    for method in ("relative_magnitude", "smoothness", "combined"):
        r = analyze(S.P, e[1], e[2], options={"method": const(method)}, rust=False)
        t = r.retterm
        if t.op != "new":
            c.undecide("sensitivity result not read")
            continue
        F = fields(t)
        grid = F.get("M_values")
        for f, a, b in (("bounds", "lb", "ub"), ("robust_cis", "ci_lb", "ci_ub")):
            x = F.get(f)
            if x is None:
                continue
            l = listed(x)
            if l is None or l[1] or l[0].op != "tuple" or len(l[0].a) != 2:
                c.undecide("sensitivity %s: %s" % (f, show(x, 3)))
                continue
            coll = x.cond if x.op == "mu" else [y for y in x.a if type(y) is T and y.op == "iters"][0].a[0]
            if coll is not grid:
                base = lambda y: byid(y.id) if y.op != "call" or y.a[0] not in WRAP else base(y.a[1])
                if base(coll) is not base(grid):
                    c.undecide("sensitivity %s runs over %s" % (f, show(coll, 3)))
                    continue
            each = [y for y in reach([l[0]]) if y.op == "elem" and y.a[0] is coll]
            if len({y.id for y in each}) != 1:
                c.find("grid:" + f, "%s of the sensitivity analysis do not depend on the M of their pass" % f, where=where)
                continue
            for kind in ("mp", "cs"):
                judge(K, c, kind, method, {a: l[0].a[0], b: l[0].a[1]}, where, "sensitivity %s/%s" % (method, kind), {each[0].id: MSYM})
        for kind in ("mp", "cs"):
            judge(K, c, kind, method, {f: F[f] for f in ("original_estimate", "original_se") if f in F}, where, "sensitivity %s/%s" % (method, kind))
        if method != "relative_magnitude":
            continue
        b = F.get("breakdown_M")
        if b is None:
            continue
        ends = bisection(K, c, b, where, "breakdown of the grid", ("mp", "cs"))
        for lo, hi in ends:
            ok = []
            for y, off in ((lo, -1), (hi, 0)):
                i = y.init
                if i.op == "idx" and i.a[0] is grid:
                    k = i.a[1]
                    d = 0
                    if k.op == "bin" and k.a[0] in "+-" and is_const(k.a[2]):
                        d = cval(k.a[2]) * (1 if k.a[0] == "+" else -1)
                        k = k.a[1]
                    ok.append((k.id if k.op in ("pos", "elem", "idx") else None, d))
            if len(ok) == 2 and None not in (ok[0][0], ok[1][0]):
                if ok[0][0] == ok[1][0] and ok[1][1] - ok[0][1] == 1 and ok[1][1] == 0:
                    c.ob("bracket", "grid")
                elif ok[0][0] == ok[1][0]:
                    c.find("bracket", "the search for the breakdown value runs from grid point %+d to grid point %+d of the first interval with zero" % (ok[0][1], ok[1][1]), where=where)
                else:
                    c.undecide("bracket")
            elif any(y.init.op == "bin" and y.init.a[1].op == "idx" and y.init.a[1].a[0] is grid and is_const(y.init.a[2]) and cval(y.init.a[2]) != 0 for y in (lo, hi)):
                c.find("bracket", "the search for the breakdown value runs from %s to %s, not between grid points" % (show(lo.init, 2)[-40:], show(hi.init, 2)[-40:]), where=where)
            else:
                c.undecide("bracket %s %s" % (show(lo.init, 3), show(hi.init, 3)))
        verdicts(c, b, F.get("robust_cis"), where)


def verdicts(c, t, cil, where):
    """No interval with zero: None; every interval with zero: 0; else the search."""
    got = {}

    def quant(x):
        """(any|all, of intervals with zero?) of a condition on the list of intervals."""
        if x.op == "call" and x.a[0] in ("builtins.any", "builtins.all", "numpy.any", "numpy.all") and len(x.a) == 2:
            y = x.a[1]
            if y.op in ("comp", "mu"):
                z = listed(y) if y.op == "mu" else (y.a[1], [])
                if z is None:
                    return None
                r, s = inside(z[0])
                if r is None:
                    return None
                lo, hi, closed = r
                if not closed:
                    c.find("endpoint:grid", "an interval of the grid with an end at zero does not count as containing zero", where=where)
                if lo.op == "idx" and hi.op == "idx" and is_const(lo.a[1]) and is_const(hi.a[1]) and lo.a[0] is hi.a[0]:
                    if (cval(lo.a[1]), cval(hi.a[1])) != (0, 1):
                        c.find("ends:grid", "the ends of the grid's intervals are taken in the other order", where=where)
                return x.a[0].split(".")[-1], s
        return None

    def truthv(x, pattern):
        v = truth(x)
        if v is not None:
            return v
        if x.op == "not":
            y = truthv(x.a[0], pattern)
            return None if y is None else not y
        if x.op in ("and", "or"):
            vs = [truthv(y, pattern) for y in x.a]
            if x.op == "and":
                return False if False in vs else True if None not in vs else None
            return True if True in vs else False if None not in vs else None
        q = quant(x)
        if q is None:
            return None
        vals = [v if q[1] else not v for v in pattern]
        return any(vals) if q[0] == "any" else all(vals)

    def outcomes(t, pattern):
        while t.op == "ite":
            v = truthv(t.a[0], pattern)
            if v is None:
                return outcomes(t.a[1], pattern) | outcomes(t.a[2], pattern)
            t = t.a[1] if v else t.a[2]
        return {"none" if t is NONE else "zero" if is_const(t) and cval(t) == 0 else "search" if any(y.op == "mu" for y in reach([t])) else "?"}
    for pattern, want, text in (((False, False), "none", "no interval of the grid contains zero"), ((True, True), "zero", "every interval of the grid contains zero")):
        o = outcomes(t, pattern)
        if o == {want}:
            c.ob("verdict", text)
        elif "?" not in o and want not in o:
            c.find("verdict:" + want, "breakdown is %s when %s" % (sorted(o), text), where=where)
        else:
            c.undecide("verdict when %s: %s" % (text, sorted(o)))
    o = outcomes(t, (False, True))
    if "search" in o:
        c.ob("verdict", "search")
    elif "?" not in o:
        c.find("verdict:search", "breakdown is %s when the intervals start to contain zero along the grid" % sorted(o), where=where)


def breakdown(S, K, c):
    e = S.find("HonestDiD.breakdown_value")
    if e is None:
        c.undecide("breakdown_value not found")
        return
    where = "%s (%s:%d)" % (e[1].qual, e[1].mod.name, e[1].node.lineno)
    r = analyze(S.P, e[1], e[2], options={"method": const("relative_magnitude")}, rust=False)
    t = r.retterm
    ends = bisection(K, c, t, where, "breakdown_value", ("mp", "cs"))
    lo = hi = None
    for a, b in ends:
        if is_const(a.init) and is_const(b.init):
            lo, hi = cval(a.init), cval(b.init)
    if lo is None:
        c.undecide("bracket of breakdown_value")
        return
    if not lo < hi:
        c.find("bracket:breakdown_value", "the search runs from %s to %s" % (lo, hi), where=where)
    passed = []
    while t.op == "ite":
        cond = t.a[0]
        q, s = inside(cond)
        if q is None and cond.op == "and":
            rest = [x for x in cond.a if x not in passed]
            q, s = inside(rest[0]) if len(rest) == 1 else (None, None)
        passed.append(neg(cond))
        if q is None:
            c.undecide("verdict of breakdown_value: %s" % show(t.a[0], 3)[:100])
            return
        ins, out = (t.a[1], t.a[2]) if s else (t.a[2], t.a[1])
        if is_const(ins) and ins is not NONE or ins is NONE:
            if ins is NONE or cval(ins) != 0:
                c.find("verdict:breakdown_value", "breakdown_value is %s when the interval at the start of the search contains zero" % show(ins), where=where)
            cis(K, c, ("mp", "cs"), q, where, "breakdown_value start", {"M": sp.Integer(int(lo))})
            t = out
        elif out is NONE or is_const(out):
            if out is not NONE:
                c.find("verdict:breakdown_value", "breakdown_value is %s when the interval at the end of the search excludes zero" % show(out), where=where)
            cis(K, c, ("mp", "cs"), q, where, "breakdown_value end", {"M": sp.Integer(int(hi))})
            t = ins
        else:
            c.undecide("verdict of breakdown_value")
            return
    c.ob("verdict", "breakdown_value")


def shortcuts(S, K, c):
    e = S.find("compute_honest_did")
    if e is None:
        return
    where = "%s (%s:%d)" % (e[1].qual, e[1].mod.name, e[1].node.lineno)
    r = analyze(S.P, e[1], e[2], rust=False)
    for method in ("smoothness", "relative_magnitude", "combined"):
        t = subst(r.retterm, {mk("param", "method"): const(method)})
        F = {k: v for k, v in fields(t).items() if k in ("original_estimate", "original_se", "lb", "ub", "ci_lb", "ci_ub")} if t.op == "new" else {}
        if not F:
            c.undecide("compute_honest_did (%s)" % method)
        for kind in ("mp", "cs"):
            judge(K, c, kind, method, F, where, "compute_honest_did %s/%s" % (method, kind))


def run(S, c):
    S = S.python()
    c.rule("Rule: HonestDiD's estimate, standard error, bounds and intervals are the documented functions of the event study's own post-period "
           "effects, the covariance of exactly those effects, and the largest pre-period effect, for each restriction and kind of results.")
    for k, n in (("lb", 22), ("ub", 22), ("original_se", 22), ("original_estimate", 22), ("ci_lb", 30), ("ci_ub", 30)):
        c.floor(k, n)
    K = Check(S, c)
    e = S.find(FIT)
    where = "%s (%s:%d)" % (e[1].qual, e[1].mod.name, e[1].node.lineno)
    for method in ("smoothness", "relative_magnitude", "combined"):
        r = analyze(S.P, e[1], e[2], options={"method": const(method)}, rust=False)
        t = r.retterm
        if t.op != "new":
            c.undecide("result not read (%s)" % method)
            continue
        unbounded(K, c, method, t, where)
        F = {k: v for k, v in fields(t).items() if k in ("original_estimate", "original_se", "lb", "ub", "ci_lb", "ci_ub")}
        for kind in ("mp", "cs"):
            judge(K, c, kind, method, F, where, "%s/%s" % (method, kind))
            if method != "smoothness":
                judge(K, c, kind, method, F, where, "%s/%s, configured M" % (method, kind), {"M": MCFG})
    sensitivity(S, K, c)
    breakdown(S, K, c)
    shortcuts(S, K, c)
