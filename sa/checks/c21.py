"""C21: power, minimum detectable effect and required sample size are one formula read in three directions."""
from ..terms import *
from ..alg import Overflow, Need
from ..deps import fields_of
from ..entry import analyze
from ..sym import Sym, symworlds, same, args, sp, Opaque

POS = {n: sp.Symbol(n, positive=True) for n in ("n_treated", "n_control", "sigma", "n_pre", "n_post", "treat_frac")}
REAL = {n: sp.Symbol(n, real=True) for n in ("effect_size", "rho", "alpha", "power", "M")}
V = {**POS, **REAL}
NPRE, NPOST = V["n_pre"], V["n_post"]


def leaf(t):
    if t.op in ("param", "cfg") and t.a[0] in V:
        return V[t.a[0]]
    if t.op == "elem":
        return sp.Symbol("each%d" % t.id, real=True)
    return None


def periods(panel):
    """Decide conditions on the numbers of periods: two in all, or more."""
    def assume(t, N):
        if t.op in ("exc", "excpart"):
            return False
        if t.op in ("lt", "le", "eq"):
            try:
                x, y = N.e(t.a[0]), N.e(t.a[1])
            except Opaque:
                return None
            fs = (x - y).free_symbols if x.is_number or y.is_number or True else set()
            if fs and fs <= {NPRE, NPOST}:
                vals = set()
                for i in range(1, 7):
                    for j in range(1, 7):
                        if (i + j > 2) == panel:
                            d = (x - y).subs({NPRE: i, NPOST: j})
                            vals.add(bool(d < 0 if t.op == "lt" else d <= 0 if t.op == "le" else d == 0))
                return vals.pop() if len(vals) == 1 else None
            if t.op == "eq" and fs == {V["effect_size"]}:
                return False
        if t.op == "call" and t.a[0] in ("numpy.isinf", "math.isinf"):
            return False
        if t.op == "call" and t.a[0] in ("numpy.isfinite", "math.isfinite"):
            return True
        return None
    return assume


def variance(panel, nt=V["n_treated"], nc=V["n_control"]):
    s2 = V["sigma"] ** 2
    if not panel:
        return s2 * (2 / nt + 2 / nc)
    T = NPRE + NPOST
    return s2 * (1 / nt + 1 / nc) * (1 + (T - 1) * V["rho"]) / T


def zs(N, alt):
    a = V["alpha"] / 2 if alt == "two-sided" else V["alpha"]
    return N.ppf("norm", 1 - a, [], True), N.ppf("norm", V["power"], [], True)


def normal_power(N, alt, se, e):
    za, _ = zs(N, alt)
    d = e / se
    hi = 1 - N.cdf("norm", za - d, [], True)
    lo = N.cdf("norm", -za - d, [], True)
    return hi + lo if alt == "two-sided" else hi if alt == "greater" else lo


def only(x, extra=()):
    """Reads only quantities we know."""
    return all(s in set(V.values()) | set(extra) or "#" in s.name for s in x.free_symbols)


class Power:
    def __init__(self, c, name, alt, panel, where):
        self.c, self.name, self.alt, self.panel, self.where = c, name, alt, panel, where

    def judge(self, what, got, want, text, extra=(), either=()):
        c, tag = self.c, "%s[%s,%s]" % (self.name, self.alt, "panel" if self.panel else "2x2")
        if same(got, want) or any(same(got, w) for w in either):
            c.ob(what, tag)
            c.sample("%s: %s = %s" % (tag, what, sp.sstr(want)[:150]))
        elif only(got, extra):
            c.find("%s:%s:%s" % (what, self.name, "panel" if self.panel else "2x2"), "%s of %s is %s, not %s"
                   % (what, tag, sp.sstr(sp.simplify(got))[:300], text), where=self.where)
        else:
            c.undecide("%s of %s: %s" % (what, tag, sp.sstr(got)[:150]))


def unroll_max(N, x):
    q = N.argsof(x)
    return (q[1] if q and q[0] == "max" else [x])


def required(J, N, got, e, frac):
    """max(4, ceil(X)) with X the sample that gives the target power at effect e."""
    za, zb = zs(N, J.alt)
    n = sp.Symbol("N", positive=True)
    # variance is v/N for fixed fractions
    v = sp.simplify(variance(J.panel, n * frac, n * (1 - frac)) * n)
    want = (za + zb) ** 2 * v / e ** 2
    rest = []
    for x in unroll_max(N, got):
        if x.is_number:
            if x > 4:
                J.judge("required sample", got, N.extreme("max", [sp.Integer(4), N.atom("ceil", want)]), "at least 4 units and otherwise the sample whose minimum detectable effect is the effect asked for")
                return
        else:
            rest.append(x)
    q = N.argsof(rest[0]) if len(rest) == 1 else None
    if q and q[0] == "ceil":
        J.judge("required sample", q[1][0], want, "the sample whose minimum detectable effect is the effect asked for")
    elif q and q[0] in ("floor", "trunc", "round"):
        J.c.find("rounding:%s" % J.name, "%s rounds the required sample %s: the sample may be too small for the power asked for" % (J.name, {"trunc": "down", "floor": "down"}.get(q[0], "to nearest")), where=J.where)
    elif len(rest) == 1 and only(got):
        J.judge("required sample", got, N.atom("ceil", want), "the sample whose minimum detectable effect is the effect asked for")
    else:
        J.c.undecide("required sample of %s" % J.name)


def records_of(r, names):
    F = fields_of(r.retterm)
    return {n: F[n][0] for n in names if len(F.get(n, [])) == 1}


def analytic(S, c):
    cls = "PowerAnalysis"
    for meth in ("power", "mde", "sample_size"):
        e = S.find("%s.%s" % (cls, meth))
        if e is None:
            c.undecide("%s.%s not found" % (cls, meth))
            continue
        for alt in ("two-sided", "greater", "less"):
            r = analyze(S.P, e[1], e[2], options={"alternative": const(alt)}, rust=False)
            F = fields_of(r.retterm)
            for panel in (False, True):
                one(c, r, F, meth, alt, panel, "%s.%s" % (cls, meth), e[1])
    for fn, meth in (("compute_mde", "mde"), ("compute_power", "power"), ("compute_sample_size", "sample_size")):
        e = S.find(fn)
        if e is None:
            continue
        r = analyze(S.P, e[1], e[2], rust=False)
        F = {"required_n" if meth == "sample_size" else meth: [r.retterm]}
        for panel in (False, True):
            one(c, r, F, meth, "two-sided", panel, fn, e[1])


def one(c, r, F, meth, alt, panel, name, fn):
    J = Power(c, name, alt, panel, "%s (%s:%d)" % (fn.qual, fn.mod.name, fn.node.lineno))

    def go(N):
        out = {}
        for f, ts in F.items():
            if len(ts) != 1 or f not in ("power", "mde", "required_n", "n_treated", "n_control", "effect_size"):
                continue
            try:
                out[f] = N.e(ts[0])
            except Opaque:
                pass
        return N, out
    try:
        ws = list(symworlds(go, leaf=leaf, assume=periods(panel)))
    except Need:
        c.undecide("%s branches" % name)
        return
    for w, (N, o) in ws:
        za, zb = zs(N, alt)
        nt, nc = V["n_treated"], V["n_control"]
        if meth == "sample_size" and "n_treated" in o:
            nt, nc = o["n_treated"], o["n_control"]
        se = sp.sqrt(variance(panel, nt, nc))
        if meth == "sample_size":
            split(J, N, o)
        if "mde" in o and meth != "sample_size":
            J.judge("minimum detectable effect", o["mde"], (za + zb) * se, "(z_alpha + z_power) times the standard error of the design")
        elif "mde" in o:
            J.judge("minimum detectable effect", o["mde"], (za + zb) * se, "(z_alpha + z_power) times the standard error at the sample returned", extra=o["mde"].free_symbols & ((za + zb) * se).free_symbols)
        if meth == "power" and "power" in o:
            J.judge("power", o["power"], normal_power(N, alt, se, V["effect_size"]), "the normal power of the %s test at effect / standard error" % alt)
            if "required_n" in o:
                required(J, N, o["required_n"], V["effect_size"], nt / (nt + nc))
        elif "power" in o and meth != "power":
            J.judge("power", o["power"], V["power"], "the target power")
        if meth == "mde" and "required_n" in o:
            J.judge("required sample", o["required_n"], nt + nc, "the sample given")
        if meth == "mde" and "effect_size" in o and "mde" in o:
            J.judge("effect size", o["effect_size"], o["mde"], "the minimum detectable effect", either=[V["effect_size"]])


def split(J, N, o):
    """N is split into ceil(N f) treated and the rest; both groups keep at least two units; the total is their sum."""
    c = J.c
    tot = o.get("required_n")
    if tot is None:
        return
    f = V["treat_frac"]
    syms = [s for s in tot.free_symbols if (N.argsof(s) or ("",))[0] == "max"]
    pieces = {s: N.argsof(s)[1] for s in syms}
    ceils = [a for l in (l for fn, l in N.atoms.items() if fn == "ceil") for a, s in l]
    base = None
    za, zb = zs(N, J.alt)
    n = sp.Symbol("N", positive=True)
    v = sp.simplify(variance(J.panel, n * f, n * (1 - f)) * n)
    want = (za + zb) ** 2 * v / V["effect_size"] ** 2
    need = N.extreme("max", [sp.Integer(4), N.atom("ceil", want)])
    nt = N.extreme("max", [sp.Integer(2), N.atom("ceil", need * f)])
    nc = N.extreme("max", [sp.Integer(2), need - nt])
    if J.name == "compute_sample_size" or True:
        if same(tot, nt + nc):
            c.ob("required sample", "%s[%s]" % (J.name, J.alt))
            for k, w in (("n_treated", nt), ("n_control", nc)):
                if k in o:
                    J.judge(k, o[k], w, "the split of the required sample by the treated fraction", extra=o[k].free_symbols)
            return
    # is some other sample the base?
    inner = [a[0] for a in ceils if not same(a[0], want) and not any((N.argsof(s) or ("",))[0] in ("max", "ceil") for s in a[0].free_symbols)]
    if inner and all(only(x) for x in inner) and not any(same(a[0], want) and used(N, tot, a[0]) for a in ceils):
        J.judge("required sample", inner[0], want, "the sample whose minimum detectable effect is the effect asked for")
    elif known(N, tot):
        J.c.find("split:%s" % J.name, "%s returns a total of %s: not the required sample split into ceil(N f) treated units and the rest" % (J.name, deep(N, tot)), where=J.where)
    else:
        c.undecide("sample split of %s: %s" % (J.name, deep(N, tot)))


def used(N, x, arg, d=0):
    for s in x.free_symbols:
        q = N.argsof(s)
        if q and (any(same(y, arg) for y in q[1]) or d < 8 and any(used(N, y, arg, d + 1) for y in q[1])):
            return True
    return False


def known(N, x, d=0):
    for s in x.free_symbols:
        q = N.argsof(s)
        if q:
            if q[0] not in ("max", "min", "ceil", "floor", "trunc", "round", "normppf") or d < 8 and not all(known(N, y, d + 1) for y in q[1]):
                return False
        elif s not in V.values():
            return False
    return True


def deep(N, x, d=0):
    m = {}
    for s in x.free_symbols:
        q = N.argsof(s)
        if q and d < 5:
            m[s] = sp.Symbol("%s(%s)" % (q[0], ", ".join(deep(N, y, d + 1) for y in q[1])))
    return sp.sstr(x.subs(m))[:260]


# ---------------------------------------------------------------- curves

def perpass(N, t):
    """(iterated collection, value per pass) of a list built one value per pass."""
    t = N.res(t)
    while t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray", "builtins.list", "pandas.Series") and len(t.a) >= 2:
        t = N.res(t.a[1])
    if t.op == "mu" and t.init.op == "list" and not t.init.a and t.next is not None:
        x = N.res(t.next)
        if x.op == "append" and x.a[0] is t:
            return x.a[1]
    if t.op == "comp":
        conds = t.a[-1]
        if conds.op == "conds" and conds.a:
            return None
        return t.a[1]
    return None


def frame_columns(t):
    if t.op == "call" and t.a[0] == "pandas.DataFrame" and len(t.a) >= 2 and t.a[1].op == "dict":
        return {cval(k.a[0]): k.a[1] for k in t.a[1].a if k.op == "kv" and is_str(k.a[0])}
    return None


def curves(S, c):
    for meth, xname in (("power_curve", "effect_size"), ("sample_size_curve", "sample_size")):
        e = S.find("PowerAnalysis." + meth)
        if e is None:
            continue
        name = "PowerAnalysis." + meth
        for alt in ("two-sided", "greater"):
            r = analyze(S.P, e[1], e[2], options={"alternative": const(alt)}, rust=False)
            cols = frame_columns(r.retterm)
            if not cols or "power" not in cols or xname not in cols:
                c.undecide("columns of " + name)
                continue
            for panel in (False, True):
                J = Power(c, name, alt, panel, "%s (%s:%d)" % (e[1].qual, e[1].mod.name, e[1].node.lineno))
                base = periods(panel)
                for grid in (False, True):
                    def assume(t, N, base=base, grid=grid):
                        if t.op == "is" and t.a[1] is NONE and t.a[0].op == "param":
                            return not grid
                        return base(t, N)

                    def go(N):
                        x = perpass(N, cols["power"])
                        if x is None:
                            return N, None, None, None
                        over = N.res(cols[xname])
                        at = [y for y in reach([x]) if y.op == "elem" and N.res(y.a[0]) is over]
                        if len({y.id for y in at}) == 1:
                            N.e(x)
                        return N, x, over, at
                    for w, (N, x, over, at) in symworlds(go, leaf=leaf, assume=assume):
                        if x is None or len({y.id for y in at}) != 1:
                            c.undecide("values of %s" % name)
                            continue
                        got = N.e(x)
                        at = N.e(at[0])
                        if xname == "effect_size":
                            want = normal_power(N, alt, sp.sqrt(variance(panel)), at)
                        else:
                            f = V["treat_frac"]
                            nt = N.extreme("max", [sp.Integer(2), N.atom("trunc", at * f)])
                            nc = N.extreme("max", [sp.Integer(2), at - nt])
                            want = normal_power(N, alt, sp.sqrt(variance(panel, nt, nc)), V["effect_size"])
                        J.judge("power", got, want, "the power at this point of the curve", extra=[at])


# ---------------------------------------------------------------- pre-trends

NVEC = sp.Symbol("n", positive=True)


class Trend(Sym):
    """Closed forms over violation weights: vectors are (scale, pattern)."""
    zero = False

    def lenof(self, t):
        return NVEC

    def vec(self, t):
        """(scale, pattern key) of a vector, or None."""
        t = self.res(t)
        op, a = t.op, t.a
        if op == "call":
            p, k = args(t)
            if a[0] in ("numpy.asarray", "numpy.array", "numpy.atleast_1d", "numpy.squeeze", "numpy.ravel") and len(p) >= 1:
                return self.vec(p[0])
            if a[0] == "numpy.arange" and 1 <= len(p) <= 3:
                x = [self.e(y) for y in p]
                start, stop, step = (sp.Integer(0), x[0], sp.Integer(1)) if len(x) == 1 else (x[0], x[1], x[2] if len(x) > 2 else sp.Integer(1))
                return sp.Integer(1), ("seq", sp.expand(start), sp.expand(step), sp.simplify((stop - start) / step))
            if a[0] == "numpy.ones" and len(p) == 1:
                return sp.Integer(1), ("seq", sp.Integer(1), sp.Integer(0), self.e(p[0]))
            if a[0] in ("numpy.ones_like",):
                return sp.Integer(1), ("seq", sp.Integer(1), sp.Integer(0), NVEC)
            if a[0] == "numpy.full" and len(p) == 2:
                return self.e(p[1]), ("seq", sp.Integer(1), sp.Integer(0), self.e(p[0]))
        if op == "m" and a[1] in ("copy", "ravel", "flatten", "astype"):
            return self.vec(a[0])
        if op == "setitem":
            b = self.res(a[0])
            if b.op == "call" and b.a[0] in ("numpy.zeros", "numpy.zeros_like") and is_const(a[1]) is not None:
                k = self.e(a[1])
                k = sp.Integer(-1) if same(k, NVEC - 1) else k
                return self.e(a[2]), ("unit", k)
        if op == "idx" and a[1].op == "slice":
            s = [x for x in a[1].a]
            v = self.vec(a[0])
            if v and len(s) == 3 and s[0] is NONE and s[1] is NONE and is_const(s[2]) and cval(s[2]) == -1:
                return v[0], self.reverse(v[1])
        if op == "call" and a[0] in ("numpy.flip", "numpy.flipud") and len(a) == 2:
            v = self.vec(a[1])
            return v and (v[0], self.reverse(v[1]))
        if op == "un" and a[0] == "-":
            v = self.vec(a[1])
            return v and self.scaled(v, sp.Integer(-1))
        if op == "bin" and a[0] in "*/+-":
            x, y = self.vec(a[1]), self.vec(a[2])
            if a[0] == "*":
                if x and not y:
                    return self.scaled(x, self.e(a[2]))
                if y and not x:
                    return self.scaled(y, self.e(a[1]))
            if a[0] == "/" and x and not y:
                return self.scaled(x, 1 / self.e(a[2]))
            if a[0] in "+-" and x and not y and x[1][0] == "seq":
                o = self.e(a[2]) * (1 if a[0] == "+" else -1)
                return sp.Integer(1), ("seq", sp.expand(x[0] * x[1][1] + o), sp.expand(x[0] * x[1][2]), x[1][3])
            if a[0] in "+-" and y and not x and y[1][0] == "seq":
                g = 1 if a[0] == "+" else -1
                o = self.e(a[1])
                return sp.Integer(1), ("seq", sp.expand(g * y[0] * y[1][1] + o), sp.expand(g * y[0] * y[1][2]), y[1][3])
            return None
        if op in ("param", "cfg") and t.a[0] in ("violation_weights", "self.violation_weights") or op == "attr" and t.a[1] == "violation_weights":
            return sp.Integer(1), ("given",)
        return None

    def scaled(self, v, s):
        s = v[0] * s
        k = v[1]
        if k[0] == "seq" and s.is_number:
            return sp.Integer(1), ("seq", sp.expand(s * k[1]), sp.expand(s * k[2]), k[3])
        return s, k

    def reverse(self, k):
        if k[0] == "seq":
            return ("seq", sp.expand(k[1] + k[2] * (k[3] - 1)), sp.expand(-k[2]), k[3])
        if k[0] == "unit":
            return ("unit", sp.expand(-1 - k[1]))
        return ("rev", k)

    def pattern(self, k):
        return sp.srepr(sp.Tuple(*[x if isinstance(x, sp.Basic) else sp.Symbol(str(x)) for x in k]))

    def chain(self, t):
        t = self.res(t)
        if t.op == "bin" and t.a[0] == "@":
            return self.chain(t.a[1]) + self.chain(t.a[2])
        if t.op == "m" and t.a[1] == "dot" and len(t.a) == 3:
            return self.chain(t.a[0]) + self.chain(t.a[2])
        if t.op == "call" and t.a[0] in ("numpy.dot", "numpy.matmul", "numpy.inner") and len(t.a) == 3:
            return self.chain(t.a[1]) + self.chain(t.a[2])
        if t.op == "call" and t.a[0] in ("numpy.linalg.solve", "scipy.linalg.solve") and len(args(t)[0]) == 2:
            p = args(t)[0]
            return [mk("call", "numpy.linalg.inv", p[0])] + self.chain(p[1])
        return [t]

    def _e(self, t):
        t = self.res(t)
        x = self.leaf(t)
        if x is not None:
            return x
        if t.op == "attr" and t.a[1] == "n_pre_periods" or t.op == "param" and t.a[0] == "self.n_pre_periods":
            return NVEC
        if t.op == "call" and t.a[0] == "builtins.len" and len(t.a) == 2:
            return NVEC
        if t.op == "idx" and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
            return NVEC
        if t.op == "attr" and t.a[1] == "size":
            return NVEC
        ch = self.chain(t)
        if len(ch) == 3:
            u, v = self.vec(ch[0]), self.vec(ch[2])
            m = self.res(ch[1])
            if u and v and m.op == "call" and m.a[0] in ("numpy.linalg.inv", "numpy.linalg.pinv", "scipy.linalg.inv", "scipy.linalg.pinv"):
                mat = self.res(m.a[1])
                return u[0] * v[0] * self.atom("Q", sp.Symbol(self.pattern(u[1])), sp.Symbol("m%s" % self.matrix(mat)), sp.Symbol(self.pattern(v[1])))
            if u and v:
                return u[0] * v[0] * self.atom("form", sp.Symbol(self.pattern(u[1])), sp.Symbol("m%d" % m.id), sp.Symbol(self.pattern(v[1])))
        if t.op == "call" and t.a[0] in ("numpy.linalg.norm", "scipy.linalg.norm"):
            p, k = args(t)
            v = self.vec(p[0])
            o = [x for x in list(p[1:]) + list(k.values())]
            if v and all(is_const(x) and cval(x) in (2, None) for x in o):
                return sp.Abs(v[0]) * self.atom("norm", sp.Symbol(self.pattern(v[1])))
            if v:
                return self.atom("othernorm", sp.Symbol(self.pattern(v[1])))
        if t.op == "m" and t.a[1] in ("sum", "max", "mean", "min") and len(t.a) == 2 and self.vec(t.a[0]):
            return self._e(mk("call", "numpy." + t.a[1], t.a[0]))
        if t.op == "call" and t.a[0] in ("numpy.sum", "numpy.max", "numpy.mean", "numpy.min") and len(t.a) == 2:
            x = self.res(t.a[1])
            if t.a[0] == "numpy.sum" and x.op == "bin" and x.a[0] == "**" and is_const(x.a[2]) and cval(x.a[2]) == 2:
                v = self.vec(x.a[1])
                if v:
                    return (v[0] * self.atom("norm", sp.Symbol(self.pattern(v[1])))) ** 2
            y = x
            if y.op == "call" and y.a[0] in ("numpy.abs", "numpy.absolute"):
                y = self.res(y.a[1])
            v = self.vec(y)
            if v:
                return self.atom("other" + t.a[0], sp.Symbol(self.pattern(v[1])))
        return super()._e(t)

    def matrix(self, m):
        if m.op == "param" and m.a[0] == "self.vcov" or m.op == "attr" and m.a[1] == "vcov" and m.a[0].op == "param" and m.a[0].a[0] == "self":
            return "vcov"
        return str(m.id)


def trend_assume(zero, mnone=False):
    def assume(t, N):
        if t.op in ("exc", "excpart"):
            return False
        if t.op == "is" and t.a[1] is NONE and t.a[0].op == "param":
            return t.a[0].a[0] == "M" and mnone or t.a[0].a[0] not in ("M", "M_grid", "self.violation_weights")
        if t.op in ("lt", "le"):
            try:
                x, y = N.e(t.a[0]), N.e(t.a[1])
            except Opaque:
                return None
            if t.op == "lt" and x == 0 or t.op == "le" and y == 0:
                z = y if t.op == "lt" else x
                fs = {(N.argsof(s) or ("",))[0] for s in z.free_symbols}
                if "Q" in fs:
                    return (not zero) if t.op == "lt" else zero
                if "norm" in fs and not z.is_number:
                    return t.op == "lt"
        if t.op == "call" and t.a[0] in ("numpy.isfinite", "math.isfinite"):
            return True
        return None
    return assume


def tworlds(fn, leaf, assume, cap=300):
    st, n = [{}], 0
    while st:
        w = st.pop()
        try:
            yield w, fn(Trend(w, leaf=leaf, assume=assume))
        except Need as e:
            n += 1
            if n > cap:
                return
            st += [{**w, e.key: v} for v in (False, True)]


WEIGHTS = {"linear": ("seq", NVEC - 1, sp.Integer(-1), NVEC), "constant": ("seq", sp.Integer(1), sp.Integer(0), NVEC),
           "last_period": ("unit", sp.Integer(-1)), "custom": ("given",)}


def tleaf(t):
    if t.op in ("param", "cfg") and t.a[0] in ("alpha", "power", "M"):
        return V[t.a[0]]
    if t.op == "param" and t.a[0] == "self.alpha":
        return V["alpha"]
    if t.op == "elem":
        return sp.Symbol("each%d" % t.id, real=True)
    return None


def weights_ok(c, name, kind, v, where):
    """Unit norm and the documented pattern."""
    if v is None:
        c.undecide("weights of %s (%s)" % (name, kind))
        return
    want = WEIGHTS[kind]
    if v[1] != want and not (len(v[1]) == len(want) and all(same(x, y) if isinstance(x, sp.Basic) else x == y for x, y in zip(v[1], want))):
        if v[1][0] in ("seq", "unit", "given", "rev"):
            c.find("pattern:%s:%s" % (name, kind), "the violation of type %s in %s follows %s, not %s" % (kind, name, v[1], want), where=where)
        else:
            c.undecide("weights of %s (%s)" % (name, kind))
    else:
        c.ob("weights", "%s %s" % (name, kind))


def pretrends(S, c):
    for kind in WEIGHTS:
        fit = S.find("PreTrendsPower.fit")
        at = S.find("PreTrendsPowerResults.power_at")
        cur = S.find("PreTrendsPower.power_curve")
        pat = S.find("PreTrendsPower.power_at")
        for e, name in ((fit, "PreTrendsPower.fit"), (cur, "PreTrendsPower.power_curve"), (pat, "PreTrendsPower.power_at"), (at, "PreTrendsPowerResults.power_at")):
            if e is None:
                c.undecide(name + " not found")
                continue
            where = "%s (%s:%d)" % (e[1].qual, e[1].mod.name, e[1].node.lineno)
            if name.startswith("PreTrendsPowerResults"):
                r = analyze(S.P, e[1], e[2], rust=False)
                T = {"power": r.retterm}
                x = mk("param", "self.violation_type")
                T = {"power": subst(r.retterm, {x: const(kind)})}
            else:
                opts = {"violation_type": const(kind)}
                if kind == "custom":
                    opts["violation_weights"] = mk("param", "self.violation_weights")
                r = analyze(S.P, e[1], e[2], options=opts, rust=False)
                F = fields_of(r.retterm)
                T = {f: F[f][0] for f in ("power", "mdv", "noncentrality", "critical_value", "violation_weights", "powers", "test_statistic", "violation_magnitude") if len(F.get(f, [])) == 1}
                for x in reach([r.retterm]):
                    if x.op == "new" and x.a[0].split(".")[-1].startswith("PreTrends"):
                        for fl in x.a[1:]:
                            if fl.a[0] in ("powers", "mdv", "M_values"):
                                T.setdefault(fl.a[0], fl.a[1])
                if not F:
                    T["power"] = r.retterm
            for zero in (False, True):
                def go(N):
                    o = {}
                    for f, t in T.items():
                        try:
                            if f == "powers":
                                x = perpass(N, t)
                                grid = N.res(T["M_values"]) if "M_values" in T else None
                                els = [y for y in reach([x]) if y.op == "elem" and N.res(y.a[0]) is grid] if x is not None else []
                                o[f] = (N.e(x), N.e(els[0])) if len({y.id for y in els}) == 1 else None
                            elif f == "violation_weights":
                                o[f] = N.vec(t)
                            elif f != "M_values":
                                o[f] = N.e(t)
                        except Opaque:
                            pass
                    return N, o
                for w, (N, o) in tworlds(go, tleaf, trend_assume(zero)):
                    judge_trend(S, c, r, name, kind, zero, N, o, where)


def extraction(S, c):
    """Effects, standard errors and variance block of one and the same pre-periods, in one order."""
    from ..alg import worlds
    e = S.find("PreTrendsPower.fit")
    if e is None:
        return
    name = "PreTrendsPower.fit"
    where = "%s (%s:%d)" % (e[1].qual, e[1].mod.name, e[1].node.lineno)
    r = analyze(S.P, e[1], e[2], options={"violation_type": const("linear")}, rust=False)
    F = fields_of(r.retterm)
    if any(len(F.get(f, [])) != 1 for f in ("vcov", "pre_period_effects", "pre_period_ses")):
        c.undecide("pre-period inputs")
        return

    def over(t):
        t = t.a[2] if t.op == "comp" else None
        return t.a[0] if t is not None and t.op == "iters" and len(t.a) == 1 else None

    def unarr(N, t):
        t = N.res(t)
        while t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray", "builtins.list") and len(t.a) >= 2:
            t = N.res(t.a[1])
        return t

    def keyof(v):
        """(collection, key) of d[key], d[key].f or d[key]['f']."""
        if v.op == "idx" and is_str(v.a[1]) and v.a[0].op == "idx":
            return v.a[0].a[0], v.a[0].a[1], cval(v.a[1])
        if v.op == "attr" and v.a[0].op == "idx":
            return v.a[0].a[0], v.a[0].a[1], v.a[1]
        if v.op == "idx":
            return v.a[0], v.a[1], None
        return None

    def go(N):
        eff, V_ = unarr(N, F["pre_period_effects"][0]), N.res(F["vcov"][0])
        pv = perpass(N, eff)
        if pv is None:
            c.undecide("pre-period effects: %s" % show(eff, 3))
            return
        k = keyof(pv)
        src = over(eff)
        if V_.op == "idx" and V_.a[0].op == "attr" and V_.a[0].a[1] == "vcov":
            ix = V_.a[1]
            if ix.op == "call" and ix.a[0] == "numpy.ix_" and len(ix.a) == 3:
                I, J = unarr(N, ix.a[1]), unarr(N, ix.a[2])
                if I is not J:
                    c.find("block", "the variance of the pre-period effects mixes two lists of positions", where=where)
                    return
                v = I.a[1] if I.op == "comp" else None
                if v is None or not (v.op == "m" and v.a[1] == "index" and len(v.a) == 3):
                    c.undecide("positions of the pre-period block: %s" % show(I, 3))
                    return
                at = over(I)
                ks = [x for x in reach([v.a[0]]) if x.op == "m" and x.a[1] == "keys" or x.op == "attr" and x.a[1] == "coefficients"]
                if k is not None and v.a[2] is k[1] and at is src and ks:
                    c.ob("pre-period block", "positions of the coefficients' own names")
                elif at is not None and src is not None and at is not src:
                    c.find("block", "the variance block of the pre-trends test covers %s, the effects %s" % (show(at, 3), show(src, 3)), where=where)
                else:
                    c.undecide("positions of the pre-period block: %s" % show(v, 4))
            elif ix.op == "slice" or ix.op == "tuple" and all(x.op == "slice" for x in ix.a):
                c.find("block", "the variance block of the pre-trends test is %s, whatever coefficients stand there" % show(V_, 3), where=where)
            else:
                c.undecide("variance block %s" % show(V_, 3))
        elif V_.op == "call" and V_.a[0] == "numpy.diag" and len(V_.a) == 2:
            sq = N.res(V_.a[1])
            if sq.op == "bin" and sq.a[0] == "**" and is_const(sq.a[2]) and cval(sq.a[2]) == 2:
                se = unarr(N, sq.a[1])
            elif sq.op == "bin" and sq.a[0] == "*" and sq.a[1] is sq.a[2]:
                se = unarr(N, sq.a[1])
            else:
                if unarr(N, F["pre_period_ses"][0]) is unarr(N, sq):
                    c.find("diagonal", "the variance matrix of the pre-trends test holds standard errors, not variances", where=where)
                else:
                    c.undecide("variance %s" % show(V_, 3))
                return
            if se is not unarr(N, F["pre_period_ses"][0]):
                c.undecide("standard errors in the variance matrix")
                return
            sv = perpass(N, se) if se.op == "comp" else None
            k2 = keyof(sv) if sv is not None else None
            if k is None or k2 is None:
                c.ob("pre-period block", "diagonal")
            elif k2[0] is k[0] and k2[1] is k[1] and over(se) is src:
                if k2[2] not in (None, "se"):
                    c.find("diagonal", "the variance of the pre-period effects is the square of their %s" % k2[2], where=where)
                elif k[2] not in (None, "effect"):
                    c.find("effects", "the pre-period effects are read from %s" % k[2], where=where)
                else:
                    c.ob("pre-period block", "own standard errors")
            else:
                c.undecide("standard errors of other records")
            before(N, src)
        else:
            c.undecide("variance %s" % show(V_, 3))

    def before(N, src):
        """Event times strictly before treatment."""
        if src is None:
            return
        for x in reach([src]):
            if x.op == "comp" and x.a[-1].op == "conds" and any(y.op == "attr" and y.a[1] == "event_study_effects" for y in reach([x])):
                conds = [z for y in x.a[-1].a for z in (y.a if y.op == "and" else [y])]
                cmp_ = [z for z in conds if z.op in ("lt", "le") and any(is_const(q) and cval(q) in (0, -1) for q in z.a) and any(q.op == "elem" for q in z.a)]
                for z in cmp_:
                    lim = z.a[1]
                    if z.op == "lt" and is_const(lim) and cval(lim) == 0 or z.op == "le" and is_const(lim) and cval(lim) == -1:
                        c.ob("pre-periods", show(z, 3))
                    else:
                        c.find("pre-periods", "the pre-trends test uses event times with %s" % show(z, 3), where=where)
                return
    try:
        for _ in worlds(go, 400):
            pass
    except Overflow:
        c.undecide("pre-period inputs")


def judge_trend(S, c, r, name, kind, zero, N, o, where):
    qs = N.atoms.get("Q", [])
    u = sp.Symbol(N.pattern(WEIGHTS[kind]))
    cv = N.ppf("chi2", 1 - V["alpha"], [NVEC], False)
    if name.startswith("PreTrendsPowerResults"):
        cvs = [s for s in (o.get("power") or sp.Integer(0)).free_symbols if s.name.startswith("ncx2cdf")]
        crit = [N.argsof(s)[1][0] for s in cvs]
        if len(crit) == 1 and crit[0].name.startswith("t") if crit and isinstance(crit[0], sp.Symbol) else False:
            if byid(int(crit[0].name[1:])).a[-1] in ("critical_value", "self.critical_value"):
                cv = crit[0]
    mats = {xs[1] for xs, s in qs}
    if len(mats) != 1:
        c.undecide("%s (%s): no single quadratic form" % (name, kind))
        return
    m = mats.pop()
    nrm = N.atom("norm", u)
    q = N.atom("Q", u, m, u) / nrm ** 2

    def judge(what, got, want, text):
        tag = "%s %s%s" % (name, kind, " at zero" if zero else "")
        if same(got, want):
            c.ob(what, tag)
            return
        fs = set()

        def collect(x, d=0):
            for s in x.free_symbols:
                p = N.argsof(s)
                if p:
                    fs.add(p[0])
                    if p[0] not in ("Q", "norm", "form", "othernorm", "othernumpy.sum", "othernumpy.max", "othernumpy.mean", "othernumpy.min") and d < 6:
                        for y in p[1]:
                            collect(y, d + 1)
                else:
                    fs.add(s)
        collect(got)
        ok = {"Q", "norm", "ncx2cdf", "chi2ppf", "form", "othernorm", "othernumpy.sum", "othernumpy.max", "othernumpy.min", "othernumpy.mean", "root", "max", "min", "normppf", "normcdf", "chi2cdf"}
        if all(x in ok or x in V.values() or x == NVEC or isinstance(x, sp.Symbol) and x.name.startswith("each") or x == cv for x in fs):
            c.find("%s:%s" % (what, name), "%s in %s is %s: not %s" % (what, tag, deep(N, got), text), where=where)
        else:
            c.undecide("%s in %s: %s" % (what, tag, deep(N, got)))

    def pw(M):
        if zero and not name.startswith("PreTrendsPowerResults"):
            return V["alpha"]
        return 1 - N.cdf("ncx2", cv, [NVEC, M ** 2 * q], False)
    if "power" in o:
        judge("power", o["power"], pw(V["M"]), "the probability that a non-central chi-square with n degrees of freedom and M^2 w'V^-1 w exceeds the critical value (w the normalised %s pattern)" % kind)
    if o.get("powers"):
        judge("power", o["powers"][0], pw(o["powers"][1]), "the power of the test at the curve's own magnitude")
    if zero:
        return
    if "violation_weights" in o and name == "PreTrendsPower.fit":
        v = o["violation_weights"]
        weights_ok(c, name, kind, v, where)
        if v is not None:
            judge("weight norm", v[0], 1 / nrm, "one over the length of the pattern")
    if "noncentrality" in o:
        judge("noncentrality", o["noncentrality"], V["M"] ** 2 * q, "M^2 w'V^-1 w")
    if "critical_value" in o:
        judge("critical value", o["critical_value"], cv, "the 1 - alpha quantile of the chi-square with n degrees of freedom")
    if "test_statistic" in o:
        judge("expected statistic", o["test_statistic"], NVEC + V["M"] ** 2 * q, "n + noncentrality")
    if "violation_magnitude" in o:
        judge("magnitude", o["violation_magnitude"], V["M"], "the magnitude asked for")
    if "mdv" in o:
        mdv(S, c, r, name, kind, N, o["mdv"], q, cv, judge, where)


def mdv(S, c, r, name, kind, N, got, q, cv, judge, where):
    if got == sp.oo:
        return
    roots = []
    for s in got.free_symbols:
        if s.name.startswith("t") and s.name[1:].isdigit():
            t = byid(int(s.name[1:]))
            if t.op == "call" and t.a[0] in ("scipy.optimize.brentq", "scipy.optimize.bisect", "scipy.optimize.brenth", "scipy.optimize.ridder"):
                roots.append((s, t))
    if len(roots) != 1:
        c.undecide("mdv of %s (%s): %s" % (name, kind, deep(N, got)))
        return
    s, t = roots[0]
    f = t.a[1]
    nc = mk("param", "nc")
    try:
        body = r.I.snap(r.I.call(f, [nc], {}, None))
    except Exception:
        c.undecide("mdv function of %s" % name)
        return
    ncs = sp.Symbol("nc", positive=True)
    base = N.leaf

    def lf(t):
        return ncs if t is nc else base(t)
    N2 = Trend(N.world, leaf=lf, assume=lambda t, M: (t.op == "lt") if t.op in ("lt", "le") and nc in (t.a[0], t.a[1]) and any(is_const(y) for y in t.a) else N.assume(t, M))
    N2.atoms = N.atoms
    try:
        eqn = N2.e(body)
    except (Opaque, Need):
        c.undecide("mdv function of %s" % name)
        return
    want = (1 - N.cdf("ncx2", cv, [NVEC, ncs], False)) - V["power"]
    tag = "%s %s" % (name, kind)
    if same(eqn, want) or same(eqn, -want):
        c.ob("target equation", tag)
    elif all(x in V.values() or x in (ncs, NVEC) or "#" in x.name for x in eqn.free_symbols):
        c.find("target:%s" % name, "the minimum detectable violation of %s solves %s = 0, not power - target power = 0" % (tag, deep(N, eqn)), where=where)
        return
    else:
        c.undecide("target equation of %s" % tag)
        return
    root = N.atom("root")
    judge("minimum detectable violation", got.subs({s: root}), sp.sqrt(root / q), "the magnitude whose noncentrality M^2 w'V^-1 w solves power = target")


# ---------------------------------------------------------------- simulation

def simulated(S, c):
    e = S.find("simulate_power")
    if e is None:
        c.undecide("simulate_power not found")
        return
    r = analyze(S.P, e[1], e[2], rust=False)
    F = fields_of(r.retterm)
    where = "%s (%s:%d)" % (e[1].qual, e[1].mod.name, e[1].node.lineno)
    alpha = mk("param", "alpha")
    grid = [t for t in F.get("effect_sizes", [])]
    powers = F.get("powers", [])
    if len(powers) != 1 or len(grid) != 1:
        c.undecide("simulate_power result")
        return
    from ..alg import worlds, Norm

    class Calm(Norm):
        def _cond(self, t):
            if t.op in ("exc", "excpart"):
                return False
            if t.op == "ran":
                return True
            if t.op == "eq":
                ps = [x for x in t.a if x.op == "pos"]
                if len(ps) == 1:
                    self.__dict__.setdefault("caps", set()).add(t.a[1] if t.a[0] is ps[0] else t.a[0])
                    return True
            return super()._cond(t)

    def w_of(fn):
        from ..alg import Need as N_
        st, n = [{}], 0
        while st and n < 400:
            w = st.pop()
            try:
                yield fn(Calm(w))
            except N_ as k:
                n += 1
                st += [{**w, k.key: v} for v in (False, True)]

    def item(N, lst):
        """What one simulation adds to a list."""
        if lst.op != "mu" or lst.init.op != "list" or lst.init.a or lst.next is None:
            return None
        x = N.res(lst.next)
        if x is lst:
            return "skip"
        if x.op != "append" or x.a[0] is not lst:
            return None
        x = N.res(x.a[1])
        while x.op == "call" and x.a[0] in ("builtins.bool", "builtins.int", "builtins.float", "numpy.bool_") and len(x.a) == 2:
            x = N.res(x.a[1])
        return x

    def meanof(N, t):
        t = N.res(t)
        while t.op == "call" and t.a[0] in ("builtins.float",) and len(t.a) == 2:
            t = N.res(t.a[1])
        if t.op == "call" and t.a[0] in ("numpy.mean",) and len(t.a) == 2:
            return N.res(t.a[1])
        if t.op == "bin" and t.a[0] == "/":
            x, y = N.res(t.a[1]), N.res(t.a[2])
            if x.op == "call" and x.a[0] in ("builtins.sum", "numpy.sum") and y.op == "call" and y.a[0] == "builtins.len" and N.res(x.a[1]) is N.res(y.a[1]):
                return N.res(x.a[1])
        return None

    def result_of(N, t, names):
        """The fit an inference value is read from."""
        t = N.res(t)
        if t.op == "attr" and t.a[1] in names:
            return t.a[0], t.a[1]
        if t.op == "call" and t.a[0] == "builtins.getattr" and len(t.a) >= 3 and is_str(t.a[2]) and cval(t.a[2]) in names:
            return N.res(t.a[1]), cval(t.a[2])
        return None

    FAM = {"p": ("p_value", "avg_p_value", "overall_p_value"), "ci": ("conf_int", "avg_conf_int", "overall_conf_int"), "est": ("att", "avg_att", "overall_att"), "se": ("se", "avg_se", "overall_se")}

    # the list of powers: one mean of rejections per effect
    P = powers[0]
    rej = None
    if P.op == "mu" and P.init.op == "list" and P.next is not None:
        def body1(N):
            x = N.res(P.next)
            nonlocal rej
            if x.op == "append" and x.a[0] is P:
                m = meanof(N, x.a[1])
                bad = wrong_share(N, x.a[1])
                if bad:
                    c.find("power-share", "simulate_power divides the number of rejections by %s, not by the number of fits judged" % bad, where=where)
                    rej = False
                    return
                if m is None:
                    c.undecide("power per effect: %s" % show(x.a[1], 3))
                    return
                rej = m
        for _ in w_of(body1):
            pass
    if rej is False:
        return
    if rej is None or rej.op != "mu":
        c.undecide("rejections")
        return
    # rejection: p < alpha, p of the fit to the data simulated in this pass

    def body2(N):
        x = item(N, rej)
        if x == "skip":
            return
        if x is None:
            c.undecide("rejection list")
            return
        if x.op in ("lt", "le"):
            pr = result_of(N, x.a[0], FAM["p"])
            other = x.a[1]
            if pr is None and result_of(N, x.a[1], FAM["p"]):
                c.find("rejects-large-p", "simulate_power counts a rejection when the p-value exceeds %s" % show(x.a[0], 2), where=where)
                return
            if pr is None:
                c.undecide("p-value compared: %s" % show(x, 3))
                return
            if other is not alpha:
                if is_const(other) or not any(z is alpha for z in reach([other])):
                    c.find("rejection-level", "simulate_power rejects at %s, not at alpha" % show(other, 3), where=where)
                else:
                    c.undecide("rejection level %s" % show(other, 3))
                return
            c.ob("rejection rule", pr[1])
        else:
            c.undecide("rejection: %s" % show(x, 3))
    for _ in w_of(body2):
        pass
    # power: the primary entry of powers; the same index names the true effect and the detailed results
    def body3(N):
        out = {}
        for f in ("power", "rejection_rate", "true_effect"):
            for t in F.get(f, []):
                x = N.res(t)
                while x.op == "call" and x.a[0] == "builtins.float":
                    x = N.res(x.a[1])
                if x.op == "param":
                    c.find("true-effect", "simulate_power reports %s as the %s, whichever effect was simulated" % (show(x, 2), f), where=where)
                elif x.op != "idx":
                    c.undecide("%s: %s" % (f, show(x, 3)))
                else:
                    out[f] = N.res(x.a[1])
                    if f != "true_effect" and N.res(x.a[0]) is not P:
                        c.undecide("%s source" % f)
                    elif f == "true_effect" and N.res(x.a[0]) is not N.res(grid[0]):
                        c.undecide("true effect source")
        for f in ("mean_estimate", "mean_se", "coverage", "std_estimate"):
            for t in F.get(f, []):
                N.caps = set()
                N.memo.clear(), N.cmemo.clear()
                capture(N, t, "numpy.std" if f == "std_estimate" else "numpy.mean", meanof, item)
                if len(N.caps) == 1:
                    out[f] = N.res(next(iter(N.caps)))
        if len({k.id for k in out.values()}) > 1 and "power" in out:
            odd = [f for f in out if out[f] is not out["power"]]
            c.find("primary-index", "simulate_power reports the power of effect %s and the %s of effect %s" % (show(out["power"], 3), ", ".join(odd), show(out[odd[0]], 3)), where=where)
        elif len(out) >= 2:
            c.ob("primary effect", str(sorted(out)))
    for _ in w_of(body3):
        pass
    # captured lists
    need = {"mean_estimate": ("est", "numpy.mean"), "mean_se": ("se", "numpy.mean"), "coverage": ("cover", "numpy.mean"), "std_estimate": ("est", "numpy.std")}
    for f, (kind, fn) in need.items():
        for t in F.get(f, []):
            seen = False
            def body4(N):
                x = capture(N, t, fn, meanof, item)
                nonlocal seen
                if x is None or x == "skip":
                    return
                seen = True
                x, ks = x
                if kind == "cover":
                    cover(c, N, x, result_of, FAM, where, grid[0])
                    return
                pr = result_of(N, x, FAM[kind])
                if pr:
                    c.ob("summary", "%s from %s" % (f, pr[1]))
                else:
                    bad = next((k for k, v in FAM.items() if result_of(N, x, v)), None)
                    if bad:
                        c.find("summary:%s" % f, "simulate_power's %s averages the %s of each fit" % (f, result_of(N, x, FAM[bad])[1]), where=where)
                    else:
                        c.undecide("%s: %s" % (f, show(x, 3)))
            for _ in w_of(body4):
                pass
            if not seen:
                c.undecide("%s: %s" % (f, show(t, 3)))
    interval(c, F, w_of, where, P)


def wrong_share(N, t):
    t = N.res(t)
    while t.op == "call" and t.a[0] == "builtins.float":
        t = N.res(t.a[1])
    if t.op == "bin" and t.a[0] == "/":
        x, y = N.res(t.a[1]), N.res(t.a[2])
        if (x.op == "call" and x.a[0] in ("builtins.sum", "numpy.sum")) and y.op in ("param", "c"):
            return show(y, 2)
    return None


def capture(N, t, fn, meanof, item):
    t = N.res(t)
    while t.op == "call" and t.a[0] == "builtins.float":
        t = N.res(t.a[1])
    m = meanof(N, t) if fn == "numpy.mean" else None
    if fn == "numpy.std" and t.op == "call" and t.a[0] == "numpy.std":
        m = N.res(t.a[1])
    if m is None or m.op != "mu":
        return None
    x = item(N, m)
    return x if x is None or x == "skip" else (x, None)


def cover(c, N, x, result_of, FAM, where, grid):
    """lower <= effect <= upper of the same fit's interval; the effect is the one simulated in this pass."""
    parts = list(x.a) if x.op == "and" else [x]
    lo = hi = None
    effs = []
    for p in parts:
        if p.op not in ("le", "lt"):
            c.undecide("coverage: %s" % show(x, 4))
            return
        for side in (0, 1):
            y = N.res(p.a[side])
            if y.op == "idx" and is_const(y.a[1]):
                pr = result_of(N, y.a[0], FAM["ci"])
                if pr:
                    effs.append(N.res(p.a[1 - side]))
                    if side == 0:
                        lo = cval(y.a[1])
                    else:
                        hi = cval(y.a[1])
    if lo is None and hi is None or not effs:
        c.undecide("coverage: %s" % show(x, 4))
        return
    if lo != 0 or hi not in (1, -1):
        c.find("coverage-ends", "simulate_power's coverage does not ask for lower <= effect <= upper", where=where)
    elif any(y.op != "elem" or N.res(y.a[0]) is not N.res(grid) for y in effs):
        y = next(y for y in effs if y.op != "elem" or N.res(y.a[0]) is not N.res(grid))
        if y.op in ("param", "c", "idx"):
            c.find("coverage-effect", "simulate_power's coverage asks for %s in the interval, not for the effect simulated" % show(y, 3), where=where)
        else:
            c.undecide("coverage of %s" % show(y, 3))
    else:
        # the same effect is handed to the generator
        fits = [z for z in reach([x]) if z.op == "vcall" and z.a and z.a[0].op == "param"]
        ok = any(k.op == "kw" and k.a[0] == "treatment_effect" and N.res(k.a[1]) is effs[0] for z in fits for k in z.a if type(k) is T)
        named(c, fits, where)
        if fits and not ok:
            c.find("effect-simulated", "simulate_power judges coverage of one effect and simulates another", where=where)
        else:
            c.ob("coverage", show(x, 2))


def named(c, calls, where):
    """Simulation settings reach the generator under their own names."""
    for z in calls:
        for k in z.a:
            if type(k) is T and k.op == "kw" and k.a[0] in ("n_units", "n_periods", "treatment_fraction", "treatment_period", "noise_sd"):
                want = mk("param", {"noise_sd": "sigma"}.get(k.a[0], k.a[0]))
                if k.a[1] is want:
                    c.ob("setting", k.a[0])
                elif not any(x.op == "ite" for x in reach([k.a[1]])):
                    c.find("setting:%s" % k.a[0], "simulate_power generates data with %s = %s" % (k.a[0], show(k.a[1], 3)), where=where)


def interval(c, F, w_of, where, P):
    for t in F.get("power_ci", []):
        def go(N):
            return N, N.res(t)
        for N, x in w_of(go):
            if x.op != "tuple" or len(x.a) != 2:
                c.undecide("power_ci: %s" % show(x, 3))
                continue
            Y = Sym(N.world, leaf=lambda z: sp.Symbol("p", positive=True) if z.op == "idx" and N.res(z.a[0]) is P else
                    sp.Symbol("n", positive=True) if z.op == "call" and z.a[0] == "builtins.len" else None, assume=lambda z, M: N._cond(z) if z.op in ("exc", "excpart", "ran") else None)
            try:
                a, b = Y.e(x.a[0]), Y.e(x.a[1])
            except (Opaque, Need):
                c.undecide("power_ci")
                continue
            p, n = sp.Symbol("p", positive=True), sp.Symbol("n", positive=True)
            half = Y.ppf("norm", sp.Rational(975, 1000), [], True) * sp.sqrt(p * (1 - p) / n)
            lo, hi = Y.extreme("max", [sp.Integer(0), p - half]), Y.extreme("min", [sp.Integer(1), p + half])
            for nm, g, w in (("lower", a, lo), ("upper", b, hi)):
                if same(g, w):
                    c.ob("power interval", nm)
                elif all(s in (p, n) or Y.argsof(s) for s in g.free_symbols):
                    c.find("power-interval:%s" % nm, "the %s end of simulate_power's interval is %s, not power -/+ z sqrt(p(1-p)/n) within [0, 1]" % (nm, deep(Y, g)), where=where)
                else:
                    c.undecide("power_ci %s: %s" % (nm, deep(Y, g)))


def run(S, c):
    S = S.python()
    c.rule("Each closed form returned by PowerAnalysis, the convenience functions, the power curves, PreTrendsPower and its results is extracted, brought to canonical "
           "algebraic form in every branch and compared with the documented one: one variance, one power function and its two inverses.")
    analytic(S, c)
    curves(S, c)
    pretrends(S, c)
    extraction(S, c)
    simulated(S, c)
    c.floor("minimum detectable effect", 16)
    c.floor("power", 20)
    c.floor("required sample", 10)
    c.floor("noncentrality", 3)
    c.floor("rejection rule", 1)
