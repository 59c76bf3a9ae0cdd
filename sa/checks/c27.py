"""C27: covariate-adjusted comparisons follow the documented regression, weighting and doubly robust formulas."""
from ..terms import *
from ..alg import Need
from ..entry import analyze
from ..masks import Design, Unknown, maskish, rowsel
from . import c18
from ..obs import Cells, Obs, Mat, Coef, Unread, Wrong, Opaque, clip, equal, sp

TD = ("TripleDifference.fit",)
CS = "CallawaySantAnna.fit"
CHANGE = sp.Symbol("o:change", real=True)
CELLS8 = ["%d%d%d" % (g, p, t) for g in (0, 1) for p in (0, 1) for t in (0, 1)]
Y = sp.Symbol("o:y", real=True)


def fields(t):
    return {x.a[0]: x.a[1] for x in t.a if type(x) is T and x.op == "f"}


def worlds(make, fn, cap=40):
    st, n = [{}], 0
    while st:
        w = st.pop()
        N = make(w)
        try:
            r = fn(N)
        except Need as e:
            n += 1
            if n > cap:
                return
            st += [{**w, e.key: v} for v in (False, True)]
            continue
        yield N, r


def logit(N, D):
    """The name of the linear index of a logistic fit of D (by cell) on an intercept and the covariates."""
    for (kind, key), name in list(N.fits.items()):
        if kind == "logit" and type(key) is tuple and key[0] == tuple(sorted((str(c), d) for c, d in D.items())) and sorted(map(str, key[1])) == ["1", "X"]:
            return sp.Symbol("o:" + name, real=True)
    return None


def fitted(N, cells, val):
    """Prediction at an observation's covariates of a regression of val on intercept and covariates over cells."""
    want = tuple(sorted((str(k), str(N.canon(val))) for k in cells))
    for (kind, key), name in list(N.fits.items()):
        if kind == "mu" and key[0] == want and sorted(map(str, key[1])) == ["1", "X"]:
            return sp.Symbol("o:" + name, real=True)
    return None


class Triple:
    def __init__(self, S, c):
        self.S, self.c = S, c

    def given(self, t, N):
        if t.op == "param" and t.a[0] == "data":
            return Mat(CELLS8)
        if t.op == "cfg" and t.a[0] in ("pscore_trim", "self.pscore_trim"):
            return sp.Symbol("trim", positive=True)
        if t.op == "idx" and t.a[0].op == "param" and t.a[0].a[0] == "data" and t.a[1].op == "param":
            r = t.a[1].a[0]
            if r == "outcome":
                return Obs(CELLS8, {k: Y for k in CELLS8})
            if r in ("group", "partition", "time"):
                i = ("group", "partition", "time").index(r)
                return Obs(CELLS8, {k: sp.Integer(int(k[i])) for k in CELLS8})
            if r == "covariates":
                return Mat(CELLS8)
        if t.op == "m" and t.a[1] == "copy" and t.a[0].op == "param":
            return self.given(t.a[0], N)
        return None

    def assume(self, t, N):
        if t.op == "param" and t.a[0] == "covariates":
            return True
        if t.op == "is" and t.a[1] is NONE and t.a[0].op == "param" and t.a[0].a[0] == "covariates":
            return False
        if t.op == "is" and t.a[1] is NONE:
            try:
                return not isinstance(N.go(t.a[0]), (Obs, Mat))
            except (Unread, Opaque):
                return None
        return None

    def want(self, N, method, cov):
        """Documented att, se, r_squared, pscore statistics."""
        trim = sp.Symbol("trim", positive=True)
        n = N.count(CELLS8)
        groups = [("11", 1), ("10", -1), ("01", -1), ("00", 1)]
        if cov:
            p = []
            for i in (0, 1):
                z = logit(N, {k: int(k[i]) for k in CELLS8})
                if z is None:
                    return None
                p.append(clip(1 / (1 + sp.exp(-z)), trim, 1 - trim))
            pc = {"11": p[0] * p[1], "10": p[0] * (1 - p[1]), "01": (1 - p[0]) * p[1], "00": (1 - p[0]) * (1 - p[1])}
        else:
            pc = {q: N.count([k for k in CELLS8 if k[:2] == q]) / n for q, _ in groups}
        pc = {q: clip(sp.cancel(v) if not v.atoms(sp.Function) else v, trim, 1 - trim) for q, v in pc.items()}
        att, inf = sp.Integer(0), {k: sp.Integer(0) for k in CELLS8}
        own = {}
        for q, s in groups:
            for t, ts in (("1", 1), ("0", -1)):
                k, ref = q + t, "11" + t
                w = sp.Integer(1) if q == "11" else pc["11"] / pc[q]
                if method == "ipw":
                    m = sp.Integer(0)
                elif cov:
                    m = fitted(N, [k], Y)
                    if m is None:
                        return None
                else:
                    m = N.S(k, Y) / N.num(k)
                own[k] = m
                W = N.S(k, w)
                m = N.hide(m)
                base = N.S(ref, m) / N.num(ref)
                adj = N.hide(N.S(k, w * (Y - m)) / W)
                att += s * ts * (base + adj)
                base = N.hide(base)
                inf[ref] += s * ts * n * (m - base) / N.num(ref)
                inf[k] += s * ts * n * w * (Y - m - adj) / W
        t1 = sum(N.S(k, inf[k]) for k in CELLS8)
        t2 = sum(N.S(k, inf[k] ** 2) for k in CELLS8)
        out = {"att": att, "se": sp.sqrt((t2 - t1 ** 2 / n) / (n - 1) / n)}
        if cov and method == "dr":
            mean = N.hide(sum(N.S(k, Y) for k in CELLS8) / n)
            out["r_squared"] = 1 - sum(N.S(k, (Y - own[k]) ** 2) for k in CELLS8) / sum(N.S(k, (Y - mean) ** 2) for k in CELLS8)
        if cov:
            for i, nm in ((0, "G"), (1, "P")):
                m = N.hide(sum(N.S(k, p[i]) for k in CELLS8) / n)
                v = sum(N.S(k, (p[i] - m) ** 2) for k in CELLS8) / n
                out["pscore_stats", "P(%s=1) mean" % nm] = m
                out["pscore_stats", "P(%s=1) std" % nm] = sp.sqrt(v)
        return out

    def run(self):
        c, S = self.c, self.S
        e = S.find(TD[0])
        if e is None:
            c.undecide("TripleDifference.fit not found")
            return
        where = "%s (%s:%d)" % (e[1].qual, e[1].mod.name, e[1].node.lineno)
        for method in ("ipw", "dr"):
            for cov, deficient in ((False, False), (True, False), (True, True)):
                if deficient and method == "ipw":
                    continue
                r = analyze(S.P, e[1], e[2], options={"estimation_method": const(method)}, fixed=None if cov else {"covariates": NONE}, rust=False)
                F = fields(r.retterm) if r.retterm.op == "new" else {}
                tag = "TripleDifference %s%s" % (method, " with collinear covariates" if deficient else " with covariates" if cov else "")

                def go(N):
                    o = {}
                    for f in ("att", "se", "r_squared", "n_obs", "n_treated_eligible", "n_treated_ineligible", "n_control_eligible", "n_control_ineligible"):
                        if f in F:
                            self.read(N, o, f, F[f])
                    for f in ("group_means", "pscore_stats"):
                        if f in F:
                            t = F[f]
                            while t.op == "ite":
                                t = t.a[1] if N.cond(t.a[0]) else t.a[2]
                            if t.op == "dict":
                                for kv in t.a:
                                    if kv.op == "kv" and is_const(kv.a[0]):
                                        self.read(N, o, (f, cval(kv.a[0])), kv.a[1])
                    return o
                any_ = False
                for N, o in worlds(lambda w: Cells(r.I, CELLS8, self.given, self.assume, w, deficient), go):
                    any_ = True
                    w = self.want(N, method, cov) or {}
                    for g, gn in (("1", "treated"), ("0", "control")):
                        for p, pn in (("1", "eligible"), ("0", "ineligible")):
                            w["n_%s_%s" % (gn, pn)] = N.count([k for k in CELLS8 if k[:2] == g + p])
                            for t, tn in (("0", "Pre"), ("1", "Post")):
                                k = g + p + t
                                w["group_means", "%s, %s, %s" % (gn.title(), pn.title(), tn)] = N.S(k, Y) / N.num(k)
                    w["n_obs"] = N.count(CELLS8)
                    if isinstance(o.get("att"), Exception) and not isinstance(o["att"], Wrong):
                        w = {f: w[f] for f in w if f not in ("se", "r_squared")}
                    for f in w:
                        compare(c, N, f if type(f) is str else "%s[%s]" % f, o.get(f, "not read"), w[f], tag, where)
                    if not (method == "ipw" and not cov) and "att" not in w:
                        otherfit(c, N, "att", o.get("att", "not read"), tag, where)
                if not any_:
                    c.undecide("%s: too many cases" % tag)

    def read(self, N, o, f, t):
        try:
            o[f] = N.sc(t)
        except (Unread, Opaque) as x:
            o[f] = x


class Staggered:
    """Group-time effects: two groups of units, the cohort (t) and its controls (c)."""

    def __init__(self, S, c):
        self.S, self.c = S, c

    def given(self, t, N):
        m = t.a[1] if t.op == "call" and t.a[0] in ("numpy.sum", "numpy.count_nonzero", "builtins.sum") and len(t.a) == 2 else \
            t.a[0] if t.op == "m" and t.a[1] == "sum" and len(t.a) == 2 else None
        if m is not None and maskish(m):
            ro = self.role(m)
            return N.num(ro) if ro else None
        if t.op == "idx":
            m = t.a[1]
            if m.op == "tuple" and len(m.a) == 2 and m.a[1].op == "slice":
                m = m.a[0]
            m = rowsel(m) or m
            if not maskish(m):
                return None
            ro = self.role(m)
            if ro is None:
                return None
            return self.block(N, t.a[0], ro)
        return None

    def role(self, m):
        r = self.C.role((m,))
        return {"treated": "t", "control": "c"}.get(r)

    def block(self, N, x, k):
        x = N.res(x)
        ps = [y for y in reach([x], control=False) if y.op == "param"]
        names = {y.a[0] for y in ps}
        if "covariates" in names and "outcome" not in names:
            return Mat((k,), True)
        if "outcome" not in names:
            return Obs((k,), {k: sp.Symbol("o:label", real=True)}, True)
        v = self.form(N, x)
        return Obs((k,), {k: v}, True)

    def form(self, N, x):
        """Expression of a unit vector: period columns of the outcome matrix, and their differences."""
        x = N.res(x)
        if x.op == "bin" and x.a[0] in "+-*/":
            p, q = self.form(N, x.a[1]), self.form(N, x.a[2])
            return {"+": p + q, "-": p - q, "*": p * q, "/": p / q}[x.a[0]]
        if x.op == "call" and x.a[0] in ("numpy.subtract",):
            return self.form(N, x.a[1]) - self.form(N, x.a[2])
        if x.op == "un" and x.a[0] == "-":
            return -self.form(N, x.a[1])
        if x.op == "idx" and is_const(x.a[1]) and x.a[0].op == "attr" and x.a[0].a[1] == "T":
            # a column of several taken at once
            y = N.res(x.a[0].a[0])
            if y.op == "idx" and y.a[1].op == "tuple" and len(y.a[1].a) == 2 and N.res(y.a[1].a[1]).op in ("list", "tuple"):
                l = N.res(y.a[1].a[1]).a
                if isinstance(cval(x.a[1]), int) and cval(x.a[1]) < len(l):
                    x = mk("idx", y.a[0], mk("tuple", y.a[1].a[0], l[cval(x.a[1])]))
        if x.op == "idx" and x.a[1].op == "tuple" and len(x.a[1].a) == 2 and x.a[1].a[0].op == "slice":
            k = N.res(x.a[1].a[1])
            try:
                v = {e_["t"]: None for e_ in ()}
                pts = self.C.pts
                col = c18.period(k)[0]
                now = all(self.D.num(col, e) == e["t"] for e in pts)
                base = all(self.D.num(col, e) == c18.base_of(self.mode, e) for e in pts)
            except Unknown:
                raise Unread("period " + show(k, 3)[:60])
            if now != base:
                return CHANGE + sp.Symbol("o:base", real=True) if now else sp.Symbol("o:base", real=True)
        raise Unread("units' " + show(x, 3)[:80])

    def want(self, N, em, cov):
        nt, nc = N.num("t"), N.num("c")
        D = {"t": 1, "c": 0}
        mean = {k: N.hide(N.S(k, CHANGE) / N.num(k)) for k in "tc"}
        var = lambda k, v: N.hide((N.S(k, v ** 2) - N.S(k, v) ** 2 / N.num(k)) / (N.num(k) - 1))
        if not cov:
            return {"effect": mean["t"] - mean["c"], "se": sp.sqrt(var("t", CHANGE) / nt + var("c", CHANGE) / nc),
                    "t": (CHANGE - mean["t"]) / nt, "c": -(CHANGE - mean["c"]) / nc}
        if em in ("reg", "dr"):
            m = fitted(N, ["c"], CHANGE)
            if m is None:
                return None
        if em in ("ipw", "dr"):
            z = logit(N, D)
            if z is None:
                return None
            p = clip(1 / (1 + sp.exp(-z)), sp.Rational(1, 100), sp.Rational(99, 100))
            w = p / (1 - p)
        if em == "reg":
            r = CHANGE - m
            att = N.hide(N.S("t", r) / nt)
            return {"effect": att, "se": sp.sqrt(var("t", r) / nt + var("c", r) / nc), "t": (r - att) / nt, "c": -r / nc}
        if em == "ipw":
            w = w / N.hide(N.S("c", w))
            wm = N.hide(N.S("c", w * CHANGE))
            i = -w * (CHANGE - wm)
            return {"effect": mean["t"] - wm, "se": sp.sqrt(var("t", CHANGE) / nt + N.S("c", i ** 2)), "t": (CHANGE - mean["t"]) / nt, "c": i}
        r = CHANGE - m
        att = N.hide(N.S("t", r) / nt - N.S("c", w * r) / nt)
        it, ic = (r - att) / nt, -w * r / nt
        return {"effect": att, "se": sp.sqrt(N.S("t", it ** 2) + N.S("c", ic ** 2)), "t": it, "c": ic}

    def run(self):
        c, S = self.c, self.S
        for opt, mode in (("never_treated", "varying"), ("not_yet_treated", "universal")):
            for em in ("reg", "ipw", "dr"):
                for cov in (False, True):
                    r = S.res(CS, options={"control_group": const(opt), "base_period": const(mode), "estimation_method": const(em)},
                              fixed=None if cov else {"covariates": NONE}, key="c18%s%s%s%s" % (opt, mode, cov, em))
                    tag = "CallawaySantAnna %s%s, %s" % (em, " with covariates" if cov else "", opt)
                    self.mode = mode
                    for g, t, d in c18.cells(r):
                        self.D = Design({g: "g", t: "t"}, c18.is_cohort)
                        self.C = c18.Cell(self.D, opt, mode, {})
                        inf = self.influence(r, g, t)
                        self.cell(r, d, inf, em, cov, tag)
                        if cov and em != "ipw" and opt == "never_treated":
                            self.cell(r, d, inf, em, cov, tag + ", collinear covariates", True)

    def influence(self, r, g, t):
        out = []
        for x in reach(r.retterm):
            if x.op == "setitem" and x.a[1].op == "tuple" and x.a[1].a == (g, t) and x.a[2].op in ("dict", "ite"):
                if x.a[2].op == "ite" or not any(k.op == "kv" and k.a[0] == const("effect") for k in x.a[2].a):
                    out.append(x.a[2])
        return out

    def cell(self, r, d, infs, em, cov, tag, deficient=False):
        c = self.c
        where = "%s" % CS

        def go(N):
            o = {}
            if N.res(self.pick(N, d["effect"])) is NONE:
                return None
            for f in ("effect", "se"):
                try:
                    o[f] = N.sc(d[f])
                except (Unread, Opaque) as x:
                    o[f] = x
            for e in infs:
                e = self.pick(N, e)
                of = {}
                for kv in e.a if e.op == "dict" else ():
                    try:
                        v = N.go(kv.a[1])
                    except (Unread, Opaque) as x:
                        o.setdefault("why", x)
                        continue
                    if isinstance(v, Obs) and len(v.cells) == 1 and is_str(kv.a[0]) and "_" in cval(kv.a[0]):
                        name = cval(kv.a[0])
                        pre = name.split("_")[0]
                        if of.setdefault(pre, (v.cells, name))[0] != v.cells:
                            o.setdefault("pairs", []).append((of[pre][1], name))
                    if isinstance(v, Obs) and len(v.cells) == 1 and not v.boolean() and sp.Symbol("o:label", real=True) not in v.val[v.cells[0]].free_symbols:
                        o[v.cells[0]] = v.val[v.cells[0]]
            return o
        any_ = False
        for N, o in worlds(lambda w: Cells(r.I, ["t", "c"], self.given, self.assume, w, deficient), go):
            if o is None:
                continue
            any_ = True
            w = self.want(N, em, cov)
            if w is None:
                otherfit(c, N, "effect", o["effect"], tag, where)
                continue
            if isinstance(o["effect"], Exception) and not isinstance(o["effect"], Wrong):
                w = {"effect": w["effect"]}
            for k in o.get("pairs", ()):
                c.find("pairs:%s" % tag, "%s: %s and %s, stored together, belong to different units" % (tag, k[0], k[1]), where=where)
            names = {"t": "influence of a treated unit", "c": "influence of a control unit"}
            for f in w:
                got = o.get(f, o.get("why", "not read"))
                compare(c, N, names.get(f, f), got, w[f], tag, where)
        if not any_:
            c.undecide("%s: too many cases" % tag)

    def pick(self, N, t):
        while t.op == "ite" and truth(t.a[0]) is None:
            t = t.a[1] if N.cond(t.a[0]) else t.a[2]
        return t

    def assume(self, t, N):
        if t.op == "param" and t.a[0] == "covariates":
            return True
        if t.op == "is" and t.a[1] is NONE and t.a[0].op == "param" and t.a[0].a[0] == "covariates":
            return False
        if t.op == "in":
            return True
        if t.op == "is" and t.a[1] is NONE and t.a[0].op in ("mu", "comp"):
            return False
        if t.op == "is" and t.a[1] is NONE:
            try:
                if isinstance(N.go(t.a[0]), (Obs, Mat, sp.Basic)):
                    return False
            except (Unread, Opaque):
                pass
        return None


def text(N, x):
    back = {s: "sum[%s](%s)" % (k, v) for (k, v), s in N.sums.items()}
    names = {s: e for e, s in N.lets.items()}
    for _ in range(3):
        x = x.xreplace({s: names[s] for s in x.free_symbols if s in names})
    s = str(x)
    for y in sorted(back, key=lambda q: -len(q.name)):
        s = s.replace(y.name, back[y])
    return s.replace("o:", "")[:300]


def otherfit(c, N, f, got, tag, where):
    """The quantity is readable but rests on other models than the documented ones, or is not readable."""
    if isinstance(got, Wrong):
        c.find("%s:%s" % (f, tag), "%s (%s): %s" % (f, tag, got), where=where)
    elif isinstance(got, (str, Exception)):
        c.undecide("%s (%s): %s" % (f, tag, got))
    else:
        c.find("%s:%s" % (f, tag), "%s (%s) is %s, where the models fitted are %s; documented: least squares of the outcome within a group and logistic "
               "models of membership, on an intercept and the covariates" % (
                   f, tag, text(N, got), "; ".join("%s: %s on columns %s" % (n, k[0], ", ".join(k[1])) for (_, k), n in N.fits.items() if isinstance(n, str))), where=where)


def compare(c, N, f, got, want, tag, where):
    if isinstance(got, Wrong):
        c.find("%s:%s" % (f, tag), "%s (%s): %s" % (f, tag, got), where=where)
        return
    if isinstance(got, (str, Exception)):
        c.undecide("%s (%s): %s" % (f, tag, got))
        return
    if equal(got, want, N):
        c.ob(f.split("[")[0], tag)
        return
    c.find("%s:%s" % (f, tag), "%s (%s) is %s; documented %s" % (f, tag, text(N, got), text(N, want)), where=where)


def run(S, c):
    S = S.python()
    c.rule("Rule: estimates and standard errors with covariates are, for any data, the documented sums over the documented cells of the documented "
           "regressions and propensity weights.")
    Triple(S, c).run()
    Staggered(S, c).run()
    c.floor("effect", 8)
    c.floor("att", 4)
