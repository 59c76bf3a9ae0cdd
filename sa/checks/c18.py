"""C18: every group-time effect compares the documented units in the documented periods."""
from ..terms import *
from ..alg import Norm, worlds, Overflow, args_of
from ..infer import strip
from ..masks import *

FIRST = (mk("param", "first_treat"), const("first_treat"))


def is_cohort(x):
    while True:
        if x.op == "idx":
            if x.a[1] in FIRST:
                return True
            return False
        if x.op == "attr" and x.a[1] in ("values", "array"):
            x = x.a[0]
        elif x.op == "m" and x.a[1] in PASS_M:
            x = x.a[0]
        elif x.op == "call" and x.a[0] in PASS_C and len(x.a) >= 2:
            x = x.a[1]
        else:
            return False


GRID = [(g, t, A) for g in (5,) for A in (0, 1, 2) for t in range(1, 10)]
COH = [0, INF] + list(range(1, 11))


def base_of(mode, e):
    g, t, A = e["g"], e["t"], e["anticipation"]
    return t - 1 if mode == "varying" and t < g - A else g - 1 - A


def member(role, opt, mode, e):
    """True / False / None (either is fine): does the documented group contain cohort c at this cell?"""
    g, t, A, c = e["g"], e["t"], e["anticipation"], e["c"]
    if role == "treated":
        return c == g
    if c in (0, INF):
        return True
    if opt == "never_treated" or c == g or c <= t:
        return False
    return True if c > max(t, base_of(mode, e)) + A else None


class Cell:
    def __init__(self, D, opt, mode, world):
        self.D, self.opt, self.mode, self.world = D, opt, mode, world
        self.memo = {}
        self.pts = []
        for g, t, A in GRID:
            e = {"g": g, "t": t, "anticipation": A, "c": 0}
            if mode == "universal" and t == base_of(mode, e):
                continue
            if feasible(world, D, e):
                self.pts.append(e)

    def role(self, masks):
        """'treated', 'control', ('bad', why) or None when unreadable; masks is a tuple of masks applied together."""
        k = tuple(sorted(m.id for m in masks))
        if k not in self.memo:
            self.memo[k] = self._role(masks)
        return self.memo[k]

    def _role(self, masks):
        m = masks[0]
        for x in masks[1:]:
            m = mk("bin", "&", m, x)
        why = {}
        ok = {"treated": True, "control": True}
        dep = False
        try:
            for p in self.pts:
                for c in COH:
                    e = dict(p, c=c)
                    v = self.D.table(m, e)
                    for r in ok:
                        want = member(r, self.opt, self.mode, e)
                        if want is True and True not in v or want is False and True in v:
                            ok[r] = False
                            why.setdefault(r, []).append((e, "left out" if want else "included"))
                    if True not in v or False not in v:
                        dep = True
        except Unknown:
            return None
        for r in ok:
            if ok[r]:
                return r
        if not dep:
            return None
        r = min(why, key=lambda r: len(why[r]))
        e, w = why[r][0]
        return ("bad", "as the %s group: units first treated in %s are %s at g=%d, t=%d, anticipation=%d" % (
            r, {0: "0 (never)", INF: "inf (never)"}.get(e["c"], e["c"]), w, e["g"], e["t"], e["anticipation"]))


    def exact(self, masks, role):
        """None when the rows are exactly the group's units with both outcomes present; text when not; False when unreadable."""
        k = ("exact", role) + tuple(sorted(m.id for m in masks))
        if k not in self.memo:
            self.memo[k] = self._exact(masks, role)
        return self.memo[k]

    def _exact(self, masks, role):
        m = masks[0]
        for x in masks[1:]:
            m = mk("bin", "&", m, x)
        try:
            for p in self.pts:
                t, b = p["t"], base_of(self.mode, p)
                for c in COH:
                    for mt in (False, True):
                        for mb in (False, True):
                            e = dict(p, c=c, miss={t: mt, b: mb})
                            v = self.D.table(m, e)
                            want = member(role, self.opt, self.mode, e)
                            if (mt or mb) and v == {True}:
                                return "includes units whose outcome is missing in period %d" % (t if mt else b)
                            if not mt and not mb and (want is True and True not in v):
                                return "leaves out units observed in both periods"
        except Unknown:
            return False
        return None


def cells(r):
    """(g, t, {field: term}) of the group-time records of a result."""
    for x in reach(r.retterm):
        if x.op == "setitem" and x.a[1].op == "tuple" and len(x.a[1].a) == 2 and x.a[2].op == "dict":
            d = {cval(k.a[0]): k.a[1] for k in x.a[2].a if k.op == "kv" and is_str(k.a[0])}
            if "effect" in d:
                yield x.a[1].a[0], x.a[1].a[1], d


def at(e):
    return "g=%d, t=%d, anticipation=%d" % (e["g"], e["t"], e["anticipation"])


def run(S, c):
    c.rule("Rule: in CallawaySantAnna.fit, per control_group and base_period and for every estimation method, the group-time effect "
           "without covariates normalises to mean(Y_t - Y_base | cohort = g) - mean(Y_t - Y_base | control), with the base period and "
           "control group of the documentation; every row mask feeding a cell selects exactly the treated or the control group (up to "
           "missing outcomes), decided on all order types of cohort, g, t and anticipation; outcome models are fitted on control rows; "
           "covariates are those of the base period; n_treated and n_control count those groups.")
    S = S.python()
    for opt in ("never_treated", "not_yet_treated"):
        for mode in ("varying", "universal"):
            for cov, em in [(x, y) for x in (False, True) for y in ("reg", "ipw", "dr")]:
                fixed = None if cov else {"covariates": NONE}
                r = S.res("CallawaySantAnna.fit", options={"control_group": const(opt), "base_period": const(mode), "estimation_method": const(em)},
                          fixed=fixed, key="c18%s%s%s%s" % (opt, mode, cov, em))
                tag = "control_group=%s, base_period=%s, estimation_method=%s" % (opt, mode, em)
                for g, t, d in cells(r):
                    D = Design({g: "g", t: "t"}, is_cohort)
                    try:
                        one(c, D, opt, mode, tag, d, cov)
                    except Overflow:
                        c.undecide(tag + ": too many branches")
    c.floor("row masks", 1)


def bad(c, rule, tag, text, show_):
    c.find("%s:%s" % (rule, tag), "%s: %s" % (tag, text), where="CallawaySantAnna.fit", path=show_)


def one(c, D, opt, mode, tag, d, cov):
    if not cov:
        e = d["effect"]

        def fn(N):
            t = strip(N, e)
            return N, t, N.n(t)
        for w, (N, t, p) in worlds(fn, 3000):
            if t.op in ("c", "undef"):
                continue
            C = Cell(D, opt, mode, w)
            if not C.pts:
                continue
            try:
                l = means(p, N)
            except Altered as x:
                bad(c, "comparison", tag, str(x), show(t, 8))
                continue
            if l is None:
                c.undecide("%s: effect %s" % (tag, show(t, 4)))
                continue
            verdict(c, C, D, N, l, tag, t)
    # sizes
    for f, role in (("n_treated", "treated"), ("n_control", "control")):
        if f in d:
            def fn(N, f=f):
                t = strip(N, d[f])
                return N, t
            for w, (N, t) in worlds(fn, 3000):
                if is_const(t):
                    continue
                m = count_of(t, N)
                C = Cell(D, opt, mode, w)
                ro = C.role(m) if m else None
                if ro is None:
                    c.undecide("%s: %s %s" % (tag, f, show(t, 4)))
                elif ro == role:
                    v = C.exact(m, role)
                    if v:
                        bad(c, f, tag, "%s %s" % (f, v), show(t, 8))
                        continue
                    c.ob("group sizes", (tag, f))
                else:
                    bad(c, f, tag, "%s does not count the %s group%s" % (f, role, ": " + ro[1] if isinstance(ro, tuple) else ""), show(t, 8))
    # masks
    C = Cell(D, opt, mode, {})
    seen = set()
    for x in reach([v for v in d.values()], control=False):
        if x.op == "idx":
            k = x.a[1]
            if k.op == "tuple" and k.a:
                k = k.a[0]
            k = rowsel(k) or k
            if maskish(k) and k.id not in seen:
                seen.add(k.id)
                if any(y.op == "idx" and lookup(y) is None and rowsel(y.a[1]) is not None for y in [x.a[0]]):
                    continue
                ro = C.role((k,))
                if ro is None:
                    if any(is_cohort(y) for y in reach([k])) and mentions_cohort(k):
                        c.undecide("%s: mask %s" % (tag, show(k, 4)))
                elif isinstance(ro, tuple):
                    if not mentions_cohort(k):
                        continue
                    bad(c, "mask", tag, "a row mask is neither the treated nor the control group, %s" % ro[1], show(k, 8))
                else:
                    c.ob("row masks", (tag, ro, k.id))
    if cov:
        N = Norm()
        for x in reach(d["effect"], control=False):
            if x.op == "call" and x.a[0] in ("scipy.linalg.lstsq", "numpy.linalg.lstsq") and len(x.a) > 2:
                y = x.a[2]
                while y.op == "call" and y.a[0] in ("numpy.asarray", "numpy.array", "numpy.ascontiguousarray"):
                    y = y.a[1]
                parts = [y]
                if y.op == "call" and y.a[0] in ("numpy.concatenate", "numpy.hstack", "numpy.r_", "numpy.append", "numpy.vstack"):
                    parts = list(y.a[1].a) if y.a[1].op in ("list", "tuple") else list(y.a[1:])
                ros = []
                for z in parts:
                    try:
                        m = rows_of(z, N)
                    except Exception:
                        m = None
                    ros.append(C.role(m) if m else None)
                ro = next((z for z in ros if z is not None and z != "control"), None if None in ros else "control")
                if ro is None:
                    c.undecide("%s: outcome model %s" % (tag, show(y, 4)))
                elif ro == "control":
                    c.ob("outcome models", (tag, x.id))
                else:
                    bad(c, "model", tag, "an outcome model is fitted on the %s rows, not on the control group" % (ro if isinstance(ro, str) else "wrong"), show(x, 6))
            if x.op == "idx" and rowsel(x.a[1]) is not None and x.a[0].op == "idx" and rowsel(x.a[0].a[1]) is None and x.a[0].a[1].op not in ("tuple", "c", "slice"):
                k = x.a[0].a[1]
                if k.op == "param" or not by_period(x.a[0]):
                    continue
                try:
                    wrong = [e for e in C.pts if D.num(k, e) != base_of(mode, e)]
                except Unknown:
                    c.undecide("%s: covariate period %s" % (tag, show(k, 4)))
                    continue
                c.ob("covariate periods", (tag, x.id))
                if wrong:
                    bad(c, "covariates", tag, "covariates are taken from period %s instead of the base period %s (%s)" % (D.num(k, wrong[0]), base_of(mode, wrong[0]), at(wrong[0])), show(k, 6))


def by_period(x):
    """The value is looked up per period (a dict filled in a loop over periods whose values hold the covariates)."""
    return any(y is mk("param", "covariates") for y in reach(x.a[0], control=False))


def mentions_cohort(k):
    """The cohort vector is compared somewhere in the condition."""
    if k.op in ("lt", "le", "eq"):
        return is_cohort(k.a[0]) or is_cohort(k.a[1])
    if k.op == "idx":
        v = lookup(k)
        return v is not None and mentions_cohort(v)
    return any(type(y) is T and mentions_cohort(y) for y in k.a) if k.op in ("bin", "un", "not", "and", "or", "call", "m", "ite") else False


def verdict(c, C, D, N, l, tag, t):
    for e in C.pts:
        got = {}
        for co, mat, col, masks in l:
            per, off = period(col)
            try:
                v = D.num(per, e)
            except Unknown:
                c.undecide("%s: period %s" % (tag, show(col, 4)))
                return
            if off:
                bad(c, "positions", tag, "a period is reached by counting columns (%+d) instead of by its label, so a gap in the periods moves it" % off, show(col, 6))
                return
            ro = C.role(masks) if masks else ("bad", "all units")
            if ro is None:
                c.undecide("%s: mask %s" % (tag, " & ".join(show(m, 4) for m in masks)))
                return
            if isinstance(ro, tuple):
                bad(c, "units", tag, "the effect averages over a group that is neither treated nor control, " + ro[1], show(t, 8))
                return
            why = C.exact(masks, ro)
            if why:
                bad(c, "units", tag, "the %s average %s" % (ro, why), show(t, 8))
                return
            why = altered(mat)
            if why:
                bad(c, "outcomes", tag, "outcomes are changed by %s before they are compared" % why, show(mat, 6))
                return
            k = (v, ro)
            got[k] = got.get(k, 0) + co
        b = base_of(C.mode, e)
        want = {}
        for k, v in (((e["t"], "treated"), 1), ((b, "treated"), -1), ((e["t"], "control"), -1), ((b, "control"), 1)):
            want[k] = want.get(k, 0) + v
        got = {k: v for k, v in got.items() if v}
        want = {k: v for k, v in want.items() if v}
        if got != want:
            bad(c, "comparison", tag, "at %s the effect is %s; documented: %s" % (at(e), fmt(got), fmt(want)), show(t, 8))
            return
    c.ob("effects", (tag, t.id))
    c.sample("%s: effect = mean change of cohort g minus mean change of controls, %d cells" % (tag, len(C.pts)))


def fmt(d):
    return " ".join("%+g*mean(Y%s | %s)" % (v, k[0], k[1]) for k, v in sorted(d.items(), key=str)) or "0"
