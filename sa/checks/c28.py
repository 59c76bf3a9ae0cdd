"""C28: placebo diagnostics refit on the documented sample; preparation helpers add the documented columns and rows."""
from fractions import Fraction
from ..terms import *
from ..entry import analyze
from ..interp import Interp
from ..rows import Rows, Open, Sym, Drawn, Draw, Fr, Fit, Obj, Lab, stat, NAN, INF, isnan, arith, mean

FIT = "diff_diff.estimators.DifferenceInDifferences.fit"
DIAG = "diff_diff.diagnostics."
KW = {"robust": False, "rank_deficient_action": "silent"}


def Y(*k):
    return Sym({("y",) + k: Fraction(1)})


def panel(units, times, post=None, drop=(), order=7):
    """One row per unit and period, in an order that is neither by unit nor by period.  units: {unit: (group, cohort)}."""
    cells = [(u, t) for u in units for t in times if (u, t) not in drop]
    cells = sorted(cells, key=lambda q: ((list(units).index(q[0]) * 5 + list(times).index(q[1]) * 3) % order, q))
    rows = list(range(100, 100 + len(cells)))
    at = dict(zip(rows, cells))
    cols = {"U": {r: at[r][0] for r in rows}, "T": {r: at[r][1] for r in rows},
            "G": {r: units[at[r][0]][0] for r in rows}, "C": {r: units[at[r][0]][1] for r in rows},
            "Y": {r: Y(*at[r]) for r in rows}, "X": {r: Sym({("x",) + at[r]: Fraction(1)}) for r in rows}}
    if post is not None:
        cols["P"] = {r: int(at[r][1] in post) for r in rows}
    return Fr(rows, cols), at


U1 = {"d": (1, 2004), "a": (0, NAN), "c": (1, 2005), "b": (0, INF), "e": (0, NAN)}
T1 = (2001, 2002, 2004, 2005, 2007, 2008)


def show_rows(rows, n=3):
    rows = list(rows)
    return ", ".join(str(x) for x in rows[:n]) + (" and %d more" % (len(rows) - n) if len(rows) > n else "")


class Diag:
    def __init__(self, S, c):
        self.S, self.c = S, c
        p = S.P.lookup_fn(FIT) if hasattr(S.P, "lookup_fn") else None
        cls = next(k for m in S.P.mods.values() for k in m.classes.values() if k.qual == FIT.rsplit(".", 1)[0])
        self.params = S.P.method(cls, "fit").params
        self.cache = {}

    def term(self, name, fixed):
        k = (name, tuple(sorted((q, x.id) for q, x in fixed.items())))
        if k not in self.cache:
            e = self.S.find(name)
            I = Interp(self.S.P, False)
            I.opaque = (FIT,)
            self.cache[k] = analyze(self.S.P, e[1], e[2], fixed=fixed, I=I, rust=False)
        return self.cache[k]

    def bad(self, kind, what, msg):
        self.c.find("%s|%s" % (kind, what.split(",")[0]), "%s: %s" % (what, msg))

    def obj(self, what, name, env, fixed=None):
        """(evaluator, field terms) of the result record in one world."""
        r = self.term(name, fixed or {})
        R = Rows(env)
        try:
            t = r.retterm
            while t.op == "ite":
                t = t.a[1] if R.truth(t.a[0]) else t.a[2]
            v = R.ev(t)
        except Open as e:
            self.c.undecide("%s: %s" % (what, e))
            return None, None
        if not isinstance(v, Obj):
            self.c.undecide("%s: result not read" % what)
            return None, None
        return R, v.fields

    def fit_of(self, R, what, field, t, attr):
        """The fit whose `attr` the field reports."""
        try:
            v = R.ev(t)
        except Open as e:
            self.c.undecide("%s, %s: %s" % (what, field, e))
            return None
        return self.fit_named(R, what, field, v, attr)

    def fit_named(self, R, what, field, v, attr):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "conf_int":
            return next(f for f in R.fits if f.term.id == v[1] and f.sig_ == v[2]) if attr == "conf_int" else self.bad("record", what, "%s is a fit's conf_int" % field)
        if not isinstance(v, Sym):
            self.bad("record", what, "%s is %s, not the %s of a fit" % (field, v, attr))
            return None
        if len(v.d) != 1:
            self.bad("record", what, "%s is a combination of several estimates" % field)
            return None
        (k, co), = v.d.items()
        if type(k) is not tuple or len(k) != 3 or co != 1 or k[1] != attr:
            self.bad("record", what, "%s is %s%s of a fit; documented: its %s" % (field, "" if co == 1 else "%s times the " % co, k[1] if type(k) is tuple else k, attr))
            return None
        return next(f for f in R.fits if f.term.id == k[0] and f.sig_ == k[2])

    def sample(self, R, what, f, rows, treat, post, alpha=None):
        """The fit must use `rows` ({row: outcome}) with columns treat(row), post(row)."""
        a = dict(zip(self.params, f.args))
        d = a.get("data")
        if not isinstance(d, Fr):
            self.c.undecide("%s: data of the fit" % what)
            return False
        names = [a.get(k) for k in ("outcome", "treatment", "time")]
        if any(not isinstance(n, str) for n in names):
            self.c.undecide("%s: column names of the fit" % what)
            return False
        for n in names:
            if n not in d.cols:
                self.bad("sample", what, "the refit uses column %r, which its data do not have" % n)
                return False
        for k in ("formula", "covariates", "fixed_effects", "absorb"):
            if a.get(k) is not None:
                self.bad("sample", what, "the refit is given %s" % k)
                return False
        want = {y: (treat(r), post(r)) for r, y in rows.items()}
        got = {}
        for r in d.rows:
            y = d.cols[names[0]][r]
            if not isinstance(y, Sym) or len(y.d) != 1 or y in got:
                self.bad("sample", what, "the refit's outcome column is not the data's outcome, each row once")
                return False
            got[y] = (d.cols[names[1]][r], d.cols[names[2]][r])
        tag = lambda y: next(iter(y.d))[1:]
        if any(next(iter(y.d))[0] != "y" for y in got):
            self.bad("sample", what, "the refit's outcome column is not the data's outcome")
            return False
        extra, miss = [tag(y) for y in got if y not in want], [tag(y) for y in want if y not in got]
        if extra or miss:
            self.bad("sample", what, "the refit %s (unit, period) %s" % ("also uses" if extra else "leaves out", show_rows(sorted(extra or miss, key=repr))))
            return False
        for y in want:
            for i, n in ((0, "treatment"), (1, "post")):
                w, g = want[y][i], got[y][i]
                if isinstance(w, type(lambda: 0)):
                    m = w(g)
                    if m:
                        self.bad("sample", what, "the %s indicator of (unit, period) %s %s" % (n, tag(y), m))
                        return False
                elif isinstance(g, (Drawn, Sym)) or g != w:
                    self.bad("sample", what, "the %s indicator of (unit, period) %s is %s; documented: %s" % (n, tag(y), g if not isinstance(g, (Drawn, Sym)) else "random", int(w)))
                    return False
        self.c.ob("samples", what)
        for k, v in {**KW, **({"alpha": alpha} if alpha is not None else {})}.items():
            g = f.self_.get(k) if f.self_ is not None else Open
            if g is Open or isinstance(g, Sym):
                self.c.undecide("%s: option %s" % (what, k))
            elif g != v:
                self.bad("options", what, "the refit has %s=%s where the caller asked for %s" % (k, g, v))
            else:
                self.c.ob("options", (what, k))
        return True

    def record(self, R, F, what, pairs):
        """Fields that must come from one fit; the fit."""
        got = None
        for field, at in pairs:
            f = self.fit_of(R, what, field, F[field], at)
            if f is None:
                return None
            if got is not None and f is not got and f.term is not got.term:
                self.bad("record", what, "%s and %s come from different fits" % (pairs[0][0], field))
                return None
            got = f
        return got

    def env(self, D, **k):
        return {"data": D, "outcome": "Y", "unit": "U", "alpha": Fraction(1, 10), "seed": 5, "n_permutations": 3, "n_bootstrap": 3, "**estimator_kwargs": dict(KW), **k}

    # ---- the four tests
    def timing(self, name="placebo_timing_test", fixed=None, extra=None, data=None):
        D, at = panel(U1, T1)
        for pp in ([2005, 2007, 2008], [2004, 2007], None, [2008, 2007, 2005, 2004]):
            for fake in (2002, 2001, 2004, 2003):
                post = set(pp) if pp is not None else set(T1[3:])
                if fake in post:
                    continue
                what = "%s, fake period %s, post periods %s" % (name, fake, pp)
                R, F = self.obj(what, name, self.env(D, treatment="G", time="T", fake_treatment_period=fake, post_periods=pp, **(extra or {})), fixed)
                if R is None:
                    continue
                self.timing_record(R, F, what, D, at, post, fake)

    def timing_record(self, R, F, what, D, at, post, fake):
        f = self.record(R, F, what, [("placebo_effect", "att"), ("se", "se"), ("t_stat", "t_stat"), ("p_value", "p_value"), ("conf_int", "conf_int")])
        G = D.cols["G"]
        if f is not None:
            self.sample(R, what + ", placebo", f, {r: D.cols["Y"][r] for r in D.rows if at[r][1] not in post}, lambda r: G[r], lambda r: int(at[r][1] >= fake), Fraction(1, 10))
        f = self.record(R, F, what, [("original_effect", "att"), ("original_se", "se")])
        if f is not None:
            self.sample(R, what + ", original", f, {r: D.cols["Y"][r] for r in D.rows}, lambda r: G[r], lambda r: int(at[r][1] in post))

    def group(self, name="placebo_group_test", fixed=None, extra=None, treatment=None):
        D, at = panel(U1, T1)
        for pp in ([2005, 2007, 2008], [2002, 2007], None):
            for fake in (["a"], ["e", "b"]):
                post = set(pp) if pp is not None else set(T1[3:])
                what = "%s, fake units %s, post periods %s" % (name, fake, pp)
                R, F = self.obj(what, name, self.env(D, treatment=treatment, time="T", fake_treated_units=fake, fake_treatment_group=fake, post_periods=pp, **(extra or {})), fixed)
                if R is None:
                    continue
                f = self.record(R, F, what, [("placebo_effect", "att"), ("se", "se"), ("t_stat", "t_stat"), ("p_value", "p_value"), ("conf_int", "conf_int")])
                if f is not None:
                    keep = [r for r in D.rows if treatment is None or not D.cols[treatment][r]]
                    self.sample(R, what, f, {r: D.cols["Y"][r] for r in keep}, lambda r: int(at[r][0] in fake), lambda r: int(at[r][1] in post), Fraction(1, 10))

    def original(self, R, F, what, D):
        f = self.record(R, F, what, [("original_effect", "att"), ("original_se", "se")])
        if f is not None:
            self.sample(R, what + ", original", f, {r: D.cols["Y"][r] for r in D.rows}, lambda r: D.cols["G"][r], lambda r: D.cols["P"][r])

    def permutation(self, name="permutation_test", fixed=None, extra=None):
        for units in (U1, {"d": (1, 2004), "a": (0, NAN), "b": (0, NAN), "c": (1, 2005), "e": (1, 2004), "f": (1, 2004), "g": (0, NAN)}):
            D, at = panel(units, T1[:4], post={2004, 2005})
            what = "%s, %d units" % (name, len(units))
            R, F = self.obj(what, name, self.env(D, treatment="G", time="P", **(extra or {})), fixed)
            if R is None:
                continue
            self.permutation_record(R, F, what, D, at, units)

    def permutation_record(self, R, F, what, D, at, units):
        self.original(R, F, what, D)
        try:
            dist = R.ev(F["permutation_distribution"])
            if not isinstance(dist, list):
                raise Open("replicates")
        except Open as e:
            return self.c.undecide("%s: %s" % (what, e))
        if len(dist) != 3:
            return self.bad("record", what, "%d replicates for 3 permutations" % len(dist))
        nt = sum(g for g, _ in units.values())
        seen = {}
        for v in dist:
            f = self.fit_named(R, what, "a replicate", v, "att")
            if f is None:
                return

            def drawn(u):
                def j(g):
                    if not isinstance(g, Drawn):
                        return "is %s in every replicate; documented: reassigned at random" % (g,)
                    if g.neg or g.v != u:
                        return "is not whether the unit is among the drawn ones"
                    seen[id(g.draw)] = g.draw
                return j
            if not self.sample(R, what + ", replicate", f, {r: D.cols["Y"][r] for r in D.rows}, lambda r: drawn(at[r][0]), lambda r: D.cols["P"][r]):
                return
        if len(seen) != 3:
            self.bad("draw", what, "the replicates share draws")
        for d in seen.values():
            if sorted(d.pool, key=str) != sorted(units):
                self.bad("draw", what, "treated units are drawn from %s; documented: from all units, each once" % show_rows(sorted(map(str, d.pool)), 6))
            elif d.size != nt:
                self.bad("draw", what, "%s units are drawn as treated where the data have %d" % (d.size, nt))
            elif d.replace:
                self.bad("draw", what, "treated units are drawn with replacement")
            else:
                self.c.ob("draws", what)
        try:
            v = R.ev(F["placebo_effect"])
            if v != mean(dist):
                self.bad("record", what, "placebo_effect is not the mean of the replicates")
            else:
                self.c.ob("records", what)
        except Open as e:
            self.c.undecide("%s, placebo_effect: %s" % (what, e))

    def loo(self, name="leave_one_out_test", fixed=None, extra=None):
        for units in (U1, {"d": (1, 2004), "a": (0, NAN), "c": (1, 2005), "e": (1, 2004), "f": (0, NAN)}, {"c": (1, 2004), "a": (0, NAN), "b": (1, 2005), "f": (0, NAN)}):
            D, at = panel(units, T1[:4], post={2004, 2005})
            what = "%s, %d treated units" % (name, sum(g for g, _ in units.values()))
            if "b" in units and units["b"][0]:
                what += " with treatment switching on"
                D = Fr(D.rows, {**D.cols, "G": {r: int(units[at[r][0]][0] and at[r][1] >= 2004) for r in D.rows}})
            R, F = self.obj(what, name, self.env(D, treatment="G", time="P", **(extra or {})), fixed)
            if R is None:
                continue
            self.loo_record(R, F, what, D, at, units)

    def loo_record(self, R, F, what, D, at, units):
        self.original(R, F, what, D)
        try:
            d = R.ev(F["leave_one_out_effects"])
            if not isinstance(d, dict):
                raise Open("effects")
        except Open as e:
            return self.c.undecide("%s: %s" % (what, e))
        treated = [u for u in units if units[u][0]]
        if sorted(map(str, d)) != sorted(treated):
            return self.bad("record", what, "units left out in turn are %s; documented: the treated ones, %s" % (show_rows(d, 6), show_rows(treated, 6)))
        for u, v in d.items():
            f = self.fit_named(R, what, "the effect without a unit", v, "att")
            if f is not None:
                self.sample(R, what + ", without %s" % u, f, {r: D.cols["Y"][r] for r in D.rows if at[r][0] != u}, lambda r: D.cols["G"][r], lambda r: D.cols["P"][r])
        try:
            v = R.ev(F["placebo_effect"])
            if v != mean(list(d.values())):
                self.bad("record", what, "placebo_effect is not the mean of the leave-one-out effects")
            else:
                self.c.ob("records", what)
        except Open as e:
            self.c.undecide("%s, placebo_effect: %s" % (what, e))

    def dispatch(self):
        k = "run_placebo_test"
        fx = lambda s: {"test_type": const(s)}
        self.timing(k, fx("fake_timing"))
        self.group(k, fx("fake_group"), treatment="G")
        self.permutation(k, fx("permutation"))
        self.loo(k, fx("leave_one_out"))

    def refusals(self):
        D, at = panel(U1, T1)
        for name, fixed, env, want, why in (
                ("placebo_timing_test", {}, dict(fake_treatment_period=2005, post_periods=[2005, 2007, 2008]), True, "a fake period among the post periods"),
                ("placebo_timing_test", {}, dict(fake_treatment_period=2005, post_periods=None), True, "a fake period in the second half"),
                ("placebo_timing_test", {}, dict(fake_treatment_period=2004, post_periods=None), False, "a fake period in the first half"),
                ("placebo_group_test", {}, dict(fake_treated_units=[]), True, "no fake unit"),
                ("placebo_group_test", {}, dict(fake_treated_units=None), True, "no fake unit"),
                ("placebo_group_test", {}, dict(fake_treated_units=["a"]), False, "one fake unit"),
                ("run_placebo_test", {"test_type": const("fake_group")}, dict(fake_treatment_group=[]), True, "no fake unit"),
                ("run_placebo_test", {"test_type": const("fake_group")}, dict(fake_treatment_group=["a"], unit=None), True, "no unit column"),
                ("run_placebo_test", {"test_type": const("permutation")}, dict(unit=None), True, "no unit column"),
                ("run_placebo_test", {"test_type": const("leave_one_out")}, dict(unit=None), True, "no unit column")):
            w = "%s, %s" % (name, why)
            e = self.env(D, **{**dict(treatment="G", time="T", post_periods=[2005, 2007, 2008], fake_treatment_period=2002, fake_treated_units=["a"], fake_treatment_group=["a"]), **env})
            if name == "placebo_group_test":
                e["treatment"] = None
            r = self.term(name, fixed)
            R = Rows(e)
            try:
                got = False
                for ev in r.events:
                    if ev.kind != "raise" or any(p.op in ("exc", "excpart", "iter") for p, b, x in ev.pc):
                        continue
                    try:
                        if all([R.truth(p) == b for p, b, x in ev.pc]):
                            got = True
                            break
                    except Open:
                        if not want:
                            raise
            except Open as e_:
                self.c.undecide("%s: %s" % (w, e_))
                continue
            if got != want:
                self.bad("validity", w, "the request is %s" % ("refused" if got else "accepted"))
            else:
                self.c.ob("requests", w)

    def everything(self):
        name = "run_all_placebo_tests"
        post = [2007, 2008]
        D, at = panel(U1, T1, post=set(post))
        r = self.term(name, {})
        for tcol in ("T",):
            R = Rows(self.env(D, treatment="G", time=tcol, pre_periods=[2001, 2002, 2004], post_periods=post))
            R.eager = "PlaceboTestResults"
            try:
                d = R.ev(r.retterm)
                if not isinstance(d, dict):
                    raise Open("results")
            except Open as e:
                self.c.undecide("%s: %s" % (name, e))
                continue
            want = {"fake_timing_2002", "fake_timing_2004", "permutation", "leave_one_out"}
            if set(d) != want:
                self.bad("record", name, "tests reported are %s; documented: %s" % (show_rows(sorted(map(str, d)), 6), show_rows(sorted(want), 6)))
                continue
            self.c.ob("records", name)
            for k in ("fake_timing_2002", "fake_timing_2004"):
                o = d[k]
                if isinstance(o, Obj):
                    self.timing_record(Done(R, o), o.fields, "%s, %s" % (name, k), D, at, set(post), int(k[-4:]))


class Done:
    """Fields already evaluated."""

    def __init__(self, R, o):
        self.R, self.fits = R, R.fits

    def sig(self, f):
        return self.R.sig(f)

    def ev(self, v):
        if v is Open:
            raise Open("field")
        return v


# ---- preparation
def same(a, b):
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    return a == b and isinstance(a, (Sym, Drawn)) == isinstance(b, (Sym, Drawn))


class Prep:
    def __init__(self, S, c):
        self.S, self.c, self.cache, self.interps = S, c, {}, {}

    def run(self, name, what, env, truths=None):
        r = self.term(name)
        if r is None:
            self.c.undecide(name + ": not found")
            return None
        try:
            R = Rows(env, truths=truths)
            return R.ev(r.retterm)
        except Open as e:
            self.c.undecide("%s: %s" % (what, e))
            return None

    def bad(self, kind, what, msg):
        self.c.find("%s|%s" % (kind, what.split(",")[0]), "%s: %s" % (what, msg))

    def column(self, what, v, D, name, want):
        """v must be D with one more column."""
        if not isinstance(v, Fr):
            return self.c.undecide("%s: result" % what)
        if v.rows != D.rows:
            return self.bad("rows", what, "the table returned does not have the rows of the one given")
        for k in D.cols:
            if k != name and (k not in v.cols or any(not same(v.cols[k][r], D.cols[k][r]) for r in D.rows)):
                return self.bad("columns", what, "column %s is changed" % k)
        if set(v.cols) - set(D.cols) - {name}:
            return self.bad("columns", what, "columns %s are added" % sorted(set(v.cols) - set(D.cols) - {name}))
        if name not in v.cols:
            return self.bad("columns", what, "column %s is not added" % name)
        for r in D.rows:
            if not same(v.cols[name][r], want(r)):
                return self.bad("columns", what, "the new column is %s for a row with %s; documented: %s" % (
                    v.cols[name][r], ", ".join("%s=%s" % (k, D.cols[k][r]) for k in ("U", "T", "C", "S") if k in D.cols), want(r)))
        self.c.ob("columns", what)

    def indicators(self):
        D, at = panel(U1, T1)
        sc = {"a": 3, "b": 5, "c": 5, "d": 7, "e": NAN}
        D = Fr(D.rows, {**D.cols, "S": {r: sc[at[r][0]] for r in D.rows}})
        n = "make_treatment_indicator"
        for vals, s in ((["c", "a"], {"c", "a"}), (("b",), {"b"}), (frozenset({"d"}), {"d"}), ("e", {"e"})):
            for new in ("treated", "flag"):
                what = "%s, treated values %s" % (n, vals if not isinstance(vals, frozenset) else "a set")
                self.column(what, self.run(n, what, {"data": D, "column": "U", "treated_values": vals, "threshold": None, "above_threshold": True, "new_column": new}), D, new,
                            lambda r: int(at[r][0] in s))
        for above in (True, False):
            what = "%s, threshold %s" % (n, "from below" if above else "from above")
            self.column(what, self.run(n, what, {"data": D, "column": "S", "treated_values": None, "threshold": 5, "above_threshold": above, "new_column": "treated"}), D, "treated",
                        lambda r: int(not isnan(sc[at[r][0]]) and (sc[at[r][0]] >= 5 if above else sc[at[r][0]] <= 5)))
        n = "make_post_indicator"
        for vals, s in (([2004, 2008], {2004, 2008}), ((2001,), {2001}), (frozenset({2005, 2007}), {2005, 2007}), (2007, {2007})):
            what = "%s, post periods %s" % (n, vals if not isinstance(vals, frozenset) else "a set")
            self.column(what, self.run(n, what, {"data": D, "time_column": "T", "post_periods": vals, "treatment_start": None, "new_column": "post"}), D, "post", lambda r: int(at[r][1] in s))
        for start in (2004, 2003, 2001, 2010):
            for dt in (False, True):
                what = "%s, treatment start %s%s" % (n, start, ", dates" if dt else "")
                self.column(what, self.run(n, what, {"data": D, "time_column": "T", "post_periods": None, "treatment_start": start, "new_column": "after"}, {"datetime": dt}), D, "after",
                            lambda r: int(at[r][1] >= start))
        n = "create_event_time"
        for new in ("event_time", "rel"):
            what = n + ", " + new
            self.column(what, self.run(n, what, {"data": D, "time_column": "T", "treatment_time_column": "C", "new_column": new}), D, new,
                        lambda r: NAN if isnan(U1[at[r][0]][1]) or U1[at[r][0]][1] == INF else at[r][1] - U1[at[r][0]][1])

    def cells(self, what, v, want, keys=("U", "T")):
        """v: rows by (unit, period) with the wanted values."""
        if not isinstance(v, Fr):
            return self.c.undecide("%s: result" % what)
        got = {}
        for k in keys:
            if k not in v.cols:
                return self.bad("columns", what, "column %s is missing" % k)
        for r in v.rows:
            q = tuple(v.cols[k][r] for k in keys)
            if q in got:
                return self.bad("rows", what, "%s appears twice" % (q,))
            got[q] = {k: x[r] for k, x in v.cols.items()}
        if set(got) != set(want):
            extra, miss = sorted(set(got) - set(want), key=repr), sorted(set(want) - set(got), key=repr)
            return self.bad("rows", what, "%s %s" % ("also holds" if extra else "lacks", show_rows(extra or miss)))
        for q in want:
            for k, x in want[q].items():
                if k not in got[q]:
                    return self.bad("columns", what, "column %s is missing" % k)
                if not same(got[q][k], x):
                    return self.bad("values", what, "%s of %s is %s; documented: %s" % (k, q, name_of(got[q][k]), name_of(x)))
        self.c.ob("rows", what)

    def balance(self):
        n = "balance_panel"
        units = {"d": (1, 1), "a": (0, 2), "c": (1, 3), "b": (0, 4)}
        drops = {("a", 2002), ("a", 2005), ("c", 2001), ("b", 2005)}
        D, at = panel(units, T1[:4], drop=drops)
        D = Fr(D.rows, {k: D.cols[k] for k in ("U", "T", "Y", "G")})
        have = {at[r]: {k: D.cols[k][r] for k in D.cols} for r in D.rows}
        full = [(u, t) for u in units for t in T1[:4]]
        env = lambda m, f=None: {"data": D, "unit_column": "U", "time_column": "T", "method": m, "fill_value": f}
        w = n + ", inner"
        self.cells(w, self.run(n, w, env("inner")), {q: x for q, x in have.items() if q[0] == "d"})
        D0, at0 = panel({"a": (0, 1), "b": (0, 2), "c": (1, 3)}, T1[:3], drop={("a", 2001), ("b", 2004), ("b", 2002), ("c", 2002)})
        D0 = Fr(D0.rows, {k: D0.cols[k] for k in ("U", "T", "Y", "G")})
        self.cells(w + ", nobody complete", self.run(n, w, {**env("inner"), "data": D0}), {})
        w = n + ", outer"
        blank = lambda q, x: {"U": q[0], "T": q[1], "Y": x, "G": x}
        self.cells(w, self.run(n, w, env("outer")), {q: have.get(q) or blank(q, NAN) for q in full})
        h0 = {at0[r]: {k: D0.cols[k][r] for k in D0.cols} for r in D0.rows}
        self.cells(w + ", a unit seen once", self.run(n, w, {**env("outer"), "data": D0}), {(u, t): h0.get((u, t)) or blank((u, t), NAN) for u in "abc" for t in T1[:3]})
        for f in (0, 7):
            w = n + ", fill with %d" % f
            self.cells(w, self.run(n, w, env("fill", f)), {q: have.get(q) or blank(q, f) for q in full})
        hollow = Fr(D.rows, {**D.cols, "Y": {r: NAN if at[r][0] == "c" or at[r] == ("b", 2002) else D.cols["Y"][r] for r in D.rows}})
        for E, w in ((D, n + ", fill from neighbours"), (hollow, n + ", fill from neighbours, Y missing in every row of a unit")):
            have = {at[r]: {k: E.cols[k][r] for k in E.cols} for r in E.rows}
            want = {}
            for u in units:
                for t in T1[:4]:
                    near = [have[u, s] for s in [x for x in T1[:4][::-1] if x <= t] + [x for x in T1[:4] if x > t] if (u, s) in have]
                    want[u, t] = {"U": u, "T": t, **{k: next((h[k] for h in near if not isnan(h[k])), NAN) for k in ("Y", "G")}}
            self.cells(w, self.run(n, w, {**env("fill"), "data": E}), want)

    def long(self):
        n = "wide_to_long"
        rows = [4, 2, 9]
        ids = {4: "q", 2: "p", 9: "r"}
        cols = {"Z": {r: Sym({("z", ids[r]): Fraction(1)}) for r in rows}, "id": dict(ids)}
        vc = ["v3", "v1", "v2"]
        for v in sorted(vc):
            cols[v] = {r: Y(ids[r], v) for r in rows}
        D = Fr(rows, cols)
        for tv in (None, [2001, 2004, 2002]):
            w = "%s, periods %s" % (n, "by position" if tv is None else "given")
            times = dict(zip(vc, tv if tv is not None else range(3)))
            v = self.run(n, w, {"data": D, "value_columns": vc, "id_column": "id", "time_name": "when", "value_name": "val", "time_values": tv})
            if v is not None:
                self.cells(w, v, {(ids[r], times[k]): {"val": cols[k][r], "Z": cols["Z"][r]} for r in rows for k in vc}, ("id", "when"))

    def cohorts(self):
        n = "aggregate_to_cohorts"
        units = {"d": (1, 1), "a": (0, 2), "c": (1, 3), "b": (0, 4), "e": (0, 4)}
        D0, at0 = panel(units, T1[:3], drop={("b", 2002)})
        twice = Fr([*D0.rows, 300, 301], {k: {**c, 300: c[D0.rows[0]], 301: c[D0.rows[2]]} for k, c in D0.cols.items()})
        twice.cols["Y"].update({300: Y("again", 1), 301: Y("again", 2)})
        for cov, D in ((None, D0), (["X"], D0), (None, twice)):
            at = {r: (D.cols["U"][r], D.cols["T"][r]) for r in D.rows}
            w = "%s, %s" % (n, "covariates" if cov else "no covariates") + (", units seen twice in a period" if D is twice else "")
            v = self.run(n, w, {"data": D, "unit_column": "U", "time_column": "T", "treatment_column": "G", "outcome": "Y", "covariates": cov})
            want = {}
            for g in (0, 1):
                for t in T1[:3]:
                    rs = [r for r in D.rows if at[r][1] == t and D.cols["G"][r] == g]
                    want[g, t] = {"mean_Y": mean([D.cols["Y"][r] for r in rs]), "n_units": len({at[r][0] for r in rs})}
                    if cov:
                        want[g, t]["X"] = mean([D.cols["X"][r] for r in rs])
            if v is not None:
                self.cells(w, v, want, ("G", "T"))


    def summary(self):
        n = "summarize_did_data"
        r = self.term(n)
        if r is None:
            return self.c.undecide(n + ": not found")
        worlds = (({"d": (1, 1), "a": (0, 2), "c": (1, 3), "b": (0, 4), "e": (0, 4)}, (2004, 2001)), ({"a": (0, 1), "b": (0, 1), "c": (1, 1)}, (0, 1)),
                  ({"d": (1, 1), "a": (0, 2), "c": (1, 3)}, (2004, 2001, 2002)))
        for units, times in worlds:
            D, at = panel(units, times, drop={("b", times[0])})
            hole = next(q for q in D.rows if at[q] == ("a", times[1]))
            D = Fr(D.rows, {**D.cols, "Y": {q: NAN if q == hole and len(units) > 3 else y for q, y in D.cols["Y"].items()}})
            w = "%s, periods %s" % (n, times)
            R = Rows({"data": D, "outcome": "Y", "treatment": "G", "time": "T", "unit": None})
            R.interp = self.interps.get(n)
            try:
                v = R.ev(r.retterm)
                if not isinstance(v, Fr):
                    raise Open("result")
                got = {}
                for q in v.rows:
                    k = q[1] if isinstance(q, Lab) else q
                    if k in got:
                        self.bad("rows", w, "two rows are called %s" % (k,))
                    got[k] = {c: x[q] for c, x in v.cols.items()}
            except Open as e:
                self.c.undecide("%s: %s" % (w, e))
                continue
            ys = lambda g, t: [D.cols["Y"][q] for q in D.rows if at[q][1] == t and D.cols["G"][q] == g]
            m = lambda g, t: mean(ys(g, t))
            lo, hi = min(times), max(times)
            want = {}
            for g in (0, 1):
                for t in times:
                    k = "%s - %s" % (("Control", "Treated")[g], ("Post" if t == hi else "Pre") if len(times) == 2 else "Period %s" % t)
                    want[k] = {c: stat(f, ys(g, t)) for c, f in (("n", "count"), ("mean", "mean"), ("std", "std"), ("min", "min"), ("max", "max"))}
            if len(times) == 2:
                want["DiD Estimate"] = {"mean": arith("-", arith("-", m(1, hi), m(1, lo)), arith("-", m(0, hi), m(0, lo)))}
            if set(got) != set(want):
                self.bad("rows", w, "the rows are called %s; documented: %s" % (show_rows(sorted(map(str, got)), 9), show_rows(sorted(want), 9)))
                continue
            for k, cs in want.items():
                for c, x in cs.items():
                    if c not in got[k] or not same(got[k][c], x):
                        self.bad("values", w, "%s of %s is %s; documented: %s" % (c, k, name_of(got[k].get(c)), name_of(x)))
                        break
                else:
                    self.c.ob("columns", "%s, %s" % (w, k))

    def term(self, name):
        if name not in self.cache:
            fn = next((m.funcs[name] for m in self.S.P.mods.values() if name in m.funcs and m.name.startswith("diff_diff.prep")), None)
            self.interps[name] = Interp(self.S.P, False)
            self.cache[name] = analyze(self.S.P, fn, None, I=self.interps[name], rust=False) if fn is not None else None
        return self.cache[name]

    def raises(self, r, R):
        """Whether a call in this world raises an error of its own."""
        for e in r.events:
            if e.kind != "raise" or any(p.op in ("exc", "excpart", "iter") for p, b, x in e.pc):
                continue
            if all([R.truth(p) == b for p, b, x in e.pc]):
                return True
        return False

    def validate(self):
        n = "validate_did_data"
        r = self.term(n)
        if r is None:
            return self.c.undecide(n + ": not found")
        u2 = {"d": (1, 1), "a": (0, 2), "c": (1, 3), "b": (0, 4)}
        good2, at2 = panel(u2, (0, 1))
        good4, at4 = panel(u2, T1[:4])
        put = lambda D, k, f: Fr(D.rows, {**D.cols, k: {q: f(q) for q in D.rows}})
        first = good4.rows[0]
        ws = [("two periods", good2, True), ("two periods labelled by year", panel(u2, (2001, 2004))[0], True), ("several periods", good4, True), ("an unbalanced panel", panel(u2, T1[:4], drop={("a", 2002)})[0], True),
              ("treatment that starts later", put(good4, "G", lambda q: int(u2[at4[q][0]][0] and at4[q][1] > 2002)), True)]
        for k in ("Y", "G", "T", "U"):
            D = good4
            ws.append(("no column %s" % k, Fr(D.rows, {c: x for c, x in D.cols.items() if c != k}), False))
            for D in (good2, good4):
                for hole in (D.rows[0], D.rows[-1]):
                    ws.append(("a missing value in %s" % k, put(D, k, lambda q: NAN if q == hole else D.cols[k][q]), False))
        for D, at in ((good2, at2), (good4, at4)):
            ws.append(("an outcome of text", put(D, "Y", lambda q: "v%d" % q), False))
            ws.append(("treatment with three values", put(D, "G", lambda q: 2 if q == D.rows[0] else D.cols["G"][q]), False))
            ws.append(("treatment coded 1 and 2", put(D, "G", lambda q: D.cols["G"][q] + 1), False))
            ws.append(("nobody treated", put(D, "G", lambda q: 0), False))
            ws.append(("everybody treated", put(D, "G", lambda q: 1), False))
            for g in (0, 1):
                keep = [q for q in D.rows if not (D.cols["G"][q] == g and at[q][1] > min(t for _, t in at.values()))]
                ws.append(("group %d seen in its first period only" % g, D.pick(keep), False))
        for k, D, ok in ws:
            for unit in ("U", None):
                if unit is None and k.endswith(" U"):
                    continue
                for loud in (False, True):
                    w = "%s, %s%s%s" % (n, k, "" if unit else ", no unit", ", raising" if loud else "")
                    R = Rows({"data": D, "outcome": "Y", "treatment": "G", "time": "T", "unit": unit, "raise_on_error": loud})
                    try:
                        if loud:
                            if self.raises(r, R) == ok:
                                self.bad("validity", w, "the data %s" % ("are refused" if ok else "are accepted"))
                            else:
                                self.c.ob("columns", w)
                            continue
                        v = R.ev(r.retterm)
                        if bool(v["valid"]) != ok or bool(v["errors"]) == ok:
                            self.bad("validity", w, "the data are reported %s" % ("invalid" if ok else "valid"))
                            continue
                        if ok:
                            g = D.cols["G"].values()
                            want = {"n_obs": len(D.rows), "n_treated": sum(g), "n_control": len(D.rows) - sum(g), "n_periods": len(set(D.cols["T"].values()))}
                            if unit:
                                want["n_units"] = len(set(D.cols["U"].values()))
                            why = [x for x in (unit and "unbalanced" in k and "nbalanced", unit and "starts later" in k and "varies", "by year" in k and "not 0 and 1") if x]
                            if len(v["warnings"]) != len(why) or any(not any(y in str(m) for m in v["warnings"]) for y in why):
                                self.bad("validity", w, "warnings are %s" % (show_rows(v["warnings"], 3) or "not given"))
                                continue
                            if v["summary"] != want:
                                self.bad("validity", w, "the summary is %s; documented: %s" % (v["summary"], want))
                                continue
                        self.c.ob("columns", w)
                    except (Open, KeyError) as e:
                        self.c.undecide("%s: %s" % (w, e))

    def refusals(self):
        """Contradictory requests are refused."""
        D, at = panel(U1, T1)
        mk_ = lambda n, **k: (n, k)
        for n, k, want in (("make_treatment_indicator", dict(column="U", treated_values=None, threshold=None), True), ("make_treatment_indicator", dict(column="U", treated_values=["a"], threshold=3), True),
                           ("make_treatment_indicator", dict(column="none", treated_values=["a"], threshold=None), True), ("make_treatment_indicator", dict(column="U", treated_values=["a"], threshold=None), False),
                           ("make_treatment_indicator", dict(column="T", treated_values=None, threshold=0), False),
                           ("make_post_indicator", dict(time_column="T", post_periods=None, treatment_start=None), True), ("make_post_indicator", dict(time_column="T", post_periods=[2004], treatment_start=2004), True),
                           ("make_post_indicator", dict(time_column="none", post_periods=[2004], treatment_start=None), True), ("make_post_indicator", dict(time_column="T", post_periods=[2004], treatment_start=None), False),
                           ("make_post_indicator", dict(time_column="T", post_periods=None, treatment_start=0), False),
                           ("balance_panel", dict(unit_column="U", time_column="T", method="inner", fill_value=None), False), ("balance_panel", dict(unit_column="U", time_column="T", method="Inner", fill_value=None), True),
                           ("create_event_time", dict(time_column="T", treatment_time_column="none"), True), ("create_event_time", dict(time_column="none", treatment_time_column="C"), True),
                           ("create_event_time", dict(time_column="T", treatment_time_column="C"), False)):
            r = self.term(n)
            w = "%s, %s" % (n, ", ".join("%s=%s" % q for q in k.items()))
            if r is None:
                continue
            try:
                got = self.raises(r, Rows({"data": D, "new_column": "new", "above_threshold": True, **k}))
            except Open as e:
                self.c.undecide("%s: %s" % (w, e))
                continue
            if got != want:
                self.bad("validity", w, "the request is %s" % ("refused" if got else "accepted"))
            else:
                self.c.ob("requests", w)


def name_of(v):
    if isinstance(v, Sym):
        return " + ".join(("%s*" % c if c != 1 else "") + (str(k) if k == "" else ".".join(str(x) for x in k)) for k, c in sorted(v.d.items(), key=repr))
    return str(v)


def run(S, c):
    S = S.python()
    c.rule("Rule: each placebo diagnostic's estimate is that of DifferenceInDifferences.fit on the documented rows with the documented treatment "
           "and post indicators, row by row, and the caller's options (fake timing: periods not in post_periods, post from the fake period on; "
           "fake group: listed units against the never-treated; permutation: as many units as are treated, drawn from all without replacement; "
           "leave-one-out: every treated unit dropped once); preparation helpers keep the rows given and add the documented column, or build the "
           "documented rows. Panels of each order type are followed through the selections and assignments in the source.")
    d = Diag(S, c)
    d.timing()
    d.group()
    d.permutation()
    d.loo()
    d.dispatch()
    d.everything()
    d.refusals()
    p = Prep(S, c)
    p.indicators()
    p.balance()
    p.long()
    p.cohorts()
    p.summary()
    p.validate()
    p.refusals()
    c.floor("samples", 4)
    c.floor("columns", 3)
