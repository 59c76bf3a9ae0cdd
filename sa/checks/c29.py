"""C29: TROP computes the documented weights, model, effects, selection score and replicates."""
from ..terms import *
from ..entry import analyze
from ..interp import Interp
from ..points import *

OWN = "diff_diff.trop.TROP."
SVD_TOL = Fraction(1, 10 ** 10)


# ---- the documented estimator
def distance(Y, D, j, i, skip, f):
    ok = [s for s in range(len(Y)) if s != skip and D[s, i] == 0 and D[s, j] == 0 and not isnan(Y[s, i]) and not isnan(Y[s, j])]
    if not ok:
        return INF
    return f.sqrt(sum((Y[s, i] - Y[s, j]) ** 2 for s in ok) / Fraction(len(ok)))


def weights(Y, D, i, t, lt, lu, f):
    T, N = Y.shape
    u = []
    for j in range(N):
        if j == i:
            u.append(Fraction(1))
        elif D[t, j] != 0:
            u.append(Fraction(0))
        elif lu == 0:
            u.append(Fraction(1))
        else:
            d = distance(Y, D, j, i, t, f)
            u.append(Fraction(0) if d == INF else f.exp(-lu * d))
    return arr([[f.exp(-lt * abs(t - s)) * u[j] for j in range(N)] for s in range(T)])


def shrink(M, lam, f):
    if lam <= 0:
        return M
    U, s, V = f.svd(M)
    out = np.empty(M.shape, dtype=object)
    out[...] = Fraction(0)
    for k in range(len(s)):
        if s[k] - lam > SVD_TOL:
            for a in range(M.shape[0]):
                for b in range(M.shape[1]):
                    out[a, b] += U[a, k] * (s[k] - lam) * V[k, b]
    return out


def model(Y, D, W, lam, iters, inner, f, skip=None):
    """alpha, beta, L after alternating the two weighted means and the penalised low-rank step."""
    T, N = Y.shape
    W = arr([[W[t, i] if D[t, i] == 0 and not isnan(Y[t, i]) and (t, i) != skip else Fraction(0) for i in range(N)] for t in range(T)])
    a, b, L = [Fraction(0)] * N, [Fraction(0)] * T, arr([[Fraction(0)] * N for _ in range(T)])
    top = max(W.ravel())
    for _ in range(iters):
        col = [sum(W[t, i] for t in range(T)) for i in range(N)]
        a = [sum(W[t, i] * (Y[t, i] - L[t, i] - b[t]) for t in range(T) if W[t, i]) / col[i] if col[i] > 0 else Fraction(0) for i in range(N)]
        row = [sum(W[t, i] for i in range(N)) for t in range(T)]
        b = [sum(W[t, i] * (Y[t, i] - L[t, i] - a[i]) for i in range(N) if W[t, i]) / row[t] if row[t] > 0 else Fraction(0) for t in range(T)]
        R = arr([[Y[t, i] - a[i] - b[t] if W[t, i] else L[t, i] for i in range(N)] for t in range(T)])
        if lam <= 0:
            L = R
            continue
        for _ in range(inner):
            L = shrink(L + W / top * (R - L), lam, f)
    return a, b, L


def effects(Y, D, lam, iters, inner, f):
    """{(t, i): (tau, alpha, beta, L)} of the treated cells."""
    out = {}
    for t in range(Y.shape[0]):
        for i in range(Y.shape[1]):
            if D[t, i] == 1:
                a, b, L = model(Y, D, weights(Y, D, i, t, lam[0], lam[1], f), lam[2], iters, inner, f)
                out[t, i] = (arith("-", Y[t, i], a[i] + b[t] + L[t, i]), a, b, L)
    return out


def joint_weights(Y, D, lt, lu, P, f):
    T, N = Y.shape
    tr = [i for i in range(N) if any(D[t, i] == 1 for t in range(T))]
    avg_ = [avg(some([Y[t, i] for i in tr])) for t in range(T)]
    u = []
    for i in range(N):
        ds = [(avg_[t] - Y[t, i]) ** 2 for t in range(T - P) if not isnan(avg_[t]) and not isnan(Y[t, i])]
        u.append(f.exp(-lu * f.sqrt(sum(ds) / Fraction(len(ds)))) if ds else Fraction(0))
    centre = T - Fraction(P, 2)
    return arr([[f.exp(-lt * abs(t - centre)) * u[i] for i in range(N)] for t in range(T)])


def joint_fit(Y, D, W):
    """mu, alpha, beta, tau of weighted least squares."""
    T, N = Y.shape
    rows, ys = [], []
    for t in range(T):
        for i in range(N):
            if W[t, i] and not isnan(Y[t, i]):
                w = W[t, i]
                x = [Fraction(1)] + [Fraction(i == j) for j in range(1, N)] + [Fraction(t == s) for s in range(1, T)] + [Fraction(int(D[t, i]))]
                rows.append((w, x, Y[t, i]))
    k = N + T
    keep = [c for c in range(k) if any(x[c] for _, x, _ in rows)]
    A = [[sum(w * x[p] * x[q_] for w, x, _ in rows) for q_ in keep] for p in keep]
    r = [sum(w * x[p] * y for w, x, y in rows) for p in keep]
    sol = gauss(A, r)
    b = [Fraction(0)] * k
    for c, v in zip(keep, sol):
        b[c] = v
    return b[0], [Fraction(0)] + b[1:N], [Fraction(0)] + b[N:N + T - 1], b[-1]


def gauss(A, r):
    A = [list(x) + [y] for x, y in zip(A, r)]
    n = len(A)
    for i in range(n):
        p = next((z for z in range(i, n) if A[z][i] != 0), None)
        if p is None:
            raise Open("collinear world")
        A[i], A[p] = A[p], A[i]
        A[i] = [x / A[i][i] for x in A[i]]
        for z in range(n):
            if z != i and A[z][i]:
                g = A[z][i]
                A[z] = [x - g * y for x, y in zip(A[z], A[i])]
    return [x[-1] for x in A]


def joint(Y, D, W, lam, iters, f):
    T, N = Y.shape
    L = arr([[Fraction(0)] * N for _ in range(T)])
    if lam >= 10 ** 10:
        return joint_fit(Y, D, W) + (L,)
    W = arr([[Fraction(0) if isnan(Y[t, i]) else W[t, i] for i in range(N)] for t in range(T)])
    top = max(W.ravel())
    for _ in range(iters):
        mu, a, b, tau = joint_fit(arr([[arith("-", Y[t, i], L[t, i]) for i in range(N)] for t in range(T)]), D, W)
        R = arr([[(Y[t, i] if not isnan(Y[t, i]) else 0) - mu - a[i] - b[t] - tau * int(D[t, i]) for i in range(N)] for t in range(T)])
        L = shrink(L + W / top * (R - L), lam / top, f)
    return mu, a, b, tau, L


# ---- worlds
def panels(joint=False, seed=5):
    """(name, Y, D, unit names, periods): outcomes are distinct small rationals, nan where a cell is not observed."""
    r = random.Random(seed)
    T, N = 5, 4
    Y0 = lambda: arr([[Fraction(r.randint(1, 60), 2) for _ in range(N)] for _ in range(T)])

    def D(starts):
        return arr([[int(i in starts and t >= starts[i]) for i in range(N)] for t in range(T)])
    ws = []
    if joint:
        ws.append(("two treated units", Y0(), D({1: 3, 2: 3})))
        ws.append(("one treated unit, long post period", Y0(), D({3: 2})))
        y = Y0()
        y[1, 0] = y[0, 2] = NAN
        ws.append(("cells missing before treatment", y, D({1: 3, 2: 3})))
        y = Y0()
        y[0, 3] = y[1, 3] = y[2, 3] = NAN
        ws.append(("a control without earlier rows", y, D({1: 3, 2: 3})))
    else:
        ws.append(("staggered starts", Y0(), D({1: 3, 2: 4})))
        ws.append(("common start", Y0(), D({0: 3, 3: 3})))
        y = Y0()
        y[1, 0] = y[4, 3] = y[2, 2] = NAN
        d = D({1: 3, 2: 2})
        d[2, 2] = 0                              # no row: the treatment indicator there is taken as 0
        ws.append(("cells missing, staggered starts", y, d))
    return ws


UNITS, TIMES = ["a10", "a2", "b", "c"], [2001, 2003, 2004, 2007, 2009]


def frame(Y, D):
    """Rows in an order that is neither by unit nor by period; unobserved cells have no row."""
    cells = [(t, i) for t in range(len(TIMES)) for i in range(len(UNITS)) if not isnan(Y[t, i])]
    cells.sort(key=lambda c: ((c[0] * 3 + c[1] * 5) % 7, c))
    rows = list(range(50, 50 + len(cells)))
    at = dict(zip(rows, cells))
    return Fr(rows, {"U": {r: UNITS[at[r][1]] for r in rows}, "T": {r: TIMES[at[r][0]] for r in rows},
                     "Y": {r: Y[at[r]] for r in rows}, "D": {r: D[at[r]] for r in rows}})


def same(x, y):
    if isinstance(x, ND) or isinstance(y, (ND, list)):
        x, y = arr(x), arr(y)
        return x.shape == y.shape and all(same(p, r) for p, r in zip(x.ravel(), y.ravel()))
    if isnan(x) or isnan(y):
        return isnan(x) and isnan(y)
    return x == y


class Trop:
    def __init__(self, S, c):
        self.S, self.c, self.cache = S, c, {}
        self.cls = next((k for m in S.P.mods.values() for k in m.classes.values() if k.qual == OWN[:-1]), None)

    def term(self, name, opaque=()):
        if (name, opaque) not in self.cache:
            fn = self.S.P.method(self.cls, name) if self.cls else None
            r = None
            if fn is not None:
                I = Interp(self.S.P, False)
                I.opaque = tuple(OWN + x for x in opaque)
                r = (analyze(self.S.P, fn, self.cls, I=I, rust=False), fn)
            self.cache[name, opaque] = r
        return self.cache[name, opaque]

    def at(self, env, given=None, **cfg):
        f = Free()
        e = {"max_iter": 2, "tol": Fraction(1, 10 ** 6), "alpha": Fraction(1, 20), "max_loocv_samples": 1000, "seed": 3, "n_bootstrap": 20, "_precomputed": None,
             OWN + "CONVERGENCE_TOL_SVD": SVD_TOL, "variance_method": "jackknife", "method": "twostep", **cfg, **env}
        R = Points(e, f, given)
        return R, f

    def bad(self, kind, what, msg):
        self.c.find("%s|%s" % (kind, what.split(",")[0]), "%s: %s" % (what, msg))

    def check(self, kind, what, got, want, name):
        """got: a term value or Open."""
        if not same(got, want):
            self.bad(kind, what, "%s is not the documented one" % name)
            return False
        self.c.ob(kind, "%s, %s" % (what, name))
        return True

    # ---- one model
    def estimate(self):
        r = self.term("_estimate_model")
        if r is None:
            return self.c.undecide("_estimate_model: not found")
        rn = random.Random(9)
        for name, Y, D in panels():
            T, N = Y.shape
            W = arr([[Fraction(rn.randint(1, 30), 8) for _ in range(N)] for _ in range(T)])
            W[0, 3] = Fraction(0)
            for lam in (Fraction(0), Fraction(1, 2), Fraction(3)):
                for skip in (None, (1, 3)):
                    w = "model, %s, penalty %s%s" % (name, lam, ", one cell held out" if skip else "")
                    R, f = self.at({"Y": Y, "control_mask": R_mask(D), "weight_matrix": W, "lambda_nn": lam, "n_units": N, "n_periods": T, "exclude_obs": skip})
                    try:
                        v = R.ev(r[0].retterm)
                    except Open as e:
                        self.c.undecide("%s: %s" % (w, e))
                        continue
                    want = model(Y, D, W, lam, 2, 10, f, skip)
                    for k, x, y in zip(("unit effects", "time effects", "low-rank part"), v, want):
                        if not self.check("models", w, x, y, k):
                            break

    # ---- the fit
    LAMS = [(Fraction(1, 3), Fraction(1, 5), Fraction(1, 2)), (Fraction(0), Fraction(1, 5), INF), (INF, Fraction(1, 2), Fraction(1)), (Fraction(1, 2), INF, Fraction(2)), (Fraction(1), Fraction(0), INF)]

    @staticmethod
    def plain(lam):
        return tuple(Fraction(0) if x == INF else x for x in lam[:2]) + ((Fraction(10 ** 10) if lam[2] == INF else lam[2]),)

    def twostep(self):
        parts = ("_univariate_loocv_search", "_cycling_parameter_search", "_loocv_score_obs_specific", "_bootstrap_variance", "_jackknife_variance")
        r = self.term("fit", parts)
        if r is None:
            return self.c.undecide("fit: not found")
        for k, (name, Y, D) in enumerate(panels()):
            for lam in self.LAMS[k::2]:
                w = "fit, %s, penalties %s" % (name, "/".join(map(str, lam)))
                asked = []

                def given(R, t):
                    if t.op != "fcall":
                        return None
                    n = t.a[0].split(".")[-1]
                    if n in ("_bootstrap_variance", "_jackknife_variance"):
                        asked.append((n, t))
                        return ((Fraction(2), arr([Fraction(1), Fraction(2), Fraction(4)])),)
                    return {"_univariate_loocv_search": ((Fraction(7), Fraction(8)),), "_cycling_parameter_search": (lam,), "_loocv_score_obs_specific": (Fraction(9),)}.get(n)
                R, f = self.at({"data": frame(Y, D), "outcome": "Y", "treatment": "D", "unit": "U", "time": "T"}, given)
                o = self.result(R, w, r[0].retterm)
                if o is None:
                    continue
                eff = effects(Y, D, self.plain(lam), 2, 10, f)
                n = Fraction(len(eff))
                m = lambda k: [sum(e[k][j] for e in eff.values()) / n for j in range(len(next(iter(eff.values()))[k]))]
                Lm = sum(e[3] for e in eff.values()) / n
                seen = {(TIMES[t], UNITS[i]) for t in range(len(TIMES)) for i in range(len(UNITS)) if not isnan(Y[t, i])}
                ever = [i for i in range(len(UNITS)) if any(D[t, i] for t in range(len(TIMES)))]
                first = min(t for t, i in eff)
                self.fields(R, o, w, {
                    "att": avg([e[0] for e in eff.values()]),
                    "treatment_effects": {(UNITS[i], TIMES[t]): e[0] for (t, i), e in eff.items()},
                    "unit_effects": dict(zip(UNITS, m(1))), "time_effects": dict(zip(TIMES, m(2))), "factor_matrix": Lm,
                    "lambda_time": lam[0], "lambda_unit": lam[1], "lambda_nn": lam[2], "loocv_score": Fraction(9),
                    "n_obs": len(seen), "n_treated": len(ever), "n_control": len(UNITS) - len(ever), "n_treated_obs": len(eff), "n_pre_periods": first,
                    "n_post_periods": len({t for t, i in eff}), "se": Fraction(2), "bootstrap_distribution": arr([Fraction(1), Fraction(2), Fraction(4)])})
                self.given_to(R, asked, w, self.plain(lam))

    def given_to(self, R, asked, w, lam):
        """The variance method uses the same penalties as the estimate."""
        for n, t in asked:
            vs = []
            for x in t.a[1:]:
                try:
                    vs.append(R.ev(x))
                except Open:
                    continue
            tup = [v for v in vs if isinstance(v, tuple) and len(v) == 3 and all(num(z) for z in v)]
            if len(tup) == 1 and tup[0] != lam:
                self.bad("replicates", w, "standard errors are computed at penalties %s; the estimate uses %s" % (show(tup[0]), show(lam)))

    def result(self, R, w, t):
        try:
            while t.op == "ite":
                t = t.a[1] if R.truth(t.a[0]) else t.a[2]
            o = R.ev(t)
        except Open as e:
            self.c.undecide("%s: %s" % (w, e))
            return None
        if not isinstance(o, Obj):
            self.c.undecide("%s: result" % w)
            return None
        return o

    def fields(self, R, o, w, want):
        for k, x in want.items():
            if k not in o.fields:
                self.c.undecide("%s: no %s" % (w, k))
                continue
            try:
                v = R.ev(o.fields[k])
            except Open as e:
                self.c.undecide("%s, %s: %s" % (w, k, e))
                continue
            if isinstance(x, dict):
                if not isinstance(v, dict):
                    self.c.undecide("%s, %s: %r" % (w, k, type(v)))
                    continue
                if set(v) != set(x):
                    self.bad("effects", w, "%s has entries for %s; documented: %s" % (k, sorted(map(str, v))[:6], sorted(map(str, x))[:6]))
                    continue
                wrong = [z for z in x if not same(v[z], x[z])]
                if wrong:
                    self.bad("effects", w, "%s of %s is not the documented one" % (k, wrong[0]))
                    continue
                self.c.ob("effects", "%s, %s" % (w, k))
            else:
                self.check("effects", w, v, x, k)

    # ---- replicates
    def fixed(self):
        """A replicate's estimate is the estimator applied to the replicate's own panel."""
        r = self.term("_fit_with_fixed_lambda")
        if r is None:
            return self.c.undecide("_fit_with_fixed_lambda: not found")
        other = panels(seed=77)
        for k, (name, Y, D) in enumerate(panels()):
            if "missing" in name:
                continue
            for lam in self.LAMS[:1] + self.LAMS[4:]:
                lam = self.plain(lam)
                Y2, D2 = other[1 - k][1:]
                for stored in (False, True):
                    w = "replicate, %s, penalties %s%s" % (name, "/".join(map(str, lam)), ", after a fit" if stored else "")
                    R, f = self.at({"data": frame(Y, D), "outcome": "Y", "treatment": "D", "unit": "U", "time": "T", "fixed_lambda": lam})
                    if stored:
                        R.env["_precomputed"] = self.stored(Y2, D2)
                    try:
                        v = R.ev(r[0].retterm)
                    except Open as e:
                        self.c.undecide("%s: %s" % (w, e))
                        continue
                    self.check("replicates", w, v, avg([e[0] for e in effects(Y, D, lam, 2, 10, f).values()]), "the estimate from its own panel")

    def stored(self, Y, D):
        """What an earlier fit leaves behind."""
        r = self.term("_precompute_structures")
        if r is None:
            raise Open("stored structures")
        T, N = Y.shape
        R, f = self.at({"Y": Y, "D": D, "control_unit_idx": arr([i for i in range(N) if not any(D[:, i])]), "n_units": N, "n_periods": T})
        t = r[0].retterm
        if t.op != "dict":
            raise Open("stored structures")
        out = {}
        for x in t.a:
            try:
                out[R.ev(x.a[0])] = R.ev(x.a[1])
            except Open:
                pass
        return out

    def jackknife(self):
        r = self.term("_jackknife_variance")
        if r is None:
            return self.c.undecide("_jackknife_variance: not found")
        for name, Y, D in panels():
            T, N = Y.shape
            for lam in self.LAMS[:1] + self.LAMS[4:]:
                lam = self.plain(lam)
                w = "jackknife, %s, penalties %s" % (name, "/".join(map(str, lam)))
                R, f = self.at({"Y": Y, "D": D, "control_mask": R_mask(D), "control_unit_idx": arr([i for i in range(N) if not any(D[:, i])]), "optimal_lambda": lam,
                                "n_units": N, "n_periods": T}, _precomputed=self.stored(Y, D))
                try:
                    se, dist = R.ev(r[0].retterm)
                except (Open, TypeError) as e:
                    self.c.undecide("%s: %s" % (w, e))
                    continue
                want = []
                for i in range(N):
                    if any(D[:, i]):
                        Yj, Dj = Y.copy(), D.copy()
                        Yj[:, i], Dj[:, i] = NAN, 0
                        want.append(avg([e[0] for e in effects(Yj, Dj, lam, 2, 10, f).values()]))
                self.spread(w, se, dist, want, f)

    def spread(self, w, se, dist, want, f):
        if not self.check("replicates", w, dist, want, "the list of estimates without one treated unit"):
            return
        n = Fraction(len(want))
        if n > 1 and not any(isnan(x) for x in want):
            m = avg(want)
            self.check("replicates", w, se, f.sqrt((n - 1) / n * sum((x - m) ** 2 for x in want)), "the jackknife standard error")

    # ---- selection
    def loocv(self):
        r = self.term("_loocv_score_obs_specific")
        if r is None:
            return self.c.undecide("_loocv_score_obs_specific: not found")
        for name, Y, D in panels()[1:]:
            T, N = Y.shape
            for lam in self.LAMS[:1] + self.LAMS[4:]:
                lam = self.plain(lam)
                w = "selection score, %s, penalties %s" % (name, "/".join(map(str, lam)))
                R, f = self.at({"Y": Y, "D": D, "control_mask": R_mask(D), "control_unit_idx": arr([i for i in range(N) if not any(D[:, i])]), "lambda_time": lam[0],
                                "lambda_unit": lam[1], "lambda_nn": lam[2], "n_units": N, "n_periods": T}, _precomputed=self.stored(Y, D), max_iter=1)
                try:
                    v = R.ev(r[0].retterm)
                except Open as e:
                    self.c.undecide("%s: %s" % (w, e))
                    continue
                q_ = Fraction(0)
                for t in range(T):
                    for i in range(N):
                        if D[t, i] == 0 and not isnan(Y[t, i]):
                            a, b, L = model(Y, D, weights(Y, D, i, t, lam[0], lam[1], f), lam[2], 1, 10, f, (t, i))
                            q_ += (Y[t, i] - a[i] - b[t] - L[t, i]) ** 2
                self.check("scores", w, v, q_, "the sum of squared effects of held-out control cells")

    def search(self):
        r = self.term("_univariate_loocv_search", ("_loocv_score_obs_specific",))
        if r is None:
            return self.c.undecide("_univariate_loocv_search: not found")
        Y, D = panels()[0][1:]
        fn = self.S.P.method(self.cls, "_loocv_score_obs_specific")
        ps = [p for p in fn.params]
        for which in ("lambda_time", "lambda_unit", "lambda_nn"):
            for seed in range(4):
                grid = [Fraction(0), Fraction(1, 2), Fraction(2), INF]
                fixed = {k: v for k, v in (("lambda_time", INF), ("lambda_unit", Fraction(1, 3)), ("lambda_nn", INF)) if k != which}
                rn, score = random.Random(seed), {}
                lams = []

                def given(R, t):
                    if t.op == "fcall":
                        vs = []
                        for x in t.a[1:]:
                            try:
                                vs.append(R.ev(x))
                            except Open :
                                vs.append(None)
                        names = ps[-len(vs):]
                        d = dict(zip(names, vs))
                        k = tuple(d.get(z) for z in ("lambda_time", "lambda_unit", "lambda_nn"))
                        if any(z is None for z in k):
                            raise Open("arguments of the score")
                        lams.append(k)
                        if k not in score:
                            score[k] = Fraction(rn.randint(1, 10 ** 6))
                        return (score[k],)
                R, f = self.at({"Y": Y, "D": D, "control_mask": R_mask(D), "control_unit_idx": arr([0, 3]), "n_units": 4, "n_periods": 5, "param_name": which, "grid": grid,
                                "fixed_params": fixed}, given)
                w = "search over %s" % which
                try:
                    v = R.ev(r[0].retterm)
                    best, sc = v
                except (Open, TypeError, ValueError) as e:
                    self.c.undecide("%s: %s" % (w, e))
                    continue
                want = {g: self.plain(tuple({**fixed, which: g}[z] for z in ("lambda_time", "lambda_unit", "lambda_nn"))) for g in grid}
                if set(lams) != set(want.values()):
                    self.bad("scores", w, "penalties tried are %s; documented: %s" % (", ".join(map(show, sorted(set(lams)))), ", ".join(map(show, sorted(want.values())))))
                    continue
                low = min(score.values())
                ok = [g for g in grid if score[want[g]] == low]
                if best not in ok or sc != low:
                    self.bad("scores", w, "the value chosen is not the one with the smallest score")
                else:
                    self.c.ob("scores", w)

    # ---- joint method
    def joint(self):
        parts = ("_loocv_score_joint", "_bootstrap_variance_joint", "_jackknife_variance_joint")
        r = self.term("_fit_joint", parts)
        if r is None:
            return self.c.undecide("_fit_joint: not found")
        for k, (name, Y, D) in enumerate(panels(True)):
            for lam in self.LAMS[k::2]:
                w = "joint fit, %s, penalties %s" % (name, "/".join(map(str, lam)))
                asked, tried = [], []
                P = len({t for t in range(Y.shape[0]) if any(D[t, :])})

                def given(R, t):
                    if t.op != "fcall":
                        return None
                    n = t.a[0].split(".")[-1]
                    if n == "_loocv_score_joint":
                        fn = self.S.P.method(self.cls, n)
                        vs = [R.ev(x) if x.op not in ("new", "inst") else None for x in t.a[1:]]
                        d = dict(zip(fn.params[-len(vs):], vs))
                        z = tuple(d.get(y) for y in ("lambda_time", "lambda_unit", "lambda_nn"))
                        tried.append(z)
                        return (Fraction(5) if z == self.plain(lam) else Fraction(50 + len(tried)),)
                    asked.append((n, t))
                    return ((Fraction(2), arr([Fraction(1), Fraction(2), Fraction(4)])),)
                g = [[x, y] for x, y in zip((Fraction(3), Fraction(4), Fraction(6)), lam)]
                R, f = self.at({"data": frame(Y, D), "outcome": "Y", "treatment": "D", "unit": "U", "time": "T"}, given, method="joint",
                               lambda_time_grid=g[0], lambda_unit_grid=g[1], lambda_nn_grid=g[2])
                o = self.result(R, w, r[0].retterm)
                if o is None:
                    continue
                p = self.plain(lam)
                mu, a, b, tau, L = joint(Y, D, joint_weights(Y, D, p[0], p[1], P, f), p[2], 2, f)
                treated = [(t, i) for t in range(Y.shape[0]) for i in range(Y.shape[1]) if D[t, i] == 1]
                ever = {i for _, i in treated}
                self.fields(R, o, w, {"att": tau, "treatment_effects": {(UNITS[i], TIMES[t]): tau for t, i in treated}, "unit_effects": dict(zip(UNITS, a)),
                                      "time_effects": dict(zip(TIMES, b)), "factor_matrix": L, "lambda_time": lam[0], "lambda_unit": lam[1], "lambda_nn": lam[2],
                                      "loocv_score": Fraction(5), "n_treated": len(ever), "n_control": len(UNITS) - len(ever), "n_treated_obs": len(treated),
                                      "n_pre_periods": Y.shape[0] - P, "n_post_periods": P, "se": Fraction(2)})
                self.given_to(R, asked, w, p)

    def joint_rest(self):
        r = self.term("_fit_joint_with_fixed_lambda")
        for k, (name, Y, D) in enumerate(panels(True)[:2]):
            P = len({t for t in range(Y.shape[0]) if any(D[t, :])})
            for lam in self.LAMS[:2]:
                lam = self.plain(lam)
                w = "joint replicate, %s, penalties %s" % (name, "/".join(map(str, lam)))
                if r is None:
                    self.c.undecide(w)
                    continue
                R, f = self.at({"data": frame(Y, D), "outcome": "Y", "treatment": "D", "unit": "U", "time": "T", "fixed_lambda": lam, "treated_periods": P})
                try:
                    v = R.ev(r[0].retterm)
                except Open as e:
                    self.c.undecide("%s: %s" % (w, e))
                    continue
                self.check("replicates", w, v, joint(Y, D, joint_weights(Y, D, lam[0], lam[1], P, f), lam[2], 2, f)[3], "the estimate from its own panel")
        s = self.term("_loocv_score_joint")
        j = self.term("_jackknife_variance_joint")
        Y, D = panels(True)[0][1:]
        T, N = Y.shape
        for lam in self.LAMS[:2]:
            lam = self.plain(lam)
            cells = [(0, 1), (2, 0), (1, 3)]
            w = "joint selection score, penalties %s" % "/".join(map(str, lam))
            R, f = self.at({"Y": Y, "D": D, "control_obs": cells, "lambda_time": lam[0], "lambda_unit": lam[1], "lambda_nn": lam[2], "treated_periods": 2, "n_units": N, "n_periods": T})
            try:
                v = R.ev(s[0].retterm) if s else None
                if v is None:
                    raise Open("not found")
                W = joint_weights(Y, D, lam[0], lam[1], 2, f)
                q_ = Fraction(0)
                for t, i in cells:
                    V = W.copy()
                    V[t, i] = Fraction(0)
                    mu, a, b, tau, L = joint(Y, D, V, lam[2], 2, f)
                    q_ += (Y[t, i] - mu - a[i] - b[t] - L[t, i]) ** 2
                self.check("scores", w, v, q_, "the sum of squared effects of held-out control cells")
            except Open as e:
                self.c.undecide("%s: %s" % (w, e))
            w = "joint jackknife, penalties %s" % "/".join(map(str, lam))
            R, f = self.at({"Y": Y, "D": D, "optimal_lambda": lam, "treated_periods": 2, "n_units": N, "n_periods": T})
            R.lossy = True
            try:
                v = R.ev(j[0].retterm) if j else None
                if v is None:
                    raise Open("not found")
                want = []
                for i in range(N):
                    if any(D[:, i]):
                        Dj = D.copy()
                        Dj[:, i] = 0
                        W = joint_weights(Y, Dj, lam[0], lam[1], 2, f)
                        W[:, i] = Fraction(0)
                        want.append(joint(Y, Dj, W, lam[2], 2, f)[3])
                self.spread(w, v[0], v[1], want, f)
            except (Open, TypeError) as e:
                self.c.undecide("%s: %s" % (w, e))


def R_mask(D):
    return arr([[bool(x == 0) for x in row] for row in D])


def show(v):
    return "(" + ", ".join(str(x) for x in v) + ")"


def run(S, c):
    S = S.python()
    c.rule("Rule: TROP's fits, replicates and selection scores, as terms extracted from the source, are the documented expressions of the outcome and "
           "treatment matrices: exponential weights in period and unit distance (over periods where both units are untreated and observed, the target period "
           "left out), alternating weighted means and singular value soft-thresholding on untreated observed cells, effects of every treated cell and their "
           "mean, leave-one-cell-out score, leave-one-unit-out spread; the joint method's weights, weighted least squares and alternation. Compared at exact "
           "generic points with exp, square root and singular value decomposition uninterpreted.")
    t = Trop(S, c)
    for f in (t.estimate, t.twostep, t.fixed, t.jackknife, t.loocv, t.search, t.joint, t.joint_rest):
        f()
    c.floor("models", 3)
    c.floor("effects", 10)
