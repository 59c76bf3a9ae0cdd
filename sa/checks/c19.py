"""C19: aggregate effects are averages of the documented effects with the documented, normalised weights."""
from ..terms import *
from ..alg import worlds, Overflow, Poly, NANK, args_of
from ..infer import strip
from ..masks import Design, Unknown, INF
from ..vec import Agg, Src
from .c18 import is_cohort


def recs(t, f="effect"):
    """(key, record, field term) of records stored in a dict."""
    seen = set()
    for y in reach(t):
        if y.op == "setitem" and y.a[2].op == "dict":
            for kv in y.a[2].a:
                if kv.op == "kv" and is_str(kv.a[0]) and cval(kv.a[0]) == f and y.a[2].id not in seen:
                    seen.add(y.a[2].id)
                    yield y.a[1], y.a[2], kv.a[1]


def average(A, p):
    """(Src, factors of the numerator, factors of the weight) of SUM(w x) / SUM(w); ('bad', text) when it is another combination of
    sums; None when it is something else."""
    if len(p.m) != 1:
        inv = [a for a in p.atoms() if a[0] == "inv"]
        if len(inv) == 1 and all((inv[0], 1) in m for m in p.m):
            num = [[y for y in m if y != (inv[0], 1)] for m in p.m]
            den = [list(m) for m, co in inv[0][2:]]
            sums = [y for m in num + den for y in m]
            if all(len(m) == 1 for m in num + den) and all(y[0][0] == "SUM" and y[1] == 1 for y in sums) and len({y[0][1] for y in sums}) == 1 \
                    and all(z[0][0] == "t" for y in sums for z in y[0][2]):
                return ("bad", "an effect's weight adds several quantities")
        return None
    (mono, co), = p.m.items()
    far = [a for a, n in mono if a[0] == "t" and n == -1 and largest(byid(a[1]))]
    if far and sum(1 for a, n in mono if a[0] == "SUM") == 1:
        return ("bad", "the weights are scaled by %s and do not sum to one" % show(byid(far[0][1]), 2))
    pos = [a for a, n in mono if n == 1]
    neg = [a for a, n in mono if n == -1]
    if len(pos) + len(neg) != len(mono) or any(a[0] != "SUM" for a in pos + neg):
        return None
    if len(pos) == 1 and len(neg) == 1:
        if pos[0][1] != neg[0][1]:
            return ("bad", "the weights are normalised over another set of effects than the one averaged")
        num, den = list(pos[0][2]), list(neg[0][2])
        rest = list(num)
        for x in den:
            if x not in rest:
                return ("bad", "the weights do not sum to one")
            rest.remove(x)
        if co != 1:
            return ("bad", "the weights sum to %s, not to one" % co)
        return A.srcs[pos[0][1]], rest, den
    return ("bad", "the weights do not sum to one")


def largest(x):
    """An order statistic or norm of an array."""
    return (x.op == "m" and x.a[1] in ("max", "min", "median", "std") and len(x.a) == 2
            or x.op == "call" and x.a[0] in ("numpy.max", "numpy.min", "numpy.median", "numpy.std", "numpy.linalg.norm", "numpy.amax", "builtins.max") and len(x.a) == 2)


def estimated(src, rest):
    """A condition of the source that looks at the averaged estimates."""
    ids = {a[1] for a, n in rest if a[0] == "t"}
    for y in src.conds:
        st = lambda z: z.op in ("mu", "comp") or z.op == "call" and z.a[0] in ("numpy.isnan", "numpy.isfinite", "math.isfinite", "math.isnan")
        for z in reach(y, control=True, stop=st):
            if z.id in ids:
                return y
    return None


def cellfield(B, at, field):
    if at[1] != 1 or at[0][0] != "t":
        return False
    x = byid(at[0][1])
    e = mk("elem", B, const(0))
    return (x.op == "idx" and (is_str(x.a[1]) if field is None else x.a[1] is const(field)) and x.a[0].op == "idx" and x.a[0].a[0] is B
            and (x.a[0].a[1] is e or x.a[0].a[1] is mk("tuple", idx(e, const(0)), idx(e, const(1)))))


def names_for(A, B, extra):
    e = mk("elem", B, const(0))
    n = {idx(e, const(0)): "g", idx(e, const(1)): "t"}
    for k, v in extra.items():
        n[A.canon(k)] = v
    return n


GRID = [dict(g=g, t=t, anticipation=a) for g in (4, 5, 7) for a in (0, 1, 2) for t in range(1, 10)]


def selects(A, src, names, want, envs):
    """None when the source selects exactly the cells wanted; text when not; raises Unknown."""
    D = Design(names, is_cohort)
    for e in envs:
        v = all(D.bool(x, e, {}) for x in src.conds) and (src.group is None or D.bool(src.group, e, {}))
        if v != want(e):
            return "%s a cell with %s" % ("includes" if v else "leaves out", ", ".join("%s=%s" % (k, e[k]) for k in sorted(e)))
    return None


def report(c, rule, what, text, t):
    c.find("%s:%s" % (rule, what), "%s: %s" % (what, text), where=what, path=show(t, 6)[:500])


def resolve(c, what, t, judge, cap=3000, shallow=False):
    def fn(N):
        A = Agg(N, shallow)
        x = strip(N, t)
        p = A.scalar(x)
        return N, A, x, p
    seen = set()
    try:
        for w, (N, A, x, p) in worlds(fn, cap):
            if is_const(x) or p.isnan() or p.isconst() or x.op == "undef":
                continue
            k = (p.key(),)
            if k in seen:
                continue
            seen.add(k)
            judge(w, N, A, x, p)
    except Overflow:
        c.undecide(what + ": too many branches")


EV = [dict(e, e=k) for e in GRID[::2] for k in range(-4, 6)]
GR = [dict(e, G=k) for e in GRID for k in (4, 5, 6)]


def post(e):
    return e["t"] >= e["g"] - e["anticipation"]


def at_e(e):
    return e["t"] - e["g"] == e["e"]


def key_e(A, s):
    if s.group is not None:
        for y in s.group.a:
            if y.op == "elem":
                return {y: "e"}
    return {}


def balanced(A, B, conds, bal):
    """Text when the cells kept by a balanced event study are not those of cohorts observed at relative time balance_e."""
    for y in conds:
        g, st = y.a
        st = A.N.res(st)
        w = A.appended(st) if st.op == "mu" else (st.a[1], st.a[3].a) if st.op == "comp" else None
        if w is None:
            return None
        el = A.canon(w[0])
        cs_ = [A.canon(x) for x in w[1]]
        D = Design({**names_for(A, B, {}), bal: "b"}, is_cohort)
        if g is not idx(mk("elem", B, const(0)), const(0)) or el is not g:
            return "the balanced event study keeps cells by something other than their cohort"
        try:
            for e in GRID:
                for b in range(-3, 5):
                    e2 = dict(e, b=b)
                    if all(D.bool(x, e2, {}) for x in cs_) != (e["t"] - e["g"] == b):
                        return "the balanced event study does not keep the cohorts observed at relative time balance_e"
        except (Unknown, KeyError):
            return None
    return ""


def cells_rule(c, w, A, what, x, src, den, weight, extra, want, envs, bal=None):
    """The cells of an average and their weights are the documented ones."""
    B = src.base
    if weight is None and den:
        report(c, "weights", what, "the cells are weighted by %s; documented: equally" % _f(den), x)
        return
    if weight is not None and not (len(den) == 1 and cellfield(B, den[0], weight)):
        if all(cellfield(B, a, None) for a in den) or not den:
            report(c, "weights", what, "the cells are weighted by %s; documented: the number of treated units in the cohort" % _f(den), x)
        else:
            c.undecide("%s: weights %s" % (what, den))
        return
    s = src
    if bal is not None:
        extra_c = [y for y in s.conds if y.op == "in"]
        if extra_c:
            v = balanced(A, B, extra_c, bal)
            if v is None:
                c.undecide("%s: %s" % (what, show(extra_c[0], 4)))
                return
            if v:
                report(c, "cells", what, v, x)
                return
            c.ob("balanced cells", what)
            s = Src(B, [y for y in s.conds if y.op != "in"], s.group)
        elif _given(w, bal):
            report(c, "cells", what, "balance_e does not restrict the cohorts that are averaged", x)
            return
    try:
        v = selects(A, s, names_for(A, B, extra(A, s)), want, envs)
    except (Unknown, KeyError):
        c.undecide("%s: conditions %s" % (what, [show(y, 4) for y in s.conds]))
        return
    if v:
        report(c, "cells", what, "the average " + v, x)
        return
    c.ob("aggregates", what)
    c.sample("%s: weighted average over the documented cells, weights %s" % (what, _f(den)))


def cs(S, c):
    P = S
    r = P.res("CallawaySantAnna.fit", options={"estimation_method": const("reg"), "n_bootstrap": const(0)},
              fixed={"aggregate": const("all"), "covariates": NONE}, key="c19")
    if r is None or r.retterm.op != "new":
        c.undecide("CallawaySantAnna.fit: result")
        return
    d = {f.a[0]: f.a[1] for f in r.retterm.a[1:]}
    bal = mk("param", "balance_e")

    def judge_one(what, weight, extra, want, envs, balance=None):
        def judge(w, N, A, x, p):
            a = average(A, p)
            if a is None:
                c.undecide("%s: %s" % (what, show(x, 3)))
                return
            if a[0] == "bad":
                report(c, "weights", what, a[1], x)
                return
            src, rest, den = a
            if estimated(src, rest) is not None:
                report(c, "cells", what, "the effects averaged are chosen by their estimates", x)
                return
            if len(rest) != 1 or not cellfield(src.base, rest[0], "effect"):
                c.undecide("%s: averages %s" % (what, rest))
                return
            cells_rule(c, w, A, what, x, src, den, weight, extra, want, envs, balance)
        return judge

    resolve(c, "CallawaySantAnna overall ATT", d["overall_att"],
            judge_one("CallawaySantAnna overall ATT", "n_treated", lambda A, s: {}, post, GRID))
    for k, rec, t in recs(d["event_study_effects"]):
        if _agg(rec):
            resolve(c, "CallawaySantAnna event study", t,
                    judge_one("CallawaySantAnna event study", "n_treated", key_e, at_e, EV, bal))
    for k, rec, t in recs(d["group_effects"]):
        if _agg(rec):
            resolve(c, "CallawaySantAnna group effect", t,
                    judge_one("CallawaySantAnna group effect", None, lambda A, s, k=k: {k: "G"}, lambda e: post(e) and e["g"] == e["G"], GR))


def _given(w, par):
    for k, v in w.items():
        if k[0] == "t":
            x = byid(k[1])
            if x is not None and x.op == "is" and x.a[0] is par and v is False:
                return True
    return False


def _agg(rec):
    return any(cval(kv.a[0]) in ("n_groups", "n_periods") for kv in rec.a if kv.op == "kv" and is_str(kv.a[0]))


def _f(fs):
    return " * ".join(show(byid(a[1]), 3) if a[0] == "t" else a[0] for a, n in fs) or "equal weights"


def boot(S, c):
    """Bootstrap replicates of an aggregate use the weights and cells of its point estimate."""
    r = S.res("CallawaySantAnna.fit", options={"estimation_method": const("reg"), "n_bootstrap": const(200)},
              fixed={"aggregate": const("all"), "covariates": NONE}, key="c19b")
    seen = set()
    for x in reach(r.retterm, control=False):
        if x.op == "bin" and x.a[0] == "@" or x.op == "call" and x.a[0] in ("numpy.dot", "numpy.matmul"):
            m, w = (x.a[1], x.a[2])
            if m.op != "idx" or m.a[1].op != "tuple" or len(m.a[1].a) != 2 or m.a[1].a[0].op != "slice":
                continue
            if not any(y.op == "m" and y.a[1] in ("choice", "normal", "standard_normal", "integers") for y in reach(m.a[0], control=False)) or x.id in seen:
                continue
            if m.a[1].a[1].op == "slice" and all(y is NONE for y in m.a[1].a[1].a):
                continue
            seen.add(x.id)
            if m.a[0].op != "mu":
                continue            # unit-level perturbations

            def fn(N):
                A = Agg(N)
                return N, A, A.vec(w), select(A, m.a[1].a[1])
            what = "CallawaySantAnna bootstrap aggregate"
            try:
                for wd, (N, A, v, s) in worlds(fn, 500):
                    if v is not None and m.a[1].a[1].op == "slice" and (v[0].conds or v[0].group is not None):
                        report(c, "replicates", what, "the cells combined are a range of columns, not the cells the weights were computed for", x)
                        continue
                    if v is None or s is None:
                        if not dead(N, w):
                            c.undecide("%s: %s" % (what, show(x, 4)))
                        continue
                    if v[0].key() != s.key():
                        report(c, "replicates", what, "the cells combined are not the cells the weights were computed for", x)
                        continue
                    p = A.total(v[0], v[1])
                    if not (p.isconst() and p.value() == 1):
                        report(c, "replicates", what, "the weights of the replicates do not sum to one", x)
                        continue
                    c.ob("bootstrap aggregates", x.id)
                    same(c, A, what, v, x, wd, mk("param", "balance_e"))
            except Overflow:
                c.undecide(what + ": too many branches")


def same(c, A, what, v, x, w, bal):
    """Cells and weights of a bootstrap aggregate, told apart by what its cells are selected on."""
    src, p = v
    B = src.base
    (mono, co), = p.m.items()
    den = [(a, n) for a, n in mono if n > 0 and a[0] == "t"]
    ns = names_for(A, B, {})
    if src.group is not None:
        cells_rule(c, w, A, what + " (event study)", x, src, den, "n_treated", key_e, at_e, EV, bal)
        return
    eqs = [y for k in src.conds for y in reach(k, control=False, stop=lambda z: z.op in ("mu", "comp")) if y.op == "eq" and any(ns.get(z) == "g" for z in y.a)]
    ks = [z for y in eqs for z in y.a if z.op == "elem" and z not in ns]
    if ks:
        cells_rule(c, w, A, what + " (group)", x, src, den, None, lambda A, s: {ks[0]: "G"}, lambda e: post(e) and e["g"] == e["G"], GR)
    else:
        cells_rule(c, w, A, what + " (overall)", x, src, den, "n_treated", lambda A, s: {}, post, GRID)


def dead(N, t):
    """An empty array in this world."""
    t = N.res(t)
    return t.op == "call" and t.a[0] == "numpy.array" and t.a[1].op == "list" and not t.a[1].a


def select(A, i):
    i = A.N.res(i)
    if i.op == "idx" and i.a[0].op == "call" and i.a[0].a[0] in ("numpy.where", "numpy.nonzero") and i.a[1].op == "c":
        e = A.vec(i.a[0].a[1], boolean=True)
        return None if e is None else e[0].add([e[1]])
    if i.op == "call" and i.a[0] == "numpy.flatnonzero":
        e = A.vec(i.a[1], boolean=True)
        return None if e is None else e[0].add([e[1]])
    e = A.vec(i)
    if e is not None:
        at, co = e[1].single()
        if at is not None and co == 1 and at[0] == "t" and byid(at[1]).op == "pos":
            return e[0]
    e = A.vec(i, boolean=True)
    return None


def sa(S, c):
    r = S.res("SunAbraham.fit", options={"n_bootstrap": const(0)}, fixed={"covariates": NONE}, key="c19")
    d = {f.a[0]: f.a[1] for f in r.retterm.a[1:]}
    what = "SunAbraham event study"

    def judge(w, N, A, x, p):
        a = average(A, p)
        if a is None:
            c.undecide("%s: %s" % (what, show(x, 3)))
            return
        if a[0] == "bad":
            report(c, "weights", what, a[1], x)
            return
        src, rest, den = a
        if estimated(src, rest) is not None:
            report(c, "cells", what, "the effects averaged are chosen by their estimates", x)
            return
        G = mk("elem", src.base, const(0))
        if len(rest) != 1 or rest[0][0][0] != "t" or not lstsq(byid(rest[0][0][1])):
            c.undecide("%s: averages %s" % (what, _f(rest)))
            return
        if not (len(den) == 1 and den[0][0][0] == "t" and sizes(byid(den[0][0][1]), G)):
            if not den or den[0][0][0] == "t" and not any(is_cohort(y) for y in reach(byid(den[0][0][1]))):
                report(c, "weights", what, "cohorts are weighted by %s; documented: by their number of units" % _f(den), x)
            else:
                c.undecide("%s: weights %s" % (what, _f(den)))
            return
        c.ob("aggregates", what)
    for k, rec, t in recs(d["event_study_effects"]):
        if _agg(rec):
            resolve(c, what, t, judge)
    what2 = "SunAbraham overall ATT"

    def judge2(w, N, A, x, p):
        a = average(A, Poly({tuple((x, n) for x, n in m): v for m, v in p.m.items()}))
        if a is None:
            c.undecide("%s: %s" % (what2, show(x, 3)))
            return
        if a[0] == "bad":
            report(c, "weights", what2, a[1], x)
            return
        src, rest, den = a
        if estimated(src, rest) is not None:
            report(c, "cells", what2, "the effects averaged are chosen by their estimates", x)
            return
        E = mk("elem", src.base, const(0))
        all_ = A.source(d["event_study_effects"])
        if all_.base is not src.base or src.group is not None:
            c.undecide("%s: averages over %s" % (what2, show(src.base, 3)))
            return
        try:
            v = selects(A, Src(src.base, [y for y in src.conds if y not in all_.conds]), {E: "e"}, lambda e: e["e"] >= 0, [dict(e=k, anticipation=n) for k in range(-4, 6) for n in (0, 1, 2)])
        except (Unknown, KeyError):
            c.undecide("%s: conditions %s" % (what2, [show(y, 4) for y in src.conds]))
            return
        if v:
            report(c, "cells", what2, "the average " + v.replace("a cell", "a period"), x)
            return
        if not den:
            report(c, "weights", what2, "relative periods are weighted equally; documented: by their number of treated observations", x)
            return
        c.ob("aggregates", what2)
    resolve(c, what2, d["overall_att"], judge2)


def lstsq(x):
    return any(y.op == "call" and y.a[0].endswith("lstsq") for y in reach(x, control=False))


def sizes(x, g):
    """Number of units of cohort g, from a table of counts."""
    if not any(y is g for y in reach(x, control=False, stop=lambda z: z.op in ("mu", "comp"))):
        return False
    return any(y.op == "m" and y.a[1] in ("value_counts", "size", "nunique", "count") or y.op == "call" and y.a[0] in ("numpy.unique", "collections.Counter", "numpy.sum") for y in reach(x, control=False))


def multi(S, c):
    what = "MultiPeriodDiD average effect"
    r = S.res("MultiPeriodDiD.fit")
    post = mk("param", "post_periods")
    for t in reach(r.retterm):
        if t.op == "new" and t.a[0].endswith("MultiPeriodDiDResults"):
            d = {f.a[0]: f.a[1] for f in t.a[1:]}
            pe, pp = d.get("period_effects"), d.get("post_periods")

            def judge(w, N, A, x, p):
                a = average(A, p)
                if a is None:
                    c.undecide("%s: %s" % (what, show(x, 3)))
                    return
                if a[0] == "bad":
                    report(c, "weights", what, a[1], x)
                    return
                src, rest, den = a
                if estimated(src, rest) is not None:
                    report(c, "cells", what, "the effects averaged are chosen by their estimates", x)
                    return
                if den:
                    report(c, "weights", what, "periods are weighted by %s; documented: equally" % _f(den), x)
                    return
                if src.conds or src.group is not None or src.base is not A.canon(A.base(pp)):
                    if src.base is A.canon(A.base(pp)):
                        c.undecide("%s: conditions %s" % (what, [show(y, 4) for y in src.conds]))
                    else:
                        report(c, "cells", what, "the average runs over %s, not over the post-treatment periods" % show(src.base, 3), x)
                    return
                if len(rest) != 1 or rest[0][0][0] != "t" or not lstsq(byid(rest[0][0][1])):
                    c.undecide("%s: averages %s" % (what, _f(rest)))
                    return
                c.ob("aggregates", what)
            resolve(c, what, d["avg_att"], judge)


def trop(S, c):
    what = "TROP (twostep) ATT"
    r = S.res("TROP.fit", options={"method": const("twostep")}, key="c19")
    if r is None:
        return
    for t in reach(r.retterm):
        if t.op == "new" and t.a[0].endswith("TROPResults"):
            d = {f.a[0]: f.a[1] for f in t.a[1:]}

            def judge(w, N, A, x, p):
                pos = set()
                bad = None
                for mono, co in p.m.items():
                    sums = [a for a, n in mono if a[0] == "SUM" and n == 1]
                    den = [a for a, n in mono if a[0] == "SUM" and n == -1]
                    if len(sums) != 1 or len(den) != 1 or len(mono) != 2:
                        return c.undecide("%s: %s" % (what, show(x, 3)))
                    if den[0][2] or den[0][1] != sums[0][1]:
                        bad = "the treated effects are not averaged equally"
                    if len(sums[0][2]) != 1 or sums[0][2][0][1] != 1 or sums[0][2][0][0][0] != "t":
                        return c.undecide("%s: %s" % (what, show(x, 3)))
                    src = A.srcs[sums[0][1]]
                    E = mk("elem", src.base, const(0))
                    ro = cell_role(byid(sums[0][2][0][0][1]), E)
                    if ro is None:
                        return c.undecide("%s: %s" % (what, show(byid(sums[0][2][0][0][1]), 3)))
                    pos.add((ro, co))
                if bad:
                    return report(c, "weights", what, bad, x)
                got = sorted(pos, key=str)
                if not ({("y", 1), ("unit", -1), ("time", -1)} <= pos and pos - {("y", 1), ("unit", -1), ("time", -1)} <= {("low rank", -1)}):
                    return report(c, "cells", what, "a treated cell's effect is %s; documented: outcome minus unit effect, time effect and low-rank part" % (
                        " ".join("%+g*%s" % (float(k), ro) for ro, k in got)), x)
                c.ob("aggregates", what)
            resolve(c, what, d["att"], judge, 800, True)


def cell_role(x, E):
    """Role of a matrix entry read at the treated cell E = (row, column)."""
    if x.op != "idx":
        return None
    o, k = x.a
    i, j = idx(E, const(0)), idx(E, const(1))
    if k.op == "tuple" and len(k.a) == 2:
        if (k.a[0], k.a[1]) == (i, j):
            return "y" if data_matrix(o) else "low rank"
        if (k.a[0], k.a[1]) == (j, i):
            return "entry (column, row) of a matrix"
        return None
    if k is i:
        return "time"
    if k is j:
        return "unit"
    return None


def data_matrix(o):
    while o.op == "attr" or o.op == "m" or o.op == "call" and len(o.a) > 1:
        if o.op == "m" and o.a[1] in ("pivot", "pivot_table", "unstack"):
            return True
        o = o.a[0] if o.op != "call" else o.a[1]
    return False


def run(S, c):
    c.rule("Rule: each aggregate effect normalises to SUM(w * effect) / SUM(w) over one set of effects: CallawaySantAnna overall (cells with "
           "t >= g - anticipation, weighted by treated units), event study (t - g equal to the relative time, same weights, balance_e "
           "restricting cohorts), group effects (equal weights over the cohort's post-treatment cells) and their bootstrap replicates; "
           "SunAbraham event study (cohort sizes) and overall ATT (periods e >= 0); MultiPeriodDiD average (equal weights over post "
           "periods); TROP mean of outcome minus unit, time and low-rank parts over treated cells.")
    S = S.python()
    cs(S, c)
    boot(S, c)
    sa(S, c)
    multi(S, c)
    trop(S, c)
    c.floor("aggregates", 4)
    c.floor("bootstrap aggregates", 1)
