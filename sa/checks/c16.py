"""C16: resampling p-values and standard errors are read off the replicates that succeeded."""
from ..terms import *
from ..alg import *
import re
from ..infer import records, tuples, deflt, Rec, all_records, solve, strip, two_sided, byid, txt, interval, names_est, cond_text

ABSF = ABS


def polyof(k):
    return Poly(dict(k[1:]))


def term_of(a):
    return byid(a[1]) if a[0] == "t" else None


def mean_of(t):
    """The array a mean is taken over."""
    if t is None:
        return None
    if t.op == "call" and t.a[0] in ("numpy.mean", "numpy.average", "statistics.mean") and len(t.a) == 2:
        return t.a[1]
    if t.op == "m" and t.a[1] == "mean" and len(t.a) == 2:
        return t.a[0]
    return None


def sum_of(t):
    if t is None:
        return None
    if t.op == "call" and t.a[0] in ("numpy.sum", "builtins.sum", "numpy.count_nonzero") and len(t.a) == 2:
        return t.a[1]
    if t.op == "m" and t.a[1] == "sum" and len(t.a) == 2:
        return t.a[0]
    return None


def absarg(N, t):
    t = N.res(t)
    if t.op == "call" and t.a[0] in ABSF and len(t.a) == 2:
        return N.res(t.a[1])
    return None


def size_of(N, d):
    """Terms equal to the number of replicates in d."""
    d = N.res(d)
    out = {mk("call", "builtins.len", d), attr(d, "size"), idx(attr(d, "shape"), const(0))}
    if d.op == "mu" and d.init.op == "call" and d.init.a[0] in ("numpy.zeros", "numpy.empty", "numpy.full", "numpy.ones") and len(d.init.a) > 1:
        out.add(N.res(d.init.a[1]))
    return out


def finite_only(N, d):
    """(replicates kept, all replicates) when d is the finite part of an array."""
    d = N.res(d)
    if d.op == "idx" and d.a[1].op in ("call", "not", "un", "inv", "m"):
        return N.res(d.a[0])
    return None


def draws(t):
    """How the replicates in t are drawn: terms of rng.choice(...) over data, permutations."""
    out = set()
    for x in reach(t):
        if x.op == "m" and x.a[1] == "choice":
            kw = {y.a[0]: y.a[1] for y in x.a[2:] if y.op == "kw"}
            pos = [y for y in x.a[2:] if y.op != "kw"]
            src = pos[0] if pos else kw.get("a")
            rep = kw.get("replace", pos[2] if len(pos) > 2 else TRUE)
            if src is None or "p" in kw:
                continue
            if not any(y.op in ("param", "mu", "elem") for y in reach(src)):
                continue            # weights from a literal table
            out.add("resample" if rep is not FALSE else "subsample")
        elif x.op == "m" and x.a[1] in ("permutation", "permuted", "shuffle"):
            out.add("permute")
    return out


DISTANCES = {"scipy.stats.wasserstein_distance", "scipy.stats.energy_distance"}


def distance(N, t, d=0):
    """A number (or an array of numbers) that is a distance, so never negative: its own absolute value."""
    t = N.res(t)
    if d > 6:
        return False
    if t.op == "call" and t.a[0] in DISTANCES:
        return True
    if t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray", "builtins.float") and len(t.a) == 2:
        return distance(N, t.a[1], d + 1)
    if t.op == "comp":
        return distance(N, t.a[1], d + 1)
    if finite_only(N, t) is not None:
        return distance(N, finite_only(N, t), d + 1)
    if t.op == "mu" and t.next is not None:
        vals = []
        stores(t.next, t, vals)
        vs = [w for v in vals for w in leaves(v)]
        return bool(vs) and all(w.op == "c" and cval(w) != cval(w) or w.op == "glob" and w.a[0] in NANS or distance(N, w, d + 1) for w in vs)
    return False


def lone(S):
    """p-values kept beside a statistic of their own name, outside any (estimate, se, t, p, interval) record."""
    seen = set()
    for n, fn, cl in S.entries:
        r = S.res(n)
        for kind, x, d in records(r.retterm):
            if x.id in seen:
                continue
            seen.add(x.id)
            used = {v for m in tuples(d).values() for v in m.values()}
            for f in sorted(d):
                if f not in used and re.search(r"(^|_)(p_value|pvalue)$", f) and not deflt(d[f]):
                    rec = Rec(n, kind, f[:-8].rstrip("_"), {"p": f}, d, x)
                    rec.alphas = []
                    yield rec


def same(N, t, cs):
    if strip(N, t).id in cs:
        return True
    return N.abs(N.n(t)).key() in cs


def cand(o, rec):
    """Keys of the absolute value of every number of the record."""
    N = o["N"]
    out = set()
    for f, v in rec.fields.items():
        try:
            out.add(strip(N, v).id)
            x = N.n(v)
        except Need:
            continue
        if not x.isconst():
            out.add(N.abs(x).key())
    t, se = o.get("t"), o.get("se")
    for x in (t, o.get("est"), t * se if t is not None and se is not None and not t.isnan() else None):
        if x is not None and not x.isnan():
            out.add(N.abs(x).key())
    return out


def replicates(N, t):
    """The replicate array behind a filtered or recentred one."""
    t = N.res(t)
    while True:
        f = finite_only(N, t)
        if f is None:
            return t
        t = f


def sign(o):
    """Truth of 'the estimate is >= 0' in this world, if decided."""
    got = set()
    for k, v in o["world"].items():
        if k[0] in ("pos", "neg"):
            p = polyof(k[1:]) if k[1] == "p" else None
            if p is None:
                continue
            s, c = p.single()
            if s is None or c <= 0 or s == ("S",):
                continue
            x = term_of(s)
            if s != ("E",) and (x is None or x.op in ("cfg", "param", "stale", "attr") or x.op == "call" and x.a[0] in NUMERIC):
                continue
            if s == ("E",):
                return v if k[0] == "pos" else not v
            got.add(v if k[0] == "pos" else not v)
    return got.pop() if len(got) == 1 else None


def signlike(o):
    """Some condition of the world may be about the sign of the estimate in a form not understood."""
    e = o.get("est#")
    for k, v in o["world"].items():
        if k[0] in ("pos", "neg"):
            continue
        x = byid(k[1]) if k[0] == "t" else None
        if x is None:
            return True
        if x.op in ("lt", "le", "eq", "in") and any(y is e for y in x.a) or x.op in ("call", "m") and any(y is e for y in x.a):
            return True
    return False


def judge(rec, o, c):
    N, p = o["N"], o["p"]
    key = rec.name()
    s, k = p.single()

    def bad(rule, text):
        c.find("%s:%s" % (key, rule), "%s: %s" % (key, text), where=key, path=cond_text(o))

    floor = None
    core = p
    if s is not None and s[0] == "max" and k == 1:
        xs = [polyof(x) for x in s[1:]]
        fl = [x for x in xs if is_floor(x)]
        co = [x for x in xs if not is_floor(x)]
        if len(fl) == 1 and len(co) == 1:
            floor, core = fl[0], co[0]
    if floor is None and s is not None and s[0] == "min" and k == 1:
        # min(max(..., floor), 1)
        xs = [polyof(x) for x in s[1:]]
        rest = [x for x in xs if x != Poly.const(1)]
        if len(rest) == 1 and len(xs) == 2:
            s2, k2 = rest[0].single()
            if s2 is not None and s2[0] == "max" and k2 == 1:
                ys = [polyof(x) for x in s2[1:]]
                fl = [x for x in ys if is_floor(x)]
                co = [x for x in ys if not is_floor(x)]
                if len(fl) == 1 and len(co) == 1:
                    floor, core = fl[0], co[0]
                    core = Poly.atom(("min", Poly.const(1).key(), core.key())) if not core.single()[0] or core.single()[1] != 1 else core
    # ---- the share of replicates
    two = False
    s1, k1 = core.single()
    if s1 is not None and s1[0] == "min" and k1 == 1:
        xs = [polyof(x) for x in s1[1:]]
        rest = [x for x in xs if x != Poly.const(1)]
        if len(xs) == 2 and len(rest) == 1:
            core, two = rest[0], True
    elif s1 is not None and s1[0] == "min":
        xs = [polyof(x) for x in s1[1:]]
        rest = [x for x in xs if x != Poly.const(1)]
        if len(xs) == 2 and len(rest) == 1:
            core = rest[0] * Poly.const(k1)     # capped before it is doubled: not capped at 1
    cmp_, n_in, mult = None, None, None
    if len(core.m) == 1:
        (mono, v), = core.m.items()
        for a, e in mono:
            x = term_of(a)
            m = mean_of(x) if e == 1 else None
            if m is not None and len(mono) == 1:
                cmp_, mult = N.res(m), v
            sm = sum_of(x) if e == 1 else None
            if sm is not None:
                cmp_, mult = N.res(sm), v
                n_in = [b for b, f in mono if f == -1]
    if cmp_ is None or cmp_.op not in ("lt", "le"):
        if floor is not None or any(mean_of(term_of(a)) is not None for a in core.atoms()):
            c.undecide("%s: p-value %s" % (key, txt(p)[:120]))
        return False
    c.ob("resampling p-values", key)
    lo, hi = N.res(cmp_.a[0]), N.res(cmp_.a[1])
    la, ha = absarg(N, lo), absarg(N, hi)
    if la is None and ha is None and distance(N, lo) and distance(N, hi):
        la, ha = lo, hi
    if floor is None:
        bad("floor", "the resampling p-value has no floor of 1 / (number of replicates + 1) and can be zero")
    if la is not None and ha is not None:
        # randomisation form: |observed| <= |replicate|
        cs = cand(o, rec)
        if same(N, la, cs):
            d = ha
        elif same(N, ha, cs):
            bad("direction", "the p-value is the share of replicates less extreme than the observed statistic")
            d = la
        else:
            c.undecide("%s: observed statistic %s of the p-value" % (key, show(la, 3)))
            d = ha
        h0 = rec.null
        if h0 is not None:
            for x, w in ((la if d is ha else ha, "observed statistic"), (d, "replicates")):
                c.ob("null", key)
                if not any(y is h0 for y in reach(x, control=False)):
                    bad("null", "the %s behind the p-value does not depend on the null hypothesis asked for" % w)
        if cmp_.op == "lt":
            bad("ties", "replicates equal to the observed statistic are not counted as at least as extreme")
        if mult != 1 or two and mult != 1:
            bad("share", "the p-value is %s times the share of replicates at least as extreme in absolute value" % mult)
        kinds = draws(under(N, d))
        if d.op == "call" and d.a[0] == "numpy.nan_to_num":
            bad("failed", "failed replicates (NaN) are replaced, not dropped from the distribution")
        if kinds and "resample" not in kinds and d.op == "bin" and d.a[0] in "+-":
            bad("recentred", "the p-value compares the observed statistic with replicates that were shifted: %s" % show(d, 3))
        if "resample" in kinds:
            bad("centre", "the p-value compares the observed effect with replicates resampled from the data, which are centred on that effect and not on the null")
        form = "randomisation"
    elif la is None and ha is None and (lo is const(0) or hi is const(0) or N.n(lo).isconst() or N.n(hi).isconst()):
        z, d, below = (lo, hi, False) if N.n(lo).isconst() else (hi, lo, True)
        if N.n(z).value() != 0:
            bad("null", "the bootstrap p-value compares replicates with %s, not with 0" % show(z, 2))
        if cmp_.op == "lt":
            bad("ties", "replicates equal to zero are not counted")
        if mult != 2:
            bad("share", "the bootstrap p-value is %s times the one-sided share, not twice" % mult)
        elif not two:
            bad("one", "twice the one-sided share is not capped at 1")
        sg = sign(o)
        e = o.get("est")
        if e is not None and e.isconst() and not e.isnan():
            sg = e.value() >= 0
        rec.signs = getattr(rec, "signs", [])
        rec.signs.append((sg, below, o, signlike(o) or e is not None and e.isnan()))
        if sg is None:
            pass
        elif sg != below:
            bad("direction", "for %s estimates the one-sided share counts replicates %s zero" % ("non-negative" if sg else "negative", "at or below" if below else "at or above"))
        i = interval(o)
        if i and i[0] == "quantile":
            q = byid(i[1][1][1])
            if q is not d and q is not None:
                bad("samples", "the interval and the p-value are read off different replicate sets")
            else:
                c.ob("same replicates for p and interval", key)
        elif i and i[0] == "analytic":
            bad("interval", "the p-value is read off bootstrap replicates and the interval is not")
        form = "bootstrap"
    else:
        bad("two-sided", "the resampling p-value is the one-sided share %s" % show(cmp_, 3))
        return True
    c.ob(form, key)
    standins(N, d, key, c, bad)
    # ---- number of replicates
    if floor is not None:
        n = floor_n(floor)
        ok = {N.n(x).key() for y in (d, *cmp_.a) for x in size_of(N, y) | {mk("call", "builtins.len", y)}}
        ok |= {N.n(mk("call", "builtins.len", y.a[1])).key() for y in cmp_.a if y.op == "call" and len(y.a) == 2}
        x = term_of(n.single()[0]) if n.single()[0] else None
        if x is not None and x.op == "call" and x.a[0] == "builtins.len" and N.res(x.a[1]) is d:
            ok.add(n.key())
        if n is not None and n.key() not in ok:
            base = replicates(N, d)
            tot = {N.n(x).key() for x in size_of(N, base)} if base is not d else set()
            if n.key() in tot:
                bad("count", "the p-value's floor counts all replications, including the ones dropped from the distribution")
            elif maydrop(N, d) and (not counts(N, n, d) or mixed(N, n, d)):
                bad("count", "the p-value's floor is 1/(n + 1) with n = %s, which is not the number of replicates used: replicates can be dropped" % txt(n))
            elif other_size(N, n, base):
                bad("count", "the p-value's floor is 1/(n + 1) with n = %s, the size of something else than the replicates" % txt(n))
            else:
                c.undecide("%s: floor %s" % (key, txt(floor)))
        elif n is not None:
            c.ob("floor", key)
    # ---- the standard error comes from the same replicates, with n - 1
    se = o.get("se#")
    if se is not None and se.op == "call" and se.a[0] in ("numpy.std", "numpy.nanstd"):
        pos, kw = args_of(se)
        dd = kw.get("ddof", pos[2] if len(pos) > 2 else const(0))
        if dd is not const(1):
            bad("ddof", "the standard error is the standard deviation of the replicates with ddof=%s" % show(dd, 1))
        if form == "bootstrap" and pos:
            if N.res(pos[0]) is d:
                c.ob("same replicates for se and p", key)
            elif replicates(N, pos[0]) is replicates(N, d):
                bad("samples", "the standard error and the p-value use different subsets of the replicates")
    return True


def under(N, d):
    return d


RNG = {"choice", "permutation", "permuted", "shuffle", "integers", "standard_normal", "normal", "random", "uniform", "exponential", "binomial", "multinomial"}


def drawn(t):
    return any(x.op == "m" and x.a[1] in RNG or x.op in ("call", "icall") and (x.a[0].startswith("numpy.random.") or "bootstrap" in x.a[0]) for x in reach(t))


def stores(t, root, out, d=0):
    """Values stored into the array (or the arrays of the dict) that a loop fills."""
    if d > 40:
        return
    if t.op == "ite":
        stores(t.a[1], root, out, d + 1)
        stores(t.a[2], root, out, d + 1)
    elif t.op == "setitem":
        for w in leaves(t.a[2]):
            out.append(w.a[2] if w.op == "setitem" and w.a[0].op == "idx" else w)
        stores(t.a[0], root, out, d + 1)
    elif t.op == "append":
        out.append(t.a[1])
        stores(t.a[0], root, out, d + 1)
    elif t.op == "mu" and t is not root and t.next is not None:
        stores(t.next, t, out, d + 1)


def standins(N, d, key, c, bad):
    """Everything kept in the replicate array comes from a draw, or is NaN (and dropped)."""
    base = replicates(N, d)
    while base.op in ("idx", "call") and base.op != "mu":
        nxt = base.a[0] if base.op == "idx" else base.a[1] if base.a[0] in ("numpy.array", "numpy.asarray") and len(base.a) > 1 else None
        if nxt is None:
            return
        base = N.res(nxt)
    if base.op != "mu" or base.next is None:
        return
    vals = []
    stores(base.next, base, vals)
    for v in vals:
        for w in leaves(v):
            if w.op == "glob" and w.a[0] in NANS or w.op == "c" and cval(w) != cval(w):
                c.ob("failed replicates dropped", key)
                if replicates(N, d) is N.res(d) and not N.res(d).op == "comp":
                    bad("failed", "failed replicates (NaN) are not dropped from the distribution")
            elif w.op == "c" or not drawn(w):
                bad("standin", "a replicate is replaced by %s, which is not drawn" % show(w, 3)[:120])
            else:
                c.ob("replicates drawn", key)


def maydrop(N, d):
    """Replicates can be missing from d: it is filtered, or filled under a condition or in a try block."""
    d = N.res(d)
    base = replicates(N, d)
    if base is not d:
        return True
    while base.op == "call" and base.a[0] in ("numpy.array", "numpy.asarray") and len(base.a) > 1:
        base = N.res(base.a[1])
    if base.op == "comp":
        return any(y.op == "conds" and y.a for y in base.a if type(y) is T)
    return base.op == "mu" and base.next is not None and any(y is base for y in leaves(base.next)) and base.next.op == "ite"


def other_size(N, n, base):
    """n is the length of another array, or another argument, than the one the replicate array was made with."""
    base = N.res(base)
    if base.op != "mu" or base.init.op != "call" or len(base.init.a) < 2:
        return False
    x, k = N.n(base.init.a[1]).single()
    y, j = n.single()
    x, y = x and term_of(x), y and term_of(y)
    if x is None or y is None or k != 1 or j != 1 or x is y or x.op not in ("param", "cfg"):
        return False
    return y.op in ("param", "cfg") or y.op == "call" and y.a[0] == "builtins.len" and not any(z is x or z is base for z in reach(y))


def mixed(N, n, d):
    """n is the larger (or smaller) of the replicates used and some other number."""
    s, k = n.single()
    return s is not None and k == 1 and s[0] in ("max", "min") and any(not polyof(x).isconst() and not counts(N, polyof(x), d) for x in s[1:])


def counts(N, n, d):
    """Some part of n is computed from the replicates."""
    d = N.res(d)
    inner = {x for x in reach([d, replicates(N, d)]) if x.op in ("mu", "comp", "icall")}
    for a in n.atoms():
        x = term_of(a)
        if x is None or x.op not in ("cfg", "param", "c", "glob", "stale"):
            y = reach([x]) if x is not None else []
            if x is None or any(z is d or z in inner for z in y):
                return True
    return False


def leaves(t, d=0):
    if t.op == "ite" and d < 12:
        yield from leaves(t.a[1], d + 1)
        yield from leaves(t.a[2], d + 1)
    else:
        yield t


def is_floor(x):
    return floor_n(x) is not None


def floor_n(x):
    """x = 1/(n+1) -> n."""
    s, c = x.single()
    if s is not None and s[0] == "inv" and c == 1:
        return Poly(dict(s[2:])) - Poly.const(1)
    if len(x.m) == 1:
        (mono, v), = x.m.items()
        if len(mono) == 1 and mono[0][1] == -1 and v == 1:
            return Poly.atom(mono[0][0]) - Poly.const(1)
        if not mono and 0 < v < 1 and v.numerator == 1:
            return Poly.const(v.denominator - 1)
    return None


def run(S, c):
    c.rule("Rule: a p-value read off replicates is the share of replicates at least as extreme as the observed statistic (both in "
           "absolute value, replicates drawn under the null), or twice the one-sided share of bootstrap replicates at or beyond zero "
           "on the side opposite the estimate, capped at 1; it is at least 1/(replicates used + 1); dropped replicates are dropped "
           "from the standard error (n-1), interval and p-value alike.")
    S = S.python()
    for r in list(all_records(S)) + list(lone(S)):
        if r.overflow or "p" not in r.m:
            continue
        if r.worlds and not any(any(a[0] in ("max", "min") or mean_of(term_of(a)) is not None or sum_of(term_of(a)) is not None for a in o["p"].atoms()) for o in r.worlds):
            continue

        def one(o, r=r):
            if not r.worlds and not any(a[0] in ("max", "min") or mean_of(term_of(a)) is not None or sum_of(term_of(a)) is not None for a in o["p"].atoms()):
                return
            if not o["p"].isnan() and not o["p"].isconst():
                judge(r, o, c)
        try:
            r.signs, r.null = [], S.res(r.entry).params.get("null_hypothesis")
            for _ in solve(r.fields, r.m, r.alphas, then=one):
                pass
            if r.signs and all(x[0] is None for x in r.signs):
                key = r.name()
                if any(x[3] for x in r.signs):
                    c.undecide("%s: sign of the estimate behind the one-sided share" % key)
                else:
                    c.find(key + ":direction", "%s: the one-sided share counts replicates %s zero whatever the sign of the estimate" % (
                        key, "at or below" if r.signs[0][1] else "at or above"), where=key, path=cond_text(r.signs[0][2]))
        except Overflow:
            c.undecide("%s: too many branch combinations" % r.name())
    c.floor("resampling p-values", 1)
