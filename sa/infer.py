"""Inference records: (estimate, se, t, p, interval) tuples found in what entry points return, judged world by world."""
import re
from fractions import Fraction
from .terms import *
from .alg import *

ROLE = [("t", re.compile(r"^(.*?)_?(t_stat|t_statistic|tstat)$")), ("p", re.compile(r"^(.*?)_?(p_value|pvalue|p)$")),
        ("ci", re.compile(r"^(.*?)_?(conf_int|ci)$")), ("lo", re.compile(r"^(.*?)_?(ci_lower|ci_lb|conf_int_lower|lower)$")),
        ("hi", re.compile(r"^(.*?)_?(ci_upper|ci_ub|conf_int_upper|upper)$")), ("se", re.compile(r"^(.*?)_?se$"))]
EST = ["att", "effect", "coefficient", "estimate", "placebo_effect"]


def tuples(names):
    out = {}
    for n in names:
        for role, rx in ROLE:
            m = rx.match(n)
            if m:
                out.setdefault(m.group(1), {})[role] = n
                break
    for p, d in out.items():
        for e in ([p] if p else []) + [(p + "_" if p else "") + x for x in EST]:
            if e in names:
                d["est"] = e
                break
    return {p: d for p, d in out.items() if len(d) >= 2 and {"t", "p", "ci", "lo"} & set(d)}


def chain(x):
    d = {}
    while x.op == "setitem" and is_str(x.a[1]):
        d.setdefault(cval(x.a[1]), x.a[2])
        x = x.a[0]
    return d, x


def records(ts):
    """(kind, term, {field: term}) for instances, dict literals and keyed updates."""
    all_ = reach(ts)
    inner = {x.a[0].id for x in all_ if x.op == "setitem" and is_str(x.a[1])}
    for x in all_:
        if x.op == "new":
            yield x.a[0].split(".")[-1], x, {f.a[0]: f.a[1] for f in x.a[1:]}
        elif x.op == "dict" and x.id not in inner:
            d = {cval(k.a[0]): k.a[1] for k in x.a if k.op == "kv" and is_str(k.a[0])}
            if d:
                yield "record", x, d
        elif x.op == "setitem" and is_str(x.a[1]) and x.id not in inner:
            d, base = chain(x)
            if base.op == "dict":
                for k in base.a:
                    if k.op == "kv" and is_str(k.a[0]):
                        d.setdefault(cval(k.a[0]), k.a[1])
            elif len(d) > 1:
                # partial update: the estimate is the record's own
                for e in EST:
                    d.setdefault(e, mk("idx", base, const(e)))
                yield "update", x, d
                continue
            yield "record", x, d


def deflt(t):
    """A field copied from an existing record or object."""
    while t.op in ("attr", "idx"):
        t = t.a[0]
        if t.op in ("elem",):
            return True
    return t.op == "param" and (t.a[0] == "self" or t.a[0].startswith("self.")) or t.op == "param"


WRAP = {"builtins.float", "numpy.float64"}


def strip(N, t):
    t = N.res(t)
    while t.op == "call" and t.a[0] in WRAP and len(t.a) == 2 and type(t.a[1]) is T:
        t = N.res(t.a[1])
    return t


def solve(fields, m, alphas, cap=3000, cut=True, then=None):
    """One (condition keys, dict) per world: polynomials for est, se, t, p, lo, hi.  The estimate and the standard error are
    atoms (cut) unless cut is False."""
    g = {k: fields[m[k]] for k in m}

    def fn(N):
        o = {}
        for k, b in (("original_se", "S"), ("lb", "L"), ("ub", "U")):
            if "lo" in g and k in fields and "ub" in fields:
                t = strip(N, fields[k])
                if t.op not in ("c", "glob", "un"):
                    N.cuts[t.id] = Poly.atom((b,))
                o[k] = N.n(t)
        for k in ("se", "est"):
            if k in g:
                t = strip(N, g[k])
                o[k + "#"] = t
                if cut and t.op not in ("c", "glob"):
                    neg = t.op == "un" and t.a[0] == "-"
                    if not neg:
                        N.cuts[t.id] = Poly.atom(("E" if k == "est" else "S",))
        for k in ("se", "est", "t", "p", "lo", "hi"):
            if k in g:
                o[k] = N.n(g[k])
        if "ci" in g:
            ci = N.res(g["ci"])
            if ci.op in ("tuple", "list") and len(ci.a) == 2:
                o["lo"], o["hi"] = N.n(ci.a[0]), N.n(ci.a[1])
            else:
                o["ci?"] = ci
        if "lo" in o and "ci" not in g and "hi" not in o:
            del o["lo"]
        o["alpha"] = [N.n(a) for a in alphas]
        o["N"] = N
        if then is not None:
            o["world"] = N.world
            then(o)
        return o
    return worlds(fn, cap)


def ppf_of(half):
    """half-width = ppf-atom * rest -> (atom, rest poly) or None."""
    cand = None
    for k in half.m:
        here = {a for a, n in k if a[0] == "ppf" and n == 1}
        cand = here if cand is None else cand & here
    if not cand:
        return None
    a = sorted(cand, key=repr)[0]
    rest = Poly({tuple(x for x in k if x != (a, 1)): v for k, v in half.m.items()})
    if any(b[0] == "ppf" for b in rest.atoms()):
        return None
    return a, rest


def level(pk, alphas, offset):
    """pk: key of a probability polynomial.  True iff it equals offset + sign*alpha/2."""
    p = Poly(dict(pk[1:]))
    h = Fraction(1, 2)
    for a in alphas:
        if offset == 1 and p == Poly.const(1) - a * Poly.const(h):
            return True
        if offset == 0 and p == a * Poly.const(h):
            return True
    return False


def ptext(p, names):
    """Readable polynomial."""
    def at(a):
        if a == NANK:
            return "NaN"
        if a[0] == "t":
            return names(a[1])
        if a[0] in ("ppf", "sf"):
            return "%s.%s(%s)" % (a[1], a[0], ", ".join(pk(x) for x in a[2:]))
        if a[0] == "quantile":
            return "quantile(%s, %s)" % (at(a[1]), pk(a[2]))
        if a[0] in ("max", "min"):
            return "%s(%s)" % (a[0], ", ".join(pk(x) for x in a[1:]))
        if a[0] in ("sqrt", "abs", "inv"):
            return "%s(%s)" % (a[0], pk(("p",) + a[2:]))
        return str(a[0])

    def pk(k):
        s = []
        for mono, v in k[1:]:
            f = [at(a) + ("^%d" % n if n != 1 else "") for a, n in mono]
            if not f:
                s.append(str(v))
            else:
                s.append(("" if v == 1 else "-" if v == -1 else str(v) + "*") + "*".join(f))
        return " + ".join(s) or "0"
    return pk(p.key())[:300]


INF = glob("numpy.inf")


def infinite(t):
    """The t statistic is +-infinity in the branch the zero belongs to (exact fit)."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "glob" and x.a[0] in ("numpy.inf", "math.inf") or x.op == "c" and cval(x) == float("inf"):
            return True
        if x.op == "ite":
            todo += [x.a[1], x.a[2]]
        elif x.op in ("un", "bin", "call"):
            todo += [y for y in x.a if type(y) is T]
    return False


def two_sided(p):
    """p = 2*sf(|x|) -> (atom, polynomial of |x|)."""
    s, c = p.single()
    if s is not None and s[0] == "sf" and c == 2:
        return s, Poly(dict(s[2][1:]))
    return None


def absof(t):
    return Norm().abs(t)


def owner(t):
    """Where a record is built, for keys: class or function-independent text."""
    return t.a[0].split(".")[-1] if t.op == "new" else "record"


class Rec:
    """One inference record found in what an entry point returns, with its worlds."""
    def __init__(self, entry, kind, prefix, m, fields, term):
        self.entry, self.kind, self.prefix, self.m, self.fields, self.term = entry, kind, prefix, m, fields, term
        self.worlds, self.overflow = [], False

    def name(self):
        return "%s:%s%s" % (self.entry, self.kind, ":" + self.prefix if self.prefix else "")


def all_records(S):
    """Inference records of every public call (computed once per suite)."""
    if getattr(S, "_recs", None) is not None:
        return S._recs
    out, seen = [], set()
    for n, fn, cl in S.entries:
        r = S.res(n)
        own = r.params.get("alpha")
        al = [x for x in [own] if x is not None] + [mk("cfg", "alpha"), mk("param", "self.alpha")]
        al += [idx(x, const("alpha")) for x in r.params.values() if x.op in ("param",)]
        if "alpha" not in r.params:
            al += [x for x in reach(r.retterm) if x.op == "ite" and x.a[1].op == "idx" and x.a[1].a[0].op == "param" and x.a[1].a[1] is const("alpha")]
        for kind, x, d in records(r.retterm):
            if x.id in seen:
                continue
            seen.add(x.id)
            for p, m in sorted(tuples(d).items()):
                if all(deflt(d[v]) for v in m.values()):
                    continue
                rec = Rec(n, kind, p, m, d, x)
                rec.alphas = al
                try:
                    for w, o in solve(d, m, al):
                        o["world"] = w
                        if own is not None and not ungiven(own, w):
                            o["alpha"] = o["alpha"][:1] + o["alpha"][3:]
                        rec.worlds.append(o)
                except Overflow:
                    rec.overflow = True
                out.append(rec)
    S._recs = out
    return out


def ungiven(own, w):
    """The world in which the caller left alpha to the object."""
    for k, v in w.items():
        if k[0] == "t":
            x = byid(k[1])
            if x is own and not v:
                return True
            if x is not None and x.op == "is" and own in x.a and NONE in x.a and v:
                return True
    return False


def interval(o, estname=None):
    """('nan',) | ('analytic', dist, df, q, mid, half-scale) | ('quantile', ...) | ('point',) | ('?', text)"""
    if "lo" not in o:
        return ("?", show(o["ci?"], 3)) if "ci?" in o else None
    lo, hi = o["lo"], o["hi"]
    if lo.isnan() and hi.isnan():
        return ("nan",)
    h = Poly.const(Fraction(1, 2))
    half, mid = (hi - lo) * h, (hi + lo) * h
    pf = ppf_of(half)
    if pf:
        return ("analytic", pf[0], mid, pf[1])
    a, c = lo.single()
    b, d = hi.single()
    if a and b and a[0] == b[0] == "quantile":
        return ("quantile", a, b)
    if lo == hi:
        return ("point", lo)
    if any(x[0] in ("ppf", "quantile") for x in lo.atoms() | hi.atoms()):
        return ("bad", "(%s, %s)" % (txt(lo), txt(hi)))
    return ("?", "(%s, %s)" % (txt(lo), txt(hi)))


def txt(p):
    return ptext(p, lambda i: "x%d" % i)


E, SE, L, U = (Poly.atom((x,)) for x in "ESLU")
HALF = Poly.const(Fraction(1, 2))


def names_est(x):
    """A read of an estimate from an existing record."""
    return x.op in ("idx", "attr") and (cval(x.a[1]) if type(x.a[1]) is T and is_str(x.a[1]) else x.a[1]) in EST + ["overall_att", "avg_att", "att"]


def outside(o, pk):
    """A level other than 1 - alpha/2 (offset 1) or alpha/2 (offset 0)."""
    return not (level(pk, o["alpha"], 1) or level(pk, o["alpha"], 0))


def judge(rec, o, terms=None):
    """(property, rule, text) for every departure; also yields (None, kind, '') for decided obligations."""
    est, se, t, p = o.get("est"), o.get("se"), o.get("t"), o.get("p")
    i = interval(o)
    kind = i[0] if i else None
    zero = se is not None and (se.isnan() or se.isconst() and se.value() <= 0)
    pts = []
    if i is not None and "lb" in o and "ub" in o:
        if o["lo"].isnan() and o["hi"].isnan():
            return
        # identified set: each bound moved outwards by the same critical value times standard error
        a, b = ppf_of(o["lb"] - o["lo"]), ppf_of(o["hi"] - o["ub"])
        if a is None or b is None:
            if o["lb"].single()[0] == ("L",) and o["ub"].single()[0] == ("U",) and not (o["lo"].atoms() | o["hi"].atoms()) - {("L",), ("U",)} - {x for x in o["lo"].atoms() | o["hi"].atoms() if x[0] == "t"}:
                pass
            return
        yield None, "bounds", ""
        for x, nm in ((a, "lower"), (b, "upper")):
            if outside(o, x[0][2]):
                yield "C13", "level", "the %s endpoint uses the critical value %s" % (nm, txt(Poly.atom(x[0])))
            elif not level(x[0][2], o["alpha"], 1):
                yield "C13", "orientation", "the %s endpoint is moved inwards (%s)" % (nm, txt(o["lo"] if nm == "lower" else o["hi"]))
        if a != b:
            yield "C14", "asymmetric", "the two endpoints use different half-widths: %s, %s" % (txt(o["lb"] - o["lo"]), txt(o["hi"] - o["ub"]))
        elif "original_se" in o and a[1] != o["original_se"] and "('S',)" in repr(a[1].key()):
            yield "C14", "halfwidth", "the bounds are widened by the critical value times %s, not times the reported standard error" % txt(a[1])
        return
    if kind == "analytic":
        at, mid, half = i[1:]
        yield None, "analytic", ""
        if not level(at[2], o["alpha"], 1):
            yield "C13", "level", "the interval's critical value is %s, not the 1 - alpha/2 point" % txt(Poly.atom(at))
        neg = half.lead() < 0
        if est is not None and not est.isconst() and mid != est:
            yield "C14", "midpoint", "the interval is centred on %s, not on the reported estimate" % txt(mid)
        if se is not None and not zero and half != se:
            if half == -se:
                yield "C13", "orientation", "the lower endpoint is the upper one"
            else:
                yield "C14", "halfwidth", "the interval's half-width is the critical value times %s, not times the reported standard error" % txt(half)
        elif neg and half.single()[0] == ("S",):
            yield "C13", "orientation", "the lower endpoint is the upper one"
    elif kind == "quantile":
        a, b = i[1:]
        yield None, "quantile", ""
        if a[1] != b[1]:
            yield "C13", "distribution", "the two endpoints are quantiles of different distributions"
        la, lb = level(a[2], o["alpha"], 0), level(b[2], o["alpha"], 1)
        if not (la and lb):
            if level(a[2], o["alpha"], 1) and level(b[2], o["alpha"], 0):
                yield "C13", "orientation", "the lower endpoint is the upper quantile"
            else:
                yield "C13", "level", "the endpoints are the quantiles %s and %s, not alpha/2 and 1 - alpha/2" % (txt(Poly(dict(a[2][1:]))), txt(Poly(dict(b[2][1:]))))
    elif kind == "point":
        yield None, "point", ""
        if not zero and est is not None and i[1].isconst():
            yield "C15", "interval", "the interval is the constant %s" % txt(i[1])
        elif not zero and se is not None and se.single()[0] == ("S",):
            yield "C13", "level", "the interval is the single point %s although the standard error is not zero" % txt(i[1])
        elif zero and se.isnan():
            yield "C15", "interval", "the interval is (%s, %s) although the standard error is undefined" % (txt(i[1]), txt(i[1]))
    elif kind == "bad":
        yield "C13", "level", "the endpoints %s are not estimate -/+ one critical value times one standard error" % i[1]
    elif kind == "?" and "lo" in o:
        # endpoints built from the reported estimate and standard error with no critical value of any distribution
        a = o["lo"].atoms() | o["hi"].atoms()
        if ("S",) in a and not o["lo"].isnan() and not o["hi"].isnan() and ("E",) in a:
            yield None, "analytic", ""
            yield "C13", "level", "the endpoints %s do not depend on alpha" % i[1]
    # ---- t and p
    inft = t is not None and "t" in rec.m and infinite(rec.fields[rec.m["t"]])
    if t is not None:
        if t.isnan():
            yield None, "undefined t", ""
        elif t.isconst() or t.single()[0] == ("inf",):
            if not inft and not (se is not None and not zero and est is not None and est.isconst() and t * se == est):
                yield "C15", "t", "the t statistic is the constant %s where the standard error is zero or undefined" % txt(t)
        elif se is not None and zero:
            if not inft:
                yield "C15", "t", "the t statistic is %s where the standard error is %s" % (txt(t), "undefined" if se.isnan() else txt(se))
        elif se is not None and est is not None and not est.isconst():
            if t == est.div(se):
                yield None, "ratio", ""
                if se == SE and not guarded(o):
                    yield "C15", "unguarded", "the reported estimate is divided by the reported standard error on a path where that may be zero"
            else:
                a = t.atoms()
                if ("E",) in a or ("S",) in a and t * se != t and not _numer(t, se, terms):
                    yield "C14", "t", "the t statistic is %s, not the reported estimate over the reported standard error" % txt(t)
    if p is not None:
        ts = two_sided(p)
        sf = [a for a in p.atoms() if a[0] == "sf"]
        inner = [a for a in p.atoms() if a[0] in ("max", "min") and "'sf'" in repr(a)]
        if p.isnan():
            yield None, "undefined p", ""
        elif p.isconst():
            yield "C15", "p", "the p-value is the constant %s" % txt(p)
        elif t is not None and t.isnan() and (sf or inner):
            yield "C15", "p", "the p-value is %s where the t statistic is undefined" % txt(p)
        elif rec.prefix in ("lower", "upper"):
            if sf and t is not None and not t.isnan():
                yield None, "one-sided", ""
                s = sf[0]
                k = Poly.atom(s)
                x = Poly(dict(s[2][1:]))
                up = k if x == t else Poly.const(1) - k if x == -t else None
                if len(sf) > 1 or up is None or p != (up if rec.prefix == "lower" else Poly.const(1) - up):
                    yield "C14", "p", "the one-sided p-value is %s for the statistic %s" % (txt(p), txt(t))
        elif sf or inner:
            if ts is None:
                yield "C14", "p", "the p-value is %s, not two-sided" % txt(p)
            else:
                yield None, "two-sided", ""
                if t is not None and not inft and ts[1] != absof(t):
                    yield "C14", "p", "the p-value is that of %s, not of the reported t statistic %s" % (txt(ts[1]), txt(t))
                if kind == "analytic":
                    at = i[1]
                    if (at[1], at[3:]) != (ts[0][1], ts[0][3:]):
                        yield "C14", "reference", "the p-value uses the %s distribution%s and the interval the %s distribution%s" % (
                            ts[0][1], _df(ts[0]), at[1], _df(at))


def _df(a):
    return " with %s degrees of freedom" % txt(Poly(dict(a[3][1:]))) if len(a) > 3 else ""


def guarded(o):
    """The world's conditions exclude a zero standard error."""
    se = o["se#"]
    for k, v in o["world"].items():
        if k[0] == "pos" and v and any(a == ("S",) for mono, _ in k[2:] for a, n in mono):
            return True
        if k[0] == "t":
            x = byid(k[1])
            if x is not None and any(y is se for y in reach(x, control=False)):
                return True
    return False


def _numer(t, se, terms):
    """t = x / se with x an estimate read elsewhere (the same record before its update, the original effect)."""
    x = t * se
    s, c = x.single()
    return s is not None and c == 1 and s[0] == "t"


def origin(t, seen=None):
    """Loop states, and versions of them, that a keyed collection is."""
    seen = set() if seen is None else seen
    if t.id in seen or len(seen) > 200:
        return seen
    seen.add(t.id)
    if t.op == "mu":
        for x in (t.init, t.next):
            if x is not None:
                origin(x, seen)
    elif t.op == "ite":
        origin(t.a[1], seen)
        origin(t.a[2], seen)
    elif t.op == "setitem":
        origin(t.a[0], seen)
    return seen


def versions(t, d=None, n=0):
    """({field: value}, record) for every way the updates of a record can have gone."""
    d = d or {}
    if n > 24:
        return
    if t.op == "ite":
        yield from versions(t.a[1], d, n + 1)
        yield from versions(t.a[2], d, n + 1)
    elif t.op == "setitem" and is_str(t.a[1]):
        k = cval(t.a[1])
        for v in (leaves(t.a[2]) if k not in d else [None]):
            yield from versions(t.a[0], d if v is None else dict(d, **{k: v}), n + 1)
    elif d:
        yield d, t


def leaves(t, d=0):
    if t.op == "ite" and d < 6:
        return leaves(t.a[1], d + 1) + leaves(t.a[2], d + 1)
    return [t]


def written(ret):
    """What a loop's iteration leaves stored under a key of a collection (last write per key)."""
    out = set()
    for mu in reach(ret):
        if mu.op != "mu" or mu.next is None:
            continue
        todo, seen = [(mu.next, None)], set()
        while todo:
            t, k = todo.pop()
            if (t.id, k) in seen or len(seen) > 400:
                continue
            seen.add((t.id, k))
            if t.op == "ite":
                todo += [(t.a[1], k), (t.a[2], k)]
            elif t.op == "setitem" and not is_const(t.a[1]):
                if t.a[1].id != k:
                    out.add(t)
                todo.append((t.a[0], t.a[1].id))
    return out


def stale(S, c):
    """A stored standard error is replaced and the numbers computed from the old one stay."""
    for n, fn, cl in S.entries:
        ret = S.res(n).retterm
        ups, all_ = [], None
        for x in written(ret):
            for d, base in versions(x.a[2]):
                if "se" in d and base.op == "idx" and d["se"].id != idx(base, const("se")).id:
                    ups.append((x, d, base))
        for x, d, base in ups:
            all_ = all_ or reach(ret)
            c.ob("updated records", "%s:%s" % (n, show(base.a[0], 2)))
            had = set()
            for y in reach([base]):
                if y.op == "dict":
                    ks = {cval(k.a[0]) for k in y.a if k.op == "kv" and is_str(k.a[0])}
                    if "se" in ks:
                        had |= ks
            for f in ("t_stat", "p_value", "conf_int"):
                if f in d and d[f] is not idx(base, const(f)) or f not in had:
                    continue
                o = {i for i in origin(base.a[0]) if byid(i) is not None and byid(i).op == "mu"}
                if any(y.op == "setitem" and y.a[1] is const(f) and chain(y)[1].op == "idx" and (origin(chain(y)[1].a[0]) & o) for y in all_):
                    continue
                c.find("%s:%s:stale" % (n, f), "%s: the standard error of a stored effect is replaced but its %s is the one computed from the old standard error" % (n, f),
                       where=n, path="%s updates %s only" % (show(base, 3), sorted(d)))


def check(S, c, prop, floors):
    """Report the departures of one of the three interval/coherence properties."""
    S = S.python()
    for r in all_records(S):
        if r.overflow:
            c.undecide("%s: too many branch combinations" % r.name())
            continue
        c.ob("records", r.name())
        for o in r.worlds:
            i = interval(o)
            if i and i[0] == "?":
                c.undecide("%s: endpoints %s" % (r.name(), i[1][:120]))
            for p, rule, text in judge(r, o):
                if p is None:
                    c.ob(rule, r.name())
                    c.sample("%s: %s" % (r.name(), rule))
                elif p == prop:
                    c.find("%s:%s" % (r.name(), rule), "%s: %s" % (r.name(), text), where=r.name(), path=cond_text(o))
    if prop == "C14":
        stale(S, c)
    c.notes["worlds judged"] = sum(len(r.worlds) for r in all_records(S))
    for k, n in floors.items():
        c.floor(k, n)


def cond_text(o):
    out = []
    for k, v in o["world"].items():
        if k[0] == "t":
            x = byid(k[1])
            out.append("%s is %s" % (show(x, 3) if x is not None else "x%d" % k[1], v))
        else:
            out.append("%s(%s) is %s" % (k[0], txt(Poly(dict(k[2:]))) if k[1] == "p" else k[1], v))
    return "where " + "; ".join(out)[:600]
