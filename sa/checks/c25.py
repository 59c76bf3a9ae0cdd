"""C25: the Goodman-Bacon decomposition is computed from the documented cells of the panel, for every pair of timing groups."""
from fractions import Fraction
from ..terms import *
from ..alg import Poly
from ..entry import analyze
from ..interp import Interp
from ..masks import lookup
from ..tens import Open, args_of
from ..cells import Cells, Rat, P as A, INF

TYPES = ("treated_vs_never", "earlier_vs_later", "later_vs_earlier")
FIT = "BaconDecomposition.fit"
par = lambda n: mk("param", n)


def fields(t):
    return {x.a[0]: x.a[1] for x in t.a if type(x) is T and x.op == "f"}


def sites(t):
    """[(term of the comparison, conditions under which it is appended)] of a list built by appending."""
    out, seen, bad = [], set(), []

    def items(x, cs):
        if x.op == "ite":
            items(x.a[1], cs + [x.a[0]])
            items(x.a[2], cs + [neg(x.a[0])])
        elif x.op == "new":
            out.append((x, cs))
        elif x is not NONE:
            bad.append(x)

    def walk(x, cs):
        if x.op == "append":
            walk(x.a[0], cs)
            items(x.a[1], cs)
        elif x.op == "ite":
            walk(x.a[1], cs + [x.a[0]])
            walk(x.a[2], cs + [neg(x.a[0])])
        elif x.op == "mu":
            if x.id not in seen:
                seen.add(x.id)
                walk(x.init, cs)
                if x.next is not None:
                    walk(x.next, cs)
        elif x.op == "list":
            for y in x.a:
                items(y, cs)
        elif x.op == "bin" and x.a[0] == "+":
            walk(x.a[1], cs)
            walk(x.a[2], cs)
        elif x.op == "call" and x.a[0] in ("builtins.list", "builtins.tuple"):
            walk(x.a[1], cs)
        elif x.op == "comp":
            cc = [y for z in x.a if type(z) is T and z.op == "conds" for y in z.a]
            it = [z for z in x.a if type(z) is T and z.op == "iters"]
            if x.a[1].op == "elem" and it and x.a[1].a[0] is it[0].a[0]:
                n = len(out)
                walk(it[0].a[0], cs)
                for i in range(n, len(out)):
                    s, q = out[i]
                    out[i] = s, q + [subst(y, {x.a[1]: s}) for y in cc]
            else:
                items(x.a[1], cs + cc)
        else:
            bad.append(x)
    walk(t, [])
    return out, bad


def cohort_loop(x):
    """How a group variable runs: (kind, collection, depth)."""
    if x.op == "idx" and x.a[1].op == "elem":
        r = x.a[1].a[0]
        if r.op == "call" and r.a[0] == "builtins.range":
            pos, kw = args_of(r)
            tg = x.a[0]
            ln = mk("call", "builtins.len", tg)
            if len(pos) == 1 and pos[0] is ln:
                return "each", tg, x.a[1]
            if len(pos) == 2 and pos[1] is ln and pos[0].op == "bin" and pos[0].a[0] == "+" and is_const(pos[0].a[2]):
                k = cval(pos[0].a[2])
                return ("after" if k == 1 else "from" if k == 0 else "?"), tg, pos[0].a[1]
            if len(pos) == 2 and pos[1] is ln and pos[0].op in ("elem",):
                return "from", tg, pos[0]
        if r.op == "call" and r.a[0] == "itertools.combinations":
            return "pair", r.a[1], x.a[1]
    if x.op == "idx" and is_const(x.a[1]) and x.a[0].op == "elem" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "itertools.combinations":
        return "first" if cval(x.a[1]) == 0 else "second", x.a[0].a[0].a[1], x.a[0]
    if x.op != "elem":
        raise Open("group variable " + show(x, 2)[:60])
    c, d = x.a[0], x.a[1]
    if c.op == "idx" and c.a[1].op == "slice":
        lo, hi, st = c.a[1].a
        if hi is NONE and st is NONE and lo.op == "bin" and lo.a[0] == "+" and lo.a[1].op == "pos" and lo.a[1].a[0] is c.a[0] and is_const(lo.a[2]):
            k = cval(lo.a[2])
            return ("after" if k == 1 else "from" if k == 0 else "?"), c.a[0], lo.a[1].a[1]
        if hi is NONE and st is NONE and lo.op == "pos" and lo.a[0] is c.a[0]:
            return "from", c.a[0], lo.a[1]
        if lo in (NONE, const(0)) and st is NONE and hi.op == "pos" and hi.a[0] is c.a[0]:
            return "before", c.a[0], hi.a[1]
        if hi is not NONE and st is NONE and all(y is NONE or any(z.op == "pos" and z.a[0] is c.a[0] for z in reach([y])) for y in (lo, hi)):
            return "window", c.a[0], d
        raise Open("slice of the timing groups")
    return "each", c, d


def allowed(a, b, va, vb):
    """Whether the loops run over the pair of values (va, vb)."""
    (ka, ca, da), (kb, cb, db) = a, b
    if ca is not cb:
        raise Open("two lists of timing groups")
    ok = {("each", "after"): va < vb, ("after", "each"): vb < va, ("each", "from"): va <= vb, ("from", "each"): vb <= va,
          ("each", "before"): vb < va, ("before", "each"): va < vb, ("first", "second"): va < vb, ("second", "first"): vb < va}
    if (ka, kb) in ok:
        return ok[ka, kb]
    if ka == kb == "each" and da is not db:
        return True
    raise Open("loops over pairs (%s, %s)" % (ka, kb))


class World:
    """One order type of the panel: which cohorts and periods there are, and the values of the group variables."""

    def __init__(self, b, cohorts, times, names):
        self.k = Cells(cohorts, times, b.roles, names, self.hook)
        self.b = b
        self.comp = None

    def hook(self, x):
        if x.op == "attr" and x.a[0].id in self.b.elems and self.comp and x.a[1] in self.comp:
            v = self.comp[x.a[1]]
            return v if type(v) is not T else None
        if x.op == "fcall" or x.op == "call" and x.a[0] in ("builtins.sum", "numpy.sum") and any(y.id in self.b.elems for y in reach([x])):
            return None
        return None

    def holds(self, conds):
        for q in conds:
            if not self.k.truth(q):
                return False
        return True


class Bacon:
    def __init__(self, c, r, f, mode):
        self.c, self.r, self.f, self.mode = c, r, f, mode
        self.roles = {par("time"): "time", par("first_treat"): "cohort", par("unit"): "unit", par("outcome"): "outcome"}
        self.scale = {}
        self.comps = f["comparisons"]
        while self.comps.op == "call" and self.comps.a[0] in ("builtins.list", "builtins.tuple"):
            self.comps = self.comps.a[1]
        self.elems = {x.id for e in r.events if e.kind == "mutate" and e.d.get("val") is not None for x in [e.d["obj"]] if x.op == "elem"}
        self.elems |= {x.id for x in reach([f[n] for n in f]) if x.op == "elem" and x.a[0] is self.comps}
        self.elems |= {x.id for e in r.events if e.kind == "mutate" and type(e.d.get("val")) is T for x in reach([e.d["val"]])
                       if x.op == "elem" and x.a[0] is self.comps}

    def sums(self, cell, cells):
        """rows and total outcome over a set of cells."""
        n = Rat.of(0)
        y = Rat.of(0)
        for q in cells:
            y = y + A("y", q[0], q[1])
        tot = lambda k, vs: sum((A(k, v) for v in vs), Rat.of(0))
        return tot("n", {q[0] for q in cells}) * tot("p", {q[1] for q in cells}), y

    def expected(self, kind, g, h, C, Ts):
        """Documented numbers of the comparison; None if it is not defined."""
        if kind == "treated_vs_never":
            ctl = [q for q in C if q in (0, INF)]
            pre, post = [t for t in Ts if t < g], [t for t in Ts if t >= g]
        elif kind == "earlier_vs_later":
            ctl = [h] if h in C else []
            pre, post = [t for t in Ts if t < g], [t for t in Ts if g <= t < h]
        else:
            ctl = [h] if h in C else []
            pre, post = [t for t in Ts if h <= t < g], [t for t in Ts if t >= g]
        if not ctl or g not in C or not pre or not post:
            return None

        def mean(cs, ts):
            n, y = self.sums(None, [(c, t) for c in cs for t in ts])
            return y * n.inv()
        est = (mean([g], post) - mean([g], pre)) - (mean(ctl, post) - mean(ctl, pre))
        tot = lambda k, vs: sum((A(k, v) for v in vs), Rat.of(0))
        nk, nl = A("n", g), tot("n", ctl)
        p0, p1, pa = tot("p", pre), tot("p", post), tot("p", Ts)
        one = Rat.of(1)
        sh = nk * (nk + nl).inv()
        D = p1 * (p0 + p1).inv()
        v = sh * (one - sh) * D * (one - D)
        na = tot("n", C)
        if self.mode == "exact":
            q = (nk + nl) * (p0 + p1) * (na * pa).inv()
            w = q * q * v
        else:
            w = v if kind == "treated_vs_never" else v * (p0 + p1) * pa.inv()
        return {"estimate": est, "weight": w, "n_treated": nk, "n_control": nl}

    # ---- the list of comparisons
    def run(self):
        c = self.c
        ss, bad = sites(self.comps)
        if bad or not ss:
            c.undecide("%s: list of comparisons not read (%s)" % (self.mode, show(bad[0], 2)[:80] if bad else ""))
            return
        never, pairs = [], []
        for s, conds in ss:
            f = fields(s)
            try:
                x = f["treated_group"]
                y = f["control_group"]
                if is_const(y):
                    if cval(y) != "never_treated":
                        c.find("control:%s" % cval(y), "a comparison has control group %r" % cval(y), where=FIT)
                    never.append((s, conds, f, cohort_loop(x)))
                else:
                    pairs.append((s, conds, f, cohort_loop(x), cohort_loop(y)))
            except Open as e:
                c.undecide("%s: %s" % (self.mode, e))
                return
        self.loops = {q[3][1] for q in never} | {q[3][1] for q in pairs} | {q[4][1] for q in pairs}
        for tg in self.loops:
            self.groups(tg)
        gs = (0, INF, 9, 10, 11)
        for tag, Cs, Ts in (("", gs, (8, 9, 10, 11, 12)), ("no pre-period", gs, (10, 11, 12)), ("no post-period", gs, (8, 9)),
                            ("no never-treated units", (9, 10, 11), (8, 9, 10, 11)), ("never treated coded 0", (0, 10), (9, 10, 11)),
                            ("never treated coded inf", (INF, 10), (9, 10, 11))):
            self.world(tag, Cs, Ts, [(q, conds, f, {f["treated_group"].id: 10}) for q, conds, f, l in never if l[0] == "each"], {"treated_vs_never": (10, None)},
                       [l for q, conds, f, l in never if l[0] != "each"])
        for q in pairs:
            if "window" in (q[3][0], q[4][0]):
                c.find("pairs", "only some pairs of timing groups are compared", where=FIT)
                return
        gs = (0, INF, 9, 10, 15, 20, 21)
        for tag, Cs, Ts in (("", gs, (8, 9, 10, 11, 15, 19, 20, 21)), ("no period before the earlier group", gs, (10, 15, 20, 21)),
                            ("no period between", gs, (8, 9, 20, 21)), ("no period after the later group", gs, (9, 10, 19)),
                            ("only the two groups", (10, 20), (9, 10, 19, 20))):
            live = []
            for q, conds, f, a, b in pairs:
                for va, vb in ((10, 20), (20, 10), (10, 10)):
                    try:
                        if not allowed(a, b, va, vb):
                            continue
                    except Open as e:
                        c.undecide("%s: %s" % (self.mode, e))
                        continue
                    if va == vb:
                        try:
                            if not World(self, Cs, Ts, {f["treated_group"].id: va, f["control_group"].id: vb}).holds(conds):
                                continue
                        except Open:
                            continue
                        c.find("itself", "a timing group is compared with itself", where=FIT)
                        continue
                    live.append((q, conds, f, {f["treated_group"].id: va, f["control_group"].id: vb}))
            self.world(tag, Cs, Ts, live, {"earlier_vs_later": (10, 20), "later_vs_earlier": (20, 10)}, [])

    def groups(self, tg):
        C = (0, INF, 1, 9, 10)
        w = Cells(C, (8, 9, 10), self.roles, {})
        try:
            k, m = w.members(tg)
        except Open as e:
            self.c.undecide("timing groups: %s" % e)
            return
        if k == "cohort" and m == {1, 9, 10}:
            self.c.ob("groups", tg.id)
        else:
            self.c.find("timing groups", "of first-treatment periods %s the timing groups are %s" % (sorted(C), sorted(m)), where=FIT)
        t = tg
        while t.op == "call" and t.a[0] in ("builtins.list", "builtins.tuple", "numpy.asarray", "numpy.array"):
            t = t.a[1]
        if t.op == "call" and t.a[0] in ("builtins.sorted", "numpy.sort", "numpy.unique") and not any(type(x) is T and x.op == "kw" for x in t.a[1:]):
            self.c.ob("groups", ("sorted", tg.id))
        elif t.op == "comp":
            self.c.find("timing groups unsorted", "the timing groups are walked in the order they occur in the data", where=FIT)
        else:
            self.c.undecide("order of the timing groups")

    def world(self, tag, C, Ts, live, want, odd):
        c = self.c
        if odd:
            c.undecide("loop over the timing groups")
            return
        full = "%s, %s" % (self.mode, tag or "all periods and groups present")
        got = {}
        for s, conds, f, names in live:
            w = World(self, C, Ts, names)
            try:
                ps = []
                for pt in ("apart", "ones"):
                    w.k.point, w.k.memo = pt, {}
                    ps.append(w.holds(conds))
                w.k.point, w.k.memo = None, {}
                if ps[0] and not ps[1] and self.could(*([x for x in want if self.could(x, f, names, want)][:1] or [next(iter(want))]), f, names, want):
                    k = [x for x in want if self.could(x, f, names, want)][0]
                    if self.expected(k, *want[k], C, Ts) is not None:
                        c.find("dropped:%s:%s" % (k, tag), "[%s] a %s comparison is left out of a panel with one unit and one period of each kind" % (full, k), where=FIT)
                if not any(ps):
                    continue
                kind = f["comparison_type"]
                if not is_str(kind):
                    kind = kind.a[1] if kind.op == "ite" and w.k.truth(kind.a[0]) else kind.a[2] if kind.op == "ite" else kind
                if not is_str(kind):
                    raise Open("comparison type")
            except Open as e:
                c.undecide("%s: %s" % (full, e))
                for k in want:
                    if self.could(k, f, names, want):
                        got.setdefault(k, []).append(None)
                continue
            k = cval(kind)
            v = names.get(f["treated_group"].id)
            h = names.get(f["control_group"].id)
            right = [n for n, gh in want.items() if gh == (v, h)]
            if right != [k]:
                c.find("type:" + k, "[%s] a comparison of group %s with %s is labelled %s" % (full, v, h or "never treated", k), where=FIT)
                continue
            got.setdefault(k, []).append((s, f, w, v, h))
        for k, (g, h) in want.items():
            e = self.expected(k, g, h, C, Ts)
            have = got.get(k, [])
            if None in have:
                continue
            if e is None:
                if have:
                    c.find("undefined:%s:%s" % (k, tag), "[%s] a %s comparison is reported although it has no pre- or no post-period or no control units" % (full, k), where=FIT)
                else:
                    c.ob("presence", (self.mode, k, tag))
                continue
            if len(have) != 1:
                c.find("missing:%s:%s" % (k, tag), "[%s] %d %s comparisons are made of a pair that has one" % (full, len(have), k), where=FIT)
                continue
            c.ob("presence", (self.mode, k, tag))
            self.numbers(full, tag, k, have[0], e)

    def could(self, k, f, names, want):
        return want[k] == (names.get(f["treated_group"].id), names.get(f["control_group"].id))

    def numbers(self, full, tag, k, have, e):
        c = self.c
        s, f, w, g, h = have
        for n in ("estimate", "n_treated", "n_control", "weight"):
            try:
                x = self.weight(w, k, f, g, h) if n == "weight" else w.k.rat(f[n])
            except Open as o:
                c.undecide("%s %s of %s: %s" % (full, n, k, o))
                continue
            ok = x == e[n]
            if not ok and n == "weight":
                # any scale common to all comparisons
                na = sum((A("n", v) for v in w.k.C), Rat.of(0))
                pa = sum((A("p", v) for v in w.k.T), Rat.of(0))
                q = x * e[n].inv()
                q = Rat.make(Fraction(1), q.f)
                for p in list(na.f) + list(pa.f):
                    q.f.pop(p, None)
                if not q.f:
                    f = x * e[n].inv()
                    f = (f.c, tuple(sorted(((p == next(iter(pa.f)), n_) for p, n_ in f.f.items()))))
                    ok = self.scale.setdefault((self.mode, tag), f) == f
            if ok:
                c.ob(n, (self.mode, k, tag))
            else:
                c.find("%s:%s" % (n, k), "[%s] the %s of a %s comparison (treated from %s, control %s) is %s, documented %s"
                       % (full, n, k, g, h or "never treated", words(x), words(e[n])), where=FIT)

    def weight(self, w, k, f, g, h):
        """The weight a comparison has when the weights are normalised: its own, or the last one stored before that."""
        v = f["weight"]
        w.comp = {"treated_group": g, "control_group": h if h is not None else "never_treated", "comparison_type": k, "weight": A("w"), "estimate": A("e")}
        x = None
        w.k.point = "apart"
        for i, e in enumerate(self.r.events):
            if e.kind != "mutate" or e.d.get("how") != ".weight=" or e.d["obj"].id not in self.elems:
                continue
            if self.normalising(e):
                break
            hold = True
            for q in e.pc:
                if any(y.id in self.elems for y in reach([q[0]])) or w_related(q[0]):
                    if w.k.truth(q[0]) != q[1]:
                        hold = False
                        break
            if hold:
                x = e.d["val"]
        w.k.point = None
        r = w.k.rat(x) if x is not None else w.k.rat(v)
        w.comp = None
        return r

    def normalising(self, e):
        return any(y.op == "call" and y.a[0] in ("builtins.sum", "numpy.sum", "math.fsum") for y in reach([e.d["val"]], stop=lambda z: z is self.comps)) \
            or any(y.op == "mu" and y is not self.comps for y in reach([e.d["val"]], stop=lambda z: z is self.comps))

    # ---- totals over the comparisons
    def over(self, t):
        while t.op == "call" and t.a[0] in ("builtins.list", "builtins.tuple"):
            t = t.a[1]
        return t is self.comps

    def cond(self, q, k):
        """Truth of a condition on the type of a comparison."""
        v = truth(q)
        if v is not None:
            return v
        if q.op == "not":
            return not self.cond(q.a[0], k)
        if q.op in ("and", "or"):
            r = [self.cond(y, k) for y in q.a]
            return all(r) if q.op == "and" else any(r)
        if q.op == "eq":
            x = [k if self.type(y) else cval(y) if is_const(y) else None for y in q.a]
            if None not in x:
                return x[0] == x[1]
        if q.op == "in" and self.type(q.a[0]) and q.a[1].op in ("list", "tuple", "set"):
            return k in [cval(y) for y in q.a[1].a]
        raise Open("condition on comparisons")

    def type(self, y):
        return y.op == "attr" and y.a[1] == "comparison_type" and y.a[0].op == "elem" and self.over(y.a[0].a[0])

    def each(self, x, k):
        """Summand as a polynomial in w_k, e_k of the comparison."""
        o, a = x.op, x.a
        if o == "attr" and a[0].op == "elem" and self.over(a[0].a[0]) and a[1] in ("weight", "estimate"):
            return Rat(Poly.atom((a[1],)))
        if is_const(x) and isinstance(cval(x), (int, float)):
            return Rat.of(cval(x))
        if o == "bin" and a[0] in "+-*/":
            p, q = self.each(a[1], k), self.each(a[2], k)
            return p + q if a[0] == "+" else p - q if a[0] == "-" else p * q if a[0] == "*" else p * q.inv()
        if o == "ite":
            return self.each(a[1] if self.cond(a[0], k) else a[2], k)
        raise Open("summand " + show(x, 2)[:60])

    def summed(self, x, k):
        """Σ over the comparisons of one type, by monomial."""
        p = self.each(x, k)
        r = Rat.of(0)
        for m, co in p.poly().m.items():
            r = r + Rat(Poly({(((("S", k, m)), 1),): co}))
        return r

    def agg(self, x):
        o, a = x.op, x.a
        if x is self.f["twfe_estimate"]:
            return A("twfe")
        if is_const(x) and isinstance(cval(x), (int, float)):
            return Rat.of(cval(x))
        if o == "bin" and a[0] in "+-*/":
            p, q = self.agg(a[1]), self.agg(a[2])
            return p + q if a[0] == "+" else p - q if a[0] == "-" else p * q if a[0] == "*" else p * q.inv()
        if o == "call" and a[0] in ("builtins.sum", "numpy.sum", "math.fsum") and len(a) == 2 and a[1].op == "comp":
            return self.compsum(a[1])
        if o == "call" and a[0] in ("builtins.float", "numpy.float64"):
            return self.agg(a[1])
        if o == "call" and a[0] == "numpy.dot":
            return self.compsum(*[self.vec(y) for y in a[1:]])
        if o == "mu" and x.next is not None and x.cond is not None and self.over(x.cond):
            return self.accum(x, x.next, x.init)
        if o == "idx" and is_str(a[1]):
            d = a[0]
            if d.op == "mu" and d.next is not None and d.cond is not None and self.over(d.cond):
                init = idx(d.init, a[1])
                return self.agg(init) + self.dictacc(d, d.next, cval(a[1]))
            v = lookup(mk("idx", d, a[1])) if not d.op == "mu" else None
            if v is not None:
                return self.agg(v)
            if d.op == "comp" and d.a[0] == "dict":
                return self.agg(subst(d.a[1].a[1], {d.a[1].a[0]: a[1]}))
        raise Open("total " + show(x, 2)[:60])

    def vec(self, y):
        while y.op == "call" and y.a[0] in ("numpy.array", "numpy.asarray", "builtins.list"):
            y = y.a[1]
        if y.op != "comp":
            raise Open("vector")
        return y

    def compsum(self, *cs):
        r = Rat.of(0)
        for k in TYPES:
            x, live = None, True
            for cp in cs:
                it = [z for z in cp.a if type(z) is T and z.op == "iters"][0]
                if len(it.a) != 1 or not self.over(it.a[0]):
                    raise Open("sum over " + show(it, 2)[:40])
                for z in cp.a:
                    if type(z) is T and z.op == "conds":
                        live = live and all([self.cond(q, k) for q in z.a])
                x = cp.a[1] if x is None else mk("bin", "*", x, cp.a[1])
            if live:
                r = r + self.summed(x, k)
        return r

    def accum(self, mu, t, init):
        r = self.agg(init)
        for k in TYPES:
            x = t
            while x is not mu:
                if x.op == "ite":
                    x = x.a[1] if self.cond(x.a[0], k) else x.a[2]
                elif x.op == "bin" and x.a[0] in "+-":
                    y = self.summed(x.a[2], k)
                    r = r + y if x.a[0] == "+" else r - y
                    x = x.a[1]
                else:
                    raise Open("accumulation")
        return r

    def dictacc(self, mu, t, key):
        r = Rat.of(0)
        for k in TYPES:
            x = t
            while x is not mu:
                if x.op == "ite":
                    x = x.a[1] if self.cond(x.a[0], k) else x.a[2]
                elif x.op == "setitem":
                    kk = k if self.type(x.a[1]) else cval(x.a[1]) if is_str(x.a[1]) else None
                    if kk is None:
                        raise Open("key of a total")
                    if kk == key:
                        v = x.a[2]
                        if v.op == "bin" and v.a[0] == "+" and v.a[1].op == "idx" and v.a[1].a[1] is x.a[1]:
                            r = r + self.summed(v.a[2], k)
                        else:
                            raise Open("accumulation in a dict")
                    x = x.a[0]
                else:
                    raise Open("accumulation in a dict")
        return r

    def pieces(self, x, conds=()):
        """Branches of a value."""
        if x.op == "ite":
            yield from self.pieces(x.a[1], conds + ((x.a[0], True),))
            yield from self.pieces(x.a[2], conds + ((x.a[0], False),))
        elif x.op == "idx" and x.a[0].op == "mu" and is_str(x.a[1]) and x.a[0].cond is not None and self.keyed(x) is not None:
            yield from self.pieces(self.keyed(x), conds)
        elif x.op == "idx" and x.a[0].op == "mu" and not is_const(x.a[0]) and lookup(x) is not None:
            yield from self.pieces(lookup(x), conds)
        else:
            yield x, conds

    def keyed(self, x):
        """Entry of a dict filled in a loop over constant keys or the keys of another dict."""
        d, key = x.a
        it = d.cond
        if d.next is None or self.over(it):
            return None
        ks = None
        b = it
        if b.op == "call" and b.a[0] in ("builtins.list", "builtins.sorted"):
            b = b.a[1]
        if b.op == "m" and b.a[1] in ("keys",):
            b = b.a[0]
        if b.op == "mu":
            b = b.init
        if b.op == "dict":
            ks = [y.a[0] for y in b.a]
        elif b.op in ("list", "tuple"):
            ks = list(b.a)
        if not ks or key not in ks:
            return None

        def last(t):
            if t is d:
                return None
            if t.op == "ite":
                p, q = last(t.a[1]), last(t.a[2])
                return q if p is None else p if q is None else ite(t.a[0], p, q)
            if t.op == "setitem" and t.a[1].op == "elem":
                el.add(t.a[1])
                return t.a[2]
            return None
        el = set()
        v = last(d.next)
        return subst(v, {y: key for y in el}) if v is not None else None

    def totals(self):
        c, f = self.c, self.f
        S = lambda k, *m: A("S", k, tuple(sorted(((((x,)), 1) for x in m), key=repr)))
        for k in TYPES:
            n = "total_weight_" + k
            self.same(n, lambda: self.agg(f[n]), S(k, "weight"))
            n2 = "weighted_avg_" + k
            want = S(k, "weight", "estimate") * S(k, "weight").inv()
            done = False
            for x, conds in self.pieces(f[n2]):
                if x is NONE:
                    self.guard(n2, conds, S(k, "weight"))
                    continue
                done = True
                self.same(n2, lambda: self.agg(x), want)
            if not done:
                c.undecide(n2)
        x = f["decomposition_error"]
        want = A("twfe")
        for k in TYPES:
            want = want - S(k, "weight", "estimate")
        if x.op == "call" and x.a[0] in ("builtins.abs", "numpy.abs", "numpy.absolute", "math.fabs"):
            try:
                v = self.agg(x.a[1])
                if v == want or v == -want:
                    c.ob("totals", (self.mode, "decomposition_error"))
                else:
                    c.find("decomposition_error", "decomposition_error is the absolute value of %s, documented %s" % (words(v), words(want)), where=FIT)
            except Open as e:
                c.undecide("decomposition_error: %s" % e)
        else:
            try:
                v = self.agg(x)
                c.find("decomposition_error", "decomposition_error is %s, documented the absolute value of %s" % (words(v), words(want)), where=FIT)
            except Open as e:
                c.undecide("decomposition_error: %s" % e)

    def guard(self, n, conds, tot):
        """No average only if the total weight is not positive."""
        q, b = conds[-1]
        while q.op == "not":
            q, b = q.a[0], not b
        try:
            if q.op in ("lt", "le", "eq"):
                x, y = self.agg(q.a[0]), self.agg(q.a[1])
                if (q.op == "lt" and x.iszero() and y == tot and not b) or (q.op == "le" and x == tot and y.iszero() and b) or \
                        (q.op == "eq" and {True} == {x == tot or y == tot} and (x.iszero() or y.iszero()) and b):
                    self.c.ob("totals", (self.mode, n, "guard"))
                    return
                self.c.find(n + ":None", "%s is left out when %s is %s" % (n, show(q, 3)[:100], b), where=FIT)
                return
        except Open as e:
            self.c.undecide("%s guard: %s" % (n, e))
            return
        self.c.undecide(n + " guard " + show(q, 4)[:200])

    def same(self, n, fn, want):
        try:
            v = fn()
        except Open as e:
            self.c.undecide("%s %s: %s" % (self.mode, n, e))
            return
        if v == want:
            self.c.ob("totals", (self.mode, n))
        else:
            self.c.find(n, "%s is %s, documented %s" % (n, words(v), words(want)), where=FIT)

    def normalised(self):
        """Weights are divided by their total once, before anything is summed from them."""
        c = self.c
        evs = self.r.events
        ns = [i for i, e in enumerate(evs) if e.kind == "mutate" and e.d.get("how") == ".weight=" and e.d["obj"].id in self.elems and self.normalising(e)]
        if len(ns) != 1:
            if not ns:
                c.undecide("normalisation of the weights not read")
            else:
                c.undecide("several normalisations")
            return
        e = evs[ns[0]]
        tot = Rat.of(0)
        for k in TYPES:
            tot = tot + A("S", k, ((("weight",), 1),))
        v = e.d["val"]
        w = Rat(Poly.atom(("weight",)))

        def mixed(x):
            try:
                return self.agg(x)
            except Open:
                pass
            if x.op == "bin" and x.a[0] in "+-*/":
                p, q = mixed(x.a[1]), mixed(x.a[2])
                return p + q if x.a[0] == "+" else p - q if x.a[0] == "-" else p * q if x.a[0] == "*" else p * q.inv()
            return self.each(x, TYPES[0])
        try:
            if mixed(v) == w * tot.inv():
                c.ob("normalised", self.mode)
            else:
                c.find("normalised", "weights become %s, documented weight / total weight" % words(mixed(v)), where=FIT)
        except Open as o:
            c.undecide("normalised: %s" % o)
        for q in e.pc:
            t, b = q[0], q[1]
            if t.op in ("iter",) or not any(y is self.comps for y in reach([t])):
                continue
            while t.op == "not":
                t, b = t.a[0], not b
            try:
                if t.op in ("lt", "le", "eq"):
                    x, y = self.agg(t.a[0]), self.agg(t.a[1])
                    if t.op == "lt" and x.iszero() and y == tot and b or t.op == "le" and x == tot and y.iszero() and not b or t.op == "eq" and not b and (x == tot or y == tot) and (x.iszero() or y.iszero()):
                        continue
                    c.find("normalised only if", "weights are normalised only if %s is %s" % (show(q[0], 3)[:100], q[1]), where=FIT)
            except Open:
                c.undecide("condition of the normalisation")
        # stores into totals before that
        use = {y.id for n in self.f if n.startswith(("total_weight", "weighted_avg", "decomposition")) for y in reach([self.f[n]]) if y.op == "mu" and y is not self.comps}
        early = [x for x in evs[:ns[0]] if x.kind == "mutate" and x.d["obj"].id in use and type(x.d.get("val")) is T
                 and any(z.op == "attr" and z.a[1] == "weight" and z.a[0].id in self.elems for z in reach([x.d["val"]]))]
        if early:
            c.find("summed early", "weights are summed by type before they are normalised", early[0], where=FIT)
        else:
            c.ob("normalised", (self.mode, "before the totals"))
        late = [x for x in evs[ns[0] + 1:] if x.kind == "mutate" and x.d.get("how") == ".weight=" and x.d["obj"].id in self.elems]
        if late:
            c.find("weight later", "a weight is changed after the normalisation", late[0], where=FIT)

    def counts(self):
        c, f = self.c, self.f
        C = (0, INF, 5, 10)
        w = Cells(C, (4, 5, 10), self.roles, {})
        want = {"n_never_treated": A("n", 0) + A("n", INF),
                "n_obs": sum((A("n", a) * A("p", b) for a in C for b in (4, 5, 10)), Rat.of(0))}
        for n, e in want.items():
            try:
                v = w.rat(f[n])
                if v == e:
                    c.ob("counts", (self.mode, n))
                else:
                    c.find(n, "%s counts %s, documented %s" % (n, words(v), words(e)), where=FIT)
            except Open as o:
                c.undecide("%s: %s" % (n, o))
        tg = f["timing_groups"]
        if tg in self.loops:
            c.ob("counts", (self.mode, "timing_groups"))
        else:
            self.groups(tg)
        x = f["n_timing_groups"]
        if x.op == "call" and x.a[0] == "builtins.len" and x.a[1] in self.loops | {tg}:
            c.ob("counts", (self.mode, "n_timing_groups"))
        else:
            c.undecide("n_timing_groups")

    def twfe(self):
        """Σ d̃ỹ / Σ d̃² of the within-transformed treatment indicator and outcome."""
        from ..alg import Norm
        from ..tens import Tens, atom
        c = self.c
        x = self.f["twfe_estimate"]
        cols = {}

        def leaf(t):
            while t.op == "attr" and t.a[1] == "values" or t.op == "m" and t.a[1] in ("to_numpy", "astype"):
                t = t.a[0]
            if t.op == "idx" and t.a[0].op == "fcall" and t.a[0].a[0].endswith(".within_transform"):
                n = self.within(t.a[0], t.a[1])
                cols[n] = t.a[0]
                return atom(("col", n), (("row", 0),))
            return None
        for y, conds in self.pieces(x):
            if is_const(y):
                continue
            try:
                v = Tens(Norm(), leaf)(y)
                d, o = atom(("col", "D"), (("row", 0),)), atom(("col", "outcome"), (("row", 0),))
                if v == (d * o).sum(0) * (d * d).sum(0).inv():
                    c.ob("twfe", self.mode)
                else:
                    c.find("twfe", "twfe_estimate is %s, documented the slope of the within-transformed outcome on the within-transformed treatment indicator" % (v.terms,), where=FIT)
            except Open as e:
                c.undecide("twfe: %s" % e)

    def within(self, call, key):
        """Which column of the frame a within-transformed column is of: 'outcome', or 'D' if it holds the treatment indicator."""
        fn, fr, vs, unit, time, inplace, suffix = call.a
        if unit is not par("unit") or time is not par("time"):
            self.c.find("within", "the TWFE estimate is demeaned by %s and %s" % (show(unit, 2), show(time, 2)), where=FIT)
        if vs.op not in ("list", "tuple"):
            raise Open("columns to transform")
        for v in vs.a:
            k = None
            if truth(inplace) is True:
                k = v
            elif is_str(v) and is_str(suffix):
                k = const(cval(v) + cval(suffix))
            elif is_str(suffix):
                k = mk("fstr", v, suffix)
            if k is key or key.op == "bin" and key.a[0] == "+" and key.a[1] is v and key.a[2] is suffix:
                break
        else:
            raise Open("transformed column " + show(key, 2)[:60])
        if v is par("outcome"):
            return "outcome"
        w = Cells((0, INF, 9, 10, 11), (8, 9, 10, 11, 12), self.roles, {})
        m = w.column_value(fr, v)
        if m is None:
            raise Open("treatment indicator")
        for at in sorted(w.all, key=repr):
            b = w.mask(m, at)
            if b != (at[0] not in (0, INF) and at[1] >= at[0]):
                self.c.find("indicator", "units first treated in %s count as %streated in period %s" % (at[0], "" if b else "un", at[1]), where=FIT)
                break
        else:
            self.c.ob("twfe", (self.mode, "indicator"))
        return "D"


def w_related(q):
    return q.op == "iter"


def words(x):
    def mono(m):
        return "*".join("%s%s" % ("".join(str(z) if not isinstance(z, tuple) else "[" + "*".join(str(y[0][0]) for y in z) + "]" for z in a) if isinstance(a, tuple) else a, "" if e == 1 else "^%s" % e)
                        for a, e in m) or "1"

    def poly(p):
        ts = sorted(p.m.items(), key=repr)
        return " + ".join(("" if v == 1 else "%s*" % v) + mono(m) for m, v in ts[:6]) + (" + …" if len(ts) > 6 else "") or "0"
    if not x.c:
        return "0"
    return " * ".join(([str(x.c)] if x.c != 1 or not x.f else []) + ["(%s)%s" % (poly(p), "" if n == 1 else "^%d" % n) for p, n in sorted(x.f.items(), key=lambda q: (-q[1], repr(q[0].key())))])


def run(S, c):
    S = S.python()
    c.rule("Rule: every 2x2 comparison of the Bacon decomposition, evaluated over the cells (first-treatment period, period) of the panel for each "
           "order type, has the documented estimate, unit counts and weight; every defined comparison is made once; totals are sums over them.")
    e = S.find(FIT)
    for mode in ("approximate", "exact"):
        I = Interp(S.P, False)
        I.opaque = ("diff_diff.utils.within_transform",)
        r = analyze(S.P, e[1], e[2], options={"weights": const(mode)}, I=I, rust=False)
        t = r.retterm
        while t.op == "ite":
            t = t.a[2] if t.a[2].op in ("new", "ite") else t.a[1]
        if t.op != "new":
            c.undecide("result not read")
            continue
        b = Bacon(c, r, fields(t), mode)
        b.loops = set()
        b.run()
        b.normalised()
        b.totals()
        b.counts()
        b.twfe()
