"""C24: SyntheticDiD computes the documented estimator from the documented blocks of the panel."""
import math
from ..terms import *
from ..alg import Norm, worlds, Overflow
from ..entry import analyze
from ..interp import Interp
from ..tens import TV, Tens, Open, Mismatch, atom, dim, num, args_of

CONV = {"builtins.list", "builtins.tuple", "numpy.asarray", "numpy.array", "builtins.float", "numpy.ascontiguousarray"}
CONVM = {"tolist", "to_list", "copy", "to_numpy", "astype"}


def strip(t):
    while True:
        if t.op == "call" and t.a[0] in CONV and len(t.a) > 1 and type(t.a[1]) is T and t.a[1].op != "kw":
            t = t.a[1]
        elif t.op == "m" and t.a[1] in CONVM:
            t = t.a[0]
        elif t.op == "attr" and t.a[1] == "values":
            t = t.a[0]
        else:
            return t


def listed(t):
    """(element, conditions) of a list made by a comprehension or by appending in a loop."""
    if type(t) is not T:
        return None
    if t.op == "comp" and t.a[0] == "list":
        cs = [x for x in t.a if type(x) is T and x.op == "conds"]
        return t.a[1], [y for x in cs for y in x.a]
    if t.op == "mu" and t.next is not None and t.init.op == "list" and not t.init.a:
        x, cs = t.next, []
        while x.op == "ite":
            if x.a[2] is t:
                cs.append(x.a[0])
                x = x.a[1]
            elif x.a[1] is t:
                cs.append(neg(x.a[0]))
                x = x.a[2]
            else:
                return None
        if x.op == "append" and x.a[0] is t:
            return x.a[1], cs
    return None


def truthy(c, v, about):
    """Truth of a condition on a 0/1 column `about`."""
    o = c.op
    if o == "not" or o == "un" and c.a[0] == "~":
        return not truthy(c.a[-1], v, about)
    if o in ("eq", "lt", "le"):
        x = [cval(z) if is_const(z) else v if about in reach([z]) else None for z in c.a]
        if None in x or not all(isinstance(z, (int, float, bool)) for z in x):
            raise Open("condition")
        return x[0] == x[1] if o == "eq" else x[0] < x[1] if o == "lt" else x[0] <= x[1]
    if o in ("and", "or"):
        r = [truthy(z, v, about) for z in c.a]
        return all(r) if o == "and" else any(r)
    if o == "bin" and c.a[0] in ("&", "|"):
        r = [truthy(z, v, about) for z in c.a[1:]]
        return all(r) if c.a[0] == "&" else any(r)
    if is_const(c):
        return bool(cval(c))
    if o in ("m", "call", "idx") and about in reach([c]) and o != "fcall":
        return bool(v)
    raise Open("condition")


class Sdid:
    """Blocks of the outcome panel and what is computed from them."""

    def __init__(self, N, treatment, post):
        self.N, self.treatment = N, treatment
        self.post = post
        self.roles = {}
        self.T = Tens(N, self.leaf)

    def order(self, t):
        """Walk orders other than the collection's own."""
        w = []
        while t.op == "call" and t.a[0] in ("builtins.sorted", "builtins.reversed", "numpy.sort", "builtins.set"):
            w.append(t.a[0])
            t = strip(t.a[1])
        return tuple(w)

    def dom(self, t):
        t = strip(self.N.res(t))
        t = strip(t)
        r = self.role(t)
        return (r, t.id)

    def role(self, t):
        if t.id in self.roles:
            return self.roles[t.id]
        r = self.roles[t.id] = self._role(t)
        return r

    def units(self, cond):
        z, w = truthy(cond, 0, self.treatment), truthy(cond, 1, self.treatment)
        if z == w:
            return "all units"
        return "treated" if w else "control"

    def _role(self, t):
        t0 = t
        while t.op == "call" and t.a[0] in ("builtins.sorted", "builtins.reversed") or t.op == "m" and t.a[1] in ("unique", "drop_duplicates"):
            t = strip(t.a[1] if t.op == "call" else t.a[0])
        if t.op == "attr" and t.a[1] == "index":
            t = t.a[0]
        if t.op == "idx" and t.a[1].op != "slice" and self.treatment in reach([t.a[1]]):
            return self.units(self.N.res(t.a[1]))
        if listed(t):
            cs = listed(t)[1]
            if len(cs) == 1:
                c = self.N.res(cs[0])
                s = True
                while c.op == "not":
                    c, s = c.a[0], not s
                if c.op == "in":
                    y = strip(self.N.res(c.a[1]))
                    q = self.role(y) if y is not t0 else None
                    if q in ("treated", "control") and s:
                        return q
                    if q in ("treated", "control"):
                        return "control" if q == "treated" else "treated"
                    if q == "post":
                        return "post" if s else "pre"
                    if q == "pre":
                        return "pre" if s else "post"
                elif self.treatment in reach([c]):
                    u = self.units(c)
                    return u if s else {"treated": "control", "control": "treated"}.get(u, u)
                elif any(x.op == "param" and x.a[0] == "post_periods" for x in reach([c])):
                    return "other periods"
        if self.post is not None and t is self.post:
            return "post"
        if t.op == "idx" and t.a[1].op == "slice" and self.post is None:
            lo, hi, st = t.a[1].a
            b = strip(self.N.res(t.a[0]))
            if b.op == "call" and b.a[0] == "builtins.sorted" and st is NONE:
                half = [x for x in (lo, hi) if x is not NONE]
                if len(half) == 1 and half[0].op == "bin" and half[0].a[0] == "//" and is_const(half[0].a[2]) and cval(half[0].a[2]) == 2 \
                        and half[0].a[1].op == "call" and half[0].a[1].a[0] == "builtins.len" and strip(self.N.res(half[0].a[1].a[1])) is b:
                    return "pre" if lo is NONE else "post"
                return "other periods"
        return None

    def pivot(self, t):
        """(frame, row axis, column axis) of a wide table."""
        if t.op == "m" and t.a[1] in ("pivot",):
            pos, kw = args_of(t, 2)
            if {"index", "columns", "values"} <= set(kw):
                return t.a[0], kw["index"], kw["columns"], kw["values"]
        if t.op == "attr" and t.a[1] == "T":
            p = self.pivot(t.a[0])
            if p:
                return p[0], p[2], p[1], p[3]
        return None

    def leaf(self, t):
        if t.op == "idx" and t.a[0].op == "attr" and t.a[0].a[1] == "loc" and t.a[1].op == "tuple" and len(t.a[1].a) == 2:
            p = self.pivot(self.N.res(t.a[0].a[0]))
            if p is None:
                return None
            fr, r, q, v = p
            rd, cd = self.dom(t.a[1].a[0]), self.dom(t.a[1].a[1])
            if v is not P("outcome"):
                raise Open("values")
            if r is P("time") and q is P("unit"):
                return atom(("Y", self.frame(fr)), (rd, cd))
            if r is P("unit") and q is P("time"):
                return atom(("Y", self.frame(fr)), (cd, rd)).perm([1, 0])
            raise Open("axes")
        if t.op == "call" and t.a[0] == "builtins.len":
            d = self.dom(t.a[1])
            if d[0] in ROLES:
                return dim(d)
        if t.op == "m" and t.a[1] == "reindex":
            p = self.pivot(self.N.res(t.a[0]))
            pos, kw = args_of(t, 2)
            if p and set(kw) == {"index", "columns"} and p[1] is P("time") and p[2] is P("unit") and p[3] is P("outcome"):
                return atom(("Y", self.frame(p[0])), (self.dom(kw["index"]), self.dom(kw["columns"])))
        if t.op == "fcall":
            f = t.a[0].split(".")[-1]
            if f == "compute_synthetic_weights":
                a, b = self.T(t.a[1]), self.T(t.a[2])
                return atom(("omega", a.key(), a.free, b.key(), b.free, self.opt(t.a[3]), t.a[4].id), a.free[1:])
            if f == "compute_time_weights":
                a, b = self.T(t.a[1]), self.T(t.a[2])
                return atom(("lambda", a.key(), a.free, b.key(), b.free, self.opt(t.a[3])), b.free)
        return None

    def opt(self, t):
        return self.N.res(t).id

    def frame(self, t):
        while t.op == "m" and t.a[1] == "copy":
            t = self.N.res(t.a[0])
        return t.id


def P(n):
    return mk("param", n)


def tau(Yc0, Yc1, y0, y1, om, la):
    """The estimator: blocks are period x unit, y0/y1 the treated means."""
    return (y1.mean(0) - la.dot(y0)) - om.dot(Yc1.mean(0) - la.dot(Yc0))


def words(v):
    """A canonical form in words."""
    out = []
    for (sc, fs, bd), k in sorted(v.terms.items(), key=repr)[:8]:
        out.append("%s*%s" % (k, "*".join([name(x) + ("^%d" % p if p != 1 else "") for x, p in sc] + [name(x) + ("^%d" % p if p != 1 else "") for x, i, p in fs]
                                          + ["[sum over %s]" % ",".join(dn(d) for d in bd)] * bool(bd))))
    return " + ".join(out)


def dn(d):
    if d and d[0] == "sel":
        return "part of " + dn(d[1])
    return str(d[0]) if d else "-"


def name(x):
    if type(x) is tuple:
        return "n(%s)" % dn(x[1]) if x[0] == "dim" else str(x[0])
    return str(x)


def compare(c, kind, key, what, got, want, where):
    try:
        v = got()
    except Mismatch as e:
        a, b = e.a, e.b
        if a and b and type(a) is tuple and type(b) is tuple and a[0] in ROLES and b[0] in ROLES:
            x, y = byid(a[1]), byid(b[1])
            srt = [z.op == "call" and z.a[0] in ("builtins.sorted", "builtins.reversed") for z in (x, y)]
            if a[0] != b[0] or srt[0] != srt[1] and strip((x if srt[0] else y).a[1]) is strip(y if srt[0] else x):
                c.find(key, "%s: %s combined element by element with %s in another order or of another length" % (what, dn(a), dn(b)), where=where)
                return False
        if a and b and a[0] == b[0] == "sel" and a[1] == b[1] and a[2] != b[2] and [drawn(byid(z[2])) for z in (a, b)] in ([True, False], [False, True]):
            c.find(key, "%s: a random part of %s combined element by element with a fixed part" % (what, dn(a[1])), where=where)
            return False
        c.undecide("%s: %s" % (key, e))
        return None
    except (Open, IndexError, KeyError, ValueError) as e:
        c.undecide("%s: %s" % (key, e))
        return None
    w = want() if callable(want) else want
    if v == w:
        c.ob(kind, key)
        return True
    if any(has_unknown(d) for d in doms(v)):
        c.undecide("%s: unknown axis" % key)
        return None
    c.find(key, "%s is %s; documented %s" % (what, words(v)[:400], words(w)[:400]), where=where)
    return False


def drawn(t):
    return any(x.op == "m" and x.a[1] in ("permutation", "choice", "integers", "shuffle") for x in reach([t]))


ROLES = ("pre", "post", "treated", "control", "other periods", "all units")


def doms(v):
    out = list(v.free)

    def go(x):
        if type(x) is tuple:
            if len(x) == 2 and (x[0] in ROLES or x[0] is None) and type(x[1]) is int:
                out.append(x)
            else:
                for y in x:
                    go(y)
    go(tuple(v.terms))
    return out


def has_unknown(d):
    return d is not None and d[0] is None


def fields(t):
    return {x.a[0]: x.a[1] for x in t.a if type(x) is T and x.op == "f"}


def appended(t):
    """Elements put into the list a loop builds."""
    seen, out = set(), []
    todo = [t]
    while todo:
        x = todo.pop()
        if type(x) is not T or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "mu":
            todo += [x.init, x.next]
        elif x.op == "append":
            todo.append(x.a[0])
            out.append(x.a[1])
        elif x.op == "ite":
            todo += list(x.a[1:])
        elif x.op == "comp":
            out.append(x.a[1])
        elif x.op == "call" and x.a[0] in CONV and len(x.a) > 1:
            todo.append(x.a[1])
    return out


def run_worlds(c, tag, fn):
    try:
        for _ in worlds(fn, 600):
            pass
    except Overflow:
        c.undecide(tag + ": too many branches")


def main_estimate(c, S, given, cov=False):
    e = S.find("SyntheticDiD.fit")
    who = "SyntheticDiD.fit"
    for vm in ("placebo", "bootstrap"):
        I = Interp(S.P, False)
        I.opaque = ("diff_diff.utils.compute_synthetic_weights", "diff_diff.utils.compute_time_weights", "diff_diff.linalg.solve_ols")
        r = analyze(S.P, e[1], e[2], fixed={"covariates": COVS if cov else NONE, "post_periods": GIVEN if given else NONE}, I=I,
                    options={"variance_method": const(vm)}, rust=False)
        tag = "%s/%s" % (vm, "given periods" if given else "default periods") + (", covariates" if cov else "")

        def fn(N):
            t = N.res(r.retterm)
            if t.op != "new":
                c.undecide(who + ": result not read")
                return
            f = fields(t)
            s = Sdid(N, P("treatment"), P("post_periods") if given else None)
            pre, pst = s.dom(f["pre_periods"]), s.dom(f["post_periods"])
            for d, n in ((pre, "pre"), (pst, "post")):
                if d[0] == n:
                    c.ob("periods", (tag, n))
                elif d[0] is None:
                    c.undecide("%s: %s periods not read (%s)" % (tag, n, show(byid(d[1]))[:80]))
                    return
                else:
                    c.find("periods:%s:%s" % (tag, n), "%s_periods reported are %s" % (n, d[0]), where=who)
                    return
            blocks = {}
            for x in reach([f["att"]]):
                if x.op == "idx" and x.a[0].op == "attr" and x.a[0].a[1] == "loc" and s.pivot(N.res(x.a[0].a[0])):
                    try:
                        v = s.T(x)
                    except Open:
                        continue
                    blocks[tuple(sorted((d[0] or "") for d in v.free))] = v
            try:
                some = next(iter(blocks.values()))
            except StopIteration:
                c.undecide(tag + ": outcome blocks not read")
                return
            A = next(iter(some.terms))[1][0][0]
            if cov:
                residual(c, s, N, A, who)
            elif byid(A[1]) is not P("data"):
                c.undecide(tag + ": the panel is not the caller's")
            us = {}
            for v in blocks.values():
                for d in v.free:
                    if d[0] in ("treated", "control"):
                        us.setdefault(d[0], d)
            if set(us) != {"treated", "control"}:
                c.undecide(tag + ": units not read") if len(us) < 1 else c.find(
                    "units:" + tag, "the estimate does not use both treated and control units", where=who)
                return
            ct, tr = us["control"], us["treated"]
            b = lambda p, u: atom(A, (p, u))
            y0, y1 = b(pre, tr).mean(1), b(pst, tr).mean(1)
            mw = OPTS["min_weight"]
            om = atom(("omega", b(pre, ct).key(), (pre, ct), y0.key(), y0.free, OPT("lambda_reg"), mw), (ct,))
            la = atom(("lambda", b(pre, ct).key(), (pre, ct), y0.key(), y0.free, OPT("zeta")), (pre,))
            want = tau(b(pre, ct), b(pst, ct), y0, y1, om, la)
            compare(c, "estimate", "att:" + tag, "att", lambda: s.T(f["att"]), want, who)
            e0 = y0 - b(pre, ct).dot(om)
            compare(c, "pre-treatment fit", "fit:" + tag, "pre_treatment_fit", lambda: s.T(f["pre_treatment_fit"]), (e0 * e0).mean(0).fn("sqrt"), who)
            weights(c, s, N, tag, "unit_weights", f["unit_weights"], ct, om, who)
            weights(c, s, N, tag, "time_weights", f["time_weights"], pre, la, who)
            for n, d in (("n_treated", tr), ("n_control", ct)):
                compare(c, "counts", n + ":" + tag, n, lambda: count(s, f[n]), dim(d), who)
            spread(c, N, tag, f["se"], vm, who)
            draws(c, s, N, tag, vm, f, A, pre, pst, ct, tr, om, la, mw, who)
        run_worlds(c, tag, fn)


def residual(c, s, N, A, where):
    """With covariates the outcome is replaced by y - X b + mean(y), X: covariates, unit and time effects."""
    t = byid(A[1])
    fs = [x for x in reach([t]) if x.op == "fcall" and x.a[0].endswith("solve_ols")]
    if t is P("data"):
        c.find("covariates", "covariates do not enter the estimate", where=where)
        return
    if len(fs) != 1 or t.op != "setitem" or t.a[1] is not P("outcome"):
        c.undecide("covariates: adjusted outcome not read")
        return
    fc = fs[0]
    rows = (None, "rows")

    def isy(x):
        x = strip(N.res(x))
        return x.op == "idx" and x.a[1] is P("outcome") and s.frame(x.a[0]) == P("data").id

    def leaf(x):
        if isy(x):
            return atom("y", (rows,))
        if x.op == "idx" and x.a[0] is fc and is_const(x.a[1]):
            return atom(("ols", cval(x.a[1])), (rows,))
        return None
    T2 = Tens(N, leaf)
    try:
        v = T2(t.a[2])
        if v == atom(("ols", 1), (rows,)) + atom("y", (rows,)).mean(0):
            c.ob("covariates", "outcome")
        else:
            c.find("covariates", "the adjusted outcome is %s; documented the residual plus the mean outcome" % words(v), where=where)
    except Open as e:
        c.undecide("covariates: %s" % e)
    if not isy(fc.a[2]):
        c.undecide("covariates: regressand")
    X = strip(N.res(fc.a[1]))
    if X.op == "call" and X.a[0] in ("numpy.column_stack", "numpy.hstack", "numpy.concatenate") and X.a[1].op in ("list", "tuple"):
        have = set()
        for q in X.a[1].a:
            r = reach([q])
            for n in ("unit", "time", "covariate", "treatment"):
                if P(n) in r and not (q.op == "call" and q.a[0] in ("numpy.ones",)):
                    have.add(n)
        if have == {"unit", "time", "covariate"}:
            c.ob("covariates", "design")
        else:
            c.find("covariates:design", "covariates are partialled out with %s; documented covariates, unit and time effects" % ", ".join(sorted(have)), where=where)
    else:
        c.undecide("covariates: design")


def count(s, t):
    t = s.N.res(t)
    if t.op == "call" and t.a[0] == "builtins.len":
        return dim(s.dom(t.a[1]))
    return s.T(t)


OPTS = {}
COVS = mk("list", mk("param", "covariate"))
GIVEN = mk("call", "builtins.list", mk("param", "post_periods"))


def OPT(n):
    return OPTS[n]


def weights(c, s, N, tag, what, t, d, w, where):
    """{element of d: its weight}."""
    t = N.res(t)
    key = "%s:%s" % (what, tag)
    k = v = None
    if t.op == "comp" and t.a[0] == "dict" or t.op == "comp" and show(t).startswith("comp(dict"):
        kv = [x for x in t.a if type(x) is T and x.op == "kv"]
        if kv and kv[0].a[0].op == "elem" and kv[0].a[1].op == "elem":
            if any(x.op == "conds" and x.a for x in t.a if type(x) is T):
                c.find(key, "%s leaves out elements on a condition" % what, where=where)
                return
            k, v = kv[0].a[0].a[0], kv[0].a[1].a[0]
    elif t.op == "call" and t.a[0] == "builtins.dict" and len(t.a) == 2 and t.a[1].op == "call" and t.a[1].a[0] == "builtins.zip":
        k, v = t.a[1].a[1:3]
    if k is None:
        c.undecide(key + ": not read")
        return
    if s.dom(k) != d:
        if s.dom(k)[0] in ROLES and s.dom(k)[0] != d[0]:
            c.find(key, "%s is keyed by %s, the weights belong to %s" % (what, dn(s.dom(k)), dn(d)), where=where)
        else:
            x = byid(s.dom(k)[1])
            if x.op == "call" and x.a[0] in ("builtins.sorted", "builtins.reversed") and strip(x.a[1]).id == d[1]:
                c.find(key, "%s pairs the weights with the keys in another order" % what, where=where)
            else:
                c.undecide(key + ": keys not read")
        return
    compare(c, "weights reported", key, what, lambda: s.T(v), w, where)


def evn(t, env, N):
    t = N.res(t)
    if t.id in env:
        return env[t.id]
    if t.op == "c":
        return float(cval(t))
    if t.op == "bin":
        x, y = evn(t.a[1], env, N), evn(t.a[2], env, N)
        o = t.a[0]
        return x + y if o == "+" else x - y if o == "-" else x * y if o == "*" else x / y if o == "/" else x ** y
    if t.op == "call":
        pos, kw = args_of(t)
        if t.a[0] in CONV:
            return evn(pos[0], env, N)
        if t.a[0] in ("numpy.sqrt", "math.sqrt"):
            return math.sqrt(evn(pos[0], env, N))
        two = {"numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/", "numpy.true_divide": "/", "numpy.power": "**", "math.pow": "**"}
        if t.a[0] in two and len(pos) == 2 and not kw:
            return evn(mk("bin", two[t.a[0]], pos[0], pos[1]), env, N)
        if t.a[0] in ("builtins.len", "numpy.std", "numpy.var"):
            b = strip(N.res(pos[0])).id
            if b == env["arr"]:
                n = env["n"]
                if t.a[0] == "builtins.len":
                    return n
                v = 1.0 / (n - (cval(kw["ddof"]) if "ddof" in kw else 0))
                return math.sqrt(v) if t.a[0] == "numpy.std" else v
    raise Open("spread")


def spread(c, N, tag, t, vm, where):
    """The standard error is the replicates' standard deviation with its documented divisor."""
    t = N.res(t)
    if is_const(t):
        return
    arrs = {strip(N.res(args_of(x)[0][0])).id for x in reach([t]) if x.op == "call" and x.a[0] in ("numpy.std", "numpy.var")}
    if len(arrs) != 1:
        c.undecide("se:" + tag)
        return
    try:
        for n in (2.0, 3.0, 7.0, 50.0):
            v = evn(t, {"arr": next(iter(arrs)), "n": n}, N)
            w = math.sqrt(1 / n) if vm == "placebo" else math.sqrt(1 / (n - 1))
            if abs(v - w) > 1e-9 * w:
                c.find("se:" + tag, "the standard error of n replicates is %.6f times the root of their sum of squares at n = %d, documented %.6f" % (v, n, w), where=where)
                return
        c.ob("standard error", tag)
    except (Open, ValueError, ZeroDivisionError, KeyError) as e:
        c.undecide("se:" + tag)


def draws(c, s, N, tag, vm, f, A, pre, pst, ct, tr, om, la, mw, where):
    t = N.res(f["placebo_effects"])
    els = appended(t)
    if not els:
        if t is NONE or t.op in ("call", "list") and not any(x.op == "mu" for x in reach([t])):
            return
        c.undecide("draws:" + tag + ": not read")
        return
    for x in els:
        if vm == "placebo":
            def want():
                v = s.T(x)
                D = {d for d in doms2(v) if d[0] == "sel"}
                D = {d[2]: d for d in D if d[1] == ct}
                if len(D) != 2:
                    raise Open("parts of the controls")
                parts = {}
                for k, d in D.items():
                    q = byid(k)
                    if q.op != "idx" or q.a[1].op != "slice":
                        raise Open("part")
                    lo, hi, st = q.a[1].a
                    parts["c" if lo is NONE else "t"] = (d, q.a[0], lo, hi)
                if set(parts) != {"c", "t"} or parts["c"][1] is not parts["t"][1]:
                    raise Open("parts do not split one permutation")
                end = lambda q: dim(ct) + s.T(q) if q.op == "un" and q.a[0] == "-" or is_const(q) and cval(q) < 0 else s.T(q)
                if parts["c"][3] is not parts["t"][2] and not end(parts["c"][3]) == end(parts["t"][2]) or parts["t"][3] is not NONE and not end(parts["t"][3]) == dim(ct):
                    c.find("split:" + tag, "a placebo takes %s of the permuted controls as controls and %s as pseudo-treated; documented: all the rest"
                           % (show(mk("slice", NONE, parts["c"][3], NONE), 3), show(mk("slice", parts["t"][2], parts["t"][3], NONE), 3)), where=where)
                p = parts["c"][1]
                n = parts["c"][3]
                if p.op != "m" or p.a[1] != "permutation":
                    raise Open("not a permutation")
                dc, dt = parts["c"][0], parts["t"][0]
                b = lambda q, u: atom(A, (q, u))
                o = TV((dc,), om.terms)
                o = o * o.sum(0).inv()
                w = tau(b(pre, dc), b(pst, dc), b(pre, dt).mean(1), b(pst, dt).mean(1), o, la)
                return w, n, p
            try:
                w, n, p = want()
            except Mismatch:
                compare(c, "replicates", "draws:" + tag, "a placebo estimate", lambda: s.T(x), None, where)
                continue
            except Open as e:
                # uniform weights where the original ones vanish, and the like
                c.undecide("draws:%s: %s" % (tag, e))
                continue
            compare(c, "replicates", "draws:" + tag, "a placebo estimate", lambda: s.T(x), w, where)
            try:
                m = s.T(n)
                if m == dim(ct) - dim(tr):
                    c.ob("replicates", "pseudo-treated:" + tag)
                else:
                    c.find("pseudo:" + tag, "the placebo split leaves %s units as controls, documented the controls less the number of treated units" % words(m), where=where)
            except Open as e:
                c.undecide("pseudo:%s: %s" % (tag, e))
        else:
            def want2():
                v = s.T(x)
                fr = {a for a in atoms_of(v) if a[0] == "Y"}
                D = {}
                for d in doms(v):
                    if d[0] in ("treated", "control"):
                        D.setdefault(d[0], set()).add(d)
                if len(fr) != 1 or any(len(q) != 1 for q in D.values()) or set(D) != {"treated", "control"}:
                    raise Open("blocks of a resampled panel")
                a = next(iter(fr))
                c_, t_ = next(iter(D["control"])), next(iter(D["treated"]))
                b = lambda q, u: atom(a, (q, u))
                y0 = b(pre, t_).mean(1)
                o = atom(("omega", b(pre, c_).key(), (pre, c_), y0.key(), y0.free, OPT("lambda_reg"), mw), (c_,))
                l = atom(("lambda", b(pre, c_).key(), (pre, c_), y0.key(), y0.free, OPT("zeta")), (pre,))
                return tau(b(pre, c_), b(pst, c_), y0, b(pst, t_).mean(1), o, l), a
            try:
                w, a = want2()
            except Open as e:
                c.undecide("draws:%s: %s" % (tag, e))
                continue
            compare(c, "replicates", "draws:" + tag, "a bootstrap estimate", lambda: s.T(x), w, where)
            labels(c, s, tag, a, A, [d for d in doms(w) if d[0] in ("treated", "control")], where)
            if a == A:
                c.find("resampled:" + tag, "a bootstrap estimate is computed on the original panel", where=where)
            else:
                c.ob("replicates", "resampled:" + tag)


def labels(c, s, tag, a, A, ds, where):
    """The resampled panel names its units as the lists of treated and control units do."""
    fr = byid(a[1])
    names = set()
    for x in reach([fr]):
        if x.op == "m" and x.a[1] == "assign":
            for y in x.a[2:]:
                if type(y) is T:
                    names |= {z.a[1] for z in reach([y]) if z.op == "kv" and z.a[0] is P("unit")}
    for x in reach([fr]):
        if x.op == "m" and x.a[1] == "assign":
            f = s.N.res(x.a[0])
            if f.op == "idx":
                if s.frame(s.N.res(f.a[0])) == A[1]:
                    c.ob("replicates", "resampled rows:" + tag)
                elif s.frame(s.N.res(f.a[0])) in {y.id for y in reach([byid(A[1])])}:
                    c.find("rows:" + tag, "replicates resample %s, the estimate is computed on %s" % (show(f.a[0])[:100], show(byid(A[1]))[:100]), where=where)
                else:
                    c.undecide("rows:" + tag)
    if not names:
        c.undecide("labels:" + tag)
        return
    for d in set(ds):
        x = byid(d[1])
        if not listed(x):
            c.undecide("labels:" + tag)
        elif listed(x)[0] in names:
            c.ob("replicates", "labels:%s:%s" % (tag, d[0]))
        elif listed(x)[0].op == "fstr" and all(z.op == "fstr" for z in names):
            c.find("labels:" + tag, "the %s units of a resampled panel are named %s, its rows %s" % (d[0], show(listed(x)[0])[:120], show(next(iter(names)))[:120]), where=where)
        else:
            c.undecide("labels:" + tag)


def atoms_of(v):
    out = set()

    def go(x):
        if type(x) is tuple:
            if len(x) == 2 and x[0] == "Y":
                out.add(x)
            for y in x:
                go(y)
    go(tuple(v.terms))
    return out


def doms2(v):
    out = set(x for x in v.free if x)

    def go(x):
        if type(x) is tuple:
            if len(x) == 3 and x[0] == "sel":
                out.add(x)
            for y in x:
                go(y)
    go(tuple(v.terms))
    return out


def run(S, c):
    S = S.python()
    c.rule("Rule: att, the fit, the weights and every placebo or bootstrap replicate of SyntheticDiD are brought to a canonical sum of products over "
           "period and unit axes and must equal the documented estimator of the documented blocks of the panel.")
    OPTS["lambda_reg"], OPTS["zeta"] = mk("cfg", "lambda_reg").id, mk("cfg", "zeta").id
    OPTS["min_weight"] = const(1e-6).id
    for given in (False, True):
        main_estimate(c, S, given)
    main_estimate(c, S, True, True)
    functions(c, S)


class Arr:
    """Parameters that are arrays with named axes."""

    def __init__(self, N, shapes, extra=None):
        self.N, self.shapes, self.extra = N, shapes, extra
        self.T = Tens(N, self.leaf)

    def leaf(self, t):
        if t.op == "param" and t.a[0] in self.shapes:
            return atom(("p", t.a[0]), tuple((d, 0) for d in self.shapes[t.a[0]]))
        if t.op == "param":
            return atom(("p", t.a[0]))
        if t.op == "call" and t.a[0] == "numpy.linalg.norm":
            pos, kw = args_of(t)
            if len(pos) > 1 or kw:
                return atom(("norm", t.id))
        return self.extra(t) if self.extra else None


def functions(c, S):
    sh = {"Y_pre_control": ("pre", "control"), "Y_post_control": ("post", "control"), "Y_pre_treated": ("pre",), "Y_post_treated": ("post",),
          "unit_weights": ("control",), "time_weights": ("pre",)}
    p = lambda n, s: atom(("p", n), tuple((d, 0) for d in s[n]))
    e = S.find("compute_sdid_estimator")
    if e:
        r = analyze(S.P, e[1], e[2], rust=False)

        def fn(N):
            A = Arr(N, sh)
            compare(c, "estimate", "compute_sdid_estimator", "tau", lambda: A.T(r.retterm),
                    tau(*[p(n, sh) for n in ("Y_pre_control", "Y_post_control", "Y_pre_treated", "Y_post_treated", "unit_weights", "time_weights")]),
                    "compute_sdid_estimator")
        run_worlds(c, "compute_sdid_estimator", fn)
    sh2 = {"Y_control": ("pre", "control"), "Y_treated": ("pre",)}
    e = S.find("compute_time_weights")
    if e:
        r2 = analyze(S.P, e[1], e[2], rust=False)

        def fn(N):
            A = Arr(N, sh2)
            t = N.res(r2.retterm)
            if not any(x.op == "param" and x.a[0] == "Y_control" for x in reach([t], control=False)):
                return          # a single period
            d = (p("Y_treated", sh2) - p("Y_control", sh2).mean(1)).fn("abs")
            n = dim(("pre", 0))
            q = d - d.mean(0)
            i = (d + atom(("p", "zeta")) * ((q * q).sum(0) * n.inv()).fn("sqrt") + atom("eps")).inv()
            compare(c, "weights", "compute_time_weights", "the time weights", lambda: A.T(t), i * i.sum(0).inv(), "compute_time_weights")
        run_worlds(c, "compute_time_weights", fn)
    e = S.find("compute_synthetic_weights")
    if e:
        I = Interp(S.P, False)
        I.opaque = ("diff_diff.utils._project_simplex",)
        r3 = analyze(S.P, e[1], e[2], I=I, rust=False)
        gradient(c, r3, sh2)


def gradient(c, r, sh):
    """Each step moves the weights against the gradient of the documented objective before projecting them on the simplex."""
    who = "compute_synthetic_weights"
    steps = [x for x in reach([r.retterm]) if x.op == "fcall" and x.a[0].endswith("_project_simplex")]
    if not steps:
        c.undecide(who + ": projection not read")
    for x in steps:
        mus = [z for z in reach([x.a[1]]) if z.op == "mu" and z.next is x]

        def fn(N):
            w = atom(("w",), (("control", 0),))

            def extra(t):
                if t.op == "mu" and t in mus:
                    return w
                return None
            A = Arr(N, sh, extra)
            try:
                v = A.T(x.a[1])
            except Open as e:
                c.undecide("%s: %s" % (who, e))
                return
            p = lambda n: atom(("p", n), tuple((d, 0) for d in sh[n]))
            Y, y, l = p("Y_control"), p("Y_treated"), atom(("p", "lambda_reg"))
            n = dim(("control", 0))
            g = Y.perm([1, 0]).dot(Y.dot(w)) + l * w - Y.perm([1, 0]).dot(y) - l * TV((("control", 0),), n.inv().terms)
            d = w - v
            # the step size: any positive scalar
            k = next((a for a in d.terms if any(z[0] == ("p", "Y_treated") for z in a[1])), None)
            if k is None:
                c.find("gradient", "the steps do not depend on the treated outcomes", where=who)
                return
            s = TV((), {(tuple(k[0]), (), ()): -d.terms[k]})
            if d == g * s and -d.terms[k] > 0:
                c.ob("objective", who)
            else:
                c.find("gradient", "the step is along %s; the gradient of the documented objective is %s" % (words(d)[:300], words(g)[:300]), where=who)
        run_worlds(c, who, fn)
