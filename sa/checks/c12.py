"""C12: rank_deficient_action decides, for every regression a fit runs, between warning, error and silence."""
import re
from ..terms import *
from ..entry import analyze

OPT = "rank_deficient_action"
CATCH = ("ValueError", "Exception", "BaseException", "<bare>")
# bootstrap / jackknife replications of a regression the same fit has already run under the option
SOLVE = "diff_diff.linalg.solve_ols"


def texts(t):
    return " ".join(str(cval(x)) for x in reach(t) if x.op == "c" and x.a[0] == "str")


def reports(r):
    """(kind, function, text) of the warnings and errors a run may issue."""
    out = {}
    for e in r.events:
        if e.kind == "call" and e.d["fn"] == "warnings.warn" and e.d["args"]:
            out.setdefault(("warn", e.fn, texts(e.d["args"][0])), e)
        elif e.kind == "raise" and type(e.d["exc"]) is T:
            out.setdefault(("raise", e.fn, texts(e.d["exc"])), e)
    return out


def reduced(x):
    """The design matrix has been cut down to its identified columns with a rank-revealing QR."""
    return any(t.op == "call" and t.a[0] == "scipy.linalg.qr" for t in reach(x, control=False))


def catcher(r, e):
    """The handler that would keep an error of this call from the caller, if any."""
    hs = {}
    for h in r.events:
        if h.kind == "handler":
            hs.setdefault(h.d["tid"], []).append(h)
    for tid in reversed(e.tryids):
        for h in hs.get(tid, ()):
            ts = [x.strip().split(".")[-1] for x in h.d["types"].strip("()").split(",")]
            if any(t in CATCH for t in ts):
                if h.d["swallows"]:
                    return h
                break
    return None


def swallowed(c, n, r, e):
    h = catcher(r, e)
    if h is None:
        return
    mine = {(p.id if type(p) is T else p, v) for p, v, _ in e.pc}
    for f in r.events:
        if f is e:
            break
        # a replication of something the entry point has already had enforced on every path to here
        if f.kind == "icall" and f.d["callee"] == SOLVE and catcher(r, f) is None \
                and all((p.id if type(p) is T else p, v) in mine for p, v, _ in f.pc[:f.pcb[1] if len(f.pcb) > 1 else None]):
            return
    c.find("%s:%s:swallowed" % (n, h.fn), "%s with %s='error': the error of the regression in %s is caught in %s and the fit continues" % (n, OPT, e.fn, h.fn), ev=e)


def leaves(t):
    if t.op == "ite":
        return leaves(t.a[1]) + leaves(t.a[2])
    return [t]


def muted(r, e):
    """A warnings filter in force around the regression that swallows its warning."""
    for f in r.events:
        if f is e:
            return None
        if f.kind != "call" or f.d["fn"] not in ("warnings.simplefilter", "warnings.filterwarnings") or not f.d["args"]:
            continue
        if not f.withs or tuple(e.withs[:len(f.withs)]) != tuple(f.withs):
            continue
        if any(g.kind == "with" and len(g.withs) < len(f.withs) for g in r.events[r.events.index(f) + 1:r.events.index(e)]):
            continue
        pos = [a for a in f.d["args"] if a.op not in ("kw", "star", "dstar")]
        kws = {a.a[0]: a.a[1] for a in f.d["args"] if a.op == "kw"}
        if not pos or not is_str(pos[0]) or cval(pos[0]) != "ignore":
            continue
        full = f.d["fn"].endswith("filterwarnings")
        msg = kws.get("message", pos[1] if full and len(pos) > 1 else None)
        cat = kws.get("category", pos[2] if full and len(pos) > 2 else pos[1] if not full and len(pos) > 1 else None)
        if msg is not None and is_str(msg) and cval(msg) and not re.match(cval(msg), "Rank-deficient design matrix: dropping ", re.I):
            continue
        if cat is not None and not any(show(cat, 3).endswith(x) for x in ("UserWarning", "builtins.Warning")):
            continue
        return f
    return None


def conds(e):
    return [(p, v) for p, v, _ in e.pc if type(p) is T]


def partial(c, n, r, e, own, rep):
    """fit solves silently and issues its own warning: that must not hang on anything but missing coefficients."""
    base = {(p.id, v) for p, v in conds(e)}
    ws = [rep[k] for k in own]
    c.ob("own warnings", (n, e.fn))
    for w in ws:
        extra = [p for p, v in conds(w) if (p.id, v) not in base]
        odd = [p for p in extra if not any(x.op == "call" and x.a[0] in ("numpy.isnan", "numpy.isfinite", "pandas.isna", "math.isnan")
                                           for x in reach(p, control=False))]
        if not odd:
            return
    c.find("%s:%s:conditional" % (n, e.fn), "%s with %s='warn' solves the regression in %s silently and warns itself only if %s" % (
        n, OPT, e.fn, show(odd[0], 4)), ev=ws[0])


def cut(x):
    """A column subset of the design made with the outcome of a rank-revealing QR."""
    return any(t.op == "idx" and reduced(t.a[1]) for t in reach(x, control=False))


def qr(t):
    return any(x.op == "call" and x.a[0] == "scipy.linalg.qr" for x in reach(t, control=False))


def value(t, k, rank):
    """The number a term about the design's rank stands for when the design has k columns and the given rank."""
    if t.op == "c":
        return cval(t) if isinstance(cval(t), (int, float)) else None
    if t.op == "idx" and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
        return k if is_const(t.a[1]) and cval(t.a[1]) == 1 else None
    if t.op == "call" and t.a[0] == "builtins.len" and len(t.a) == 2:
        return k - rank if qr(t.a[1]) else None
    if t.op == "attr" and t.a[1] == "size" and qr(t.a[0]):
        return k - rank
    if t.op == "call" and t.a[0] in ("builtins.int", "numpy.sum", "numpy.count_nonzero", "builtins.sum") and len(t.a) == 2:
        return rank if qr(t.a[1]) else None
    if t.op == "ite":
        v = [value(x, k, rank) for x in t.a[1:3]]
        if qr(t) and rank in v:
            return rank
        return v[0] if v[0] == v[1] else None
    if t.op == "bin" and t.a[0] in ("+", "-"):
        a, b = value(t.a[1], k, rank), value(t.a[2], k, rank)
        return None if a is None or b is None else a + b if t.a[0] == "+" else a - b
    return None


def truth(t, k, rank):
    if t.op == "not":
        v = truth(t.a[0], k, rank)
        return None if v is None else not v
    if t.op in ("and", "or"):
        vs = [truth(x, k, rank) for x in t.a]
        if None in vs:
            return None
        return all(vs) if t.op == "and" else any(vs)
    if t.op in ("lt", "le", "eq", "ne", "gt", "ge") and len(t.a) == 2:
        a, b = value(t.a[0], k, rank), value(t.a[1], k, rank)
        if a is None or b is None:
            return None
        return {"lt": a < b, "le": a <= b, "eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b}[t.op]
    return None


def deficient(p):
    """What the condition says of every rank-deficient design, if it says the same of all."""
    vs = {truth(p, k, r) for k, r in ((2, 1), (3, 2), (3, 1), (4, 1), (4, 3), (4, 0))}
    return vs.pop() if len(vs) == 1 else None


def open_conds(e):
    """Conditions of e that rank-deficient designs do not all meet; None when no such design gets there."""
    out = []
    for p, v in conds(e):
        d = deficient(p)
        if d is None:
            out.append((p, v))
        elif d != v:
            return None
    return out


def covered(c, w):
    """Wherever the solver goes on with a cut design, it has warned (under 'warn') and never gets there under 'error'."""
    c.ob("solver reports", "all deficient designs")
    for e in w["error"].events:
        if e.kind == "call" and e.d["args"] and e.d["fn"].startswith("scipy.linalg.lstsq") and cut(e.d["args"][0]) and open_conds(e) is not None:
            c.find("solve_ols:error:continues", "solve_ols with %s='error' goes on with some rank-deficient designs, dropping columns" % OPT, e)
    wn = [e for e in w["warn"].events if e.kind == "call" and e.d["fn"] == "warnings.warn"]
    for e in w["warn"].events:
        if e.kind == "call" and e.d["args"] and e.d["fn"].startswith("scipy.linalg.lstsq") and cut(e.d["args"][0]):
            mine = {(p.id, v) for p, v in conds(e)}
            c.ob("cut designs", e.fn)
            if not any(open_conds(x) is not None and all((p.id, v) in mine for p, v in open_conds(x)) for x in wn):
                c.find("solve_ols:warn:continues", "solve_ols with %s='warn' drops columns of some rank-deficient designs without a warning" % OPT, e)


def solver(S, c):
    e = S.find("solve_ols")
    w = {v: analyze(S.P, e[1], None, {OPT: const(v)}, rust=False) for v in ("warn", "error", "silent")}
    rep = {v: set(reports(r)) for v, r in w.items()}
    c.ob("entry points", "solve_ols")
    for kind, v, what in (("warn", "warn", "issues no warning"), ("raise", "error", "raises no error")):
        c.ob("solver reports", (kind, v))
        if not [k for k in rep[v] - rep["silent"] if k[0] == kind]:
            c.find("solve_ols:%s:none" % v, "solve_ols with %s=%r %s of its own about a rank-deficient design" % (OPT, v, what), where="solve_ols")
    for kind, v in (("raise", "warn"), ("warn", "error")):
        extra = [k for k in rep[v] - rep["silent"] if k[0] == kind]
        c.ob("solver reports", (kind, v))
        for k in extra:
            c.find("solve_ols:%s:%s" % (v, kind), "solve_ols with %s=%r %ss in %s" % (OPT, v, kind, k[1]), where="solve_ols")
    covered(c, w)
    extra = rep["silent"] - (rep["warn"] & rep["error"])
    for k in extra:
        c.find("solve_ols:silent:%s" % k[0], "solve_ols with %s='silent' %ss in %s" % (OPT, k[0], k[1]), where="solve_ols")
    if not same(w["warn"].retterm, w["silent"].retterm, (const("warn"), const("silent"))):
        c.find("solve_ols:results", "solve_ols: results under 'warn' and 'silent' differ", where="solve_ols")


def run(S, c):
    c.rule("Each estimator with the option is interpreted once per value. Rule 1: every regression reachable from fit is solved "
           "under the option's value (or, if the design was already cut to its identified columns, any; or 'silent' when fit "
           "issues its own warning under 'warn' only). Rule 2: under 'error' no handler that continues can catch the error. "
           "Rule 3: 'warn' and 'silent' give the same results. Rule 4: the solver warns under 'warn' only, raises ValueError "
           "under 'error' only, and does neither under 'silent'.")
    S = S.python()
    solver(S, c)
    for n, fn, cls in S.entries:
        if cls is not None:
            if not n.endswith(".fit"):
                continue
            init = S.P.method(cls, "__init__")
            if init is None or OPT not in init.params:
                continue
            w = {v: analyze(S.P, fn, cls, options={OPT: const(v)}, rust=False) for v in ("warn", "error", "silent")}
        else:
            if OPT not in fn.params or n == "solve_ols":
                continue
            w = {v: analyze(S.P, fn, None, {OPT: const(v)}, rust=False) for v in ("warn", "error", "silent")}
        c.ob("entry points", n)
        rep = {v: reports(r) for v, r in w.items()}
        own = [k for k in rep["warn"] if k[0] == "warn" and k not in rep["silent"] and not k[1].startswith("diff_diff.linalg._solve_ols")]
        for v, r in w.items():
            for e in r.events:
                if e.kind != "icall" or e.d["callee"] != SOLVE:
                    continue
                b = e.d["bound"]
                pol = b.get(OPT)
                c.ob("regressions", (n, v, e.fn))
                ls = leaves(pol) if type(pol) is T else [None]
                x = b.get("X")
                x = r.I.snap(x) if x is not None else None
                red = type(x) is T and reduced(x)
                for l in ls:
                    if type(l) is not T or l.op != "c":
                        c.undecide("%s: policy of the regression in %s is not resolved" % (n, e.fn))
                    elif cval(l) != v and not red and not (v == "warn" and cval(l) == "silent" and own):
                        c.find("%s:%s:%s=%s" % (n, e.fn, v, cval(l)), "%s with %s=%r solves the regression in %s under %r" % (n, OPT, v, e.fn, cval(l)), ev=e)
                    elif cval(l) == "silent" and v == "warn" and not red:
                        partial(c, n, r, e, own, rep[v])
                if v == "warn" and not red and any(type(l) is T and l.op == "c" and cval(l) == "warn" for l in ls):
                    c.ob("warnings heard", (n, e.fn))
                    f = muted(r, e)
                    if f is not None:
                        c.find("%s:%s:muted" % (n, f.fn), "%s with %s='warn': the warning of the regression in %s is filtered out in %s" % (n, OPT, e.fn, f.fn), ev=f)
                if v == "error":
                    swallowed(c, n, r, e)
        if not same(w["warn"].retterm, w["silent"].retterm, (const("warn"), const("silent"))):
            c.find("%s:results" % n, "%s: results under %s='warn' and 'silent' differ" % (n, OPT), where=n)
        c.ob("same results", n)
    c.floor("entry points", 7)
    c.floor("regressions", 20)
