"""C02: what a fit returns depends on its arguments and options only, not on the object's or module's history."""
import ast
from ..terms import *
from ..roots import roots
from ..entry import analyze


def final_fields(r):
    c = r.I.heap[r.selfref.loc]
    return {k: r.I.snap(v) for k, v in c.fields.items()}


def stales(ts):
    return sorted({x.a[0] for x in reach(ts) if x.op == "stale"})


def run(S, c):
    c.rule("Rule 1: in every fit method no left-over attribute of the estimator (anything but an option) can reach the "
           "returned results, a raise condition, or an attribute the fit writes; an attribute written on some path of fit "
           "is written on all of them. Rule 2: no function reachable from the public API stores into a module-level or "
           "class-level object, declares and assigns a global, or changes a mutable default argument.")
    for n, fn, cls, r in S.all():
        if cls is not None and n.endswith(".fit"):
            c.ob("fit methods", n)
            for f in stales(r.retterm):
                c.find("%s:result:%s" % (n, f), "%s: the returned results can depend on `self.%s` left by an earlier fit" % (n, f),
                       where=first_read(r, f))
            for e in r.events:
                if e.kind == "raise":
                    for f in stales([p for p, b, a in e.pc if type(p) is T]):
                        c.find("%s:raise:%s" % (n, f), "%s raises depending on `self.%s` left by an earlier fit" % (n, f), e)
            public = read_elsewhere(S, cls)
            for k, v in final_fields(r).items():
                if k.startswith("_") and k not in public:
                    continue
                if v.op == "stale" and v.a[0] == k:
                    continue
                c.ob("attributes written by fit", (n, k))
                for f in stales(v):
                    c.find("%s:attr:%s:%s" % (n, k, f), "%s leaves `self.%s` (partly) from an earlier fit: it can still hold stale "
                           "`%s`" % (n, k, f), where=first_read(r, f))
        for e in r.events:
            if e.kind == "globalwrite":
                c.find("global:%s:%s" % (e.fn, e.d["name"]), "%s assigns the global `%s`" % (e.fn, e.d["name"]), e)
            elif e.kind in ("mutate", "augname", "setattr_dyn"):
                c.ob("in-place operations", (e.fn, e.line))
                for x in roots(e.d["obj"]):
                    if x.startswith("g:") and not x.startswith("g:builtins"):
                        c.find("global:%s:%s" % (e.fn, x[2:]), "%s changes the module- or class-level object %s" % (e.fn, x[2:]), e)
    for fn in all_functions(S.P):
        mut = [p for p, d in fn.defaults.items() if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp))
               or isinstance(d, ast.Call) and ast.unparse(d.func) in ("list", "dict", "set", "np.zeros", "np.array", "np.empty")]
        for p in mut:
            c.ob("mutable defaults", (fn.qual, p))
            rr = analyze(S.P, fn)
            for e in rr.events:
                if e.kind in ("mutate", "augname") and "p:" + p in roots(e.d["obj"]):
                    c.find("default:%s:%s" % (fn.qual, p), "%s changes its mutable default argument `%s`" % (fn.qual, p), e)
        for d in fn.node.decorator_list:
            s = ast.unparse(d)
            if "lru_cache" in s or s.split(".")[-1] in ("cache", "cached"):
                c.find("memo:%s" % fn.qual, "%s memoises results across calls (%s)" % (fn.qual, s), where=fn.qual)
    c.floor("fit methods", 10)
    c.floor("attributes written by fit", 15)
    c.sample("DifferenceInDifferences.fit: is_fitted_, results_, _coefficients, _vcov, _bootstrap_results written on every path")


def read_elsewhere(S, cls):
    out = set()
    for n, fn, k, r in S.all():
        if k is cls and not n.endswith((".fit", ".__init__", ".set_params")):
            out |= {e.d["name"] for e in r.events if e.kind == "selfread" and e.d["tag"] == "self"}
    return out


def all_functions(P):
    for m in P.mods.values():
        for f in m.funcs.values():
            yield f
        for k in m.classes.values():
            for f in k.methods.values():
                yield f


def first_read(r, f):
    for e in r.events:
        if e.kind == "selfread" and e.d["tag"] == "self" and e.d["name"] == f:
            return e.where()
    return ""
