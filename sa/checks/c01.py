"""C01: no public call modifies an object it was handed."""
from ..terms import *
from ..entry import analyze
from ..roots import roots

SCALAR = {"int", "float", "str", "bool"}
# matplotlib axes are meant to be drawn on
EXEMPT_PARAMS = {"ax", "**kwargs", "**estimator_kwargs"}


def scalar_ann(fn, p):
    import ast
    a = fn.ann.get(p)
    if a is None:
        return False
    s = ast.unparse(a)
    s = s.replace("Optional[", "").replace("]", "").strip()
    return s in SCALAR


def scalar_option(S, cls, k):
    from .c03 import scalar_option as f
    return f(S, cls, k)


def run(S, c):
    c.rule("Rule: at every in-place operation (subscript/attribute store, del, augmented assignment, mutating method, "
           "out=/inplace=, shuffle) reachable from a public call, the may-alias roots of the target contain no "
           "parameter of that call; option objects (lists/arrays held by an estimator) are treated alike.")
    c.assumptions = ["pandas: boolean-mask/list indexing, merge, groupby and .copy() return new objects; column "
                     "selection, .values and np.asarray may share memory", "matplotlib axes passed as ax= are outputs"]
    for n, fn, cls, r in S.all():
        if "inplace" in fn.params:
            r = analyze(S.P, fn, cls, {"inplace": FALSE})
        for e in r.events:
            if e.kind not in ("mutate", "augname", "selfwrite", "setattr_dyn"):
                continue
            if e.kind == "selfwrite":
                if e.d["tag"] == "self" or True:
                    continue
            obj = e.d["obj"]
            c.ob("in-place operations", (e.fn, e.line, e.kind))
            rs = roots(obj)
            bad = []
            for x in rs:
                k, _, p = x.partition(":")
                if k == "p":
                    if p in EXEMPT_PARAMS or p.startswith("self."):
                        if not p.startswith("self."):
                            continue
                    if e.kind == "augname" and scalar_ann(fn, p) and obj.op in ("param", "mu", "ite", "or"):
                        continue
                    bad.append(p)
                elif k == "c":
                    if e.kind == "augname" and (cls is None or scalar_option(S, cls, p)):
                        continue
                    bad.append("self." + p)
            if e.kind == "augname" and bad and not arrayish(obj):
                continue
            for p in bad:
                how = e.d.get("how", "augmented assignment")
                c.find("%s:%s:%s:%s" % (n, p, e.fn, how), "%s(): %s of %s modifies the caller's `%s` (target %s)" % (
                    n, how, e.fn, p, show(obj, 4)), e)
                c.sample("%s mutates %s" % (n, p))
        c.ob("public entry points", n)
    c.sample("e.g. DifferenceInDifferences.fit: every column assignment goes to data.copy()")
    c.floor("in-place operations", 150)
    c.floor("public entry points", 120)


def arrayish(t):
    """Augmented assignment on a name only mutates arrays/frames; values that are elements of arrays or scalars do not."""
    if t.op in ("param",):
        return True
    if t.op == "mu":
        return arrayish(t.init)
    if t.op == "ite":
        return arrayish(t.a[1]) or arrayish(t.a[2])
    if t.op in ("call", "m", "attr"):
        return True
    if t.op == "idx":
        return t.a[1].op in ("slice", "param") or (t.a[1].op == "c" and t.a[1].a[0] == "str")
    return t.op in ("setitem", "mut", "append", "extend")
