"""C17: bootstrap weights come from the distribution asked for, with mean zero and variance one."""
import math
from ..terms import *
from ..alg import args_of

RUNS = [("wild_bootstrap_se", "weight_type", {}), ("DifferenceInDifferences.fit", "bootstrap_weights", {"inference": "wild_bootstrap"}),
        ("TwoWayFixedEffects.fit", "bootstrap_weights", {"inference": "wild_bootstrap"}), ("CallawaySantAnna.fit", "bootstrap_weights", {"bootstrap_weight_type": None})]
NAMES = ("rademacher", "mammen", "webb")


def ev(t):
    """Constant folding."""
    if t.op == "c":
        v = cval(t)
        return float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else None
    if t.op == "un" and t.a[0] in "+-":
        v = ev(t.a[1])
        return None if v is None else -v if t.a[0] == "-" else v
    if t.op == "bin":
        x, y = ev(t.a[1]), ev(t.a[2])
        if x is None or y is None:
            return None
        try:
            return {"+": x + y, "-": x - y, "*": x * y, "/": x / y if y else None, "**": x ** y if x > 0 else None}.get(t.a[0])
        except OverflowError:
            return None
    if t.op == "call" and len(t.a) == 2 and t.a[0] in ("numpy.sqrt", "math.sqrt"):
        v = ev(t.a[1])
        return None if v is None or v < 0 else math.sqrt(v)
    if t.op == "call" and len(t.a) == 2 and t.a[0] in ("builtins.float", "numpy.float64"):
        return ev(t.a[1])
    return None


def table(t):
    while t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray", "builtins.tuple", "builtins.list") and len(t.a) >= 2:
        t = t.a[1]
    if t.op not in ("list", "tuple"):
        return None
    v = [ev(x) for x in t.a]
    return None if any(x is None for x in v) else v


def moments(v, p):
    m = sum(a * b for a, b in zip(v, p))
    return m, sum(a * a * b for a, b in zip(v, p)) - m * m, sum(a ** 3 * b for a, b in zip(v, p))


def near(a, b):
    return abs(a - b) < 1e-9


def draw(t):
    """(values, probabilities, size) of a weight draw."""
    if t.op != "m" or t.a[1] != "choice":
        return None
    pos = [x for x in t.a[2:] if x.op != "kw"]
    kw = {x.a[0]: x.a[1] for x in t.a[2:] if x.op == "kw"}
    for k, x in zip(("a", "size", "replace", "p"), pos):
        kw[k] = x
    if "a" not in kw:
        return None
    v = table(kw["a"])
    if v is None:
        return None
    p = table(kw["p"]) if "p" in kw and kw["p"] is not NONE else [1.0 / len(v)] * len(v)
    return v, p, kw.get("size"), kw.get("replace")


def named(n, v, p):
    """None, or what is wrong with the table for this distribution name."""
    pts = sorted(zip(v, p))
    if n == "rademacher":
        return None if len(v) == 2 and near(pts[0][0], -1) and near(pts[1][0], 1) and near(pts[0][1], .5) else "not -1 and 1 with probability 1/2 each"
    if n == "mammen":
        if len(v) != 2:
            return "not a two-point distribution"
        return None if near(moments(v, p)[2], 1) else "third moment %.4g, not 1" % moments(v, p)[2]
    want = sorted([s * math.sqrt(x) for s in (-1, 1) for x in (.5, 1, 1.5)])
    return None if len(v) == 6 and all(near(a, b) and near(q, 1 / 6) for (a, q), b in zip(pts, want)) else "not the six points +-sqrt(1/2), +-1, +-sqrt(3/2) with equal probability"


PASS = {"numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.copy"}
MOVES = {"numpy." + x for x in ("roll", "sort", "flip", "fliplr", "flipud", "abs", "absolute", "sign", "clip", "round", "around", "rint", "maximum", "minimum",
                               "square", "sqrt", "exp", "cumsum", "tanh", "floor", "ceil", "nan_to_num")} | {"builtins.abs", "builtins.sorted"}
MOVEM = {"sort", "clip", "round", "cumsum", "permutation", "permuted", "shuffle"}


def carriers(terms, ds):
    """Terms that are weight draws, or selections and copies of them."""
    W = set(ds)
    for _ in range(3):
        n = len(W)
        for x in sorted(terms, key=lambda y: y.id):
            if x in W:
                continue
            a = x.a
            if x.op == "ite":
                ok = a[1] in W and a[2] in W or a[1] in W and a[2].op in ("c", "c", "undef") or a[2] in W and a[1].op in ("c", "undef")
            elif x.op in ("idx", "elem", "each"):
                ok = type(a[0]) is T and a[0] in W
            elif x.op == "attr":
                ok = a[0] in W and a[1] == "T"
            elif x.op == "call" and a[0] in PASS and len(a) >= 2:
                ok = a[1] in W
            elif x.op == "m" and a[1] in ("astype", "copy", "reshape", "transpose"):
                ok = a[0] in W
            else:
                ok = False
            if ok:
                W.add(x)
        if len(W) == n:
            break
    return W


def count(t, d=0):
    """A number computed from sizes and constants only."""
    if d > 20:
        return False
    if t.op == "c":
        return True
    if t.op == "call" and t.a[0] in ("builtins.len", "numpy.size") or t.op == "m" and t.a[1] == "nunique":
        return True
    if t.op == "attr" and t.a[1] in ("size", "shape", "ndim"):
        return True
    if t.op == "idx":
        return t.a[0].op == "attr" and t.a[0].a[1] == "shape"
    if t.op in ("bin", "un"):
        return all(count(x, d + 1) for x in t.a if type(x) is T)
    if t.op == "call" and t.a[0] in ("numpy.sqrt", "math.sqrt", "builtins.max", "builtins.min", "builtins.float", "builtins.int"):
        return all(count(x, d + 1) for x in t.a[1:] if type(x) is T)
    if t.op == "ite":
        return count(t.a[1], d + 1) and count(t.a[2], d + 1)
    return False


def changed(x, W):
    """How x alters the weights it is computed from, or None."""
    if x.op == "bin":
        for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
            if a not in W:
                continue
            if x.a[0] in ("+", "-"):
                return "by a shift"
            if x.a[0] in ("**", "%", "//"):
                return "by a power"
            if x.a[0] in ("*", "/") and (count(b) or any(y in W for y in reach(b, control=False))):
                return "by a scale"
    elif x.op == "call" and x.a[0] in MOVES and any(y in W for y in x.a[1:2]):
        return "by %s" % x.a[0]
    elif x.op == "m" and (x.a[0] in W and x.a[1] in MOVEM or x.a[1] in ("permutation", "permuted") and any(y in W for y in x.a[2:])):
        return "by %s" % x.a[1]
    elif x.op == "un" and x.a[0] == "-" and x.a[1] in W:
        return None
    return None


def run(S, c):
    c.rule("Rule: with bootstrap_weights fixed to each documented name, every weight draw that reaches the results takes its values and "
           "probabilities from a literal table whose exact mean is 0 and variance 1 and which is the named distribution; draws are "
           "not rescaled, and there is one per cluster or unit.")
    S = S.python()
    for n, opt, more in RUNS:
        for name in NAMES:
            fixed = dict(more)
            fixed[opt] = name
            fixed = {k: const(v) for k, v in fixed.items()}
            r = S.res(n, fixed=fixed, key="w:" + name) if n == "wild_bootstrap_se" else S.res(n, options=fixed, key="w:" + name)
            if r is None:
                continue
            ds = {}
            terms = reach(r.retterm)
            for x in terms:
                d = draw(x)
                if d is not None:
                    ds[x] = d
            for x, (v, p, size, rep) in ds.items():
                k = "%s:%s" % (n, name)
                c.ob("weight draws", k)
                if p is None:
                    c.undecide("%s: probabilities of %s" % (k, show(x, 4)))
                    continue
                c.sample("%s %s: values %s probabilities %s" % (n, name, ["%.4f" % y for y in v], ["%.4f" % y for y in p]))
                m, var, _ = moments(v, p)
                if not near(sum(p), 1):
                    c.find(k + ":probabilities", "%s with %s weights: probabilities sum to %.6g" % (n, name, sum(p)), where=n, path=show(x, 4))
                elif not near(m, 0) or not near(var, 1):
                    c.find(k + ":moments", "%s with %s weights: mean %.6g, variance %.6g" % (n, name, m, var), where=n, path=show(x, 4))
                else:
                    w = named(name, v, p)
                    if w:
                        c.find(k + ":name", "%s with %s weights draws from %s: %s" % (n, name, ["%.4f" % y for y in v], w), where=n, path=show(x, 4))
                if rep is FALSE:
                    c.find(k + ":replace", "%s with %s weights: weights drawn without replacement" % (n, name), where=n, path=show(x, 4))
                if size is not None and n != "CallawaySantAnna.fit":
                    last = size.a[-1] if size.op == "tuple" else size
                    ok = any(y.op == "call" and y.a[0] in ("numpy.unique", "builtins.set", "pandas.unique") or y.op == "m" and y.a[1] in ("unique", "nunique") for y in reach(last))
                    c.ob("draws per cluster", k)
                    if not ok and (last.op == "call" and last.a[0] == "builtins.len" or last.op in ("idx", "attr")) and last.op != "mu":
                        c.find(k + ":per-cluster", "%s: number of weights is %s, not the number of clusters" % (n, show(last, 3)), where=n, path=show(x, 4))
            W = carriers(terms, ds)
            for x in terms:
                w = changed(x, W)
                if w:
                    c.find("%s:%s:rescaled" % (n, name), "%s with %s weights: the draws are changed %s: %s" % (n, name, w, show(x, 3)), where=n, path=show(x, 4))
            c.ob("terms carrying weights", "%s:%s" % (n, name), len(W))
    c.floor("weight draws", 12)
