"""C23: what a results object shows (exports, tables, summaries, flags) is what it stores."""
import itertools
import math
import re
from ..terms import *
from ..entry import analyze

WRAP = {"builtins.float", "builtins.int", "builtins.bool", "builtins.list", "builtins.str", "builtins.tuple", "builtins.dict",
        "numpy.float64", "numpy.asarray", "numpy.array", "builtins.repr", "numpy.bool_"}
ROUND = {"builtins.round", "numpy.round", "numpy.around"}
PLAIN = ("att", "se", "t_stat", "p_value", "conf_int")
# class: estimate, se, t, p, interval
REC = {"DiDResults": PLAIN, "SyntheticDiDResults": PLAIN, "TripleDifferenceResults": PLAIN, "TROPResults": PLAIN,
       "MultiPeriodDiDResults": tuple("avg_" + x for x in PLAIN),
       "CallawaySantAnnaResults": tuple("overall_" + x for x in PLAIN), "SunAbrahamResults": tuple("overall_" + x for x in PLAIN),
       "PlaceboTestResults": ("placebo_effect",) + PLAIN[1:], "InferenceResult": ("coefficient",) + PLAIN[1:],
       "PeriodEffect": ("effect",) + PLAIN[1:], "GroupTimeEffect": ("effect",) + PLAIN[1:]}
CELL = ("effect",) + PLAIN[1:]


def F(n):
    return mk("param", "self." + n)


def KEY(n):
    return mk("KEY", F(n))


def VAL(n):
    return mk("VAL", F(n))


class Norm:
    """Normal form of reported values: conversions dropped, 'an element of' written by container."""

    def __init__(self, rounding=False):
        self.memo = {}
        self.rounding = rounding

    def cont(self, t):
        """(container, what an element is: 'key', 'val', 'item', 'seq')."""
        t = self(t)
        if t.op == "call" and t.a[0] in ("builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed", "builtins.iter") and len(t.a) > 1:
            return self.cont(t.a[1])
        if t.op == "m" and t.a[1] in ("items", "keys", "values"):
            return t.a[0], {"items": "item", "keys": "key", "values": "val"}[t.a[1]]
        if t.op == "idx" and type(t.a[1]) is T and t.a[1].op == "slice":
            return self.cont(t.a[0])
        return t, "key"

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.go(t)
        return r

    def go(self, t):
        o = t.op
        if o == "fmt":
            return self(t.a[0])
        if o == "fstr" and len(t.a) == 1:
            return self(t.a[0])
        if o == "call" and len(t.a) == 2 and type(t.a[1]) is T:
            if t.a[0] in WRAP:
                return self(t.a[1])
        if o == "call" and self.rounding and t.a[0] in ROUND:
            return self(t.a[1])
        if o == "m" and t.a[1] in ("tolist", "item", "copy") and len(t.a) == 2:
            return self(t.a[0])
        if o == "elem":
            c, what = self.cont(t.a[0])
            k, v = mk("KEY", c), mk("VAL", c)
            return mk("tuple", k, v) if what == "item" else v if what == "val" else k
        if o in ("idx", "m") and type(t.a[0]) is T:
            if o == "m":
                if t.a[1] != "get" or len(t.a) < 3 or type(t.a[2]) is not T:
                    return self.kids(t)
                b, k = self(t.a[0]), self(t.a[2])
            else:
                b, k = self(t.a[0]), self(t.a[1]) if type(t.a[1]) is T else None
            if k is None:
                return self.kids(t)
            if b.op == "tuple" and is_const(k) and isinstance(cval(k), int) and -len(b.a) <= cval(k) < len(b.a):
                return b.a[cval(k)]
            if k.op == "KEY" and k.a[0] is b:
                return mk("VAL", b)
            if k.op == "pos":
                c, what = self.cont(k.a[0])
                if c is b:
                    return mk("KEY", b)
                k = mk("POS", c)
            return mk("idx", b, k)
        if o == "attr":
            b = self(t.a[0])
            return mk("idx", b, const(t.a[1])) if b.op != "param" else mk("attr", b, t.a[1])
        if o == "ite":
            a, b = self(t.a[1]), self(t.a[2])
            if a is b:
                return a
            c = t.a[0]
            # None stays None, whatever conversion is applied otherwise
            if c.op == "is" and NONE in c.a:
                x = self(c.a[0] if c.a[1] is NONE else c.a[1])
                if x is b and a is NONE:
                    return b
            if c.op == "not" and c.a[0].op == "is" and NONE in c.a[0].a:
                x = self(c.a[0].a[0] if c.a[0].a[1] is NONE else c.a[0].a[1])
                if x is a and b is NONE:
                    return a
        return self.kids(t)

    def kids(self, t):
        if not any(type(x) is T for x in t.a) or t.op == "mu":
            return t
        a = [self(x) if type(x) is T else x for x in t.a]
        return t if all(x is y for x, y in zip(a, t.a)) else mk(t.op, *a)


def fieldlike(t):
    """Is t one stored number: a field, a member of a field, an element's field?"""
    if t.op in ("param", "KEY", "VAL", "POS"):
        return True
    if t.op == "idx":
        return fieldlike(t.a[0]) and (is_const(t.a[1]) or fieldlike(t.a[1]))
    return False


def arith(t):
    """Built from stored numbers and constants by arithmetic alone."""
    if fieldlike(t) or is_const(t):
        return True
    if t.op in ("bin", "un"):
        return all(arith(x) for x in t.a if type(x) is T)
    if t.op == "call" and t.a[0] in ROUND | {"builtins.abs", "numpy.abs"}:
        return arith(t.a[1])
    return False


def poly(t):
    from fractions import Fraction
    from ..alg import Poly
    if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
        return Poly.const(Fraction(cval(t)))
    if t.op == "bin" and t.a[0] in ("+", "-", "*"):
        a, b = poly(t.a[1]), poly(t.a[2])
        return a + b if t.a[0] == "+" else a - b if t.a[0] == "-" else a * b
    if t.op == "un" and t.a[0] == "-":
        return -poly(t.a[1])
    return Poly.atom(t.id)


def leaves(t, out=None):
    out = set() if out is None else out
    if fieldlike(t):
        out.add(t)
        while t.op == "idx":
            t = t.a[0]
            out.add(t)
        return out
    for x in t.a:
        if type(x) is T:
            leaves(x, out)
    return out


def verdict(v, want):
    """'ok', 'bad' or 'open' for a shown value against the stored values it may be."""
    for w in want:
        if v is w or poly(v) == poly(w):
            return "ok"
    if v.op == "ite":
        # shown on one path or the other; a placeholder for something missing is not judged
        rs = {verdict(strip_or(x), want) if not is_const(x) else "open" for x in v.a[1:]}
        return "bad" if "bad" in rs else "open" if "open" in rs else "ok"
    if arith(v):
        return "bad"
    need = set()
    for w in want:
        need |= leaves(w)
    if need and v.op != "mu" and not any(x.op in ("mu", "call", "icall") and x.op != "call" for x in reach([v])) and not (leaves(v) & need):
        return "bad"
    return "open"


# ---- flags -----------------------------------------------------------------------------------------

class Open(Exception):
    pass


def ev(t, env, nm=None):
    """Value of a term once the stored numbers are placed in one order (a finite partition decides piecewise-constant terms)."""
    if t.id in env:
        return env[t.id]
    o, a = t.op, t.a
    if o == "c":
        return cval(t)
    if o == "ite":
        return ev(a[1] if ev(a[0], env, nm) else a[2], env, nm)
    if o == "not":
        return not ev(a[0], env, nm)
    if o == "and":
        r = True
        for x in a:
            r = ev(x, env, nm)
            if not r:
                return r
        return r
    if o == "or":
        r = False
        for x in a:
            r = ev(x, env, nm)
            if r:
                return r
        return r
    if o in ("lt", "le", "eq"):
        x, y = ev(a[0], env, nm), ev(a[1], env, nm)
        try:
            return x < y if o == "lt" else x <= y if o == "le" else x == y
        except TypeError:
            raise Open
    if o == "is":
        return ev(a[0], env, nm) is ev(a[1], env, nm)
    if o == "bin" and a[0] in ("+", "-", "*"):
        x, y = ev(a[1], env, nm), ev(a[2], env, nm)
        return x + y if a[0] == "+" else x - y if a[0] == "-" else x * y
    if o == "un" and a[0] == "-":
        return -ev(a[1], env, nm)
    if o == "call" and len(a) == 2:
        if a[0] in ("numpy.isnan", "math.isnan", "pandas.isna", "pandas.isnull"):
            return math.isnan(ev(a[1], env, nm))
        if a[0] in ("numpy.isfinite", "math.isfinite"):
            return math.isfinite(ev(a[1], env, nm))
        if a[0] == "pandas.notna":
            return not math.isnan(ev(a[1], env, nm))
        if a[0] in WRAP:
            x = ev(a[1], env, nm)
            return bool(x) if a[0] == "builtins.bool" else x
        if a[0] in ("builtins.abs", "numpy.abs"):
            return abs(ev(a[1], env, nm))
    if o == "call" and a[0] in ("builtins.min", "builtins.max") and len(a) == 3:
        return (min if a[0] == "builtins.min" else max)(ev(a[1], env, nm), ev(a[2], env, nm))
    if nm is not None:
        n = nm(t)
        if n is not t:
            return ev(n, env, None)
    raise Open


def points(ts):
    """Every constant in the terms, and one number in each gap between them."""
    cs = sorted({float(cval(x)) for t in ts for x in reach([t]) if is_const(x) and isinstance(cval(x), (int, float))
                 and not isinstance(cval(x), bool)} | {0.001, 0.01, 0.05, 0.1})
    cs = [x for x in cs if 0 <= x <= 1]
    mids = [(x + y) / 2 for x, y in zip(cs, cs[1:])]
    return sorted(set(cs + mids + [cs[0] / 2, (cs[-1] + 1) / 2, 0.0, 1.0]))


def stars(p):
    if math.isnan(p):
        return ("",)
    for c, s in ((0.001, "***"), (0.01, "**"), (0.05, "*"), (0.1, ".")):
        if p < c:
            return (s,)
    return ("",)


def check_stars(c, key, t, p, where, kind="stars"):
    """t, as a function of the p-value term p, is the documented star code."""
    nm = Norm()
    t = nm(t)
    if p.id not in {x.id for x in reach([t])} | {t.id}:
        if leaves(t) and not any(x.op == "mu" for x in reach([t])):
            c.find(key, "the significance stars are not read off %s" % show(p), where=where)
        else:
            c.undecide(where + ": stars")
        return
    c.ob(kind, key)
    try:
        for x in points([t]) + [float("nan")]:
            got = ev(t, {p.id: x}, nm)
            if got not in stars(x):
                c.find(key, "the stars at p = %r are %r, documented %r" % (x, got, stars(x)[0]), where=where)
                return
    except Open:
        c.undecide(where + ": stars not read")


def check_sig(c, key, t, p, alphas, where):
    nm = Norm()
    t = nm(t)
    ids = {x.id for x in reach([t])} | {t.id}
    try:
        for al in (0.03, 0.05, 0.2):
            env = {}
            for a in alphas:
                env[a.id] = al
            lev = al if alphas else 0.05
            for x in (lev / 2, lev, (lev + 1) / 2, float("nan"), 0.04, 0.06):
                got = ev(t, {**env, p.id: x}, nm)
                want = x < lev
                if bool(got) != want:
                    c.find(key, "is_significant at p = %r and alpha = %r is %r" % (x, lev, got), where=where)
                    return
        c.ob("significance flag", key)
    except Open:
        if p.id not in ids and leaves(t):
            c.find(key, "is_significant is not decided by %s" % show(p), where=where)
        else:
            c.undecide(where + ": significance flag not read")


# ---- dictionaries and rows -------------------------------------------------------------------------

def pairs(t, seen=None, opt=False):
    """(key, value, optional?) of every entry of a dictionary being built."""
    seen = {} if seen is None else seen
    k0 = (t.id, opt)
    if k0 in seen:
        return
    seen[k0] = 1
    if t.op == "dict":
        for x in t.a:
            if x.op == "kv" and is_str(x.a[0]):
                yield cval(x.a[0]), x.a[1], opt
            elif x.op == "star":
                yield from pairs(x.a[0], seen, opt)
    elif t.op == "setitem":
        yield from pairs(t.a[0], seen, opt)
        if is_str(t.a[1]):
            yield cval(t.a[1]), t.a[2], opt
    elif t.op == "ite":
        yield from pairs(t.a[1], seen, opt)
        yield from pairs(t.a[2], seen, opt)
    elif t.op == "mu":
        yield from pairs(t.init, seen, opt)
        if type(t.next) is T:
            yield from pairs(t.next, seen, True)
    elif t.op == "call" and t.a[0] == "builtins.dict":
        for x in t.a[1:]:
            if type(x) is T and x.op == "kw":
                yield x.a[0], x.a[1], opt
            elif type(x) is T:
                yield from pairs(x, seen, opt)


def keysof(t, memo=None):
    """Keys present on every path."""
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    memo[t.id] = None
    r = set()
    if t.op == "dict" or t.op == "call" and t.a[0] == "builtins.dict":
        for x in t.a:
            if type(x) is T and x.op not in ("kv", "kw"):
                b = keysof(x.a[0] if x.op == "star" else x, memo)
                if b is None:
                    return None
                r |= b
        for k, v, o in pairs(t):
            r.add(k)
    elif t.op == "setitem":
        b = keysof(t.a[0], memo)
        r = None if b is None else b | ({cval(t.a[1])} if is_str(t.a[1]) else set())
    elif t.op == "ite":
        x, y = keysof(t.a[1], memo), keysof(t.a[2], memo)
        r = None if x is None or y is None else x & y
    elif t.op == "mu":
        r = keysof(t.init, memo)
    else:
        r = None
    memo[t.id] = r
    return r


ENDS = (("_lower", 0), ("_upper", 1), ("_lb", 0), ("_ub", 1))


def member(names, get, k):
    """The stored value an export key names, as get(field)[i]; None when the key names no stored field."""
    if k in names:
        return [get(k)]
    for e, i in ENDS:
        if k.endswith(e):
            for st in (k[:-len(e)], k[:-len(e)].replace("ci", "conf_int"), k[:-len(e)] + "_int"):
                if st in names:
                    return [mk("idx", get(st), const(i))]
    return None


def subs(names, get):
    out = {}
    return out


# class.method: (container, item names -> path of the key or the value)
ROWS = {
    "MultiPeriodDiDResults.to_dataframe": [("period_effects", {"period": "k"}, CELL)],
    "CallawaySantAnnaResults.to_dataframe": [("group_time_effects", {"group": "k0", "time": "k1"}, CELL),
                                             ("event_study_effects", {"relative_period": "k"}, CELL), ("group_effects", {"group": "k"}, CELL)],
    "SunAbrahamResults.to_dataframe": [("event_study_effects", {"relative_period": "k"}, CELL),
                                       ("cohort_effects", {"cohort": "k0", "relative_period": "k1"}, ("effect", "se", "weight"))],
    "BaconDecompositionResults.to_dataframe": [("comparisons", {"time_start": "w0", "time_end": "w1"},
                                                ("treated_group", "control_group", "comparison_type", "estimate", "weight", "n_treated", "n_control"))],
    "SyntheticDiDResults.get_unit_weights_df": [("unit_weights", {"unit": "k", "weight": "v"}, ())],
    "SyntheticDiDResults.get_time_weights_df": [("time_weights", {"period": "k", "weight": "v"}, ())],
    "TROPResults.get_treatment_effects_df": [("treatment_effects", {"unit": "k0", "time": "k1", "effect": "v"}, ())],
    "TROPResults.get_unit_effects_df": [("unit_effects", {"unit": "k", "effect": "v"}, ())],
    "TROPResults.get_time_effects_df": [("time_effects", {"time": "k", "effect": "v"}, ())],
    "SensitivityResults.to_dataframe": [("M_values", {"M": "k", "lb": "bounds0", "ub": "bounds1", "ci_lb": "robust_cis0", "ci_ub": "robust_cis1"}, ())],
}
# whole-column frames and plain dictionaries: key -> stored field
COLS = {
    "SimulationPowerResults.power_curve_df": {"effect_size": "effect_sizes", "power": "powers"},
    "PreTrendsPowerCurve.to_dataframe": {"M": "M_values", "power": "powers"},
    "BaconDecompositionResults.weight_by_type": {k: "total_weight_" + k for k in ("treated_vs_never", "earlier_vs_later", "later_vs_earlier")},
    "BaconDecompositionResults.effect_by_type": {k: "weighted_avg_" + k for k in ("treated_vs_never", "earlier_vs_later", "later_vs_earlier")},
}


def rowsof(t, seen=None, cond=False):
    """(row dictionary, is it under a condition?) of every row put into a list of rows."""
    seen = set() if seen is None else seen
    if (t.id, cond) in seen:
        return
    seen.add((t.id, cond))
    o = t.op
    if o == "mu":
        yield from rowsof(t.init, seen, cond)
        if type(t.next) is T:
            n = t.next
            # an iteration that adds nothing leaves rows out
            yield from rowsof(n, seen, cond or bare(n, t))
    elif o == "append":
        yield from rowsof(t.a[0], seen, cond)
        yield t.a[1], cond
    elif o == "list":
        for x in t.a:
            yield x, cond
    elif o == "comp":
        cs = [x for x in t.a if type(x) is T and x.op == "conds"]
        yield t.a[1], cond or any(x.a for x in cs)
    elif o == "extend":
        yield from rowsof(t.a[0], seen, cond)
        yield from rowsof(t.a[1], seen, cond)
    elif o == "ite":
        yield from rowsof(t.a[1], seen, cond)
        yield from rowsof(t.a[2], seen, cond)
    elif o == "m" and t.a[1] in ("sort_values", "reset_index", "copy", "sort_index"):
        yield from rowsof(t.a[0], seen, cond)
    elif o == "call" and t.a[0].endswith("DataFrame"):
        yield from rowsof(t.a[1], seen, cond)


def bare(n, mu):
    """Does some way through the loop body leave the list as it was?"""
    if n is mu:
        return True
    if n.op == "ite":
        return bare(n.a[1], mu) or bare(n.a[2], mu)
    return False


def mispaired(vs):
    """Elements of one container taken side by side from two differently ordered walks of it."""
    got = {}
    seen = set()
    todo = list(vs)
    while todo:
        t = todo.pop()
        if type(t) is not T or t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "elem":
            s, order, what = t.a[0], "", ""
            while True:
                if s.op == "call" and s.a[0] in ("builtins.sorted", "builtins.reversed") and len(s.a) > 1:
                    order = (order, s.a[0], tuple(x.id if type(x) is T else x for x in s.a[2:]))
                elif s.op == "call" and s.a[0] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(s.a) > 1:
                    pass
                elif s.op == "m" and s.a[1] in ("items", "keys", "values"):
                    what = s.a[1]
                    s = s.a[0]
                    break
                else:
                    break
                s = s.a[1]
            if order and what != "items":
                order = (order, "values" if what == "values" else "keys")
            elif order:
                order = (order, "keys")      # items sort by key first
            got.setdefault(s.id, {}).setdefault(order, t)
            continue
        todo += [x for x in t.a if type(x) is T]
    for d in got.values():
        ts = list(d.values())
        for x in ts[1:]:
            yield ts[0], x


def path(spec, cname):
    K, V = KEY(cname), VAL(cname)
    if spec == "k":
        return K
    if spec in ("k0", "k1"):
        return mk("idx", K, const(int(spec[1])))
    if spec == "v":
        return V
    if spec in ("w0", "w1"):
        return mk("idx", mk("idx", K, const("time_window")), const(int(spec[1])))
    return mk("idx", mk("idx", F(spec[:-1]), mk("POS", F(cname))), const(int(spec[-1])))


def paths(spec, cname):
    out = [path(spec, cname)]
    if spec[:-1] in ("bounds", "robust_cis"):
        out.append(mk("idx", KEY(spec[:-1]), const(int(spec[-1]))))     # walked side by side
    return out


# ---- labelled text ---------------------------------------------------------------------------------

def lines(t, seen):
    if type(t) is not T or t.id in seen:
        return
    seen.add(t.id)
    o = t.op
    if o == "m" and t.a[1] == "join":
        yield from lines(t.a[2], seen)
    elif o in ("list", "tuple"):
        for x in t.a:
            yield from line(x)
    elif o == "append":
        yield from lines(t.a[0], seen)
        yield from line(t.a[1])
    elif o == "extend":
        yield from lines(t.a[0], seen)
        yield from lines(t.a[1], seen)
    elif o == "ite":
        yield from lines(t.a[1], seen)
        yield from lines(t.a[2], seen)
    elif o == "mu":
        yield from lines(t.init, seen)
        yield from lines(t.next, seen)
    elif o == "comp":
        yield from line(t.a[1])
    elif o == "bin" and t.a[0] == "+":
        yield from lines(t.a[1], seen)
        yield from lines(t.a[2], seen)
    elif o == "setitem":
        yield from lines(t.a[0], seen)
        yield from line(t.a[2])
    elif o in ("fstr", "c", "fmt"):
        yield t


def line(x):
    if x.op == "ite":
        yield from line(x.a[1])
        yield from line(x.a[2])
    else:
        yield x


def parts(x):
    if x.op == "fstr":
        return [q for p in x.a for q in parts(p)]
    if x.op == "fmt":
        return parts(x.a[0])
    if x.op == "m" and x.a[1] in ("center", "ljust", "rjust", "rstrip", "strip"):
        return parts(x.a[0])
    if x.op == "bin" and x.a[0] == "+" and any(p.op in ("fstr", "c") for p in x.a[1:]):
        return parts(x.a[1]) + parts(x.a[2])
    if x.op == "c":
        return [str(cval(x))]
    return [x]


def split(ps):
    """Parts of a text, line by line."""
    cur = []
    for p in ps:
        if isinstance(p, str) and "\n" in p:
            head, *rest = p.split("\n")
            yield cur + ([head] if head else [])
            for x in rest[:-1]:
                yield [x]
            cur = [rest[-1]] if rest[-1] else []
        else:
            cur.append(p)
    if cur:
        yield cur


def ln(n):
    return mk("call", "builtins.len", F(n))


# label: names of stored values it may stand for ("#x" is the number of elements of x)
VOCAB = {
    "observations": ("n_obs",), "total observations": ("n_obs",),
    "treated units": ("n_treated", "n_treated_units"), "control units": ("n_control", "n_control_units"),
    "treated observations": ("n_treated_obs", "n_treated"), "control observations": ("n_control",),
    "r-squared": ("r_squared",), "inference method": ("inference_method",), "bootstrap replications": ("n_bootstrap",),
    "number of clusters": ("n_clusters",), "pre-treatment periods": ("#pre_periods", "n_pre_periods", "n_pre"),
    "post-treatment periods": ("#post_periods", "n_post_periods", "n_post"), "treatment cohorts": ("#groups",),
    "time periods": ("#time_periods",), "control group": ("control_group",), "base period": ("base_period",),
    "estimation method": ("estimation_method",), "treated group, eligible": ("n_treated_eligible",),
    "treated group, ineligible": ("n_treated_ineligible",), "control group, eligible": ("n_control_eligible",),
    "control group, ineligible": ("n_control_ineligible",), "lambda (time decay)": ("lambda_time",),
    "lambda (unit distance)": ("lambda_unit",), "lambda (nuclear norm)": ("lambda_nn",), "effective rank": ("effective_rank",),
    "loocv score": ("loocv_score",), "variance method": ("variance_method",), "regularization (lambda)": ("lambda_reg",),
    "pre-treatment fit (rmse)": ("pre_treatment_fit",), "treatment timing groups": ("n_timing_groups",),
    "never-treated units": ("n_never_treated",), "total 2x2 comparisons": ("#comparisons",), "twfe estimate": ("twfe_estimate",),
    "decomposition error": ("decomposition_error",), "bootstrap se": ("se",), "bootstrap p-value": ("p_value",),
    "original t-stat": ("t_stat_original",), "bootstrap reps": ("n_bootstrap",), "weight type": ("weight_type",),
    "placebo test results": ("test_type",), "placebo effect": ("placebo_effect",), "standard error": ("power_se", "se", "original_se"),
    "t-statistic": ("t_stat",), "p-value": ("p_value",), "original att": ("original_effect",), "original se": ("original_se",),
    "number of permutations": ("n_permutations",), "fake treatment period": ("fake_period",),
    "units analyzed": ("#leave_one_out_effects",), "restriction parameter (m)": ("M",), "ci method": ("ci_method",),
    "point estimate": ("original_estimate",), "original estimate": ("original_estimate",), "m values tested": ("#M_values",),
    "breakdown value": ("breakdown_M",), "design": ("design",), "significance level (alpha)": ("alpha",),
    "alternative hypothesis": ("alternative",), "residual sd (sigma)": ("sigma",), "intra-cluster correlation": ("rho",),
    "effect size": ("effect_size",), "power": ("power",), "minimum detectable effect": ("mde",), "required sample size": ("required_n",),
    "estimator": ("estimator_name",), "number of simulations": ("n_simulations",), "true treatment effect": ("true_effect",),
    "power (rejection rate)": ("power", "rejection_rate"), "mean estimate": ("mean_estimate",), "bias": ("bias",),
    "std. deviation of estimates": ("std_estimate",), "rmse": ("rmse",), "mean standard error": ("mean_se",),
    "coverage (ci contains true)": ("coverage",), "number of pre-periods": ("n_pre_periods",), "target power": ("target_power",),
    "violation type": ("violation_type",), "violation magnitude (m)": ("violation_magnitude",),
    "power to detect this violation": ("power",), "minimum detectable violation": ("mdv",), "minimum detectable violation (mdv)": ("mdv",),
    "test statistic (expected)": ("test_statistic",), "critical value": ("critical_value",), "non-centrality parameter": ("noncentrality",),
    "result is robust to violations up to m": ("breakdown_M",), "method": ("method",),
}
LOO = {"mean effect": "numpy.mean", "std. dev.": "numpy.std", "min effect": "numpy.min", "max effect": "numpy.max"}
REPR = {"mdv": ("mdv",), "mde": ("mde",), "power": ("power",), "required_n": ("required_n",), "m": ("M", "violation_magnitude"),
        "mbar": ("Mbar",), "n_simulations": ("n_simulations",), "eff_rank": ("effective_rank",), "twfe": ("twfe_estimate",),
        "n_comparisons": ("#comparisons",), "n_groups": ("#groups", "n_timing_groups"), "n_periods": ("#time_periods",),
        "n_rel_periods": ("#event_study_effects",), "n_post_periods": ("#post_periods",), "n_points": ("#M_values",), "n_m": ("#M_values",),
        "method": ("estimation_method", "method"), "period": ("period",), "weight": ("weight",), "type": ("comparison_type",),
        "effect": ("effect",), "breakdown_m": ("breakdown_M",), "time": ("time",), "group": ("group",)}
PAIRS = {"identified set": ("lb", "ub"), "bounds": ("lb", "ub"), "robust ci": ("ci_lb", "ci_ub"), "ci": ("ci_lb", "ci_ub")}
HEAD = {"estimate": 0, "std. err.": 1, "t-stat": 2, "p>|t|": 3}


def label(s):
    s = s.strip().strip("([{,").strip()
    return s.rstrip(":=").strip().lower()


def strip_or(t):
    """x or 0 (a missing average counts as nothing)."""
    if t.op == "or" and len(t.a) == 2 and is_const(t.a[1]) and cval(t.a[1]) in (0, 0.0):
        return t.a[0]
    if t.op == "bin":
        return mk("bin", *[strip_or(x) if type(x) is T else x for x in t.a])
    if t.op == "ite" and is_const(t.a[2]) and cval(t.a[2]) in (0, 0.0) and t.a[0].op in ("not", "param"):
        return strip_or(t.a[1])
    return t


class Text:
    """Checks the lines of one summary / repr of a class."""

    def __init__(self, c, S, cls, n, t):
        self.c, self.cls, self.n = c, cls, n
        self.names = set(f[0] for f, _ in S.P.dcfields(cls))
        self.rec = REC.get(cls.name)
        self.nm = Norm(rounding=True)
        self.head = None

    def want(self, names):
        out = []
        for x in names:
            if x.startswith("#"):
                if x[1:] in self.names:
                    out.append(ln(x[1:]))
            elif x in self.names:
                out.append(F(x))
                break
        return out

    def value(self, lab, v, want):
        key = "text:%s:%s" % (self.n, lab)
        r = verdict(strip_or(self.nm(v)), want)
        if r == "ok":
            self.c.ob("labelled value", (self.n, lab))
            self.c.sample("%s: '%s' shows %s" % (self.n, lab, show(want[0])))
        elif r == "bad":
            self.c.find(key, "%s shows %s as '%s', stored in %s" % (self.n, show(self.nm(v))[:120], lab, show(want[0])), where=self.n)
        else:
            self.c.undecide("%s: '%s'" % (self.n, lab))

    def pair(self, lab, vs, want):
        for i, v in enumerate(vs):
            self.value("%s[%d]" % (lab, i), v, [want[i]])

    def interval(self):
        if self.rec and self.rec[4] in self.names:
            return [mk("idx", F(self.rec[4]), const(0)), mk("idx", F(self.rec[4]), const(1))]
        for a, b in (("ci_lb", "ci_ub"), ("ci_lower", "ci_upper")):
            if a in self.names:
                return [F(a), F(b)]
        if "power_ci" in self.names:
            return [mk("idx", F("power_ci"), const(0)), mk("idx", F("power_ci"), const(1))]
        return None

    def level(self, v):
        """The confidence level printed beside an interval."""
        t = v
        while t.op in ("call", "fmt") and (t.op == "fmt" or t.a[0] in WRAP | ROUND):
            t = t.a[0] if t.op == "fmt" else t.a[1]
        a = F("alpha")
        good = poly(mk("bin", "*", mk("bin", "-", const(1), a), const(100)))
        key = "level:" + self.n
        fs = [x for x in reach([t]) if x.op == "param"]
        if a not in fs:
            if fs:
                self.c.find(key, "%s prints a confidence level that is not read off the alpha of the interval" % self.n, where=self.n)
            return
        if poly(t) == good:
            self.c.ob("level of the interval", self.n)
            return
        other = [x for x in fs if x is not a]
        if other:
            got = simp(subst(t, {x: NONE for x in other}))
            asked = [x for x in reach([t]) if poly(mk("bin", "*", mk("bin", "-", const(1), x), const(100))) == poly(t)]
            if poly(got) != good or not asked:
                if arith(got):
                    self.c.find("level-form:" + self.n, "%s prints %s as the level of an interval of level 1 - alpha" % (self.n, show(got)[:80]), where=self.n)
                else:
                    self.c.undecide(self.n + ": level")
                return
            self.c.find(key, "%s prints the level of the caller's `%s` beside the interval stored for alpha" % (self.n, other[0].a[0]), where=self.n)
        elif arith(t):
            self.c.find(key, "%s prints %s as the level of an interval of level 1 - alpha" % (self.n, show(t)[:80]), where=self.n)

    def threshold(self, ps):
        """'(p < x)' in words: x is the level the verdict was taken at."""
        for j, p in enumerate(ps):
            if not isinstance(p, str):
                continue
            m = re.search(r"p\s*(<|>=|>|<=)\s*([0-9.]+[0-9])?\s*(\)|$)", p)
            if not m or "alpha" not in self.names:
                continue
            if m.group(2):
                self.c.find("threshold:%s" % self.n, "%s names the level %s, whatever alpha the verdict was taken at" % (self.n, m.group(2)), where=self.n)
            elif m.group(0).endswith(("<", "=", ">")) or not m.group(3):
                if j + 1 < len(ps) and not isinstance(ps[j + 1], str):
                    self.value("level in words", ps[j + 1], [F("alpha")])

    def row(self, cells):
        """A table row under a header that names its columns."""
        head = self.head
        vals = [x for x in cells if not isinstance(x, str)]
        nv = [self.nm(v) for v in vals]
        rec = None
        first = nv[0] if not isinstance(cells[0], str) else None
        if isinstance(cells[0], str):
            if not self.rec:
                return False
            rec = [F(x) for x in self.rec]
            lab = cells[0].strip()
        else:
            # one row per element: the container the shown key belongs to
            k = next((x for x in reach([first]) if x.op == "KEY"), None)
            if k is None:
                return False
            lab = "each " + show(k.a[0])
            V = [mk("VAL", k.a[0])]
            if "period_effects" in self.names and k.a[0] is F("post_periods"):
                V = [mk("idx", F("period_effects"), k)]
            rec = [mk("idx", V[0], const(x)) for x in CELL]
            if first is not k and not (first.op == "idx" and first.a[0] is k):
                self.c.undecide("%s: first column" % self.n)
        cols = [x.strip().lower() for x in head]
        if len(cols) != len(cells):
            return False
        done = False
        for h, v in zip(cols, cells):
            if h in HEAD and not isinstance(v, str):
                self.value("%s/%s" % (lab, h), v, [rec[HEAD[h]]])
                done = True
            elif h in ("", "sig.") and not isinstance(v, str):
                check_stars(self.c, "stars:%s:%s" % (self.n, lab), v, rec[3], self.n, "stars in tables")
        return done

    def run(self, t, repr_=False):
        for ps in (q for l in (line(t) if repr_ else lines(t, set())) for q in split(parts(l))):
            vals = [p for p in ps if not isinstance(p, str)]
            cells = [p for p in ps if not isinstance(p, str) or p.strip() or p == ""]
            toks = [p.strip().lower() for p in cells if isinstance(p, str)]
            if not vals:
                self.threshold(ps)
                flat = " ".join(toks)
                if "estimate" in toks and "std. err." in toks:
                    self.head = [p for p in ps if not (isinstance(p, str) and p and not p.strip())]
                elif "weight" in toks and "contribution" in toks:
                    self.head = toks
                elif "lower bound" in flat and "upper bound" in flat:
                    self.head = toks
                continue
            if repr_:
                self.repr_line(ps)
                continue
            txt = "".join(p if isinstance(p, str) else "\0" for p in ps)
            self.threshold(ps)
            if "%" in txt and "\0" in txt and ("CI" in txt or "onfidence" in txt):
                i = next((j for j, p in enumerate(ps) if not isinstance(p, str)), None)
                nxt = ps[i + 1] if i + 1 < len(ps) else ""
                if isinstance(nxt, str) and nxt.startswith("%"):
                    self.level(ps[i])
                    vals = vals[1:]
                w = self.interval()
                if w and len(vals) == 2:
                    self.pair("interval", vals, w)
                continue
            if self.head is not None and len(vals) >= 3:
                row = [p for p in ps if not (isinstance(p, str) and p and not p.strip())]
                row = [p for p in row if p != ""] if "" not in self.head else row
                if "contribution" in self.head:
                    self.bacon(row)
                    continue
                if "lower bound" in self.head and len(vals) == 5 and "M_values" in self.names:
                    for lab, v, w in zip(("m", "lower bound", "upper bound", "ci lower", "ci upper"), vals,
                                         [[KEY("M_values")]] + [paths(f + str(i), "M_values") for f in ("bounds", "robust_cis") for i in (0, 1)]):
                        self.value("row/" + lab, v, w)
                    continue
                if self.row(row):
                    continue
            if len(vals) == 2 and "[" in txt:
                lab = label(txt.split("[")[0].split("\0")[0])
                w = PAIRS.get(lab)
                if w and w[0] in self.names:
                    self.pair(lab, vals, [F(x) for x in w])
                continue
            if len(vals) == 1 and isinstance(ps[0], str):
                lab = label("".join(p for p in ps[:ps.index(vals[0])]))
                names = VOCAB.get(lab)
                w = self.want(names) if names else []
                if lab in LOO and "leave_one_out_effects" in self.names:
                    v = self.nm(vals[0])
                    if v.op == "call" and v.a[0] in LOO.values() and F("leave_one_out_effects") in reach([v]):
                        if v.a[0] == LOO[lab]:
                            self.c.ob("labelled value", (self.n, lab))
                        else:
                            self.c.find("text:%s:%s" % (self.n, lab), "%s shows %s as '%s'" % (self.n, show(v)[:100], lab), where=self.n)
                    else:
                        self.c.undecide("%s: '%s'" % (self.n, lab))
                elif w:
                    self.value(lab, vals[0], w)
                elif lab == "weighted sum of 2x2 estimates" or lab == "total units":
                    self.c.ob("labelled value", (self.n, lab))
                elif lab not in ("", "(") and len(lab) < 40:
                    self.c.undecide("%s: '%s'" % (self.n, lab))

    def bacon(self, row):
        kinds = {"treated vs never-treated": "treated_vs_never", "earlier vs later treated": "earlier_vs_later",
                 "later vs earlier (forbidden)": "later_vs_earlier"}
        k = kinds.get(label(row[0])) if isinstance(row[0], str) else None
        vals = [x for x in row if not isinstance(x, str)]
        if k is None or len(vals) != 3:
            return
        w, e = F("total_weight_" + k), F("weighted_avg_" + k)
        for lab, v, x in zip(("weight", "avg effect", "contribution"), vals, (w, e, mk("bin", "*", w, e))):
            self.value("%s/%s" % (k, lab), v, [x])

    def repr_line(self, ps):
        lab = ""
        prev = None
        for j, p in enumerate(ps):
            if isinstance(p, str):
                lab = p.replace("(", ",").split(",")[-1] if p.strip() not in (", ",) else p
                bracket = p.rstrip().endswith("[")
                continue
            l = label(lab.rstrip("["))
            before = ps[j - 1] if j else None
            if not isinstance(before, str):
                # directly after the estimate: its stars
                if self.rec:
                    check_stars(self.c, "stars:" + self.n, p, F(self.rec[3]), self.n, "stars in tables")
                continue
            if before.rstrip().endswith("["):
                nxt = [q for q in ps[j + 1:] if not isinstance(q, str)]
                w = PAIRS.get(l)
                if w and w[0] in self.names and nxt:
                    self.pair(l, [p, nxt[0]], [F(x) for x in w])
                continue
            w = []
            if l in ("att", "avg_att") and self.rec:
                w = [F(self.rec[0])]
            elif l == "se" and self.rec:
                w = [F(self.rec[1])]
            elif l == "p" and self.rec:
                w = [F(self.rec[3])]
            elif l in REPR:
                w = self.want(REPR[l])
            if w:
                self.value("repr " + l, p, w)


# ---- conclusions drawn in words ----------------------------------------------------------------------

def shown(t, env, nm, out, seen, maybe=None):
    """Constant texts shown in the world `env`, following decided conditions; those behind an undecided one go to `maybe`."""
    if type(t) is not T or t.id in seen:
        return
    seen.add(t.id)
    if t.op == "ite":
        try:
            x = ev(t.a[0], env, nm)
        except Open:
            mo, ms = ([], set()) if maybe is None else maybe
            shown(t.a[1], env, nm, mo, ms, (mo, ms))
            shown(t.a[2], env, nm, mo, ms, (mo, ms))
            return
        shown(t.a[1] if x else t.a[2], env, nm, out, seen, maybe)
        return
    if t.op == "c":
        if isinstance(cval(t), str):
            out.append(cval(t))
        return
    if t.op == "mu":
        shown(t.init, env, nm, out, seen, maybe)
        shown(t.next, env, nm, out, seen, maybe)
        return
    for x in t.a:
        if type(x) is T:
            shown(x, env, nm, out, seen, maybe)


def worlds_of(names, vals):
    for v in itertools.product(vals, repeat=len(names)):
        yield dict(zip(names, v))


# stored numbers that take any value independently of the ones a conclusion is about
FREE = [{"M": m, "alpha": a} for m in (0.0, 0.5, 1.0) for a in (0.01, 0.05, 0.2)]
WORDS = {
    "HonestDiDResults.summary": (("ci_lb", "ci_ub", "lb", "ub"), (-1.0, 0.0, 1.0), [
        ("POSITIVE", lambda w: w["ci_lb"] > 0), ("NEGATIVE", lambda w: w["ci_ub"] < 0),
        ("Cannot rule out zero", lambda w: w["ci_lb"] <= 0 <= w["ci_ub"]), ("Yes", lambda w: not w["ci_lb"] <= 0 <= w["ci_ub"])],
        lambda w: w["ci_lb"] <= w["lb"] <= w["ub"] <= w["ci_ub"]),
    "PlaceboTestResults.summary": (("is_significant",), (True, False), [
        ("WARNING: Significant placebo effect", lambda w: w["is_significant"]), ("No significant placebo effect", lambda w: not w["is_significant"])], lambda w: True),
    "PreTrendsPowerResults.summary": (("power", "target_power"), (0.3, 0.6, 0.8), [
        ("meets target", lambda w: w["power"] >= w["target_power"]), ("below target", lambda w: w["power"] < w["target_power"])], lambda w: True),
    "SensitivityResults.__repr__": (("breakdown_M",), (None, 0.5, 0.0), [("None", lambda w: w["breakdown_M"] is None)], lambda w: True),
    "SensitivityResults.summary": (("breakdown_M",), (None, 0.5, 0.0), [
        ("is robust to violations up to", lambda w: w["breakdown_M"] is not None), ("None (always significant)", lambda w: w["breakdown_M"] is None)], lambda w: True),
}

# property: expected expression over stored values
def derived():
    return {
        "HonestDiDResults.identified_set_width": mk("bin", "-", F("ub"), F("lb")),
        "HonestDiDResults.ci_width": mk("bin", "-", F("ci_ub"), F("ci_lb")),
    }


BOOLS = {
    "HonestDiDResults.is_significant": (("ci_lb", "ci_ub", "lb", "ub"), (-1.0, 0.0, 1.0), lambda w: not w["ci_lb"] <= 0 <= w["ci_ub"], lambda w: w["ci_lb"] <= w["lb"] <= w["ub"] <= w["ci_ub"]),
    "HonestDiDResults.significance_stars": (("ci_lb", "ci_ub", "lb", "ub"), (-1.0, 0.0, 1.0), lambda w: "" if w["ci_lb"] <= 0 <= w["ci_ub"] else "*", lambda w: w["ci_lb"] <= w["lb"] <= w["ub"] <= w["ci_ub"]),
    "SensitivityResults.has_breakdown": (("breakdown_M",), (None, 0.0, 0.5), lambda w: w["breakdown_M"] is not None, lambda w: True),
    "PreTrendsPowerResults.power_adequate": (("power", "target_power"), (0.3, 0.6, 0.8), lambda w: w["power"] >= w["target_power"], lambda w: True),
}


def run(S, c):
    c.rule("Rule: every entry of to_dict/to_dataframe and of the tables of cells is the stored value its name stands for (identifiers from the "
           "element's own key, no element left out); every labelled number, table column and interval end in summary()/repr is the stored "
           "value its label stands for; is_significant is p < alpha, stars follow the documented thresholds (decided on the finite partition "
           "of the p-value by the constants involved); conclusions in words appear exactly when the stored numbers warrant them.")
    S = S.python()
    done = set()
    der = derived()
    for n, fn, cls, r in S.all():
        if cls is None or "." not in n:
            continue
        m = n.split(".")[-1]
        t = r.retterm
        if type(t) is not T:
            continue
        fields = [f[0] for f, _ in S.P.dcfields(cls)]
        if n in ROWS:
            rows(c, n, t)
        elif n in COLS:
            d = t
            if d.op == "call" and d.a[0].endswith("DataFrame") and len(d.a) > 1:
                d = d.a[1]
            nm = Norm()
            got = dict((k, v) for k, v, _ in pairs(d))
            for k, f in COLS[n].items():
                if k not in got:
                    if got:
                        c.find("missing:%s:%s" % (n, k), "%s has no entry '%s'" % (n, k), where=n)
                    else:
                        c.undecide(n)
                    continue
                x = verdict(nm(got[k]), [F(f)])
                if x == "bad":
                    c.find("entry:%s:%s" % (n, k), "%s gives %s under '%s', stored in %s" % (n, show(nm(got[k]))[:100], k, f), where=n)
                elif x == "ok":
                    c.ob("exported entry", (n, k))
                else:
                    c.undecide("%s: %s" % (n, k))
        elif m in ("to_dict", "to_dataframe") and fields:
            d = t
            if d.op == "call" and d.a[0].endswith("DataFrame") and len(d.a) > 1:
                d = d.a[1]
                if d.op == "list" and len(d.a) == 1:
                    d = d.a[0]
            export(c, S, n, cls, fields, d)
        elif m == "summary" and fields:
            Text(c, S, cls, n, t).run(t)
        elif m == "__repr__" and fields:
            Text(c, S, cls, n, t).run(t, True)
        elif m == "is_significant" and n not in BOOLS and cls.name in REC:
            al = [F("alpha")] if "alpha" in fields else []
            if "alpha" in r.params:
                t = subst(t, {mk("param", "alpha"): NONE})
                t = simp(t)
            check_sig(c, "significant:" + n, t, F(REC[cls.name][3]), al, n)
        elif m == "significance_stars" and n not in BOOLS and cls.name in REC:
            check_stars(c, "stars:" + n, t, F(REC[cls.name][3]), n)
        elif n == "MultiPeriodDiDResults.get_effect":
            nm = Norm()
            p = mk("param", "period")
            v = nm(t)
            want = mk("idx", F("period_effects"), p)
            if v is want:
                c.ob("lookup", n)
            elif verdict(mk("idx", v.a[0], mk("KEY", v.a[1])) if v.op == "idx" else v, [want]) == "bad" or p not in reach([v]) or any(
                    x.op == "idx" and x.a[0] is F("period_effects") and x.a[1] is not p for x in reach([v])):
                c.find("lookup:" + n, "get_effect(period) returns %s" % show(v)[:100], where=n)
            else:
                c.undecide(n)
        elif n in der:
            x = verdict(Norm()(t), [der[n]])
            if x == "bad":
                c.find("derived:" + n, "%s is %s" % (n, show(t)[:100]), where=n)
            elif x == "ok":
                c.ob("derived value", n)
            else:
                c.undecide(n)
        if n in BOOLS:
            names, vals, want, ok = BOOLS[n]
            try:
                for w, free in itertools.product(worlds_of(names, vals), FREE):
                    if not ok(w):
                        continue
                    got = ev(t, {F(k).id: v for k, v in {**free, **w}.items()}, Norm())
                    if got != want(w):
                        c.find("flag:" + n, "%s is %r where %s" % (n, got, w), where=n)
                        break
                else:
                    c.ob("flag", n)
            except Open:
                c.undecide(n)
        if n in WORDS:
            names, vals, texts, ok = WORDS[n]
            nm = Norm()
            for w, free in itertools.product(worlds_of(names, vals), FREE):
                if not ok(w):
                    continue
                out, maybe = [], []
                shown(t, {F(k).id: v for k, v in {**free, **w}.items()}, nm, out, set(), (maybe, set()))
                for txt, cond in texts:
                    if not any(is_str(x) and txt in cval(x) for x in reach([t])):
                        c.undecide("%s: no text '%s'" % (n, txt))
                        continue
                    has = any(txt in x for x in out)
                    if not has and any(txt in x for x in maybe):
                        c.undecide("%s: '%s'" % (n, txt))
                    elif has != bool(cond(w)):
                        c.find("words:%s:%s" % (n, txt), "%s %s '%s' where %s" % (n, "says" if has else "does not say", txt, w), where=n)
                    else:
                        c.ob("conclusion in words", (n, txt))
    delegates(S, c)
    c.floor("exported entry", 100)
    c.floor("labelled value", 100)
    c.floor("significance flag", 6)


def simp(t):
    """Fold `x is None` and the choices it decides after a substitution."""
    memo = {}

    def go(x):
        if x.id in memo:
            return memo[x.id]
        if not any(type(y) is T for y in x.a) or x.op == "mu":
            r = x
        else:
            a = [go(y) if type(y) is T else y for y in x.a]
            r = mk(x.op, *a)
            if r.op == "is" and is_const(r.a[0]) and is_const(r.a[1]):
                r = const(r.a[0] is r.a[1])
            elif r.op == "ite" and is_const(r.a[0]):
                r = r.a[1] if cval(r.a[0]) else r.a[2]
            elif r.op == "or" and len(r.a) == 2 and r.a[0] is NONE:
                r = r.a[1]
        memo[x.id] = r
        return r
    return go(t)


def export(c, S, n, cls, fields, d):
    nm = Norm()
    names = set(fields)
    got = {}
    for k, v, o in pairs(d):
        got.setdefault(k, []).append(v)
    if not got:
        c.undecide(n + ": entries not found")
        return
    props = {}
    for k, vs in got.items():
        w = member(names, F, k)
        if w is None and S.P.method(cls, k) is not None:
            e = S.find(cls.name + "." + k)
            pr = S.res(cls.name + "." + k).retterm if e is not None else None
            w = [nm(pr)] if type(pr) is T else None
        if w is None and k.startswith("period_"):
            continue
        for v in vs:
            v = nm(v)
            if w is None:
                if fieldlike(v):
                    c.undecide("%s: '%s' shows %s" % (n, k, show(v)))
                continue
            x = "ok" if v in w else verdict(v, w)
            if x == "ok":
                c.ob("exported entry", (n, k))
            elif x == "bad":
                c.find("entry:%s:%s" % (n, k), "%s gives %s under '%s', stored in %s" % (n, show(v)[:100], k, show(w[0])[:60]), where=n)
            else:
                c.undecide("%s: '%s'" % (n, k))
    always = keysof(d)
    rec = REC.get(cls.name)
    if rec is None:
        need = [f for f in ("lb", "ub", "ci_lb", "ci_ub", "M", "power", "mde", "required_n", "mdv", "alpha") if f in names]
    else:
        need = list(rec[:4]) + ["%s" % rec[4]]
    for f in need:
        forms = {f, f + "_lower"} if f.endswith("conf_int") else {f}
        both = {f + "_upper"} if f.endswith("conf_int") and f not in (always or ()) else set()
        if always is None:
            c.undecide(n + ": keys")
            break
        if not (forms & always) or both - always:
            c.find("missing:%s:%s" % (n, f), "%s leaves out %s" % (n, f), where=n)
        else:
            c.ob("export complete", (n, f))


def rows(c, n, t):
    nm = Norm()
    spec = ROWS[n]
    seen = {s[0]: 0 for s in spec}
    for row, cond in rowsof(t):
        ps = [(k, nm(v)) for k, v, _ in pairs(row)]
        if not ps:
            c.undecide(n + ": row not read")
            continue
        conts = [x.a[0] for k, v in ps for x in reach([v]) if x.op in ("KEY", "VAL", "POS")]
        hit = [s for s in spec if F(s[0]) in conts]
        if len(hit) != 1:
            have = {x[0] for x in ps}
            best = [s for s in spec if set(s[1]) <= have]
            if conts and best and all(x.op == "param" for x in conts):
                c.find("container:" + n, "%s lists the elements of %s" % (n, ", ".join(sorted({show(x) for x in conts}))[:100]), where=n)
            else:
                c.undecide(n + ": container of the rows")
            continue
        cname, ids, plain = hit[0]
        seen[cname] = 1
        if cond:
            c.find("dropped:%s:%s" % (n, cname), "%s leaves out elements of %s on a condition" % (n, cname), where=n)
        else:
            c.ob("every element listed", (n, cname))
        have = dict(ps)
        isobj = cname == "comparisons"
        base = KEY(cname) if isobj else VAL(cname)
        for k, v in ps:
            if k in ids:
                w = paths(ids[k], cname)
            else:
                w = member(set(plain) | {"conf_int"}, lambda f: mk("idx", base, const(f)), k)
            if w is None:
                continue
            x = verdict(v, w)
            if x == "ok":
                c.ob("exported entry", (n, cname, k))
            elif x == "bad":
                c.find("entry:%s:%s:%s" % (n, cname, k), "%s of %s gives %s under '%s', stored in %s" % (n, cname, show(v)[:100], k, show(w[0])[:80]), where=n)
            else:
                c.undecide("%s: %s" % (n, k))
        for k in list(ids) + [x for x in plain if x != "conf_int"] + (["conf_int_lower", "conf_int_upper"] if "conf_int" in plain else []):
            if k not in have:
                c.find("missing:%s:%s:%s" % (n, cname, k), "%s of %s leaves out '%s'" % (n, cname, k), where=n)
        for a, b in mispaired([v for _, v, _ in pairs(row)]):
            c.find("pairing:%s:%s" % (n, cname), "%s walks %s side by side in two different orders (%s, %s)" % (n, cname, show(a)[:60], show(b)[:60]), where=n)
        if n == "SensitivityResults.to_dataframe" and "is_significant" in have:
            lo, hi = paths("robust_cis0", cname), paths("robust_cis1", cname)
            try:
                for a, b, m in itertools.product((-1.0, 0.0, 1.0), (-1.0, 0.0, 1.0), (0.0, 0.5, 1.0)):
                    # the bound on the violations is any non-negative number
                    env = {**{x.id: a for x in lo}, **{x.id: b for x in hi}, KEY("M_values").id: m}
                    if a <= b and bool(ev(have["is_significant"], env)) != (not a <= 0 <= b):
                        raise ValueError
                c.ob("flag", n)
            except ValueError:
                c.find("flag:" + n, "is_significant of a row is not 'its robust interval excludes zero'", where=n)
            except Open:
                c.undecide(n + ": is_significant")
    for k, v in seen.items():
        if not v:
            c.undecide("%s: no rows for %s" % (n, k))


def delegates(S, c):
    """An estimator's own summary is that of its latest results; print_summary prints summary."""
    for n, fn, cls, r in S.all():
        m = n.split(".")[-1]
        if cls is None or m not in ("print_summary", "summary") or S.P.dcfields(cls) or type(r.retterm) is not T:
            continue
        if m == "summary":
            t = r.retterm
            if t.op == "m" and t.a[1] == "summary" and t.a[0].op in ("stale", "attr", "param") and "results_" in show(t.a[0]):
                c.ob("summary is that of the results", n)
            elif not any("results_" in show(x) for x in reach([t]) if x.op == "stale"):
                c.find("delegate:" + n, "%s does not show the estimator's results" % n, where=n)
            else:
                c.undecide(n)
