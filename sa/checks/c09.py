"""C09: named alternatives: every documented value is accepted and selects its own behaviour, any other string is rejected."""
from ..terms import *
from ..interp import Interp, Inst
from ..entry import analyze, symbolic_self

RDA = ["warn", "error", "silent"]
BW = ["rademacher", "webb", "mammen"]
EM = ["dr", "ipw", "reg"]
CG = ["never_treated", "not_yet_treated"]
DID = {"inference": ["analytical", "wild_bootstrap"], "bootstrap_weights": BW, "rank_deficient_action": RDA}
CTOR = {
    "DifferenceInDifferences": DID, "TwoWayFixedEffects": DID, "MultiPeriodDiD": {k: v for k, v in DID.items() if k != "bootstrap_weights"},
    "SyntheticDiD": {"variance_method": ["bootstrap", "placebo"]},
    "CallawaySantAnna": {"control_group": CG, "estimation_method": EM, "bootstrap_weights": BW,
                         "rank_deficient_action": RDA, "base_period": ["varying", "universal"]},
    "SunAbraham": {"control_group": CG, "rank_deficient_action": RDA},
    "TripleDifference": {"estimation_method": EM, "rank_deficient_action": RDA},
    "TROP": {"method": ["twostep", "joint"], "variance_method": ["bootstrap", "jackknife"]},
    "BaconDecomposition": {"weights": ["approximate", "exact"]},
    "HonestDiD": {"method": ["smoothness", "relative_magnitude", "combined"]},
    "PowerAnalysis": {"alternative": ["two-sided", "greater", "less"]},
    "PreTrendsPower": {"violation_type": ["linear", "constant", "last_period", "custom"]},
    "LinearRegression": {"rank_deficient_action": RDA},
}
FUNC = {
    "CallawaySantAnna.fit": {"aggregate": ["simple", "event_study", "group", "all"]},
    "TwoWayFixedEffects.decompose": {"weights": ["approximate", "exact"]},
    "bacon_decompose": {"weights": ["approximate", "exact"]},
    "plot_bacon": {"plot_type": ["bar", "scatter"]},
    "CallawaySantAnnaResults.to_dataframe": {"level": ["event_study", "group", "group_time"]},
    "SunAbrahamResults.to_dataframe": {"level": ["cohort", "event_study"]},
    "triple_difference": {"estimation_method": EM, "rank_deficient_action": RDA},
    "wild_bootstrap_se": {"weight_type": BW},
    "balance_panel": {"method": ["inner", "outer", "fill"]},
    "compute_honest_did": {"method": ["smoothness", "relative_magnitude", "combined"]},
    "sensitivity_plot": {"method": ["smoothness", "relative_magnitude", "combined"]},
    "compute_pretrends_power": {"violation_type": ["linear", "constant", "last_period"]},
    "compute_mdv": {"violation_type": ["linear", "constant", "last_period"]},
    "load_dataset": {"name": ["card_krueger", "castle_doctrine", "divorce_laws", "mpdta"]},
    "run_placebo_test": {"test_type": ["fake_timing", "fake_group", "permutation", "leave_one_out"]},
}
# option, other option, its value: the first plays no part then (documented)
MOOT = {("rank_deficient_action", "estimation_method", "ipw"), ("bootstrap_weights", "inference", "analytical")}
# names compared without regard to letter case (documented behaviour: the value is folded first)
FOLDS = {("run_placebo_test", "test_type")}
BAD = ["~no such value~", ""]


def spellings(vals):
    """Misspellings of documented values that lenient comparisons would let through."""
    out = []
    for v in vals:
        out += [v.upper(), v.title(), v.capitalize(), " " + v, v + " ", v[:-1], v[1:], v[:1], v[:3], v + "s", "x" + v, v.replace("_", "-"), v.replace("_", " "), v.replace("-", "_"), v.replace("_", ""), v.split("_")[0]]
    return [x for x in dict.fromkeys(out) if x not in vals]


def lenient(r, leaf):
    """The option's value is used in more than comparisons with, and look-ups among, whole names."""
    seen = set()
    for e in r.events:
        for p, _, _ in e.pc:
            if type(p) is not T or p.id in seen:
                continue
            seen.add(p.id)
            for x in reach(p):
                if leaf in x.a and not (x.op in ("eq", "ne", "is", "ite") or x.op in ("in", "notin") and x.a[0] is leaf and
                                        x.a[1].op in ("list", "tuple", "set", "dict", "frozenset")):
                    return True
    return False


def never(t):
    return type(t) is T and t.op == "never"


def ctor_never(S, cls, opts):
    """True: no path of the constructor returns; None: a condition on the value could not be resolved."""
    I = Interp(S.P)
    ref = I.alloc(Inst(cls, {}, None))
    init = S.P.method(cls, "__init__")
    args = {p: opts.get(p, mk("cfg", p)) for p in init.params[1:]}
    ret = I.call_fn(init, [ref], args, None)
    return True if never(ret) else None if unresolved(I.events, opts) else False


def unresolved(events, opts):
    bad = [t for t in opts.values() if cval(t) == BAD[0]]
    return any(e.kind == "raise" and any(type(p) is T and b in reach(p) for p, _, _ in e.pc) for e in events for b in bad)


def effects(r):
    out = []
    for e in r.events:
        if e.kind == "raise":
            out.append(("raise", e.fn, e.d["exc"]))
        elif e.kind == "call":
            out.append(("call", e.d["fn"], None))
        elif e.kind == "icall":
            out.append(("icall", e.d["callee"], None))
        elif e.kind == "mcall":
            out.append(("mcall", e.d["name"], None))
        elif e.kind == "mutate":
            out.append(("mutate", e.d["how"], None))
    return out


def differ(r1, r2, v1, v2):
    """The two runs differ in more than echoing the value chosen."""
    a, b = effects(r1), effects(r2)
    if len(a) != len(b) or [x[:2] for x in a] != [x[:2] for x in b]:
        return True
    return not same(r1.retterm, r2.retterm, (v1, v2))


def literals(r, leaf):
    """String literals the option's value is compared with anywhere in a run, and those it is looked up in."""
    eqs, ins = {}, {}
    seen = set()
    for e in r.events:
        for t in [p for p, _, _ in e.pc if type(p) is T]:
            if t.id in seen:
                continue
            seen.add(t.id)
            scan(t, leaf, eqs, ins, e)
    if type(r.retterm) is T:
        scan(r.retterm, leaf, eqs, ins, None)
    return eqs, ins


def scan(t, leaf, eqs, ins, e):
    for x in reach(t):
        if x.op in ("eq", "ne") and len(x.a) == 2 and leaf in x.a:
            o = x.a[1] if x.a[0] is leaf else x.a[0]
            if is_str(o):
                eqs.setdefault(cval(o), e)
        elif x.op in ("in", "notin") and x.a[0] is leaf:
            for y in reach(x.a[1], control=False):
                if is_str(y):
                    ins.setdefault(cval(y), e)


def extra(S, c, n, o, vals, r, leaf, accepts):
    """Names the code knows but the documentation does not."""
    eqs, ins = literals(r, leaf)
    for v in sorted(set(eqs) | set(ins)):
        if v in vals or v in BAD:
            continue
        c.ob("undocumented names", (n, o, v))
        if accepts(v):
            c.find("%s:%s:%s:accepted" % (n, o, v), "%s accepts %s=%r, which is not a documented name" % (n, o, v), where=n)
        elif v in eqs and not any(v in spec.get(o, ()) for spec in CTOR.values()):
            e = eqs[v]
            c.find("%s:%s:%s:compared" % (n, o, v), "%s compares %s with %r, a name it never has (documented: %s)" % (
                n, o, v, ", ".join(vals)), e, where=n)


def later(S, cls, o, v, m):
    """set_params(o=v) on an estimator with arbitrary options, then m: does any path get through?"""
    I = Interp(S.P)
    ref, _ = symbolic_self(I, cls)
    ret = I.call_fn(S.P.method(cls, "set_params"), [ref], {o: const(v)}, None)
    if never(I.snap(ret)):
        return "refused", I
    if m is None:
        return "taken", I
    fn = S.P.method(cls, m)
    ret = I.call_fn(fn, [ref], {p: mk("param", p) for p in fn.params[1:]}, None)
    return "refused later" if never(I.snap(ret)) else "accepted", I


def setters(S, c, cn, cls, o, vals, meths):
    """The same alternatives hold for a value that arrives through set_params."""
    if S.P.method(cls, "set_params") is None:
        return
    for v in vals:
        c.ob("values set", (cn, o, v))
        if later(S, cls, o, v, None)[0] == "refused":
            c.find("%s:set:%s:%s:rejected" % (cn, o, v), "%s.set_params(%s=%r) is rejected although it is a documented value" % (cn, o, v), where=cn + ".set_params")
    for v in BAD + spellings(vals):
        for m in meths:
            k, I = later(S, cls, o, v, m)
            if k == "accepted":
                if unresolved(I.events, {o: const(v)}):
                    c.undecide("%s.set_params(%s=%r): a condition on the value is not resolved" % (cn, o, v))
                    return
                c.find("%s:set:%s:%s:accepted" % (cn, o, "empty" if not v else "unknown" if v in BAD else "misspelt"),
                       "%s.set_params(%s=%r) is accepted, and so is the next %s" % (cn, o, v, m), where=cn + ".set_params")
                return
            if k == "refused":
                break


def run(S, c):
    c.rule("Rule 1: with any documented value the constructor (or function) has a path that returns. Rule 2: with a string that "
           "is not documented the constructor, or for options it does not look at every fit, has no path that returns, and "
           "for function arguments the function has none. Rule 3: for any two documented values, fit (or the function) run "
           "symbolically with each differs in its results, warnings or errors by more than the echoed option value.")
    for cn, spec in sorted(CTOR.items()):
        x = S.P.exports()
        cls = [r[1] for n, r in x if n == cn and r[0] == "cls"]
        if not cls:
            continue
        cls = cls[0]
        init = S.P.method(cls, "__init__")
        meths = [m for m in ("fit", "power", "mde", "sample_size") if S.P.method(cls, m)]
        for o, vals in spec.items():
            if o not in init.params:
                c.undecide("%s has no option %s" % (cn, o))
                continue
            c.ob("options", (cn, o))
            for v in vals:
                c.ob("values", (cn, o, v))
                if ctor_never(S, cls, {o: const(v)}):
                    c.find("%s:%s:%s:rejected" % (cn, o, v), "%s(%s=%r) is rejected although it is a documented value" % (cn, o, v), where=cn + ".__init__")
            for v in BAD + spellings(vals):
                k = ctor_never(S, cls, {o: const(v)})
                if k:
                    continue
                rs = [(m, analyze(S.P, S.P.method(cls, m), cls, options={o: const(v)})) for m in meths]
                if k is None or any(unresolved(x.events, {o: const(v)}) for _, x in rs):
                    c.undecide("%s(%s=%r): a condition on the value is not resolved" % (cn, o, v))
                    break
                r = [m for m, x in rs if not never(x.retterm)]
                if r:
                    c.find("%s:%s:%s:accepted" % (cn, o, "empty" if not v else "unknown" if v in BAD else "misspelt"), "%s(%s=%r) is accepted by the constructor and by %s" % (cn, o, v, ", ".join(r)),
                           where=cn + ".__init__")
            setters(S, c, cn, cls, o, vals, meths)

            def per(opts):
                return [(m, analyze(S.P, S.P.method(cls, m), cls, options=opts)) for m in meths]
            compare(c, cn, o, vals, {v: per({o: const(v)}) for v in vals})
            for o2, us in spec.items():
                for u in us if o2 != o else ():
                    if (o, o2, u) not in MOOT:
                        compare(c, cn, o, vals, {v: per({o: const(v), o2: const(u)}) for v in vals}, (o2, u))
            I = Interp(S.P)
            ref = I.alloc(Inst(cls, {}, None))
            I.call_fn(init, [ref], {p: mk("cfg", p) for p in init.params[1:]}, None)
            I.retterm = NONE
            for r in [I] + [x for _, x in per({})]:
                extra(S, c, cn, o, vals, r, mk("cfg", o), lambda v: not ctor_never(S, cls, {o: const(v)}) and
                      any(not never(x.retterm) for _, x in per({o: const(v)})))
    for n, spec in sorted(FUNC.items()):
        e = S.find(n)
        if e is None:
            continue
        for o, vals in spec.items():
            if o not in e[1].params:
                c.undecide("%s has no parameter %s" % (n, o))
                continue
            c.ob("options", (n, o))
            runs = {}
            for v in vals:
                c.ob("values", (n, o, v))
                r = analyze(S.P, e[1], e[2], {o: const(v)})
                runs[v] = [("", r)]
                if never(r.retterm):
                    c.find("%s:%s:%s:rejected" % (n, o, v), "%s(%s=%r) is rejected although it is a documented value" % (n, o, v), where=n)
            for v in BAD + (spellings(vals) if lenient(analyze(S.P, e[1], e[2], {}), mk("param", o)) else []):
                r = analyze(S.P, e[1], e[2], {o: const(v)})
                if unresolved(r.events, {o: const(v)}):
                    c.undecide("%s(%s=%r): a condition on the value is not resolved" % (n, o, v))
                    break
                if not never(r.retterm) and not ((n, o) in FOLDS and v.lower() in vals and not differ(r, runs[v.lower()][0][1], const(v), const(v.lower()))):
                    c.find("%s:%s:%s:accepted" % (n, o, "empty" if not v else "unknown" if v in BAD else "misspelt"), "%s(%s=%r) is accepted" % (n, o, v), where=n)
            compare(c, n, o, vals, runs)
            for o2, us in spec.items():
                for u in us if o2 != o else ():
                    if (o, o2, u) not in MOOT:
                        compare(c, n, o, vals, {v: [("", analyze(S.P, e[1], e[2], {o: const(v), o2: const(u)}))] for v in vals}, (o2, u))
            extra(S, c, n, o, vals, analyze(S.P, e[1], e[2], {}), mk("param", o),
                  lambda v: not never(analyze(S.P, e[1], e[2], {o: const(v)}).retterm))
    c.floor("options", 30)
    c.floor("values", 80)


def compare(c, n, o, vals, runs, given=None):
    for i, v in enumerate(vals):
        for w in vals[i + 1:]:
            c.ob("pairs told apart", (n, o, v, w, given))
            if not any(differ(a, b, const(v), const(w)) for (_, a), (_, b) in zip(runs[v], runs[w])):
                c.find("%s:%s:%s=%s%s" % (n, o, v, w, ":%s=%s" % given if given else ""), "%s: %s=%r and %s=%r give the same results%s" % (
                    n, o, v, o, w, " when %s=%r" % given if given else ""), where=n)
