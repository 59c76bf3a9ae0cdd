"""C08: constructor, get_params and set_params agree."""
from ..terms import *
from ..interp import Interp, Inst


def ctor(S, cls, I=None):
    I = I or Interp(S.P)
    init = S.P.method(cls, "__init__")
    ref = I.alloc(Inst(cls, {}, None))
    args = {p: mk("cfg", p) for p in init.params[1:]}
    for p in args:
        if p in init.ann:
            I.annotate(args[p], init.ann[p], init.mod)
    I.call_fn(init, [ref], dict(args), None)
    return I, ref, init


def fields(I, ref):
    return {k: I.snap(v) for k, v in I.heap[ref.loc].fields.items()}


def norm(t):
    """`default if x is None else x` counts as x."""
    if t.op == "ite" and t.a[0].op == "is" and t.a[0].a[1] is NONE:
        if norm(t.a[2]) is t.a[0].a[0] or t.a[2] is t.a[0].a[0]:
            return t.a[0].a[0]
    if t.op == "or" and len(t.a) == 2:
        return t.a[0]
    return t


def classes(S):
    out = []
    for n, r in S.P.exports():
        if r[0] == "cls" and S.P.method(r[1], "set_params") and S.P.method(r[1], "get_params"):
            out.append((n, r[1]))
    return out


def run(S, c):
    c.rule("Rule: for every estimator, get_params returns exactly the constructor's options, each under its own name and "
           "with the value it was given (default-filled); set_params(o=v) makes every attribute the constructor derives "
           "from o what the constructor would make it from v, leaves attributes of other options alone and returns the "
           "estimator; set_params with a name that is not an option raises.")
    cs = classes(S)
    for n, cls in cs:
        c.ob("estimators", n)
        I, ref, init = ctor(S, cls)
        base = fields(I, ref)
        opts = init.params[1:]
        dep = {o: [f for f, t in base.items() if mk("cfg", o) in reach(t, control=False) or
                   t.op == "ite" and mk("cfg", o) in reach(t)] for o in opts}
        I2, ref2, _ = ctor(S, cls)
        g = I2.snap(I2.call_fn(S.P.method(cls, "get_params"), [ref2], {}, None))
        if g.op != "dict" or any(x.op != "kv" or x.a[0].op != "c" for x in g.a):
            c.undecide("%s.get_params returns %s" % (n, show(g, 2)))
        else:
            got = {cval(x.a[0]): x.a[1] for x in g.a}
            for o in opts:
                c.ob("options reported", (n, o))
                me = mk("cfg", o)
                if o not in got:
                    c.find("%s:get:%s:missing" % (n, o), "%s.get_params() leaves out option `%s`" % (n, o), where=n + ".get_params")
                    continue
                t = got[o]
                others = [x for x in reach(t, control=False) if x.op == "cfg" and x is not me]
                if me not in reach(t):
                    c.find("%s:get:%s:wrong" % (n, o), "%s.get_params()['%s'] is %s, not the value given for the option" % (n, o, show(t, 3)), where=n + ".get_params")
                elif others and all(me not in reach(base.get(f, UNDEF)) or x not in reach(base.get(f, UNDEF))
                                    for x in others for f in base):
                    c.find("%s:get:%s:mixed" % (n, o), "%s.get_params()['%s'] also depends on %s" % (n, o, others), where=n + ".get_params")
                elif not any(same_value(t, w) for w in [me] + [base[f] for f in dep[o]]):
                    c.find("%s:get:%s:computed" % (n, o), "%s.get_params()['%s'] is computed anew (%s) instead of being the value the estimator uses" % (
                        n, o, show(t, 4)), where=n + ".get_params")
            for k in got:
                if k not in opts:
                    c.find("%s:get:%s:extra" % (n, k), "%s.get_params() reports `%s`, which the constructor does not take" % (n, k), where=n + ".get_params")
        sp = S.P.method(cls, "set_params")
        for o in opts:
            c.ob("options set", (n, o))
            I3, ref3, _ = ctor(S, cls)
            I3.events.clear()
            v = mk("param", "new " + o)
            if o in init.ann:
                I3.annotate(v, init.ann[o], init.mod)
            ret = I3.call_fn(sp, [ref3], {o: v}, None)
            after = fields(I3, ref3)
            if getattr(ret, "loc", None) != ref3.loc:
                if not (type(ret) is T and ret.op == "never"):
                    c.find("%s:set:return" % n, "%s.set_params does not return the estimator" % n, where=n + ".set_params")
            if type(ret) is T and ret.op == "never" :
                c.find("%s:set:%s:raises" % (n, o), "%s.set_params(%s=...) raises although `%s` is an option" % (n, o, o), where=n + ".set_params")
                continue
            for f, t in base.items():
                a = after.get(f, UNDEF)
                want = subst(t, {mk("cfg", o): v})
                if f in dep[o]:
                    if norm(a) is norm(want) or a is want:
                        continue
                    rs = reach(a)
                    if v not in rs:
                        c.find("%s:set:%s:%s:ignored" % (n, o, f), "%s.set_params(%s=v) leaves `self.%s` at its old value, the constructor "
                               "would set it" % (n, o, f), where=n + ".set_params")
                    elif len(dep_opts(t)) == 1 or simple(t):
                        if not same_shape(a, want, v):
                            c.find("%s:set:%s:%s:differs" % (n, o, f), "%s.set_params(%s=v) makes `self.%s` %s, the constructor makes it %s" % (
                                n, o, f, show(a, 4), show(want, 4)), where=n + ".set_params")
                elif a is not t and v in reach(a, control=False):
                    c.find("%s:set:%s:%s:other" % (n, o, f), "%s.set_params(%s=v) changes `self.%s`, which the constructor does not derive "
                           "from it" % (n, o, f), where=n + ".set_params")
        for bad in ["no_such_option", "fit", "results_"] + [f for f in base if f not in opts and not any(
                mk("cfg", o) in reach(base[f]) for o in opts)]:
            c.ob("unknown names", (n, bad))
            I4, ref4, _ = ctor(S, cls)
            I4.events.clear()
            ret = I4.call_fn(sp, [ref4], {bad: mk("param", "v")}, None)
            if type(ret) is T and ret.op == "never":
                rs = [e for e in I4.events if e.kind == "raise" and e.d["exc"] is not None]
                if rs and not any("ValueError" in show(e.d["exc"], 2) for e in rs):
                    c.find("%s:set:unknown:exception" % n, "%s.set_params refuses an unknown name with %s instead of ValueError" % (
                        n, show(rs[-1].d["exc"], 2)), rs[-1])
            if not (type(ret) is T and ret.op == "never"):
                decided = [e for e in I4.events if e.kind == "selfwrite" and e.d["inst"] == ref4.loc and e.d["name"] == bad]
                raises = [e for e in I4.events if e.kind == "raise"]
                if raises and not decided:
                    c.undecide("%s.set_params(%s=...)" % (n, bad))
                else:
                    c.find("%s:set:unknown:%s" % (n, bad if bad in ("fit", "no_such_option") else "attr"),
                           "%s.set_params(%s=...) is accepted although `%s` is not an option" % (n, bad, bad), where=n + ".set_params")
    # constructor stores every option
    for n, cls in cs:
        I, ref, init = ctor(S, cls)
        allf = set()
        for t in fields(I, ref).values():
            allf |= {x.a[0] for x in reach(t) if x.op == "cfg"}
        for o in init.params[1:]:
            c.ob("options stored", (n, o))
            if o not in allf:
                c.find("%s:ctor:%s" % (n, o), "%s(%s=...) is dropped by the constructor" % (n, o), where=n)
    c.floor("estimators", 9)
    c.floor("options reported", 60)
    c.floor("options set", 60)
    c.floor("unknown names", 20)


COPIES = {"copy.copy", "copy.deepcopy", "builtins.list", "builtins.dict", "builtins.tuple", "numpy.array", "numpy.asarray", "numpy.copy"}


def same_value(t, w):
    """t is w, possibly defaulted or copied."""
    if t is w or norm(t) is norm(w):
        return True
    if t.op == "call" and t.a[0] in COPIES and len(t.a) >= 2:
        return same_value(t.a[1], w)
    if t.op == "m" and t.a[1] in ("copy", "tolist") and len(t.a) == 2:
        return same_value(t.a[0], w)
    if t.op == "ite":
        ok = [same_value(x, w) for x in t.a[1:3]]
        return all(ok) or any(ok) and NONE in t.a[1:3]
    return False


def dep_opts(t):
    return {x.a[0] for x in reach(t) if x.op == "cfg"}


def simple(t):
    return t.op in ("cfg", "ite")


def by_value(cond, v):
    """The condition looks at the option's value, beyond asking whether it was given."""
    if cond.op == "not":
        return by_value(cond.a[0], v)
    if cond.op in ("and", "or"):
        return any(by_value(x, v) for x in cond.a)
    if cond.op in ("is", "isinstance", "truth") or cond is v:
        return False
    if cond.op == "call" and cond.a[0] in ("builtins.isinstance", "builtins.callable", "numpy.isscalar", "builtins.hasattr"):
        return False
    return v in reach(cond)


def same_shape(a, want, v):
    """Equal up to None-defaulting."""
    if a is want or norm(a) is norm(want):
        return True
    if want.op == "ite" and a.op != "ite" and by_value(want.a[0], v):
        return False
    if want.op == "ite" and v in (want.a[1], want.a[2]) and a is v:
        return True
    if want.op == "ite":
        return same_shape(a, want.a[1], v) or same_shape(a, want.a[2], v)
    if a.op == "ite":
        return same_shape(a.a[1], want, v) or same_shape(a.a[2], want, v)
    return False
