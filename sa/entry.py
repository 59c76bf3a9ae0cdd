"""Entry points: run the interpreter on a public function/method with symbolic inputs."""
import ast
import sys
from .terms import *
from .project import Project
from .interp import Interp, Inst, Ref, Frame

sys.setrecursionlimit(200000)


class Result:
    pass


_stored = {}


def stored_outside_init(P, cls):
    """Attribute names that anything but a constructor stores (or deletes) anywhere in the package."""
    k = id(P)
    if k not in _stored:
        out = set()
        for m in P.mods.values():
            inits = set()
            for q in ast.walk(m.tree):
                if isinstance(q, ast.FunctionDef) and q.name == "__init__":
                    inits |= set(id(x) for x in ast.walk(q))
            for q in ast.walk(m.tree):
                if isinstance(q, ast.Attribute) and not isinstance(q.ctx, ast.Load) and id(q) not in inits:
                    out.add(q.attr)
        _stored[k] = out
    return _stored[k]


def symbolic_self(I, cls, options=None):
    """Instance as it is at some point of its life: options symbolic (cfg), other state unknown (stale).
    options: {option: term} fixes some of them."""
    P = I.P
    keep = ()
    if options:
        keep = set(symbolic_self(Interp(P, I.rust), cls)[1])
    init = P.method(cls, "__init__")
    ref = I.alloc(Inst(cls, {}, "self"))
    if init is None:
        fs = {}
        for (f, k) in P.dcfields(cls):
            t = mk("param", "self." + f[0])
            I.annotate(t, f[1], k.mod)
            fs[f[0]] = t
        I.heap[ref.loc] = Inst(cls, fs, "self")
        return ref, {}
    ps = init.params[1:]
    args = {p: mk("cfg", p) for p in ps}
    for p in ps:
        if p in init.ann:
            I.annotate(args[p], init.ann[p], init.mod)
    args.update({p: t for p, t in (options or {}).items() if p in ps})
    I.ctor_ret = I.call_fn(init, [ref], dict(args), None)
    fields = I.heap[ref.loc].fields
    out, conf = {}, {}
    for n, v in fields.items():
        t = I.snap(v)
        deps = [x for x in reach(t) if x.op == "cfg"]
        if deps or n in keep:
            out[n] = v if type(v) is T else I.snap(v)
            conf[n] = t
        elif t.op == "c" and n not in stored_outside_init(P, cls):
            out[n] = t
        else:
            out[n] = mk("stale", n)
    I.heap[ref.loc] = Inst(cls, out, "self")
    I.events.clear()
    I.pc.clear()
    return ref, conf


def analyze(P, fn, cls=None, fixed=None, I=None, options=None, rust=None):
    """fn: Fn.  cls: receiver class for methods.  fixed: {param: term} overrides.  options: same for the receiver's options."""
    I = I or Interp(P, rust)
    r = Result()
    r.I = I
    r.fn = fn
    r.conf = {}
    args = []
    kw = {}
    ps = list(fn.params)
    r.selfref = None
    if cls is not None and ps and not fn.isdeco("staticmethod"):
        ref, conf = symbolic_self(I, cls, options)
        r.selfref, r.conf = ref, conf
        args.append(ref)
        ps = ps[1:]
    for p in ps:
        t = (fixed or {}).get(p)
        if t is None:
            t = mk("param", p)
        kw[p] = t
    if fn.kwarg:
        kw["**"] = mk("param", "**" + fn.kwarg)
    r.params = {p: kw[p] for p in ps}
    if fn.kwarg:
        # put the unknown keywords straight into the kwarg dict
        spill = kw.pop("**")
        r.kwspill = spill
        I._entry_kw = spill
    r.ret = call_entry(I, fn, args, kw, r)
    r.retterm = I.snap(r.ret)
    r.events = I.events
    return r


def call_entry(I, fn, args, kw, r):
    if fn.kwarg:
        # bind manually so that known parameters are not mixed with the spill
        fr = Frame(fn, fn.mod)
        for p, v in zip(fn.pos, args):
            fr.env[p] = v
        fr.env.update(kw)
        fr.env[fn.kwarg] = r.kwspill
        for p, a in fn.ann.items():
            if p in fr.env:
                I.annotate(fr.env[p], a, fn.mod)
        return I.run(fr, None)
    return I.call_fn(fn, args, kw, None)


def entries(P):
    """Public entry points: (name, Fn, Cls or None)."""
    out = []
    for n, r in P.exports():
        if r[0] == "fn":
            out.append((n, r[1], None))
        elif r[0] == "cls":
            seen = set()
            for k in P.mro(r[1]):
                for mn, m in k.methods.items():
                    if mn in seen:
                        continue
                    seen.add(mn)
                    if mn.startswith("_") and mn not in ("__init__", "__repr__", "__post_init__"):
                        continue
                    out.append((n + "." + mn, m, r[1]))
    have = {f.qual for _, f, _ in out}
    for m in P.mods.values():
        for n, f in m.funcs.items():
            if not n.startswith("_") and f.qual not in have:
                out.append((n, f, None))
    return out
