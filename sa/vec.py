"""Sums and weighted averages over collections: normal forms of aggregates over loops, comprehensions and arrays."""
from .terms import *
from .alg import Norm, Poly, args_of, NANK, keymap

ARR = {"numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple", "builtins.sorted", "numpy.asanyarray", "numpy.fromiter"}
FLT = {"builtins.float", "builtins.int", "numpy.float64", "numpy.asarray"}


class Src:
    """What a collection ranges over: base iterable, conditions an element passes, key of its group (K == outer key)."""
    __slots__ = ("base", "conds", "group")

    def __init__(self, base, conds=(), group=None):
        self.base, self.conds, self.group = base, tuple(sorted(set(conds), key=lambda c: c.id)), group

    def key(self):
        return (self.base.id, tuple(c.id for c in self.conds), self.group.id if self.group is not None else None)

    def add(self, conds):
        return Src(self.base, self.conds + tuple(conds), self.group)


class Agg:
    def __init__(self, N, shallow=False):
        self.N = N
        self.shallow = shallow          # leave arrays read at an element of a loop as they are
        self.cm = {}
        self.srcs = {}
        self.alts = {}

    # ---- canonical terms
    def canon(self, t):
        r = self.cm.get(t.id)
        if r is None:
            self.cm[t.id] = t
            r = self._canon(t)
            self.cm[t.id] = r
        return r

    def _canon(self, t):
        if t.op in ("c", "param", "cfg", "glob", "undef", "stale", "func", "mu", "comp"):
            return t
        if t.op == "ite":
            return self.canon(self.N.res(t))
        if t.op == "elem":
            return self.elem(self.base(t.a[0]), t.a[1:])
        if self.shallow and t.op == "idx" and not is_str(t.a[1]) and any(y.op == "elem" for y in reach(t.a[1], control=False)):
            return mk("idx", t.a[0], self.canon(t.a[1]))
        a = [self.canon(x) if type(x) is T else x for x in t.a]
        if t.op == "idx":
            o, k = a
            o = self.N.res(o)
            if o.op == "elem" and o.a[0].op == "m" and o.a[0].a[1] == "items":
                pass
            r = idx(o, k)
            if r.op == "idx" and r.a[0].op in ("mu", "comp") and not is_const(k):
                v = self.held(r.a[0], k)
                if v is not None:
                    return self.canon(v)
            return r
        if t.op == "attr" and a[0].op == "new":
            return attr(*a)
        if t.op == "not":
            return neg(a[0])
        if t.op == "eq":
            return eq(*a)
        return mk(t.op, *a)

    def base(self, it):
        while True:
            it = self.N.res(it)
            if it.op == "call" and it.a[0] in ARR and len(it.a) >= 2:
                it = it.a[1]
            elif it.op == "m" and it.a[1] == "keys":
                it = it.a[0]
            elif it.op in ("idx", "elem") and self.canon(it) is not it:
                it = self.canon(it)
            else:
                return it

    def elem(self, b, d):
        if b.op == "m" and b.a[1] == "items" and len(b.a) == 2:
            o = self.base(b.a[0])
            e = self.elem(o, d)
            return mk("tuple", e, self.canon(mk("idx", o, e)))
        if b.op == "m" and b.a[1] == "values" and len(b.a) == 2:
            o = self.base(b.a[0])
            return self.canon(mk("idx", o, self.elem(o, d)))
        if b.op == "comp" and b.a[0] in ("list", "set"):
            return self.canon(b.a[1])
        if b.op == "comp" and b.a[0] == "dict" and b.a[1].op == "kv":
            return self.canon(b.a[1].a[0])
        if b.op == "idx":
            g = self.groups(self.N.res(b.a[0]))
            if g is not None:
                return self.canon(g[1])
        if b.op == "mu":
            w = self.appended(b)
            if w is not None:
                return self.canon(w[0])
            w = self.filled(b)
            if w is not None:
                return self.elem(self.base(w[0]), d)
        return mk("elem", self.canon(b), *d)

    def held(self, o, key):
        """Value of a filled dict under a key it holds."""
        if o.op == "comp":
            if o.a[0] == "dict" and o.a[1].op == "kv":
                return subst(o.a[1].a[1], {o.a[1].a[0]: key})
            return None
        if o.next is None:
            return None
        if self.N.res(o.init).op == "dict" and self.N.res(o.init).a or o.init.op not in ("dict", "mu", "comp"):
            return None

        def last(x, d=0):
            if x is o or d > 40:
                return None
            x = self.N.res(x) if x.op == "ite" and d < 0 else x
            if x.op == "ite":
                a, b = last(x.a[1], d + 1), last(x.a[2], d + 1)
                return b if a is None else a if b is None else ite(x.a[0], a, b)
            if x.op == "setitem" and not is_const(x.a[1]):
                v = x.a[2]
                return v if x.a[1] is key else subst(v, keymap(x.a[1], key))
            return None
        v = last(o.next)
        if v is None or v.op == "append":
            return None
        if o.init.op in ("mu", "comp"):
            if self.base(o.cond) is not o.init and not (o.init.op == "comp" and self.base(o.cond).op == "elem"):
                return None
            v = subst(v, {mk("idx", o, key): mk("idx", o.init, key)})
        return v

    def filled(self, D):
        """(iterable, conditions) of a dict filled under the elements of a loop: D[k] = v for k in iterable."""
        if D.next is None or D.cond is None or D.init.op not in ("dict", "mu") or D.init.op == "dict" and D.init.a:
            return None
        its = self.base(D.cond)
        if D.init.op == "mu":
            return (D.init, ()) if its is D.init and all(x.a[1].op == "elem" and self.base(x.a[1].a[0]) is its for x in self.sets(D)) else None
        st = self.sets(D)
        if len(st) != 1 or st[0].a[1].op != "elem" or st[0].a[2].op == "append":
            return None
        if self.base(st[0].a[1].a[0]) is not its and self.canon(st[0].a[1]) is not self.elem(its, st[0].a[1].a[1:]):
            return None

        def walk(x):
            if x is D:
                return []
            if x.op == "setitem":
                return [()] if x.a[0] is D else None
            if x.op == "ite":
                a, b = walk(x.a[1]), walk(x.a[2])
                if a is None or b is None:
                    return None
                return [c + (x.a[0],) for c in a] + [c + (neg(x.a[0]),) for c in b]
            return None
        w = walk(D.next)
        return (its, w[0]) if w is not None and len(w) == 1 else None

    def sets(self, D):
        out, todo = [], [D.next]
        while todo:
            x = todo.pop()
            if x.op == "ite":
                todo += [x.a[1], x.a[2]]
            elif x.op == "setitem":
                out.append(x)
                todo.append(x.a[0])
        return out

    # ---- collections
    def appended(self, mu):
        """(element, conditions) of a list or set filled by one append in a loop."""
        if mu.next is None or mu.cond is None or not (mu.init.op in ("list", "set") and not mu.init.a or mu.init.op == "call" and mu.init.a[0] in ("builtins.set", "builtins.list") and len(mu.init.a) == 1):
            return None

        def walk(x):
            if x is mu:
                return []
            if x.op == "append" and x.a[0] is mu:
                return [(x.a[1], ())]
            if x.op == "mut" and x.a[0] is mu and x.a[1] == "add" and len(x.a) == 3:
                return [(x.a[2], ())]
            if x.op == "ite":
                a, b = walk(x.a[1]), walk(x.a[2])
                if a is None or b is None:
                    return None
                return [(v, c + (x.a[0],)) for v, c in a] + [(v, c + (neg(x.a[0]),)) for v, c in b]
            return None
        w = walk(mu.next)
        return w[0] if w is not None and len(w) == 1 else None

    def groups(self, D):
        """(key, element, conditions, iterable) of a dict of lists filled by one append per element."""
        if D.op != "mu" or D.next is None or D.init.op not in ("dict", "call", "new"):
            return None
        if D.init.op == "dict" and D.init.a:
            return None

        def walk(x):
            if x is D:
                return []
            if x.op == "setitem" and x.a[2].op == "append":
                return [(x.a[1], x.a[2].a[1], ())]
            if x.op == "ite":
                a, b = walk(x.a[1]), walk(x.a[2])
                if a is None or b is None:
                    return None
                return [(k, v, c + (x.a[0],)) for k, v, c in a] + [(k, v, c + (neg(x.a[0]),)) for k, v, c in b]
            return None
        w = walk(D.next)
        if not w or len(w) != 1:
            return None
        return w[0] + (D.cond,)

    def source(self, it):
        """Src of an iterable."""
        it = self.base(it)
        if it.op == "m" and it.a[1] in ("items", "values") and len(it.a) == 2:
            return self.source(it.a[0])
        if it.op == "call" and it.a[0] == "builtins.enumerate" and len(it.a) >= 2:
            return self.source(it.a[1])
        if it.op == "call" and it.a[0] == "builtins.zip" and len(it.a) >= 2 and all(x.op not in ("star", "kw") for x in it.a[1:]):
            s = self.source(it.a[1])
            self.alts.setdefault(s.base.id, set()).update(self.source(x).base.id for x in it.a[2:])
            return s
        if it.op == "call" and it.a[0] == "builtins.range" and len(it.a) == 2 and it.a[1].op == "call" and it.a[1].a[0] == "builtins.len":
            return self.source(it.a[1].a[1])
        if it.op == "comp" and it.a[0] in ("list", "set", "dict"):
            its = it.a[2].a
            if len(its) == 1:
                return self.source(its[0]).add(self.canon(c) for c in it.a[3].a)
        if it.op == "mu":
            w = self.appended(it)
            if w is not None:
                return self.source(it.cond).add(self.canon(c) for c in w[1])
            w = self.filled(it)
            if w is not None:
                return self.source(w[0]).add(self.canon(c) for c in w[1])
        if it.op == "idx":
            D = self.N.res(it.a[0])
            g = self.groups(D)
            if g is not None:
                k, v, conds, src = g
                s = self.source(src).add(self.canon(c) for c in conds)
                return Src(s.base, s.conds, eq(self.canon(it.a[1]), self.canon(k)))
            m = self.source_masked(it)
            if m is not None:
                return m
        return Src(self.canon(it))

    def source_masked(self, t):
        x, k = t.a
        e = self.vec(k, boolean=True)
        if e is None:
            return None
        s = self.source(x)
        if s.key() != e[0].key():
            return None
        return s.add([e[1]])

    def vec(self, t, boolean=False):
        """(Src, elementwise polynomial or condition) of an array term, or None."""
        t = self.N.res(t)
        if t.op == "idx" and is_str(t.a[1]):
            c = self.canon(t)
            if c is not t:
                return self.vec(c, boolean)
        if t.op == "mu":
            w = self.appended(t)
            if w is not None:
                s = self.source(t)
                v = self.canon(w[0])
                return s, v if boolean else self.scalar(v)
            return None
        if t.op == "call":
            f = t.a[0]
            pos, kw = args_of(t)
            if f in ARR and pos and f != "builtins.sorted":
                return self.vec(pos[0], boolean)
            if f in ("numpy.ones", "numpy.full", "numpy.ones_like", "numpy.full_like") and pos and not boolean:
                n = self.N.res(pos[0])
                if f.endswith("_like"):
                    e = self.vec(n)
                    s = e[0] if e else None
                else:
                    s = self.length(n)
                if s is not None:
                    return s, Poly.const(1) if "ones" in f else self.scalar(pos[1])
            return None
        if t.op == "comp" and t.a[0] == "list":
            s = self.source(t)
            v = self.canon(t.a[1])
            return s, v if boolean else self.scalar(v)
        if t.op == "m" and t.a[1] == "values" and len(t.a) == 2:
            o = self.base(t.a[0])
            s = self.source(o)
            v = self.canon(mk("idx", o, self.elem(o, (const(0),))))
            return s, v if boolean else self.scalar(v)
        if boolean:
            return None
        if t.op == "bin" and t.a[0] in "+-*/":
            x, y = self.vec(t.a[1]), self.vec(t.a[2])
            if x is None and y is None:
                return None
            if x is not None and y is not None:
                if x[0].key() != y[0].key():
                    return None
                s, a, b = x[0], x[1], y[1]
            elif x is not None:
                s, a, b = x[0], x[1], self.scalar(t.a[2])
            else:
                s, a, b = y[0], self.scalar(t.a[1]), y[1]
            o = t.a[0]
            return s, a + b if o == "+" else a - b if o == "-" else a * b if o == "*" else a.div(b)
        if t.op == "bin" and t.a[0] == "**" and t.a[2].op == "c" and cval(t.a[2]) == 2:
            x = self.vec(t.a[1])
            return None if x is None else (x[0], x[1] * x[1])
        if t.op == "idx":
            m = self.source_masked(t)
            if m is not None:
                x = self.vec(t.a[0])
                return None if x is None else (m, x[1])
            g = self.groups(self.N.res(t.a[0]))
            if g is not None:
                return self.source(t), self.scalar(self.canon(g[1]))
        if t.op == "m" and t.a[1] in ("astype", "copy", "to_numpy", "ravel"):
            return self.vec(t.a[0])
        return None

    def length(self, n):
        n = self.N.res(n)
        if n.op == "call" and n.a[0] == "builtins.len" and len(n.a) == 2:
            e = self.vec(n.a[1])
            return e[0] if e is not None else self.source(n.a[1])
        if n.op == "attr" and n.a[1] == "size":
            e = self.vec(n.a[0])
            return e[0] if e is not None else None
        return None

    # ---- scalars
    def scalar(self, t):
        t = self.N.res(t)
        if t.id in self.N.cuts:
            return self.N.cuts[t.id]
        r = self._scalar(t)
        return Poly.atom(NANK) if r.isnan() else r

    def _scalar(self, t):
        op, a = t.op, t.a
        if op == "bin" and a[0] in "+-*/":
            x, y = self.scalar(a[1]), self.scalar(a[2])
            return x + y if a[0] == "+" else x - y if a[0] == "-" else x * y if a[0] == "*" else x.div(y)
        if op == "bin" and a[0] == "@":
            r = self.dot(a[1], a[2])
            if r is not None:
                return r
        if op == "un" and a[0] == "-":
            return -self.scalar(a[1])
        if op == "call":
            f = a[0]
            pos, kw = args_of(t)
            if f in FLT and len(pos) == 1:
                return self.scalar(pos[0])
            if f in ("numpy.sum", "builtins.sum", "math.fsum", "numpy.nansum") and len(pos) == 1 and not kw:
                e = self.vec(pos[0])
                if e is not None:
                    return self.total(*e)
            if f in ("numpy.mean", "statistics.mean", "statistics.fmean") and len(pos) == 1 and not kw:
                e = self.vec(pos[0])
                if e is not None:
                    return self.total(*e).div(self.total(e[0], Poly.const(1)))
            if f == "numpy.average" and pos:
                w = kw.get("weights") or (pos[2] if len(pos) > 2 else None)
                e = self.vec(pos[0])
                if e is not None and (w is None or w is NONE):
                    return self.total(*e).div(self.total(e[0], Poly.const(1)))
                if e is not None:
                    v = self.vec(w)
                    if v is not None and v[0].key() == e[0].key():
                        return self.total(e[0], e[1] * v[1]).div(self.total(*v))
            if f in ("numpy.dot", "numpy.inner", "numpy.vdot") and len(pos) == 2:
                r = self.dot(pos[0], pos[1])
                if r is not None:
                    return r
            if f == "builtins.len" and len(pos) == 1:
                e = self.vec(pos[0])
                s = e[0] if e is not None else None
                if s is None:
                    b = self.base(pos[0])
                    if b.op in ("comp", "mu"):
                        s = self.source(b)
                if s is not None:
                    return self.total(s, Poly.const(1))
        if op == "m" and len(a) == 2 and a[1] in ("sum", "mean"):
            e = self.vec(a[0])
            if e is not None:
                r = self.total(*e)
                return r if a[1] == "sum" else r.div(self.total(e[0], Poly.const(1)))
        if op == "m" and len(a) == 3 and a[1] == "dot":
            r = self.dot(a[0], a[2])
            if r is not None:
                return r
        if op == "attr" and a[1] == "size":
            s = self.length(t)
            if s is not None:
                return self.total(s, Poly.const(1))
        if op == "mu":
            r = self.accum(t)
            if r is not None:
                return r
        if op in ("idx", "elem", "attr"):
            c = self.canon(t)
            if c is not t:
                return self.scalar(c)
        if op == "idx" and a[1].op == "pos":
            # element i of an array, at the position of the loop over its own source
            e = self.vec(a[0])
            if e is not None and self.source(a[1].a[0]).key() == e[0].key():
                return e[1]
        if op in ("c", "glob", "call", "un", "bin"):
            p = self.N.n(t)
            s, co = p.single()
            if s is not None and s[0] == "t":
                x = byid(s[1])
                y = self.canon(x)
                return Poly({((("t", y.id), 1),): co})
            return p
        return Poly.atom(("t", self.canon(t).id))

    def dot(self, x, y):
        p, q = self.vec(x), self.vec(y)
        if p is None or q is None or p[0].key() != q[0].key():
            return None
        return self.total(p[0], p[1] * q[1])

    def accum(self, mu):
        """x = x0; for ...: x += term."""
        if mu.next is None or mu.cond is None:
            return None

        def walk(x):
            if x is mu:
                return []
            if x.op == "bin" and x.a[0] in "+-":
                if x.a[1] is mu or x.a[1].op == "ite":
                    b = walk(x.a[1])
                    if b is None:
                        return None
                    return b + [((), x.a[2], -1 if x.a[0] == "-" else 1)]
                if x.a[2] is mu and x.a[0] == "+":
                    return [((), x.a[1], 1)]
                return None
            if x.op == "ite":
                a, b = walk(x.a[1]), walk(x.a[2])
                if a is None or b is None:
                    return None
                return [((x.a[0],) + c, v, s) for c, v, s in a] + [((neg(x.a[0]),) + c, v, s) for c, v, s in b]
            return None
        w = walk(mu.next)
        if not w:
            return None
        if any(mu is y for c, v, s in w for y in reach([v] + list(c), control=False, stop=lambda z: z.op == "mu" and z is not mu)):
            return None
        r = self.scalar(mu.init)
        for conds, v, s in w:
            src = self.source(mu.cond).add(self.canon(c) for c in conds)
            p = self.total(src, self.scalar(v))
            r = r + p if s > 0 else r - p
        return r

    def total(self, src, p):
        """Sum of an elementwise polynomial over a source; factors that do not vary with the element are pulled out."""
        k = src.key()
        self.srcs[k] = src
        out = Poly({})
        for mono, co in p.m.items():
            inner, outer = [], []
            for at, n in mono:
                (inner if self.varies(at, src) else outer).append((at, n))
            e = Poly.atom(("SUM", k, tuple(inner)))
            out = out + e * Poly({tuple(sorted(outer, key=repr)): co})
        return out

    def varies(self, at, src):
        b = src.base
        if at[0] == "SUM":
            o = self.srcs[at[1]]
            if o.base is b:
                return False            # its elements are bound by the sum itself
            ts = list(o.conds) + ([o.group] if o.group is not None else [])
            return any(self.varies(("t", t.id), src) for t in ts) or any(self.varies(a, src) for a, n in at[2])
        if at[0] == "inv" and at[1] == "p":
            return any(self.varies(a, src) for m, co in at[2:] for a, n in m)
        if at[0] in ("max", "min") and all(isinstance(x, tuple) and x and x[0] == "p" for x in at[1:]):
            return any(self.varies(a, src) for x in at[1:] for m, co in x[1:] for a, n in m)
        if at[0] != "t":
            return at != NANK
        x = byid(at[1])
        for y in reach(x, control=True, stop=lambda z: z.op in ("mu", "comp")):
            if y.op == "elem" and (y.a[0] is b or y.a[0].id in self.alts.get(b.id, ())):
                return True
            if y.op == "pos":
                return True
        return False
