"""Field-sensitive backward slices over terms."""
from .terms import *

BOOL, KEYS, NULL = "#bool", "#keys", "#null"
ORDER = ("builtins.list", "builtins.sorted", "builtins.tuple", "builtins.reversed", "builtins.set")


def kind(t, d=0):
    """'dict' or 'list' for a container built by the code itself, else None."""
    seen = set()
    while t.id not in seen:
        seen.add(t.id)
        if t.op in ("dict", "list"):
            return t.op
        if t.op == "comp":
            return "dict" if t.a[0] == "dict" else "list" if t.a[0] in ("list", "set") else None
        if t.op == "mu":
            t = t.init
        elif t.op == "ite":
            if d > 4:
                return None
            x, y = kind(t.a[1], d + 1), kind(t.a[2], d + 1)
            return x if x == y else x or y if NONE in (t.a[1], t.a[2]) else None
        elif t.op in ("setitem", "append", "extend", "mut"):
            t = t.a[0]
        elif t.op == "m" and t.a[1] in ("copy", "items", "keys") and len(t.a) == 2:
            t = t.a[0]
        elif t.op == "call" and t.a[0] in ORDER + ("builtins.enumerate", "builtins.zip") and len(t.a) >= 2:
            return "list"
        else:
            return None
    return None


PASS = {"copy", "items", "values", "get", "setdefault"}


class Slicer:
    """leaves(t): the leaves (cfg/param terms) a value depends on; records are projected by constant keys.
    pick(x) selects leaves; cut(x) -> list of terms to follow instead of x's children, or None."""

    def __init__(self, pick, control=True, cut=None):
        self.pick, self.control, self.cut = pick, control, cut
        self._strip = {}

    def leaves(self, ts, proj=()):
        if type(ts) is T:
            ts = [ts]
        seen = set()
        out = {}
        st = [(t, proj, None) for t in ts]
        par = {}
        while st:
            t, p, up = st.pop()
            k = (t.id, p)
            if k in seen:
                continue
            seen.add(k)
            par[k] = (t, up)
            if self.pick(t):
                out.setdefault(t, k)
                continue
            for n, q in self.step(t, p):
                st.append((n, q, k))
        self.par = par
        return out

    def strip(self, t, key, memo=None):
        """Drop updates of t that cannot concern component `key`."""
        top = memo is None
        if top:
            m = self._strip.get((t.id, key))
            if m is not None:
                return m
            memo = {}
        if t.id in memo:
            return memo[t.id]
        r = t
        memo[t.id] = t
        if t.op == "setitem":
            o, k, v = t.a
            if is_str(k):
                if cval(k) != key:
                    r = self.strip(o, key, memo)
            else:
                w = self.strip(v, key, memo)
                if w.op == "idx" and w.a[1] is k:
                    x = self.strip(o, key, memo)
                    if w.a[0] is o or self.strip(w.a[0], key, memo) is x:
                        r = x
        elif t.op == "setattr":
            if "." + t.a[1] != key:
                r = self.strip(t.a[0], key, memo)
        elif t.op == "ite":
            x, y = self.strip(t.a[1], key, memo), self.strip(t.a[2], key, memo)
            if x is y:
                r = x
        elif t.op == "mu" and t.next is not None:
            n = self.strip(t.next, key, memo)
            if n is t:
                r = self.strip(t.init, key, memo)
        elif t.op == "idx" and not is_str(t.a[1]) and t.a[0].op in ("mu", "ite", "setitem"):
            o = self.strip(t.a[0], key, memo)
            if o is not t.a[0]:
                r = mk("idx", o, t.a[1])
        memo[t.id] = r
        if top:
            self._strip[(t.id, key)] = r
        return r

    def path(self, k):
        """Chain of terms from the root to the leaf found at k."""
        r = []
        while k is not None:
            t, k = self.par[k]
            r.append(t)
        return r[::-1]

    def step(self, t, p):
        if self.cut is not None:
            c = self.cut(t, p)
            if c is not None:
                return [(x, ()) if type(x) is T else x for x in c]
        if p and p[0][0] != "#":
            t2 = self.strip(t, p[0])
            if t2 is not t:
                return [(t2, p)]
        op, a = t.op, t.a
        if p and p[0] == NULL:
            if op in ("dict", "list", "tuple", "new", "setitem", "append", "extend", "bin", "comp", "c", "un", "fstr"):
                return []
            if op == "mu":
                return [(t.init, p)] + ([(t.next, p)] if t.next is not None else [])
            if op == "ite":
                return [(a[1], p), (a[2], p)] + ([(a[0], (BOOL,))] if self.control else [])
            p = ()
        if op == "is" and a[1] is NONE:
            return [(a[0], (NULL,))]
        if p and p[0] == BOOL:
            if op in ("not", "and", "or"):
                return [(x, p) for x in a]
            if kind(t):
                return [(t, (KEYS,))]
            if op == "mu" or op == "ite":
                p = p
            else:
                return [(t, ())]
        if p and p[0] == KEYS:
            r = self.keys(t)
            if r is not None:
                return r
            p = ()
        if op == "call" and a[0] in ("builtins.len", "builtins.bool", "builtins.any", "builtins.all") and len(a) == 2 and kind(a[1]) \
                and not (a[0] in ("builtins.any", "builtins.all")):
            return [(a[1], (KEYS,))]
        if op == "in" and kind(a[1]) == "dict":
            return [(a[0], ()), (a[1], (KEYS,))]
        if op == "elem":
            o = a[0]
            while o.op == "call" and o.a[0] in ORDER + ("builtins.enumerate",) and len(o.a) >= 2 or o.op == "m" and o.a[1] == "keys":
                o = o.a[1] if o.op == "call" else o.a[0]
            if kind(o) == "dict":
                return [(o, (KEYS,))]
            return [(a[0], p)]
        if op == "conds":
            return [(x, (BOOL,)) for x in a]
        if op == "pos":
            return [(a[0], (KEYS,))] + [(x, ()) for x in a[1:] if type(x) is T]
        if op == "iters":
            return [(x, (KEYS,)) for x in a if type(x) is T]
        if op == "idx":
            o, k = a
            if is_str(k) and len(p) < 3:
                return [(o, (cval(k),) + p)]
            if k.op == "c" and isinstance(cval(k), int) and o.op in ("elem",) and o.a[0].op == "m" and o.a[0].a[1] == "items":
                if cval(k) == 1:
                    return [(o.a[0].a[0], p)]
                if cval(k) == 0:
                    return [(o.a[0].a[0], (KEYS,))]
            if k.op == "c" and type(cval(k)) is int and cval(k) >= 0 and o.op in ("elem", "idx", "ite", "mu") and len(p) < 3 \
                    and kind(o) is None:
                return [(o, ("[%d]" % cval(k),) + p)]
            return [(o, p), (k, ())]
        if op in ("tuple", "list") and p and p[0][0] == "[":
            i = int(p[0][1:-1])
            if i < len(a) and not any(x.op == "star" for x in a[:i + 1]):
                return [(a[i], p[1:])]
        if op == "attr":
            if len(p) < 3:
                return [(a[0], ("." + a[1],) + p)]
            return [(a[0], p)]
        if op == "dict" and p:
            return self.record([(x.a[0], x.a[1]) if x.op == "kv" else (None, x) for x in a], p)
        if op == "new":
            if p and p[0].startswith("."):
                hit = [x.a[1] for x in a[1:] if x.a[0] == p[0][1:]]
                if hit:
                    return [(hit[0], p[1:])]
            if p:
                return [(x.a[1], p) for x in a[1:]]
            return [(x.a[1], ()) for x in a[1:]]
        if op == "setitem":
            o, k, v = a
            if p and is_str(k):
                if cval(k) == p[0]:
                    return [(v, p[1:]), (o, p)]
                return [(o, p)]
            return [(o, p), (v, p)] + ([(k, ())] if not is_str(k) else [])
        if op == "setattr":
            o, n, v = a
            if p and p[0].startswith("."):
                if p[0][1:] == n:
                    return [(v, p[1:]), (o, p)]
                return [(o, p)]
            return [(o, p), (v, p)]
        if op == "ite":
            return [(a[1], p), (a[2], p)] + ([(a[0], (BOOL,))] if self.control else [])
        if op == "mu":
            r = [(t.init, p)]
            if t.next is not None:
                r.append((t.next, p))
            if t.cond is not None and self.control:
                r.append((t.cond, (BOOL,)))
            return r
        if op in ("append", "extend", "list", "tuple", "set", "star", "kv", "comp", "upd", "or", "and"):
            if op == "comp" and p:
                return [(x, p) for x in a if type(x) is T]
            return [(x, p) for x in a if type(x) is T]
        if op == "m" and a[1] in PASS:
            if a[1] == "get" and len(a) > 2 and is_str(a[2]) and len(p) < 3:
                return [(a[0], (cval(a[2]),) + p)] + [(x, p) for x in a[3:] if type(x) is T]
            return [(a[0], p)] + [(x, ()) for x in a[2:] if type(x) is T]
        if op == "call" and a[0] in ("builtins.list", "builtins.dict", "builtins.sorted", "builtins.enumerate",
                                     "builtins.tuple", "builtins.reversed", "builtins.zip"):
            return [(x, p) for x in a[1:] if type(x) is T]
        return [(x, ()) for x in children(t)]

    def keys(self, t):
        """What the set of keys / the length of a container depends on."""
        op, a = t.op, t.a
        K = (KEYS,)
        if op == "dict":
            return [(x.a[0], ()) if x.op == "kv" else (x, K) for x in a]
        if op in ("list", "tuple"):
            return [(x.a[0], K) for x in a if x.op == "star"]
        if op == "comp":
            r = []
            if a[0] == "dict" or a[0] == "set":
                if a[1].op == "kv":
                    r.append((a[1].a[0], ()))
                elif a[0] == "set":
                    r.append((a[1], ()))
            return r + [(x, ()) for x in a[2:] if type(x) is T and x.op in ("iters", "conds")]
        if op == "mu":
            return [(t.init, K)] + ([(t.next, K)] if t.next is not None else []) + \
                ([(t.cond, (BOOL,))] if t.cond is not None and self.control else [])
        if op == "ite":
            return [(a[1], K), (a[2], K)] + ([(a[0], (BOOL,))] if self.control else [])
        if op == "setitem":
            if kind(t) == "dict":
                return [(a[0], K), (a[1], ())]
            return [(a[0], K)] if kind(t) == "list" else None
        if op == "append":
            return [(a[0], K)]
        if op == "extend":
            return [(a[0], K), (a[1], K)]
        if op == "m" and a[1] in ("items", "keys", "values", "copy") and len(a) == 2 and kind(a[0]):
            return [(a[0], K)]
        if op == "call" and a[0] in ORDER + ("builtins.enumerate", "builtins.zip"):
            return [(x, K) for x in a[1:] if type(x) is T]
        return None

    def record(self, kvs, p):
        names = [cval(k) for k, v in kvs if k is not None and is_str(k)]
        if p[0] in names:
            return [(v, p[1:]) for k, v in kvs if k is not None and is_str(k) and cval(k) == p[0]] + \
                   [(v, p) for k, v in kvs if k is None]
        if len(names) == len(kvs) and names:
            return []          # a different record shape
        return [(v, p) for k, v in kvs]


def fields_of(t, out=None):
    """Field -> list of terms, over all `new` records a returned term can be."""
    out = {} if out is None else out
    if t.op == "ite":
        fields_of(t.a[1], out)
        fields_of(t.a[2], out)
    elif t.op == "new":
        for kv in t.a[1:]:
            out.setdefault(kv.a[0], []).append(kv.a[1])
    return out
