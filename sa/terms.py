"""Hash-consed value terms (a gated-SSA value-flow graph).

A term describes where a value comes from.  Operators:
  c(typename, repr, value)   literal
  undef                      unbound
  param(name) cfg(name) stale(name)   entry inputs / estimator options / left-over state
  glob(dotted)               module-level or external symbol
  func(key)                  function value (key into Interp.funcs)
  call(dotted, args...)      call of an external function; kw(name,value) args at the end
  m(recv, name, args...)     call of a method of an external value
  icall(qualname, args...)   internal call that was not expanded (recursion)
  attr(o,name) idx(o,k) slice(a,b,c) elem(iterable,depth)
  bin(op,a,b) un(op,a) lt/le/eq/is/in(a,b) not(a) and(..)/or(..) boolop
  ite(cond,a,b) mu(uid) exc(site) iter(site)
  tuple/list/set(...) dict(kv...) kv(k,v) setitem(base,k,v) setattr(base,name,v) append(base,v)
  extend(base,v) mut(base,method,args...) comp(kind,elt,iters...,conds...) fstr(...)
  new(cls, f(name,value)...)  snapshot of an instance
"""

class T:
    __slots__ = ("op", "a", "id", "init", "next", "cond", "depth", "_cache")

    def __init__(self, op, a, i):
        self.op = op
        self.a = a
        self.id = i
        self._cache = None

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]


def _key(x):
    if type(x) is T:
        return x.id
    if isinstance(x, (str, type(None))):
        return x
    return (type(x).__name__, repr(x))


def mk(op, *a):
    k = (op,) + tuple(_key(x) if type(x) is T or isinstance(x, str) else (type(x).__name__, repr(x)) for x in a)
    # distinguish T ids (ints) from raw ints
    k = (op, tuple(1 if type(x) is T else 0 for x in a), k)
    t = _table.get(k)
    if t is None:
        _count[0] += 1
        t = T(op, a, _count[0])
        _table[k] = t
    return t


_byid = []


def byid(i):
    """The term with this id."""
    if not _byid or len(_byid[0]) != len(_table):
        _byid[:] = [{t.id: t for t in _table.values()}]
    return _byid[0].get(i)


def new_mu(init, cond, depth=0):
    _count[0] += 1
    t = T("mu", (_count[0],), _count[0])
    t.depth = depth
    t.init = init
    t.next = None
    t.cond = cond
    return t


def walked(it):
    """An iterable and the iterables whose elements its own elements are made of."""
    out = [it]
    if it.op == "call" and it.a[0] in ("builtins.enumerate", "builtins.zip"):
        for x in it.a[1:]:
            if type(x) is T and x.op not in ("kw", "star"):
                out += walked(x)
    elif it.op == "m" and it.a[1] in ("items", "values", "keys") and len(it.a) == 2:
        out += walked(it.a[0])
    elif it.op == "comp" and it.a[0] == "list":
        for x in it.a:
            if type(x) is T and x.op == "iters":
                for y in x.a:
                    out += walked(y)
    elif it.op == "call" and it.a[0] == "builtins.range" and len(it.a) == 2 and it.a[1].op == "call" and it.a[1].a[0] == "builtins.len" and len(it.a[1].a) == 2:
        out.append(it.a[1].a[1])
    return out


def const(v):
    return mk("c", type(v).__name__, repr(v), v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.a[2]


def is_str(t):
    return t.op == "c" and t.a[0] == "str"


def glob(n):
    return mk("glob", n)


def children(t):
    """All T children, including loop-carried inputs of mu."""
    if t.op == "mu":
        r = [t.init]
        if t.next is not None:
            r.append(t.next)
        if t.cond is not None:
            r.append(t.cond)
        return r
    return [x for x in t.a if type(x) is T]


def data_children(t):
    """Children without the control part."""
    if t.op == "mu":
        r = [t.init]
        if t.next is not None:
            r.append(t.next)
        return r
    if t.op == "ite":
        return [t.a[1], t.a[2]]
    return [x for x in t.a if type(x) is T]


def reach(ts, control=True, stop=None):
    """Set of terms reachable from ts."""
    if type(ts) is T:
        ts = [ts]
    seen = set()
    out = []
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        if stop is not None and stop(t):
            continue
        st.extend(children(t) if control else data_children(t))
    return out


NONNULL = {"tuple", "list", "set", "dict", "new", "func", "bin", "lt", "le", "eq", "is", "in", "not",
           "fstr", "comp", "setitem", "append", "extend", "un"}


def truth(t):
    """Static truth value of a condition term, or None."""
    if t.op == "c":
        try:
            return bool(cval(t))
        except Exception:
            return None
    if t.op in ("tuple", "list", "set", "dict"):
        if any(type(x) is T and x.op == "star" for x in t.a):
            return None
        return len(t.a) > 0
    if t.op in ("func", "new", "append"):
        return True
    if t.op == "not":
        v = truth(t.a[0])
        return None if v is None else not v
    if t.op == "and":
        vs = [truth(x) for x in t.a]
        if any(v is False for v in vs):
            return False
        if all(v is True for v in vs):
            return True
        return None
    if t.op == "or":
        vs = [truth(x) for x in t.a]
        if any(v is True for v in vs):
            return True
        if all(v is False for v in vs):
            return False
        return None
    if t.op == "ite":
        a, b = truth(t.a[1]), truth(t.a[2])
        if a is not None and a == b:
            return a
    return None


def neg(t):
    if t.op == "not":
        return t.a[0]
    if t.op in ("and", "or"):
        return mk("or" if t.op == "and" else "and", *[neg(x) for x in t.a])
    v = truth(t) if t.op == "c" else None
    if v is not None:
        return FALSE if v else TRUE
    return mk("not", t)


def conj(ts):
    r = []
    for t in ts:
        v = truth(t)
        if v is True:
            continue
        if v is False:
            return FALSE
        if t not in r:
            r.append(t)
    if not r:
        return TRUE
    if len(r) == 1:
        return r[0]
    return mk("and", *r)


def ite(c, a, b):
    if a is b:
        return a
    v = truth(c)
    if v is True:
        return a
    if v is False:
        return b
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.op == "c" and b.op == "c" and a.a[0] == "bool" and b.a[0] == "bool":
        return c if cval(a) else neg(c)
    return mk("ite", c, a, b)


def constleaves(t, d=0):
    return t.op == "c" or t.op == "ite" and d < 6 and constleaves(t.a[1], d + 1) and constleaves(t.a[2], d + 1)


def eq(a, b):
    if a is b and a.op in ("c", "param", "cfg", "func"):
        return TRUE
    if a.op == "c" and b.op == "c":
        try:
            return const(bool(cval(a) == cval(b)))
        except Exception:
            pass
    if a.op == "c" and b.op != "c":
        a, b = b, a
    if a.op == "ite" and b.op == "c" and constleaves(a):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if (a.op == "c" and cval(a) is None and b.op in NONNULL) or (b.op == "c" and cval(b) is None and a.op in NONNULL):
        return FALSE
    if b.op != "c" and (a.op == "c" or a.id > b.id):
        a, b = b, a
    return mk("eq", a, b)


def is_(a, b):
    if a is b and a.op in ("c", "param", "cfg", "func", "glob"):
        return TRUE
    if a.op == "c" and b.op == "c":
        return const(cval(a) is cval(b) if (cval(a) is None or cval(b) is None) else cval(a) == cval(b))
    if a.op == "c" and b.op != "c":
        a, b = b, a
    if b is NONE and a.op in NONNULL:
        return FALSE
    if b is NONE and a.op == "attr" and a.a[1] in ("values", "shape", "T", "columns", "index", "size", "ndim", "dtype"):
        return FALSE
    if b is NONE and a.op == "ite":
        x, y = is_(a.a[1], NONE), is_(a.a[2], NONE)
        if truth(x) is not None and truth(y) is not None:
            return ite(a.a[0], x, y)
        if truth(x) is not None or truth(y) is not None:
            return ite(a.a[0], x, y)
    return mk("is", a, b)


def _mask(k):
    if k.op == "bin":
        return k.a[0] in "&|" and _mask(k.a[1]) and _mask(k.a[2])
    return k.op in ("lt", "le", "eq", "not") or k.op == "un" and k.a[0] == "~" and _mask(k.a[1]) or \
        k.op == "m" and k.a[1] in ("isin", "isna", "notna", "isnull", "notnull", "between")


def idx(o, k, d=0):
    if o.op in ("tuple", "list") and k.op == "c" and isinstance(cval(k), int) and not isinstance(cval(k), bool):
        if not any(x.op == "star" for x in o.a):
            i = cval(k)
            if -len(o.a) <= i < len(o.a):
                return o.a[i]
    if is_str(o) and k.op == "c" and type(cval(k)) is int and -len(cval(o)) <= cval(k) < len(cval(o)):
        return const(cval(o)[cval(k)])
    if o.op == "dict" and k.op == "c":
        hit = None
        ok = True
        for kv in o.a:
            if kv.op != "kv" or kv.a[0].op != "c":
                ok = False
                hit = None if kv.op != "kv" or kv.a[0] is not k else kv.a[1]
                continue
            if kv.a[0] is k:
                hit = kv.a[1]
                ok = True
        if hit is not None:
            return hit
    if o.op == "setitem":
        if o.a[1] is k:
            return o.a[2]
        if o.a[1].op == "c" and k.op == "c" and o.a[1].a[0] == k.a[0] == "str":
            return idx(o.a[0], k, d)
    if o.op == "attr" and o.a[1] == "loc" and _mask(k):
        return idx(o.a[0], k, d)        # rows where a condition holds
    if o.op == "ite" and d < 6:
        a, b = o.a[1], o.a[2]
        if _struct(a) or _struct(b):
            return ite(o.a[0], idx(a, k, d + 1), idx(b, k, d + 1))
    return mk("idx", o, k)


def _struct(t, d=0):
    if t.op in ("tuple", "list", "dict", "new", "setitem"):
        return True
    if t.op == "ite" and d < 4:
        return _struct(t.a[1], d + 1) or _struct(t.a[2], d + 1)
    return False


def attr(o, name, d=0):
    if o.op == "new":
        for f in o.a[1:]:
            if f.a[0] == name:
                return f.a[1]
    if o.op == "setattr":
        if o.a[1] == name:
            return o.a[2]
    if o.op == "ite" and d < 6 and (o.a[1].op in ("new", "ite") or o.a[2].op in ("new", "ite")):
        return ite(o.a[0], attr(o.a[1], name, d + 1), attr(o.a[2], name, d + 1))
    return mk("attr", o, name)


def show(t, depth=5):
    """Short text for a term (reports)."""
    if type(t) is not T:
        return repr(t)
    op, a = t.op, t.a
    if op == "c":
        return a[1] if len(a[1]) < 60 else a[1][:57] + "..."
    if op in ("param", "cfg"):
        return a[0] if op == "param" else "self." + a[0]
    if op == "stale":
        return "stale(self.%s)" % a[0]
    if op == "glob":
        return a[0]
    if op == "mu":
        if depth <= 1:
            return "loop%d" % a[0]
        return "loop(%s..)" % show(t.init, min(depth - 1, 2))
    if depth <= 0:
        return ".."
    s = lambda x: show(x, depth - 1) if type(x) is T else str(x)
    if op == "call":
        return "%s(%s)" % (a[0].replace("numpy.", "np."), ", ".join(s(x) for x in a[1:]))
    if op == "m":
        return "%s.%s(%s)" % (s(a[0]), a[1], ", ".join(s(x) for x in a[2:]))
    if op == "icall":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if op == "kw":
        return "%s=%s" % (a[0], s(a[1]))
    if op == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "bin":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if op == "un":
        return "%s%s" % (a[0], s(a[1]))
    if op in ("lt", "le", "eq", "is", "in"):
        return "(%s %s %s)" % (s(a[0]), {"lt": "<", "le": "<=", "eq": "=="}.get(op, op), s(a[1]))
    if op == "not":
        return "not %s" % s(a[0])
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(s(x) for x in a) + ")"
    if op == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if op == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if op == "list":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if op == "kv":
        return "%s: %s" % (s(a[0]), s(a[1]))
    if op == "dict":
        return "{" + ", ".join(s(x) for x in a[:6]) + "}"
    if op == "elem":
        return "each(%s)" % s(a[0])
    if op == "new":
        return "%s(..)" % a[0]
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))


def subst(t, m, memo=None):
    """Replace terms (by identity) inside t; loop terms are left alone."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t.id in memo:
        return memo[t.id]
    if t.op in ("c", "mu", "param", "cfg", "glob", "undef", "stale", "func"):
        return t
    a = [subst(x, m, memo) if type(x) is T else x for x in t.a]
    if all(x is y for x, y in zip(a, t.a)):
        r = t
    elif t.op == "ite":
        r = ite(*a)
    elif t.op == "is":
        r = is_(*a)
    elif t.op == "eq":
        r = eq(*a)
    elif t.op == "not":
        r = neg(a[0])
    elif t.op == "idx":
        r = idx(*a)
    else:
        r = mk(t.op, *a)
    memo[t.id] = r
    return r


FRESH = ("inst", "unk", "lambda", "closure", "iter", "gen", "exc")


def same(a, b, equate=None):
    """Equality of terms from two runs, up to the names of loop terms and allocation sites (bisimulation).
    equate: (u, v): u on the left counts as v on the right."""
    seen = set()
    st = [(a, b)]
    while st:
        x, y = st.pop()
        if x is y or (x.id, y.id) in seen:
            continue
        seen.add((x.id, y.id))
        if equate and x is equate[0] and y is equate[1]:
            continue
        if x.op != y.op or len(x.a) != len(y.a):
            return False
        if x.op == "mu":
            if (x.next is None) != (y.next is None) or (x.cond is None) != (y.cond is None):
                return False
            st.append((x.init, y.init))
            if x.next is not None:
                st.append((x.next, y.next))
            if x.cond is not None:
                st.append((x.cond, y.cond))
            continue
        if x.op == "eq" and (x.a[0].op != y.a[0].op or x.a[1].op != y.a[1].op):
            st.append((x.a[0], y.a[1]))
            st.append((x.a[1], y.a[0]))
            continue
        for p, q in zip(x.a, y.a):
            if type(p) is T and type(q) is T:
                st.append((p, q))
            elif type(p) is T or type(q) is T:
                return False
            elif p != q and not (isinstance(p, int) and not isinstance(p, bool) and x.op != "c"):
                return False
    return True
