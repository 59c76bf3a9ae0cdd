"""May-alias roots: which caller-owned objects can a value share memory with."""
from .terms import *

SHARE_ATTR_FRESH = {"shape", "dtype", "size", "ndim", "dtypes", "name", "names", "columns", "index"}
SHARE_METH = {"reshape", "ravel", "view", "transpose", "squeeze", "to_numpy", "get", "items", "values", "keys",
              "swapaxes", "setdefault", "pop", "__getitem__", "get_level_values", "diagonal", "popitem", "pipe",
              "set_flags"}
SHARE_FN = {"numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.reshape",
            "numpy.asfortranarray", "numpy.ascontiguousarray", "numpy.squeeze", "numpy.transpose",
            "numpy.broadcast_to", "numpy.asanyarray", "numpy.expand_dims", "numpy.swapaxes", "numpy.diagonal",
            "pandas.DataFrame", "pandas.Series", "builtins.iter", "builtins.next", "builtins.vars", "typing.cast",
            "numpy.require", "numpy.moveaxis", "numpy.split", "copy.copy!", "numpy.lib.stride_tricks.as_strided"}
FRESH_IDX = {"lt", "le", "eq", "in", "list", "comp", "and", "or", "not", "un"}


def kwval(t, name):
    for x in t.a:
        if type(x) is T and x.op == "kw" and x.a[0] == name:
            return x.a[1]
    return None


def maskish(k):
    if k.op in FRESH_IDX:
        return True
    if k.op == "bin" and k.a[0] in ("&", "|", "^"):
        return True
    if k.op == "m" and k.a[1] in ("isin", "isna", "notna", "between", "duplicated", "astype", "isnull", "notnull"):
        return True
    if k.op == "call" and k.a[0] in ("numpy.isfinite", "numpy.isnan", "numpy.where", "numpy.nonzero",
                                     "numpy.logical_and", "numpy.logical_not", "numpy.ix_", "numpy.argsort"):
        return True
    if k.op == "tuple":
        return any(maskish(x) for x in k.a)
    if k.op == "ite":
        return maskish(k.a[1]) or maskish(k.a[2])
    if k.op == "setitem":
        return maskish(k.a[0])
    return False


def roots(t, memo=None, busy=None):
    """frozenset of root names; 'p:<param>' (caller data), 'c:<option>' (option object)."""
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    if busy is None:
        busy = set()
    if t.id in busy:
        return frozenset()
    busy.add(t.id)
    r = _roots(t, memo, busy)
    busy.discard(t.id)
    if not busy:
        memo[t.id] = r
    return r


def _roots(t, memo, busy):
    f = lambda x: roots(x, memo, busy)
    op, a = t.op, t.a
    if op == "param":
        return frozenset(["p:" + a[0]])
    if op == "cfg":
        return frozenset(["c:" + a[0]])
    if op in ("glob", "cls", "mod"):
        return frozenset(["g:" + a[0]])
    if op == "stale":
        return frozenset(["s:" + a[0]])
    if op == "attr":
        if a[0].op in ("glob", "mod", "cls"):
            return frozenset(["g:%s.%s" % (a[0].a[0], a[1])])
        if a[1] in SHARE_ATTR_FRESH:
            return frozenset()
        return f(a[0])
    if op == "idx":
        o, k = a
        if maskish(k):
            return frozenset()
        if o.op in ("list", "tuple", "set"):
            return frozenset().union(*[f(x) for x in o.a]) if o.a else frozenset()
        if o.op in ("dict", "setitem", "append", "extend", "mu", "ite", "comp", "elem"):
            return elems(o, memo, busy)
        return f(o)
    if op == "elem":
        return elems(a[0], memo, busy)
    if op in ("setitem", "setattr", "mut", "append", "extend"):
        return f(a[0])
    if op == "ite":
        return f(a[1]) | f(a[2])
    if op in ("and", "or"):
        return frozenset().union(*[f(x) for x in a])
    if op == "mu":
        return f(t.init) | (f(t.next) if t.next is not None else frozenset())
    if op == "m":
        if a[1] == "astype":
            c = kwval(t, "copy")
            return f(a[0]) if c is not None and truth(c) is not True else frozenset()
        if a[1] == "copy":
            d = kwval(t, "deep")
            return f(a[0]) if d is not None and truth(d) is not True else frozenset()
        if a[1] in SHARE_METH:
            return f(a[0]) if a[1] not in ("items", "values", "keys") else frozenset()
        c = kwval(t, "copy")
        if c is not None and truth(c) is False:
            return f(a[0])
        return frozenset()
    if op == "call":
        if a[0] == "numpy.array":
            c = kwval(t, "copy")
            return f(a[1]) if c is not None and truth(c) is not True and len(a) > 1 else frozenset()
        if a[0] in SHARE_FN and len(a) > 1 and a[1].op != "kw":
            d = kwval(t, "copy")
            if d is not None and truth(d) is True:
                return frozenset()
            if a[0] == "numpy.asarray" and False:
                return frozenset()
            return f(a[1])
        if a[0] == "pandas.concat":
            return frozenset()
        if a[0] == "builtins.getattr" and len(a) > 1:
            return f(a[1])
        return frozenset()
    if op == "cbarg":
        return frozenset()
    if op == "new":
        return frozenset()
    return frozenset()


def members(t, n=0):
    """The terms a container built here holds, or None when they are not known."""
    op, a = t.op, t.a
    if n > 12:
        return None
    if op in ("list", "tuple", "set"):
        return list(a)
    if op == "comp":
        e = a[1]
        return [e.a[1] if e.op == "kv" else e]
    if op in ("append", "extend", "ite"):
        u = members(a[1] if op == "ite" else a[0], n + 1)
        v = [a[1]] if op == "append" else members(a[2] if op == "ite" else a[1], n + 1)
        return None if u is None or v is None else u + v
    if op == "mut" and a[1] in ("sort", "reverse"):
        return members(a[0], n + 1)
    if op == "call" and a[0] in ("builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed") and len(a) > 1:
        return members(a[1], n + 1)
    return None


def elems(t, memo, busy):
    """Roots of the elements of a container."""
    f = lambda x: roots(x, memo, busy)
    if t.op == "elem":
        ms = members(t.a[0])
        if ms is None:
            return f(t)
        return frozenset().union(*[elems(x, memo, busy) for x in ms]) if ms else frozenset()
    if t.id in busy and t.op == "mu":
        return frozenset()
    op, a = t.op, t.a
    if op in ("list", "tuple", "set"):
        return frozenset().union(*[f(x) for x in a]) if a else frozenset()
    if op == "dict":
        r = frozenset()
        for x in a:
            r |= f(x.a[1]) if x.op == "kv" else elems(x.a[0], memo, busy)
        return r
    if op == "setitem":
        return elems(a[0], memo, busy) | f(a[2]) | (f(a[0]) if a[0].op in ("param", "cfg", "attr") else frozenset())
    if op in ("append",):
        return elems(a[0], memo, busy) | f(a[1])
    if op == "extend":
        return elems(a[0], memo, busy) | elems(a[1], memo, busy)
    if op == "ite":
        return elems(a[1], memo, busy) | elems(a[2], memo, busy)
    if op == "mu":
        busy.add(t.id)
        try:
            return elems(t.init, memo, busy) | (elems(t.next, memo, busy) if t.next is not None else frozenset())
        finally:
            busy.discard(t.id)
    if op == "comp":
        e = a[1]
        return f(e.a[1]) if e.op == "kv" else f(e)
    if op == "m" and a[1] in ("items", "values"):
        return elems(a[0], memo, busy)
    if op == "m" and a[1] in ("unique", "groupby", "iterrows", "itertuples"):
        return frozenset()
    if op == "call" and a[0] in ("builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed",
                                 "builtins.set", "builtins.enumerate", "builtins.zip", "builtins.iter",
                                 "builtins.filter"):
        r = frozenset()
        for x in a[1:]:
            if x.op != "kw":
                r |= elems(x, memo, busy)
        return r
    if op == "call" and a[0] == "builtins.dict":
        return elems(a[1], memo, busy) if len(a) > 1 else frozenset()
    return f(t)
