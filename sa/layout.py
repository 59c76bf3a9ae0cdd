"""Design matrices: which columns a matrix term has, in order, and what each column holds."""
from .terms import *
from .alg import loopval, keymap


class Unknown(Exception):
    pass


class Reordered(Unknown):
    """Columns put in another order than they were built in."""


ID = {"numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.atleast_2d", "numpy.asfortranarray", "numpy.float64", "builtins.float",
      "numpy.copy", "pandas.to_numeric", "copy.copy", "copy.deepcopy", "numpy.ravel"}
IDM = {"astype", "copy", "to_numpy", "ravel", "flatten", "squeeze", "infer_objects"}
ONE = mk("one")
PREV = mk("prev")
SEQ = {"builtins.list", "builtins.tuple", "builtins.sorted"}


def pos(t, skip=1):
    return [x for x in t.a[skip:] if x.op not in ("kw", "star", "dstar")]


def kw(t, name):
    for x in t.a:
        if type(x) is T and x.op == "kw" and x.a[0] == name:
            return x.a[1]
    return None


def lin(parts):
    """A linear combination of column terms."""
    d = {}
    for co, t in parts:
        if t.op == "lin":
            for x in t.a:
                d[x.a[1]] = d.get(x.a[1], 0) + co * cval(x.a[0])
        else:
            d[t] = d.get(t, 0) + co
    d = {t: v for t, v in d.items() if v}
    if len(d) == 1:
        (t, v), = d.items()
        if v == 1:
            return t
    return mk("lin", *[mk("term", const(v), t) for t, v in sorted(d.items(), key=lambda x: x[0].id)])


def prod(fs):
    out = []
    for f in fs:
        out += list(f.a) if f.op == "prod" else [] if f is ONE else [f]
    if not out:
        return ONE
    return out[0] if len(out) == 1 else mk("prod", *sorted(out, key=lambda x: x.id))


def valued(q):
    """The condition looks at values held by a frame, not only at names."""
    return any(x.op == "idx" and x.a[0].op == "param" and x.a[0].a[0] == "data" for x in reach(q, control=False))


class Layout:
    def __init__(self, N):
        self.N = N
        self.open = []
        self.memo = {}
        self.rows = set()
        self.guess = {}

    # ---- helpers
    def supposed(self, q):
        """Truth of a condition on the data's values: false where it is first met, consistent after that."""
        v = truth(q)
        if v is not None:
            return v
        if q.op == "not":
            return not self.supposed(q.a[0]) if q.a[0] in self.guess else self.guess.setdefault(q.a[0], True) is not True
        return self.guess.setdefault(q, False)

    def strip(self, t):
        while True:
            t = self.N.res(t)
            if t.op == "call" and t.a[0] in ID and pos(t):
                t = pos(t)[0]
            elif t.op == "m" and t.a[1] in IDM or t.op == "m" and t.a[1] == "reshape":
                t = t.a[0]
            elif t.op == "attr" and t.a[1] == "values":
                t = t.a[0]
            else:
                return t

    # ---- lists
    def seq(self, t):
        """Items of a list: ('item', term) and ('rep', iterable, items)."""
        t = self.N.res(t)
        if t.op in ("list", "tuple"):
            out = []
            for x in t.a:
                if x.op == "star":
                    out += self.seq(x.a[0])
                else:
                    out.append(("item", x))
            return out
        if t.op == "bin" and t.a[0] == "+":
            return self.seq(t.a[1]) + self.seq(t.a[2])
        if t.op == "append":
            return self.seq(t.a[0]) + [("item", t.a[1])]
        if t.op == "extend":
            return self.seq(t.a[0]) + self.seq(t.a[1])
        if t.op == "call" and t.a[0] in ("builtins.list", "builtins.tuple") and len(t.a) == 2:
            return self.seq(t.a[1])
        if t.op == "call" and t.a[0] in ("builtins.list", "builtins.tuple") and len(t.a) == 1:
            return []
        if t.op == "call" and t.a[0] == "builtins.sorted" and len(pos(t)) == 1:
            self.seq(pos(t)[0])
            raise Reordered("sorted list")
        if t.op == "boolop" and t.a[0] == "or" and len(t.a) == 3:
            return self.seq(t.a[1]) if self.N.cond(t.a[1]) else self.seq(t.a[2])
        if t.op == "or" and len(t.a) == 2:
            return self.seq(t.a[0]) if self.N.cond(t.a[0]) else self.seq(t.a[1])
        if t.op == "comp" and t.a[0] == "list":
            its = next(x for x in t.a if type(x) is T and x.op == "iters")
            cs = next(x for x in t.a if type(x) is T and x.op == "conds")
            if len(its.a) != 1:
                raise Unknown("comprehension over several iterables")
            if cs.a:
                return [("if", its.a[0], list(cs.a), [("item", t.a[1])])]
            return [("rep", its.a[0], [("item", t.a[1])])]
        if t.op == "mu":
            return self.loop(t, self.seq)
        if t.op in ("param", "cfg", "m", "call", "attr", "idx", "elem"):
            return [("rep", t, [("item", mk("elem", t, const(0)))])]
        raise Unknown("list %s" % show(t, 3))

    def loop(self, t, f):
        for u, d in self.open:
            if u is t:
                return [("self", t)]
        init = f(t.init)
        self.open.append((t, 0))
        try:
            nxt = f(t.next)
        finally:
            self.open.pop()
        if nxt[:1] != [("self", t)] or any(x == ("self", t) for x in nxt[1:]):
            raise Unknown("loop that does not extend %s" % show(t, 2))
        rest = nxt[1:]
        if t.cond is None:
            raise Unknown("while loop")
        return init + ([("rep", t.cond, rest)] if rest else [])

    # ---- matrices
    def ismatrix(self, t):
        t = self.strip(t)
        if t.op == "call":
            return t.a[0] in ("numpy.column_stack", "numpy.hstack", "numpy.concatenate", "numpy.vstack")
        if t.op == "mu":
            return self.ismatrix(t.init)
        if t.op == "idx":
            k = self.N.res(t.a[1])
            if t.a[0].op == "glob" and t.a[0].a[0] == "numpy.c_":
                return True
            return k.op in ("list", "comp", "append", "extend") or k.op == "bin" and k.a[0] == "+" or k.op == "param" and self.listlike(k)
        return False

    def listlike(self, k):
        return k.op == "param" and k.a[0] in ("covariates",)

    def cols(self, t):
        """Columns of a matrix: ('col', term), ('rep', iterable, columns)."""
        t = self.strip(t)
        if t.op == "call" and t.a[0] in ("numpy.column_stack", "numpy.hstack", "numpy.concatenate") and pos(t):
            ax = kw(t, "axis") or (pos(t)[1] if len(pos(t)) > 1 else None)
            if t.a[0] == "numpy.concatenate" and not (ax is not None and is_const(ax) and cval(ax) in (1, -1)):
                raise Unknown("rows stacked")
            return self.spread(self.seq(pos(t)[0]))
        if t.op == "idx" and t.a[0].op == "glob" and t.a[0].a[0] == "numpy.c_":
            k = t.a[1]
            return self.spread([("item", x) for x in (k.a if k.op == "tuple" else [k])])
        if t.op == "idx":
            k = self.N.res(t.a[1])
            if k.op in ("tuple", "slice"):
                raise Unknown("part of a matrix: %s" % show(t, 3))
            return self.names(t.a[0], self.seq(k))
        if t.op == "mu":
            return self.loop(t, self.cols)
        raise Unknown("matrix %s" % show(t, 3))

    def names(self, frame, items):
        out = []
        for x in items:
            if x[0] == "item":
                out.append(("col", self.lookup(frame, x[1])))
            elif x[0] == "rep":
                out.append(("rep", x[1], self.names(frame, x[2])))
            else:
                raise Unknown("column list")
        return out

    def spread(self, items):
        out = []
        for x in items:
            if x[0] == "item":
                if self.ismatrix(x[1]) or self.strip(x[1]).op == "mu":
                    out += self.cols(x[1])
                else:
                    out.append(("col", self.col(x[1])))
            elif x[0] == "rep":
                out.append(self.whole(("rep", x[1], self.spread(x[2]))))
            elif x[0] == "self":
                out.append(x)
            else:
                raise Unknown("columns under a condition")
        flat = []
        for x in out:
            flat += x if type(x) is list else [x]
        return flat

    def whole(self, rep):
        """A loop over all columns of a matrix is the matrix."""
        it = self.N.res(rep[1])
        if it.op == "call" and it.a[0] == "builtins.range" and len(pos(it)) in (1, 2):
            n = pos(it)[-1]
            lo = pos(it)[0] if len(pos(it)) == 2 else const(0)
            if n.op == "idx" and n.a[0].op == "attr" and n.a[0].a[1] == "shape" and is_const(n.a[1]) and cval(n.a[1]) == 1:
                M = n.a[0].a[0]
                if len(rep[2]) == 1 and rep[2][0][0] == "col":
                    x = rep[2][0][1]
                    if x.op == "colof" and x.a[0] is self.strip(M) and x.a[1].op == "elem" and x.a[1].a[0] is it:
                        cs = self.cols(M)
                        if is_const(lo) and cval(lo) == 0:
                            return cs
                        if is_const(lo) and cs[0][0] == "rep" and cval(lo) > 0:
                            return [("rep", mk("part", self.over(cs[0][1]), lo, NONE), cs[0][2])] + cs[1:]
        return [rep]

    # ---- columns
    def col(self, t):
        t = self.strip(t)
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._col(t)
        return r

    def _col(self, t):
        if t.op == "call":
            f = t.a[0]
            if f == "numpy.ones" or f == "numpy.full" and len(pos(t)) == 2 and is_const(pos(t)[1]) and cval(pos(t)[1]) == 1 or f == "numpy.ones_like":
                return ONE
            if f == "numpy.multiply" and len(pos(t)) == 2:
                return prod([self.col(x) for x in pos(t)])
            if f == "numpy.where" and len(pos(t)) == 3 and all(is_const(x) for x in pos(t)[1:]) and [cval(x) for x in pos(t)[1:]] == [1, 0]:
                return self.col(pos(t)[0])
            if f == "numpy.where" and len(pos(t)) == 3 and (pos(t)[2].op == "glob" and pos(t)[2].a[0].endswith("nan") or is_const(pos(t)[2]) and cval(pos(t)[2]) != cval(pos(t)[2])):
                return mk("when", self.col(pos(t)[0]), self.col(pos(t)[1]))
            if f == "numpy.mean" and len(pos(t)) == 1:
                return mk("mean", self.col(pos(t)[0]))
            return t
        if t.op == "bin":
            o, a, b = t.a
            if o == "*":
                return prod([self.col(a), self.col(b)])
            if o in ("+", "-"):
                return lin([(1, self.col(a)), (1 if o == "+" else -1, self.col(b))])
            if o == "&":
                return prod([self.col(a), self.col(b)])
            if o == "|":
                return mk("any", *sorted((self.col(a), self.col(b)), key=lambda x: x.id))
            return mk("bin", o, self.col(a), self.col(b))
        if t.op == "eq":
            return mk("eq", *sorted((self.col(x) for x in t.a), key=lambda x: x.id))
        if t.op in ("lt", "le"):
            return mk(t.op, *[self.col(x) for x in t.a])
        if t.op == "m":
            recv, name = t.a[0], t.a[1]
            ps = pos(t, 2)
            if name == "transform" and len(ps) == 1 and is_str(ps[0]):
                x = self.N.res(recv)
                stat = () if cval(ps[0]) == "mean" else (ps[0],)
                if x.op == "idx" and x.a[0].op == "m" and x.a[0].a[1] == "groupby":
                    g = x.a[0]
                    return mk("gm", self.lookup(g.a[0], x.a[1]), self.by(g), *stat)
                if x.op == "m" and x.a[1] == "groupby":
                    return mk("gm", self.col(x.a[0]), self.by(x), *stat)
            if name == "mean" and not ps:
                return mk("mean", self.col(recv))
            if name in ("mul", "multiply") and len(ps) == 1:
                return prod([self.col(recv), self.col(ps[0])])
            if name in ("sub", "subtract") and len(ps) == 1:
                return lin([(1, self.col(recv)), (-1, self.col(ps[0]))])
            if name == "eq" and len(ps) == 1:
                return mk("eq", *sorted((self.col(recv), self.col(ps[0])), key=lambda x: x.id))
            return t
        if t.op == "idx":
            k = self.N.res(t.a[1])
            if k.op == "tuple" and len(k.a) == 2 and k.a[0].op == "slice":
                return mk("colof", self.strip(t.a[0]), k.a[1])
            if self.frameish(t.a[0]):
                return self.lookup(t.a[0], k)
            return t
        if t.op == "call" and t.a[0] == "builtins.int":
            return self.col(t.a[1])
        return t

    def by(self, g):
        b = pos(g, 2)
        return self.N.res(b[0]) if b else NONE

    def frameish(self, f):
        f = self.N.res(f)
        return f.op in ("param", "setitem", "mu") or f.op == "m" and f.a[1] in ("copy", "reset_index", "assign") or \
            f.op == "call" and f.a[0] in ("pandas.concat", "pandas.get_dummies", "pandas.DataFrame") or f.op == "idx" or f is PREV

    def distinct(self, a, b):
        """Column names that differ: two literals, two different arguments, a derived name and a caller's column."""
        if is_const(a) and is_const(b):
            return cval(a) != cval(b)
        kinds = ("param", "elem", "cfg")
        if a.op in ("param", "cfg") and b.op in ("param", "cfg"):
            return True
        for x, y in ((a, b), (b, a)):
            if x.op in ("c", "fstr") and y.op in kinds:
                return True
            if x.op in ("param", "cfg") and y.op == "elem" and (self.over(y.a[0]).op == "param" or self.over(y.a[0]).op == "list" and not self.over(y.a[0]).a):
                return True
        for x, y in ((a, b), (b, a)):
            if x.op == "elem":
                d = self.over(x.a[0])
                if d.op == "mu" and (d.init.op in ("dict", "mu")):
                    try:
                        return True if all(self.distinct(k, y) for k, v in self.writes(d)) else None
                    except Unknown:
                        return None
        if a.op == "elem" and b.op == "elem":
            x, y = self.over(a.a[0]), self.over(b.a[0])
            return True if x.op == "param" and y.op == "param" and x is not y else None
        if a.op == "fstr" and b.op == "fstr":
            ca, cb = [x for x in a.a if is_str(x)], [x for x in b.a if is_str(x)]
            return None if ca == cb and len(a.a) == len(b.a) else True
        if {a.op, b.op} == {"c", "fstr"}:
            return True
        return None

    def over(self, it):
        """What a loop goes over, without the ways of listing it."""
        while True:
            it = self.N.res(it)
            if it.op == "call" and it.a[0] in SEQ and len(it.a) == 2:
                it = it.a[1]
            elif it.op == "m" and it.a[1] in ("keys", "tolist", "copy") and len(it.a) == 2:
                it = it.a[0]
            elif it.op == "boolop" and it.a[0] == "or" and len(it.a) == 3:
                it = it.a[1] if self.N.cond(it.a[1]) else it.a[2]
            elif it.op == "or" and len(it.a) == 2:
                it = it.a[0] if self.N.cond(it.a[0]) else it.a[1]
            else:
                return it

    def member(self, key, it):
        """The column name is one of those the loop goes over."""
        it = self.N.res(it)
        if key.op == "elem" and self.over(key.a[0]) is self.over(it):
            return True
        if it.op == "call" and it.a[0] in SEQ and len(it.a) == 2:
            return self.member(key, it.a[1])
        try:
            items = self.seq(it)
        except Unknown:
            return None
        d = []
        for x in items:
            if x[0] == "item":
                if x[1] is key:
                    return True
                d.append(self.distinct(x[1], key))
            elif x[0] == "rep" and len(x[2]) == 1 and x[2][0][0] == "item":
                e = x[2][0][1]
                if e is key or key.op == "elem" and self.over(key.a[0]) is self.over(x[1]) and e.op == "elem" and self.over(e.a[0]) is self.over(x[1]):
                    return True
                d.append(self.distinct(e, key))
            elif x[0] == "if" and len(x[3]) == 1 and x[3][0][0] == "item" and x[3][0][1].op == "elem" and self.over(x[3][0][1].a[0]) is self.over(x[1]):
                e = x[3][0][1]
                if key is e or key.op == "elem" and self.over(key.a[0]) is self.over(x[1]):
                    # among the names a condition on the values of the data keeps: the case where it drops the name
                    if not all(valued(q) for q in x[2]):
                        return None
                    if all(self.supposed(q) for q in x[2]):
                        return True
                    d.append(True)
                else:
                    d.append(self.distinct(e, key))
            else:
                d.append(None)
        return False if all(y is True for y in d) else None

    def unify(self, pat, key):
        """Loop element of a written name that makes it the name looked up; None when they differ, False when undecided."""
        if pat is key:
            return {}
        if pat.op == "elem":
            m = self.member(key, pat.a[0])
            return {pat: key} if m else None if m is False else False
        if pat.op == "fstr" and key.op == "fstr" and len(pat.a) == len(key.a):
            m = {}
            for x, y in zip(pat.a, key.a):
                if x is y:
                    continue
                if is_str(x) or is_str(y):
                    return None
                u = self.unify(x, y)
                if not u and u != {}:
                    return u
                m.update(u)
            return m
        d = self.distinct(pat, key)
        return None if d else False

    def lookup(self, f, key):
        """What column `key` of a frame holds."""
        f = self.N.res(f)
        key = self.N.res(key)
        for u, d in self.open:
            if u is f:
                return mk("prevcol", key)
        if f.op == "m" and f.a[1] in ("copy", "reset_index"):
            return self.lookup(f.a[0], key)
        if f.op == "setitem":
            u = self.unify(f.a[1], key)
            if u is None:
                return self.lookup(f.a[0], key)
            if u is False:
                raise Unknown("column %s or %s" % (show(f.a[1], 3), show(key, 3)))
            return self.col(subst(f.a[2], u) if u else f.a[2])
        if f.op == "m" and f.a[1] == "assign" and not pos(f, 2):
            for x in f.a[2:]:
                if x.op == "kw" and is_str(key) and x.a[0] == cval(key):
                    return self.col(x.a[1])
            return self.lookup(f.a[0], key)
        if f.op == "call" and f.a[0] == "pandas.concat" and pos(f):
            ax = kw(f, "axis")
            parts = self.N.res(pos(f)[0])
            if ax is None or not is_const(ax) or cval(ax) not in (1, "columns") or parts.op not in ("list", "tuple"):
                raise Unknown("concat")
            for p in reversed(parts.a):
                r = self.held(p, key)
                if r is not None:
                    return r
            return self.lookup(parts.a[0], key)
        if f.op == "mu":
            return self.looped(f, key)
        m = self.rowmask(f)
        if m is not None:
            r = self.lookup(f.a[0], key)
            if any(x.op in ("gm", "mean", "iter") for x in reach(r)):
                raise Unknown("means over other rows")
            self.rows.add(m)
            if len(self.rows) > 1:
                raise Unknown("several selections of rows")
            return r
        if f.op == "call" and f.a[0] == "pandas.get_dummies":
            return mk("dummy", f, key)
        return mk("src", key, self.base(f))

    def rowmask(self, f):
        """The condition a frame's rows were selected by."""
        if f.op != "idx":
            return None
        k = self.N.res(f.a[1])
        return k if k.op in ("bin", "eq", "lt", "le", "un", "not", "and", "or", "ne") or k.op == "m" and k.a[1] in ("isin", "notna", "isna", "notnull", "isnull", "between") else None

    def base(self, f):
        """The frame whose rows these are."""
        f = self.N.res(f)
        while True:
            if f.op == "m" and f.a[1] in ("copy",):
                f = self.N.res(f.a[0])
            elif f.op == "setitem":
                f = self.N.res(f.a[0])
            elif f.op == "mu":
                f = self.N.res(f.init)
            elif self.rowmask(f) is not None:
                f = f.a[0]
            elif f.op == "call" and f.a[0] == "pandas.concat" and pos(f) and self.N.res(pos(f)[0]).op == "list":
                f = self.N.res(self.N.res(pos(f)[0]).a[0])
            else:
                return f

    def held(self, p, key):
        """The column of a frame built from a dict of columns, if it has it."""
        p = self.N.res(p)
        if p.op != "call" or p.a[0] != "pandas.DataFrame" or not pos(p):
            return None
        d = self.N.res(pos(p)[0])
        if d.op == "dict":
            for x in d.a:
                if x.op == "kv" and x.a[0] is key:
                    return self.col(x.a[1])
            if all(x.op == "kv" and self.distinct(x.a[0], key) for x in d.a):
                return None
            raise Unknown("dict of columns")
        if d.op == "comp" and d.a[0] == "dict":
            kv = d.a[1]
            if kv.op in ("kv", "tuple") and len(kv.a) == 2:
                u = self.unify(kv.a[0], key)
                if u is False:
                    raise Unknown("dict of columns")
                return None if u is None else self.col(subst(kv.a[1], u))
        if d.op == "mu" or d.op == "setitem":
            return self.dictcol(d, key)
        raise Unknown("frame of %s" % show(d, 3))

    def dictcol(self, d, key):
        w = self.writes(d)
        for k, v in reversed(w):
            if key.op == "elem":
                if self.over(key.a[0]) is d:
                    return self.col(v)
            u = self.unify(k, key)
            if u is False:
                raise Unknown("dict of columns filled in a loop: %s for %s" % (show(k, 6), show(key, 6)))
            if u is not None:
                return self.col(subst(v, u))
        return None

    def writes(self, d):
        """(key, value) pairs a loop stores into a dict that starts empty."""
        out = []
        seen = set()

        def go(t):
            if t.op != "ite":
                t = self.N.res(t)
            if t.id in seen:
                return
            seen.add(t.id)
            if t.op == "ite":
                go(t.a[1])
                go(t.a[2])
            elif t.op == "setitem":
                go(t.a[0])
                out.append((t.a[1], t.a[2]))
            elif t.op == "mu":
                go(t.init)
                go(t.next)
            elif t.op == "dict" and not t.a:
                pass
            else:
                raise Unknown("dict %s" % show(t, 3))
        go(d)
        return out

    def looped(self, f, key):
        """A frame changed in a loop: the column after it."""
        self.open.append((f, 0))
        try:
            nxt = self.lookup(f.next, key)
        finally:
            self.open.pop()
        me = mk("prevcol", key)
        start = self.lookup(f.init, key)
        if nxt is me:
            return start
        if me in reach(nxt, control=False):
            if key.op != "elem" and any(x.op == "setitem" and x.a[1].op == "elem" and x.a[1].a[0] is f.cond for x in reach(f.next, stop=lambda y: y is f)):
                return subst(nxt, {me: start})      # one of the names gone over: changed once
            if key.op == "elem" and any(x.op == "setitem" and x.a[1].op == "elem" and x.a[1].a[0] is f.cond for x in reach(f.next, stop=lambda y: y is f)):
                return subst(nxt, {me: start})
            return mk("iter", self.N.res(f.cond), subst(nxt, {me: PREV}), start)
        return nxt
