"""C06: results do not depend on the iteration order of sets."""
from ..terms import *

SETM = {"union", "intersection", "difference", "symmetric_difference"}
ORDERED_SINKS = {"builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.zip", "builtins.next", "builtins.iter",
                 "builtins.reversed", "builtins.map", "builtins.filter", "numpy.array", "numpy.asarray", "numpy.fromiter",
                 "pandas.Series", "pandas.DataFrame", "pandas.Index", "itertools.product", "itertools.combinations",
                 "itertools.chain", "numpy.concatenate", "builtins.sum", "builtins.dict", "dict.fromkeys"}
FREE_SINKS = {"builtins.sorted", "builtins.len", "builtins.set", "builtins.frozenset", "builtins.any", "builtins.all",
              "builtins.min", "builtins.max", "builtins.isinstance", "builtins.bool"}


def isset(t, d=0):
    if d > 10:
        return False
    if t.op == "set":
        return True
    if t.op == "call" and t.a[0] in ("builtins.set", "builtins.frozenset"):
        return True
    if t.op == "comp" and t.a[0] == "set":
        return True
    if t.op == "bin" and t.a[0] in ("&", "|", "-", "^"):
        return isset(t.a[1], d + 1) or (t.a[0] != "-" and isset(t.a[2], d + 1))
    if t.op == "m" and t.a[1] in SETM:
        return isset(t.a[0], d + 1)
    if t.op == "m" and t.a[1] == "copy":
        return isset(t.a[0], d + 1)
    if t.op == "ite":
        return isset(t.a[1], d + 1) or isset(t.a[2], d + 1)
    if t.op == "mu":
        return isset(t.init, d + 1)
    if t.op == "mut":
        return isset(t.a[0], d + 1)
    return False


def trivial(t):
    """Sets with at most one element, or of integers only (whose order does not vary)."""
    if t.op == "set":
        if any(x.op == "star" for x in t.a):
            return False
        return len(t.a) <= 1 or all(is_const(x) and isinstance(cval(x), (int, float)) for x in t.a)
    if t.op == "call" and len(t.a) == 1:
        return True
    if t.op == "ite":
        return trivial(t.a[1]) and trivial(t.a[2])
    return False


def unordered_iter(it):
    """The iterated term is a set, directly or through an order-preserving wrapper."""
    if isset(it):
        return None if trivial(it) else it
    if it.op == "call" and it.a[0] in ("builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.zip",
                                      "builtins.reversed", "builtins.iter") and len(it.a) > 1:
        for x in it.a[1:]:
            if x.op != "kw":
                r = unordered_iter(x)
                if r is not None:
                    return r
    return None


def run(S, c):
    c.rule("Rule: a set (display, set(), comprehension, set algebra) reachable from a public call is only tested for "
           "membership or size, compared, combined with sets, sorted, or handed to isin; it is never iterated, listed, "
           "unpacked or popped in its own order, except to fill another set or keyed entries.")
    c.assumptions = ["dicts, DataFrame columns, unique() and groupby keep a defined order"]
    for n, fn, cls, r in S.all():
        c.ob("public entry points", n)
        seen_loops = {}
        for e in r.events:
            for i, it in enumerate(e.loops):
                s = unordered_iter(it)
                if s is None:
                    continue
                seen_loops.setdefault((e.loopfn[i][0], it.id), (it, []))[1].append(e)
            if e.kind in ("call", "mcall"):
                for a in e.d["args"]:
                    v = a.a[1] if a.op == "kw" else a
                    if not isset(v):
                        continue
                    name = e.d["fn"] if e.kind == "call" else "." + e.d["name"]
                    c.ob("uses of sets", (e.fn, e.line, name))
                    if name in ORDERED_SINKS and not trivial(v) and not consumed_sorted(r, e, v, name):
                        c.find("order:%s:%s" % (e.fn, name.rsplit(".", 1)[-1]),
                               "%s takes the elements of a set in its own order through %s(%s)" % (e.fn, name, show(v, 3)), e)
                    elif name in (".join", ".extend", ".permutation", ".choice", ".fromkeys", ".reindex"):
                        c.find("order:%s:%s" % (e.fn, name), "%s takes the elements of a set in its own order through %s" % (e.fn, name), e)
                if e.kind == "mcall" and e.d["name"] == "pop" and isset(e.d["recv"]) and not trivial(e.d["recv"]) and not e.d["args"]:
                    c.find("pop:%s" % e.fn, "%s pops an arbitrary element of a set" % e.fn, e)
            if e.kind == "index":
                k = e.d["key"]
                if isset(k) and not trivial(k):
                    c.find("index:%s" % e.fn, "%s selects by a set, in its own order" % e.fn, e)
        for (f, _), (it, evs) in seen_loops.items():
            c.ob("loops over sets", (f, show(it, 3)))
            if any(order_matters(x, it) for x in evs):
                c.find("loop:%s" % f, "%s goes through the elements of a set in its own order (%s)" % (f, show(it, 4)), evs[0])
        # comprehensions over sets that build sequences
        roots = [r.retterm]
        for e in r.events:
            if e.kind in ("call", "mcall", "mutate", "new", "selfwrite", "assign", "index"):
                for v in e.d.values():
                    if type(v) is T:
                        roots.append(v)
                    elif isinstance(v, (list, tuple)):
                        roots += [x for x in v if type(x) is T]
                    elif isinstance(v, dict):
                        roots += [x for x in v.values() if type(x) is T]
        free = set()
        ts = reach(roots)
        for t in ts:
            if t.op == "call" and t.a[0] in FREE_SINKS:
                for x in t.a[1:]:
                    free.add(x.id)
            if t.op == "comp" and t.a[0] == "set":
                free.add(t.id)
            if t.op == "set":
                for x in t.a:
                    if x.op == "star":
                        free.add(x.id)
        for t in ts:
            if t.op in ("list", "tuple") and t.id not in free:
                for x in t.a:
                    if x.op == "star" and unordered_iter(x.a[0]) is not None:
                        c.find("star:%s" % n, "%s unpacks a set in its own order: %s" % (n, show(t, 4)[:200]), where=n)
            elif t.op == "fstr":
                for x in t.a:
                    if unordered_iter(x.a[0] if x.op == "fmt" else x) is not None:
                        c.find("text:%s:%s" % (n, show(x, 2)[:40]), "%s prints a set in its own order: %s" % (n, show(x, 4)[:200]), where=n)
            elif t.op == "call" and t.a[0] in ("builtins.str", "builtins.repr") and len(t.a) == 2 and unordered_iter(t.a[1]) is not None:
                c.find("text:%s:%s" % (n, show(t, 2)[:40]), "%s prints a set in its own order: %s" % (n, show(t, 4)[:200]), where=n)
            if t.op == "comp" and t.a[0] in ("list", "gen", "dict") and t.id not in free:
                its = t.a[2]
                for it in its.a:
                    if type(it) is T and unordered_iter(it) is not None:
                        c.find("comp:%s:%s" % (n, show(it, 2)[:40]), "%s builds a sequence from a set in its own order: %s" % (n, show(t, 4)[:200]),
                               where=n)
    c.floor("public entry points", 120)
    c.floor("uses of sets", 8)


def consumed_sorted(r, e, v, name):
    """list(S) whose only use is sorted()/set()/isin/len."""
    t = mk("call", name, *e.d["args"])
    users = 0
    ok = 0
    for x in r.events:
        if x.kind in ("call", "mcall"):
            if any(a is t or (a.op == "kw" and a.a[1] is t) for a in x.d["args"]):
                users += 1
                nm = x.d["fn"] if x.kind == "call" else "." + x.d["name"]
                if nm in FREE_SINKS or nm in (".isin", ".sort", ".update", ".difference", ".drop", "numpy.isin"):
                    ok += 1
    return users > 0 and users == ok


def order_matters(e, it):
    if e.kind == "mutate":
        how = e.d["how"]
        if how in (".append()", ".extend()", ".insert()", ".appendleft()"):
            return True
        if how in (".add()", ".update()", ".discard()", ".remove()"):
            return False
        return how.startswith("[]") and how != "[]="
    if e.kind == "augname":
        return True
    if e.kind == "mcall" and e.d["name"] in ("choice", "normal", "integers", "permutation", "uniform"):
        return True
    if e.kind == "continue" or e.kind == "return":
        return e.kind == "return"
    return False
