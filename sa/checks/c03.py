"""C03: only the constructor and set_params change an estimator's options."""
from ..terms import *
from ..roots import roots
from .c01 import arrayish


SCALAR = {"int", "float", "str", "bool"}


def namespace(t):
    """x for x.__dict__ or vars(x)."""
    if t.op == "attr" and t.a[1] == "__dict__":
        return t.a[0]
    if t.op == "call" and t.a[0] == "builtins.vars" and len(t.a) > 1:
        return t.a[1]
    return None


def handed(S, c, n, fn, r, options):
    """Functions handed an estimator: no store into its options, no set_params on it."""
    for e in r.events:
        if e.kind == "mutate":
            o, how, name = e.d["obj"], e.d["how"], None
            ns = namespace(o)
            if ns is not None:
                o, name = ns, "an option"
            elif how == "setattr()":
                name = "an option"
            elif how.startswith(".") and how.endswith("=") and how[1:-1] in options:
                name = "`%s`" % how[1:-1]
            if name is None:
                continue
        elif e.kind == "setattr_dyn":
            o, name = e.d["obj"], "an option"
        elif e.kind == "mcall" and e.d["name"] == "set_params":
            o, name = e.d["recv"], "options"
        else:
            continue
        for x in roots(o):
            k, _, p = x.partition(":")
            if k == "p" and p not in ("ax",) and p.split(".")[-1] not in ("data", "df"):
                c.find("%s:given:%s:%s" % (n, p, name), "%s() changes %s of the object passed as `%s`" % (n, name, p), e)


def scalar_option(S, cls, k):
    import ast
    ini = S.P.method(cls, "__init__")
    a = ini.ann.get(k) if ini is not None else None
    return a is None or ast.unparse(a).replace("Optional[", "").replace("]", "").strip() in SCALAR \
        or "Literal" in ast.unparse(a)


def run(S, c):
    c.rule("Rule: no method other than the constructor and set_params, and no function handed an estimator, stores into an "
           "attribute that the constructor filled from an option, or changes the object the option holds.")
    options = set()
    for n, fn, cls, r in S.all():
        if getattr(r, "conf", None) and cls is not None and S.P.method(cls, "fit") is not None:
            options |= set(r.conf)
    for n, fn, cls, r in S.all():
        if any(p not in ("self",) for p in r.params):
            c.ob("functions handed objects", n)
            handed(S, c, n, fn, r, options)
        if cls is None:
            continue
        meth = n.rsplit(".", 1)[1]
        if meth in ("__init__", "set_params", "__post_init__"):
            continue
        if not hasattr(r, "conf") or not r.conf or S.P.method(cls, "fit") is None:
            continue
        c.ob("methods", n)
        for k in r.conf:
            c.ob("option attributes", (cls.qual, k))
        for e in r.events:
            if e.kind == "selfwrite" and e.d["tag"] == "self" and e.d["name"] in r.conf:
                c.find("%s:%s" % (n, e.d["name"]), "%s stores into the option attribute `self.%s`" % (n, e.d["name"]), e)
            elif e.kind == "mutate" and namespace(e.d["obj"]) is not None and namespace(e.d["obj"]).op == "inst":
                c.find("%s:dyn" % n, "%s stores through the estimator's __dict__" % n, e)
            elif e.kind == "augname" and arrayish(e.d["obj"]):
                for x in roots(e.d["obj"]):
                    if x.startswith("c:") and not scalar_option(S, cls, x[2:]):
                        c.find("%s:content:%s" % (n, x[2:]), "%s changes the contents of option `%s`" % (n, x[2:]), e)
            elif e.kind == "mutate":
                for x in roots(e.d["obj"]):
                    if x.startswith("c:"):
                        c.find("%s:content:%s" % (n, x[2:]), "%s changes the contents of option `%s`" % (n, x[2:]), e)
            elif e.kind in ("setattr_dyn", "delattr") and e.d["obj"].op == "inst" and e.d["obj"].a[0] == "self":
                c.find("%s:dyn" % n, "%s stores into a computed attribute of the estimator" % n, e)
    c.floor("methods", 20)
    c.floor("option attributes", 50)
