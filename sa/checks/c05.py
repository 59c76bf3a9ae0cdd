"""C05: calls and import leave process-wide settings alone."""
import ast
from ..terms import *
from ..project import Project

SETTERS = ("numpy.seterr", "numpy.seterrcall", "numpy.setbufsize", "numpy.set_printoptions", "numpy.random.seed",
           "numpy.random.set_state", "numpy.set_string_function", "random.seed", "warnings.filterwarnings",
           "warnings.simplefilter", "warnings.resetwarnings", "os.chdir", "os.putenv", "os.unsetenv", "os.umask",
           "os.environ.update", "os.environ.setdefault", "os.environ.pop", "os.environ.clear", "locale.setlocale",
           "pandas.set_option", "pandas.reset_option", "pandas.options", "sys.setrecursionlimit", "sys.settrace",
           "sys.setprofile", "sys.path.append", "sys.path.insert", "matplotlib.use", "matplotlib.rc",
           "matplotlib.rcdefaults", "matplotlib.rcParams.update", "matplotlib.pyplot.rcParams.update",
           "matplotlib.pyplot.style.use", "matplotlib.style.use", "matplotlib.pyplot.rc", "matplotlib.pyplot.rcdefaults",
           "matplotlib.pyplot.switch_backend", "matplotlib.pyplot.ioff", "matplotlib.pyplot.ion", "logging.basicConfig",
           "logging.disable", "logging.captureWarnings", "signal.signal", "socket.setdefaulttimeout", "gc.disable",
           "gc.enable", "faulthandler.enable", "atexit.register", "multiprocessing.set_start_method",
           "scipy.special.seterr", "decimal.setcontext", "os._exit", "sys.exit", "builtins.exit", "builtins.quit",
           "matplotlib.pyplot.close", "numpy.seterrobj", "threading.setprofile", "time.tzset")
ROOTS = ("os.environ", "matplotlib.rcParams", "matplotlib.pyplot.rcParams", "pandas.options", "sys.modules", "sys.path",
         "warnings.filters", "warnings.showwarning", "warnings.formatwarning", "numpy.", "pandas.", "scipy.",
         "matplotlib.", "sys.", "os.", "warnings.")
WARN = ("warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings")


def dotted(t):
    if t.op == "glob":
        return t.a[0]
    if t.op == "attr":
        d = dotted(t.a[0])
        return d and d + "." + t.a[1]
    if t.op in ("setitem", "setattr", "idx"):
        return dotted(t.a[0])
    return None


def run(S, c):
    c.rule("Rule: no function reachable from the public API, and no module-level statement, calls a setter of process-wide "
           "state or stores into a process-wide object (numpy error state, warning filters, print and display options, "
           "matplotlib settings, environment, working directory, generators); warning filters may only be changed inside "
           "warnings.catch_warnings(), error states only through the errstate context manager.")
    for n, fn, cls, r in S.all():
        c.ob("public entry points", n)
        for e in r.events:
            name = None
            if e.kind == "call":
                name = e.d["fn"]
                c.ob("external calls", (e.fn, e.line, name))
            elif e.kind == "mcall":
                d = dotted(e.d["recv"])
                if d:
                    name = d + "." + e.d["name"]
            elif e.kind in ("mutate", "setattr_dyn", "delattr"):
                d = dotted(e.d["obj"])
                if d and d.startswith(ROOTS):
                    c.find("store:%s:%s" % (e.fn, d), "%s stores into the process-wide object %s" % (e.fn, d), e)
                continue
            if name is None:
                continue
            if name in WARN:
                if any(w.op == "call" and w.a[0] == "warnings.catch_warnings" for w in e.withs):
                    c.ob("scoped filter changes", (e.fn, name))
                    continue
            if name in SETTERS or name.startswith("pandas.options."):
                c.find("call:%s:%s" % (e.fn, name), "%s calls %s, which changes process-wide state" % (e.fn, name), e)
            if name == "numpy.errstate" and False:
                pass
    # import time
    for m in S.P.mods.values():
        c.ob("modules", m.name)
        for node in toplevel(m.tree):
            for q in ast.walk(node):
                if isinstance(q, ast.Call):
                    d = resolve(m, q.func)
                    if d and d in SETTERS:
                        c.find("import:%s:%s" % (m.name, d), "importing %s calls %s" % (m.name, d), where="%s:%d" % (m.path, q.lineno))
                if isinstance(q, (ast.Assign, ast.AugAssign)):
                    for t in (q.targets if isinstance(q, ast.Assign) else [q.target]):
                        if isinstance(t, (ast.Subscript, ast.Attribute)):
                            b = t.value
                            d = resolve(m, b)
                            if d and (d + ".").startswith(ROOTS):
                                c.find("import:%s:%s" % (m.name, d), "importing %s stores into %s" % (m.name, d),
                                       where="%s:%d" % (m.path, q.lineno))
    c.floor("public entry points", 120)
    c.floor("external calls", 600)
    c.floor("modules", 15)
    c.sample("twfe.TwoWayFixedEffects.fit: filterwarnings inside catch_warnings")


def toplevel(tree):
    st = list(tree.body)
    while st:
        s = st.pop()
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(s, ast.ClassDef):
            st += s.body
            continue
        if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for f in ("body", "orelse", "finalbody"):
                st += getattr(s, f, [])
            for h in getattr(s, "handlers", []):
                st += h.body
            for f in ("test", "iter"):
                if hasattr(s, f):
                    yield ast.Expr(getattr(s, f))
            continue
        yield s


def resolve(m, n):
    if isinstance(n, ast.Name):
        return m.imports.get(n.id)
    if isinstance(n, ast.Attribute):
        d = resolve(m, n.value)
        return d and d + "." + n.attr
    if isinstance(n, ast.Subscript):
        return resolve(m, n.value)
    return None
