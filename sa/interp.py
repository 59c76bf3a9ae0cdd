"""Abstract interpreter over the Python AST: builds value-flow terms and logs events.

It never runs the analysed code: every value is a term (terms.py), both arms of every undecided branch are
followed, loops are closed with mu nodes, internal calls are expanded in place (bounded, no recursion)."""
import ast
from .terms import *
from .project import Project, Fn, Cls, add_import

MAXDEPTH = 14


class Ref:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return type(o) is Ref and o.loc == self.loc

    def __hash__(self):
        return self.loc


class Inst:
    """Heap content of an instance (immutable record; replaced on write)."""
    __slots__ = ("cls", "fields", "tag")

    def __init__(self, cls, fields, tag=None):
        self.cls, self.fields, self.tag = cls, fields, tag


class Ev:
    __slots__ = ("kind", "fn", "mod", "line", "pc", "stack", "tries", "withs", "d", "loops", "loopfn", "tryids", "pcb")

    def __init__(self, kind, fn, mod, line, pc, stack, tries, withs, loops, d):
        self.kind, self.fn, self.mod, self.line = kind, fn, mod, line
        self.pc, self.stack, self.tries, self.withs, self.loops, self.d = pc, stack, tries, withs, loops, d

    def where(self):
        return "%s:%d (%s)" % (self.mod.path, self.line, self.fn)

    def path(self):
        return " -> ".join(self.stack)


class FuncVal:
    __slots__ = ("fn", "frame", "self", "lam")

    def __init__(self, fn, frame=None, self_=None):
        self.fn, self.frame, self.self = fn, frame, self_


class Frame:
    def __init__(self, fn, mod, parent=None):
        self.fn, self.mod, self.parent = fn, mod, parent
        self.env = {}
        self.rets = []
        self.loops = []
        self.imports = {}
        self.pcbase = 0
        self.globals = set()


ALLOC = {"zeros", "ones", "full", "empty", "zeros_like", "ones_like", "full_like", "empty_like", "array", "arange",
         "eye", "linspace", "copy", "diag"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault",
            "popitem", "add", "discard", "fill", "put", "partition", "resize", "itemset", "setflags",
            "intersection_update", "difference_update", "symmetric_difference_update", "setfield", "byteswap"}
EXTMUT = {"numpy.fill_diagonal": 0, "numpy.put": 0, "numpy.place": 0, "numpy.copyto": 0, "numpy.putmask": 0,
          "numpy.add.at": 0, "numpy.subtract.at": 0, "random.shuffle": 0, "numpy.random.shuffle": 0,
          "heapq.heappush": 0, "heapq.heapify": 0, "numpy.put_along_axis": 0, "heapq.heappop": 0}
INPLACE_KW = {"inplace"}
BUILTINS = {"len", "range", "sorted", "list", "dict", "set", "tuple", "enumerate", "zip", "sum", "min", "max", "abs",
            "int", "float", "str", "bool", "isinstance", "hasattr", "getattr", "setattr", "type", "print", "any",
            "all", "map", "filter", "iter", "next", "reversed", "round", "repr", "ValueError", "TypeError",
            "RuntimeError", "Exception", "KeyError", "ImportError", "UserWarning", "DeprecationWarning",
            "RuntimeWarning", "FutureWarning", "AttributeError", "IndexError", "callable", "open", "super", "object",
            "frozenset", "hash", "id", "vars", "dir", "delattr", "divmod", "pow", "issubclass", "property",
            "staticmethod", "classmethod", "NotImplementedError", "StopIteration", "ArithmeticError", "Warning",
            "ZeroDivisionError", "OSError", "IOError", "complex", "bytes", "slice", "format", "ord", "chr", "input",
            "globals", "locals", "exec", "eval", "compile", "NotImplemented", "Ellipsis", "LookupError",
            "FloatingPointError", "OverflowError", "ModuleNotFoundError", "FileNotFoundError", "BaseException",
            "AssertionError", "memoryview", "bytearray", "__import__", "UnicodeDecodeError", "TimeoutError",
            "ConnectionError", "MemoryError", "PendingDeprecationWarning"}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}


def _stored_names(nodes):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.visit(n.value)

        def visit_AugAssign(self, n):
            tgt(n.target)
            self.visit(n.value)

        def visit_AnnAssign(self, n):
            if n.value is not None:
                tgt(n.target)
                self.visit(n.value)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            tgt(n.target)
            self.visit(n.value)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            pass
        visit_ImportFrom = visit_Import

    v = V()
    for n in nodes:
        v.visit(n)
    return out


def _mut_names(nodes):
    """Names whose object is stored into / has a mutator called in these statements."""
    out = set()
    attrs = set()

    def base(t):
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                attrs.add((t.value.id, t.attr))
            t = t.value
        if isinstance(t, ast.Name):
            out.add(t.id)

    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for y in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if isinstance(y, (ast.Subscript, ast.Attribute)):
                            base(y)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                if isinstance(x.target, (ast.Subscript, ast.Attribute)):
                    base(x.target)
                elif isinstance(x.target, ast.Name) and isinstance(x, ast.AugAssign):
                    out.add(x.target.id)
            elif isinstance(x, ast.Delete):
                for t in x.targets:
                    if isinstance(t, ast.Subscript):
                        base(t)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                base(x.func)
            elif isinstance(x, ast.Call) and any(k.arg == "inplace" for k in x.keywords) and isinstance(
                    x.func, ast.Attribute):
                base(x.func)
    return out, attrs


def filtered(m, it, mus):
    """A loop that copies the elements it goes over that meet a condition, as the list comprehension it amounts to."""
    if m.init.op != "list" or m.init.a or m.next is None:
        return None
    t, conds = m.next, []
    while t.op == "ite":
        if t.a[2] is m:
            conds.append(t.a[0])
            t = t.a[1]
        elif t.a[1] is m:
            conds.append(neg(t.a[0]))
            t = t.a[2]
        else:
            return None
    if t.op != "append" or t.a[0] is not m or t.a[1].op != "elem" or t.a[1].a[0] is not it:
        return None
    if any(x in mus for c in conds for x in reach(c)):
        return None
    return mk("comp", "list", t.a[1], mk("iters", it), mk("conds", *conds))


REDUCE = {"mean", "sum", "std", "var", "min", "max", "any", "all"}
ARRAYS = {"numpy.asarray", "numpy.array", "numpy.abs", "numpy.absolute", "numpy.square", "numpy.isnan", "numpy.isfinite"}


class Interp:
    def __init__(self, proj, rust=None):
        self.P = proj
        self.rust = rust       # False: analyse the world without the compiled backend
        self.heap = {}
        self.nloc = 0
        self.events = []
        self.pc = []           # list of (cond, bool, assumed): assumed = the other arm only raises
        self.stack = []        # list of Frame
        self.calls = []        # textual call stack
        self.tries = []
        self.tryids = []       # one number per try statement execution, parallel to tries
        self.ntry = 0
        self.withs = []
        self.loopstack = []
        self.loopfns = []
        self.funcs = {}
        self.types = {}        # term -> class (from annotations)
        self.siteno = 0
        self.modcache = {}
        self.modbusy = set()
        self.steps = 0
        self.truncated = 0
        self.unknown = 0
        self.fnseen = set()
        self.opaque = ()                # functions whose calls stay calls
        self.visited = set()

    # ------------------------------------------------------------------ heap
    def alloc(self, content):
        self.nloc += 1
        self.heap[self.nloc] = content
        return Ref(self.nloc)

    def content(self, v):
        return self.heap[v.loc] if type(v) is Ref else v

    def snap(self, v, depth=0):
        """Term for a value (instances are snapshotted)."""
        if type(v) is T:
            return v
        c = self.heap[v.loc]
        if type(c) is T:
            return c
        if c.tag is not None:
            return mk("inst", c.tag)
        if depth > 6:
            return mk("inst", c.cls.qual)
        fs = []
        for n, x in c.fields.items():
            fs.append(mk("f", n, self.snap(x, depth + 1)))
        return mk("new", c.cls.qual, *fs)

    def pushloop(self, t):
        self.loopstack.append(t)
        fr = self.stack[-1]
        self.loopfns.append((fr.fn.qual if fr.fn else "", len(self.stack)))

    def depth(self, it):
        """How many enclosing loops already run over (a part of) this iterable."""
        n = {}
        for x in self.loopstack:
            for y in walked(x):
                n[y] = n.get(y, 0) + 1
        return max(n.get(y, 0) for y in walked(it))

    def poploop(self):
        self.loopstack.pop()
        self.loopfns.pop()

    def ev(self, kind, node, **d):
        fr = self.stack[-1] if self.stack else None
        e = Ev(kind, fr.fn.qual if fr and fr.fn else "<module>", fr.mod if fr else None, getattr(node, "lineno", 0),
               tuple(self.pc), tuple(self.calls), tuple(self.tries), tuple(self.withs), tuple(self.loopstack), d)
        e.loopfn = tuple(self.loopfns)
        e.tryids = tuple(self.tryids)
        e.pcb = tuple(f.pcbase for f in self.stack)
        self.events.append(e)
        return e

    # ------------------------------------------------------------------ state
    def save(self):
        return dict(self.stack[-1].env), dict(self.heap)

    def restore(self, s):
        self.stack[-1].env = dict(s[0])
        self.heap = dict(s[1])

    def merge_val(self, c, a, b):
        if a is b or (type(a) is Ref and type(b) is Ref and a.loc == b.loc):
            return a
        if a is None:
            a = UNDEF
        if b is None:
            b = UNDEF
        t = truth(c)
        if t is True:
            return a
        if t is False:
            return b
        return ite(c, self.snap(a), self.snap(b))

    def merge_heap(self, c, h1, h2):
        out = dict(h2)
        for k, x in h1.items():
            y = out.get(k)
            if y is None:
                out[k] = x
            elif y is not x:
                if type(x) is T and type(y) is T:
                    out[k] = ite(c, x, y)
                elif type(x) is Inst and type(y) is Inst:
                    fs = {}
                    sv = self.heap
                    for n in list(y.fields) + [n for n in x.fields if n not in y.fields]:
                        xv, yv = x.fields.get(n), y.fields.get(n)
                        if xv is yv or (xv is not None and xv == yv):
                            fs[n] = xv
                            continue
                        if xv is None or yv is None:
                            xs = UNDEF if xv is None else self._snap_in(xv, h1)
                            ys = UNDEF if yv is None else self._snap_in(yv, h2)
                        else:
                            xs, ys = self._snap_in(xv, h1), self._snap_in(yv, h2)
                        fs[n] = ite(c, xs, ys)
                    self.heap = sv
                    out[k] = Inst(y.cls, fs, y.tag)
        return out

    def _snap_in(self, v, h):
        sv = self.heap
        self.heap = h
        try:
            return self.snap(v)
        finally:
            self.heap = sv

    def merge(self, c, s1, s2):
        """state = s1 if c else s2 (either may be None = dead)."""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        e1, h1 = s1
        e2, h2 = s2
        env = {}
        for n in list(e2) + [n for n in e1 if n not in e2]:
            a, b = e1.get(n), e2.get(n)
            if a is b or (type(a) is Ref and type(b) is Ref and a.loc == b.loc):
                env[n] = a
            else:
                env[n] = ite(c, UNDEF if a is None else self._snap_in(a, h1),
                             UNDEF if b is None else self._snap_in(b, h2))
        return env, self.merge_heap(c, h1, h2)

    # ------------------------------------------------------------------ names
    def lookup(self, name, node):
        fr = self.stack[-1]
        f = fr
        while f is not None:
            if name in f.env and name not in f.globals:
                return f.env[name]
            if name in f.imports:
                return self.symbol(f.imports[name])
            f = f.parent
        return self.modname(fr.mod, name)

    def modname(self, mod, name):
        if name in mod.funcs:
            return self.fnval(mod.funcs[name])
        if name in mod.classes:
            return mk("cls", mod.classes[name].qual)
        if name in mod.assigns:
            return self.modvar(mod, name)
        if name in mod.imports:
            return self.symbol(mod.imports[name])
        if name in BUILTINS:
            return glob("builtins." + name)
        if name in ("__name__", "__file__", "__doc__"):
            return glob(name)
        self.stack and self.ev("unbound", None, name=name)
        return glob("?." + name)

    def modvar(self, mod, name):
        key = (mod.name, name)
        if key in self.modcache:
            return self.modcache[key]
        t = glob(mod.name + "." + name)
        if self.rust is False and mod.name.endswith("._backend"):
            t = FALSE if name == "HAS_RUST_BACKEND" else NONE if name.startswith("_rust_") else t
            self.modcache[key] = t
            return t
        v = mod.assigns[name]
        ok = mod.nassign.get(name, 0) == 1 and not mod.name.endswith("_backend")
        if ok and key not in self.modbusy and isinstance(v, (ast.Constant, ast.UnaryOp, ast.BinOp, ast.Name)):
            self.modbusy.add(key)
            fr = Frame(None, mod)
            self.stack.append(fr)
            try:
                t = self.snap(self.eval(v))
            finally:
                self.stack.pop()
                self.modbusy.discard(key)
        self.modcache[key] = t
        return t

    def symbol(self, dotted):
        r = self.P.resolve(dotted)
        if r[0] == "fn":
            return self.fnval(r[1])
        if r[0] == "cls":
            return mk("cls", r[1].qual)
        if r[0] == "var":
            return self.modvar(r[1], r[2])
        if r[0] == "mod":
            return mk("mod", r[1].name)
        d = r[1]
        for a, b in (("np.", "numpy."), ("pd.", "pandas.")):
            pass
        return glob(d)

    def fnval(self, fn, frame=None, self_=None):
        if frame is None and self_ is None:
            key = fn.qual
        else:
            key = "%s#%d" % (fn.qual, len(self.funcs))
        self.funcs.setdefault(key, FuncVal(fn, frame, self_))
        return mk("func", key)

    def clsobj(self, qual):
        r = self.P.resolve(qual)
        return r[1] if r[0] == "cls" else None

    # ------------------------------------------------------------------ expressions
    def ex(self, n):
        """Evaluate to a term."""
        return self.snap(self.eval(n))

    def eval(self, n):
        self.steps += 1
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.unknown += 1
            return mk("unk", type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        return const(n.value)

    def e_Name(self, n):
        return self.lookup(n.id, n)

    def e_Tuple(self, n):
        vs = []
        for e in n.elts:
            v = self.eval(e.value) if isinstance(e, ast.Starred) else self.eval(e)
            if isinstance(e, ast.Starred):
                t = self.snap(v)
                if t.op in ("tuple", "list"):
                    vs.extend(t.a)
                else:
                    vs.append(mk("star", t))
            else:
                vs.append(self.snap(v))
        return mk("tuple", *vs)

    def e_List(self, n):
        return self.alloc(mk("list", *self.e_Tuple(n).a))

    def e_Set(self, n):
        return self.alloc(mk("set", *self.e_Tuple(n).a))

    def e_Dict(self, n):
        kvs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                t = self.ex(v)
                if t.op == "dict":
                    kvs.extend(t.a)
                else:
                    kvs.append(mk("star", t))
            else:
                kvs.append(mk("kv", self.ex(k), self.ex(v)))
        return self.alloc(mk("dict", *kvs))

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                t = self.ex(v.value)
                if v.format_spec is not None:
                    t = mk("fmt", t, self.ex(v.format_spec))
                parts.append(t)
        if all(p.op == "c" for p in parts) and all(isinstance(cval(p), str) for p in parts):
            return const("".join(cval(p) for p in parts))
        return mk("fstr", *parts)

    def e_FormattedValue(self, n):
        return self.ex(n.value)

    def e_BinOp(self, n):
        a, b = self.ex(n.left), self.ex(n.right)
        return self.binop(BIN[type(n.op)], a, b, n)

    def binop(self, op, a, b, n):
        if a.op == "c" and b.op == "c":
            try:
                x, y = cval(a), cval(b)
                if isinstance(x, (int, float, str)) and isinstance(y, (int, float, str)):
                    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                         "**": lambda: x ** y, "//": lambda: x // y, "%": lambda: x % y}[op]()
                    return const(r)
            except Exception:
                pass
        if op == "+" and a.op in ("list", "tuple") and b.op == a.op:
            t = mk(a.op, *(a.a + b.a))
            return self.alloc(t) if a.op == "list" else t
        if op in ("/", "//", "%"):
            self.ev("div", n, num=a, den=b)
        return mk("bin", op, a, b)

    def e_UnaryOp(self, n):
        t = self.ex(n.operand)
        if isinstance(n.op, ast.Not):
            return neg(t)
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(n.op)]
        if t.op == "c" and op in "-+":
            try:
                return const(-cval(t) if op == "-" else +cval(t))
            except Exception:
                pass
        if op == "~" and t.op == "un" and t.a[0] == "~":
            return t.a[1]
        return mk("un", op, t)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        vals = []
        npush = 0
        for i, v in enumerate(n.values):
            t = self.ex(v)
            vals.append(t)
            tv = truth(t)
            if tv is (False if isand else True):
                break
            if i < len(n.values) - 1:
                self.pc.append((t, isand, False))
                npush += 1
        for _ in range(npush):
            self.pc.pop()
        if isand:
            vs = [t for t in vals[:-1] if truth(t) is not True] + [vals[-1]]
            if len(vs) == 1:
                return vs[0]
            return mk("and", *vs)
        vs = [t for t in vals[:-1] if truth(t) is not False] + [vals[-1]]
        if len(vs) == 1:
            return vs[0]
        return mk("or", *vs)

    def e_Compare(self, n):
        left = self.ex(n.left)
        out = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ex(c)
            out.append(self.cmp(op, left, right))
            left = right
        return conj(out) if len(out) > 1 else out[0]

    def cmp(self, op, a, b):
        k = type(op)
        if a.op == "c" and b.op == "c" and k in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            try:
                x, y = cval(a), cval(b)
                return const({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[k])
            except Exception:
                pass
        if k is ast.Lt:
            return mk("lt", a, b)
        if k is ast.Gt:
            return mk("lt", b, a)
        if k is ast.LtE:
            return mk("le", a, b)
        if k is ast.GtE:
            return mk("le", b, a)
        if k is ast.Eq:
            return eq(a, b)
        if k is ast.NotEq:
            return neg(eq(a, b))
        if k is ast.Is:
            return is_(a, b)
        if k is ast.IsNot:
            return neg(is_(a, b))
        if k in (ast.In, ast.NotIn):
            r = None
            while b.op == "call" and b.a[0] in ("builtins.frozenset", "builtins.set", "builtins.tuple", "builtins.list") and len(b.a) == 2 and b.a[1].op in ("tuple", "list", "set", "dict"):
                b = b.a[1]
            if is_str(a) and is_str(b):
                return const((cval(a) in cval(b)) == (k is ast.In))
            if a.op == "c" and b.op in ("tuple", "list", "set") and all(x.op == "c" for x in b.a):
                r = const(a in b.a)
            elif a.op == "c" and b.op == "dict" and all(x.op == "kv" and x.a[0].op == "c" for x in b.a):
                r = const(any(x.a[0] is a for x in b.a))
            else:
                r = mk("in", a, b)
            return r if k is ast.In else neg(r)
        return mk("unk", "cmp")

    def e_IfExp(self, n):
        c = self.ex(n.test)
        v = truth(c)
        if v is True:
            return self.eval(n.body)
        if v is False:
            return self.eval(n.orelse)
        s0 = self.save()
        self.pc.append((c, True, False))
        a = self.eval(n.body)
        s1 = self.save()
        self.pc.pop()
        self.restore(s0)
        self.pc.append((c, False, False))
        b = self.eval(n.orelse)
        s2 = self.save()
        self.pc.pop()
        at = self._snap_in(a, s1[1]) if type(a) is Ref else a
        bt = self._snap_in(b, s2[1]) if type(b) is Ref else b
        self.restore(self.merge(c, s1, s2))
        if type(a) is Ref and type(b) is Ref and a.loc == b.loc:
            return a
        return ite(c, at, bt)

    def e_Lambda(self, n):
        fn = Fn(self.stack[-1].mod, n, "%s.<lambda>" % (self.stack[-1].fn.qual if self.stack[-1].fn else ""))
        return self.fnval(fn, self.stack[-1])

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v, n)
        return v

    def e_Starred(self, n):
        return mk("star", self.ex(n.value))

    def e_Slice(self, n):
        f = lambda x: self.ex(x) if x is not None else NONE
        return mk("slice", f(n.lower), f(n.upper), f(n.step))

    def e_Subscript(self, n):
        o = self.eval(n.value)
        k = self.ex(n.slice)
        t = self.snap(o)
        if self.clsref(t):
            return t
        self.ev("index", n, obj=t, key=k)
        if k.op == "pos" and k.a[0] is t:
            return self.elem(t, cval(k.a[1]))
        r = idx(t, k)
        return self.settype_idx(t, r)

    def settype_idx(self, t, r):
        c = self.types.get(("elem", t))
        if c is not None and r not in self.types:
            self.types[r] = c
        return r

    def clsref(self, t):
        return t.op == "glob" and t.a[0].startswith("typing.")

    def e_Attribute(self, n):
        o = self.eval(n.value)
        return self.getattr(o, n.attr, n)

    def getattr(self, o, name, n):
        if type(o) is Ref:
            c = self.heap[o.loc]
            if type(c) is Inst:
                return self.inst_attr(o, c, name, n)
        t = self.snap(o)
        if t.op == "never":
            return t
        if t.op == "mod":
            m = self.P.mods[t.a[0]]
            if name in m.funcs or name in m.classes or name in m.assigns or name in m.imports:
                return self.modname(m, name)
            if t.a[0] + "." + name in self.P.mods:
                return mk("mod", t.a[0] + "." + name)
            return glob(t.a[0] + "." + name)
        if t.op == "glob":
            g = t.a[0] + "." + name
            if g in ("numpy.nan", "numpy.NaN", "math.nan"):
                return NAN
            return glob(g)
        if t.op == "cls":
            c = self.clsobj(t.a[0])
            if c is not None:
                m = self.P.method(c, name)
                if m is not None:
                    return self.fnval(m)
                if name in c.classvars:
                    return glob(c.qual + "." + name)
            return mk("attr", t, name)
        if t.op == "new" or (t.op == "ite" and any(x.op == "new" for x in t.a[1:])):
            r = attr(t, name)
            if r.op != "attr":
                return r
            c = self.termcls(t)
            if c is not None:
                m = self.P.method(c, name)
                if m is not None and m.isdeco("property"):
                    return self.call_fn(m, [self.thaw(t, c)], {}, n)
            return r
        c = self.types.get(t)
        if c is not None:
            m = self.P.method(c, name)
            if m is not None and m.isdeco("property"):
                return self.call_fn(m, [t], {}, n)
        r = attr(t, name)
        if c is not None and r not in self.types:
            for (f, k) in self.P.dcfields(c):
                if f[0] == name:
                    self.annotate(r, f[1], k.mod)
        self.ev("getattr", n, obj=t, name=name)
        return r

    def termcls(self, t):
        if t.op == "new":
            return self.clsobj(t.a[0])
        if t.op == "ite":
            return self.termcls(t.a[1]) or self.termcls(t.a[2])
        return self.types.get(t)

    def thaw(self, t, c):
        fs = {}
        for (f, k) in self.P.dcfields(c):
            fs[f[0]] = attr(t, f[0])
        st = [t]
        while st:
            x = st.pop()
            if x.op == "new":
                for f in x.a[1:]:
                    fs[f.a[0]] = f.a[1] if x is t else attr(t, f.a[0])
            elif x.op == "ite":
                st += [x.a[1], x.a[2]]
        return self.alloc(Inst(c, fs))

    def inst_attr(self, o, c, name, n):
        if name in c.fields:
            v = c.fields[name]
            self.ev("selfread", n, inst=o.loc, cls=c.cls.qual, tag=c.tag, name=name, val=v)
            return v
        if name == "__class__":
            return mk("cls", c.cls.qual)
        m = self.P.method(c.cls, name)
        if m is not None:
            if m.isdeco("property"):
                return self.call_fn(m, [o], {}, n)
            if m.isdeco("staticmethod"):
                return self.fnval(m)
            if m.isdeco("classmethod"):
                return self.fnval(m, None, mk("cls", c.cls.qual))
            return self.fnval(m, None, o)
        for k in self.P.mro(c.cls):
            if name in k.classvars:
                return glob(k.qual + "." + name)
        if c.tag == "self" and name in self.stored_names():
            r = mk("stale", name)
            self.ev("selfread", n, inst=o.loc, cls=c.cls.qual, tag=c.tag, name=name, val=r)
            return r
        self.ev("noattr", n, cls=c.cls.qual, name=name, tag=c.tag)
        return mk("attr", self.snap(o), name)

    # comprehension --------------------------------------------------
    def comp(self, n, kind, elts):
        fr = self.stack[-1]
        saved = dict(fr.env)
        gens = n.generators
        # exact expansion over literal sequences
        if len(gens) == 1 and kind in ("list", "gen", "dict"):
            it = self.ex(gens[0].iter)
            seq = self.literal_seq(it)
            if seq is not None and len(seq) <= 24 and not gens[0].ifs:
                out = []
                for v in seq:
                    self.assign(gens[0].target, v, n)
                    if kind == "dict":
                        out.append(mk("kv", self.ex(elts[0]), self.ex(elts[1])))
                    else:
                        out.append(self.ex(elts[0]))
                for k in _stored_names([ast.Assign(targets=[gens[0].target], value=ast.Constant(0))]):
                    if k in saved:
                        fr.env[k] = saved[k]
                    else:
                        fr.env.pop(k, None)
                return self.alloc(mk("dict" if kind == "dict" else "list", *out))
        iters, conds, npc, ds = [], [], 0, []
        for g in gens:
            it = self.ex(g.iter)
            iters.append(it)
            d = self.depth(it)
            ds.append(d)
            self.bind_elem(g.target, it, d, n)
            self.pushloop(it)
            self.pc.append((mk("iter", it), True, False))
            npc += 1
            for c in g.ifs:
                ct = self.ex(c)
                conds.append(ct)
                self.pc.append((ct, True, False))
                npc += 1
        if kind == "dict":
            es = [mk("kv", self.ex(elts[0]), self.ex(elts[1]))]
        else:
            es = [self.ex(e) for e in elts]
        for _ in range(npc):
            self.pc.pop()
        for _ in gens:
            self.poploop()
        names = set()
        for g in gens:
            names |= _stored_names([ast.Assign(targets=[g.target], value=ast.Constant(0))])
        for k in names:
            if k in saved:
                fr.env[k] = saved[k]
            else:
                fr.env.pop(k, None)
        t = mk("comp", "list" if kind == "gen" else kind, es[0], mk("iters", *iters), mk("conds", *conds))
        t.depth = tuple(ds)
        if es[0] in self.types:
            self.types[("elem", t)] = self.types[es[0]]
        return self.alloc(t)

    def e_ListComp(self, n):
        return self.comp(n, "list", [n.elt])

    def e_SetComp(self, n):
        return self.comp(n, "set", [n.elt])

    def e_GeneratorExp(self, n):
        return self.comp(n, "gen", [n.elt])

    def e_DictComp(self, n):
        return self.comp(n, "dict", [n.key, n.value])

    def literal_seq(self, t):
        if t.op in ("tuple", "list") and not any(x.op == "star" for x in t.a):
            return list(t.a)
        if t.op == "m" and t.a[1] == "items" and len(t.a) == 2 and t.a[0].op == "dict":
            if all(k.op == "kv" for k in t.a[0].a):
                return [mk("tuple", k.a[0], k.a[1]) for k in t.a[0].a]
        d = t.a[0] if t.op == "m" and t.a[1] in ("keys", "values") and len(t.a) == 2 else t
        if d.op == "dict" and all(k.op == "kv" and k.a[0].op == "c" for k in d.a):
            return [k.a[1] if d is not t and t.a[1] == "values" else k.a[0] for k in d.a]
        if t.op == "call" and t.a[0] in ("builtins.list", "builtins.tuple", "builtins.sorted") and len(t.a) == 2:
            s = self.literal_seq(t.a[1])
            if s is not None and (t.a[0] != "builtins.sorted" or len(s) < 2):
                return s
        if t.op == "call" and t.a[0] == "builtins.enumerate" and len(t.a) == 2:
            s = self.literal_seq(t.a[1])
            if s is not None:
                return [mk("tuple", const(i), x) for i, x in enumerate(s)]
        if t.op == "call" and t.a[0] == "builtins.zip" and len(t.a) > 1:
            ss = [self.literal_seq(x) for x in t.a[1:]]
            if all(s is not None for s in ss) and len(set(map(len, ss))) == 1:
                return [mk("tuple", *r) for r in zip(*ss)]
        return None

    def elem(self, it, d):
        """Term for 'an element of it'."""
        if it.op == "call" and it.a[0] == "builtins.enumerate" and len(it.a) >= 2 and it.a[1].op != "kw":
            return mk("tuple", mk("pos", it.a[1], const(d)), self.elem(it.a[1], d))
        if it.op == "call" and it.a[0] == "builtins.zip" and all(x.op not in ("star", "kw") for x in it.a[1:]):
            return mk("tuple", *[self.elem(x, d) for x in it.a[1:]])
        if it.op == "m" and it.a[1] == "items" and len(it.a) == 2:
            k = mk("elem", it.a[0], const(d))
            v = idx(it.a[0], k)
            self.settype_idx(it.a[0], v)
            return mk("tuple", k, v)
        if it.op == "m" and it.a[1] == "values" and len(it.a) == 2:
            v = idx(it.a[0], mk("elem", it.a[0], const(d)))
            self.settype_idx(it.a[0], v)
            return v
        if it.op == "m" and it.a[1] == "keys" and len(it.a) == 2:
            return mk("elem", it.a[0], const(d))
        if it.op == "comp" and it.a[0] == "list":
            return it.a[1]
        if it.op == "call" and it.a[0] == "builtins.range" and len(it.a) == 2 and it.a[1].op == "call" and it.a[1].a[0] == "builtins.len" and len(it.a[1].a) == 2:
            return mk("pos", it.a[1].a[1], const(d))
        r = mk("elem", it, const(d))
        c = self.types.get(("elem", it))
        if c is not None:
            self.types[r] = c
        return r

    def bind_elem(self, target, it, d, n):
        self.assign(target, self.elem(it, d), n)

    # ------------------------------------------------------------------ calls
    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(
                n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            return self.super_call(n)
        if isinstance(n.func, ast.Attribute):
            recv = self.eval(n.func.value)
            return self.method_call(recv, n.func.attr, n)
        f = self.snap(self.eval(n.func))
        args, kw = self.args(n)
        return self.call(f, args, kw, n)

    def args(self, n):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                t = self.snap(self.eval(a.value))
                if t.op in ("tuple", "list"):
                    args.extend(t.a)
                else:
                    args.append(mk("star", t))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                t = self.snap(self.eval(k.value))
                self.spread(t, kw)
            else:
                kw[k.arg] = self.eval(k.value)
        return args, kw

    def spread(self, t, kw):
        if t.op == "dict":
            for x in t.a:
                if x.op == "kv" and is_str(x.a[0]):
                    kw[cval(x.a[0])] = x.a[1]
                elif x.op == "star":
                    self.spread(x.a[0], kw)
                else:
                    kw.setdefault("**", t)
        elif t.op == "setitem" and is_str(t.a[1]):
            self.spread(t.a[0], kw)
            kw[cval(t.a[1])] = t.a[2]
        else:
            kw["**"] = t

    def super_call(self, n):
        fr = self.stack[-1]
        f = fr
        while f is not None and (f.fn is None or f.fn.cls is None):
            f = f.parent
        args, kw = self.args(n)
        if f is None:
            return mk("unk", "super")
        selfv = f.env.get(f.fn.pos[0]) if f.fn.pos else None
        name = n.func.attr
        if type(selfv) is Ref and type(self.heap[selfv.loc]) is Inst:
            mro = self.P.mro(self.heap[selfv.loc].cls)
            try:
                i = mro.index(f.fn.cls)
            except ValueError:
                i = -1
            for k in mro[i + 1:]:
                if name in k.methods:
                    return self.call_fn(k.methods[name], [selfv] + args, kw, n)
        return mk("unk", "super." + name)

    def method_call(self, recv, name, n):
        if type(recv) is Ref:
            c = self.heap[recv.loc]
            if type(c) is Inst:
                if name in c.fields:
                    f = self.snap(self.inst_attr(recv, c, name, n))
                    args, kw = self.args(n)
                    return self.call(f, args, kw, n)
                m = self.P.method(c.cls, name)
                if m is None:
                    args, kw = self.args(n)
                    self.ev("noattr", n, cls=c.cls.qual, name=name, tag=c.tag)
                    return mk("m", self.snap(recv), name, *self.targs(args, kw))
                args, kw = self.args(n)
                if m.isdeco("staticmethod"):
                    return self.call_fn(m, args, kw, n)
                if m.isdeco("classmethod"):
                    return self.call_fn(m, [mk("cls", c.cls.qual)] + args, kw, n)
                return self.call_fn(m, [recv] + args, kw, n)
        t = self.snap(recv)
        if t.op == "never":
            return t
        if is_str(t) and name in ("lower", "upper", "strip", "title", "capitalize", "casefold") and not n.args:
            return const(getattr(cval(t), name)())
        if is_str(t) and name in ("replace", "startswith", "endswith", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix") and all(
                isinstance(x, ast.Constant) and isinstance(x.value, str) for x in n.args) and not n.keywords:
            return const(getattr(cval(t), name)(*[x.value for x in n.args]))
        if is_str(t) and name in ("split", "rsplit", "partition", "rpartition") and all(isinstance(x, ast.Constant) for x in n.args) and not n.keywords:
            try:
                got = getattr(cval(t), name)(*[x.value for x in n.args])
            except (TypeError, ValueError):
                got = None
            if got is not None:
                return mk("list" if name.endswith("split") else "tuple", *[const(x) for x in got])
        if t.op in ("mod", "glob", "cls"):
            f = self.snap(self.getattr(recv, name, n))
            args, kw = self.args(n)
            if t.op == "cls" and f.op == "func" and self.funcs[f.a[0]].fn.isdeco("classmethod"):
                args = [t] + args
            return self.call(f, args, kw, n)
        # typed external value with an internal class
        c = self.termcls(t)
        args, kw = self.args(n)
        if c is not None:
            m = self.P.method(c, name)
            if m is not None:
                if t.op in ("new", "ite"):
                    return self.call_fn(m, [self.thaw(t, c)] + args, kw, n)
                return self.call_fn(m, [t] + args, kw, n)
        return self.ext_method(recv, t, name, args, kw, n)

    def targs(self, args, kw):
        return [self.snap(a) for a in args] + [mk("kw", k, self.snap(kw[k])) for k in sorted(kw)]

    def run_callbacks(self, args, kw, n):
        for a in list(args) + list(kw.values()):
            if type(a) is T and a.op == "func":
                fv = self.funcs[a.a[0]]
                if any(f.fn is not None and f.fn.node is fv.fn.node for f in self.stack):
                    continue
                ps = [p for p in fv.fn.pos]
                if fv.self is not None and ps:
                    ps = ps[1:]
                self.siteno += 1
                self.pc.append((mk("cb", a.a[0].split("#")[0]), True, False))
                self.call(a, [mk("cbarg", fv.fn.qual, p) for p in ps if p not in fv.fn.defaults], {}, n)
                self.pc.pop()

    def ext_method(self, recv, t, name, args, kw, n):
        ta = self.targs(args, kw)
        self.ev("mcall", n, recv=t, name=name, args=ta, ref=recv.loc if type(recv) is Ref else None)
        self.run_callbacks(args, kw, n)
        isalloc = type(recv) is Ref
        # mutators
        inplace = [k for k in kw if k in INPLACE_KW and truth(self.snap(kw[k])) is not False]
        if name in MUTATORS or inplace:
            kindlist = t.op in ("list", "append", "extend", "mu", "dict", "set", "setitem", "ite", "comp")
            if not (name in ("sort", "pop", "update", "remove", "add", "put", "resize", "partition", "clear", "insert",
                             "append", "extend", "reverse", "setdefault", "discard") and not isalloc
                    and t.op in ("glob",)):
                self.ev("mutate", n, obj=t, how="." + name + "()", ref=recv.loc if isalloc else None)
            if name == "append" and len(ta) == 1:
                new = mk("list", *(t.a + (ta[0],))) if (t.op == "list" and len(t.a) < 200) else mk("append", t, ta[0])
            elif name in ("extend",) and len(ta) == 1:
                if t.op == "list" and ta[0].op in ("list", "tuple"):
                    new = mk("list", *(t.a + ta[0].a))
                else:
                    new = mk("extend", t, ta[0])
            elif name == "add" and len(ta) == 1:
                new = mk("append", t, ta[0])
            elif name == "update" and t.op in ("dict", "setitem") and len(ta) == 1 and ta[0].op == "dict" and all(
                    x.op == "kv" for x in ta[0].a):
                new = t
                for x in ta[0].a:
                    new = self.mk_setitem(new, x.a[0], x.a[1])
            elif name == "update" and t.op in ("dict", "setitem") and ta and all(x.op == "kw" for x in ta):
                new = t
                for x in ta:
                    new = self.mk_setitem(new, const(x.a[0]), x.a[1])
            else:
                new = mk("mut", t, name, *ta)
            self.store(n.func.value if isinstance(n.func, ast.Attribute) else None, recv, t, new)
            if name in ("pop", "popitem", "setdefault"):
                return mk("m", t, name, *ta)
            return NONE
        for k, v in kw.items():
            if k == "out":
                self.ev("mutate", n, obj=self.snap(v), how="out=", ref=None)
        r = None
        if name == "get" and t.op in ("dict", "setitem") and ta and is_str(ta[0]):
            q = t
            while q.op == "setitem" and q.a[1].op == "c":
                if q.a[1] is ta[0]:
                    r = q.a[2]
                    break
                q = q.a[0]
            if r is None and q.op == "dict" and all(x.op == "kv" and x.a[0].op == "c" for x in q.a):
                for x in q.a:
                    if x.a[0] is ta[0]:
                        r = x.a[1]
                if r is None:
                    r = ta[1] if len(ta) > 1 else NONE
            if r is not None:
                return r
        if name in REDUCE and t.op == "call" and t.a[0] in ARRAYS and len(t.a) == 2:
            # a.mean() of an array is numpy.mean(a)
            return mk("call", "numpy." + name, t.a[1] if t.a[0] == "numpy.asarray" else t, *ta)
        r = mk("m", t, name, *ta)
        if name == "copy":
            if t.op in ("list", "dict", "tuple", "set", "setitem", "append"):
                return self.alloc(t)
            return self.alloc(r)
        return r

    def mk_setitem(self, base, k, v):
        if base.op == "dict" and k.op == "c" and all(x.op == "kv" and x.a[0].op == "c" for x in base.a):
            out = [mk("kv", k, v) if x.a[0] is k else x for x in base.a]
            if not any(x.a[0] is k for x in base.a):
                out.append(mk("kv", k, v))
            return mk("dict", *out)
        if base.op == "list" and k.op == "c" and isinstance(cval(k), int) and 0 <= cval(k) < len(base.a):
            return mk("list", *[v if i == cval(k) else x for i, x in enumerate(base.a)])
        if base.op == "setitem" and base.a[1] is k and k.op == "c":
            return mk("setitem", base.a[0], k, v)
        return mk("setitem", base, k, v)

    def call(self, f, args, kw, n):
        for x in list(args) + list(kw.values()) + [f]:
            if type(x) is T and x.op == "never":
                return x
        if f.op == "func":
            fv = self.funcs[f.a[0]]
            a = list(args)
            if fv.self is not None:
                a = [fv.self] + a
            return self.call_fn(fv.fn, a, kw, n, fv.frame)
        if f.op == "cls":
            c = self.clsobj(f.a[0])
            return self.instantiate(c, args, kw, n)
        if f.op == "ite":
            c = f.a[0]
            if f.a[1].op in ("func", "cls") or f.a[2].op in ("func", "cls"):
                s0 = self.save()
                self.pc.append((c, True, False))
                a = self.call(f.a[1], args, kw, n)
                self.pc.pop()
                s1 = self.save()
                self.restore(s0)
                self.pc.append((c, False, False))
                b = self.call(f.a[2], args, kw, n)
                self.pc.pop()
                s2 = self.save()
                at, bt = self._snap_in(a, s1[1]), self._snap_in(b, s2[1])
                if at.op == "never" and bt.op != "never":
                    self.restore(s2)
                    return bt
                if bt.op == "never" and at.op != "never":
                    self.restore(s1)
                    return at
                self.restore(self.merge(c, s1, s2))
                return ite(c, at, bt)
        if f.op == "glob":
            return self.ext_call(f.a[0], args, kw, n)
        g = self.dispatch(f)
        if g is not None:
            return self.call(g, args, kw, n)
        ta = self.targs(args, kw)
        self.ev("vcall", n, fn=f, args=ta)
        self.run_callbacks(args, kw, n)
        return mk("vcall", f, *ta)

    def stored_names(self):
        s = getattr(self.P, "_stored_names", None)
        if s is None:
            s = set()
            for m in self.P.mods.values():
                for q in ast.walk(m.tree):
                    if isinstance(q, ast.Attribute) and isinstance(q.ctx, ast.Store):
                        s.add(q.attr)
                    elif isinstance(q, ast.ClassDef):
                        for x in q.body:
                            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                                s.add(x.target.id)
                            elif isinstance(x, ast.Assign):
                                s |= {t.id for t in x.targets if isinstance(t, ast.Name)}
            self.P._stored_names = s
        return s

    def dispatch(self, f):
        """A function picked from a literal dict by key becomes a conditional chain."""
        if f.op == "idx":
            d, k = f.a
        elif f.op == "m" and f.a[1] == "get" and len(f.a) >= 3:
            d, k = f.a[0], f.a[2]
        else:
            return None
        if d.op != "dict" or not d.a or any(x.op != "kv" or x.a[0].op != "c" or x.a[1].op not in ("func", "cls")
                                            for x in d.a):
            return None
        r = d.a[-1].a[1]
        for x in reversed(d.a[:-1]):
            r = mk("ite", eq(k, x.a[0]), x.a[1], r) if r is not x.a[1] else r
        return r

    def ext_call(self, g, args, kw, n):
        ta = self.targs(args, kw)
        if g.startswith("builtins."):
            r = self.builtin(g[9:], args, kw, ta, n)
            if r is not None:
                return r
        self.ev("call", n, fn=g, args=ta)
        self.run_callbacks(args, kw, n)
        if g in EXTMUT and args:
            self.ev("mutate", n, obj=self.snap(args[EXTMUT[g]]), how=g, ref=args[0].loc if type(args[0]) is Ref else None)
            t0 = self.snap(args[0])
            self.store(n.args[0] if n.args else None, args[0], t0, mk("mut", t0, g, *ta[1:]))
        if "out" in kw:
            o = kw["out"]
            self.ev("mutate", n, obj=self.snap(o), how="out=", ref=o.loc if type(o) is Ref else None)
        t = mk("call", g, *ta)
        last = g.rsplit(".", 1)[-1]
        if g.startswith(("numpy.", "copy.")) and last in ALLOC and g.count(".") == 1:
            return self.alloc(t)
        if g in ("pandas.DataFrame", "pandas.Series", "copy.deepcopy"):
            return self.alloc(t)
        return t

    def builtin(self, name, args, kw, ta, n):
        if name in ("list", "tuple", "set", "dict", "frozenset"):
            if not ta:
                t = mk({"frozenset": "set"}.get(name, name))
                return t if name == "tuple" else self.alloc(t)
            if name == "dict" and all(x.op == "kw" for x in ta) and not any(x.a[0] == "**" for x in ta):
                return self.alloc(mk("dict", *[mk("kv", const(k), self.snap(v)) for k, v in kw.items()]))
            if len(ta) == 1 and name in ("list", "tuple") and ta[0].op in ("list", "tuple"):
                t = mk(name, *ta[0].a)
                return t if name == "tuple" else self.alloc(t)
            if len(ta) == 1 and name == "list" and ta[0].op == "comp" and ta[0].a[0] == "list":
                return self.alloc(ta[0])
            if len(ta) == 1 and name == "dict" and ta[0].op in ("dict", "setitem"):
                return self.alloc(ta[0])
            self.ev("call", n, fn="builtins." + name, args=ta)
            self.run_callbacks(args, kw, n)
            return self.alloc(mk("call", "builtins." + name, *ta))
        if name == "len" and ta and ta[0].op in ("tuple", "list", "dict") and not any(
                x.op == "star" for x in ta[0].a):
            return const(len(ta[0].a))
        if name == "str" and len(ta) == 1 and is_str(ta[0]):
            return ta[0]
        if name == "isinstance" and len(ta) == 2:
            return self.isinst(args[0], ta)
        if name == "getattr" and len(ta) >= 2 and is_str(ta[1]):
            v = args[0]
            nm = cval(ta[1])
            if type(v) is Ref and type(self.heap[v.loc]) is Inst:
                c = self.heap[v.loc]
                if nm in c.fields or self.P.method(c.cls, nm):
                    return self.inst_attr(v, c, nm, n)
                if len(ta) > 2:
                    if c.tag == "self" and nm in self.stored_names():
                        return ite(mk("hasattr", mk("stale", nm), nm), self.inst_attr(v, c, nm, n), ta[2])
                    return ta[2]
            r = self.snap(self.getattr(v, nm, n))
            if len(ta) > 2:
                return ite(mk("hasattr", ta[0], nm), r, ta[2])
            return r
        if name == "hasattr" and len(ta) == 2:
            v = args[0]
            if is_str(ta[1]):
                nm = cval(ta[1])
                if type(v) is Ref and type(self.heap[v.loc]) is Inst:
                    c = self.heap[v.loc]
                    if nm in c.fields or self.P.method(c.cls, nm):
                        return TRUE
                    if c.tag is None or nm not in self.stored_names():
                        return FALSE
                    if c.tag == "self":
                        return mk("hasattr", mk("stale", nm), nm)
                return mk("hasattr", ta[0], nm)
            self.ev("hasattr_dyn", n, obj=ta[0], key=ta[1])
            return mk("call", "builtins.hasattr", *ta)
        if name == "setattr" and len(ta) == 3:
            v = args[0]
            if is_str(ta[1]):
                self.set_attr(v, cval(ta[1]), args[2], n, None)
                return NONE
            self.ev("setattr_dyn", n, obj=ta[0], key=ta[1], val=ta[2])
            if type(v) is Ref and type(self.heap[v.loc]) is Inst:
                c = self.heap[v.loc]
                fs = {}
                for k, x in c.fields.items():
                    fs[k] = ite(eq(ta[1], const(k)), ta[2], self.snap(x)) if not k.startswith("__") else x
                self.heap[v.loc] = Inst(c.cls, fs, c.tag)
            else:
                self.ev("mutate", n, obj=ta[0], how="setattr()", ref=None)
            return NONE
        if name == "type" and len(ta) == 1:
            v = args[0]
            if type(v) is Ref and type(self.heap[v.loc]) is Inst:
                return mk("cls", self.heap[v.loc].cls.qual)
            return mk("call", "builtins.type", *ta)
        if name in ("float", "int") and len(ta) == 1 and ta[0].op == "c":
            try:
                if name == "float" and cval(ta[0]) in ("nan",):
                    return NAN
                return const(float(cval(ta[0])) if name == "float" else int(cval(ta[0])))
            except Exception:
                pass
        if name in ("float", "bool") and len(ta) == 1 and ta[0].op == "ite":
            pass
        if name == "print":
            self.ev("call", n, fn="builtins.print", args=ta)
            return NONE
        return None

    def isinst(self, v, ta):
        if type(v) is Ref:
            c = self.heap[v.loc]
            if type(c) is Inst and ta[1].op == "cls":
                k = self.clsobj(ta[1].a[0])
                return const(k in self.P.mro(c.cls))
        t = ta[0]
        kinds = [x for x in (ta[1].a if ta[1].op == "tuple" else (ta[1],))]
        names = [x.a[0] for x in kinds if x.op == "glob"]
        if t.op in ("list", "tuple", "dict", "set") and len(names) == len(kinds):
            return const(("builtins." + t.op) in names)
        if t.op == "c" and len(names) == len(kinds) and all(x.startswith("builtins.") for x in names):
            return const(("builtins." + t.a[0]) in names)
        r = mk("isinstance", t, ta[1])
        if ta[1].op == "cls" and t not in self.types:
            self.narrow.setdefault(r, (t, ta[1].a[0])) if hasattr(self, "narrow") else None
        return r

    def instantiate(self, c, args, kw, n):
        if c is None:
            return mk("unk", "cls")
        ref = self.alloc(Inst(c, {}))
        m = self.P.method(c, "__init__")
        dc = self.P.dcfields(c)
        nev = self.ev("new", n, cls=c.qual, args=[self.snap(a) for a in args], kw={k: self.snap(v) for k, v in kw.items()},
                      fields={})
        if m is not None:
            rv = self.call_fn(m, [ref] + args, kw, n)
            if type(rv) is T and rv.op == "never":
                return rv
        elif dc:
            fs = {}
            names = [f[0][0] for f in dc]
            pos = list(args)
            bad = []
            for (f, k) in dc:
                nm, ann, dflt = f
                init = True
                if isinstance(dflt, ast.Call) and ast.unparse(dflt.func).endswith("field"):
                    for q in dflt.keywords:
                        if q.arg == "init" and isinstance(q.value, ast.Constant) and q.value.value is False:
                            init = False
                if not init:
                    continue
                if pos:
                    fs[nm] = pos.pop(0)
                elif nm in kw:
                    fs[nm] = kw[nm]
                elif dflt is not None:
                    fs[nm] = self.default_field(dflt, k.mod)
                else:
                    if "**" in kw:
                        fs[nm] = idx(self.snap(kw["**"]), const(nm))
                    else:
                        bad.append(nm)
                        fs[nm] = UNDEF
            extra = [k for k in kw if k not in names and k != "**"]
            if bad or extra or pos:
                self.ev("arity", n, callee=c.qual, missing=bad, extra=extra + ["positional"] * len(pos))
            self.heap[ref.loc] = Inst(c, fs)
            nev.d["fields"] = {k: self.snap(v) for k, v in fs.items()}
            pi = self.P.method(c, "__post_init__")
            if pi is not None:
                rv = self.call_fn(pi, [ref], {}, n)
                if type(rv) is T and rv.op == "never":
                    return rv
        elif any(b.split(".")[-1] == "TypedDict" for b in c.bases):
            return self.alloc(mk("dict", *[mk("kv", const(k), self.snap(v)) for k, v in kw.items()]))
        elif args or kw:
            pass
        return ref

    def default_field(self, d, mod):
        if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("field"):
            for k in d.keywords:
                if k.arg == "default":
                    return self.in_mod(mod, k.value)
                if k.arg == "default_factory":
                    s = ast.unparse(k.value)
                    if s in ("list", "dict", "set"):
                        return self.alloc(mk(s))
                    return mk("unk", "factory")
            return NONE
        return self.in_mod(mod, d)

    def in_mod(self, mod, node):
        fr = Frame(None, mod)
        self.stack.append(fr)
        try:
            return self.eval(node)
        finally:
            self.stack.pop()

    def annotate(self, t, ann, mod):
        """Record the class of a term from its annotation."""
        if type(t) is not T or t in self.types:
            return
        c = self.anncls(ann, mod)
        if c is not None:
            if c[0] == "cls":
                self.types[t] = c[1]
            else:
                self.types[("elem", t)] = c[1]

    def anncls(self, ann, mod):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            nm = ast.unparse(ann)
            r = self.P.lookup(mod, nm)
            if r and r[0] == "cls":
                return ("cls", r[1])
            last = nm.split(".")[-1]
            if r is None and last in self.P.byclass:
                return ("cls", self.P.byclass[last])
            return None
        if isinstance(ann, ast.Subscript):
            h = ast.unparse(ann.value).split(".")[-1]
            args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if h == "Optional":
                return self.anncls(args[0], mod)
            if h == "Union":
                cs = [self.anncls(a, mod) for a in args]
                cs = [c for c in cs if c]
                if len(cs) == 1 and not any(ast.unparse(a).endswith("Any") for a in args):
                    return cs[0]
                return None
            if h in ("List", "Sequence", "list", "Iterable"):
                c = self.anncls(args[0], mod)
                return ("elem", c[1]) if c and c[0] == "cls" else None
            if h in ("Dict", "dict") and len(args) == 2:
                c = self.anncls(args[1], mod)
                return ("elem", c[1]) if c and c[0] == "cls" else None
        return None

    def call_fn(self, fn, args, kw, n, frame=None):
        self.fnseen.add(fn.qual)
        ta = None
        rec = sum(1 for f in self.stack if f.fn is not None and f.fn.node is fn.node)
        ice = self.ev("icall", n, callee=fn.qual, args=list(args), kw=dict(kw), fnobj=fn, bound={}, given=set())
        if rec or len(self.stack) > MAXDEPTH:
            self.truncated += 1
            return mk("icall", fn.qual, *self.targs(args, kw))
        fr = Frame(fn, fn.mod, frame)
        env = fr.env
        pos = list(args)
        kw = dict(kw)
        extra = []
        missing = []
        starred = any(type(p) is T and p.op == "star" for p in pos)
        for i, p in enumerate(fn.pos):
            if pos and not (type(pos[0]) is T and pos[0].op == "star"):
                env[p] = pos.pop(0)
                if p in kw:
                    extra.append(p)
                    kw.pop(p)
            elif pos:
                env[p] = idx(pos[0].a[0], const(i))
                if p in kw:
                    env[p] = kw.pop(p)
            elif p in kw:
                env[p] = kw.pop(p)
            elif p in fn.defaults:
                env[p] = None
            else:
                env[p] = UNDEF
                missing.append(p)
        for p in fn.kwonly:
            if p in kw:
                env[p] = kw.pop(p)
            elif p in fn.defaults:
                env[p] = None
            else:
                env[p] = UNDEF
                missing.append(p)
        spill = kw.pop("**", None)
        if pos and not starred:
            if fn.vararg:
                env[fn.vararg] = mk("tuple", *[self.snap(x) for x in pos])
            else:
                extra += ["positional"] * len(pos)
        elif fn.vararg:
            env[fn.vararg] = pos[0].a[0] if pos else mk("tuple")
        if fn.kwarg:
            kvs = [mk("kv", const(k), self.snap(v)) for k, v in kw.items()]
            if spill is not None:
                if not kvs:
                    env[fn.kwarg] = self.alloc(self.snap(spill))
                else:
                    env[fn.kwarg] = self.alloc(mk("dict", mk("star", self.snap(spill)), *kvs))
            else:
                env[fn.kwarg] = self.alloc(mk("dict", *kvs))
        else:
            extra += list(kw)
            if spill is not None and self.snap(spill).op == "dict" and not self.snap(spill).a:
                spill = None
        if (extra or (missing and spill is None)):
            self.ev("arity", n, callee=fn.qual, missing=missing if spill is None else [], extra=extra)
        ice.d["given"] = {p for p in env if env[p] is not None and env[p] is not UNDEF}
        for p in list(env):
            if env[p] is None or (spill is not None and env[p] is UNDEF):
                # default value
                d = fn.defaults.get(p)
                dv = self.in_mod(fn.mod, d) if d is not None else UNDEF
                if spill is not None and p in fn.params:
                    st = self.snap(spill)
                    dv = ite(mk("in", const(p), st), idx(st, const(p)), self.snap(dv))
                env[p] = dv
        for p, a in fn.ann.items():
            if p in env:
                self.annotate(env[p], a, fn.mod)
        ice.d["bound"] = {p: self.snap(v) for p, v in env.items() if v is not None and p in fn.params}
        if fn.qual in self.opaque:
            return mk("fcall", fn.qual, *[self.snap(env[p]) for p in fn.params if p in env])
        r = self.run(fr, n)
        ice.d["ret"] = self.snap(r)
        return r

    def run(self, fr, n):
        fn = fr.fn
        self.stack.append(fr)
        self.calls.append("%s:%d" % (fn.qual.replace("diff_diff.", ""), getattr(n, "lineno", 0) if n is not None else 0))
        base = len(self.pc)
        fr.pcbase = base
        sloops = self.loopstack
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body)
                self.pc[base:] = []
                return v
            alive = self.block(fn.node.body)
            if alive:
                fr.rets.append((tuple(self.pc[base:]), NONE, self.heap))
            self.pc[base:] = []
            if not fr.rets:
                return mk("never")
            # fold exits
            pcs, val, heap = fr.rets[-1]
            for pcs2, v2, h2 in reversed(fr.rets[:-1]):
                c = conj([p if b else neg(p) for p, b, as_ in pcs2 if not as_])
                if type(v2) is Ref and type(val) is Ref and v2.loc == val.loc:
                    nv = v2
                else:
                    a = self._snap_in(v2, h2)
                    b = self._snap_in(val, heap)
                    nv = ite(c, a, b)
                heap = self.merge_heap(c, h2, heap)
                val = nv
            self.heap = dict(heap)
            return val
        finally:
            self.stack.pop()
            self.calls.pop()

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            if not self.stmt(s):
                return False
        return True

    def stmt(self, s):
        self.steps += 1
        self.visited.add(s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown += 1
            return True
        r = m(s)
        return r is not False

    def s_Expr(self, s):
        v = self.eval(s.value)
        if type(v) is T and v.op == "never":
            return False

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        self.ev("global", s, names=list(s.names))
        self.stack[-1].globals |= set(s.names)

    def s_Nonlocal(self, s):
        pass

    def s_Assert(self, s):
        c = self.ex(s.test)
        self.pc.append((c, True, True))

    def s_Import(self, s):
        add_import(s, self.stack[-1].imports, self.stack[-1].mod.pkg)

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s):
        fr = self.stack[-1]
        fn = Fn(fr.mod, s, "%s.%s" % (fr.fn.qual if fr.fn else fr.mod.name, s.name))
        fr.env[s.name] = self.fnval(fn, fr)

    def s_ClassDef(self, s):
        self.stack[-1].env[s.name] = mk("unk", "localclass")

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        fr = self.stack[-1]
        if type(v) is T and v.op == "never":
            return False
        e = self.ev("return", s, val=self.snap(v) if len(self.stack) <= 1 else None)
        fr.rets.append((tuple(self.pc[fr.pcbase:]), v, dict(self.heap)))
        return False

    def s_Raise(self, s):
        t = self.ex(s.exc) if s.exc is not None else mk("reraise")
        self.ev("raise", s, exc=t)
        return False

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                ot = self.snap(o)
                k = self.ex(t.slice)
                self.ev("mutate", s, obj=ot, how="del []", ref=o.loc if type(o) is Ref else None)
                self.store(t.value, o, ot, mk("mut", ot, "del", k))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                self.ev("delattr", s, obj=self.snap(o), name=t.attr)
            elif isinstance(t, ast.Name):
                self.stack[-1].env.pop(t.id, None)

    def s_Assign(self, s):
        v = self.eval(s.value)
        if type(v) is T and v.op == "never":
            return False
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is None:
            return
        v = self.eval(s.value)
        if type(v) is T and v.op == "never":
            return False
        if type(v) is T:
            self.annotate(v, s.annotation, self.stack[-1].mod)
        self.assign(s.target, v, s)

    def s_AugAssign(self, s):
        op = BIN[type(s.op)]
        t = s.target
        rhs = self.ex(s.value)
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, t)
            ot = self.snap(old)
            new = self.binop(op, ot, rhs, s)
            self.ev("augname", s, obj=ot, name=t.id, ref=old.loc if type(old) is Ref else None)
            if type(old) is Ref and type(self.heap[old.loc]) is T:
                self.heap[old.loc] = self.snap(new)
            else:
                self.stack[-1].env[t.id] = new
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            old = self.ex_attr(o, t.attr, s)
            new = self.binop(op, old, rhs, s)
            self.set_attr(o, t.attr, new, s, t.value)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.ex(t.slice)
            ot = self.snap(o)
            new = self.snap(self.binop(op, idx(ot, k), rhs, s))
            self.ev("mutate", s, obj=ot, how="[] %s=" % op, ref=o.loc if type(o) is Ref else None, key=k)
            self.store(t.value, o, ot, self.mk_setitem(ot, k, new))

    def ex_attr(self, o, name, n):
        return self.snap(self.getattr(o, name, n))

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            fr = self.stack[-1]
            if t.id in fr.globals:
                self.ev("globalwrite", s, name=t.id, val=self.snap(v))
                return
            fr.env[t.id] = v
            self.ev("assign", s, name=t.id, val=v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            tv = self.snap(v)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.alloc(mk("call", "builtins.list", idx(tv, mk("slice", const(i), NONE, NONE)))), s)
                else:
                    k = i if not star or i < star[0] else i - n
                    x = idx(tv, const(k))
                    self.settype_idx(tv, x)
                    self.assign(e, x, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.set_attr(o, t.attr, v, s, t.value)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.ex(t.slice)
            ot = self.snap(o)
            self.ev("mutate", s, obj=ot, how="[]=", ref=o.loc if type(o) is Ref else None, key=k, val=self.snap(v))
            self.store(t.value, o, ot, self.mk_setitem(ot, k, self.snap(v)))

    def store(self, path, o, old, new):
        """Record that the object o (term old) now has content new."""
        if type(o) is Ref:
            self.heap[o.loc] = new
            return
        # non-heap value: update the access path that led to it
        fr = self.stack[-1]
        if isinstance(path, ast.Name):
            for n, v in list(fr.env.items()):
                if v is old:
                    fr.env[n] = new
            if path.id not in fr.env:
                f = fr.parent
                while f is not None:
                    if path.id in f.env:
                        f.env[path.id] = new
                        break
                    f = f.parent
        elif isinstance(path, ast.Attribute):
            if path.attr in ("loc", "iloc", "at", "iat", "values", "flat", "T"):
                b = self.eval_quiet(path.value)
                bt = self.snap(b)
                nb = mk("setitem", bt, mk("tuple", const("." + path.attr), new.a[1] if new.op == "setitem" else NONE),
                        new.a[2] if new.op == "setitem" else new)
                self.store(path.value, b, bt, nb)
            else:
                b = self.eval_quiet(path.value)
                if type(b) is Ref and type(self.heap[b.loc]) is Inst:
                    c = self.heap[b.loc]
                    fs = dict(c.fields)
                    fs[path.attr] = new
                    self.heap[b.loc] = Inst(c.cls, fs, c.tag)
                else:
                    bt = self.snap(b)
                    self.store(path.value, b, bt, mk("setattr", bt, path.attr, new))
        elif isinstance(path, ast.Subscript):
            b = self.eval_quiet(path.value)
            k = self.snap(self.eval_quiet(path.slice))
            bt = self.snap(b)
            self.store(path.value, b, bt, self.mk_setitem(bt, k, new))

    def eval_quiet(self, n):
        ne = len(self.events)
        v = self.eval(n)
        del self.events[ne:]
        return v

    def set_attr(self, o, name, v, s, path):
        if type(o) is Ref and type(self.heap[o.loc]) is Inst:
            c = self.heap[o.loc]
            old = c.fields.get(name)
            self.ev("selfwrite", s, inst=o.loc, cls=c.cls.qual, tag=c.tag, name=name, val=self.snap(v), raw=v,
                    old=self.snap(old) if old is not None else None)
            fs = dict(c.fields)
            fs[name] = v
            self.heap[o.loc] = Inst(c.cls, fs, c.tag)
            return
        t = self.snap(o)
        self.ev("mutate", s, obj=t, how=".%s=" % name, ref=o.loc if type(o) is Ref else None, key=const(name), val=self.snap(v))
        self.store(path, o, t, mk("setattr", t, name, self.snap(v)))

    def s_If(self, s):
        c = self.ex(s.test)
        tv = truth(c)
        if tv is True:
            return self.block(s.body)
        if tv is False:
            return self.block(s.orelse)
        # known from the path condition?
        for p, b, as_ in self.pc:
            if p is c:
                return self.block(s.body if b else s.orelse)
            if c.op == "not" and p is c.a[0]:
                return self.block(s.orelse if b else s.body)
        self.ev("branch", s, cond=c)
        pc0 = len(self.pc)
        s0 = self.save()
        x0 = self.exits()
        self.pc.append((c, True, False))
        narrowed = self.narrow_types(c)
        a1 = self.block(s.body)
        for t in narrowed:
            self.types.pop(t, None)
        s1 = self.save() if a1 else None
        d1 = self.pc[pc0 + 1:]
        del self.pc[pc0:]
        x1 = self.exits()
        self.restore(s0)
        self.pc.append((c, False, False))
        a2 = self.block(s.orelse)
        s2 = self.save() if a2 else None
        d2 = self.pc[pc0 + 1:]
        del self.pc[pc0:]
        x2 = self.exits()
        if s1 is None and s2 is None:
            return False
        self.restore(self.merge(c, s1, s2))
        if s1 is None:
            self.pc.append((c, False, x1 == x0))
            self.pc.extend(d2)
        elif s2 is None:
            self.pc.append((c, True, x2 == x1))
            self.pc.extend(d1)
        else:
            # what held at the end of one branch still holds when that branch was taken
            for lit, d in ((c, d1), (neg(c), d2)):
                for p, b, as_ in d:
                    self.pc.append((conj([lit, neg(p) if b else p]), False, as_))
        return True

    def exits(self):
        fr = self.stack[-1]
        return len(fr.rets) + sum(len(L["cont"]) + len(L["brk"]) for L in fr.loops)

    def narrow_types(self, c):
        out = []
        for x in (c.a if c.op == "and" else (c,)):
            if type(x) is T and x.op == "isinstance" and x.a[1].op == "cls" and x.a[0] not in self.types:
                k = self.clsobj(x.a[1].a[0])
                if k is not None:
                    self.types[x.a[0]] = k
                    out.append(x.a[0])
        return out

    # loops ---------------------------------------------------------------
    def s_For(self, s):
        it = self.ex(s.iter)
        seq = self.literal_seq(it)
        hasbreak = any(isinstance(x, ast.Break) for x in ast.walk(s))
        if seq is not None and len(seq) <= 12 and not hasbreak:
            pc0 = len(self.pc)
            for v in seq:
                self.assign(s.target, v, s)
                fr = self.stack[-1]
                fr.loops.append({"cont": [], "brk": [], "base": len(self.pc)})
                alive = self.block(s.body)
                L = fr.loops.pop()
                st = self.save() if alive else None
                for pcs, e in reversed(L["cont"]):
                    c = conj([p if b else neg(p) for p, b, as_ in pcs if not as_])
                    st = self.merge(c, e, st)
                if st is None:
                    return False
                del self.pc[pc0:]
                self.restore(st)
            if s.orelse:
                return self.block(s.orelse)
            return True
        return self.loop(s, it, s.target)

    s_AsyncFor = s_For

    def s_While(self, s):
        return self.loop(s, None, None)

    def loop(self, s, it, target):
        fr = self.stack[-1]
        names = _stored_names(s.body)
        if target is not None:
            tn = _stored_names([ast.Assign(targets=[target], value=ast.Constant(0))])
        else:
            tn = set()
            names |= _stored_names([ast.Expr(s.test)])
        mnames, mattrs = _mut_names(s.body)
        s0 = self.save()
        locs = set()
        for nme in mnames:
            v = fr.env.get(nme)
            if type(v) is Ref and type(self.heap[v.loc]) is T:
                locs.add(v.loc)
            elif type(v) is T and v.op not in ("glob", "mod", "cls", "func", "undef"):
                if any(True for x in (nme,)):
                    names.add(nme)
        ifields = set()
        for nme, at in mattrs:
            v = fr.env.get(nme)
            if type(v) is Ref and type(self.heap[v.loc]) is Inst:
                c = self.heap[v.loc]
                x = c.fields.get(at)
                if type(x) is Ref:
                    if type(self.heap[x.loc]) is T:
                        locs.add(x.loc)
                elif x is not None:
                    ifields.add((v.loc, at))
        pc0 = len(self.pc)
        mark = len(self.events)
        for attempt in range(4):
            del self.events[mark:]
            self.restore(s0)
            mus = []
            depth = self.depth(it) if target is not None else 0
            fr = self.stack[-1]
            for nme in sorted(names):
                v = fr.env.get(nme)
                if v is None:
                    continue
                t = self.snap(v)
                if type(v) is Ref and type(self.heap[v.loc]) is Inst:
                    continue
                m = new_mu(t, it, depth)
                if t in self.types:
                    self.types[m] = self.types[t]
                if ("elem", t) in self.types:
                    self.types[("elem", m)] = self.types[("elem", t)]
                if type(v) is Ref:
                    self.nloc += 1
                    self.heap[self.nloc] = m
                    fr.env[nme] = Ref(self.nloc)
                else:
                    fr.env[nme] = m
                mus.append(("n", nme, m))
            for loc in sorted(locs):
                m = new_mu(self.heap[loc], it, depth)
                self.heap[loc] = m
                mus.append(("l", loc, m))
            for loc, at in sorted(ifields):
                c = self.heap[loc]
                m = new_mu(self.snap(c.fields[at]), it, depth)
                fs = dict(c.fields)
                fs[at] = m
                self.heap[loc] = Inst(c.cls, fs, c.tag)
                mus.append(("f", (loc, at), m))
            before = dict(self.heap)
            benv = dict(fr.env)
            fr.loops.append({"cont": [], "brk": [], "base": len(self.pc)})
            L = fr.loops[-1]
            condt = None
            if target is not None:
                d = depth
                self.pushloop(it)
                self.pc.append((mk("iter", it), True, False))
                self.bind_elem(target, it, d, s)
            else:
                condt = self.ex(s.test)
                self.pushloop(condt)
                self.pc.append((condt, True, False))
            L["base"] = len(self.pc)
            hbase = dict(self.heap)
            dead = condt is not None and truth(condt) is False
            alive = False if dead else self.block(s.body)
            self.poploop()
            st = self.save() if alive else None
            fr.loops.pop()
            for pcs, e in reversed(L["cont"]):
                c = conj([p if b else neg(p) for p, b, as_ in pcs if not as_])
                st = self.merge(c, e, st)
            del self.pc[pc0:]
            # newly changed heap cells?
            grow = False
            for cand in [st] + [e for _, e in L["brk"]]:
                if cand is None:
                    continue
                for loc, x in cand[1].items():
                    y = before.get(loc)
                    if y is None or y is x:
                        continue
                    if type(x) is T and type(y) is T:
                        if loc not in locs and loc in s0[1]:
                            locs.add(loc)
                            grow = True
                    elif type(x) is Inst and type(y) is Inst:
                        for k, v in x.fields.items():
                            if y.fields.get(k) is not v and (loc, k) not in ifields and loc in s0[1]:
                                ov = y.fields.get(k)
                                if ov is not None and not (type(ov) is Ref and type(v) is Ref and ov.loc == v.loc):
                                    ifields.add((loc, k))
                                    grow = True
            if not grow or attempt == 3:
                break
        # close the mus
        for kind, k, m in mus:
            if condt is not None:
                m.cond = condt
            if st is None:
                m.next = None
                continue
            env2, heap2 = st
            if kind == "n":
                v = env2.get(k)
                m.next = self._snap_in(v, heap2) if v is not None else UNDEF
            elif kind == "l":
                m.next = heap2[k] if type(heap2[k]) is T else None
            else:
                v = heap2[k[0]].fields.get(k[1])
                m.next = self._snap_in(v, heap2) if v is not None else UNDEF
        # exit state: loop ran to completion
        itc = mk("iter", it) if it is not None else condt
        env3 = dict(benv)
        heap3 = dict(before)
        if it is not None and not L["brk"]:
            for kind, k, m in mus:
                f = filtered(m, it, {x for _, _, x in mus})
                if f is not None:
                    if kind == "l" and heap3.get(k) is m:
                        heap3[k] = f
                    elif kind == "n" and type(env3.get(k)) is Ref and heap3.get(env3[k].loc) is m:
                        heap3[env3[k].loc] = f
        if st is not None:
            for nme, v in st[0].items():
                if nme not in env3:
                    env3[nme] = ite(mk("ran", itc), self._snap_in(v, st[1]), UNDEF)
                elif nme in tn:
                    env3[nme] = ite(mk("ran", itc), self._snap_in(v, st[1]), self.snap_or(s0[0].get(nme), s0[1]))
            for loc, x in st[1].items():
                if loc not in heap3:
                    heap3[loc] = x
                elif type(x) is Inst and type(heap3[loc]) is Inst and x is not heap3[loc]:
                    y = heap3[loc]
                    newf = {k: ite(mk("ran", itc), self._snap_in(v, st[1]), UNDEF) for k, v in x.fields.items()
                            if k not in y.fields}
                    if newf:
                        fs = dict(y.fields)
                        fs.update(newf)
                        heap3[loc] = Inst(y.cls, fs, y.tag)
        out = (env3, heap3)
        if target is None and truth(condt) is True:
            out = None
        if s.orelse and out is not None:
            self.restore(out)
            if self.block(s.orelse):
                out = self.save()
            else:
                out = None
            del self.pc[pc0:]
        for pcs, e in L["brk"]:
            c = conj([p if b else neg(p) for p, b, as_ in pcs if not as_])
            out = self.merge(mk("broke", c), e, out)
        if out is None:
            return False
        self.restore(out)
        return True

    def snap_or(self, v, h):
        return UNDEF if v is None else self._snap_in(v, h)

    def s_Break(self, s):
        fr = self.stack[-1]
        if fr.loops:
            L = fr.loops[-1]
            L["brk"].append((tuple(self.pc[L["base"]:]), self.save()))
        return False

    def s_Continue(self, s):
        fr = self.stack[-1]
        if fr.loops:
            L = fr.loops[-1]
            self.ev("continue", s)
            L["cont"].append((tuple(self.pc[L["base"]:]), self.save()))
        return False

    # exceptions ------------------------------------------------------------
    def s_Try(self, s):
        types = []
        for h in s.handlers:
            types.append(ast.unparse(h.type) if h.type is not None else "<bare>")
        pc0 = len(self.pc)
        s0 = self.save()
        self.tries.append(tuple((t, _handler_reraises(h)) for t, h in zip(types, s.handlers)))
        self.ntry += 1
        tid = self.ntry
        self.tryids.append(tid)
        a = self.block(s.body)
        self.tries.pop()
        self.tryids.pop()
        if a and s.orelse:
            a = self.block(s.orelse)
        s1 = self.save() if a else None
        del self.pc[pc0:]
        outs = []
        for h, ty in zip(s.handlers, types):
            self.siteno += 1
            c = mk("exc", ty, "%s:%s" % (self.stack[-1].fn.qual if self.stack[-1].fn else "", ast.unparse(s.body[0])[:60]))
            st = s0
            if s1 is not None:
                st = self.merge(mk("excpart", c), s1, s0)
            self.restore(st)
            self.pc.append((c, True, False))
            if h.name:
                self.stack[-1].env[h.name] = mk("excval", ty)
            hev = self.ev("handler", h, types=ty, hnode=h, tid=tid)
            x0 = self.exits()
            ha = self.block(h.body)
            hev.d["swallows"] = bool(ha) or self.exits() > x0
            outs.append((c, self.save() if ha else None))
            del self.pc[pc0:]
        out = s1
        for c, st in outs:
            if st is not None:
                out = self.merge(c, st, out)
        if out is None:
            if s.finalbody:
                self.restore(s0)
                self.block(s.finalbody)
            return False
        self.restore(out)
        if s.finalbody:
            return self.block(s.finalbody)
        return True

    def s_With(self, s):
        n = 0
        for i in s.items:
            v = self.eval(i.context_expr)
            t = self.snap(v)
            self.ev("with", s, ctx=t)
            self.withs.append(t)
            n += 1
            if i.optional_vars is not None:
                self.assign(i.optional_vars, mk("enter", t) if t.op != "new" else v, s)
        r = self.block(s.body)
        for _ in range(n):
            self.withs.pop()
        return r


NAN = mk("c", "float", "nan", float("nan"))


def _handler_reraises(h):
    """True when every path through the handler re-raises (syntactic: last statement raises)."""
    return bool(h.body) and isinstance(h.body[-1], ast.Raise)
