"""Loads /repo/diff_diff into symbol tables: modules, functions, classes, imports."""
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "diff_diff"


class Fn:
    def __init__(self, mod, node, qual, cls=None, outer=None):
        self.mod, self.node, self.qual, self.cls, self.outer = mod, node, qual, cls, outer
        self.name = getattr(node, "name", "<lambda>")
        self.decos = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for n, d in zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.ann = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                self.ann[x.arg] = x.annotation

    @property
    def params(self):
        return self.pos + self.kwonly

    def isdeco(self, n):
        return any(d == n or d.startswith(n + "(") for d in self.decos)


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = mod.name + "." + node.name
        self.bases = [ast.unparse(b) for b in node.bases]
        self.methods = {}
        self.dataclass = any(ast.unparse(d).split("(")[0].split(".")[-1] == "dataclass" for d in node.decorator_list)
        self.fields = []      # dataclass fields: (name, annotation node, default node)
        self.classvars = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(ast.unparse(d).endswith(".setter") for d in s.decorator_list):
                    continue
                self.methods[s.name] = Fn(mod, s, self.qual + "." + s.name, cls=self)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields.append((s.target.id, s.annotation, s.value))
                if s.value is not None and not self.dataclass:
                    self.classvars[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.classvars[t.id] = s.value


class Mod:
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.tree = ast.parse(src, path)
        self.src = src
        self.imports = {}    # local name -> dotted
        self.funcs, self.classes, self.assigns = {}, {}, {}
        self.nassign = {}
        self.pkg = name if os.path.basename(path) == "__init__.py" else name.rsplit(".", 1)[0]
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                add_import(s, self.imports, self.pkg)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Fn(self, s, self.name + "." + s.name)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(self, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
                        self.nassign[t.id] = self.nassign.get(t.id, 0) + 1
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    self.assigns[s.target.id] = s.value
                    self.nassign[s.target.id] = self.nassign.get(s.target.id, 0) + 1
            elif isinstance(s, ast.If):
                if ast.unparse(s.test).endswith("TYPE_CHECKING"):
                    self._scan(s.body)
                    continue
                self._scan(s.body)
                self._scan(s.orelse)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                for h in s.handlers:
                    self._scan(h.body)
                self._scan(s.orelse)
                self._scan(s.finalbody)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                self._scan(s.body)


def add_import(s, table, pkg):
    if isinstance(s, ast.Import):
        for n in s.names:
            if n.asname:
                table[n.asname] = n.name
            else:
                table[n.name.split(".")[0]] = n.name.split(".")[0]
    else:
        base = s.module or ""
        if s.level:
            parts = pkg.split(".")
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for n in s.names:
            table[n.asname or n.name] = base + "." + n.name


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        root = os.path.join(self.repo, PKG)
        for dp, dn, fn in sorted(os.walk(root)):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                with open(p, encoding="utf-8") as h:
                    self.mods[rel] = Mod(rel, p, h.read())
        self.byclass = {}
        for m in self.mods.values():
            for c in m.classes.values():
                self.byclass.setdefault(c.name, c)

    # dotted -> ('fn',Fn) ('cls',Cls) ('mod',Mod) ('var',Mod,name) ('ext',dotted)
    def resolve(self, dotted, seen=()):
        if dotted in self.mods:
            return ("mod", self.mods[dotted])
        if dotted in seen:
            return ("ext", dotted)
        if "." in dotted:
            b, n = dotted.rsplit(".", 1)
            m = self.mods.get(b)
            if m is not None:
                if n in m.funcs:
                    return ("fn", m.funcs[n])
                if n in m.classes:
                    return ("cls", m.classes[n])
                if n in m.assigns:
                    return ("var", m, n)
                if n in m.imports:
                    return self.resolve(m.imports[n], seen + (dotted,))
                return ("ext", dotted)
            r = self.resolve(b, seen + (dotted,))
            if r[0] == "cls" and n in r[1].methods:
                return ("fn", r[1].methods[n])
            if r[0] == "mod":
                return self.resolve(r[1].name + "." + n, seen + (dotted,))
        return ("ext", dotted)

    def bases(self, c):
        r = []
        for b in c.bases:
            x = self.lookup(c.mod, b)
            if x and x[0] == "cls":
                r.append(x[1])
        return r

    def lookup(self, mod, dotted):
        """Resolve a source-level dotted name within a module."""
        h, _, t = dotted.partition(".")
        if h in mod.funcs and not t:
            return ("fn", mod.funcs[h])
        if h in mod.classes:
            return ("cls", mod.classes[h]) if not t else None
        if h in mod.imports:
            return self.resolve(mod.imports[h] + ("." + t if t else ""))
        if h in mod.assigns:
            return ("var", mod, h)
        return None

    def mro(self, c):
        """Simplified C3 (sufficient for this package's mixins)."""
        seqs = [[c]]
        bs = self.bases(c)
        lin = [self.mro(b) for b in bs] + [list(bs)]
        out = [c]
        lin = [list(x) for x in lin if x]
        while lin:
            for s in lin:
                h = s[0]
                if not any(h in o[1:] for o in lin):
                    break
            else:
                h = lin[0][0]
            out.append(h)
            lin = [[x for x in s if x is not h] for s in lin]
            lin = [s for s in lin if s]
        return out

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def dcfields(self, c):
        out, seen = [], {}
        for k in reversed(self.mro(c)):
            if k.dataclass:
                for f in k.fields:
                    seen[f[0]] = (f, k)
        return list(seen.values())

    def exports(self):
        init = self.mods[PKG]
        v = init.assigns.get("__all__")
        names = [ast.literal_eval(e) for e in v.elts]
        return [(n, self.resolve(init.imports.get(n, PKG + "." + n))) for n in names]
