"""C07: file and network effects are confined to the dataset loaders and their cache folder."""
import ast
from ..terms import *

FILE_CALLS = {"builtins.open", "io.open", "os.open", "os.remove", "os.unlink", "os.rmdir", "os.removedirs", "os.rename",
              "os.replace", "os.mkdir", "os.makedirs", "os.symlink", "os.link", "os.chmod", "os.truncate",
              "shutil.rmtree", "shutil.copy", "shutil.copyfile", "shutil.move", "tempfile.mkdtemp", "tempfile.mkstemp",
              "tempfile.NamedTemporaryFile", "numpy.save", "numpy.savez", "numpy.savetxt", "pickle.dump",
              "matplotlib.pyplot.savefig", "json.dump", "numpy.load", "pickle.load", "pickle.loads", "pandas.read_pickle",
              "codecs.open", "numpy.memmap", "shelve.open", "sqlite3.connect"}
NET = ("urllib.", "requests.", "http.", "socket.", "ftplib.", "smtplib.", "httpx.", "aiohttp.")
EXEC = {"builtins.eval", "builtins.exec", "builtins.compile", "os.system", "os.popen", "builtins.__import__",
        "os.execv", "os.fork", "os.kill", "ctypes.CDLL", "importlib.import_module"}
EXECP = ("subprocess.", "multiprocessing.", "ctypes.")
WRITE_M = {"write_text", "write_bytes", "mkdir", "unlink", "rmdir", "touch", "symlink_to", "hardlink_to", "chmod",
           "to_csv", "to_pickle", "to_parquet", "to_excel", "to_hdf", "to_feather", "to_sql", "savefig", "to_stata",
           "tofile", "dump"}
READ_M = {"read_text", "read_bytes", "exists", "glob", "iterdir", "rglob", "is_file", "is_dir", "stat"}
PATH_ONLY = {"rename", "replace", "open"}
CACHE = [".cache", "diff_diff", "datasets"]


def parts(t):
    """Path components of a Path term, or None when it is not built from the user's home."""
    if t.op == "bin" and t.a[0] == "/":
        p = parts(t.a[1])
        return None if p is None else p + [t.a[2]]
    if t.op == "call" and t.a[0] == "pathlib.Path.home":
        return []
    if t.op == "call" and t.a[0] in ("pathlib.Path", "builtins.str") and len(t.a) == 2:
        return parts(t.a[1])
    if t.op == "m" and t.a[1] in ("joinpath",):
        p = parts(t.a[0])
        return None if p is None else p + list(t.a[2:])
    if t.op == "elem" and t.a[0].op == "m" and t.a[0].a[1] == "glob":
        p = parts(t.a[0].a[0])
        if p is not None and "/" not in str(cval(t.a[0].a[2]) if is_const(t.a[0].a[2]) else "/") and ".." not in show(t.a[0].a[2]):
            return p + [t]
        return None
    if t.op == "elem" and t.a[0].op == "m" and t.a[0].a[1] == "iterdir":
        p = parts(t.a[0].a[0])
        return None if p is None else p + [t]
    if t.op == "elem" and t.a[0].op == "call" and t.a[0].a[0] in ("builtins.list", "builtins.sorted"):
        return parts(mk("elem", t.a[0].a[1], *t.a[1:]))
    if t.op == "ite":
        a, b = parts(t.a[1]), parts(t.a[2])
        return a if a is not None and b is not None and in_cache(t.a[1]) and in_cache(t.a[2]) else None
    if t.op == "attr" and t.a[1] == "parent":
        p = parts(t.a[0])
        return p[:-1] if p else None
    if t.op == "m" and t.a[1] == "with_name" and len(t.a) > 2:
        p = parts(t.a[0])
        return p[:-1] + [t.a[2]] if p else None
    if t.op == "m" and t.a[1] in ("with_suffix", "resolve", "expanduser", "absolute"):
        return parts(t.a[0])
    return None


def in_cache(t, strict=True):
    p = parts(t)
    if p is None or len(p) < 3:
        return False
    for want, x in zip(CACHE, p):
        if not (is_const(x) and cval(x) == want):
            return False
    for x in p[3:]:
        if is_const(x):
            s = str(cval(x))
            if ".." in s or s.startswith("/"):
                return False
        elif x.op == "elem":
            pass
        elif any(y.op in ("param", "cfg") for y in reach(x)):
            return None
    return True


def pathish(t):
    if parts(t) is not None or t.op == "call" and t.a[0].startswith("pathlib."):
        return True
    if t.op == "bin":
        return t.a[0] == "/" and pathish(t.a[1])
    if t.op == "m":
        return t.a[1] in ("with_suffix", "with_name", "joinpath", "resolve", "absolute", "glob", "iterdir") and pathish(t.a[0])
    if t.op in ("elem", "attr"):
        return pathish(t.a[0]) and (t.op == "elem" or t.a[1] in ("parent",))
    if t.op == "ite":
        return pathish(t.a[1]) or pathish(t.a[2])
    return False


def run(S, c):
    c.rule("Rule: outside the dataset loaders no reachable function opens, writes, deletes or renames files, opens network "
           "connections, or runs code or processes; inside them every path written or deleted has the form "
           "~/.cache/diff_diff/datasets/<file> with a file name that no caller-supplied text can point elsewhere, downloads "
           "go to constant https URLs, a cached file is used without network unless a forced download is asked for, and a "
           "forced download never returns the cache before trying the network.")
    urls, files = {}, {}
    for n, fn, cls, r in S.all():
        c.ob("public entry points", n)
        if n.startswith("load_") and n not in ("load_dataset",):
            us = [e.d["args"][0] for e in r.events if e.kind == "call" and e.d["fn"].startswith(NET) and e.d["args"]]
            ps = [e.d["recv"] for e in r.events if e.kind == "mcall" and e.d["name"] in ("write_text", "read_text", "write_bytes", "read_bytes")]
            for u in us:
                for p in ps:
                    c.ob("cache names", (n, p.id))
                    if files.setdefault(p.id, u) is not u:
                        c.find("shared:%s" % n, "%s keeps its download in a cache file another dataset uses (%s)" % (n, show(p, 6)),
                               where=n)
            rd = {e.d["recv"].id for e in r.events if e.kind == "mcall" and e.d["name"] in ("read_text", "read_bytes")}
            moved = {e.d["recv"].id: e.d["args"][0].id for e in r.events if e.kind == "mcall" and e.d["name"] in ("replace", "rename") and e.d["args"]}
            moved.update({e.d["args"][0].id: e.d["args"][1].id for e in r.events if e.kind == "call" and len(e.d["args"]) > 1
                          and e.d["fn"] in ("os.replace", "os.rename", "shutil.move")})
            for p in ps:
                if p.id not in rd and moved.get(p.id) not in rd:
                    c.find("two:%s" % n, "%s reads and writes different cache files for one download (%s)" % (n, show(p, 6)), where=n)
            for e in r.events:
                if e.kind == "raise" and e.fn.startswith("diff_diff.datasets.") and e.d["exc"] is not None and "RuntimeError" in show(e.d["exc"], 2):
                    c.ob("offline fallbacks", n)
                    if not any("RuntimeError" in t or t in ("Exception", "BaseException", "<bare>") for tr in e.tries for t, _ in tr):
                        c.find("fallback:%s" % n, "%s fails instead of constructing the dataset when the download fails" % n, e)
        for e in r.events:
            ds = e.fn.startswith("diff_diff.datasets.")
            if e.kind == "call":
                f, args = e.d["fn"], e.d["args"]
                if f in EXEC or f.startswith(EXECP):
                    c.find("exec:%s:%s" % (e.fn, f), "%s runs code or a process through %s" % (e.fn, f), e)
                elif f in FILE_CALLS:
                    ok = ds and args and in_cache(args[0])
                    if ok and f in ("shutil.rmtree", "os.removedirs"):
                        deletions(c, n, e)
                    c.ob("file operations", (e.fn, f))
                    if not ok:
                        c.find("file:%s:%s" % (e.fn, f), "%s touches files outside the dataset cache through %s(%s)" % (
                            e.fn, f, show(args[0], 4) if args else ""), e)
                elif f.startswith(NET):
                    c.ob("network calls", (e.fn, f))
                    if not ds:
                        c.find("net:%s:%s" % (e.fn, f), "%s opens a network connection through %s" % (e.fn, f), e)
                    elif "urlopen" in f or "urlretrieve" in f:
                        u = args[0] if args else NONE
                        if is_str(u):
                            if not cval(u).startswith("https://"):
                                c.find("url:%s" % e.fn, "%s downloads from a non-https address %s" % (n, cval(u)), e)
                        elif any(x.op in ("param", "cfg") for x in reach(u)):
                            c.find("url:%s" % e.fn, "%s: the address downloaded from depends on caller input" % n, e)
                        cached_first(c, n, e, r)
                        if n.startswith("load_"):
                            failures_handled(S, c, n, e)
                elif f.startswith("pandas.read_") and args:
                    c.ob("readers", (e.fn, f))
                    if not any(x.op == "call" and x.a[0] == "io.StringIO" for x in reach(args[0], control=False)):
                        c.find("read:%s:%s" % (e.fn, f), "%s reads %s directly" % (e.fn, show(args[0], 3)), e)
            elif e.kind == "mcall":
                m, recv = e.d["name"], e.d["recv"]
                if m in WRITE_M or m in PATH_ONLY and pathish(recv):
                    if m in ("to_csv", "to_json", "to_parquet") and not [a for a in e.d["args"] if a.op != "kw" or a.a[0] == "path_or_buf"]:
                        continue
                    c.ob("file operations", (e.fn, m))
                    k = in_cache(recv)
                    if ds and k and m in ("unlink", "rmdir"):
                        deletions(c, n, e)
                    if not ds or k is False:
                        c.find("file:%s:%s" % (e.fn, m), "%s.%s writes or deletes outside the dataset cache: %s" % (
                            e.fn, m, show(recv, 6)), e)
                    elif k is None:
                        c.find("file:%s:%s:name" % (e.fn, m), "%s.%s: caller-supplied text can point the path outside the dataset "
                               "cache: %s" % (e.fn, m, show(recv, 6)), e)
        if n.startswith("load_") and n != "load_dataset" or n == "_download_with_cache":
            whole_files(c, n, r)
        if n in ("clear_cache",):
            c.ob("cache clearing", n)
    c.floor("public entry points", 120)
    c.floor("file operations", 3)
    c.floor("network calls", 1)
    c.assumptions = ["pathlib/urllib semantics; the home folder is the user's own"]


def exc_names(S, mod, text, depth=0):
    """Last components of the exception names a handler's type expression stands for."""
    if text == "<bare>":
        return {"BaseException"}
    out = set()
    try:
        t = ast.parse(text, mode="eval").body
    except SyntaxError:
        return out
    for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
        if isinstance(x, ast.Starred):
            x = x.value
        if isinstance(x, ast.Attribute):
            out.add(x.attr)
        elif isinstance(x, ast.Name):
            M = S.P.mods.get(mod)
            v = None
            for st in (M.tree.body if M is not None else ()):
                if isinstance(st, ast.Assign) and any(isinstance(y, ast.Name) and y.id == x.id for y in st.targets):
                    v = st.value
            if v is not None and depth < 4:
                out |= exc_names(S, mod, ast.unparse(v), depth + 1)
            else:
                out.add(x.id)
        elif isinstance(x, ast.BinOp):
            out |= exc_names(S, mod, ast.unparse(x.left), depth + 1) | exc_names(S, mod, ast.unparse(x.right), depth + 1)
    return out


def failures_handled(S, c, n, e):
    """A download can fail while connecting or while reading; a handler around it must take every such failure."""
    c.ob("download handlers", (n, e.fn))
    got = set()
    for tr in e.tries:
        for text, _ in tr:
            got |= exc_names(S, "diff_diff.datasets", text)
    if got & {"Exception", "BaseException"}:
        return
    miss = []
    if not got & {"OSError", "IOError", "EnvironmentError"}:
        miss.append("OSError (connection failures, timeouts)")
    if "HTTPException" not in got:
        miss.append("http.client.HTTPException (connection dropped while reading)")
    if miss:
        c.find("unhandled:%s" % e.fn, "%s: a download failing with %s neither uses the cached copy nor the built-in data" % (
            n, " or ".join(miss)), e)


def deletions(c, n, e):
    """Inside the cache folder only the loaders' own files (.csv) may go."""
    if e.kind == "call":
        c.find("deletes:%s" % e.fn, "%s deletes %s as a whole" % (e.fn, show(e.d["args"][0], 4) if e.d["args"] else "a folder"), e)
        return
    p = e.d["recv"]
    c.ob("deletions", e.fn)
    t = p
    while t.op == "m" and t.a[1] in ("resolve", "absolute"):
        t = t.a[0]
    if t.op == "elem":
        src = t.a[0]
        while src.op == "call" and src.a[0] in ("builtins.list", "builtins.sorted", "builtins.tuple") and len(src.a) > 1:
            src = src.a[1]
        if src.op == "m" and src.a[1] == "glob" and len(src.a) > 2 and is_str(src.a[2]):
            if cval(src.a[2]).endswith(".csv"):
                return
        conds = [x for x, b, a in e.pc if type(x) is T]
        if any(is_str(y) and cval(y).endswith("csv") and any(z is t for z in reach(x)) for x in conds for y in reach(x)):
            return
        c.find("deletes:%s" % e.fn, "%s deletes files of the folder that are no cached data sets: %s" % (e.fn, show(p, 6)), e)


def writes(m, args):
    """open() mode of a Path.open / builtins.open call; None when it cannot write."""
    mode = next((a.a[1] for a in args if a.op == "kw" and a.a[0] == "mode"), None)
    pos = [a for a in args if a.op not in ("kw", "star", "dstar")]
    if mode is None and pos:
        mode = pos[0]
    if mode is None:
        return False
    return not is_str(mode) or any(x in cval(mode) for x in "wax+")


def leaves(t):
    if t.op == "ite":
        return leaves(t.a[1]) + leaves(t.a[2])
    return [t]


def whole_files(c, n, r):
    """The cache file appears complete or not at all, and what is returned is what was cached."""
    read = {e.d["recv"].id for e in r.events if e.kind == "mcall" and e.d["name"] in ("read_text", "read_bytes")}
    stored = set()
    for e in r.events:
        if not e.fn.startswith("diff_diff.datasets."):
            continue
        if e.kind == "mcall" and e.d["name"] == "open" and pathish(e.d["recv"]) and writes("open", e.d["args"]) and e.d["recv"].id in read:
            c.find("partial:%s" % e.fn, "%s opens the cache file itself for writing: a download that breaks off leaves a partly written file" % e.fn, e)
        elif e.kind == "call" and e.d["fn"] in ("builtins.open", "io.open") and e.d["args"] and e.d["args"][0].id in read and writes("open", e.d["args"][1:]):
            c.find("partial:%s" % e.fn, "%s opens the cache file itself for writing: a download that breaks off leaves a partly written file" % e.fn, e)
        elif e.kind == "call" and e.d["fn"] == "urllib.request.urlretrieve" and len(e.d["args"]) > 1 and e.d["args"][1].id in read:
            c.find("partial:%s" % e.fn, "%s downloads into the cache file itself" % e.fn, e)
        elif e.kind == "mcall" and e.d["name"] in ("write_text", "write_bytes") and e.d["args"]:
            if e.d["recv"].id in read:
                c.find("partial:%s" % e.fn, "%s writes the cache file itself: an interrupted write leaves a truncated file that later "
                       "calls return" % e.fn, e)
            stored.add(e.d["args"][0].id)
            c.ob("cache writes", e.fn)
            for x in reach(e.d["args"][0], control=False):
                if x.op == "m" and x.a[1] == "read" and len(x.a) > 2 and not (is_const(x.a[2]) and cval(x.a[2]) in (-1, None)):
                    c.find("truncated:%s" % e.fn, "%s caches only part of the download (%s)" % (e.fn, show(x, 4)), e)
            if e.loops:
                c.find("partial:%s" % e.fn, "%s writes the cache file piece by piece" % e.fn, e)
    if not stored:
        return
    for e in r.events:
        if e.kind == "call" and e.d["fn"] in ("io.StringIO", "io.BytesIO") and e.fn.startswith("diff_diff.datasets.") and e.d["args"]:
            c.ob("texts parsed", n)
            for x in leaves(e.d["args"][0]):
                if x.id in stored or x.op == "m" and x.a[1] in ("read_text", "read_bytes"):
                    continue
                if any(y.op == "m" and y.a[1] == "read" for y in reach(x, control=False)) and not any(y.id in stored for y in reach(x, control=False)):
                    c.find("differs:%s" % n, "%s parses %s, not the text it caches" % (n, show(x, 5)), e)


def cached_first(c, n, e, r):
    """The download happens exactly when forced or not cached."""
    c.ob("download guards", n)
    fd = mk("param", "force_download")
    conds = [(p, b) for p, b, a in e.pc if type(p) is T]
    has_exists = [x for p, b in conds for x in reach(p) if x.op == "m" and x.a[1] in ("exists", "is_file")]
    if not has_exists:
        c.find("cache-unused:%s" % n, "%s downloads without looking for a cached copy first" % n, e)
        return
    # evaluate the path condition with (cached, forced) = (True, False): must be False;  (True, True): must not be False
    for forced, cached, want in ((False, True, False), (True, True, True), (False, False, True)):
        v = True
        for p, b in conds:
            x = ev(p, fd, forced, cached)
            if x is None:
                continue
            if x != b:
                v = False
        if v != want:
            c.find("cache-guard:%s:%s:%s" % (n, forced, cached), "%s: with force_download=%s and %s copy the network is %s" % (
                n, forced, "a cached" if cached else "no cached", "used" if v else "not used"), e)


def ev(t, fd, forced, cached):
    if t is fd:
        return forced
    if t.op == "idx" or t.op == "ite":
        return None
    if t.op == "m" and t.a[1] in ("exists", "is_file"):
        return cached
    if t.op == "not":
        v = ev(t.a[0], fd, forced, cached)
        return None if v is None else not v
    if t.op in ("and", "or"):
        vs = [ev(x, fd, forced, cached) for x in t.a]
        if t.op == "and":
            return False if False in vs else (None if None in vs else True)
        return True if True in vs else (None if None in vs else False)
    if t.op == "eq" and (t.a[0] is fd or t.a[1] is fd):
        o = t.a[1] if t.a[0] is fd else t.a[0]
        return (cval(o) == forced) if is_const(o) else None
    if t.op == "is" and (t.a[0] is fd or t.a[1] is fd):
        o = t.a[1] if t.a[0] is fd else t.a[0]
        return (cval(o) is forced) if is_const(o) else None
    return None
