"""C04: the caller's seed determines every random draw."""
from ..terms import *

SEEDS = {"seed", "random_state"}
MAKERS = {"numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.SeedSequence", "numpy.random.PCG64",
          "numpy.random.MT19937", "numpy.random.Philox", "numpy.random.SFC64", "random.Random"}
WRAP = {"numpy.random.Generator"}
DRAWS = {"choice", "normal", "integers", "permutation", "uniform", "standard_normal", "random", "shuffle", "permuted",
         "binomial", "poisson", "exponential", "randint", "spawn", "bytes", "multivariate_normal", "rand", "randn"}
IMPURE = {"builtins.id", "builtins.hash", "os.urandom", "os.getpid", "uuid.uuid4", "uuid.uuid1", "time.time",
          "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.process_time",
          "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.now", "datetime.datetime.today",
          "datetime.date.today", "pandas.Timestamp.now", "threading.get_ident", "os.times",
          "concurrent.futures.as_completed"}
NREP = ("n_boot", "n_sim", "n_perm", "n_rep", "n_draw", "n_iter")
RUST_SEEDED = {"_rust_bootstrap_weights": "seed", "_rust_bootstrap_trop_variance": "seed",
               "_rust_bootstrap_trop_variance_joint": "seed", "_rust_loocv_grid_search": "seed",
               "_rust_loocv_grid_search_joint": "seed"}


def seed_leaf(x):
    if x.op in ("param", "cfg"):
        return x.a[0].split(".")[-1] in SEEDS
    if x.op == "idx":
        return is_str(x.a[1]) and cval(x.a[1]) in SEEDS
    if x.op == "m" and x.a[1] in ("get", "pop") and len(x.a) > 2:
        return is_str(x.a[2]) and cval(x.a[2]) in SEEDS
    return False


def is_draw(x):
    return x.op == "m" and x.a[1] in DRAWS and any(y.op == "call" and (y.a[0] in MAKERS or y.a[0] in WRAP)
                                                   for y in reach(x.a[0], control=False))


def leaves(t):
    """Value leaves of a seed expression (through conditionals and arithmetic)."""
    if t.op == "ite":
        return leaves(t.a[1]) + leaves(t.a[2])
    if t.op in ("or", "and"):
        return [l for x in t.a for l in leaves(x)]
    if t.op == "mu":
        return leaves(t.init)
    return [t]


def truthy_seed(t):
    """A seed expression that treats seed 0 like no seed."""
    for x in reach(t, control=False):
        if x.op == "ite" and seed_leaf(x.a[0]):
            return True
        if x.op in ("or", "and") and any(seed_leaf(y) for y in x.a[:-1]):
            return True
    return False


def given(t, memo=None):
    """The seed expression when every seed option is given (not None)."""
    def cond(x):
        if x.op == "is" and NONE in x.a and any(seed_leaf(y) for y in x.a):
            return False
        if x.op == "not":
            v = cond(x.a[0])
            return None if v is None else not v
        if x.op == "and":
            vs = [cond(y) for y in x.a]
            return False if False in vs else True if all(v is True for v in vs) else None
        if x.op == "or":
            vs = [cond(y) for y in x.a]
            return True if True in vs else False if all(v is False for v in vs) else None
        if x.op == "in" and is_str(x.a[0]) and cval(x.a[0]) in SEEDS:
            return True
        if x.op == "ite":
            v = cond(x.a[0])
            vs = [cond(x.a[1]), cond(x.a[2])]
            return cond(x.a[1] if v else x.a[2]) if v is not None else vs[0] if vs[0] == vs[1] else None
        return truth(x)
    if t.op == "ite":
        v = cond(t.a[0])
        if v is not None:
            return given(t.a[1] if v else t.a[2])
        return given(t.a[1]) + given(t.a[2])
    if t.op == "or":
        return [l for x in t.a[:-1] for l in given(x) if l is not NONE] + given(t.a[-1])
    if t.op == "mu":
        return given(t.init) + (given(t.next) if t.next is not None and t.next.op != "mu" else [])
    return [t]


def run(S, c):
    c.rule("Rule 1: no function reachable from the public API calls numpy's or Python's global generator, the clock, "
           "object ids, hash() or another process-dependent source. Rule 2: every generator constructed in a call that has "
           "a seed option is constructed from that option (or from a draw of such a generator) without dropping seed 0; "
           "in a call without one, from a constant. Rule 3: inside a replication loop, generators depend on the replication. "
           "Rule 4: seeds handed to the compiled backend follow rule 2.")
    c.assumptions = ["a numpy Generator's stream is a function of its seed"]
    for n, fn, cls, r in S.all():
        opts = [p for p in list(r.params) + list(r.conf) if p in SEEDS]
        spill = bool(fn.kwarg)
        for e in r.events:
            if e.kind == "call":
                f = e.d["fn"]
                args = e.d["args"]
                if f in MAKERS:
                    c.ob("generators constructed", (e.fn, e.line))
                    c.ob("entry points drawing", n)
                    if args and args[0].op == "kw" and args[0].a[0] == "seed":
                        args = [args[0].a[1]]
                    check_seed(c, n, e, args[0] if args else NONE, bool(opts), spill, f)
                    check_loop(c, n, e, args[0] if args else NONE)
                elif f in WRAP:
                    pass
                elif f.startswith("numpy.random.") or f.startswith("random.") or f.startswith("secrets.") \
                        or f.startswith("scipy.stats.") and f.endswith(".rvs"):
                    c.find("global:%s:%s" % (e.fn, f), "%s uses the process-wide generator (%s)" % (e.fn, f), e)
                elif f in IMPURE:
                    if e.fn.startswith("diff_diff.datasets.") and "hash" not in f:
                        continue
                    c.find("impure:%s:%s" % (e.fn, f), "%s calls %s: the result may depend on the process, not the seed" % (e.fn, f), e)
                elif f.rsplit(".", 1)[-1] in RUST_SEEDED:
                    s = rust_seed(args)
                    c.ob("backend seeds", (e.fn, f))
                    if s is not None:
                        check_seed(c, n, e, s, bool(opts), spill, f, rust=True)
            elif e.kind == "mcall":
                if e.d["name"] in ("sample",) and not (e.d["recv"].op == "call" and str(e.d["recv"].a[0]).startswith(("random.", "numpy.random."))):
                    rs = [x for x in e.d["args"] if x.op == "kw" and x.a[0] == "random_state"]
                    if not rs:
                        c.find("sample:%s" % e.fn, "%s draws a pandas sample without random_state" % e.fn, e)
                    else:
                        c.ob("generators constructed", (e.fn, e.line))
                        check_seed(c, n, e, rs[0].a[1], bool(opts), spill, "sample")
                if is_draw_recv(e.d["recv"]) and e.d["name"] in DRAWS:
                    c.ob("draw sites", (e.fn, e.line, e.d["name"]))
    c.floor("generators constructed", 10)
    c.floor("draw sites", 14)


def is_draw_recv(t):
    return any(x.op == "call" and (x.a[0] in MAKERS or x.a[0] in WRAP) for x in [t] + list(data_children(t)))


def rust_seed(args):
    # the seed is the last positional or a keyword
    for a in args:
        if a.op == "kw" and a.a[0] == "seed":
            return a.a[1]
    for a in args:
        for x in leaves(a):
            if seed_leaf(x) or is_draw(x):
                return a
    return NONE if args else None


def check_seed(c, n, e, s, has_opt, spill, f, rust=False):
    ls = leaves(s)
    ok = False
    for l in ls:
        sub = reach(l, control=False)
        if any(seed_leaf(x) for x in sub) or any(is_draw(x) for x in sub):
            ok = True
    key = "%s:%s" % (e.fn, f.rsplit(".", 1)[-1])
    if has_opt or (spill and not all(is_const(l) for l in ls)):
        if not ok:
            if any(x.op in ("stale", "glob", "mu", "vcall", "icall") for x in reach(s)) and not is_const(s):
                c.undecide("%s: seed %s" % (n, show(s, 3)))
                if not any(x.op == "stale" for x in reach(s)):
                    return
            c.find("unseeded:" + key, "%s: %s builds a generator from %s instead of the caller's seed" % (n, e.fn, show(s, 3)), e)
        elif any(l is NONE for l in given(s)):
            c.find("unseeded:" + key, "%s: %s drops the caller's seed on some path (%s)" % (n, e.fn, show(s, 4)), e)
        elif truthy_seed(s):
            c.find("seed0:" + key, "%s: %s treats seed=0 as if no seed were given (%s)" % (n, e.fn, show(s, 4)), e)
    elif not spill:
        if all(is_const(l) for l in ls):
            if any(cval(l) is None for l in ls):
                c.find("unseeded:" + key, "%s: %s builds an unseeded generator and offers no seed" % (n, e.fn), e)
        elif not ok:
            c.undecide("%s: seed %s" % (n, show(s, 3)))


def check_loop(c, n, e, s):
    """Within a loop over replications the generator must depend on the replication."""
    for it, (lf, dep) in zip(e.loops, e.loopfn):
        if not (lf == e.fn or e.mod.name.endswith("prep_dgp")):
            continue      # a nested estimator reseeding its own inner bootstrap is a separate stream
        if it.op == "call" and it.a[0] in ("builtins.range",):
            cnt = it.a[-1]
            nm = [x.a[0] for x in reach(cnt, control=False) if x.op in ("param", "cfg")]
            nm = [x.split(".")[-1] for x in nm] + [cval(x) for x in reach(cnt, control=False) if is_str(x)]
            if not any(str(x).startswith(NREP) for x in nm):
                continue
            c.ob("generators in replication loops", (n, e.fn))
            dep = any((x.op == "elem" and x.a[0] is it) or is_draw(x) or (x.op == "mu" and x.cond is it)
                      for x in reach(s, control=False))
            if not dep:
                c.find("loop:%s" % e.fn, "%s: the generator made in %s for each replication does not depend on the replication, "
                       "so all replications draw the same numbers" % (n, e.fn), e)
