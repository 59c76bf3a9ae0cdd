"""Check framework: obligations, findings, known findings, evidence, exit codes."""
import json
import os
import sys
import time
from .terms import *
from .project import Project
from .entry import analyze, entries

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Suite:
    def __init__(self):
        self.P = Project()
        self.entries = entries(self.P)
        self._c = {}
        self.rust = None
        self._py = None

    def python(self):
        """The same project in the world where the compiled backend is absent."""
        if self._py is None:
            s = Suite.__new__(Suite)
            s.__dict__.update(self.__dict__)
            s._c, s.rust, s._py = {}, False, s
            self._py = s
        return self._py

    def names(self, pred=None):
        return [e for e in self.entries if pred is None or pred(e)]

    def find(self, name):
        for e in self.entries:
            if e[0] == name:
                return e
        return None

    def res(self, name, fixed=None, key=None, options=None):
        k = (name, key)
        if k not in self._c:
            e = self.find(name)
            if e is None:
                return None
            self._c[k] = analyze(self.P, e[1], e[2], fixed, options=options, rust=self.rust)
            self._c[k].name = name
        return self._c[k]

    def all(self, pred=None):
        for n, fn, c in self.entries:
            if pred is None or pred(n, fn, c):
                yield n, fn, c, self.res(n)


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.findings = {}
        self.obl = {}
        self.samples = []
        self.rules = []
        self.floors = {}
        self.assumptions = []
        self.notes = {}
        self.undecided = []

    def rule(self, text):
        self.rules.append(text)

    def ob(self, kind, what=None, n=1):
        s = self.obl.setdefault(kind, set())
        s.add(what if what is not None else len(s))

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    def undecide(self, what):
        if what not in self.undecided:
            self.undecided.append(what)

    def find(self, key, msg, ev=None, where=None, path=None):
        if key in self.findings:
            return
        w = where or (ev.where() if ev is not None else "")
        p = path or (ev.path() if ev is not None else "")
        self.findings[key] = (msg, w, p)

    def floor(self, kind, n):
        self.floors[kind] = n

    def finish(self):
        known = load_known().get(self.pid, {})
        counts = {k: len(v) for k, v in self.obl.items()}
        low = {k: (counts.get(k, 0), n) for k, n in self.floors.items() if counts.get(k, 0) < max(1, n // 4)}
        viol = {k: v for k, v in self.findings.items() if k not in known}
        old = {k: v for k, v in self.findings.items() if k in known}
        evdir = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        cov = {"explanation": "Static analysis of /repo's current source by the value-flow interpreter in /verif/sa. "
                              + " ".join(self.rules),
               "obligations_by_kind": counts, "undecided": self.undecided[:40],
               "undecided_count": len(self.undecided), "samples": self.samples,
               "known_findings_seen": sorted(old)}
        cov.update(self.notes)
        json.dump({"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
                   "level": "other", "coverage": cov, "assumptions": self.assumptions,
                   "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)},
                  open(os.path.join(evdir, self.pid + ".json"), "w"), indent=1)
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, known[k]))
        if viol:
            rp = os.path.join(evdir, self.pid + ".violations.txt")
            with open(rp, "w") as h:
                for k, (m, w, p) in sorted(viol.items()):
                    h.write("[%s] %s\n  at   %s\n  path %s\n" % (k, m, w, p))
            for k, (m, w, p) in sorted(viol.items()):
                print("[%s] %s\n  at   %s\n  path %s" % (k, m, w, p))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if low:
            print("ANALYSIS-BROKEN property=%s too few obligations %s" % (self.pid, low))
            return 2
        print("ok property=%s %s%s" % (self.pid, counts, " undecided=%d" % len(self.undecided) if self.undecided else ""))
        return 0


def load_known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("known: property="):
                pid, _, rest = l[len("known: property="):].partition(" ")
                key, _, text = rest.partition(" :: ")
                out.setdefault(pid, {})[key.strip()] = text.strip()
    return out
