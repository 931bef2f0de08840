"""What a rule sees: the analysed program, and where it records obligations."""
import os, re
from collections import Counter
from engine import Program, Engine
class Stop(Exception): pass
BUILT = ("vercre_core", "vercre_dif_exch", "vercre_macros")

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.obs = []; self.stats = Counter(); self.samples = []
        self.functions = set(); self._progs = {}; self.undecided = None
    def program(self, *crates):
        """The dumped program of these crates.  A crate of the workspace build that does not type-check is a failure;
        one outside it (its dependencies are stand-ins here) leaves the property undecided, which is said and recorded."""
        for c in crates:
            e = self.bad.get(c.replace("_", "-"))
            if e and c not in BUILT:
                self.undecided = f"{c} does not type-check: {e[:600]}"; raise Stop
            if e:
                self.fail(f"build:{c}", "the analysed crate must type-check", c, e[:1200]); raise Stop
        if crates not in self._progs:
            p = Program(self.dump, set(crates))
            for c in crates:
                if c not in p.crates:
                    self.fail(f"build:{c}", "the analysed crate must be present", c, "no MIR was produced"); raise Stop
            self._progs[crates] = p
            self.stats["crates"] += len(crates)
            self.stats["bodies in scope"] += len(p.bodies)
        return self._progs[crates]
    def constants(self, prog, cap, where=None):
        """The integer constants up to `cap` in the bodies."""
        out = set()
        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "int":
                    if 0 <= int(x["v"]) <= cap: out.add(int(x["v"]))
                    return
                for y in x.values(): walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x: walk(y)
        for b in prog.bodies.values():
            if where is None or where(b): walk(b["blocks"])
        return sorted(out)
    def reach(self, prog, least, cap=300, where=None):
        """How large a template must be to pass every bound written in the program: two more than the largest
        integer constant up to `cap` found in the bodies, and at least `least`."""
        n = max(least, max(self.constants(prog, cap, where), default=0) + 2)
        self.stats["template size reached"] = max(self.stats["template size reached"], n)
        return n
    def words(self, prog, where=None, longest=48):
        """The short texts written in the program: a template that uses each of them reaches every case
        distinction the code makes on a particular text."""
        out = set()
        def walk(x):
            if isinstance(x, dict):
                if x.get("k") in ("str", "char") and isinstance(x.get("v"), str): out.add(x["v"]); return
                for y in x.values(): walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x: walk(y)
        for b in prog.bodies.values():
            if where is None or where(b): walk(b)
        out = sorted(w for w in out if w and len(w) <= longest and w.isprintable())
        self.stats["texts of the program used in templates"] = max(self.stats["texts of the program used in templates"], len(out))
        return out
    def engine(self, prog, **kw):
        e = Engine(prog, **kw)
        return e
    def analyse(self, eng, path, key=None, **kw):
        """Outcomes of an entry point; a missing entry point is a failed obligation."""
        n0 = eng.steps
        r = eng.analyse(path, **kw)
        if r is None:
            self.fail(f"anchor:{path if isinstance(path, str) else path['path']}", "the entry point must exist", str(path), "not found in the analysed program")
            return None
        self.stats["entry points"] += 1
        self.stats["outcomes"] += len(r)
        self.functions |= eng.inlined
        self.stats["program points visited"] += eng.steps - n0
        return r
    def ob(self, key, holds, rule, where, detail=""):
        self.obs.append({"key": re.sub(r"\s+", "_", key), "holds": bool(holds), "rule": rule, "where": str(where), "detail": str(detail)[:1500]})
        if len(self.samples) < 6 and holds: self.samples.append({"obligation": key, "rule": rule, "at": str(where)})
        return bool(holds)
    def fail(self, key, rule, where, detail=""): return self.ob(key, False, rule, where, detail)
    def floor(self, what, n, least):
        self.stats[what] += n
        self.ob(f"floor:{what}", n >= least, f"at least {least} {what} must be analysed", "checker", f"only {n}")
    def coverage(self, rule):
        d = {"explanation": rule.how, "analysed": dict(self.stats), "functions_analysed": len(self.functions), "samples": self.samples or ["none"]}
        return d
