#!/usr/bin/env python3
"""check.py <property id> — decides one property of /repo's current sources.

Exit 0: every obligation holds (or, with an UNDECIDED line, a crate that the repository's build leaves
out does not type-check, so that there is no program to decide).  Exit 1: a `VIOLATION property=<id> replay=<file>`
line per broken property, the broken obligations above it and in the file."""
import sys, os, time, json, re, traceback, pathlib, signal, resource
HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE / "lib")); sys.path.insert(0, str(HERE / "rules"))
sys.dont_write_bytecode = True
import pipeline
from ctx import Ctx, Stop
import registry

def known(pid):
    out = {}
    f = HERE / "known_findings.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            m = re.match(r"KNOWN property=(\S+) key=(\S+) :: (.*)$", l)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

class Exhausted(Exception): pass
def limits(seconds, gigabytes):
    """A check always answers: an analysis that outgrows these bounds has not reached a verdict."""
    def stop(*_): raise Exhausted(f"no verdict within {seconds} s")
    signal.signal(signal.SIGALRM, stop); signal.setitimer(signal.ITIMER_REAL, seconds, 5)
    resource.setrlimit(resource.RLIMIT_AS, (gigabytes << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rule = registry.PROPS[pid]
    ctx = Ctx(pid, tier)
    try:
        dump, bad = pipeline.prepare()
        ctx.dump, ctx.bad = dump, bad
        limits(*((480, 12) if tier == "quick" else (3000, 20)))
        rule.fn(ctx)
    except Stop: pass
    except pipeline.BuildError as e:
        ctx.fail("build", "the analysed crates must type-check", "/repo", str(e)[-1500:])
    except Exception as e:
        traceback.print_exc(limit=-8)
        ctx.fail("undecided", "the analysis must reach a verdict", pid, f"{type(e).__name__}: {e}")
    signal.setitimer(signal.ITIMER_REAL, 0)
    kn = known(pid)
    fails = [o for o in ctx.obs if not o["holds"]]
    new = [o for o in fails if o["key"] not in kn]
    old = [o for o in fails if o["key"] in kn]
    ev = pathlib.Path(os.environ.get("VERIF_EVIDENCE", HERE / "evidence")); ev.mkdir(exist_ok=True)
    cov = ctx.coverage(rule)
    cov["obligations"] = len(ctx.obs); cov["discharged"] = len(ctx.obs) - len(fails)
    if ctx.undecided: cov["undecided"] = ctx.undecided
    out = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
           "assumptions": rule.assumes, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    tmp = ev / f".{pid}.tmp"; tmp.write_text(json.dumps(out, indent=1)); tmp.replace(ev / f"{pid}.json")
    print(f"{pid}: {rule.title}")
    print(f"  analysed: " + ", ".join(f"{k}={v}" for k, v in sorted(ctx.stats.items())))
    print(f"  obligations: {len(ctx.obs)} checked, {len(ctx.obs) - len(fails)} hold")
    if ctx.undecided: print(f"UNDECIDED: property={pid} nothing is claimed about this tree: {ctx.undecided}")
    seen = set()
    for o in old:
        if o["key"] in seen: continue
        seen.add(o["key"])
        print(f"KNOWN-FINDING: property={pid} {o['key']} {kn[o['key']]}")
    if new:
        rp = ev / f"{pid}.violations.txt"
        with open(rp, "w") as f:
            for o in new:
                s = f"broken: {o['key']}\n  rule: {o['rule']}\n  at: {o['where']}\n  found: {o['detail']}\n"
                f.write(s); print(s, end="")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    sys.exit(0)
main()
