"""Applies behaviour-preserving edits (tools/refactors.py) to scratch copies and runs the checks: all must stay quiet.
   refactor_run.py [name...]     Not used by any check."""
import os, subprocess, sys, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__))
names = sys.argv[1:]
MUT = "--mutants" in names
if MUT: names.remove("--mutants"); from mutants import MUTANTS as REFACTORS
else: from refactors import REFACTORS
NW = int(os.environ.get("J", "6"))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
import queue
slots = queue.Queue()
for i in range(NW): slots.put(i)
def setup(i):
    d = f"/tmp/rf/{i}"
    if not os.path.exists(d + "/work"):
        os.makedirs(d, exist_ok=True)
        sh(f"cp -a /verif/.work {d}/work")
    sh(f"rm -rf {d}/repo; mkdir -p {d}/repo && git -C /repo archive HEAD | tar x -C {d}/repo")
    return d
def run(r):
    i = slots.get()
    try:
        d = setup(i)
        for f, old, new in r["edits"]:
            p = f"{d}/repo/{f}"; t = open(p).read()
            if t.count(old) < 1: return r["name"], "EDIT DOES NOT APPLY: " + old[:60]
            open(p, "w").write(t.replace(old, new, 1) if MUT else t.replace(old, new))
        env = dict(os.environ, VERIF_REPO=f"{d}/repo", VERIF_WORK=f"{d}/work", VERIF_EVIDENCE=f"{d}/evidence")
        out = []
        for c in r["checks"]:
            x = sh(f"python3 /verif/check.py {c}", env=env, cwd="/verif")
            if x.returncode != 0: out.append(f"{c}: rc={x.returncode}\n" + "\n".join(l[:260] for l in (x.stdout + x.stderr[-1500:]).splitlines()[:int(os.environ.get("L", "10"))]))
        if MUT:
            if any("rc=1\n" in o and "must type-check" not in o for o in out): return r["name"], "quiet"
            return r["name"], "MISSED by " + " ".join(r["checks"]) + "\n" + "\n".join(out)
        return r["name"], "\n".join(out) or "quiet"
    except Exception as e: return r["name"], "EXC " + repr(e)
    finally: slots.put(i)
rs = [r for r in REFACTORS if not names or r["name"] in names or any(c in names for c in r["checks"]) and r["name"] not in names and False]
only = os.environ.get("ONLY", "").split()      # restrict to these checks
if only: rs = [dict(r, checks=[c for c in r["checks"] if c in only]) for r in rs if any(c in only for c in r["checks"])]
with cf.ThreadPoolExecutor(NW) as ex:
    bad = 0
    for n, o in ex.map(run, rs):
        if o != "quiet": bad += 1
        print(("ok   " if o == "quiet" else ("MISS " if MUT else "ALARM")) + " " + n + ("" if o == "quiet" else "\n" + o), flush=True)
print(f"{len(rs)} mutants, {bad} missed" if MUT else f"{len(rs)} refactorings, {bad} not quiet")
