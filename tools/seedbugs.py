"""Writes /verif/seeded/<id>/ from the edits in tools/seeds.py and confirms each one.

  seedbugs.py [--check] [ID...]   confirm (build, stable tests, demo with and without), with --check also run the property's check.
Not used by any check."""
import os, subprocess, sys, json, shutil
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS, LIB_TOML, DEMO, DEMO_MACRO, STUB
R, OUT = "/repo", "/verif/seeded"
def sh(c, cwd=R, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
args = [a for a in sys.argv[1:] if not a.startswith("-")]
assert not sh("git status --porcelain").stdout.strip(), "dirty /repo"
for s in SEEDS:
    if args and s["id"] not in args: continue
    d = f"{OUT}/{s['id']}"; os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = f"{R}/{f}"; t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        if "main" in s:
            open(f"{d}/demo.sh", "w").write(DEMO); open(f"{d}/main.rs", "w").write(s["main"]); open(f"{d}/Cargo.toml.in", "w").write(LIB_TOML)
        else:
            open(f"{d}/demo.sh", "w").write(DEMO_MACRO); open(f"{d}/stub.rs", "w").write(STUB)
            open(f"{d}/good.rs", "w").write(s["good"])
            for i, b in enumerate(s.get("bad", [])): open(f"{d}/bad{i}.rs", "w").write(b)
        os.chmod(f"{d}/demo.sh", 0o755)
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed.json"); j = json.load(open("/tmp/seed.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        passed = t.stdout.count("... ok")
        dm = sh(f"bash {d}/demo.sh")
        line = f"{s['id']} [{s['property']}] build={b.returncode} tests={passed} demo+patch={dm.returncode}"
        if "--check" in sys.argv:
            c = sh(f"python3 /verif/check.py {s['property']}", cwd="/verif")
            line += f" check={c.returncode}" + (" CAUGHT" if c.returncode == 1 and f"VIOLATION property={s['property']}" in c.stdout else " MISSED " + (c.stdout + c.stderr)[-300:])
    finally:
        sh("git checkout -- .")
    sh("bash /opt/vp/build.sh")
    dc = sh(f"bash {d}/demo.sh")
    print(line, f"demo clean={dc.returncode}", "" if dc.returncode == 0 else (dc.stdout + dc.stderr)[-1500:], flush=True)
    if dm.returncode == 0 or b.returncode: print("   NOT A BUG", (dm.stdout + dm.stderr + b.stderr)[-1500:])
