"""Builds the compiler driver, type-checks /repo's crates with it and leaves the
dumped MIR in .work/dump. Everything is rebuilt from /repo's current sources."""
import os, re, sys, json, shutil, hashlib, pathlib, subprocess, fcntl, time
import workspace

VERIF = pathlib.Path(__file__).resolve().parent.parent
WORK = pathlib.Path(os.environ.get("VERIF_WORK", VERIF / ".work"))
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
TOOL = "nightly"

def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS"))
         or k in ("CARGO_HOME",)}
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = TOOL
    if extra: e.update(extra)
    return e

def run(cmd, cwd, e):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        for f in sorted(root.rglob("*")):
            if f.is_file() and f.suffix in (".rs", ".toml", ".lock", ".py") and "target" not in f.parts and "__pycache__" not in f.parts:
                h.update(str(f).encode()); h.update(b"\0"); h.update(f.read_bytes())
    return h.hexdigest()

class BuildError(Exception): pass

def build_driver():
    t = WORK / "driver-target"
    key = tree_hash([VERIF / "driver"])
    stamp = t / "stamp"
    exe = t / "debug" / "mirdump"
    if exe.exists() and stamp.exists() and stamp.read_text() == key: return exe
    rc, out = run(["cargo", "build", "--offline", "--target-dir", str(t)], VERIF / "driver", env())
    if rc != 0: raise BuildError("the analysis driver does not build:\n" + out[-3000:])
    stamp.write_text(key)
    return exe

def prepare(log=None):
    """-> (dump dir, {crate: error text} for crates that do not type-check)."""
    WORK.mkdir(parents=True, exist_ok=True)
    with open(WORK / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        srcs = [REPO / c[0] / "src" for c in workspace.CRATES.values()]
        key = tree_hash([VERIF / "driver", VERIF / "stubs"] + srcs) + hashlib.sha256((VERIF / "lib/workspace.py").read_bytes()).hexdigest()
        dump = WORK / "dump"; stamp = WORK / "dump.stamp"; errs = WORK / "dump.errors"
        if stamp.exists() and stamp.read_text() == key:
            return dump, json.loads(errs.read_text())
        if stamp.exists(): stamp.unlink()
        shutil.rmtree(dump, ignore_errors=True); dump.mkdir(parents=True)
        ws = WORK / "ws"
        sysroot = subprocess.check_output(["rustc", "--print", "sysroot"], env=env(), text=True).strip()
        e = env({"LD_LIBRARY_PATH": sysroot + "/lib", "VDUMP_DIR": str(dump), "RUSTC_WORKSPACE_WRAPPER": str(exe)})
        editions, over = {}, {}
        bad = {}
        for attempt in range(4):
            members = workspace.generate(ws, REPO, editions, over)
            lock = VERIF / "ws.lock"
            if lock.exists() and not (ws / "Cargo.lock").exists(): shutil.copy(lock, ws / "Cargo.lock")
            for d in ("build", ".fingerprint"):
                for x in (ws / "target" / "debug").glob(d + "/vercre-*"): shutil.rmtree(x, ignore_errors=True)
            rc, out = run(["cargo", "check", "--offline", "--workspace", "--keep-going"], ws, e)
            missing = [m for m in workspace.CRATES if not (dump / (m.replace("-", "_") + ".json")).exists()]
            bad = {}
            for m in missing:
                if m not in members: bad[m] = "crate source is missing"; continue
                mm = re.search(r"could not compile `%s`" % re.escape(m), out)
                bad[m] = first_errors(out, REPO / workspace.CRATES[m][0]) if mm else "a dependency does not type-check"
            roots = [m for m in missing if m in members and ("could not compile `%s`" % m) in out]
            retry = [m for m in roots if m not in over and "let chains" in bad[m]]
            if not retry: break
            # let chains are only stable in edition 2024: re-check those crates there
            for m in retry:
                dst = WORK / "alt" / m
                shutil.rmtree(dst, ignore_errors=True)
                shutil.copytree(REPO / workspace.CRATES[m][0] / "src", dst)
                for f in dst.rglob("*.rs"):
                    f.write_text(re.sub(r"(?<!r#)\bgen\b(?=\s*(::|;|,|\}|\{))", "r#gen", f.read_text()))
                over[m] = dst; editions[m] = "2024"
        if rc != 0 and not bad: raise BuildError("cargo check failed:\n" + out[-3000:])
        errs.write_text(json.dumps(bad)); stamp.write_text(key)
        return dump, bad

def first_errors(out, d):
    ls = []
    for m in re.finditer(r"^error(\[E\d+\])?: .*(\n.*){0,3}", out, re.M):
        if str(d) in m.group(0): ls.append(m.group(0))
    return "\n".join(ls[:3]) or out[-800:]

if __name__ == "__main__":
    t = time.time()
    d, b = prepare()
    print(d, b, round(time.time() - t, 1))
