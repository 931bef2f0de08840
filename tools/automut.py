"""Mechanical mutation of crates/{core,dif-exch,macros}: every mutant that no check reports is listed for reading.
   automut.py core|dif-exch|macros|FILE [--from N] [--to N]      env: J workers.   Not used by any check."""
import os, re, subprocess, sys, queue, concurrent.futures as cf
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = os.environ.get("AM", "/tmp/am")
CRATES = {"core": ("crates/core/src", ["C03", "C04", "C05", "C06", "C01", "C02"]),
          "dif-exch": ("crates/dif-exch/src", ["C07", "C08", "C09", "C10", "C11"]),
          "macros": ("crates/macros/src", ["C13", "C15", "C12", "C14"])}
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
SWAP = [(r"==", "!="), (r"!=", "=="), (r" && ", " || "), (r" \|\| ", " && "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
        (r"\.is_empty\(\)", ".is_empty() == false"), (r"is_some_and\(", "is_none_or("), (r"\.first\(\)", ".last()"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
        (r"!([a-z_(])", r"\1"), (r"\bif ([^{]*) \{$", r"if !(\1) {"), (r" \+ ", " - "), (r" \+= ", " = "), (r"\bOk\(([a-z_]+)\)", None), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().rev()"),
        (r"\.\.=", ".."), (r"0\.\.", "1.."), (r"Some\(([^()]+)\)", "None"), (r"Ok\(true\)", "Ok(false)"), (r"Ok\(false\)", "Ok(true)"),
        (r"splitn?_?once\(", "rsplit_once("), (r"\.starts_with\(", ".ends_with("), (r"\.ends_with\(", ".starts_with("), (r"\.push_str\(", ".insert_str(0, "), (r"\.push\(", ".insert(0, "),
        (r"unwrap_or\(false\)", "unwrap_or(true)"), (r"\.remove\(", ".get("), (r"\.contains\(", ".eq("), (r"\.to_string\(\)", ".to_string().to_lowercase()"), (r"\.clone\(\)", ".clone().clone()")]
def muts(path):
    src = open(path).read(); lines = src.split("\n"); out = []
    cut = next((i for i, l in enumerate(lines) if l.strip() == "#[cfg(test)]"), len(lines))
    for i, l in enumerate(lines[:cut]):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("use ") or s.startswith("#![") or s.startswith("pub use") or "mod " in s[:8]: continue
        def add(n, why):
            if n != l: out.append((i, n, why))
        if s.startswith("#["):
            if "serde" in s: add("", "drop attribute")
            for m in re.finditer(r'"([^"]+)"', l): add(l[:m.start(1)] + m.group(1) + "x" + l[m.end(1):], "attr text")
            continue
        for pat, rep in SWAP:
            if rep is None: continue
            for m in re.finditer(pat, l): add(l[:m.start()] + m.expand(rep) + l[m.end():], f"{pat} -> {rep}")
        for m in re.finditer(r"\b(\d+)\b", l):
            n = int(m.group(1)); add(l[:m.start()] + str(n + 1) + l[m.end():], "n+1")
            if n: add(l[:m.start()] + str(n - 1) + l[m.end():], "n-1")
        for m in re.finditer(r'"([^"]*)"', l):
            add(l[:m.start(1)] + m.group(1) + "x" + l[m.end(1):], "text+x")
            if m.group(1): add(l[:m.start(1)] + l[m.end(1):], "text empty")
        for m in re.finditer(r"b?'(\\?[^'])'", l): add(l[:m.start(1)] + "#" + l[m.end(1):], "char")
        if s.endswith(";") and not s.startswith("let ") and not s.startswith("}"): add("", "drop statement")
        if s.endswith("?;"): add(l.replace("?;", ".ok();"), "ignore error")
        if s.endswith(",") and "=>" in s: add("", "drop arm")
        if s.startswith("return ") : add("", "drop return")
    # drop whole if-blocks without else
    for i, l in enumerate(lines[:cut]):
        m = re.match(r"^(\s*)(if .*|for .*|while .*)\{$", l)
        if m:
            j = next((k for k in range(i + 1, cut) if lines[k].startswith(m.group(1) + "}")), None)
            if j and lines[j].strip() == "}": out.append((i, (j, ""), "drop block"))
    # swap adjacent statements
    for i in range(cut - 1):
        a, b = lines[i], lines[i + 1]
        if a.strip().endswith(";") and b.strip().endswith(";") and not a.strip().startswith("use") and len(a) - len(a.lstrip()) == len(b) - len(b.lstrip()): out.append((i, (i + 1, b + "\n" + a), "swap statements"))
    return lines, out
jobs = []
a = sys.argv[1]
which = [c for c in CRATES if a == c or CRATES[c][0] in a][0]
cdir, checks = CRATES[which]
files = [a] if a.endswith(".rs") else sorted(sh(f"cd /repo && find {cdir} -name '*.rs'").stdout.split())
for f in files:
    lines, out = muts("/repo/" + f)
    for k, (i, n, why) in enumerate(out): jobs.append((f, lines, i, n, why))
lo = int(sys.argv[sys.argv.index("--from") + 1]) if "--from" in sys.argv else 0
hi = int(sys.argv[sys.argv.index("--to") + 1]) if "--to" in sys.argv else len(jobs)
NW = int(os.environ.get("J", "6")); slots = queue.Queue()
for i in range(NW): slots.put(i)
def setup(i):
    d = f"{TMP}/{i}"
    if not os.path.exists(d + "/work"):
        os.makedirs(d, exist_ok=True); sh(f"cp -a {VER}/.work {d}/work")
        sh(f"mkdir -p {d}/repo && git -C /repo archive HEAD | tar x -C {d}/repo")
    return d
def run(j):
    f, lines, i, n, why = j
    s = slots.get()
    try:
        d = setup(s)
        new = lines[:i] + [n] + lines[i + 1:] if isinstance(n, str) else lines[:i] + [n[1]] + lines[n[0] + 1:]
        orig = "\n".join(lines); p = f"{d}/repo/{f}"
        open(p, "w").write("\n".join(new))
        try:
            env = dict(os.environ, VERIF_REPO=f"{d}/repo", VERIF_WORK=f"{d}/work", VERIF_EVIDENCE=f"{d}/evidence")
            r = []
            for c in checks:
                x = sh(f"timeout 300 python3 {VER}/check.py {c}", env=env, cwd=VER)
                o = x.stdout + x.stderr
                if "must type-check" in o or "UNDECIDED" in o or "error[E" in o: return j, "nc"
                if x.returncode == 1: return j, "caught " + c
                if x.returncode != 0: r.append(f"{c} rc={x.returncode} {o[-200:]}")
            return j, "MISS " + "; ".join(r)
        finally: open(p, "w").write(orig)
    except Exception as e: return j, "EXC " + repr(e)
    finally: slots.put(s)
from collections import Counter
cnt = Counter()
with cf.ThreadPoolExecutor(NW) as ex:
    for j, o in ex.map(run, jobs[lo:hi]):
        cnt[o.split(" ")[0] if not o.startswith("caught") else o] += 1
        if o.startswith(("MISS", "EXC")):
            f, lines, i, n, why = j
            print(f"{o} {f}:{i+1} [{why}]\n   - {lines[i].strip()[:150]}\n   + {(n if isinstance(n, str) else '(..' + str(n[0]+1) + ') ' + n[1]).strip()[:150]}", flush=True)
print(dict(cnt), len(jobs))
