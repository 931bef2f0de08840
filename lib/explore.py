"""explore.py <entry path> [crates,...] — print the analysed outcomes of one entry point."""
import sys, os, time
sys.path.insert(0, os.path.dirname(__file__))
from engine import *
import terms as T
def main():
    crates = sys.argv[2].split(",") if len(sys.argv) > 2 and sys.argv[2] != "-" else None
    opaque = sys.argv[3].split(",") if len(sys.argv) > 3 else []
    p = Program(os.environ.get("DUMPS", "/tmp/dump"), crates)
    e = Engine(p, opaque=opaque)
    t = time.time()
    outs = e.analyse(sys.argv[1])
    if outs is None:
        print("no such entry; candidates:", [x for x in p.by_path if sys.argv[1].split("::")[-1] in x][:20]); return
    for v, s in outs:
        print("=== RESULT", ap(v)[:1500])
        for t_, k in sorted(s.units.items(), key=lambda x: x[0].id):
            if t_.op == "known": continue
            print("   ", "" if k else "NOT ", ap(t_)[:300])
        for c in sorted(s.clauses, key=lambda c: sorted(l[0].id for l in c))[:80]:
            print("    |", " OR ".join(("" if l[1] else "!") + ap(l[0])[:200] for l in sorted(c, key=lambda l: l[0].id)))
        for k, v2 in s.env.items():
            if k[0] == 0: print("    env", k, ap(v2)[:600])
        for k, v2 in s.heap.items(): print("    heap", ap(k)[:200], ":=", ap(v2)[:600])
    print("--- panics")
    for x in e.panics: print(x.kind, x.site, x.body, x.what[:200])
    print("--- unmodelled", dict(sorted(e.unmodelled.items(), key=lambda x: -x[1])))
    print("--- inlined", len(e.inlined), "steps", e.steps, "time", round(time.time() - t, 2))
main()
