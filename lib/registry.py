"""Property id -> rule.  Modules in rules/ register themselves."""
import json, pathlib, importlib
HERE = pathlib.Path(__file__).resolve().parent.parent
PROPS = {}
class Rule:
    def __init__(self, pid, fn, how, assumes):
        self.pid = pid; self.fn = fn; self.how = how; self.assumes = assumes; self.title = TITLES.get(pid, pid)
TITLES = {}
f = HERE / "properties.jsonl"
if f.exists():
    for l in f.read_text().splitlines():
        if l.strip():
            d = json.loads(l); TITLES[d["id"]] = d["title"]
def prop(pid, how, assumes=()):
    def d(fn):
        PROPS[pid] = Rule(pid, fn, how, list(assumes)); return fn
    return d
for m in sorted((HERE / "rules").glob("r_*.py")): importlib.import_module(m.stem)
