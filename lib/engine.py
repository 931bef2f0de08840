"""Forward, interprocedural, guarded-fact dataflow over the MIR dump.

Each program point carries abstract states: an environment of value-numbered
terms, the unit facts that hold on every path into the point, and guarded facts
(clauses) that record which facts hold under which branch outcome.  States
meeting at a join are merged (values become gated terms), except when they
disagree on the known variant of a live value.  Local functions, closures and
async bodies are inlined; loops are summarised by the facts that hold at every
back edge ("for every element").  Nothing is executed and no solver is used.
"""
import json, os, re, sys, glob, gzip, pickle
from collections import defaultdict
from terms import *
import terms as T
sys.setrecursionlimit(20000)

INTTY = re.compile(r"([iu])(8|16|32|64|128|size)")
def width(n): return 64 if n == "size" else int(n)
def wrap_int(x, ty):
    """The value of x as an integer of this type."""
    m = INTTY.fullmatch(ty or "")
    if not m: return x
    n = width(m.group(2)); x &= (1 << n) - 1
    return x - (1 << n) if m.group(1) == "i" and x >> (n - 1) else x
_sp = {}
def shortpath(p):
    r = _sp.get(p)
    if r is not None: return r
    s = p
    out = []; depth = 0; i = 0
    while i < len(s):
        c = s[i]
        if c == "<": depth += 1
        elif c == ">" and not (i and s[i-1] == "-"): depth -= 1
        elif depth == 0: out.append(c)
        i += 1
    s2 = "".join(out)
    if p.startswith("<") and " as " in p:
        # <Type as Trait>::method
        m = re.match(r"<(.*) as (.*?)>::(\w+)$", p)
        if m: s2 = shortpath(m.group(1)) + "::" + m.group(3)
    s2 = re.sub(r":{3,}", "::", s2).strip(":")
    s2 = re.sub(r"(::)+", "::", s2)
    parts = [x for x in s2.split("::") if x]
    r = "::".join(parts[-2:])
    _sp[p] = r
    return r

class Program:
    def __init__(self, dumps, crates=None):
        self.bodies = {}
        self.by_path = defaultdict(list)
        self.adts = {}
        self.crates = []
        for f in sorted(glob.glob(os.path.join(dumps, "*.json"))):
            d = json.load(open(f))
            if crates and d["crate"] not in crates: continue
            self.crates.append(d["crate"])
            for b in d["bodies"]:
                b["crate"] = d["crate"]
                self.bodies[b["id"]] = b
                self.by_path[b["path"]].append(b)
            for a in d["adts"]: self.adts[a["path"]] = a
        self.froms = {}
        for b in self.bodies.values():
            if b.get("name") in ("from", "into", "try_from") and b.get("trait_ref"):
                self.froms[b["trait_ref"]] = b
    def find(self, path):
        l = self.by_path.get(path) or []
        return l[0] if l else None

# ------------------------------------------------------------------ body info
class Info:
    """CFG facts of one body: successors, reverse post-order, loops, liveness."""
    def __init__(self, b):
        self.b = b
        bl = b["blocks"]; n = len(bl)
        succ = [[] for _ in range(n)]
        for i, x in enumerate(bl):
            if x is None: continue
            t = x["t"]; k = t[0]
            if k == "goto": s = [t[1]]
            elif k == "switch": s = [y for _, y in t[3]] + [t[4]]
            elif k == "drop": s = [t[2]]
            elif k == "call": s = [t[4]] if t[4] is not None else []
            elif k == "assert": s = [t[4]]
            else: s = []
            succ[i] = [y for y in dict.fromkeys(s) if bl[y] is not None]
        self.succ = succ
        seen = set(); post = []
        stack = [(0, iter(succ[0]))]; seen.add(0)
        while stack:
            v, it = stack[-1]
            for w in it:
                if w not in seen:
                    seen.add(w); stack.append((w, iter(succ[w]))); break
            else:
                post.append(v); stack.pop()
        self.rpo = post[::-1]
        self.pos = {v: i for i, v in enumerate(self.rpo)}
        preds = defaultdict(list)
        for v in self.rpo:
            for w in succ[v]: preds[w].append(v)
        self.preds = preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for v in self.rpo[1:]:
                ps = [p for p in preds[v] if p in idom]
                nd = ps[0]
                for p in ps[1:]:
                    x, y = p, nd
                    while x != y:
                        while self.pos[x] > self.pos[y]: x = idom[x]
                        while self.pos[y] > self.pos[x]: y = idom[y]
                    nd = x
                if idom.get(v) != nd: idom[v] = nd; ch = True
        def dom(a, c):
            while c != a and c != 0: c = idom[c]
            return c == a
        loops = {}
        for v in self.rpo:
            for w in succ[v]:
                if self.pos[w] <= self.pos[v]:
                    if not dom(w, v): continue
                    body = loops.setdefault(w, {w})
                    st = [v]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(preds[x])
        self.loops = loops
        self.live = self._liveness()

    def _liveness(self):
        bl = self.b["blocks"]
        use = {}; de = {}
        self.mutb = set()
        def pl(p, u, d, isdef=False):
            if isinstance(p, int):
                if isdef: d.add(p)
                elif p not in d: u.add(p)
            else:
                if p[0] not in d: u.add(p[0])
                for e in p[1]:
                    if e[0] == "index" and e[1] not in d: u.add(e[1])
        def op(o, u, d):
            if "c" in o: pl(o["c"], u, d)
            elif "m" in o: pl(o["m"], u, d)
        for i in self.rpo:
            u = set(); d = set(); x = bl[i]
            for s in x["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] in ("use", "repeat"): op(r[1], u, d)
                    elif r[0] == "ref":
                        pl(r[2], u, d)
                        if r[1]: self.mutb.add(r[2] if isinstance(r[2], int) else r[2][0])
                    elif r[0] == "cast": op(r[2], u, d)
                    elif r[0] == "bin": op(r[2], u, d); op(r[3], u, d)
                    elif r[0] == "un": op(r[2], u, d)
                    elif r[0] == "discr": pl(r[1], u, d)
                    elif r[0] == "agg":
                        for o in r[2]: op(o, u, d)
                    pl(s[1], u, d, True)
                elif s[0] == "setd": pl(s[1], u, d)
            t = x["t"]
            if t[0] == "switch": op(t[1], u, d)
            elif t[0] == "call":
                op(t[1], u, d)
                for o in t[2]: op(o, u, d)
                pl(t[3], u, d, True)
            elif t[0] == "assert": op(t[1], u, d)
            elif t[0] == "return":
                if 0 not in d: u.add(0)
            use[i] = u; de[i] = d
        live = {i: set() for i in self.rpo}
        ch = True
        while ch:
            ch = False
            for i in reversed(self.rpo):
                o = set()
                for s in self.succ[i]: o |= live[s]
                n = use[i] | (o - de[i])
                if n != live[i]: live[i] = n; ch = True
        return live

# ----------------------------------------------------------------------- state
class State:
    __slots__ = ("env", "units", "clauses", "heap")
    def __init__(self):
        self.env = {}; self.units = {}; self.clauses = frozenset(); self.heap = {}
    def copy(self):
        s = State()
        s.env = dict(self.env); s.units = dict(self.units); s.clauses = self.clauses; s.heap = dict(self.heap)
        return s
    def val(self, t):
        """Truth value of a boolean term under the unit facts, or None."""
        if t is TRUE: return True
        if t is FALSE: return False
        if t.op == "not":
            v = self.val(t.a[0]); return None if v is None else not v
        v = self.units.get(t)
        if v is not None: return v
        if t.op == "is":
            k = self.units.get(mk("known", t.a[0]))
            if k is not None: return k == t.a[1]
            return None
        if t.op == "and":
            r = True
            for x in t.a:
                v = self.val(x)
                if v is False: return False
                if v is None: r = None
            return r
        if t.op == "or":
            r = False
            for x in t.a:
                v = self.val(x)
                if v is True: return True
                if v is None: r = None
            return r
        if t.op == "eq":
            # x == c1 known and c1 != c2
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if y.op == "const":
                    k = self.units.get(mk("known", x))
                    if k is not None and k is not y: return False
        return None
    def assume(self, t, pol=True):
        """Add a fact; False if it contradicts what is known."""
        todo = [(t, pol)]
        cl = None
        while True:
            while todo:
                t, pol = todo.pop()
                if t.op == "not": todo.append((t.a[0], not pol)); continue
                if t.op == "const":
                    if t.a[0] == "bool" and t.a[1] != pol: return False
                    continue
                v = self.val(t)
                if v is not None:
                    if v != pol: return False
                    if t.op in ("and", "or") and t not in self.units: pass
                    continue
                if t.op in ("and", "or"):
                    self.units[t] = pol
                    if (t.op == "and") == pol:
                        todo.extend((x, pol) for x in t.a)
                    else:
                        c = frozenset(_lit(x, pol) for x in t.a)
                        if cl is None: cl = set(self.clauses)
                        cl.add(c)
                    continue
                if t.op == "ite":
                    if cl is None: cl = set(self.clauses)
                    c = t.a[0]
                    cl.add(frozenset([_lit(c, False), _lit(t.a[1], pol)]))
                    cl.add(frozenset([_lit(c, True), _lit(t.a[2], pol)]))
                self.units[t] = pol
                if t.op == "is" and pol: self.units[mk("known", t.a[0])] = t.a[1]
                if t.op == "eq" and pol:
                    for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                        if y.op == "const": self.units[mk("known", x)] = y
                if t.op == "haskey" and pol: self.units.setdefault(mk("empty", t.a[0]), False)
                if t.op == "contains" and pol and empty(t.a[0]).op == "empty": self.units.setdefault(empty(t.a[0]), False)
                if t.op == "all" and pol:      # holds of the generic element, where there is one
                    x = t.a[1]; ls = x.a if x.op == "or" else (x,); el = elem(t.a[0])
                    if all(mentions(y, el) for y in ls): todo.append((x, True))
                    elif x.op == "or":
                        if cl is None: cl = set(self.clauses)
                        cl.add(frozenset([_lit(y, True) for y in ls] + [_lit(empty(t.a[0]), True)]))
                if t.op == "all" and not pol:
                    e = empty(t.a[0])
                    if e.op == "empty": self.units.setdefault(e, False)
            cls = self.clauses if cl is None else cl
            changed = False
            nxt = None
            for c in cls:
                rem = []; sat = False
                for l in c:
                    v = self.val(l[0])
                    if v is None: rem.append(l)
                    elif v == l[1]: sat = True; break
                if sat:
                    continue
                if not rem: return False
                if len(rem) == 1:
                    todo.append(rem[0]); changed = True
            if cl is not None:
                self.clauses = frozenset(cl); cl = None
            if not changed: return True
    def entails(self, t, pol=True):
        return self.val(t) is pol
    def prove(self, t, depth=8):
        """Does t hold in every case of the join selectors?"""
        if self.val(t) is True: return True
        s = self.copy()
        if not s.assume(t, False): return True
        if depth == 0: return False
        n = defaultdict(int)
        for c in s.clauses:
            if any(s.val(l[0]) == l[1] for l in c): continue
            for l in c:
                if s.val(l[0]) is None: n[l[0]] += 8 if l[0].op == "join" else 3 if len(c) == 2 else 1
        if not n: return False
        for j in sorted(n, key=lambda x: (-n[x], x.id))[:1]:
            for pol in (True, False):
                s2 = s.copy()
                if s2.assume(j, pol) and not s2.refuted(depth - 1): return False
            return True
        return False
    def refuted(self, depth):
        n = defaultdict(int)
        for c in self.clauses:
            if any(self.val(l[0]) == l[1] for l in c): continue
            for l in c:
                if self.val(l[0]) is None: n[l[0]] += 8 if l[0].op == "join" else 3 if len(c) == 2 else 1
        if not n or depth == 0: return False
        j = min(n, key=lambda x: (-n[x], x.id))
        for pol in (True, False):
            s2 = self.copy()
            if s2.assume(j, pol) and not s2.refuted(depth - 1): return False
        return True

def _lit(x, pol):
    while x.op == "not": x = x.a[0]; pol = not pol
    return (x, pol)

def shape(t, d=0):
    if t.op == "adt" and t.a[2]:
        fs = t.a[3]
        if d < 3 and len(fs) == 1: return (t.a[1], shape(fs[0][1], d + 1))
        return (t.a[1],)
    if t.op == "const" and t.a[0] == "bool": return t.a[1]
    if t.op == "tuple" and d < 2 and len(t.a) <= 3:
        s = tuple(shape(x, d + 1) for x in t.a)
        if any(x is not None for x in s): return s
    return None

MAXCL = 600
def merge2(a, b, sel=None):
    """Join of two states; branch-dependent facts become guarded facts.  The guard
    is a condition the two states disagree on, or else a fresh join selector."""
    L = None
    for t, v in a.units.items():
        if t.op == "known": continue
        w = b.units.get(t)
        if w is not None and w != v: L = (t, v); break
    if L is None:
        for t, v in a.units.items():
            if t.op == "known" or t in b.units: continue
            w = b.val(t)
            if w is not None and w != v: L = (t, v); break
    if L is None:
        for t, v in b.units.items():
            if t.op == "known" or t in a.units: continue
            w = a.val(t)
            if w is not None and w != v: L = (t, not v); break
    if L is None and sel is not None:
        L = (mk("join", *sel), True)
    s = State()
    join = (lambda x, y: ite(L, x, y)) if L else (lambda x, y: phi(x, y))
    for k, x in a.env.items():
        y = b.env.get(k)
        if y is None: continue
        s.env[k] = x if x is y else join(x, y)
    for k in set(a.heap) | set(b.heap):
        x = a.heap.get(k, k); y = b.heap.get(k, k)
        s.heap[k] = x if x is y else join(x, y)
    cl = set(a.clauses & b.clauses)
    nl = (L[0], not L[1]) if L else None
    for t, v in a.units.items():
        w = b.units.get(t)
        if w == v: s.units[t] = v
    if L:
        for t, v in a.units.items():
            if t.op == "known" or t is L[0]: continue
            if b.units.get(t) != v: cl.add(frozenset((nl, (t, v))))
        for t, v in b.units.items():
            if t.op == "known" or t is L[0]: continue
            if a.units.get(t) != v: cl.add(frozenset((L, (t, v))))
        for c in a.clauses - b.clauses:
            if len(c) < 6 and L not in c:
                if not any(b.val(l[0]) == l[1] for l in c): c = c | {nl}
                cl.add(c)
        for c in b.clauses - a.clauses:
            if len(c) < 6 and nl not in c:
                if not any(a.val(l[0]) == l[1] for l in c): c = c | {L}
                cl.add(c)
    else:
        for c in a.clauses - b.clauses:
            if any(b.val(l[0]) == l[1] for l in c): cl.add(c)
        for c in b.clauses - a.clauses:
            if any(a.val(l[0]) == l[1] for l in c): cl.add(c)
    # drop clauses already satisfied by the unit facts
    cl = {c for c in cl if not any(s.units.get(l[0]) == l[1] for l in c)}
    if len(cl) > MAXCL:
        cl = set(sorted(cl, key=lambda c: (len(c), sorted(l[0].id for l in c)))[:MAXCL])
    s.clauses = frozenset(cl)
    return s

def drop_selectors(cls, outer):
    """Eliminate join selectors from a clause set by resolution (each element of
    a quantified fact chooses its own branch)."""
    keep = {l[0] for c in outer for l in c if l[0].op == "join"}
    sels = {l[0] for c in cls for l in c if l[0].op == "join"} - keep
    cls = set(cls)
    for j in sorted(sels, key=lambda t: t.id):
        pos = [c for c in cls if (j, True) in c]; ng = [c for c in cls if (j, False) in c]
        cls -= set(pos); cls -= set(ng)
        if len(pos) * len(ng) > 400: continue
        for a in pos:
            for b in ng:
                r = (a - {(j, True)}) | (b - {(j, False)})
                if len(r) <= 6 and not any((l[0], not l[1]) in r for l in r): cls.add(r)
    return cls

class Budget(Exception): pass

class Frame:
    __slots__ = ("fid", "body", "info", "path", "returns", "ids")
    def __init__(self, fid, body, info, path, ids):
        self.fid = fid; self.body = body; self.info = info; self.path = path
        self.returns = []; self.ids = ids

class Panic:
    __slots__ = ("kind", "site", "state", "body", "what")
    def __init__(self, kind, site, state, body, what=""):
        self.kind = kind; self.site = site; self.state = state; self.body = body; self.what = what

class Engine:
    def __init__(self, prog, opaque=(), watch=(), effects=(), max_steps=400000, max_depth=60):
        self.p = prog
        self.infos = {}
        self.opaque = [re.compile(x) for x in opaque]
        self.watch = [re.compile(x) for x in watch]
        self.effects = [re.compile(x) for x in effects]
        self.calls = []       # (short path, args, state, site) for watched calls
        self.panics = []
        self.dry = 0
        self.nfid = 0
        self.steps = 0; self.max_steps = max_steps; self.max_depth = max_depth
        self.inlined = set(); self.unmodelled = defaultdict(int)
        self.stack = []
        self.acc_info = {}
        self.split = 0; self.maxrec = 1
        self.unroll = 0       # > 0: iterate literal arrays element by element
        self.adts_built = []  # (path, variant, term, state, site) for watched ADTs
        self.watch_adt = []
        self.separators = None
        self.ret_sites = []
        from models import MODELS
        self.models = MODELS

    def info(self, b):
        i = self.infos.get(b["id"])
        if i is None: i = self.infos[b["id"]] = Info(b)
        return i

    # -------------------------------------------------------------- locations
    def read_loc(self, st, root, projs):
        if isinstance(root, tuple): v = st.env.get(root, UNINIT)
        else: v = st.heap.get(root, root)
        for p in projs: v = self.proj(st, v, p)
        return self.simp(st, v)
    def proj(self, st, v, p):
        v = self.simp(st, v)
        if v.op == "mref": v = self.read_loc(st, v.a[0], v.a[1])
        if p[0] == "field": return field(v, p[1], p[2])
        if p[0] == "index": return index(v, p[1])
        if p[0] == "cidx": return index(v, integer(p[1])) if not p[2] else index_end(v, p[1])
        if p[0] == "sub": return subslice(v, p[1], p[2], p[3])
        if p[0] == "key": return field(key_of(v, p[1]), "Some", "0")
        return v
    def write_loc(self, st, root, projs, val):
        if isinstance(root, tuple): base = st.env.get(root, UNINIT)
        else: base = st.heap.get(root, root)
        new = self.update(st, base, projs, val)
        if isinstance(root, tuple): st.env[root] = new
        else: st.heap[root] = new
    def update(self, st, base, projs, val):
        if not projs: return val
        p = projs[0]
        if p[0] == "field":
            sub = val if len(projs) == 1 else self.update(st, field(base, p[1], p[2]), projs[1:], val)
            return setfield(base, p[1], p[2], sub)
        if p[0] in ("index", "cidx"):
            i = p[1] if p[0] == "index" else integer(p[1])
            sub = val if len(projs) == 1 else self.update(st, index(base, i), projs[1:], val)
            if base.op == "array" and is_const(i, "int") and 0 <= i.a[1] < len(base.a):
                return mk("array", *base.a[:i.a[1]], sub, *base.a[i.a[1] + 1:])
            return mk("setidx", base, i, sub)
        if p[0] == "key":
            sub = val if len(projs) == 1 else self.update(st, field(key_of(base, p[1]), "Some", "0"), projs[1:], val)
            return set_key(base, p[1], sub)
        return mk("setsub", base, val)
    def simp(self, st, v):
        while v.op == "ite":
            k = st.val(v.a[0])
            if k is None: break
            v = v.a[1] if k else v.a[2]
        return v
    def locate(self, fr, st, place):
        """place -> (root, projs)"""
        if isinstance(place, int): return (fr.fid, place), ()
        root = (fr.fid, place[0]); projs = (); variant = None
        first = True
        ty = fr.body["locals"][place[0]]
        for e in place[1]:
            k = e[0]
            if k == "deref":
                cur = self.read_loc(st, root, projs)
                if cur.op == "mref": root, projs = cur.a
                elif cur.op == "ite" and any(x.op == "mref" for x in cur.a[1:]):
                    # ambiguous target: keep the first alternative (recorded imprecision)
                    root, projs = (cur.a[1] if cur.a[1].op == "mref" else cur.a[2]).a
                elif first and not (ty.startswith("&") or ty.startswith("*")): pass
                else: root, projs = cur, ()
            elif k == "field": projs = projs + (("field", variant, e[1]),); variant = None
            elif k == "as": variant = e[1]
            elif k == "index":
                projs = projs + (("index", self.simp(st, st.env.get((fr.fid, e[1]), UNINIT))),)
            elif k == "cidx": projs = projs + (("cidx", e[1], e[2]),)
            elif k == "subslice": projs = projs + (("sub", e[1], e[2], e[3]),)
            first = False
        return root, projs
    def read(self, fr, st, place):
        if isinstance(place, int): return self.simp(st, st.env.get((fr.fid, place), UNINIT))
        v = st.env.get((fr.fid, place[0]), UNINIT); variant = None
        for e in place[1]:
            v = self.simp(st, v)
            k = e[0]
            if k == "deref":
                v = self.deref(st, v)
            elif k == "field":
                if v.op == "mref": v = self.deref(st, v)
                v = field(v, variant, e[1]); variant = None
            elif k == "as": variant = e[1]
            elif k == "index": v = index(v, self.simp(st, st.env.get((fr.fid, e[1]), UNINIT)))
            elif k == "cidx": v = index(v, integer(e[1])) if not e[2] else index_end(v, e[1])
            elif k == "subslice": v = subslice(v, e[1], e[2], e[3])
        return self.simp(st, v)
    def deref(self, st, v):
        if v.op == "mref": return self.read_loc(st, v.a[0], v.a[1])
        if v.op == "ite": return ite((v.a[0], True), self.deref(st, v.a[1]), self.deref(st, v.a[2]))
        return st.heap.get(v, v)
    def pure(self, st, v):
        v = self.simp(st, v)
        n = 0
        while v.op == "mref" and n < 5:
            v = self.simp(st, self.read_loc(st, v.a[0], v.a[1])); n += 1
        if v.op == "ite" and any(x.op == "mref" for x in v.a[1:]): v = self.deref(st, v)
        if v in st.heap: v = st.heap[v]
        return v
    def deep(self, st, v, d=0):
        """Resolve the mutable references held inside an aggregate."""
        v = self.pure(st, v)
        if d < 3 and v.op in ("adt", "tuple", "array"):
            def go(y):
                if isinstance(y, Term): return self.deep(st, y, d + 1)
                if isinstance(y, tuple): return tuple(go(z) for z in y)
                return y
            na = tuple(go(y) for y in v.a)
            if na != v.a: v = mk(v.op, *na)
        return v

    # --------------------------------------------------------------- operands
    def cterm(self, k):
        kk = k["k"]
        if kk == "str": return string(k["v"])
        if kk == "bool": return boolean(k["v"])
        if kk == "int": return integer(int(k["v"]))
        if kk == "char": return const("char", k["v"])
        if kk == "bytes": return const("bytes", bytes(k["v"]))
        if kk == "float": return const("float", k["v"])
        if kk == "unit": return UNIT
        if kk == "fn":
            self_fns[k["id"] + "|" + ",".join(k["targs"])] = k
            return mk("fn", k["id"] + "|" + ",".join(k["targs"]))
        if kk == "named":
            b = self.p.bodies.get(k["id"])
            if b is not None and len(self.stack) < self.max_depth:
                st = State()
                outs = self.exec_body(b, [], st, ("const",))
                if len(outs) == 1: return outs[0][0]
            return mk("cst", k["path"])
        return mk("other", k["ty"], k["s"])
    def op(self, fr, st, o):
        if "c" in o: return self.read(fr, st, o["c"])
        if "m" in o: return self.read(fr, st, o["m"])
        return self.cterm(o["k"])

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, line):
        k = r[0]
        if k == "use": return self.op(fr, st, r[1])
        if k == "ref":
            if r[1]:
                root, projs = self.locate(fr, st, r[2])
                if not isinstance(root, tuple) and not projs and root not in st.heap: return root
                return mk("mref", root, projs)
            v = self.read(fr, st, r[2])
            return v
        if k == "cast": return self.cast(fr, st, r)
        if k == "repeat": return mk("repeat", self.op(fr, st, r[1]), r[2])
        if k == "bin":
            a = self.pure(st, self.op(fr, st, r[2])); b = self.pure(st, self.op(fr, st, r[3]))
            return self.binop(st, r[1], a, b, self.optype(fr, r[2]) or self.optype(fr, r[3]))
        if k == "un":
            a = self.pure(st, self.op(fr, st, r[2]))
            if r[1] == "Not":
                if is_boolish(a) or a.op in ("app", "f", "param", "elem", "acc", "ite"): return neg(a)
                return mk("bitnot", a)
            if r[1] == "Neg":
                if is_const(a, "int"): return integer(-a.a[1])
                return mk("neg", a)
            if r[1] == "PtrMetadata": return length(a)
            return mk("un", r[1], a)
        if k == "discr":
            return mk("discr", self.pure(st, self.read(fr, st, r[1])),
                      tuple((int(x), y) for x, y in (r[3] or [])))
        if k == "agg":
            ops = [self.op(fr, st, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "tuple": return mk("tuple", *ops)
            if kk[0] == "array": return mk("array", *ops)
            if kk[0] == "adt":
                t = adt(kk[1], kk[2], kk[4], tuple(zip(kk[3], ops)))
                if self.watch_adt and not self.dry and any(w(kk[1], kk[2]) for w in self.watch_adt):
                    self.adts_built.append((kk[1], kk[2], self.deep(st, t), st.copy(), (fr.body["path"], line)))
                return t
            if kk[0] in ("closure", "coroutine"): return mk(kk[0], kk[1], *ops)
            return mk("agg", kk[0], *ops)
        return mk("rv", str(r[:2]))
    def optype(self, fr, o):
        """The type of an operand, when it is a constant or a whole local."""
        if "k" in o: return o["k"].get("ty")
        l = o.get("c", o.get("m"))
        if isinstance(l, int):
            ls = fr.body["locals"]
            return ls[l] if l < len(ls) else None
        return None
    def cast(self, fr, st, r):
        v = self.op(fr, st, r[2])
        if r[1] in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            x = self.pure(st, v); s, d = self.optype(fr, r[2]) or "", r[3]
            # exact: small whole numbers, and what a wider type always holds
            if is_const(x) or (s, d) == ("f32", "f64") or d == "f64" and re.fullmatch("[iu](8|16|32)", s): return v
            return mk("app", "as " + d, x)
        if r[1] != "IntToInt": return v
        src = self.optype(fr, r[2]) or ""; dst = r[3]
        x = self.pure(st, v)
        if is_const(x, "bool"): return integer(int(x.a[1])) if INTTY.fullmatch(dst) else v
        if is_const(x, "char") and INTTY.fullmatch(dst): x = integer(ord(x.a[1]))
        if is_const(x, "int"):
            if dst == "char": return const("char", chr(x.a[1])) if 0 <= x.a[1] < 0x110000 else v
            return integer(wrap_int(x.a[1], dst))
        # a narrowing conversion of an unknown number keeps only its low bits
        m, n = INTTY.fullmatch(src), INTTY.fullmatch(dst)
        if n and (m or src == "char") and x.op not in ("len", "at"):
            sw, dw, sg, dg = width(m.group(2) if m else "32"), width(n.group(2)), m.group(1) if m else "u", n.group(1)
            if dw < sw or dw == sw and sg != dg or sg == "i" and dg == "u": return mk("app", "as " + dst, x)
        return v
    def binop(self, st, o, a, b, ty=None):
        if o.endswith("WithOverflow"):
            o2 = o[:-len("WithOverflow")]
            r = arith(o2, a, b)
            if is_const(r, "int") and ty and INTTY.fullmatch(ty): return tup(r, boolean(wrap_int(r.a[1], ty) != r.a[1]))
            if is_const(r, "int") and -(1 << 31) <= r.a[1] < 1 << 32 and (o2 != "Sub" or r.a[1] >= 0): return tup(r, FALSE)
            # a position in, or the length of, a collection in memory is far from the limit
            if o2 == "Add" and a.op in ("at", "len") and is_const(b, "int") and 0 <= b.a[1] < 1 << 31: return tup(r, FALSE)
            # something is greater than a, so a + 1 is still in range; a - b with 0 <= b <= a is too
            if o2 == "Add" and is_const(b, "int") and b.a[1] == 1 and any(v is True and u.op == "lt" and u.a[0] is a for u, v in st.units.items()): return tup(r, FALSE)
            if o2 == "Sub" and is_const(b, "int") and b.a[1] >= 0 and st.prove(neg(lt(a, b)), 3): return tup(r, FALSE)
            return tup(r, mk("ovf", o2, a, b))
        if o.endswith("Unchecked"): o = o[:-9]
        if o == "Eq": return eq(a, b)
        if o == "Ne": return neg(eq(a, b))
        if o == "Lt": return lt(a, b)
        if o == "Gt": return lt(b, a)
        if o == "Le": return neg(lt(b, a))
        if o == "Ge": return neg(lt(a, b))
        if o in ("BitAnd", "BitOr", "BitXor") and (is_boolish(a) or is_boolish(b)):
            if o == "BitAnd": return conj(a, b)
            if o == "BitOr": return disj(a, b)
            return neg(eq(a, b))
        return arith(o, a, b)

    # ------------------------------------------------------------------ forks
    def fork_bool(self, st, t):
        """[(truth value, state)]"""
        t = self.simp(st, t)
        v = st.val(t)
        if v is not None: return [(v, st)]
        t = self.split_ites(st, t)
        out = []
        s1 = st.copy()
        if s1.assume(t, True): out.append((True, s1))
        s2 = st.copy()
        if s2.assume(t, False): out.append((False, s2))
        return out
    def split_ites(self, st, t): return t
    def fork_variant(self, st, x, variants=None):
        """[(variant, state, payload-fn)] over the feasible variants of x."""
        x = self.pure(st, x)
        out = []
        if x.op == "adt": return [(x.a[1], st, x)]
        if x.op == "ite":
            for v, s in self.fork_bool(st, x.a[0]):
                out += self.fork_variant(s, x.a[1] if v else x.a[2], variants)
            return out
        if variants is None: variants = self.guess_variants(x)
        vs = [v for v in variants]
        for v in vs:
            s = st.copy()
            if not s.assume(is_variant(x, v), True): continue
            if not self.on_variant(s, x, v): continue
            out.append((v, s, x))
        return out
    def guess_variants(self, x): return ["Some", "None"]
    def on_variant(self, s, x, v):
        """Facts that come with knowing x's variant."""
        if x.op == "find" and v == "Some":
            c, p = x.a
            b, g = base_coll(c)
            e = elem(b)
            m = {e: mk("found", c, p)}
            if not s.assume(subst(p, m), True): return False
            for q in g:
                if not s.assume(subst(q, m), True): return False
        if x.op == "next":
            if v == "Some":
                b, g = base_coll(x.a[0])
                for q in g:
                    if not s.assume(q, True): return False
        return True

    # ----------------------------------------------------------------- merging
    def merge(self, fr, blk, sts):
        if len(sts) == 1:
            self.prune(fr, blk, sts[0]); return sts
        if len(sts) <= self.split:          # path-sensitive mode: no joins
            for s in sts: self.prune(fr, blk, s)
            return sts
        live = fr.info.live.get(blk, set()) | fr.info.mutb
        groups = {}
        for s in sts:
            self.prune(fr, blk, s)
            key = []
            for l in sorted(live):
                v = s.env.get((fr.fid, l))
                if v is not None:
                    sh = shape(self.simp(s, v))
                    if sh is not None: key.append((l, sh))
            groups.setdefault(tuple(key), []).append(s)
        if len(groups) > 24:
            # coarser partition: only the outermost variants
            cg = {}
            for key, l in groups.items():
                cg.setdefault(tuple((i, sh[0]) for i, sh in key if isinstance(sh, tuple) and isinstance(sh[0], str)), []).extend(l)
            groups = cg if len(cg) <= 24 else {0: sts}
        out = []
        n = 0
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                n += 1
                a = merge2(a, b, ("/".join(fr.path), fr.body["id"], blk, n))
            out.append(a)
        return out
    def prune(self, fr, blk, s):
        live = fr.info.live.get(blk)
        if live is None: return
        keep = fr.info.mutb
        dead = [k for k in s.env if k[0] == fr.fid and isinstance(k[1], int) and k[1] not in live and k[1] not in keep]
        for k in dead: del s.env[k]

    # --------------------------------------------------------------- execution
    def exec_body(self, body, args, st, callsite):
        self.nfid += 1
        fr = Frame(self.nfid, body, self.info(body), callsite, None)
        self.inlined.add(body["id"])
        self.stack.append(body["id"])
        for i, a in enumerate(args): st.env[(fr.fid, i + 1)] = a
        try:
            exits = self.run_region(fr, set(fr.info.rpo), 0, [st], False)
        finally:
            self.stack.pop()
        # group returns by the shape of the result
        groups = {}
        for s in fr.returns:
            v = self.simp(s, s.env.get((fr.fid, 0), UNIT))
            s.env[("ret", fr.fid)] = v
            for k in [k for k in s.env if k[0] == fr.fid and k[1] not in fr.info.mutb]: del s.env[k]
            groups.setdefault(len(groups) if len(fr.returns) <= self.split else shape(v), []).append(s)
        out = []
        n = 0
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                n += 1
                a = merge2(a, b, ("/".join(callsite), body["id"], "ret", n))
            r = a.env.pop(("ret", fr.fid), UNIT)
            # a returned shared value may not point into the dead frame
            r = self.escape(a, r, fr.fid)
            for k in [k for k in a.env if k[0] == fr.fid]:
                del a.env[k]
            out.append((r, a))
        return out
    def escape(self, st, v, fid, d=0):
        if v.op == "mref" and isinstance(v.a[0], tuple) and v.a[0][0] == fid:
            return self.pure(st, v)
        if d < 4 and v.op in ("adt", "tuple", "array", "closure", "coroutine", "ite"):
            def go(y):
                if isinstance(y, Term): return self.escape(st, y, fid, d + 1)
                if isinstance(y, tuple): return tuple(go(z) for z in y)
                return y
            na = tuple(go(y) for y in v.a)
            if na != v.a: v = mk(v.op, *na)
        return v

    def run_region(self, fr, region, entry, sts, is_loop):
        pend = defaultdict(list); pend[entry] = list(sts)
        exits = defaultdict(list)
        pos = fr.info.pos
        order = sorted(region, key=lambda b: pos[b])
        first = True
        for b in order:
            ss = pend.pop(b, None)
            if not ss: continue
            if b in fr.info.loops and not (is_loop and b == entry):
                outs = self.run_loop(fr, b, ss)
                for tgt, l in outs.items():
                    if tgt in region and not (is_loop and tgt == entry): pend[tgt] += l
                    elif is_loop and tgt == entry: exits["back"] += l
                    else: exits[tgt] += l
                continue
            for s in self.merge(fr, b, ss):
                for tgt, s2 in self.step(fr, b, s):
                    if is_loop and tgt == entry: exits["back"].append(s2)
                    elif tgt in region: pend[tgt].append(s2)
                    else: exits[tgt].append(s2)
        return exits

    def run_loop(self, fr, h, sts):
        blocks = fr.info.loops[h]
        outs = defaultdict(list)
        if self.unroll:
            r = self.try_unroll(fr, h, blocks, [s.copy() for s in sts])
            if r is not None: return r
        for s0 in self.merge(fr, h, sts):
            accs = {}
            base = s0
            # find what the loop modifies (dry passes), then summarise
            for _ in range(6):
                hs = base.copy()
                for loc, acc in accs.items():
                    if loc[0] == "heap": hs.heap[loc[1]] = acc
                    else: hs.env[loc] = acc
                self.dry += 1
                nret = len(fr.returns)
                try: ex = self.run_region(fr, blocks, h, [hs.copy()], True)
                finally:
                    self.dry -= 1
                    del fr.returns[nret:]
                new = False
                live = fr.info.live.get(h, set()) | fr.info.mutb
                for bs in ex.get("back", []):
                    for k, v in hs.env.items():
                        if k in accs: continue
                        if k[0] == fr.fid and isinstance(k[1], int) and k[1] not in live: continue
                        w = bs.env.get(k)
                        if w is None or w is v: continue
                        if self.is_adv(w, v): continue
                        accs[k] = mk("acc", fr.body["id"] + ":" + str(h), str(k[1]), v); new = True
                    for k in set(bs.heap) | set(hs.heap):
                        if ("heap", k) in accs: continue
                        v = hs.heap.get(k, k); w = bs.heap.get(k, k)
                        if w is v: continue
                        if k.op == "next" or mentions_loop(k, fr, h): continue
                        accs[("heap", k)] = mk("acc", fr.body["id"] + ":" + str(h), "heap", v); new = True
                if not new: break
            hs = base.copy()
            for loc, acc in accs.items():
                if loc[0] == "heap": hs.heap[loc[1]] = acc
                else: hs.env[loc] = acc
            u0 = set(hs.units); c0 = hs.clauses
            ex = self.run_region(fr, blocks, h, [hs.copy()], True)
            back = ex.pop("back", [])
            # facts holding at every back edge
            common = None
            for bs in back:
                u = {(t, v) for t, v in bs.units.items() if t not in u0 and t.op != "known"}
                c = bs.clauses - c0
                if common is None: common = (u, c)
                else:
                    # a fact of one state may hold in the other as a clause
                    common = (common[0] & u, common[1] & c)
            allback = None
            for n, bs in enumerate(back):
                allback = bs if allback is None else merge2(allback, bs, ("/".join(fr.path), fr.body["id"], h, "back", n))
            if len(back) > 1 and allback is not None:
                u = {(t, v) for t, v in allback.units.items() if t not in u0 and t.op != "known"}
                common = (u, allback.clauses - c0)
            if common: common = (common[0], drop_selectors(common[1], c0))
            for tgt, l in ex.items():
                for s in l:
                    it = None
                    for t, v in s.units.items():
                        if t.op == "is" and t.a[0].op == "next" and v is False and t not in u0:
                            it = t.a[0].a[0]
                    if it is not None:
                        b, g = base_coll(it)
                        e = elem(b)
                        if common:
                            for t, v in sorted(common[0], key=lambda x: x[0].id):
                                if mentions(t, e):
                                    s.assume(forall(it, t if v else neg(t)), True)
                            for c in sorted(common[1], key=lambda c: sorted(l[0].id for l in c)):
                                if any(mentions(l[0], e) for l in c):
                                    # guards that are about the iteration protocol itself are dropped
                                    s.assume(forall(it, disj(*[lit_term(l) for l in c])), True)
                        for loc, acc in accs.items():
                            fin = self.close_acc(acc, it, allback, loc)
                            if loc[0] == "heap":
                                if s.heap.get(loc[1]) is acc: s.heap[loc[1]] = fin
                            elif fin is not acc:
                                cur = s.env.get(loc)
                                if cur is not None and mentions(cur, acc): s.env[loc] = subst(cur, {acc: fin})
                    outs[tgt].append(s)
        return outs
    def try_unroll(self, fr, h, blocks, sts):
        """Iterate the loop until no state reaches its head again; None if that
        does not happen within the bound (the loop is then summarised)."""
        nret, nc, npn, na = len(fr.returns), len(self.calls), len(self.panics), len(self.adts_built)
        outs = defaultdict(list); cur = sts
        for _ in range(self.unroll):
            ex = self.run_region(fr, blocks, h, cur, True)
            cur = ex.pop("back", [])
            for tgt, l in ex.items(): outs[tgt] += l
            if not cur: return outs
            if len(cur) > 64: break
        del fr.returns[nret:], self.calls[nc:], self.panics[npn:], self.adts_built[na:]
        return None
    def is_adv(self, w, v):
        return w.op == "adv" and w.a[0] is v
    def close_acc(self, acc, it, back, loc):
        """Closed form of a value accumulated over the whole iteration."""
        if back is None: return acc.a[2]
        u = back.heap.get(loc[1]) if loc[0] == "heap" else back.env.get(loc)
        if u is None: return acc
        if u is acc: return acc.a[2]
        init = acc.a[2]
        self.acc_info[acc] = (it, u)
        def isempty(t): return empty(t) is TRUE or t.op in ("newvec",)
        if u.op == "push" and u.a[0] is acc and not mentions(u.a[1], acc):
            m = mk("map", it, u.a[1]) if u.a[1] is not elem(it) else it
            return m if isempty(init) else mk("extend", init, m)
        if u.op == "ite":
            c, x, y = u.a
            if y is acc and x.op == "push" and x.a[0] is acc:
                f = mk("filter", it, c)
                m = mk("map", f, x.a[1]) if x.a[1] is not elem(f) else f
                return m if isempty(init) else mk("extend", init, m)
            if x is acc and y.op == "push" and y.a[0] is acc:
                f = mk("filter", it, neg(c))
                m = mk("map", f, y.a[1]) if y.a[1] is not elem(f) else f
                return m if isempty(init) else mk("extend", init, m)
        if u.op == "insert" and u.a[0] is acc:
            m = mk("map", it, tup(u.a[1], u.a[2]))
            return m if isempty(init) else mk("extend", init, m)
        if u.op == "cat" and u.a[0] is acc and not any(mentions(x, acc) for x in u.a[1:]):
            return cat(init, mk("joined", it, cat(*u.a[1:])))
        # boolean flags
        if is_boolish(u) and is_const(init, "bool"):
            if u.op == "or" and acc in u.a and init is FALSE:
                return exists(it, disj(*[x for x in u.a if x is not acc]))
            if u.op == "and" and acc in u.a and init is TRUE:
                return forall(it, conj(*[x for x in u.a if x is not acc]))
        return acc

    def step(self, fr, b, st):
        self.steps += 1
        if self.steps > self.max_steps: raise Budget(f"step budget exhausted in {fr.body['path']}")
        blk = fr.body["blocks"][b]
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(fr, st, s[2], s[3] if len(s) > 3 else blk["l"])
                self.assign(fr, st, s[1], v)
            elif s[0] == "setd":
                root, projs = self.locate(fr, st, s[1])
                self.write_loc(st, root, projs, adt("?", s[2], True, ()))
        t = blk["t"]; k = t[0]
        if k == "goto": return [(t[1], st)]
        if k == "drop": return [(t[2], st)]
        if k == "return":
            fr.returns.append(st); return []
        if k == "switch": return self.switch(fr, st, t)
        if k == "call": return self.call(fr, b, st, t, blk)
        if k == "assert":
            c = self.pure(st, self.op(fr, st, t[1]))
            out = []
            for v, s in self.fork_bool(st, c):
                if v == t[2]: out.append((t[4], s))
                else: self.panic("assert", fr, blk, s, t[3])
            return out
        return []
    def panic(self, kind, fr, blk, st, what=""):
        if not self.dry:
            self.panics.append(Panic(kind, (blk.get("f"), blk["l"]), st.copy(), fr.body["path"], what))

    def assign(self, fr, st, place, v):
        if isinstance(place, int): st.env[(fr.fid, place)] = v; return
        root, projs = self.locate(fr, st, place)
        self.write_loc(st, root, projs, v)

    def switch(self, fr, st, t):
        x = self.op(fr, st, t[1])
        x = self.pure(st, x)
        out = []
        if x.op == "discr":
            y, vs = x.a
            names = dict(vs)
            tg = {names.get(int(v), v): b for v, b in t[3]}
            allv = [n for _, n in vs]
            for v, s, _ in self.fork_variant(st, y, allv):
                out.append((tg.get(v, t[4]), s))
            return out
        if t[2] == "bool":
            zero = next((b for v, b in t[3] if v == "0"), t[4])
            one = next((b for v, b in t[3] if v == "1"), t[4])
            for v, s in self.fork_bool(st, x): out.append((one if v else zero, s))
            return out
        if x.op == "ite":
            for v, s in self.fork_bool(st, x.a[0]): out += self.switch_int(s, x.a[1] if v else x.a[2], t)
            return out
        return self.switch_int(st, x, t)
    def switch_int(self, st, x, t):
        out = []
        x = self.simp(st, x)
        mkc = (lambda v: const("char", chr(int(v)))) if t[2] == "char" else (lambda v: integer(int(v)))
        rest = st.copy(); alive = True
        for v, b in t[3]:
            a = eq(x, mkc(v))
            s = rest.copy()
            if s.assume(a, True): out.append((b, s))
            if not rest.assume(a, False): alive = False; break
        if alive: out.append((t[4], rest))
        return out

    # -------------------------------------------------------------------- calls
    def call(self, fr, b, st, t, blk):
        f = self.op(fr, st, t[1])
        args = [self.op(fr, st, o) for o in t[2]]
        site = f"{fr.body['id']}:{b}"
        res = self.invoke(fr, st, f, args, blk, site, t[5], t[6])
        out = []
        for v, s in res:
            if t[4] is None: continue
            self.assign(fr, s, t[3], v)
            out.append((t[4], s))
        return out

    def invoke(self, fr, st, f, args, blk, site, aty=None, rty=None):
        """[(result, state)] of calling the value f."""
        f = self.pure(st, f)
        if f.op == "closure":
            b = self.p.bodies.get(f.a[0])
            if b is None or self.stack.count(b["id"]) > self.maxrec or len(self.stack) > self.max_depth:
                return [(mk("app", "closure", *[self.pure(st, a) for a in args]), st)]
            return self.exec_body(b, [f] + args, st, fr.path + (site,))
        if f.op == "ite":
            out = []
            for v, s in self.fork_bool(st, f.a[0]):
                out += self.invoke(fr, s, f.a[1] if v else f.a[2], args, blk, site, aty, rty)
            return out
        if f.op != "fn":
            self.unmodelled["indirect"] += 1
            return [(mk("app", "indirect", f, *[self.pure(st, a) for a in args]), st)]
        c = self_fns[f.a[0]]
        return self.call_fn(fr, st, c, args, blk, site, aty, rty)

    def call_fn(self, fr, st, c, args, blk, site, aty=None, rty=None):
        path = c["path"]
        sp = shortpath(path)
        if "ctor" in c:
            a = c["ctor"]
            t = adt(a[0], a[1], a[2], tuple((str(i), x) for i, x in enumerate(args)))
            if self.watch_adt and not self.dry and any(w(a[0], a[1]) for w in self.watch_adt):
                self.adts_built.append((a[0], a[1], self.deep(st, t), st.copy(), (fr.body["path"], blk["l"])))
            return [(t, st)]
        cid = c.get("rid", c["id"])
        rpath = c.get("rpath", path)
        self._ctx = (fr, blk, site, c, aty or [], rty or "")
        if self.watch and not self.dry:
            for w in self.watch:
                if w.search(path) or w.search(rpath):
                    self.calls.append((sp, [self.deep(st, a) for a in args], st.copy(), (fr.body["path"], blk["l"]), path))
                    break
        opaque = any(o.search(rpath) or o.search(path) for o in self.opaque)
        if not opaque:
            b = self.p.bodies.get(cid)
            m = self.models.get(sp) if (b is None or sp in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once") or b.get("derived") and b.get("name") in ("clone", "eq", "ne")) else None
            if m is None and b is None: m = self.models.get(path)
            if b is not None and m is None and not self.skip_inline(b):
                if self.stack.count(b["id"]) <= self.maxrec and len(self.stack) < self.max_depth:
                    return self.exec_body(b, args, st, fr.path + (site,))
            if m is not None:
                r = m(self, st, args, c)
                if r is not None: return r
        elif "!" + sp in self.models:
            r = self.models["!" + sp](self, st, args, c)
            if r is not None: return r
        return self.opaque_call(fr, st, c, args, blk, site, rty)

    def skip_inline(self, b):
        tr = b.get("impl_trait") or ""
        if b.get("derived") and not tr.endswith("Default"): return True
        if tr.startswith("serde") or tr.startswith("std::fmt") : return True
        return False

    IMPURE = re.compile(r"^(fastrand::|rand::|chrono::Utc::now|uuid::|vercre_core::gen::|std::time::)|::(StateStore|Metadata|Subject|Provider|DidResolver|SecOps|Signer)::")
    def opaque_call(self, fr, st, c, args, blk, site, rty):
        path = c["path"]; rpath = c.get("rpath", path)
        sp = shortpath(path)
        self.unmodelled[sp] += 1
        vals = [self.deep(st, a) for a in args]
        impure = bool(self.IMPURE.search(path))
        extra = ()
        if impure or not args:
            extra = ("/".join(fr.path) + site,)
        if path.startswith(("serde", "core::str::<impl str>::parse")) and rty not in ("bool", ""):
            extra = (mk("type", rty),) + extra   # the result type selects the behaviour
        r = mk("bapp" if rty == "bool" else "app", sp, *vals, *extra)
        if any(e.search(path) for e in self.effects) or impure:
            st.units[mk("ev", sp, *vals)] = True
        # the callee may change what it can reach through mutable references
        for i, a in enumerate(args):
            a = self.simp(st, a)
            if a.op == "mref":
                self.write_loc(st, a.a[0], a.a[1], mk("mut", sp, i, *vals))
            elif self._ctx[4] and i < len(self._ctx[4]) and self._ctx[4][i].startswith("&mut") and a.op not in ("const", "fn"):
                st.heap[a] = mk("mut", sp, i, *vals)
        if rty == "!":
            self.panic("call", fr, blk, st, sp)
            return []
        return [(r, st)]

    # ------------------------------------------------------- helpers for models
    def call_value(self, st, f, args):
        """Calls a function value from a model. [(result, state)]"""
        fr, blk, site, c, aty, rty = self._ctx
        save = self._ctx
        try: return self.invoke(fr, st, f, args, blk, site + "!", None, None)
        finally: self._ctx = save
    def value_of(self, st, f, args):
        """One merged result term for a closure applied to args (its own branches
        become gated terms); also returns the merged state."""
        outs = self.call_value(st.copy(), f, args)
        if not outs: return None, None
        acc = None
        for n, (v, s) in enumerate(outs):
            s.env[("ret", -1)] = v
            acc = s if acc is None else merge2(acc, s, ("/".join(self._ctx[0].path), self._ctx[2], "val", n))
        v = acc.env.pop(("ret", -1))
        return self.simp(st, v), acc

    def note(self, st, name, *args):
        """Record a collection update as an event fact."""
        st.units[mk("ev", name, *args)] = True

    # ------------------------------------------------------------------- entry
    def analyse(self, path, params=None, coroutine=None, state=None):
        """Analyse one entry point with symbolic arguments; returns outcomes.
        params maps a parameter (position from 0, or name) to the term it holds;
        parameter n is param("$n") otherwise.  A &mut parameter's value is kept in
        env[(0, n)]."""
        b = self.p.find(path) if isinstance(path, str) else path
        if b is None: return None
        st = state or State()
        names = {}
        for n, p in b["names"]:
            if isinstance(p, int): names[p] = n
        params = params or {}
        args = []
        for i in range(1, b["argc"] + 1):
            n = names.get(i, f"arg{i}")
            ty = b["locals"][i]
            t = params.get(i - 1, params.get(n, None))
            if t is None: t = mk("param", n)
            if (ty.startswith("&mut") or (ty.startswith("&'") and " mut " in ty[:12])) and t.op != "mref":
                st.env[(0, i - 1)] = t
                t = mk("mref", (0, i - 1), ())
            args.append(t)
        outs = self.exec_body(b, args, st, ())
        res = []
        for v, s in outs:
            if v.op == "coroutine":
                cb = self.p.bodies.get(v.a[0])
                for v2, s2 in self.exec_body(cb, [v, mk("param", "_cx")], s, ("await",)): res.append((v2, s2))
            else: res.append((v, s))
        return res

def mentions_loop(k, fr, h):
    for t in subterms(k):
        if t.op == "elem": return True
    return False

self_fns = {}
