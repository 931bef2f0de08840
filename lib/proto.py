"""Shared by the rules about the protocol endpoints: one endpoint is analysed for an
arbitrary request and an arbitrary stored state, and the facts that hold on every path
to a stored record, a removed record or a successful response are compared with the
specification.  Storage, metadata, subject, key and clock calls are atoms."""
import re
from terms import *
from engine import State
import models
from models import MODELS, P, ret

NOW = mk("app", "now")
def stored(key): return mk("app", "stored", key)
def payload(r): return field(r, "Ok", "0")
def inner(o): return field(o, "Some", "0")

def secs(n): return lambda e, st, a, c: _dur(e, st, a, n, False)
def _dur(e, st, a, n, opt):
    v = P(e, st, a[0])
    r = integer(int(v.a[1] * n)) if is_const(v, "int") and (v.a[1] * n) == int(v.a[1] * n) else mk("app", f"duration*{n}", v)
    return [(some(r) if opt else r, st)]
UNITS = {"milliseconds": 0.001, "seconds": 1, "minutes": 60, "hours": 3600, "days": 86400, "weeks": 604800}

def elapsed(x, y):
    if x is y: return integer(0)
    if x.op == "Add" and x.a[0] is y: return x.a[1]
    return mk("tdiff", x, y)
def time_models(m):
    m["Utc::now"] = lambda e, st, a, c: [(NOW, st)]
    for u, n in UNITS.items():
        for t in ("TimeDelta", "Duration"):
            m[f"{t}::{u}"] = (lambda n: lambda e, st, a, c: _dur(e, st, a, n, False))(n)
            m[f"{t}::try_{u}"] = (lambda n: lambda e, st, a, c: _dur(e, st, a, n, True))(n)
    for t in ("TimeDelta", "Duration"):
        m[f"{t}::num_seconds"] = m[f"{t}::as_secs"] = lambda e, st, a, c: [(P(e, st, a[0]), st)]
        m[f"{t}::zero"] = lambda e, st, a, c: [(integer(0), st)]
        m[f"{t}::num_milliseconds"] = lambda e, st, a, c: [((lambda v: v if v.op == "tdiff" else mk("app", "ms", v))(P(e, st, a[0])), st)]
    def diff(e, st, a, c):
        x, y = P(e, st, a[0]), P(e, st, a[1]); return [(elapsed(x, y), st)]
    m["DateTime::signed_duration_since"] = diff
    def tsub(e, st, a, c):
        x, y = P(e, st, a[0]), P(e, st, a[1])
        if "DateTime" not in c["path"] + str(e._ctx[4]): return None
        if is_const(y, "int"): return [(arith("Add", x, integer(-y.a[1])), st)]
        return [(elapsed(x, y), st)] if "TimeDelta" not in str(e._ctx[4][1:]) else None
    def tadd(e, st, a, c):
        x, y = P(e, st, a[0]), P(e, st, a[1])
        return [(arith("Add", x, y), st)] if "DateTime" in c["path"] + str(e._ctx[4]) else None
    for n, f in (("Sub::sub", tsub), ("Add::add", tadd)):
        old = MODELS.get(n)
        m[n] = (lambda f, old: lambda e, st, a, c: f(e, st, a, c) or (old(e, st, a, c) if old else None))(f, old)
    m["DateTime::checked_add_signed"] = lambda e, st, a, c: [(some(arith("Add", P(e, st, a[0]), P(e, st, a[1]))), st)]
    m["DateTime::timestamp"] = lambda e, st, a, c: [(P(e, st, a[0]), st)]

def before(t, sep):
    """The part of a text before the first separator (all of it if there is none)."""
    return mk("app", "before", t, sep)
def text_models(m):
    old = m["Iterator::next"]
    def nxt(e, st, a, c):
        it = P(e, st, a[0]); fr, blk = e._ctx[0], e._ctx[1]
        if it.op == "app" and it.a[0] in ("str::split", "str::splitn") and len(it.a) >= 3 and is_const(it.a[-1]) and (e.unroll or not models.in_loop(fr, blk)) and not (it.a[0] == "str::splitn" and it.a[2] is integer(1)):
            if a[0].op == "mref": e.write_loc(st, a[0].a[0], a[0].a[1], mk("adv", it))
            return [(some(before(it.a[1], it.a[-1])), st)]
        return old(e, st, a, c)
    m["Iterator::next"] = nxt
    old1 = m["str::split_once"]
    def once(e, st, a, c):
        t, p = P(e, st, a[0]), P(e, st, a[1]); r = old1(e, st, a, c)
        if len(r) != 1 or r[0][0].op != "app" or not is_const(p): return r
        out = []
        for b, s in e.fork_bool(st, mk("contains", t, p)):
            out.append((some(tup(before(t, p), mk("app", "after", t, p))), s) if b else (NONE, s))
        return out
    m["str::split_once"] = once
def is_before(t, whole, sep, s):
    return t is before(whole, sep) or t is whole and s.prove(neg(mk("contains", whole, sep)))

class Flow:
    """One endpoint, analysed once."""
    def __init__(self, ctx, crates, entry, opaque=(), params=None, extra=None, watch=(), cells=None, state=None, tune=None):
        self.ctx = ctx; self.p = ctx.program(*crates); self.entry = entry
        self.puts = []; self.purges = []; self.gets = []; self.asks = []
        e = self.e = ctx.engine(self.p, opaque=[r"^vercre_core::(gen|pkce)::"] + list(opaque), watch=list(watch))
        m = e.models = dict(MODELS)
        time_models(m); text_models(m)
        cells = cells or {}
        def site(e_): return (e_._ctx[0].body["path"], e_._ctx[1]["l"])
        def rec(name, lst, args):
            def f(e_, st, a, c):
                v = [e_.deep(st, x) for x in a[1:1 + args]]
                t = mk("app", name, *v)
                if name == "stored" and v[0] in cells: t = cells[v[0]]
                if not e_.dry: lst.append((v, st.copy(), site(e_), t))
                st.units[mk("ev", name, *v)] = True
                return [(t, st)]
            return f
        m["StateStore::get"] = rec("stored", self.gets, 1)
        m["StateStore::put"] = rec("put", self.puts, 3)
        m["StateStore::purge"] = rec("purge", self.purges, 1)
        def ask(name):
            def f(e_, st, a, c):
                v = [e_.deep(st, x) for x in a[1:]]
                t = mk("app", name, *v)
                if not e_.dry: self.asks.append((name, v, st.copy(), site(e_), t))
                st.units[mk("ev", name, *v)] = True
                return [(t, st)]
            return f
        for n in ("Metadata::server", "Metadata::issuer", "Metadata::client", "Metadata::register", "Metadata::verifier",
                  "Subject::authorize", "Subject::dataset"): m[n] = ask(n)
        if extra: m.update(extra)
        if tune: tune(e)
        self.outs = ctx.analyse(e, entry, params=params, state=state)
        if self.outs is None: self.outs = []
        self.where = f"{entry}"
    def oks(self):
        return [(v, s) for v, s in self.outs if not (v.op == "adt" and v.a[1] == "Err")]
    def good(self, key):
        """Every outcome that may be a success; there has to be one."""
        r = []
        for v, s in self.oks():
            if v.op == "adt" and v.a[0] == RES: r.append((v.a[3][0][1], s)); continue
            s2 = s.copy()
            if s2.assume(is_variant(v, "Ok"), True): r.append((payload(v), s2))
        if not r: self.ctx.fail(key + ":reach", "the endpoint can succeed", self.where, "no successful outcome was found")
        return r
    def require(self, key, states, fact, rule, depth=10):
        """fact (a term, or a function of the state giving one or several alternatives) holds in all of them."""
        n = 0
        for s, w in states:
            ts = fact(s) if callable(fact) else fact
            ts = ts if isinstance(ts, (list, tuple)) else [ts]
            n += 1
            hold = any(t is not None and s.prove(t, depth) for t in ts)
            if not self.ctx.ob(key, hold, rule, w, f"on a path reaching {w[0]} line {w[1]}: not established: {ap(ts[0])[:300]}" if isinstance(w, tuple) else f"not established on success: {ap(ts[0])[:300]}"):
                return False
        if n == 0: return self.ctx.fail(key, rule, self.where, "nothing was found to check")
        return True
    def okstates(self, key): return [(s, self.where + " success") for _, s in self.good(key)]
    def putstates(self): return [(s, w) for _, s, w, _ in self.puts]

def not_expired(t):
    """t is a point in time not before now (alternatives)."""
    return [neg(lt(t, NOW)), lt(NOW, t)]

# ------------------------------------------------------------------ templates
def struct(p, ty, base=None, **kw):
    """A struct value: the fields given, otherwise base's field of that name (or an opaque one)."""
    a = p.adts[ty]
    return adt(ty, a["variants"][0][0], False, tuple(
        (n, kw[n] if n in kw else field(base, None, n) if base is not None else NONE if t.startswith("std::option::Option") else mk("tok", f"{ty.split('::')[-1]}.{n}"))
        for n, t, _ in a["variants"][0][1]))
def variant(p, ty, v, base=None, **kw):
    for n, fs, *_ in p.adts[ty]["variants"]:
        if n == v: return adt(ty, v, True, tuple((f, kw[f] if f in kw else field(base, v, f) if base is not None else mk("tok", f"{v}.{f}")) for f, *_ in fs))
    return None

def locate(t, target, pred=None):
    """The access path (list of (variant, field)) of the innermost field of an ADT value whose
    value mentions the target."""
    def has(x): return any(pred(y) if pred else y is target for y in subterms(x))
    out = []
    while True:
        if t.op == "with":
            if has(t.a[3]): out.append((t.a[1] or None, t.a[2])); t = t.a[3]; continue
            t = t.a[0]; continue
        if t.op != "adt": return out
        for n, v in t.a[3]:
            if has(v): out.append((t.a[1] if t.a[2] else None, n)); t = v; break
        else: return out
        if t.op == "adt" and t.a[0] in (OPT, RES): return out
def at(base, path):
    for v, n in path: base = field(base, v, n)
    return base
def opt_eq(s, a, b, depth=10):
    """Two optional values are equal in every case."""
    if s.prove(eq(a, b), depth): return True
    x, y = is_variant(a, "Some"), is_variant(b, "Some")
    return s.prove(disj(neg(x), y), depth) and s.prove(disj(x, neg(y)), depth) and s.prove(disj(neg(x), eq(inner(a), inner(b))), depth)
def calls_of(t, name): return [x for x in subterms(t) if x.op == "app" and x.a[0] == name]
