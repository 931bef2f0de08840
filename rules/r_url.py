"""Rules for the url-encoder and decoder (vercre_core::urlencode).

The encoder is treated as a typestate: a *context* is the serializer's own state
(everything but the text written so far).  For each context reachable from the
one `to_string` starts in, and each method of the serde data model, the dataflow
engine computes the text the method appends (literals, escaped content, and holes
where a nested value is written, each with the context it is written in) and the
context it leaves behind.  The obligations are per context and method, so they
hold by induction for every value of every serialisable type."""
import re
from registry import prop
from terms import *
from engine import State
import models
from models import MODELS, upd, P, pct_const
from r_core import TRUST, leaves

SER = "serde::Serializer"
KEPT = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")
PRE = mk("param", "pre")

class Enc:
    """The encoder's transfer functions."""
    def __init__(self, ctx, p):
        self.ctx = ctx; self.p = p
        self.m = {}
        for b in p.bodies.values():
            t = b.get("impl_trait") or ""
            if t.startswith("serde") and b.get("name") and "urlencode" in (b.get("self_ty") or "") + b["path"]:
                self.m[(t.split("::")[-1], b["name"])] = b
        self.holes = {}
        self.cls = {}
        self.start = None; self.final = None; self.nonempty = False; self.sets = {}
    def body(self, tr, name):
        b = self.m.get((tr, name))
        if b is None: self.ctx.fail(f"anchor:{tr}::{name}", "the encoder implements the serde data model", "urlencode", "method not found")
        return b
    def engine(self):
        e = self.ctx.engine(self.p)
        e.models = dict(MODELS)
        e.models["Serialize::serialize"] = self.m_serialize
        for n in ("Serializer::", "SerializeSeq::", "SerializeTuple::", "SerializeTupleStruct::", "SerializeMap::", "SerializeStruct::",
                  "SerializeTupleVariant::", "SerializeStructVariant::"):
            for (t, name), b in self.m.items():
                if n == t + "::": e.models[n + name] = self.direct(b)
        e.models["Serializer::collect_seq"] = self.m_collect_seq
        e.json_strings = True
        e.models["serde_json::to_string"] = lambda e_, st, a, c: self.m_json(e_, st, a, c)
        e.skip_inline = lambda b: bool(b.get("derived")) and not (b.get("impl_trait") or "").endswith("Default")
        e.edge_hook = self.edge
        return e
    def direct(self, b):
        def f(e, st, a, c):
            fr, blk, site, *_ = e._ctx
            if e.stack.count(b["id"]) > 1: return None
            return e.exec_body(b, a, st, fr.path + (site,))
        return f
    def m_collect_seq(self, e, st, a, c):
        """serde's provided method: opens a sequence, writes each element, closes it."""
        xs = models.arr(P(e, st, a[1]))
        if xs is None: return None
        fr, blk, site, *_ = e._ctx
        def call(t, n, args, s):
            b = self.m.get((t, n))
            return [] if b is None else e.exec_body(b, args, s, fr.path + (site,))
        done = []; cur = []
        for v, s in call("Serializer", "serialize_seq", [a[0], some(integer(len(xs)))], st):
            (cur if v.op == "adt" and v.a[1] == "Ok" else done).append((v, s))
        cur = [(v.a[3][0][1], s) for v, s in cur]
        for x in xs:
            nxt = []
            for q, s in cur:
                s.env[(0, "collected")] = q
                for v, s2 in call("SerializeSeq", "serialize_element", [mk("mref", (0, "collected"), ()), x], s):
                    if v.op == "adt" and v.a[1] == "Ok": nxt.append((s2.env[(0, "collected")], s2))
                    else: done.append((v, s2))
            cur = nxt
        for q, s in cur: done += call("SerializeSeq", "end", [q], s)
        return done
    def m_json(self, e, st, a, c):
        t = (c["targs"] or [""])[0]
        v = P(e, st, a[0])
        if models.STRINGY.match(t) or t in ("char",):
            s1 = st.copy()
            return [(ok(mk("json", v)), st), (err(mk("app", "json_err", v)), s1)]
        return None
    def outfield(self, s):
        """Name of the text field of a serializer term."""
        if s.op != "adt": return None
        a = self.p.adts.get(s.a[0])
        if not a: return None
        for n, ty, *_ in a["variants"][0][1]:
            if ty == "std::string::String": return n
        return None
    def m_serialize(self, e, st, a, c):
        """value.serialize(serializer): text goes to serialize_str, other values are holes."""
        t = (c["targs"] or [""])[0]
        if re.match(r"^(&('\w+ )?)*(str|std::string::String)$", t) or is_const(P(e, st, a[0]), "str") or P(e, st, a[0]) is TEXT:
            b = self.m.get(("Serializer", "serialize_str"))
            if b is None: return None
            fr, blk, site, *_ = e._ctx
            return e.exec_body(b, [a[1], P(e, st, a[0])], st, fr.path + (site,))
        s = e.deep(st, a[1])
        f = self.outfield(s)
        v = P(e, st, a[0])
        if f is None: return None
        key = self.ckey(s)
        if re.match(r"^&*[iu](8|16|32|64|size)$", t): h = mk("display", v)
        else: h = mk("hole", v, key)
        n = setfield(s, None, f, cat(field(s, None, f), h))
        s2 = st.copy()
        upd(e, st, a[1], n)
        return [(ok(UNIT), st), (err(mk("app", "nested_err", v)), s2)]
    def ckey(self, s):
        """A context: the serializer's state without its text."""
        f = self.outfield(s)
        return setfield(s, None, f, string("")) if f else s
    def edge(self, how, x, q):
        """What the last character of a written value can be."""
        if x.op == "hole" and how == "ends":
            if self.classify(x.a[1]) == "json" and len(q) == 1: return False if q in "[{,:&=" else None
            # members of a top-level variant are unquoted: their form is judged for members that are not the empty text
            if self.nonempty and len(q) == 1 and q in "[{": return False if q in self.kept_out(x.a[1]) else None
        if x.op == "display" and how == "ends" and q in "[{,:&=": return False
        if x.op == "json" and how == "ends": return q == '"' if len(q) == 1 else None
        if x.op == "pct" and x.a[1].op == "json" and how == "ends" and len(q) == 1:
            return False if q in "[{,:&=" else None
        return None
    def classify(self, key):
        """How a text is written in this context: 'json' (quoted), 'plain', or '?'."""
        if key in self.cls: return self.cls[key]
        self.cls[key] = "?"
        v = mk("param", "text")
        r = self.run(key, "serialize_str", [v])
        kinds = set()
        for o in r:
            if o.ok: kinds.add(self.textkind(o.text, v))
        self.cls[key] = kinds.pop() if len(kinds) == 1 else "?"
        return self.cls[key]
    def kept_out(self, key):
        """Characters that a text never contributes as such in this context: they are escaped when it is written."""
        if key not in self.sets:
            self.sets[key] = set()
            out = None
            for o in self.run(key, "serialize_str", [mk("param", "text")]):
                if not o.ok: continue
                t = o.text; cs = set()
                while t is not None and t.op == "pct": cs |= set(t.a[0]); t = t.a[1]
                out = cs if out is None else out & cs
            self.sets[key] = out or set()
        return self.sets[key]
    def textkind(self, t, v):
        while t.op == "pct": t = t.a[1]
        if t is v: return "plain"
        if t.op == "json" and t.a[0] is v: return "json"
        if t.op == "cat" and len(t.a) == 3 and is_const(t.a[0], "str") and t.a[0].a[1] == '"' and is_const(t.a[2], "str") and t.a[2].a[1] == '"': return "quoted"
        return "?"
    def run(self, key, name, args, pre=PRE, unroll=None):
        b = self.body("Serializer", name)
        if b is None: return []
        e = self.engine()
        if unroll: e.unroll = unroll
        st = State()
        f = self.outfield(key)
        st.env[(0, "ser")] = setfield(key, None, f, pre)
        params = {0: mk("mref", (0, "ser"), ())}
        for i, a in enumerate(args): params[i + 1] = a
        outs = self.ctx.analyse(e, b, params=params, state=st)
        return self.outcomes(e, outs, pre)
    def outcomes(self, e, outs, pre):
        res = []
        for v, s in outs or []:
            o = Out()
            o.e, o.st, o.v = e, s, v
            ser = e.deep(s, s.env[(0, "ser")])
            f = self.outfield(ser)
            o.ser = ser
            o.ok = v.op == "adt" and v.a[1] == "Ok"
            o.known = v.op == "adt"
            o.key = self.ckey(ser)
            o.text = strip(field(ser, None, f), pre) if f else None
            res.append(o)
        return res
    def container(self, key, start, sargs, steps, endt, pre=PRE):
        """Opens a container, performs the given member calls and closes it.
        Returns the outcomes in which every call succeeded."""
        b = self.body("Serializer", start)
        if b is None: return []
        f = self.outfield(key)
        e = self.engine()
        st = State()
        st.env[(0, "ser")] = setfield(key, None, f, pre)
        params = {0: mk("mref", (0, "ser"), ())}
        for i, a in enumerate(sargs): params[i + 1] = a
        cur = [(v, s) for v, s in self.ctx.analyse(e, b, params=params, state=st) or [] if v.op == "adt" and v.a[1] == "Ok"]
        for v, s in cur: s.env[(0, "c")] = v.a[3][0][1]
        cur = [s for _, s in cur]
        for tr, name, args in steps:
            mb = self.body(tr, name)
            if mb is None: return []
            nxt = []
            for s in cur:
                pr = {0: mk("mref", (0, "c"), ())}
                for i, a in enumerate(args): pr[i + 1] = a
                for v, s2 in e.analyse(mb, params=pr, state=s) or []:
                    if v.op == "adt" and v.a[1] == "Ok": nxt.append(s2)
            cur = nxt
        mb = self.body(endt, "end")
        if mb is None: return []
        outs = []
        for s in cur:
            outs += e.analyse(mb, params={0: s.env[(0, "c")]}, state=s) or []
        return [o for o in self.outcomes(e, outs, pre) if o.ok]

class Out: pass
def strip(t, pre):
    """The text appended after `pre`, or None when the old text was not kept."""
    if pre is t: return string("")
    if is_const(pre, "str") and pre.a[1] == "": return t
    if t.op == "cat":
        ps = list(pre.a) if pre.op == "cat" else [pre]
        xs = list(t.a)
        for i, q in enumerate(ps):
            if i >= len(xs): return None
            if xs[i] is q: continue
            if is_const(q, "str") and is_const(xs[i], "str") and xs[i].a[1].startswith(q.a[1]) and i == len(ps) - 1:
                return cat(string(xs[i].a[1][len(q.a[1]):]), *xs[i + 1:])
            return None
        return cat(*xs[len(ps):])
    return None
def pieces(t): return list(t.a) if t.op == "cat" else [t] if t is not None and not (is_const(t, "str") and t.a[1] == "") else []

def show(t):
    return "".join(x.a[1] if is_const(x, "str") else "<" + ap(x)[:60] + ">" for x in pieces(t)) if t is not None else "the text written before is lost"

def setup(ctx):
    p = ctx.program("vercre_core")
    en = Enc(ctx, p)
    # the context an encoding starts in, and what happens to the finished text
    ent = [b for b in p.bodies.values() if b.get("name") == "to_string" and b["path"].startswith("vercre_core::urlencode") and not b.get("impl_trait")]
    if not ent: ctx.fail("anchor:to_string", "the encoder's entry point exists", "vercre_core::urlencode", "not found"); return None
    e = en.engine()
    seen = []
    def m(e_, st, a, c):
        s = e_.deep(st, a[1])
        f = en.outfield(s)
        if f is None: return None
        seen.append(s)
        s2 = st.copy()
        upd(e_, st, a[1], setfield(s, None, f, mk("param", "OUT")))
        return [(ok(UNIT), st), (err(mk("app", "nested_err")), s2)]
    e.models["Serialize::serialize"] = m
    outs = ctx.analyse(e, ent[0]) or []
    en.entry = ent[0]["path"]
    ser = lambda b: "urlencode" in b["path"] and not re.search(r"(CONTENT|UNRESERVED|ENCODE)", b["path"])
    # member names include every short text the serializer mentions
    ws = [w for w in ctx.words(p, where=lambda b: "urlencode" in b["path"]) if re.fullmatch("[A-Za-z0-9_-]+", w)]
    ws = sorted({y for w in ws for y in (w, w + "x", "x" + w)} | {"id", "type", "_x", "x_", "null", "true", "0"})[:120]
    NAMES[3:] = ws + [f"k{i}" for i in range(4, 400)]
    en.large = max(ctx.reach(p, 20, where=ser), 4 + len(ws))
    en.deep_ = ctx.reach(p, 40, where=ser)
    if any(ty in ("u8", "i8") for n_, a in p.adts.items() if "urlencode" in n_ for v in a["variants"] for _, ty, *_r in v[1]): en.deep_ = 260; ctx.stats['narrow nesting counter'] += 1
    good = [v for v, s in outs if v.op == "adt" and v.a[1] == "Ok"]
    ctx.ob("entry:start", len(set(seen)) == 1, "an encoding starts in one fixed state", en.entry, [ap(x)[:100] for x in seen])
    if len(set(seen)) != 1: return None
    s = seen[0]; f = en.outfield(s)
    ctx.ob("entry:empty", is_const(field(s, None, f), "str") and field(s, None, f).a[1] == "", "an encoding starts with no text", en.entry, ap(s)[:100])
    ctx.ob("entry:error", all(v.op == "adt" for v, _ in outs) and any(v.a[1] == "Err" for v, _ in outs), "a failed encoding is an error", en.entry, [ap(v)[:100] for v, _ in outs])
    en.start = en.ckey(s)
    fin = None
    if len(good) == 1:
        t = good[0].a[3][0][1]
        OUT = mk("param", "OUT")
        if t is OUT: fin = frozenset()
        elif t.op == "pct" and t.a[1] is OUT: fin = frozenset(t.a[0])
    en.final = fin
    ctx.ob("entry:final", fin is not None, "the finished text is percent-encoded as a whole, or already is", en.entry, [ap(v)[:200] for v in good])
    return en

NAMES = [f"k{i}" for i in range(1, 400)]
VALS = [mk("param", f"value{i}") for i in range(1, 400)]

def shape_top(en, ctx):
    """Contexts of the top-level values (struct and map), with their obligations."""
    keys = set()
    for kind in ("struct", "map"):
        want = []; steps = []
        for k, v in zip(NAMES[:en.large], VALS):
            if kind == "struct": steps.append(("SerializeStruct", "serialize_field", [string(k), v]))
            else:
                steps.append(("SerializeMap", "serialize_key", [mk("param", k)])); steps.append(("SerializeMap", "serialize_value", [v]))
        st = "serialize_struct" if kind == "struct" else "serialize_map"
        sa = [mk("param", "tyname"), integer(3)] if kind == "struct" else [mk("param", "len")]
        for n in (0, 1, 2, 3, en.large):
            ss = steps[:n] if kind == "struct" else steps[:2 * n]
            outs = en.container(en.start, st, sa, ss, "SerializeStruct" if kind == "struct" else "SerializeMap", string(""))
            ctx.ob(f"top:{kind}:{n}:outcome", len(outs) == 1, "a top-level value has one encoding", en.entry, [show(o.text) for o in outs])
            for o in outs:
                bad = check_top(en, o.text, kind, n, keys)
                ctx.ob(f"top:{kind}:{n}", bad is None, "top-level members are `key=value` joined by `&`", f"{kind} of {n} members", f"{bad}: {show(o.text)}")
    # newtype variant: Name=value
    for o in en.run(en.start, "serialize_newtype_variant", [mk("param", "tyname"), mk("param", "vidx"), string("Name"), VALS[0]], string("")):
        if not o.ok: continue
        xs = pieces(o.text)
        okk = len(xs) == 2 and is_const(xs[0], "str") and xs[0].a[1] == "Name=" and xs[1].op == "hole" and xs[1].a[0] is VALS[0]
        ctx.ob("top:newtype_variant", okk, "a top-level newtype variant is `Name=value`", "newtype variant", show(o.text))
        if okk: keys.add(xs[1].a[1])
    # tuple and struct variants: Name=[..] and Name={..}, every member in place
    N, I0, VN = mk("param", "tyname"), mk("param", "vidx"), string("Name")
    en.nonempty = True
    for n in (0, 1, 2, 3, en.large):
        vs = VALS[:n]
        w = list("Name=[")
        for i, v in enumerate(vs): w += ([","] if i else []) + [("hole", v)]
        variant_form(en, ctx, f"top:tuple_variant:{n}", en.container(en.start, "serialize_tuple_variant", [N, I0, VN, integer(n)],
            [("SerializeTupleVariant", "serialize_field", [v]) for v in vs], "SerializeTupleVariant", string("")), w + ["]"])
        w = list("Name={")
        for i, v in enumerate(vs): w += ([","] if i else []) + [("name", NAMES[i]), ":", ("hole", v)]
        variant_form(en, ctx, f"top:struct_variant:{n}", en.container(en.start, "serialize_struct_variant", [N, I0, VN, integer(n)],
            [("SerializeStructVariant", "serialize_field", [string(NAMES[i]), v]) for i, v in enumerate(vs)], "SerializeStructVariant", string("")), w + ["}"])
    en.nonempty = False
    return keys

def variant_form(en, ctx, key, outs, want):
    """A top-level variant is its name, `=`, and a bracketed list of its members (names plain or quoted)."""
    ctx.ob(key + ":outcome", len(outs) >= 1, "a top-level variant can be written", en.entry, "no successful outcome")
    for o in outs:
        got = None
        for quoted in (False, True):
            flat = []
            for w in want:
                if isinstance(w, tuple) and w[0] == "name": flat += list('"%s"' % w[1] if quoted else w[1])
                else: flat.append(w)
            toks = [] if o.text is None else fold_json(tokens(o.text))
            if len(toks) == len(flat) and all((a == b) if isinstance(b, str) else (not isinstance(a, str) and a.op == "hole" and a.a[0] is b[1])
                                              for a, b in zip(toks, flat)): got = quoted
        ctx.ob(key, got is not None, "a top-level variant is `Name=` and its bracketed members, none lost", key, show(o.text))
        ctx.ob(key + ":balance", o.key is en.start, "writing a value leaves the nesting state as it was", key, f"{ap(en.start)[:80]} became {ap(o.key)[:80]}")

def check_top(en, t, kind, n, keys):
    if t is None: return "text lost"
    xs = pieces(t); i = 0
    toks = []
    for x in xs:
        if is_const(x, "str"): toks += list(x.a[1])
        else: toks.append(x)
    want = []
    for j in range(n):
        if j: want.append("&")
        if kind == "struct": want += list(NAMES[j])
        else: want.append(("hole", mk("param", NAMES[j])))
        want.append("="); want.append(("hole", VALS[j]))
    if len(toks) != len(want): return f"expected {n} pairs"
    for a, b in zip(toks, want):
        if isinstance(b, str):
            if a != b: return f"expected `{b}`"
        else:
            if isinstance(a, str) or a.op != "hole" or a.a[0] is not b[1]: return "a value is missing or out of place"
            keys.add(a.a[1])
    return None

SCALARS = [("serialize_%s" % t, t) for t in "i8 i16 i32 i64 u8 u16 u32 u64 f32 f64".split()]

def shapes(en, key, pre, sizes=()):
    """(name, [outcome], expected token list) of every nested data-model method in a context."""
    x = mk("param", "x"); V = VALS
    N = mk("param", "tyname"); VN = string("Name"); I0 = mk("param", "vidx")
    def H(v): return ("hole", v)
    yield "bool:true", en.run(key, "serialize_bool", [TRUE], pre), list("true")
    yield "bool:false", en.run(key, "serialize_bool", [FALSE], pre), list("false")
    for m, t in SCALARS: yield m[10:], en.run(key, m, [x], pre), [("num", x)]
    yield "char", en.run(key, "serialize_char", [x], pre), [("str", x)]
    yield "str", en.run(key, "serialize_str", [x], pre), [("str", x)]
    yield "unit_variant", en.run(key, "serialize_unit_variant", [N, I0, VN], pre), [("str", VN)]
    yield "unit_variant:any-name", en.run(key, "serialize_unit_variant", [N, I0, x], pre), [("str", x)]
    yield "none", en.run(key, "serialize_none", [], pre), list("null")
    yield "unit", en.run(key, "serialize_unit", [], pre), list("null")
    yield "unit_struct", en.run(key, "serialize_unit_struct", [N], pre), list("null")
    yield "some", en.run(key, "serialize_some", [x], pre), [("same", x)]
    yield "newtype_struct", en.run(key, "serialize_newtype_struct", [N, x], pre), [("same", x)]
    yield "newtype_variant", en.run(key, "serialize_newtype_variant", [N, I0, VN, x], pre), ["{", ("jstr", VN), ":", H(x), "}"]
    def seq(vs):
        o = []
        for i, v in enumerate(vs): o += ([","] if i else []) + [H(v)]
        return o
    def rec(vs):
        o = []
        for i, v in enumerate(vs): o += ([","] if i else []) + [("jstr", string(NAMES[i])), ":", H(v)]
        return o
    for n in (0, 1, 2) + sizes:
        vs = V[:n]; w = []
        for i, v in enumerate(vs): w += ([","] if i else []) + [("byte", v)]
        yield f"bytes:{n}", en.run(key, "serialize_bytes", [mk("array", *vs)], pre, n + 3), ["["] + w + ["]"]
    for n in (0, 1, 2, 3) + sizes:
        vs = V[:n]
        yield f"seq:{n}", en.container(key, "serialize_seq", [mk("param", "len")], [("SerializeSeq", "serialize_element", [v]) for v in vs], "SerializeSeq", pre), ["["] + seq(vs) + ["]"]
        yield f"tuple:{n}", en.container(key, "serialize_tuple", [integer(n)], [("SerializeTuple", "serialize_element", [v]) for v in vs], "SerializeTuple", pre), ["["] + seq(vs) + ["]"]
        yield f"tuple_struct:{n}", en.container(key, "serialize_tuple_struct", [N, integer(n)], [("SerializeTupleStruct", "serialize_field", [v]) for v in vs], "SerializeTupleStruct", pre), ["["] + seq(vs) + ["]"]
        yield f"tuple_variant:{n}", en.container(key, "serialize_tuple_variant", [N, I0, VN, integer(n)], [("SerializeTupleVariant", "serialize_field", [v]) for v in vs], "SerializeTupleVariant", pre), ["{", ("jstr", VN), ":", "["] + seq(vs) + ["]", "}"]
        ms = []
        mw = []
        for i, v in enumerate(vs):
            k = mk("param", NAMES[i])
            ms += [("SerializeMap", "serialize_key", [k]), ("SerializeMap", "serialize_value", [v])]
            mw += ([","] if i else []) + [H(k), ":", H(v)]
        yield f"map:{n}", en.container(key, "serialize_map", [mk("param", "len")], ms, "SerializeMap", pre), ["{"] + mw + ["}"]
        yield f"struct:{n}", en.container(key, "serialize_struct", [N, integer(n)], [("SerializeStruct", "serialize_field", [string(NAMES[i]), v]) for i, v in enumerate(vs)], "SerializeStruct", pre), ["{"] + rec(vs) + ["}"]
        yield f"struct_variant:{n}", en.container(key, "serialize_struct_variant", [N, I0, VN, integer(n)], [("SerializeStructVariant", "serialize_field", [string(NAMES[i]), v]) for i, v in enumerate(vs)], "SerializeStructVariant", pre), ["{", ("jstr", VN), ":", "{"] + rec(vs) + ["}", "}"]

def unesc(t):
    """Content under percent-escapes (the escapes themselves are judged separately)."""
    while t.op == "pct": t = t.a[1]
    return t
def tokens(t):
    """Literal characters (blanks outside strings dropped), and the other pieces."""
    out = []; ins = False
    for x in pieces(t):
        if is_const(x, "str"):
            for c in x.a[1]:
                if c == '"': ins = not ins
                if c in " \n\t" and not ins: continue
                out.append(c)
        else: out.append(x)
    return out
def json_lit(s):
    import json
    return list(json.dumps(s, ensure_ascii=False))
def expand(want, cls):
    out = []
    for w in want:
        if isinstance(w, tuple) and w[0] in ("jstr",) and is_const(w[1], "str"): out += json_lit(w[1].a[1])
        elif isinstance(w, tuple) and w[0] == "str" and is_const(w[1], "str"): out += json_lit(w[1].a[1]) if cls == "json" else list(w[1].a[1])
        else: out.append(w)
    return out
def undo(toks):
    """const-folded escapes of literal names back to their text"""
    return toks
def fold_json(xs):
    """json(const) pieces as literal characters."""
    out = []
    for x in xs:
        if isinstance(x, Term) and unesc(x).op == "json" and is_const(unesc(x).a[0], "str"): out += json_lit(unesc(x).a[0].a[1])
        else: out.append(x)
    return out
def match(en, key, cls, t, want):
    """(problem or None, contexts of the holes)"""
    if t is None: return "the text written before is lost", []
    toks = fold_json(tokens(t)); want = expand(want, cls)
    keys = []
    if len(toks) != len(want): return "unexpected text", keys
    for a, w in zip(toks, want):
        if isinstance(w, str):
            if a != w: return f"expected `{w}`", keys
            continue
        if isinstance(a, str): return f"unexpected `{a}`", keys
        k, v = w
        if k in ("hole", "same"):
            if a.op != "hole" or a.a[0] is not v: return "a value is missing or out of place", keys
            if k == "same" and a.a[1] is not key: return "the wrapped value is written in another context", keys
            if k == "hole": keys.append(a.a[1])
        elif k == "byte":
            if a.op not in ("hole", "display") or a.a[0] is not v: return "a byte is missing or out of place", keys
        elif k == "num":
            if not (a.op == "display" and a.a[0] is v): return "the number is not written as is", keys
        elif k == "str":
            u = unesc(a)
            if u.op == "display": u = u.a[0]
            if cls == "json":
                if not (u.op == "json" and bare(u.a[0]) is v): return "a nested string is not a JSON string", keys
            elif u is not v: return "the text is not written as is", keys
    return None, keys
def bare(t):
    while t.op in ("display",): t = t.a[0]
    return t

def nested(en, ctx, tops):
    """Structure obligations of every context reachable below the top level."""
    todo = [(k, "plain", "=") for k in sorted(tops, key=lambda t: t.id)]
    seen = {}
    rounds = 0
    while todo and rounds < 400:
        key, cls, suf = todo.pop(0)
        if (key, suf) in seen: continue
        rounds += 1
        have = en.classify(key)
        cname = f"{cls}-value"
        ctx.ob(f"{cname}:text", have == cls, "a top-level text is written plainly, a nested one as a JSON string", f"context {ap(key)[:80]}", have)
        seen[(key, suf)] = None
        sig = []
        pre = cat(PRE, string(suf))
        # more members than any bound in the code, in the first contexts of either kind
        for name, outs, want in shapes(en, key, pre, (en.large,) if rounds <= 3 else ()):
            outs = [o for o in outs if o.ok]
            good = ctx.ob(f"{cname}:{name}:outcome", len(outs) >= 1, "every value can be written", name, "no successful outcome")
            for o in outs:
                bad, keys = match(en, key, cls, o.text, want)
                ctx.ob(f"{cname}:{name}", bad is None, "a nested value is well-formed JSON with its members in place", f"{name} in {ap(key)[:80]}", f"{bad}: {show(o.text)}")
                ctx.ob(f"{cname}:{name}:balance", o.key is key, "writing a value leaves the nesting state as it was", name, f"{ap(key)[:80]} became {ap(o.key)[:80]}")
                sig.append((name, bad is None, o.key is key))
                for k in keys:
                    for sfx in ("[", ":"):
                        if (k, sfx) not in seen: todo.append((k, "json", sfx))
        seen[(key, suf)] = tuple(sig)
        # deeper contexts of one kind only differ in depth; once sixteen depths agree the pattern repeats
        jsons = {k for (k, s) in seen if en.classify(k) == "json"}
        if len(jsons) >= (16 if ctx.tier == "quick" else 64):
            todo = [x for x in todo if x[0] in jsons]
    ctx.stats["contexts"] += len(seen)
    return seen

def spine(en, ctx, tops):
    """Nesting deeper than any bound in the code: one chain of lists, texts checked at every depth."""
    for key in list(tops)[:1]:
        cls, suf = "plain", "="
        for d in range(en.deep_):
            pre = cat(PRE, string(suf))
            x, v = mk("param", "x"), VALS[0]
            N, VN = string("T"), string("Name")
            nxt = None
            k, w = mk("param", "key"), VALS[1]
            two = [("SerializeMap", "serialize_key", [k]), ("SerializeMap", "serialize_value", [v]), ("SerializeMap", "serialize_key", [mk("param", "key2")]), ("SerializeMap", "serialize_value", [w])]
            N0 = integer(0)
            for name, outs, want in (("map:2", en.container(key, "serialize_map", [mk("param", "len")], two, "SerializeMap", pre), ["{", ("hole", k), ":", ("hole", v), ",", ("hole", mk("param", "key2")), ":", ("hole", w), "}"]),
                                     ("newtype_variant", en.run(key, "serialize_newtype_variant", [N, N0, VN, x], pre), ["{", ("jstr", VN), ":", ("hole", x), "}"]),
                                     ("tuple_variant:2", en.container(key, "serialize_tuple_variant", [N, N0, VN, integer(2)], [("SerializeTupleVariant", "serialize_field", [y]) for y in (v, w)], "SerializeTupleVariant", pre), ["{", ("jstr", VN), ":", "[", ("hole", v), ",", ("hole", w), "]", "}"]),
                                     ("struct_variant:1", en.container(key, "serialize_struct_variant", [N, N0, VN, integer(1)], [("SerializeStructVariant", "serialize_field", [string("k1"), v])], "SerializeStructVariant", pre), ["{", ("jstr", VN), ":", "{", ("jstr", string("k1")), ":", ("hole", v), "}", "}"]),
                                     ("str", en.run(key, "serialize_str", [x], pre), [("str", x)]),
                                     ("none", en.run(key, "serialize_none", [], pre), list("null")),
                                     ("struct:2", en.container(key, "serialize_struct", [N, integer(1)], [("SerializeStruct", "serialize_field", [string("k1"), v]), ("SerializeStruct", "serialize_field", [string("k2"), w])], "SerializeStruct", pre), ["{", ("jstr", string("k1")), ":", ("hole", v), ",", ("jstr", string("k2")), ":", ("hole", w), "}"]),
                                     ("seq:2", en.container(key, "serialize_seq", [mk("param", "len")], [("SerializeSeq", "serialize_element", [y]) for y in (v, w)], "SerializeSeq", pre), ["[", ("hole", v), ",", ("hole", w), "]"])):
                outs = [o for o in outs if o.ok]
                ctx.ob(f"deep:{d}:{name}:outcome", len(outs) >= 1, "every value can be written, however deep", name, "no successful outcome")
                for o in outs:
                    bad, keys = match(en, key, cls, o.text, want)
                    ctx.ob(f"deep:{d}:{name}", bad is None, "a nested value is well-formed JSON with its members in place, however deep", f"{name} at depth {d}", f"{bad}: {show(o.text)}")
                    ctx.ob(f"deep:{d}:{name}:balance", o.key is key, "writing a value leaves the nesting state as it was", f"{name} at depth {d}", f"{ap(key)[:80]} became {ap(o.key)[:80]}")
                    if name == "seq:2" and keys: nxt = keys[0]
            if nxt is None: return
            if nxt is key and cls == "json": return   # a fixed point: deeper contexts are this one
            key, cls, suf = nxt, "json", "["

@prop("C04", "Typestate and value-flow analysis of the encoder: for every serializer context reachable from the start context and every "
      "method of the serde data model, the appended text (literals and holes) must be the JSON form of that shape and the context must be "
      "restored; at the top level members must be key=value joined by &. Per-context obligations compose by induction over the value.",
      TRUST + ["serde's generated Serialize code calls the data-model methods as documented", "the context is only compared with constants: sixteen nesting depths are analysed (sixty-four in the thorough run) and must agree"])
def c04(ctx):
    en = setup(ctx)
    if en is None: return
    tops = shape_top(en, ctx)
    ctx.ob("top:one-context", len(tops) == 1, "every top-level member value is written in the same state", en.entry, [ap(k)[:80] for k in tops])
    seen = nested(en, ctx, tops)
    spine(en, ctx, tops)
    ctx.floor("serializer contexts", len(seen), 4)

@prop("C03", "Value-flow analysis of the encoder composed with a character-class computation: for text written in each reachable "
      "context (member value, nested string, key, variant name) the escapes applied to the content and then to the finished text are read "
      "off the terms as character sets, and for all 128 ASCII characters (and non-ASCII) their composition must leave unreserved characters "
      "alone and turn every other into exactly one percent-escape, while the separators survive.", TRUST + ["percent-encoding escapes exactly the characters of its set and all non-ASCII bytes"])
def c03(ctx):
    en = setup(ctx)
    if en is None or en.final is None: return
    tops = shape_top(en, ctx)
    for ch in "&=":
        ctx.ob(f"separator:{ch}", ch not in en.final, "separators are not escaped in the finished text", en.entry, sorted(en.final & set("&=")))
    # contexts: top-level values and everything nested in them (two depths)
    ctxs = {k: "plain" for k in tops}
    for k in list(tops):
        for o in en.container(k, "serialize_seq", [mk("param", "len")], [("SerializeSeq", "serialize_element", [VALS[0]])], "SerializeSeq", cat(PRE, string("="))):
            for x in pieces(o.text):
                if x.op == "hole": ctxs.setdefault(x.a[1], "json")
    v = TEXT
    n = 0
    for k, cls in sorted(ctxs.items(), key=lambda x: x[0].id):
        for m, args in (("serialize_str", [v]), ("serialize_char", [v]), ("serialize_unit_variant", [string("T"), integer(0), v])):
            outs = [o for o in en.run(k, m, args, cat(PRE, string("="))) if o.ok]
            ctx.ob(f"{cls}:{m}:outcome", len(outs) >= 1, "every text can be written", m)
            for o in outs:
                n += escape_rule(ctx, en, f"{cls}:{m}", o.text, v, m)
    # keys at the top level: struct field names and map keys go through the same text path
    outs = en.container(en.start, "serialize_struct", [string("S"), integer(1)], [("SerializeStruct", "serialize_field", [v, VALS[0]])], "SerializeStruct", string(""))
    ctx.ob("key:outcome", len(outs) == 1, "a member name can be written", "struct field")
    for o in outs:
        xs = pieces(o.text)
        n += escape_rule(ctx, en, "key:struct", cat(*xs[:-2]) if len(xs) >= 3 else o.text, v, "serialize_field")
    outs = [o for o in en.run(en.start, "serialize_newtype_variant", [string("E"), integer(0), v, VALS[0]], string("")) if o.ok]
    for o in outs:
        xs = pieces(o.text)
        n += escape_rule(ctx, en, "key:variant", cat(*xs[:-2]) if len(xs) >= 3 else o.text, v, "serialize_newtype_variant")
    ctx.floor("character classes decided", n, 128 * 6)

TEXT = mk("param", "anytext")   # always a text, whatever static type it travels under
def escape_rule(ctx, en, key, t, v, where):
    """Content v written as t and finished with en.final: every character is safe."""
    ps = pieces(t)
    chain = []
    core = None
    lits = ""
    for x in ps:
        if is_const(x, "str"): lits += x.a[1]; continue
        if core is not None: ctx.fail(f"{key}:form", "text is written once", where, show(t)); return 0
        core = x
    if core is None: ctx.fail(f"{key}:form", "text is written", where, show(t)); return 0
    while core.op == "pct": chain.append(set(core.a[0])); core = core.a[1]
    chain = chain[::-1]
    c = core
    js = c.op == "json"
    if js: c = c.a[0]
    while c.op == "display": c = c.a[0]
    if c is not v: ctx.fail(f"{key}:form", "the text itself is written", where, show(t)); return 0
    if set(lits) & set("&=%"): ctx.fail(f"{key}:literal", "no separator is added to a text", where, lits); return 0
    bad = []
    import json
    for ch in [chr(i) for i in range(128)] + ["é", "\u4e16"]:
        for orig in (json.dumps(ch, ensure_ascii=False)[1:-1] if js else ch):
            s = orig
            for cs in chain: s = pct_const(s, cs)
            s = pct_const(s, en.final)
            one = "".join("%%%02X" % b for b in orig.encode())
            if not (s == one or (s == orig and orig in KEPT)): bad.append((ch, s))
    ctx.ob(f"{key}:escape", not bad, "each character of a text is kept if unreserved and otherwise becomes exactly one percent-escape", where,
           "; ".join(f"{c_!r} becomes {s!r}" for c_, s in bad[:6]))
    return 130

# ------------------------------------------------------------------- decoding
def tok(n): return mk("tok", n)
VAL = "serde_json::Value"
def jstr(t): return adt(VAL, "String", True, (("0", t),))
def firstchar_case(st):
    """The state assumes something about the first character of an opaque text."""
    for t, v in st.units.items():
        if v is not True: continue
        if t.op == "eq" and any(is_const(x, "char") or is_const(x, "int") for x in t.a) and any(y.op == "tok" for x in t.a for y in subterms(x)): return True
        if t.op in ("starts",) and any(y.op == "tok" for y in subterms(t)): return True
    return False

def m_from_json(e, st, a, c):
    import json as J
    v = P(e, st, a[0])
    if v.op == "const":
        try: J.loads(v.a[1] if isinstance(v.a[1], str) else v.a[1].decode()); return [(ok(mk("json", v)), st)]
        except Exception: return [(err(mk("app", "badjson", v)), st)]
    return None

@prop("C05", "Dataflow analysis of the decoder over query-string templates (literal separators around opaque key and value texts, "
      "every pair shape alone and every ordered pair of shapes): the object handed to the deserialiser must hold exactly the "
      "decoded keys and values of the template; malformed and repeated pairs must be errors.",
      TRUST + ["percent_decode_str and serde_json behave as documented", "a template's opaque texts contain no separator and do not start with { or ["])
def c05(ctx):
    p = ctx.program("vercre_core")
    D = "vercre_core::urlencode::from_str"
    n = [0]
    def shapes(i):
        k, v, w = tok(f"k{i}"), tok(f"v{i}"), tok(f"w{i}")
        dk, dv, dw = mk("pctdec", k), mk("pctdec", v), mk("pctdec", w)
        e_, a_ = string("="), string("&")
        return {
            "plain": (cat(k, e_, v), (dk, jstr(dv))),
            "empty-value": (cat(k, e_), (dk, jstr(string("")))),
            "equals-in-value": (cat(k, e_, v, e_, w), (dk, jstr(mk("pctdec", cat(v, e_, w))))),
            "escaped-separators": (cat(string(f"a%26b%3D{i}="), string("x%26y%3Dz%2525")), (string(f"a&b={i}"), jstr(string("x&y=z%25")))),
            "object": (cat(k, string("=%7B%22a%22%3A%5B1%5D%7D")), (dk, mk("json", string('{"a":[1]}')))),
            "list": (cat(k, string("=%5B1%2C2%5D")), (dk, mk("json", string("[1,2]")))),
            "not-json": (cat(k, string("=%7Bx")), (dk, jstr(string("{x")))),
            "not-json-list": (cat(k, string("=%5Bx")), (dk, jstr(string("[x")))),
            "object-blank-after": (cat(k, string("=%7B%22a%22%3A1%7D%20%0A")), (dk, mk("json", string('{"a":1} \n')))),
            "digits": (cat(k, string("=42")), (dk, jstr(string("42")))),
            "keyword": (cat(k, string("=true")), (dk, jstr(string("true")))),
            "null": (cat(k, string("=null")), (dk, jstr(string("null")))),
            "quoted": (cat(k, string("=%22q%22")), (dk, jstr(string('"q"')))),
            "plus-and-space": (cat(k, string("=a+b%20c%09")), (dk, jstr(string("a+b c\t")))),
            "leading-space": (cat(k, string("=%20x%20")), (dk, jstr(string(" x ")))),
            "non-ascii": (cat(k, string("=%C3%A9")), (dk, jstr(string("é")))),
            "no-equals": (k, None),
        }
    def norm(t):
        """pctdec distributes over opaque texts."""
        if t.op == "pctdec" and t.a[0].op == "cat": return cat(*[norm(models.pctdec(x)) for x in t.a[0].a])
        if t.op == "adt": return adt(t.a[0], t.a[1], t.a[2], tuple((a, norm(b)) for a, b in t.a[3]))
        if t.op == "cat": return cat(*[norm(x) for x in t.a])
        return t
    def run(name, text, want, unroll=12):
        """want: list of (key, value) or None for an error."""
        n[0] += 1
        eng = ctx.engine(p); eng.unroll = unroll; eng.separators = "&="
        eng.models = dict(MODELS)
        for f in ("serde_json::from_str", "serde_json::from_slice", "de::from_str"): eng.models[f] = m_from_json
        eng.edge_hook = lambda how, x, q: (False if x.op in ("tok", "pctdec") and q[:1] in "{[" else None)
        st = State()
        ks = [k for k, _ in want or []]
        for x in ks:
            for y in ks:
                if x is not y: st.assume(eq(x, y), False)   # repeated keys are analysed separately
        outs = ctx.analyse(eng, D, params={0: text}, state=st)
        if outs is None: return
        seen = 0
        for v, s in outs:
            if firstchar_case(s) or any(t.op == "is" and not val and t.a[0].op == "app" and t.a[0].a[0] == "decode_utf8" for t, val in s.units.items()): continue
            if want is None:
                ctx.ob(f"reject:{name}", v.op == "adt" and v.a[1] == "Err", "a pair without = and a repeated key are errors", D, ap(v)[:300])
                seen += 1
                continue
            src = None
            for t in subterms(v):
                if t.op == "app" and t.a[0].split("::")[-1] in ("from_value", "deserialize"): src = t
            if v.op == "adt" and v.a[1] == "Err":
                for t in s.units:
                    for y in subterms(t):
                        if y.op == "app" and str(y.a[0]).split("::")[-1] in ("from_value", "deserialize"): src = src or y
                if src is None:
                    ctx.fail(f"decode:{name}", "a well-formed string is decoded", D, "rejected: " + ap(v)[:200]); seen += 1
                    continue
                ctx.ob(f"decode:{name}:error", s.prove(neg(is_variant(src, "Ok"))), "only the target type rejects a well-formed string", D, ap(v)[:200])
            elif src is None:
                ctx.fail(f"decode:{name}", "the decoded fields are handed to the deserialiser", D, ap(v)[:300]); continue
            else:
                seen += 1
                inner = v.a[3][0][1] if v.op == "adt" and v.a[1] == "Ok" else None
                ctx.ob(f"decode:{name}:ok", (inner is field(src, "Ok", "0")) or v is src, "the result is the deserialiser's", D, ap(v)[:300])
            m = src.a[1]
            if m.op == "adt" and m.a[1] == "Object": m = m.a[3][0][1]
            es = models.entries(eng.deep(s, m))
            got = None if es is None else {(norm(k), norm(x)) for k, x in es}
            w = {(norm(k), norm(x)) for k, x in want}
            ctx.ob(f"decode:{name}:fields", got == w, "exactly the listed fields, decoded after splitting", D,
                   f"got {[(ap(k), ap(x)) for k, x in es] if es is not None else ap(m)[:300]} want {[(ap(k), ap(x)) for k, x in want]}")
        ctx.ob(f"decode:{name}:reached", seen > 0, "the decoder reaches a result", D)
        ctx.ob(f"decode:{name}:nopanic", not [x for x in eng.panics if not firstchar_case(x.state)], "decoding does not panic", D, [(x.body, x.site) for x in eng.panics])
    one = shapes(1); two = shapes(2)
    for a, (t, w) in one.items(): run(a, t, None if w is None else [w])
    for a, (t, w) in one.items():
        for b, (t2, w2) in two.items():
            run(f"{a}+{b}", cat(t, string("&"), t2), None if w is None or w2 is None else [w, w2])
    if ctx.tier == "thorough":
        three = shapes(3)
        for a, (t, w) in one.items():
            for b, (t2, w2) in two.items():
                for c_, (t3, w3) in three.items():
                    run(f"{a}+{b}+{c_}", cat(t, string("&"), t2, string("&"), t3), None if None in (w, w2, w3) else [w, w2, w3])
    # more pairs than any bound in the code, and texts longer than any
    N = ctx.reach(p, 40, where=lambda b: "urlencode" in b["path"])
    for nm, (t, w) in [("plain", one["plain"]), ("object", one["object"]), ("no-equals", one["no-equals"]), ("escaped-separators", one["escaped-separators"])]:
        head = "&".join(f"p{i}=%5B{i}%5D" if i % 9 == 8 else f"p{i}=%7E{i}" for i in range(N - 1))
        ws = [(string(f"p{i}"), mk("json", string(f"[{i}]")) if i % 9 == 8 else jstr(string(f"~{i}"))) for i in range(N - 1)]
        run(f"many+{nm}", cat(string(head + "&"), t), None if w is None else ws + [w], unroll=4 * N)
    run("many-same-key", string("&".join(f"p{i}=x" for i in range(N)) + "&p0=y"), None, unroll=4 * N)
    long = "x%26=" * 150
    run("long", string("k" * 700 + "=" + long), [(string("k" * 700), jstr(string("x&=" * 150)))], unroll=4 * N)
    # every character other than the two separators, in a key and a value, first and last: bare and escaped
    chars = [chr(i) for i in range(128) if chr(i) not in "&="] + ["\xa0", "é", "\u4e16", "\ufeff", "\U0001f600"]
    for i in range(0, len(chars), 24):
        cs = chars[i:i + 24]
        run(f"bare:{i}", string("&".join(f"{c}k{ord(c)}-{c}={c}v~{c}" for c in cs)), [(string(f"{c}k{ord(c)}-{c}"), jstr(string(f"{c}v~{c}"))) for c in cs], unroll=4 * N)
        esc = lambda c: "".join("%%%02x" % b for b in c.encode())
        run(f"escaped:{i}", string("&".join(f"{esc(c)}k{ord(c)}{esc(c)}={esc(c)}v{esc(c)}" for c in cs)), [(string(f"{c}k{ord(c)}{c}"), jstr(string(f"{c}v{c}"))) for c in cs], unroll=4 * N)
    # the same key twice
    k = string("a")
    run("same-key", string("a=1&b=2&a=3"), None)
    run("same-key-escaped", string("a=1&%61=3"), None)
    for a, (t, w) in one.items():
        if w is not None:
            run(f"same-key:{a}+plain", cat(t, string("&"), tok("k1") if w[0].op != "const" else string("a%26b%3D1"), string("="), tok("v2")), None)
            run(f"same-key:plain+{a}", cat(tok("k1") if w[0].op != "const" else string("a%26b%3D1"), string("="), tok("v2"), string("&"), t), None)
    ctx.floor("query-string templates", n[0], 250)
