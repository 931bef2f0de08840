"""Rules about error responses (crates/openid)."""
import re
from registry import prop
from terms import *
from proto import *
from wire import *
from models import MODELS, P
from engine import State

CO = ("vercre_core", "vercre_openid")
ERR = "vercre_openid::error::Error"
CODES = {"UnsupportedFormat": "unsupported_credential_format"}
def code(v): return CODES.get(v) or re.sub(r"(?<!^)([A-Z])", r"_\1", v).lower()
NAMES = {"hint": "error_description", "0": "error_description"}

class Bad(Exception): pass
def tokens(t):
    """Characters and holes of a text built from constants and inserted values."""
    for x in (t.a if t.op == "cat" else (t,)):
        if is_const(x, "str"): yield from x.a[1]
        else: yield x
def parse(t):
    """The JSON document a text denotes, whatever the inserted values are."""
    xs = list(tokens(t)); i = 0
    def ws():
        nonlocal i
        while i < len(xs) and isinstance(xs[i], str) and xs[i] in " \n\t\r": i += 1
    def need(ch):
        nonlocal i
        ws()
        if i >= len(xs) or xs[i] != ch: raise Bad(f"{ch} expected")
        i += 1
    def text():
        nonlocal i
        need('"'); out = ""
        while True:
            if i >= len(xs): raise Bad("unterminated text")
            c = xs[i]; i += 1
            if not isinstance(c, str): raise Bad(f"{ap(c)[:80]} is inserted without escaping")
            if c == '"': return out
            if c == "\\":
                if i >= len(xs) or xs[i] not in '"\\/': raise Bad("escape")
                c = xs[i]; i += 1
            elif ord(c) < 32: raise Bad("control character in a text")
            out += c
    def value():
        nonlocal i
        ws()
        if i >= len(xs): raise Bad("value expected")
        c = xs[i]
        if not isinstance(c, str):
            i += 1
            if c.op == "jsontext" and c.a[0].op == "adt" and c.a[0].a[1] == "String": return mk("jstr", c.a[0].a[3][0][1])
            if c.op == "jsontext": return c.a[0] if c.a[0].op in ("jstr", "jobj", "jnull") else mk("enc", c.a[0], "serde_json::Value")
            if c.op == "display" and c.a[0].op == "tok" and "(int)" in c.a[0].a[0]: return mk("enc", c.a[0], "i64")
            raise Bad(f"{ap(c)[:80]} is not the text of a JSON value")
        if c == '"': return jstr(text())
        if c == "{":
            i += 1; kv = []; ws()
            if xs[i:i + 1] == ["}"]: i += 1; return jobj()
            while True:
                ws(); k = text(); need(":"); kv.append((k, value())); ws()
                if i < len(xs) and xs[i] == ",": i += 1; continue
                need("}"); return jobj(*kv)
        raise Bad(f"unexpected {c}")
    v = value(); ws()
    if i != len(xs): raise Bad("text after the document")
    return v

class Errors:
    def __init__(self, ctx):
        self.ctx = ctx; self.p = ctx.program(*CO); self.w = Wire(ctx, self.p); self.why = None
        self.disp = next((b for b in self.p.bodies.values() if b.get("self_ty") == ERR and b.get("name") == "fmt" and "Display" in (b.get("impl_trait") or "")), None)
        self.n = 0
    def engine(self):
        e = self.w.engine(); M = e.models; S = self
        # the text of an error is what its Display implementation writes
        old = M["ToString::to_string"]
        def show(e, st, v, buf=None):
            fr, blk, site = e._ctx[:3]; save = e._ctx; S.n += 1
            cell = (0, f"text{S.n}"); st.env[cell] = string("")
            out = []
            try:
                for r, s in e.exec_body(S.disp, [v, mk("mref", cell, ())], st, fr.path + (f"{site}#d{S.n}",)): out.append((e.deep(s, s.env[cell]), s))
            finally: e._ctx = save
            return out
        def to_string(e, st, a, c):
            v = P(e, st, a[0])
            if v.op == "adt" and v.a[0] == ERR and S.disp is not None: return show(e, st, v)
            return old(e, st, a, c)
        M["ToString::to_string"] = M["String::from"] = to_string
        M["String::from"] = MODELS["String::from"]
        def fresh(name):
            o = MODELS[name]
            def f(e, st, a, c):
                ta = c["targs"] or []
                v = P(e, st, a[0])
                if any(t == "serde_json::Value" for t in ta) and v.op in ("tok", "field"): return [(mk("jstr", v), st)]
                return o(e, st, a, c)
            return f
        for n in ("From::from", "Into::into"): M[n] = fresh(n)
        M["AsDisplay::as_display"] = lambda e, st, a, c: [(P(e, st, a[0]), st)]
        def from_str(e, st, a, c):
            t = P(e, st, a[0])
            try: d = parse(t)
            except Bad as x:
                S.why = f"its JSON form is malformed: {x} in {ap(t)[:200]}"
                return [(err(mk("deerr", string("syntax"))), st)]
            ty = (c["targs"] or [""])[-1]
            return S.w.decode_(e, st, d, ty)
        def from_value(e, st, a, c):
            d = P(e, st, a[0])
            return S.w.decode_(e, st, d, (c["targs"] or [""])[-1]) if d.op in ("jobj", "jstr", "jnull") else None
        M["serde_json::from_str"] = M["serde_json::from_slice"] = M["de::from_str"] = from_str
        M["serde_json::from_value"] = M["value::from_value"] = from_value
        def to_value(e, st, a, c):
            v = P(e, st, a[0]); ty = (c["targs"] or [""])[0]
            if v.op in ("jobj", "jstr"): return [(ok(v), st)]
            b = S.w.ser.get(nolt(unref(ty)))
            return S.w.run(e, st, b, [v, mk("param", "ser")]) if b is not None else None
        M["serde_json::to_value"] = M["value::to_value"] = to_value
        return e
    def values(self):
        for vn, fs, *_ in self.p.adts[ERR]["variants"]:
            toks = {n: mk("tok", f"{n}(int)" if re.match(r"^[iu]\d", t) else n) for n, t, *_ in fs}
            yield vn, fs, variant(self.p, ERR, vn, **toks), toks
    def want(self, vn, fs, toks):
        kv = {"error": jstr(code(vn))}
        for n, t, *_ in fs:
            k = ("interval" if re.match(r"^[iu]\d", t) else "error_description") if n == "0" else NAMES.get(n, n)
            kv[k] = mk("enc", toks[n], "i64") if re.match(r"^[iu]\d", t) else jstr(toks[n])
        return jobj(*kv.items())

def same(d, w): return d.op == "jobj" and len(d.a) == len(w.a) and {(x.a[0], norm(x.a[1])) for x in d.a} == {(x.a[0], norm(x.a[1])) for x in w.a}
def norm(x): return mk("enc", x.a[0], "i64") if x.op == "enc" else x

@prop("C32", how="For every kind of error with arbitrary texts, nonce and numbers, the document its serialiser and its JSON conversion produce is derived from their code and compared with the specified one; a value inserted in the text of a document without escaping is a violation. The query form is the URL encoding of the same error.")
def errors(ctx):
    x = Errors(ctx); p = x.p; n = 0
    if ERR not in p.adts: return ctx.fail("type", "the error type exists", ERR)
    rule = "an error keeps its code, description and further members in its JSON form, whatever they contain"
    for vn, fs, v, toks in x.values():
        want = x.want(vn, fs, toks); n += 1
        for how, path in (("serialised", None), ("json", f"{ERR}::to_json")):
            e = x.engine(); x.why = None
            b = x.w.ser.get(ERR) if path is None else path
            outs = ctx.analyse(e, b, params={0: v, 1: mk("param", "ser")} if path is None else {0: v}) if b else None
            bad = None if outs else "no outcome"
            for r, s in outs or []:
                r = e.deep(s, r)
                d = r.a[3][0][1] if r.op == "adt" and r.a[0] == RES and r.a[1] == "Ok" else r
                if not same(d, want): bad = x.why or f"gives {ap(d)[:300]}, expected {ap(want)[:300]}"
            ctx.ob(f"{how}:{vn}", bad is None, rule, f"crates/openid error.rs {vn}", bad or "")
    # query form
    e = ctx.engine(p, opaque=[r"urlencode::(\w+::)?to_string$"]); v = mk("param", "self")
    outs = ctx.analyse(e, f"{ERR}::to_querystring") or []
    bad = None if outs else "no outcome"
    for r, s in outs:
        r = e.deep(s, r); c = [y for y in subterms(r) if y.op == "app" and y.a[0].endswith("urlencode::to_string") or y.op == "app" and y.a[0].endswith("ser::to_string")]
        if not c or any(y.a[1] is not v for y in c) or not s.prove(eq(r, payload(c[0])), 6) and not (r.op in ("ite", "field", "f", "app") and payload(c[0]) in set(subterms(r)) or c[0] in set(subterms(r))): bad = f"gives {ap(r)[:200]}"
    ctx.ob("query", bad is None, "the query form of an error is its URL encoding", "crates/openid error.rs to_querystring", bad or "")
    ctx.floor("kinds of error", n, 15)
