"""Abstract (de)serialisation: serde's generated code, analysed on templates.

A JSON document is a term: jobj(tuple(key, value)...), jstr(text), jnull, or
enc(value, type) — the encoding of an opaque value by its own type.  Encoding and
decoding a struct or enum analyses the MIR of its Serialize / Deserialize code with
serde's data model as the only library; nested values stay opaque, so obligations
about one type compose by induction over the type structure."""
import re
from terms import *
from models import MODELS, P, upd, arr
from engine import State

def jstr(s): return mk("jstr", string(s) if isinstance(s, str) else s)
def jobj(*kvs): return mk("jobj", *[tup(string(k) if isinstance(k, str) else k, v) for k, v in kvs])
JNULL = mk("jnull")
def unref(t):
    while True:
        n = re.sub(r"^&('\w+ )?(mut )?", "", t).strip()
        if n == t: return t
        t = n
def nolt(t):
    """Type text without lifetimes."""
    t = re.sub(r"'\w+\s*,\s*", "", t); t = re.sub(r"<'\w+>", "", t)
    return t
def optof(t):
    m = re.match(r"std::option::Option<(.*)>$", t)
    return m.group(1) if m else None
STR = re.compile(r"^(std::string::String|str|std::borrow::Cow<str>)$")
def klass(t):
    """JSON kind a type encodes to, or None."""
    t = unref(t)
    if STR.match(t): return "string"
    if t == "bool": return "bool"
    if re.match(r"^[iuf](8|16|32|64|128|size)$", t): return "number"
    if t.startswith("std::vec::Vec<"): return "array"
    if t.startswith(("std::collections::HashMap<", "std::collections::BTreeMap<", "serde_json::Map", "serde_json::map::Map")): return "object"
    if t.startswith("chrono::DateTime"): return "string"
    return None
def encoded(v, ty):
    ty = unref(ty); o = optof(ty)
    if o is not None:
        if v.op == "adt" and v.a[1] == "None": return JNULL
        if v.op == "adt" and v.a[1] == "Some": return encoded(v.a[3][0][1], o)
    m = re.match(r"std::boxed::Box<(.*)>$", ty)
    if m: return encoded(v, m.group(1))
    if STR.match(ty): return mk("jstr", v)
    return mk("enc", v, ty)

class Wire:
    def __init__(self, ctx, prog):
        self.ctx = ctx; self.p = prog; self.n = 0
        self.ser = {}; self.de = {}; self.vis = {}
        for b in prog.bodies.values():
            tr = b.get("impl_trait") or ""; sty = nolt(b.get("self_ty") or "")
            if b.get("name") == "serialize" and "Serialize" in tr and "Serializer" not in tr: self.ser[sty] = b
            elif b.get("name") == "deserialize" and re.search(r"\bDeserialize\b", tr): self.de[sty] = b
            elif "Visitor" in tr: self.vis[(sty, b["name"])] = b
    def engine(self):
        e = self.ctx.engine(self.p); e.unroll = 64; e.split = 128; e.maxrec = 4
        e.skip_inline = lambda b: b.get("derived") and not any(x in (b.get("impl_trait") or "") for x in ("Default", "serde")) or (b.get("impl_trait") or "").startswith("std::fmt")
        M = e.models = dict(MODELS)
        W = self
        def m(*names):
            def d(f):
                for n in names: M[n] = f
                return f
            return d
        def run(e, st, b, args):
            save = e._ctx; fr, blk, site = save[:3]; W.n += 1
            if len(e.stack) > e.max_depth: return [(mk("app", "too-deep"), st)]
            try: return e.exec_body(b, args, st, fr.path + (f"{site}#{W.n}",))
            finally: e._ctx = save
        self.run = run
        # ------------------------------------------------------------ encoding
        def start(e, st, a, c): return [(ok(mk("jobj")), st)]
        for n in ("Serializer::serialize_struct", "Serializer::serialize_map"): M[n] = start
        @m("Serializer::serialize_struct_variant")
        def _(e, st, a, c): return [(ok(mk("jvariant", P(e, st, a[3]), mk("jobj"))), st)]
        def put(e, st, ref, k, w):
            v = P(e, st, ref)
            if v.op == "jvariant": upd(e, st, ref, mk("jvariant", v.a[0], mk("jobj", *v.a[1].a, tup(k, w))))
            elif v.op == "jobj": upd(e, st, ref, mk("jobj", *v.a, tup(k, w)))
            else: return None
            return [(ok(UNIT), st)]
        @m("SerializeStruct::serialize_field", "SerializeStructVariant::serialize_field")
        def _(e, st, a, c): return put(e, st, a[0], P(e, st, a[1]), W.enc(e, st, P(e, st, a[2]), c["targs"][1]))
        @m("SerializeMap::serialize_entry")
        def _(e, st, a, c): return put(e, st, a[0], P(e, st, a[1]), W.enc(e, st, P(e, st, a[2]), c["targs"][2]))
        @m("SerializeStruct::skip_field", "SerializeStructVariant::skip_field")
        def _(e, st, a, c): return [(ok(UNIT), st)]
        @m("SerializeStruct::end", "SerializeMap::end", "SerializeStructVariant::end")
        def _(e, st, a, c):
            v = P(e, st, a[0])
            if v.op == "jvariant": v = mk("jobj", tup(v.a[0], v.a[1]))
            return [(ok(v), st)] if v.op == "jobj" else None
        @m("Serializer::serialize_newtype_variant")
        def _(e, st, a, c): return finish(e, st, a[0], mk("jobj", tup(P(e, st, a[3]), W.enc(e, st, P(e, st, a[4]), c["targs"][1]))))
        @m("Serializer::serialize_unit_variant")
        def _(e, st, a, c): return finish(e, st, a[0], mk("jstr", P(e, st, a[3])))
        @m("Serializer::serialize_str")
        def _(e, st, a, c): return finish(e, st, a[0], mk("jstr", P(e, st, a[1])))
        @m("Serializer::serialize_none", "Serializer::serialize_unit")
        def _(e, st, a, c): return finish(e, st, a[0], JNULL)
        @m("Serializer::serialize_some", "Serializer::serialize_newtype_struct")
        def _(e, st, a, c):
            return serialize(e, st, P(e, st, a[-1]), c["targs"][1], a[0])
        def finish(e, st, s, w): return flat_into(e, st, s, w)
        def flat_into(e, st, s, w):
            """The result of writing w to serializer s: w itself, or its members added to an enclosing object."""
            s = P(e, st, s) if s.op != "adt" else s
            if s.op == "adt" and s.a[0].endswith("FlatMapSerializer"):
                ref = s.a[3][0][1]
                if w.op == "jnull": return [(ok(UNIT), st)]
                if w.op != "jobj":
                    w2 = mk("jobj", tup(mk("rest"), w))   # members of an opaque map
                    w = w2
                v = P(e, st, ref)
                if v.op != "jobj": return None
                upd(e, st, ref, mk("jobj", *v.a, *w.a)); return [(ok(UNIT), st)]
            return [(ok(w), st)]
        def serialize(e, st, v, ty, s):
            ty = unref(ty); o = optof(ty)
            if o is not None:
                if v.op == "adt" and v.a[1] == "None": return flat_into(e, st, s, JNULL)
                if v.op == "adt" and v.a[1] == "Some": return serialize(e, st, v.a[3][0][1], o, s)
                return None
            m_ = re.match(r"std::boxed::Box<(.*)>$", ty)
            if m_: return serialize(e, st, v, m_.group(1), s)
            b = W.ser.get(nolt(ty)) or W.ser.get(re.sub(r"<.*", "<T>", nolt(ty)))
            if b is not None:
                out = []
                for r, st2 in run(e, st, b, [v, mk("param", "ser")]):
                    r = e.simp(st2, r)
                    if r.op == "adt" and r.a[1] == "Ok": out += flat_into(e, st2, s, r.a[3][0][1]) or [(mk("app", "flatten"), st2)]
                    else: out.append((r, st2))
                return out
            return flat_into(e, st, s, encoded(v, ty))
        @m("Serialize::serialize")
        def _(e, st, a, c): return serialize(e, st, P(e, st, a[0]), c["targs"][0], a[1])
        @m("ser::serialize_tagged_newtype")
        def _(e, st, a, c):
            out = []
            for r, s in serialize(e, st, P(e, st, a[5]), c["targs"][1], mk("param", "ser")) or []:
                r = e.simp(s, r)
                if r.op == "adt" and r.a[1] == "Ok":
                    w = r.a[3][0][1]; t = tup(P(e, s, a[3]), mk("jstr", P(e, s, a[4])))
                    if w.op != "jobj": w = mk("jobj", tup(mk("rest"), w))
                    r = ok(mk("jobj", t, *w.a))
                out.append((r, s))
            return out
        # ------------------------------------------------------------ decoding
        def werr(*x): return err(mk("deerr", *x))
        def decode(e, st, w, ty, d=None):
            """[(Result, state)] of reading type ty from document w."""
            ty = unref(ty)
            if ty.endswith("IgnoredAny"): return [(ok(UNIT), st)]
            o = optof(ty)
            if o is not None:
                if w.op == "jnull": return [(ok(NONE), st)]
                rs = decode(e, st, w, o)
                return [(ok(some(r.a[3][0][1])) if r.op == "adt" and r.a[1] == "Ok" else r, s) for r, s in ((e.simp(s, r), s) for r, s in rs)]
            m_ = re.match(r"std::boxed::Box<(.*)>$", ty)
            if m_: return decode(e, st, w, m_.group(1))
            if w.op == "enc":
                if unref(w.a[1]) == ty: return [(ok(w.a[0]), st)]
                k1, k2 = klass(w.a[1]), klass(ty)
                if k1 and k2 and k1 != k2: return [(werr(string("type")), st)]
                if k1 in ("string", "array", "number", "bool") and (nolt(ty) in W.de) and W.shape_of(ty) == "object": return [(werr(string("type")), st)]
                return [(mk("app", "decode", w, mk("type", ty)), st)]
            if w.op == "jstr" and STR.match(ty): return [(ok(w.a[0]), st)]
            if ty == "serde_json::Value" or ty.endswith("de::Content"): return [(ok(w), st)]
            b = W.de.get(nolt(ty)) or W.de.get(re.sub(r"<.*", "<T>", nolt(ty)))
            if b is not None: return run(e, st, b, [d if d is not None else mk("jd", w)])
            if w.op == "jobj" and klass(ty) == "object": return [(ok(mk("jmap", w)), st)]
            if w.op in ("jstr", "jobj", "jnull") and klass(ty): return [(werr(string("type")), st)]
            return [(mk("app", "decode", w, mk("type", ty)), st)]
        self.decode_ = decode
        def doc(e, st, d):
            d = P(e, st, d)
            if d.op == "jd": return d.a[0]
            return None
        def flat(e, st, d):
            """The still unread members behind a flattening deserializer: (ref, list)."""
            if d.op == "adt" and d.a[0].endswith("FlatMapDeserializer"):
                ref = d.a[3][0][1]; v = P(e, st, ref); xs = arr(v)
                return (ref, xs) if xs is not None else None
            return None
        def visit(e, st, ty, name, visitor, *args):
            b = W.vis.get((nolt(ty), name))
            return None if b is None else run(e, st, b, [visitor, *args])
        def access(e, st, kvs):
            W.n += 1; t = mk("macc", W.n); st.heap[mk("mrest", t)] = mk("array", *kvs); return t
        def flatname(x):
            """Key text of an unread member (an Option<(key, value)>)."""
            if x.op != "adt" or x.a[1] != "Some": return None
            k = x.a[3][0][1].a[0]
            return key(k)
        def key(k):
            if k.op == "adt" and k.a[0].endswith("Content") and k.a[3]: k = k.a[3][0][1]
            if k.op == "jstr": k = k.a[0]
            return k
        def struct_like(n, only_fields):
            def f(e, st, a, c):
                vty = c["targs"][1]
                fl = flat(e, st, a[0])
                if fl:
                    ref, xs = fl
                    names = None
                    if only_fields:
                        names = arr(P(e, st, a[2]))
                        if names is None: return None
                    take, rest = [], []
                    for x in xs:
                        k = flatname(x)
                        if k is None: rest.append(x); continue
                        if k.op == "rest": 
                            if names is None: take.append(tup(k, x.a[3][0][1].a[1]))
                            rest.append(x); continue
                        if names is None or any(k is y for y in names):
                            take.append(tup(k, x.a[3][0][1].a[1])); rest.append(NONE if names is not None else x)
                        else: rest.append(x)
                    upd(e, st, ref, mk("array", *rest))
                    return visit(e, st, vty, "visit_map", a[-1], access(e, st, take))
                w = doc(e, st, a[0])
                if w is None: return None
                if w.op == "jobj": return visit(e, st, vty, "visit_map", a[-1], access(e, st, w.a))
                if w.op == "jstr":
                    r = visit(e, st, vty, "visit_str", a[-1], w.a[0])
                    return r if r is not None else [(werr(string("type")), st)]
                if w.op in ("jnull",): return [(werr(string("type")), st)]
                if w.op == "enc" and klass(w.a[1]) in ("string", "array", "number", "bool"): return [(werr(string("type")), st)]
                return None
            return f
        M["Deserializer::deserialize_struct"] = struct_like("struct", True)
        M["Deserializer::deserialize_map"] = struct_like("map", False)
        @m("Deserializer::deserialize_identifier", "Deserializer::deserialize_str", "Deserializer::deserialize_string")
        def _(e, st, a, c):
            w = doc(e, st, a[0])
            if w is None: return None
            if w.op == "jstr": return visit(e, st, c["targs"][1], "visit_str", a[1], w.a[0])
            if w.op == "rest": return visit(e, st, c["targs"][1], "visit_str", a[1], w)
            return [(werr(string("type")), st)]
        @m("Deserializer::deserialize_any")
        def _(e, st, a, c):
            vty = c["targs"][1]
            if "TaggedContentVisitor" in vty:
                v = P(e, st, a[1]); w = doc(e, st, a[0]); fl = flat(e, st, a[0])
                if fl:
                    w = mk("jobj", *[tup(flatname(x), x.a[3][0][1].a[1]) for x in fl[1] if flatname(x) is not None])
                if v.op != "tagvis" or w is None or w.op != "jobj": return None if w is None or w.op == "enc" else [(werr(string("type")), st)]
                tag = v.a[0]
                t = [x.a[1] for x in w.a if x.a[0] is tag]
                rest = [x for x in w.a if x.a[0] is not tag]
                if not t: return [(werr(string("missing tag")), st)]
                fty = re.search(r"TaggedContentVisitor<(.*)>$", vty).group(1)
                out = []
                for r, s in decode(e, st, t[0], fty):
                    r = e.simp(s, r)
                    out.append((ok(tup(r.a[3][0][1], mk("jobj", *rest))) if r.op == "adt" and r.a[1] == "Ok" else r, s))
                return out
            return struct_like("any", False)(e, st, a, c)
        @m("Deserializer::deserialize_enum")
        def _(e, st, a, c):
            vty = c["targs"][1]; fl = flat(e, st, a[0])
            if fl:
                ref, xs = fl; names = arr(P(e, st, a[2]))
                if names is None: return None
                for i, x in enumerate(xs):
                    k = flatname(x)
                    if k is not None and any(k is n for n in names):
                        upd(e, st, ref, mk("array", *xs[:i], NONE, *xs[i + 1:]))
                        return visit(e, st, vty, "visit_enum", a[3], mk("eacc", k, x.a[3][0][1].a[1]))
                return [(werr(string("no variant")), st)]
            w = doc(e, st, a[0])
            if w is None: return None
            if w.op == "jstr": return visit(e, st, vty, "visit_enum", a[3], mk("eacc", w.a[0], JNULL))
            if w.op == "jobj" and len(w.a) == 1: return visit(e, st, vty, "visit_enum", a[3], mk("eacc", w.a[0].a[0], w.a[0].a[1]))
            if w.op in ("jobj", "jnull"): return [(werr(string("enum")), st)]
            return None
        @m("EnumAccess::variant")
        def _(e, st, a, c):
            x = P(e, st, a[0]); out = []
            for r, s in decode(e, st, mk("jstr", x.a[0]), c["targs"][1]):
                r = e.simp(s, r)
                out.append((ok(tup(r.a[3][0][1], mk("vacc", x.a[1]))) if r.op == "adt" and r.a[1] == "Ok" else r, s))
            return out
        @m("VariantAccess::newtype_variant")
        def _(e, st, a, c):
            x = P(e, st, a[0]); return decode(e, st, x.a[0], c["targs"][1])
        @m("VariantAccess::unit_variant")
        def _(e, st, a, c):
            x = P(e, st, a[0]); return [(ok(UNIT), st)] if x.a[0].op == "jnull" else [(werr(string("unit")), st)]
        @m("VariantAccess::struct_variant")
        def _(e, st, a, c):
            x = P(e, st, a[0]).a[0]
            if x.op != "jobj": return [(werr(string("type")), st)] if x.op in ("jnull", "jstr") else None
            return visit(e, st, c["targs"][1], "visit_map", a[-1], access(e, st, x.a))
        @m("MapAccess::next_key")
        def _(e, st, a, c):
            t = P(e, st, a[0]); xs = arr(st.heap.get(mk("mrest", t), mk("param", "?")))
            if xs is None: return None
            if not xs: return [(ok(NONE), st)]
            k, v = xs[0].a
            st.heap[mk("mrest", t)] = mk("array", *xs[1:]); st.heap[mk("mval", t)] = v
            out = []
            for r, s in decode(e, st, mk("jstr", k), c["targs"][1]):
                r = e.simp(s, r)
                out.append((ok(some(r.a[3][0][1])) if r.op == "adt" and r.a[1] == "Ok" else r, s))
            return out
        @m("MapAccess::next_value")
        def _(e, st, a, c):
            w = st.heap.get(mk("mval", P(e, st, a[0])))
            return None if w is None else decode(e, st, w, c["targs"][1])
        @m("MapAccess::next_value_seed")
        def _(e, st, a, c):
            w = st.heap.get(mk("mval", P(e, st, a[0])))
            return None if w is None or "ContentVisitor" not in c["targs"][1] else [(ok(w), st)]
        @m("de::missing_field")
        def _(e, st, a, c):
            return [(ok(NONE) if optof(c["targs"][0]) is not None else werr(string("missing"), P(e, st, a[0])), st)]
        for n in ("duplicate_field", "unknown_variant", "unknown_field", "invalid_length", "invalid_value", "invalid_type", "custom", "missing_field"):
            M["Error::" + n] = M["de::Error::" + n] = (lambda n: lambda e, st, a, c: [(mk("deerr", string(n)), st)])(n)
        @m("TaggedContentVisitor::new")
        def _(e, st, a, c): return [(mk("tagvis", P(e, st, a[0])), st)]
        @m("ContentVisitor::new")
        def _(e, st, a, c): return [(mk("cvis"), st)]
        @m("DeserializeSeed::deserialize")
        def _(e, st, a, c):
            w = doc(e, st, a[1]); fl = flat(e, st, a[1])
            if fl: w = mk("jobj", *[tup(flatname(x), x.a[3][0][1].a[1]) for x in fl[1] if flatname(x) is not None])
            return None if w is None else [(ok(w), st)]
        @m("ContentDeserializer::new", "ContentRefDeserializer::new")
        def _(e, st, a, c): return [(mk("jd", P(e, st, a[0])), st)]
        @m("de::content_as_str")
        def _(e, st, a, c): return [(some(key(P(e, st, a[0]))), st)]
        @m("Deserialize::deserialize")
        def _(e, st, a, c):
            ty = c["targs"][0]; fl = flat(e, st, a[0])
            if fl:
                o = optof(unref(ty))
                def inner(t):
                    b = W.de.get(nolt(t)) or W.de.get(re.sub(r"<.*", "<T>", nolt(t)))
                    if b is not None: return run(e, st, b, [a[0]])
                    w = mk("jobj", *[tup(flatname(x), x.a[3][0][1].a[1]) for x in fl[1] if flatname(x) is not None])
                    if len(w.a) == 1 and w.a[0].a[0].op == "rest": return decode(e, st, w.a[0].a[1], t)
                    return [(ok(mk("jmap", w)), st)]
                if o is None: return inner(unref(ty))
                out = []
                for r, s in inner(o):
                    r = e.simp(s, r)
                    out.append((ok(some(r.a[3][0][1])) if r.op == "adt" and r.a[1] == "Ok" else ok(NONE) if r.op == "adt" else r, s))
                return out
            w = doc(e, st, a[0])
            return None if w is None else decode(e, st, w, ty)
        return e
    def shape_of(self, ty):
        """Whether a local type's generated decoder only takes objects."""
        a = self.p.adts.get(ty)
        return "object" if a and not a["enum"] else None
    def enc(self, e, st, v, ty): return encoded(v, ty)
    # ------------------------------------------------------------------ entries
    def encode(self, ty, v):
        """[(document | None, state)] of writing value v of type ty."""
        b = self.ser.get(nolt(ty))
        if b is None: return None
        e = self.engine(); outs = self.ctx.analyse(e, b, params={0: v, 1: mk("param", "ser")})
        res = []
        for r, s in outs:
            r = e.deep(s, r)
            res.append((r.a[3][0][1] if r.op == "adt" and r.a[1] == "Ok" else r, s))
        return res
    def decode(self, ty, w):
        b = self.de.get(nolt(ty))
        if b is None: return None
        e = self.engine(); outs = self.ctx.analyse(e, b, params={0: mk("jd", w)})
        self.last = e
        return [(e.deep(s, r), s) for r, s in outs]
