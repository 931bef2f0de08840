"""Rules about wire formats: what the (de)serialisers of the message types read and write."""
import itertools, re
from registry import prop
from terms import *
from wire import *
from models import arr
from r_core import TRUST
def tok(n): return mk("tok", n)

PEX = {  # Presentation Exchange 2.0.0: member name -> field; trailing ? optional
    "PresentationDefinition": "id input_descriptors name? purpose? format?",
    "InputDescriptor": "id name? purpose? format? constraints",
    "ClaimFormat": "alg? proof_type?",
    "Constraints": "fields? limit_disclosure?",
    "Field": "id? path filter? predicate? purpose? name? optional? intent_to_retain?",
    "PresentationSubmission": "id definition_id descriptor_map",
    "DescriptorMap": "id format path path_nested",
    "PathNested": "format path",
}
def members(a):
    """[(field, type)] of a struct."""
    return [(n, t) for n, t, _ in a["variants"][0][1]]
def subsets(opts, deep=False):
    out = [frozenset(), frozenset(opts)] + [frozenset({o}) for o in opts] + [frozenset(opts) - {o} for o in opts]
    if deep: out += [frozenset(c) for r in range(2, len(opts)) for c in itertools.combinations(opts, r)]
    return sorted(set(out), key=lambda s: (len(s), sorted(s)))
def build(a, ty, present, given=None):
    given = given or {}
    return adt(ty, a["variants"][0][0], a["enum"], tuple((n, given[n] if n in given else (some(tok(n)) if n in present else NONE) if optof(t) else tok(n)) for n, t in members(a)))
def leaf(n, t): return encoded(tok(n), optof(t) or t)
def show(w): return ap(w)[:300]

class Checker:
    def __init__(self, ctx, *crates):
        self.ctx = ctx; self.p = ctx.program(*crates); self.w = Wire(ctx, self.p); self.n = 0
    def writes(self, key, ty, v, want, rule, where):
        """Writing v gives exactly these members, in any order."""
        outs = self.w.encode(ty, v); self.n += 1
        if outs is None: return self.ctx.fail(key, rule, where, "the type cannot be written")
        bad = None
        for d, st in outs:
            if d.op != want.op or (d.op == "jobj" and set(d.a) != set(want.a)) or (d.op != "jobj" and d is not want) or len(d.a) != len(want.a): bad = f"writes {show(d)}, expected {show(want)}"
        return self.ctx.ob(key, outs and bad is None, rule, where, bad or "")
    def reads(self, key, ty, doc, want, rule, where):
        """Reading the document gives this value (or, with None, an error)."""
        outs = self.w.decode(ty, doc); self.n += 1
        if outs is None: return self.ctx.fail(key, rule, where, "the type cannot be read")
        bad = None
        for r, st in outs:
            if r.op != "adt" or r.a[0] != RES: bad = f"undecided: {show(r)}"
            elif want is None:
                if r.a[1] == "Ok": bad = f"{show(doc)} is read as {show(r)}"
            elif r is not ok(want): bad = f"{show(doc)} is read as {show(r)}, expected {show(want)}"
        if not outs: bad = "no outcome"
        return self.ctx.ob(key, bad is None, rule, where, bad or "")

@prop("C11", "Value-flow analysis of the generated and hand-written (de)serialisers of every Presentation Exchange type over documents with "
      "opaque member values: for every combination of optional members present/absent (none, all, each, all but each), the document "
      "written has exactly the specified names holding their own fields, the document read fills exactly those fields, and a document "
      "missing a required member, repeating a member, or with an unknown filter keyword is an error. Composes by induction over the type structure.",
      TRUST + ["serde's data model and serde_json behave as documented"])
def c11(ctx):
    k = Checker(ctx, "vercre_dif_exch"); p = k.p; C = "vercre_dif_exch::"
    deep = ctx.tier == "thorough"
    for name, spec in PEX.items():
        ty = C + name; a = p.adts.get(ty); where = f"crates/dif-exch {name}"
        if a is None: ctx.fail(f"type:{name}", "the type exists", where, "not found"); continue
        names = {s.rstrip("?"): s.endswith("?") for s in spec.split()}
        types = dict(members(a))
        if set(types) - set(names): pass   # extra fields are covered by the generic pass below
        miss = [n for n in names if n not in types]
        if miss: ctx.fail(f"fields:{name}", "every specified member has a field", where, f"no field for {miss}"); continue
        opts = [n for n, o in names.items() if o]
        extra = [n for n in types if n not in names and optof(types[n]) is None]
        for s in subsets(opts, deep):
            present = [n for n, o in names.items() if not o or n in s]
            v = build(a, ty, s); d = jobj(*[(n, leaf(n, types[n])) for n in present] + [(n, leaf(n, types[n])) for n in extra])
            tag = f"{name}:{'+'.join(sorted(s)) or 'none'}"
            k.writes(f"writes:{tag}", ty, v, d, "exactly the specified members are written, absent ones are left out", where)
            k.reads(f"reads:{tag}", ty, d, v, "each member is read into its own field, absent ones are absent", where)
            k.reads(f"reads-reversed:{tag}", ty, mk("jobj", *d.a[::-1]), v, "the order of members does not matter", where)
        full = [(n, leaf(n, types[n])) for n in names]
        for n, o in names.items():
            if not o: k.reads(f"required:{name}:{n}", ty, jobj(*[x for x in full if x[0] != n]), None, "a document without a required member is an error", where)
            k.reads(f"repeated:{name}:{n}", ty, jobj(*full, (n, leaf(n, types[n]))), None, "a repeated member is an error", where)
    # filters
    F, FV = C + "Filter", C + "FilterValue"; where = "crates/dif-exch Filter"
    a = p.adts.get(F)
    if a is None or FV not in p.adts: ctx.fail("type:Filter", "the type exists", where, "not found")
    else:
        KW = {"const": "Const", "pattern": "Pattern", "format": "Format"}
        t = ("type", jstr(tok("t")))
        for kw, vn in KW.items():
            v = adt(F, "Filter", False, tuple((n, {"type_": tok("t"), "value": adt(FV, vn, True, (("0", tok("x")),))}.get(n, tok(n))) for n, _ in members(a)))
            d = jobj(t, (kw, jstr(tok("x"))))
            k.writes(f"writes:filter:{kw}", F, v, d, "a filter is written as its type and its keyword", where)
            k.reads(f"reads:filter:{kw}", F, d, v, "a filter is read from its type and its keyword", where)
            k.reads(f"reads-reversed:filter:{kw}", F, jobj((kw, jstr(tok("x"))), t), v, "the order of members does not matter", where)
            k.reads(f"required:filter:{kw}", F, jobj((kw, jstr(tok("x")))), None, "a filter without a type is an error", where)
            for other in ("minimum", "enum", "not", "Const", "exclusiveMinimum", "formatMinimum", "items", "minLength"):
                k.reads(f"unknown:filter:{kw}+{other}", F, jobj(t, (kw, jstr(tok("x"))), (other, jstr(tok("y")))), None, "a filter keyword that would not be checked is an error", where)
                k.reads(f"unknown:filter:{other}+{kw}", F, jobj((other, jstr(tok("y"))), (kw, jstr(tok("x"))), t), None, "a filter keyword that would not be checked is an error", where)
            for kw2 in KW:
                if kw2 != kw: k.reads(f"two:filter:{kw}+{kw2}", F, jobj(t, (kw, jstr(tok("x"))), (kw2, jstr(tok("y")))), None, "two keywords of which one would not be checked are an error", where)
        k.reads("none:filter", F, jobj(t), None, "a filter without a keyword is an error", where)
        for other in ("minimum", "enum"): k.reads(f"only:filter:{other}", F, jobj(t, (other, jstr(tok("y")))), None, "a filter without a known keyword is an error", where)
    # any other serde type of the crate must at least read back what it writes
    for ty, a in sorted(p.adts.items()):
        if ty not in k.w.ser or ty not in k.w.de or "__" in ty or ty[len(C):] in PEX or ty == F: continue
        for vn, fs in a["variants"]:
            v = adt(ty, vn, a["enum"], tuple((n, some(tok(n)) if optof(t) else tok(n)) for n, t, _ in fs))
            for d, st in k.w.encode(ty, v) or []: k.reads(f"roundtrip:{ty[len(C):]}:{vn}", ty, d, v, "what is written is read back", f"crates/dif-exch {ty}")
    # text form of a submission
    e = ctx.engine(p)
    b = next((b for b in p.bodies.values() if b.get("name") == "from_str" and (b.get("self_ty") or "").endswith("PresentationSubmission")), None)
    if b is not None:
        outs = ctx.analyse(e, b, params={0: tok("text")})
        bad = None; whole = ("serde_json::from_str", "serde_json::from_slice", "de::from_str", "de::from_slice", "serde_json::from_reader")
        for r, st in outs or []:
            x = e.deep(st, e.simp(st, r))
            if x.op == "adt" and x.a[1] == "Err":
                # only what the JSON reader refuses is refused
                y = [s for z in (x, *st.units) for s in subterms(z) if s.op == "app" and str(s.a[0]).endswith(("from_str", "from_slice", "from_reader")) and tok("text") in s.a]
                if not y or not any(s in list(subterms(x)) or st.prove(is_variant(s, "Err")) for s in y): bad = "refused without being read: " + ap(x)[:200]
                continue
            y = field(x, "Ok", "0") if x.op == "adt" else field(x, "Ok", "0")
            while y.op in ("f", "field"): y = y.a[0]
            if not (y.op == "app" and str(y.a[0]).endswith(("from_str", "from_slice", "from_reader")) and tok("text") in y.a): bad = ap(x)[:200]
        ctx.ob("submission:text", bad is None and outs, "a submission given as text is read as JSON", "crates/dif-exch PresentationSubmission", bad or "")
    ctx.stats["documents"] += k.n
    ctx.floor("documents analysed", k.n, 150)
