"""Rules for vercre-core: generated secrets, PKCE, list containers."""
import math, re
from registry import prop
from terms import *
from engine import Engine

B64URL = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
UNRESERVED = B64URL | set(".~")
TRUST = ["rustc's MIR is faithful to the source", "the models of std, base64ct, sha2 and fastrand in lib/models.py"]

def rng(r):
    """(lo, hi) inclusive of a range term with constant ends."""
    if r.op == "rangeincl": lo, hi, inc = r.a[0], r.a[1], 0
    elif r.op == "adt":
        n = r.a[0].split("::")[-1]
        f = dict(r.a[3])
        if n == "RangeTo": lo, hi, inc = integer(0), f["end"], -1
        elif n == "RangeToInclusive": lo, hi, inc = integer(0), f["end"], 0
        elif n == "Range": lo, hi, inc = f["start"], f["end"], -1
        elif n == "RangeInclusive": lo, hi, inc = f["start"], f["end"], 0
        else: return None
    else: return None
    if is_const(lo, "int") and is_const(hi, "int"): return (lo.a[1], hi.a[1] + inc)
    return None

def chars_of(t):
    if is_const(t, "str"): return list(t.a[1])
    if is_const(t, "bytes"): return [chr(b) for b in t.a[1]]
    if t.op == "array" and all(is_const(x) for x in t.a):
        return [x.a[1] if isinstance(x.a[1], str) else chr(x.a[1]) for x in t.a]
    return None

# Random draws: each evaluation of a drawing call is a new `draw(n, lo, hi)` term.
INTS = ("usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128")
SETS = {"digit": "0123456789abcdefghijklmnopqrstuvwxyz", "alphanumeric": "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789",
        "alphabetic": "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz", "lowercase": "abcdefghijklmnopqrstuvwxyz", "uppercase": "ABCDEFGHIJKLMNOPQRSTUVWXYZ"}
def rand_engine(ctx, p, force=None):
    """An engine that names every random draw; `force` replaces the first one by a constant."""
    from models import MODELS, P, arr, ret
    e = ctx.engine(p); e.unroll = 300; e.models = dict(MODELS); e.draws = []
    def draw(lo, hi):
        n = len(e.draws); e.draws.append((lo, hi))
        return integer(force) if n == 0 and force is not None else mk("draw", n, lo, hi)
    def m_int(i):
        def f(e_, st, a, c):
            r = rng(P(e_, st, a[i]))
            return None if r is None or r[1] < r[0] else [(draw(*r), st)]
        return f
    def m_set(i, n):
        def f(e_, st, a, c):
            k = len(SETS[n])
            if n == "digit":
                b = P(e_, st, a[i])
                if not is_const(b, "int"): return None
                k = b.a[1]
            return [(index(string(SETS[n][:k]), draw(0, k - 1)), st)]
        return f
    def m_choice(i):
        def f(e_, st, a, c):
            xs = arr(P(e_, st, a[i]))
            return None if xs is None else [(some(index(mk("array", *xs), draw(0, len(xs) - 1))) if xs else NONE, st)]
        return f
    for pre, i in (("fastrand", 0), ("global_rng", 0), ("Rng", 1)):
        for t in INTS: e.models[f"{pre}::{t}"] = m_int(i)
        for t in SETS: e.models[f"{pre}::{t}"] = m_set(i, t)
        e.models[f"{pre}::choice"] = m_choice(i)
    def within(name, i):
        old = e.models.get(name)
        def f(e_, st, a, c):
            xs = arr(P(e_, st, a[0])); k = P(e_, st, a[1])
            if xs is not None and k.op == "draw" and 0 <= k.a[1] and k.a[2] < len(xs): return [(some(index(mk("array", *xs), k)), st)]
            return old(e_, st, a, c) if old else None
        e.models[name] = f
    for n in ("Iterator::nth", "slice::get", "Vec::get"): within(n, 1)
    # endless iterators
    def m_rw(e_, st, a, c): return [(mk("endless", P(e_, st, a[0])), st)]
    e.models["iter::repeat_with"] = m_rw
    e.models["iter::from_fn"] = lambda e_, st, a, c: [(mk("endless-fn", P(e_, st, a[0])), st)]
    def m_len(old):
        def f(e_, st, a, c):
            t = P(e_, st, a[0])
            xs = list(t.a) if t.op == "cat" else [t]
            if all(is_const(x, "str") and x.a[1].isascii() or drawn(x)[0] is not None for x in xs):
                return [(integer(sum(len(x.a[1]) if is_const(x, "str") else 1 for x in xs)), st)]
            return old(e_, st, a, c) if old else None
        return f
    for n in ("String::len", "str::len", "Iterator::count"): e.models[n] = m_len(e.models.get(n))
    e.models["iter::repeat"] = lambda e_, st, a, c: [(mk("endless-same", e_.deep(st, a[0])), st)]
    oldmap, oldtake = e.models["Iterator::map"], e.models["Iterator::take"]
    def m_map(e_, st, a, c):
        v = P(e_, st, a[0])
        return [(mk("endless", v, P(e_, st, a[1])), st)] if v.op.startswith("endless") else oldmap(e_, st, a, c)
    def m_take(e_, st, a, c):
        v = P(e_, st, a[0]); n = P(e_, st, a[1])
        if not v.op.startswith("endless") or not is_const(n, "int") or n.a[1] > 300: return oldtake(e_, st, a, c)
        def one(s, g):
            if g.op == "endless-same": return [(g.a[0], s)]
            if g.op == "endless-fn": return [(x.a[3][0][1] if x.op == "adt" and x.a[1] == "Some" else mk("other", "from_fn", ""), s2) for x, s2 in e_.call_value(s, g.a[0], [])]
            if len(g.a) == 1: return e_.call_value(s, g.a[0], [])
            return [(r, s3) for x, s2 in one(s, g.a[0]) for r, s3 in e_.call_value(s2, g.a[1], [x])]
        live = [([], st)]
        for _ in range(n.a[1]): live = [(l + [x], s2) for l, s in live for x, s2 in one(s, v)]
        return [(mk("array", *l), s) for l, s in live]
    e.models["Iterator::map"], e.models["Iterator::take"] = m_map, m_take
    def m_utf8(wrap):
        def f(e_, st, a, c):
            xs = arr(P(e_, st, a[0]))
            if xs is None or any(drawn(x)[0] is None for x in xs): return None
            return [(wrap(cat(*xs) if xs else string("")), st)]
        return f
    for n in ("String::from_utf8", "str::from_utf8"): e.models[n] = m_utf8(ok)
    for n in ("String::from_utf8_lossy", "String::from_utf8_unchecked", "str::from_utf8_unchecked"): e.models[n] = m_utf8(lambda t: t)
    return e

def drawn(t):
    """(alphabet, draw) of one character chosen by one uniform draw, or (None, why)."""
    if t.op == "index":
        cs = chars_of(t.a[0]); i = t.a[1]
        if cs is None: return None, "characters do not come from a fixed alphabet: " + ap(t.a[0])[:120]
        if i.op != "draw": return None, "the character is not chosen at random: " + ap(i)[:120]
        if any(ord(x) > 127 for x in cs): return None, "the alphabet is not ASCII"
        if len(set(cs)) < len(cs): return None, "the draw is not uniform: the alphabet repeats " + repr("".join(sorted(x for x in set(cs) if list(cs).count(x) > 1)))
        if i.a[1] < 0 or i.a[2] >= len(cs): return None, f"the index range {i.a[1:]} exceeds the alphabet of {len(cs)}"
        if i.a[2] - i.a[1] + 1 < len(cs): return None, f"part of the alphabet of {len(cs)} is never drawn: {i.a[1:]}"
        return cs[i.a[1]:i.a[2] + 1], i
    if t.op == "draw" and 0 <= t.a[1] and t.a[2] <= 127: return [chr(c) for c in range(t.a[1], t.a[2] + 1)], t
    return None, "not a character drawn from an alphabet: " + ap(t)[:160]

def random_text(t, eng=None):
    """(length, alphabet list per character) of a text whose every character is drawn
    independently from a constant alphabet, or an explanation."""
    xs = list(t.a) if t.op in ("cat", "array") else [t] if t.op in ("index", "draw") else None
    if t.op == "fmtopt" and t.a[0].op == "display" and t.a[0].a[-1].op == "draw" and (t.a[1] & 0x1fe00000) == 1 << 24 | 1 << 27:
        # a number drawn from 0..10^w, written with leading zeros to w digits: w independent decimal digits
        w = t.a[2] if isinstance(t.a[2], int) else t.a[2].a[1] if isinstance(t.a[2], Term) and t.a[2].op == "const" and isinstance(t.a[2].a[1], int) else None
        d = t.a[0].a[-1]
        if w and d.a[1] == 0 and d.a[2] == 10 ** w - 1: return w, [list("0123456789")] * w
        return f"a number from {d.a[1]} to {d.a[2]} in {w} digits is not {w} independent digits"
    if xs is None: return "not built by drawing characters: " + ap(t)[:200]
    als, seen = [], set()
    for x in xs:
        while x.op in ("app", "cast", "display") and len(x.a) >= 1 and isinstance(x.a[-1], Term) and x.a[-1].op in ("index", "draw") and (x.op != "app" or "char" in str(x.a[0])): x = x.a[-1]
        al, d = drawn(x)
        if al is None: return d
        if d in seen: return "one random draw is used for several characters: " + ap(d)
        seen.add(d); als.append(al)
    return len(als), als

def draws_text(ctx, p, path, unwrap=lambda v: v):
    """Every outcome of a generator as a random text: [(value, random_text result)].
    When the length itself is drawn, every value of that draw is analysed."""
    e = rand_engine(ctx, p)
    outs = ctx.analyse(e, path)
    if outs is None: return None
    rs = [(v, random_text(unwrap(v))) for v, _ in outs]
    if e.draws and any(isinstance(r, str) for _, r in rs):
        lo, hi = e.draws[0]
        if hi - lo <= 300:
            alt = []
            for k in range(lo, hi + 1):
                e2 = rand_engine(ctx, p, force=k)
                o2 = ctx.analyse(e2, path) or []
                alt += [(v, random_text(unwrap(v))) for v, _ in o2]
                if not o2 or any(isinstance(r, str) for _, r in alt): break
            else: return alt
            return alt or rs
    return rs

def bits(als):
    """min-entropy in bits of one draw from each list (duplicates weigh)."""
    return sum(math.log2(len(al) / max(al.count(c) for c in set(al))) for al in als)
def union(als): return {c for al in als for c in al}

SECRETS = ["auth_code", "issuer_state", "nonce", "notification_id", "uri_token", "token", "transaction_id"]

@prop("C01", "Value-flow analysis of every public generator in vercre_core::gen over MIR: the returned term must be "
      "base64url(no padding) of a text whose characters are each selected by a fresh random index over a constant "
      "alphabet; length and alphabet are read off the term and give the min-entropy; no re-seeding call may exist in the workspace.",
      TRUST + ["fastrand's generator is uniform (it is not a CSPRNG: see DESIGN.md)"])
def c01(ctx):
    p = ctx.program("vercre_core")
    n = 0
    gens = sorted(b["path"] for b in p.bodies.values() if re.fullmatch(r"vercre_core::gen::\w+", b["path"]) and b.get("pub") and b["argc"] == 0 and b["kind"] == "Fn" and b.get("eff_pub"))
    for name in SECRETS:
        if f"vercre_core::gen::{name}" not in gens: gens.append(f"vercre_core::gen::{name}")
    for path in gens:
        name = path.split("::")[-1]
        if name == "tx_code": continue
        outs = draws_text(ctx, p, path, lambda v: v.a[1] if v.op == "b64" else v)
        if outs is None: continue
        n += 1
        rule = "a generated secret is base64url(32+ freshly drawn characters), at least 128 bits"
        ctx.ob(f"{name}:total", bool(outs), "a generator has an outcome", path)
        for v, r in outs:
            if isinstance(r, str): ctx.fail(f"{name}:random", rule, path, r); continue
            if v.op == "b64": ctx.ob(f"{name}:urlsafe", v.a[0] in ("Base64UrlUnpadded",), "the text form is URL-safe and unpadded", path, v.a[0])
            else: ctx.ob(f"{name}:urlsafe", union(r[1]) <= B64URL, "the text form is URL-safe", path, ap(v)[:200])
            ctx.ob(f"{name}:random", True, rule, path)
            ctx.ob(f"{name}:entropy", bits(r[1]) >= 128, "at least 128 bits of entropy", path, f"{bits(r[1]):.1f} bits: {r[0]} characters")
    ctx.floor("generators", n, 7)
    reseed(ctx)

def reseed(ctx):
    """No reachable call fixes the random generator's seed."""
    crates = [c for c in ("vercre_core", "vercre_openid", "vercre_issuer", "vercre_verifier", "vercre_holder") if c.replace("_", "-") not in ctx.bad]
    p = ctx.program(*crates)
    calls = 0
    for b in p.bodies.values():
        for x in b["blocks"]:
            if x is None or x["t"][0] != "call": continue
            f = x["t"][1].get("k")
            if not f or f.get("k") != "fn": continue
            calls += 1
            if re.search(r"^fastrand::seed$|fastrand::Rng::(with_seed|seed|fork)|SeedableRng|StepRng", f["path"]):
                ctx.fail(f"reseed:{b['path']}", "the random generator is never given a fixed seed", b["path"], f["path"])
    ctx.ob("reseed:none", True, "no call re-seeds the generator", "workspace")
    ctx.floor("call sites scanned for seeding", calls, 1000)

@prop("C02", "Value-flow analysis of the PKCE and PIN generators: the verifier term must be a text of 43..=128 characters, each a "
      "fresh draw from the RFC 7636 unreserved set; the challenge term must be base64url-nopad(SHA-256(verifier)) on every path; "
      "the PIN term must be six fresh decimal digits.", TRUST)
def c02(ctx):
    p = ctx.program("vercre_core")
    P = "vercre_core::pkce::code_verifier"
    outs = draws_text(ctx, p, P, lambda v: v.a[1] if v.op == "b64" else v)
    ctx.ob("verifier:total", bool(outs), "a verifier is generated", P)
    for v, r in outs or []:
        if isinstance(r, str): ctx.fail("verifier:random", "a verifier is freshly drawn text", P, r); continue
        n, al = r[0], union(r[1])
        if v.op == "b64":   # a base64url text of random bytes is also a valid verifier
            ctx.ob("verifier:urlsafe", v.a[0] == "Base64UrlUnpadded", "unreserved characters only", P, v.a[0])
            n, al = (n * 8 + 5) // 6, B64URL
        ctx.ob("verifier:length", 43 <= n <= 128, "43 to 128 characters", P, n)
        ctx.ob("verifier:alphabet", al <= UNRESERVED, "unreserved characters only", P, "".join(sorted(al - UNRESERVED)))
        ctx.ob("verifier:entropy", bits(r[1]) >= 128, "at least 128 bits", P, bits(r[1]))
    eng = ctx.engine(p)
    P = "vercre_core::pkce::code_challenge"
    outs = ctx.analyse(eng, P)
    want = mk("b64", "Base64UrlUnpadded", mk("hash", "Sha256", mk("param", "verifier")))
    for v, st in outs or []:
        arg = [mk("param", n) for n, q in p.find(P)["names"] if q == 1]
        w = mk("b64", "Base64UrlUnpadded", mk("hash", "Sha256", arg[0] if arg else mk("param", "arg1")))
        ctx.ob("challenge:s256", v is w, "challenge = BASE64URL-ENCODE(SHA256(ASCII(verifier)))", P, ap(v)[:300])
    ctx.ob("challenge:total", outs is not None and len(outs) == 1, "one outcome for every verifier", P, len(outs or []))
    P = "vercre_core::gen::tx_code"
    outs = draws_text(ctx, p, P)
    ctx.ob("pin:total", bool(outs), "a PIN is generated", P)
    for v, r in outs or []:
        if isinstance(r, str): ctx.fail("pin:random", "a PIN is freshly drawn digits", P, r); continue
        ctx.ob("pin:length", r[0] == 6, "exactly six digits", P, r[0])
        ctx.ob("pin:digits", all(sorted(al) == list("0123456789") for al in r[1]), "each digit equally likely", P, ["".join(al) for al in r[1]])
    reseed(ctx)

def body_of(p, trait, ty, name):
    for b in p.bodies.values():
        if b.get("impl_trait") == trait and b.get("name") == name and re.sub(r"<.*", "", b.get("self_ty") or "") == ty: return b
    return None
def method(p, ty, name):
    for b in p.bodies.values():
        if not b.get("impl_trait") and b.get("name") == name and re.sub(r"<.*", "", b.get("self_ty") or "") == ty: return b
    return None

def const_result(ctx, p, key, b, params, want, rule):
    """Every outcome of b on these arguments is the term `want`."""
    if b is None: ctx.fail(key, rule, key, "the function is missing"); return
    eng = ctx.engine(p)
    outs = ctx.analyse(eng, b, params=params)
    ctx.ob(key, bool(outs) and all(same(v, want, s) for v, s in outs), rule, b["path"], [ap(v)[:200] for v, _ in outs or []])
def same(v, want, s):
    """v is want under what is known in state s."""
    if v is want: return True
    if is_const(v, "bool"): return s.prove(want if v.a[1] else neg(want))
    if want.op in ("const",) and want.a[0] == "bool": return s.prove(v if want.a[1] else neg(v))
    return s.prove(eq(v, want))
def literal(ctx, p, b, params):
    """Outcomes on literal lists, iterated element by element."""
    eng = ctx.engine(p); eng.unroll = 64
    return eng, ctx.analyse(eng, b, params=params) or []

@prop("C06", "Value-flow analysis of the one-or-many and string-or-object containers with each variant as input: adding keeps "
      "every element and appends at the end, size queries agree with the contents, and the derived (de)serialisers are untagged "
      "with the plain form tried first.", TRUST + ["serde's derive emits the documented untagged protocol"])
def c06(ctx):
    p = ctx.program("vercre_core")
    Q, K = "vercre_core::Quota", "vercre_core::Kind"
    x, v, it = mk("param", "x"), mk("param", "v"), mk("param", "item")
    one = adt(Q, "One", True, (("0", x),)); many = adt(Q, "Many", True, (("0", v),))
    none_ = adt(Q, "Many", True, (("0", mk("array")),))
    def m(n): return method(p, Q, n)
    def lits(k): return [mk("param", f"x{i}") for i in range(k)]
    for n, a, b in (("is_one", TRUE, FALSE), ("is_many", FALSE, TRUE), ("len", integer(1), length(v)), ("is_empty", FALSE, empty(v))):
        const_result(ctx, p, f"quota:{n}:one", m(n), {0: one}, a, f"{n} of a single object")
        const_result(ctx, p, f"quota:{n}:many", m(n), {0: many}, b, f"{n} of a set")
        for k in range(0, 6):
            if m(n) is None: break
            w = {"is_one": FALSE, "is_many": TRUE, "len": integer(k), "is_empty": boolean(k == 0)}[n]
            eng, outs = literal(ctx, p, m(n), {0: adt(Q, "Many", True, (("0", mk("array", *lits(k))),))})
            ctx.ob(f"quota:{n}:{k}", bool(outs) and all(same(r, w, s) for r, s in outs), f"{n} of a set of {k}", m(n)["path"], [ap(r)[:200] for r, _ in outs])
    st, obj = adt(K, "String", True, (("0", x),)), adt(K, "Object", True, (("0", x),))
    for n, a, b in (("is_string", TRUE, FALSE), ("is_object", FALSE, TRUE)):
        const_result(ctx, p, f"kind:{n}:string", method(p, K, n), {0: st}, a, n)
        const_result(ctx, p, f"kind:{n}:object", method(p, K, n), {0: obj}, b, n)
    b = m("add")
    for nm, start, want in (("one", one, [adt(Q, "Many", True, (("0", mk("array", x, it)),))]),
                            ("many", many, [adt(Q, "Many", True, (("0", mk("push", v, it)),))])):
        if b is None: ctx.fail("quota:add", "add exists", Q); break
        eng = ctx.engine(p)
        outs = ctx.analyse(eng, b, params={0: start, 1: it}) or []
        got = [eng.deep(s, s.env[(0, 0)]) for _, s in outs]
        good = bool(outs) and all(g in want for g in got)
        if not good and nm == "many":
            # not a plain append: judge it on literal lists instead
            good = not any(g is start for g in got)     # an item that is dropped, whatever the length
            near = {k + d for k in ctx.constants(p, 1100, lambda b_: "Quota" in b_["path"]) for d in (-1, 0, 1)}
            for k in sorted(set(range(0, 41)) | {k for k in near if k > 0}):
                e2, o2 = literal(ctx, p, b, {0: adt(Q, "Many", True, (("0", mk("array", *lits(k))),)), 1: it})
                w = adt(Q, "Many", True, (("0", mk("array", *lits(k), it)),))
                good = good and bool(o2) and all(e2.deep(s, s.env[(0, 0)]) is w for _, s in o2)
        ctx.ob(f"quota:add:{nm}", good, "add keeps what is there and appends the new item", b["path"], [ap(g)[:200] for g in got])
    # equality and copies
    y = mk("param", "y")
    def lst(n, k): return adt(Q, "Many", True, (("0", mk("array", *[mk("param", f"{n}{i}") for i in range(k)])),))
    for ty, vs in ((Q, ("One", "Many")), (K, ("String", "Object"))):
        short_ = ty.split("::")[-1]
        b = body_of(p, "std::cmp::PartialEq", ty, "eq")
        for v1 in vs:
            for v2 in vs:
                r_ = "values are equal exactly when they have the same form and the same contents"
                if b is None: ctx.fail(f"eq:{short_}", r_, ty, "no comparison"); continue
                outs = ctx.analyse(ctx.engine(p), b, params={0: adt(ty, v1, True, (("0", x),)), 1: adt(ty, v2, True, (("0", y),))}) or []
                good = bool(outs) and all(same(r, eq(x, y) if v1 == v2 else FALSE, s) for r, s in outs)
                if not good and ty == Q and v1 == v2 == "Many":
                    # compared element by element: judge it on literal lists instead
                    good = True
                    for i in range(0, 4):
                        for j in range(0, 4):
                            _, o2 = literal(ctx, p, b, {0: lst("l", i), 1: lst("r", j)})
                            w = conj(*[eq(mk("param", f"l{n}"), mk("param", f"r{n}")) for n in range(i)]) if i == j else FALSE
                            good = good and bool(o2) and all(same(r, w, s) for r, s in o2)
                ctx.ob(f"eq:{short_}:{v1}:{v2}", good, r_, b["path"], [ap(r)[:200] for r, _ in outs])
        b = body_of(p, "std::clone::Clone", ty, "clone")
        for v1 in vs:
            w = adt(ty, v1, True, (("0", x),))
            const_result(ctx, p, f"clone:{short_}:{v1}", b, {0: w}, w, "a copy has the same form and contents")
    # wire form
    for ty, vs in ((Q, ("One", "Many")), (K, ("String", "Object"))):
        b = body_of(p, "serde::Serialize", ty, "serialize")
        short_ = ty.split("::")[-1]
        for vn in vs:
            if b is None: ctx.fail(f"wire:{short_}", "serialisable", ty); break
            eng = ctx.engine(p)
            outs = ctx.analyse(eng, b, params={0: adt(ty, vn, True, (("0", x),))}) or []
            ok_ = bool(outs) and all(v_.op == "app" and (v_.a[0] == "Serialize::serialize" and v_.a[1] is x or vn == "Many" and v_.a[0] == "Serializer::collect_seq" and v_.a[2] is x) for v_, _ in outs)
            ctx.ob(f"wire:{short_}:ser:{vn}", ok_, "each variant is written as its bare content", b["path"], [ap(v_)[:200] for v_, _ in outs])
        b = body_of(p, "serde::Deserialize", ty, "deserialize")
        if b is None: ctx.fail(f"wire:{short_}:de", "deserialisable", ty); continue
        eng = ctx.engine(p)
        outs = ctx.analyse(eng, b) or []
        oks = {}
        for v_, s in outs:
            if v_.op == "adt" and v_.a[1] == "Ok":
                for leaf in leaves(v_.a[3][0][1]):
                    if leaf.op != "adt" or leaf.a[0] != ty: continue
                    oks[leaf.a[1]] = (leaf, s)
                    y = leaf.a[3][0][1]
                    src = y
                    while src.op == "f": src = src.a[0]
                    raw = src.op == "app" and str(src.a[0]).endswith("::deserialize")
                    ctx.ob(f"wire:{short_}:de:{leaf.a[1]}", raw, "each form is read back as it was written", b["path"], ap(y)[:200])
        ctx.ob(f"wire:{short_}:de:variants", set(oks) == set(vs), "either form is accepted", b["path"], sorted(oks))
        # the first variant is tried first: the second is reached only when the first did not parse
        if set(oks) == set(vs):
            l1, s1 = oks[vs[0]]; l2, s2 = oks[vs[1]]
            src1 = l1.a[3][0][1]
            t = src1.a[0] if src1.op == "f" else src1
            ctx.ob(f"wire:{short_}:de:order", s2.prove(neg(is_variant(t, "Ok"))) or s1 is s2, "the plain form takes precedence", b["path"], ap(t)[:200])
def leaves(t):
    if t.op == "ite": return leaves(t.a[1]) + leaves(t.a[2])
    if t.op == "phi": return [y for x in t.a for y in leaves(x)]
    return [t]
