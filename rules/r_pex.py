"""Rules for vercre-dif-exch: matching credentials against a presentation definition.

The public entry point is analysed on templates: constraints whose fields, paths
and filters have a known shape, a credential whose path queries select known
nodes, and opaque texts everywhere else.  JSONPath parsing and querying, regular
expressions and date parsing are library atoms."""
import itertools
from registry import prop
from terms import *
from engine import State
import models
from models import MODELS, P
from r_core import TRUST

C = "vercre_dif_exch"
JV = "serde_json::Value"
def tok(n): return mk("tok", n)
def jv(v, *xs): return adt(JV, v, True, tuple((str(i), x) for i, x in enumerate(xs)))
def struct(p, ty, **kw):
    """A struct value; fields not given are opaque: absent or present with any content."""
    a = p.adts.get(ty)
    if a is None: return None
    fs = []
    for n, _, _ in a["variants"][0][1]:
        if n in kw: fs.append((n, kw[n]))
        else: fs.append((n, tok(n)))
    return adt(ty, a["variants"][0][0], False, tuple(fs))
def fval(v, x): return adt(C + "::FilterValue", v, True, (("0", x),))

class Match:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.program("vercre_dif_exch")
        self.entry = None
        for b in self.p.bodies.values():
            if b.get("name") == "satisfied" and "Constraints" in (b.get("self_ty") or b["path"]) and b["argc"] == 2: self.entry = b
        if self.entry is None: ctx.fail("anchor:satisfied", "constraints can be checked", C, "entry point not found")
        self.n = 0
        self.unroll = 16
        self.large = ctx.reach(self.p, 40 if ctx.tier == "quick" else 258)
    def engine(self, nodes):
        """nodes: path text -> None (malformed) or list of nodes selected."""
        e = self.ctx.engine(self.p); e.separators = ""; e.unroll = self.unroll; e.maxrec = self.unroll; e.max_depth = 60 + 4 * self.unroll
        e.models = dict(MODELS)
        key = lambda v: v.a[1] if is_const(v, "str") else v
        def parse(e_, st, a, c):
            v = P(e_, st, a[0])
            if key(v) not in nodes: return None
            if nodes[key(v)] is None: return [(err(mk("app", "badpath", v)), st)]
            return [(ok(mk("jpath", v)), st)]
        def query(e_, st, a, c):
            v = P(e_, st, a[0]); d = P(e_, st, a[1])
            if v.op != "jpath": return None
            if d is not self.doc: return [(mk("app", "query-of-another-value", v, d), st)]
            return [(mk("array", *nodes[key(v.a[0])]), st)]
        e.models["JsonPath::parse"] = parse
        e.models["JsonPath::query"] = query
        e.models["FromStr::from_str"] = e.models["str::parse"] = lambda e_, st, a, c: (parse(e_, st, a, c) if "JsonPath" in (e_._ctx[5] or "") else None) or MODELS["str::parse"](e_, st, a, c)
        for n in ("NodeList::all", "NodeList::iter", "NodeList::into_iter"): e.models[n] = lambda e_, st, a, c: [(P(e_, st, a[0]), st)]
        def one(e_, st, a, c):
            xs = models.arr(P(e_, st, a[0]))
            if xs is None: return None
            if c["path"].endswith("exactly_one"): return [(ok(xs[0]) if len(xs) == 1 else err(mk("app", "count")), st)]
            return [(ok(some(xs[0]) if xs else NONE) if len(xs) <= 1 else err(mk("app", "count")), st)]
        e.models["NodeList::exactly_one"] = e.models["NodeList::at_most_one"] = one
        def to_json(e_, st, a, c): return [(self.json, st)]
        e.models["Claims::to_json"] = to_json
        return e
    doc = tok("credential")
    json = ok(doc)
    def field(self, paths, filter=NONE, optional=NONE):
        return struct(self.p, C + "::Field", path=mk("array", *[string(x) if isinstance(x, str) else x for x in paths]), filter=filter, optional=optional)
    def filter(self, fv):
        return some(struct(self.p, C + "::Filter", value=fv))
    def run(self, fields, nodes, json=None):
        """[(outcome: True/False/'err'/boolean term, state)], panics."""
        self.n += 1
        self.json = json or ok(self.doc)
        e = self.engine(nodes)
        c = struct(self.p, C + "::Constraints", fields=fields)
        outs = self.ctx.analyse(e, self.entry, params={0: c, 1: tok("claims")}) or []
        r = []
        for v, s in outs:
            if v.op == "adt" and v.a[1] == "Ok":
                b = v.a[3][0][1]
                for k, s2 in e.fork_bool(s, b): r.append((k, s2))
            elif v.op == "adt" and v.a[1] == "Err": r.append(("err", s))
            else: r.append((v, s))
        return r, e.panics
W = "vercre_dif_exch Constraints::satisfied"

# path classes: what a path of a field does
HIT, MISS = jv("String", string("v")), jv("String", string("w"))
CLASSES = {"bad": None, "none": [], "hit": [HIT], "miss": [MISS], "hit2": [HIT, MISS], "miss2": [MISS, HIT]}
# values a filter on a text rejects, each of them selected from the credential all the same
KINDS = {"null": jv("Null"), "false": jv("Bool", FALSE), "true": jv("Bool", TRUE), "empty-text": jv("String", string("")), "empty-list": jv("Array", mk("array")),
         "list-of-null": jv("Array", mk("array", jv("Null"))), "object": jv("Object", tok("o")), "number": jv("Number", tok("n"))}
KCLS = {k: [v] for k, v in KINDS.items()}; KCLS.update({k + "2": [v, HIT] for k, v in KINDS.items()})
def spec(seq, filt):
    """Does a field with these path classes match?  'match', 'error', 'no'."""
    for c in seq:
        if c == "bad": return "error"
        if c == "none": continue
        if filt == "none": return "match"
        if filt in ("badformat", "badregex"): return "error"
        if c.startswith("hit"): return "match"
    return "no"
def present(seq): return any(c not in ("bad", "none") for c in seq)

def fields_of(m, seqs, filt, opts, classes=CLASSES, opaque=False):
    nodes = {}; fs = []
    fv = {"none": NONE, "const": m.filter(fval("Const", string("v"))), "badformat": m.filter(fval("Format", string("no-such-format"))),
          "badregex": m.filter(fval("Pattern", string("(")))}[filt]
    for i, (seq, o) in enumerate(zip(seqs, opts)):
        ps = []
        for j, c in enumerate(seq):
            q = tok(f"path{i}_{j}") if opaque else f"$.p{i}_{j}"; ps.append(q); nodes[q] = classes[c]
        fs.append(m.field(ps, fv, o))
    return fs, nodes
OPTS = {"unset": NONE, "false": some(FALSE), "true": some(TRUE)}

def regex_model(e):
    pass

@prop("C07", "Abstract interpretation of the public constraint check over templates: every combination of up to two fields (required, "
      "explicitly required, optional) whose paths are malformed, select nothing, or select matching or non-matching values; the outcome "
      "on every template must be the one the rule 'every field matches, or is optional and absent' gives, and no error may end in acceptance.",
      TRUST + ["serde_json_path implements JSONPath"])
def c07(ctx):
    m = Match(ctx)
    if m.entry is None: return
    # no fields: satisfied
    for name, f in (("no-fields", NONE), ("empty-fields", some(mk("array")))):
        r, pn = m.run(f, {})
        ctx.ob(f"{name}", [k for k, _ in r] == [True], "constraints without fields are satisfied", W, [str(k) for k, _ in r])
    # unreadable credential
    f, nodes = fields_of(m, [("hit",)], "none", [NONE])
    r, pn = m.run(some(mk("array", *f)), nodes, err(mk("app", "unreadable")))
    ctx.ob("unreadable", bool(r) and all(k == "err" for k, _ in r), "a credential that cannot be read is an error", W, [str(k) for k, _ in r])
    seqs = [(), ("bad",), ("none",), ("hit",), ("miss",), ("none", "hit"), ("none", "miss"), ("miss", "hit"), ("bad", "hit"), ("hit", "bad"), ("none", "none")]
    def check(name, ss, filt, os, more={}, opaque=False):
        if opaque: name += ":any-text"
        elif len(ss) < 4 and max(map(len, ss), default=0) < 4: check(name, ss, filt, os, more, True)
        f, nodes = fields_of(m, ss, filt, [OPTS[o] for o in os], {**CLASSES, **more}, opaque)
        r, pn = m.run(some(mk("array", *f)), nodes)
        verdict = True
        for s, o in zip(ss, os):
            k = spec(s, filt)
            if k == "match": continue
            if k == "error": verdict = "err" if verdict is True else "reject"; break
            if o == "true" and not present(s): continue
            if verdict is True: verdict = False
        for b, s in r:
            good = b in (False, "err") if verdict == "reject" else b is verdict if verdict in (True, False) else b == "err"
            ctx.ob(f"satisfied:{name}", good, "satisfied iff every field matches or is optional and absent; an error is reported", W, f"{name}: found {b}, required {verdict}")
        ctx.ob(f"total:{name}", bool(r), "every template has an outcome", W, name)
        ctx.ob(f"nopanic:{name}", not pn, "no panic", W, [(x.body, x.site, x.what) for x in pn])
    for filt in ("none", "const", "badformat"):
        for s in seqs:
            for o in OPTS: check(f"{filt}:{'/'.join(s) or 'nopath'}:{o}", [s], filt, [o])
    # any selected value counts as present, and matches when there is no filter
    for k in KCLS:
        for sq in ((k,), ("none", k), (k, "none"), (k, "hit"), ("miss", k)):
            for filt in ("none", "const"):
                if filt == "const" and k.startswith("number"): continue    # decided by C09
                for o in OPTS: check(f"{filt}:{'/'.join(sq)}:{o}", [sq], filt, [o], KCLS)
    pairs = seqs if ctx.tier == "thorough" else [(), ("none",), ("hit",), ("miss",), ("bad",), ("none", "hit")]
    for filt in ("none", "const"):
        for a, b in itertools.product(pairs, repeat=2):
            for o1, o2 in itertools.product(("unset", "false", "true"), repeat=2):
                check(f"{filt}:{'/'.join(a) or 'nopath'}:{o1}+{'/'.join(b) or 'nopath'}:{o2}", [a, b], filt, [o1, o2])
    # three fields: the failing one anywhere
    for i in range(3):
        ss = [("hit",)] * 3; ss[i] = ("miss",)
        check(f"const:three:{i}", ss, "const", ["unset"] * 3)
    # many fields, more than any bound in the code: only the last one decides
    n = m.large; m.unroll = 2 * n + 16
    for last, o in ((("hit",), "unset"), (("miss",), "unset"), (("none",), "unset"), (("none",), "true"), (("miss",), "true"), (("bad",), "unset")):
        check(f"const:many:{'/'.join(last)}:{o}", [("hit",)] * (n - 1) + [last], "const", ["unset"] * (n - 1) + [o])
    for o in ("unset", "true"):
        check(f"const:many-absent:{o}", [("none",)] * (n - 1) + [("miss",)], "const", ["true"] * (n - 1) + [o])
        check(f"const:many-paths:{o}", [("none",) * (n - 1) + ("miss",)], "const", [o])
        check(f"const:no-paths-hit:{o}", [("none",) * n], "const", [o])
    ctx.floor("constraint templates", m.n, 300)

@prop("C08", "Abstract interpretation over every sequence of up to three path classes (malformed, selecting nothing, one value, several "
      "values with the first or only a later one matching) and every filter kind: the field matches iff, in order, some path selects a "
      "value and the first value it selects passes the filter, before any malformed path.", TRUST + ["serde_json_path implements JSONPath"])
def c08(ctx):
    m = Match(ctx)
    if m.entry is None: return
    n = 4 if ctx.tier == "thorough" else 3
    for filt in ("none", "const", "badformat", "badregex"):
        for k in range(0, n + 1):
            for seq, anytext in itertools.product(itertools.product(CLASSES, repeat=k), (False, True)):
                if anytext and k > 2: continue
                if k == n and filt.startswith("bad") and ctx.tier != "thorough": continue
                f, nodes = fields_of(m, [seq], filt, [NONE], opaque=anytext)
                r, pn = m.run(some(mk("array", *f)), nodes)
                w = spec(seq, filt)
                name = f"{filt}:{'/'.join(seq) or 'nopath'}" + (":any-text" if anytext else "")
                if filt == "badregex":
                    # whether the pattern compiles is the library's verdict; on the branch where it does not, nothing matches
                    r = [(b, s) for b, s in r if not any(t.op == "is" and v and t.a[1] == "Ok" and t.a[0].op == "app" and "Regex" in str(t.a[0].a[0]) for t, v in s.units.items())] or r
                for b, s in r:
                    good = b is True if w == "match" else b is False if w == "no" else b == "err"
                    ctx.ob(f"field:{name}", good, "paths are tried in order and the first value of a path decides", W, f"{name}: found {b}, required {w}")
                ctx.ob(f"total:{name}", bool(r), "every template has an outcome", W, name)
    for k in KCLS:
        for filt in ("none", "const"):
            if filt == "const" and k.startswith("number"): continue        # decided by C09
            for seq in ((k,), ("none", k), (k, "hit"), (k, "bad"), (k, k), ("hit", k), ("miss", k, "hit")):
                f, nodes = fields_of(m, [seq], filt, [NONE], {**CLASSES, **KCLS})
                r, pn = m.run(some(mk("array", *f)), nodes)
                w = spec(seq, filt); name = f"{filt}:{'/'.join(seq)}"
                for b, s in r:
                    good = b is True if w == "match" else b is False if w == "no" else b == "err"
                    ctx.ob(f"field:{name}", good, "any selected value counts, whatever its kind", W, f"{name}: found {b}, required {w}")
                ctx.ob(f"total:{name}", bool(r), "every template has an outcome", W, name)
    # many paths, more than any bound in the code: only the last one decides; and a path that selects many values
    n = m.large; m.unroll = 2 * n + 16
    many = dict(CLASSES); many["miss*"] = [MISS] * n + [HIT]; many["hit*"] = [HIT] + [MISS] * n
    for filt, seq in [(f, (c,) * (n - 1) + (last,)) for f, c in (("none", "none"), ("const", "none"), ("const", "miss")) for last in CLASSES] + [("const", ("miss*",)), ("const", ("hit*",)), ("const", ("miss*", "hit"))]:
        f, nodes = fields_of(m, [seq], filt, [NONE], many)
        r, pn = m.run(some(mk("array", *f)), nodes)
        w = spec(seq, filt); name = f"{filt}:many:{seq[0]}/{seq[-1]}"
        for b, s in r:
            good = b is True if w == "match" else b is False if w == "no" else b == "err"
            ctx.ob(f"field:{name}", good, "paths are tried in order and the first value of a path decides", W, f"{name} ({len(seq)} paths): found {b}, required {w}")
        ctx.ob(f"total:{name}", bool(r), "every template has an outcome", W, name)
    ctx.floor("path sequences", m.n, 500)

def decide(ctx, key, r, want, rule, detail=""):
    """The outcomes are exactly: satisfied iff `want` (a boolean term)."""
    seen = set()
    for b, s in r:
        if b is True: ok_ = s.prove(want)
        elif b in (False, "err"): ok_ = s.prove(neg(want))
        else: ok_ = False
        seen.add(b)
        ctx.ob(key, ok_, rule, W, f"{detail} outcome {b} under {[('' if v else '!') + ap(t)[:120] for t, v in s.units.items() if t.op != 'known'][:8]}; required iff {ap(want)[:200]}")
    ctx.ob(key + ":total", bool(r), rule, W, "no outcome")

NODES = {"string": jv("String", tok("s")), "number": jv("Number", tok("n")), "true": jv("Bool", TRUE), "false": jv("Bool", FALSE),
         "null": jv("Null"), "object": jv("Object", tok("o")), "empty-list": jv("Array", mk("array")),
         "strings": jv("Array", mk("array", jv("String", tok("a")), jv("String", tok("b")))),
         "mixed": jv("Array", mk("array", jv("Null"), jv("String", tok("a")), jv("Object", tok("o")), jv("Array", mk("array", jv("String", tok("z")))))),
         "long": jv("Array", mk("array", jv("String", tok("a")), jv("Number", tok("n")), jv("String", tok("b")), jv("Bool", TRUE), jv("String", tok("d")), jv("String", tok("g")))),
         "list": jv("Array", tok("l"))}

@prop("C09", "Abstract interpretation of the constraint check for every kind of filter against every kind of JSON value with opaque "
      "texts: the outcome must be acceptance exactly under the atom that defines the filter (text equality, regular-expression match on "
      "the content, date parse), proved in both directions.",
      TRUST + ["regex, chrono and serde_json behave as documented"])
def c09(ctx):
    m = Match(ctx)
    if m.entry is None: return
    c = tok("c")
    def run(fv, node):
        f = m.field([tok("path")], m.filter(fv))
        r, pn = m.run(some(mk("array", f)), {tok("path"): [node]})
        return r
    const = {"string": eq(tok("s"), c), "null": FALSE, "object": FALSE, "empty-list": FALSE,
             "strings": disj(eq(tok("a"), c), eq(tok("b"), c)), "mixed": eq(tok("a"), c),
             "long": disj(*[eq(tok(x), c) for x in "abdg"]), "number": eq(mk("display", tok("n")), c)}
    for k, w in const.items():
        r = run(fval("Const", c), NODES[k])
        decide(ctx, f"const:{k}", r, w, "a const filter matches exactly an equal text, or a list containing it", k)
    for b in ("true", "false"):
        for txt in ("true", "false", "x", ""):
            r = run(fval("Const", string(txt)), NODES[b])
            for x, s in r:
                ctx.ob(f"const:{b}:{txt}", x is False or x == "err" or (x is True and txt == b), "a boolean never matches a different constant", W, x)
    # texts of which one must match the pattern, per kind of value
    texts = {"string": [tok("s")], "number": [mk("display", tok("n"))], "true": [], "false": [], "null": [], "object": [], "empty-list": [],
             "strings": [tok("a"), tok("b")], "mixed": [tok("a")],
             "long": [tok(x) for x in "abdg"]}
    for k, ts in texts.items():
        r = run(fval("Pattern", c), NODES[k])
        rx = None
        for b, s in r:
            for t in list(s.units):
                for y in subterms(t):
                    if y.op == "app" and str(y.a[0]).startswith("Regex::new"): rx = y
        if rx is None:
            if ts or any(b is True for b, s in r) or not r: ctx.fail(f"pattern:{k}", "a pattern filter is a regular expression", W, "no regular expression is built")
            continue
        ctx.ob(f"pattern:{k}:source", rx.a[1] is c, "the pattern is used as given", W, ap(rx))
        w = conj(is_variant(rx, "Ok"), disj(*[mk("bapp", "rematch", field(rx, "Ok", "0"), t) for t in ts])) if ts else FALSE
        decide(ctx, f"pattern:{k}", r, w, "a pattern filter matches iff the expression matches a string's content, or that of a list's string", k)
    for fmt, how in (("date", "NaiveDate::parse_from_str"), ("date-time", "DateTime::parse_from_rfc3339")):
        for k, node in NODES.items():
            r = run(fval("Format", string(fmt)), node)
            if k != "string":
                for b, s in r: ctx.ob(f"format:{fmt}:{k}", b is False or b == "err", "only a string can have a date format", W, b)
                continue
            atoms = [x for b, s in r for t in s.units for x in subterms(t) if x.op == "app" and str(x.a[0]).endswith(("parse_from_str", "parse_from_rfc3339"))]
            src = atoms[0] if atoms else None
            if src is None: ctx.fail(f"format:{fmt}", "the string is parsed as a date", W, [str(b) for b, _ in r]); continue
            ctx.ob(f"format:{fmt}:parser", src.a[0] == how and src.a[1] is tok("s") and (fmt != "date" or src.a[2] in (string("%Y-%m-%d"), string("%F"))),
                   "a date is YYYY-MM-DD and a date-time is RFC 3339, on the whole text", W, ap(src))
            decide(ctx, f"format:{fmt}", r, is_variant(src, "Ok"), "a format filter matches iff the text parses", fmt)
    for fmt in ("time", "email", "uri", "", "DATE", "date_time"):
        for k, node in NODES.items():
            for b, s in run(fval("Format", string(fmt)), node):
                ctx.ob(f"format:unknown:{fmt}:{k}", b is False or b == "err", "an unsupported format never matches", W, b)
    for k, node in NODES.items():
        for b, s in run(fval("Format", tok("f")), node):
            if b is True: ctx.ob(f"format:open:{k}", s.prove(disj(eq(tok("f"), string("date")), eq(tok("f"), string("date-time")))), "only date and date-time are accepted", W, k)
    # a long list, longer than any bound in the code: only its last element can match
    n = m.large; m.unroll = 2 * n + 16
    for name, elem in (("text", jv("String", string("other"))), ("null", jv("Null"))):
        node = jv("Array", mk("array", *[elem] * (n - 1), jv("String", tok("z"))))
        decide(ctx, f"const:many:{name}", run(fval("Const", string("it")), node), eq(tok("z"), string("it")), "a const filter matches a list that contains the text, however long", name)
    node = jv("Array", mk("array", *[jv("Null")] * (n - 1), jv("String", tok("z"))))
    r = run(fval("Pattern", c), node)
    rx = next((y for b, s in r for t in s.units for y in subterms(t) if y.op == "app" and str(y.a[0]).startswith("Regex::new")), None)
    if rx is None: ctx.fail("pattern:many", "a pattern filter is a regular expression", W, "no regular expression is built")
    else: decide(ctx, "pattern:many", r, conj(is_variant(rx, "Ok"), mk("bapp", "rematch", field(rx, "Ok", "0"), tok("z"))), "a pattern filter matches a list with a matching string, however long", "many")
    ctx.floor("filter and value combinations", m.n, 80)

@prop("C10", "Panic reachability over the call graph of the constraint check, per template (every filter kind against every JSON value "
      "kind, opaque documents, malformed paths and patterns): no panicking construct may be reachable.", TRUST + ["regex, chrono, serde_json and serde_json_path do not panic"])
def c10(ctx):
    m = Match(ctx)
    if m.entry is None: return
    kinds = [fval("Const", tok("c")), fval("Pattern", tok("c")), fval("Format", tok("c")), fval("Format", string("date")), fval("Format", string("date-time")),
             fval("Const", string("")), fval("Pattern", string("")), fval("Format", string(""))]
    names = ["const", "pattern", "format", "date", "date-time", "const-empty", "pattern-empty", "format-empty"]
    def chk(name, fields, nodes, json=None):
        r, pn = m.run(fields, nodes, json)
        ctx.ob(f"nopanic:{name}", not pn, "matching never panics", W, [f"{x.kind} {x.what} in {x.body} at {x.site}" for x in pn])
        ctx.ob(f"total:{name}", bool(r), "matching always returns", W, name)
    for nm, fv in zip(names, kinds):
        for k, node in NODES.items():
            for o in ("unset", "true"):
                f = m.field(["$"], m.filter(fv), OPTS[o])
                chk(f"{nm}:{k}:{o}", some(mk("array", f)), {"$": [node]})
                chk(f"{nm}:{k}:{o}:two", some(mk("array", f)), {"$": [node, jv("Null")]})
            f = m.field([tok("path"), tok("path2")], m.filter(fv))
            chk(f"{nm}:{k}:any-text", some(mk("array", f)), {tok("path"): [], tok("path2"): [node]})
            f = m.field(["$", "$.x"], m.filter(fv))
            chk(f"{nm}:{k}:after-none", some(mk("array", f)), {"$": [], "$.x": [node]})
    for k, cl in CLASSES.items():
        for o in OPTS: chk(f"nofilter:{k}:{o}", some(mk("array", m.field(["$"], NONE, OPTS[o]))), {"$": cl})
    chk("nopath", some(mk("array", m.field([], NONE))), {})
    chk("unreadable", some(mk("array", m.field(["$"], NONE))), {"$": []}, err(mk("app", "unreadable")))
    # fully open: any constraints, any credential
    e = ctx.engine(m.p)
    outs = ctx.analyse(e, m.entry) or []
    ctx.ob("nopanic:open", not e.panics, "matching never panics, whatever the constraints and the credential", W, [f"{x.kind} {x.what} in {x.body} at {x.site}" for x in e.panics])
    ctx.floor("templates", m.n, 150)
