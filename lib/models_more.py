"""Further models: in-place edits of literal collections, map entries, text inspection."""
import re
from models import *
from models import _get
from terms import *

def mutref(e, a):
    return a if a.op == "mref" else None

# ------------------------------------------------------------ one-element lists
@model("slice::from_ref", "iter::once", "array::from_ref", "slice::from_mut")
def one(e, st, a, c): return ret(mk("array", e.deep(st, a[0])), st)

# extending by a literal list is pushing its elements
_ext = MODELS["Extend::extend"]
def ext(e, st, a, c):
    v, x = P(e, st, a[0]), P(e, st, a[1])
    if x.op == "array" and re.match(r"^std::string::String$", (c["targs"] or [""])[0]) and all(is_const(y, "str") for y in x.a):
        upd(e, st, a[0], cat(v, *x.a)); return ret(UNIT, st)
    if x.op == "array" and not is_const(v, "str") and v.op != "cat":
        t = (c["targs"] or [""])[0]
        if re.match(r"^std::collections::(HashMap|BTreeMap)|^serde_json::(map::)?Map", t):
            if all(y.op == "tuple" for y in x.a):
                for y in x.a:
                    m = P(e, st, a[0])
                    es = entries(m)
                    if es is not None and any(is_const(k) and k is y.a[0] for k, _ in es): m = set_key(m, *y.a)
                    else: m = mk("insert", m, *y.a)
                    upd(e, st, a[0], m)
                return ret(UNIT, st)
        elif re.match(r"^std::collections::(HashSet|BTreeSet)", t):
            for y in x.a: upd(e, st, a[0], mk("insert", P(e, st, a[0]), y, UNIT))
            return ret(UNIT, st)
        elif re.match(r"^std::(vec::Vec|collections::VecDeque)|^$", t):
            for y in x.a: MODELS["Vec::push"](e, st, [a[0], y], c)
            return ret(UNIT, st)
    return _ext(e, st, a, c)
MODELS["Extend::extend"] = ext
@model("Vec::extend_from_slice", "Vec::append")
def ext2(e, st, a, c):
    x = P(e, st, a[1])
    if x.op == "array":
        for y in x.a: MODELS["Vec::push"](e, st, [a[0], y], c)
        r = ret(UNIT, st)
    else: r = _ext(e, st, a, c)
    if c["path"].endswith("append"): upd(e, st, a[1], mk("array"))
    return r

# --------------------------------------------------- in-place edits of literal lists
def vconc(*names):
    """Element-wise version of an operation that edits a literal list: f returns (new list, result) pairs."""
    def d(f):
        for name in names:
            def mkg(name, old):
                def g(e, st, a, c):
                    if e.unroll or P(e, st, a[0]).op == "array":
                        v = P(e, st, a[0])
                        xs = arr(v) if v.op != "insert" else None
                        if xs is not None:
                            r = f(e, st, xs, a, c)
                            if r is not None:
                                ys, v = r
                                upd(e, st, a[0], mk("array", *ys))
                                return ret(v, st)
                    return old(e, st, a, c) if old else None
                return g
            MODELS[name] = mkg(name, MODELS.get(name))
        return f
    return d
def cint(e, st, x):
    v = P(e, st, x)
    return v.a[1] if is_const(v, "int") else None
@vconc("Vec::pop", "VecDeque::pop_back")
def v_pop(e, st, xs, a, c): return (xs[:-1], some(xs[-1])) if xs else (xs, NONE)
@vconc("VecDeque::pop_front")
def v_popf(e, st, xs, a, c): return (xs[1:], some(xs[0])) if xs else (xs, NONE)
@vconc("VecDeque::push_front")
def v_pushf(e, st, xs, a, c): return [e.deep(st, a[1])] + xs, UNIT
@vconc("Vec::insert")
def v_ins(e, st, xs, a, c):
    i = cint(e, st, a[1])
    return None if i is None or i > len(xs) else (xs[:i] + [e.deep(st, a[2])] + xs[i:], UNIT)
_vins = MODELS["Vec::insert"]
def v_ins2(e, st, a, c):
    if P(e, st, a[1]) is length(P(e, st, a[0])): return MODELS["Vec::push"](e, st, [a[0], a[2]], c)
    return _vins(e, st, a, c)
MODELS["Vec::insert"] = v_ins2
@vconc("Vec::remove")
def v_rem(e, st, xs, a, c):
    i = cint(e, st, a[1])
    return None if i is None or i >= len(xs) else (xs[:i] + xs[i + 1:], xs[i])
@vconc("Vec::swap_remove")
def v_srem(e, st, xs, a, c):
    i = cint(e, st, a[1])
    if i is None or i >= len(xs): return None
    ys = list(xs); y = ys[i]; ys[i] = ys[-1]; return ys[:-1], y
@vconc("Vec::truncate")
def v_trunc(e, st, xs, a, c):
    i = cint(e, st, a[1])
    return None if i is None else (xs[:i], UNIT)
@vconc("slice::reverse")
def v_rev(e, st, xs, a, c): return xs[::-1], UNIT
@vconc("slice::swap")
def v_swap(e, st, xs, a, c):
    i, j = cint(e, st, a[1]), cint(e, st, a[2])
    if i is None or j is None or max(i, j) >= len(xs): return None
    ys = list(xs); ys[i], ys[j] = ys[j], ys[i]; return ys, UNIT
@vconc("Vec::drain")
def v_drain(e, st, xs, a, c):
    r = P(e, st, a[1])
    lo, hi = bounds(r, len(xs))
    return None if lo is None else (xs[:lo] + xs[hi:], mk("array", *xs[lo:hi]))
@vconc("Vec::split_off")
def v_soff(e, st, xs, a, c):
    i = cint(e, st, a[1])
    return None if i is None or i > len(xs) else (xs[:i], mk("array", *xs[i:]))
@vconc("Vec::clear")
def v_clear(e, st, xs, a, c): return [], UNIT
def bounds(r, n):
    if r.op == "rangeincl" and all(is_const(x, "int") for x in r.a[:2]): return r.a[0].a[1], r.a[1].a[1] + 1
    if r.op != "adt" or "ops::Range" not in r.a[0]: return None, None
    f = dict(r.a[3])
    lo, hi = f.get("start", integer(0)), f.get("end", integer(n))
    if not is_const(lo, "int") or not is_const(hi, "int"): return None, None
    hi = hi.a[1] + (1 if r.a[0].endswith("Inclusive") else 0)
    return (lo.a[1], hi) if lo.a[1] <= hi <= n else (None, None)
@model("Vec::resize_with")
def v_resize_with(e, st, a, c):
    xs, n = arr(P(e, st, a[0])), cint(e, st, a[1])
    if not e.unroll or xs is None or n is None or n > 400: return None
    if n <= len(xs):
        upd(e, st, a[0], mk("array", *xs[:n])); return ret(UNIT, st)
    live = [(xs, st)]
    for _ in range(n - len(xs)):
        live = [(l + [r], s2) for l, s in live for r, s2 in e.call_value(s, a[2], [])]
        if len(live) > 200: raise RuntimeError("too many cases over a literal collection")
    for l, s in live: upd(e, s, a[0], mk("array", *l))
    return [(UNIT, s) for _, s in live]
@model("Vec::resize")
def v_resize(e, st, a, c):
    xs, n = arr(P(e, st, a[0])), cint(e, st, a[1])
    if xs is None or n is None or n > 400: return None
    x = e.deep(st, a[2])
    upd(e, st, a[0], mk("array", *(xs[:n] + [x] * (n - len(xs)))))
    return ret(UNIT, st)
_retain = MODELS["Vec::retain"]
def v_retain(e, st, a, c):
    if e.unroll:
        v = P(e, st, a[0])
        xs = arr(v) if v.op != "insert" else None
        if xs is not None:
            out = build(e, st, xs, a[1], lambda x, r, s: [([x] if b else [], s2) for b, s2 in e.fork_bool(s, r)])
            for l, s in out: upd(e, s, a[0], l)
            return [(UNIT, s) for _, s in out]
        es = entries(v)
        if es is not None and "Vec" not in c["path"]:
            live = [([], st)]
            for k, x in es:
                nxt = []
                for l, s in live:
                    for r, s2 in e.call_value(s, a[1], [k, x]):
                        for b, s3 in e.fork_bool(s2, r): nxt.append((l + ([(k, x)] if b else []), s3))
                live = nxt
            for l, s in live: upd(e, s, a[0], mapof(l))
            return [(UNIT, s) for _, s in live]
    return _retain(e, st, a, c)
for _n in ("Vec::retain", "Map::retain", "HashMap::retain", "BTreeMap::retain", "Vec::retain_mut"): MODELS[_n] = v_retain

# references to the elements of a literal list or map
def eref(r, i): return mk("mref", r.a[0], r.a[1] + (("index", integer(i)),))
def kref(r, k): return mk("mref", r.a[0], r.a[1] + (("key", k),))
def target(e, st, a):
    """The innermost place a mutable reference designates."""
    n = 0
    while a.op == "mref" and n < 5:
        v = e.read_loc(st, a.a[0], a.a[1])
        if v.op != "mref": return a
        a = v; n += 1
    return a if a.op == "mref" else None
def mutmodel(*names):
    def d(f):
        for name in names:
            def mkg(old):
                def g(e, st, a, c):
                    r = target(e, st, a[0]) if e.unroll else None
                    if r is not None:
                        out = f(e, st, r, P(e, st, r), a, c)
                        if out is not None: return out
                    return old(e, st, a, c) if old else None
                return g
            MODELS[name] = mkg(MODELS.get(name))
        return f
    return d
@mutmodel("slice::iter_mut", "Vec::iter_mut")
def m_iter_mut(e, st, r, v, a, c):
    if v.op != "array": return None
    return ret(mk("array", *[eref(r, i) for i in range(len(v.a))]), st)
_into_iter = MODELS["IntoIterator::into_iter"]
@mutmodel("IntoIterator::into_iter")
def m_into_iter(e, st, r, v, a, c):
    t = (c["targs"] or [""])[0]
    if not re.match(r"^&('\w+ )?mut ", t): return None
    if v.op == "array" and re.search(r"Vec<|\[", t): return ret(mk("array", *[eref(r, i) for i in range(len(v.a))]), st)
    es = entries(v)
    if es is not None and re.search(r"Map<", t): return ret(mk("array", *[tup(k, kref(r, k)) for k, _ in es]), st)
    return None
@mutmodel("HashMap::iter_mut", "BTreeMap::iter_mut", "Map::iter_mut")
def m_miter(e, st, r, v, a, c):
    es = entries(v)
    return None if es is None else ret(mk("array", *[tup(k, kref(r, k)) for k, _ in es]), st)
@mutmodel("HashMap::values_mut", "BTreeMap::values_mut", "Map::values_mut")
def m_vmut(e, st, r, v, a, c):
    es = entries(v)
    return None if es is None else ret(mk("array", *[kref(r, k) for k, _ in es]), st)
@mutmodel("HashMap::get_mut", "BTreeMap::get_mut", "Map::get_mut")
def m_getmut(e, st, r, v, a, c):
    es = entries(v)
    if es is None: return None
    return [(some(kref(r, es[i][0])) if i is not None else NONE, s) for i, s in kfork(e, st, es, P(e, st, a[1]))]
@mutmodel("slice::get_mut", "Vec::get_mut")
def m_sgetmut(e, st, r, v, a, c):
    i = cint(e, st, a[1])
    if v.op != "array" or i is None: return None
    return ret(some(eref(r, i)) if i < len(v.a) else NONE, st)
@mutmodel("slice::last_mut", "Vec::last_mut")
def m_lastmut(e, st, r, v, a, c):
    if v.op != "array": return None
    return ret(some(eref(r, len(v.a) - 1)) if v.a else NONE, st)
@mutmodel("slice::first_mut", "Vec::first_mut")
def m_firstmut(e, st, r, v, a, c):
    if v.op != "array": return None
    return ret(some(eref(r, 0)) if v.a else NONE, st)
@mutmodel("IndexMut::index_mut")
def m_indexmut(e, st, r, v, a, c):
    i = P(e, st, a[1])
    if v.op == "array" and is_const(i, "int") and i.a[1] < len(v.a): return ret(eref(r, i.a[1]), st)
    return None
_mi = MODELS["Index::index"]
def m_index2(e, st, a, c):
    if e.unroll:
        v, i = P(e, st, a[0]), P(e, st, a[1])
        if v.op == "array":
            if is_const(i, "int") and i.a[1] < len(v.a): return ret(v.a[i.a[1]], st)
            lo, hi = bounds(i, len(v.a))
            if lo is not None: return ret(mk("array", *v.a[lo:hi]), st)
        es = entries(v)
        if es is not None and is_const(i, "str"):
            for k, x in es:
                if k is i: return ret(x, st)
    return _mi(e, st, a, c)
MODELS["Index::index"] = m_index2

# ------------------------------------------------------------------ map entries
# An entry is the pair (place of the map, key); it is Occupied or Vacant.
def entry_ty(c):
    p = c["path"]
    return ("serde_json::map::Entry" if p.startswith("serde_json") else
            "std::collections::btree_map::Entry" if "BTreeMap" in p else "std::collections::hash_map::Entry")
@mutmodel("HashMap::entry", "BTreeMap::entry", "Map::entry")
def m_entry(e, st, r, v, a, c):
    es = entries(v)
    if es is None: return None
    k = e.deep(st, a[1]); out = []
    for i, s in kfork(e, st, es, k):
        out.append((adt(entry_ty(c), "Vacant" if i is None else "Occupied", True, (("0", mk("slotref", r, k if i is None else es[i][0])),)), s))
    return out
def slot_of(e, st, x):
    v = P(e, st, x)
    if v.op == "adt" and v.a[0].endswith("::Entry"): v = v.a[3][0][1]
    return v if v.op == "slotref" else None
def put(e, st, sl, v):
    r, k = sl.a
    es = entries(P(e, st, r))
    if es is not None: upd(e, st, r, set_key(P(e, st, r), k, v))
    else: upd(e, st, r, mk("insert", P(e, st, r), k, v))
def entries_of(names):
    def d(f):
        for n in names:
            def mkg(old):
                def g(e, st, a, c):
                    sl = slot_of(e, st, a[0])
                    if sl is not None: return f(e, st, sl, a, c)
                    return old(e, st, a, c) if old else None
                return g
            MODELS[n] = mkg(MODELS.get(n))
        return f
    return d
def vacant(e, st, x): v = P(e, st, x); return v.op == "adt" and v.a[1] == "Vacant"
@entries_of(["Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "Entry::or_insert_with_key"])
def m_or_insert(e, st, sl, a, c):
    if not vacant(e, st, a[0]): return ret(kref(*sl.a), st)
    n = c["path"].split("::")[-1]; out = []
    if n == "or_insert": vs = [(e.deep(st, a[1]), st)]
    elif n == "or_insert_with": vs = e.call_value(st, a[1], [])
    elif n == "or_insert_with_key": vs = e.call_value(st, a[1], [sl.a[1]])
    else: vs = default_of(e, st, (c["targs"] or ["", ""])[-1] if (c["targs"] or [""])[-1] not in ("std::alloc::Global",) else c["targs"][-2])
    for v, s in vs:
        put(e, s, sl, v); out.append((kref(*sl.a), s))
    return out
@entries_of(["Entry::and_modify"])
def m_and_modify(e, st, sl, a, c):
    if vacant(e, st, a[0]): return ret(P(e, st, a[0]), st)
    x = P(e, st, a[0])
    return [(x, s) for _, s in e.call_value(st, a[1], [kref(*sl.a)])]
@entries_of(["VacantEntry::insert"])
def m_vins(e, st, sl, a, c):
    put(e, st, sl, e.deep(st, a[1])); return ret(kref(*sl.a), st)
@entries_of(["VacantEntry::key", "VacantEntry::into_key", "OccupiedEntry::key", "Entry::key"])
def m_vkey(e, st, sl, a, c): return ret(sl.a[1], st)
@entries_of(["OccupiedEntry::get"])
def m_oget(e, st, sl, a, c): return ret(P(e, st, kref(*sl.a)), st)
@entries_of(["OccupiedEntry::get_mut", "OccupiedEntry::into_mut"])
def m_ogetm(e, st, sl, a, c): return ret(kref(*sl.a), st)
@entries_of(["OccupiedEntry::insert"])
def m_oins(e, st, sl, a, c):
    old = P(e, st, kref(*sl.a)); put(e, st, sl, e.deep(st, a[1])); return ret(old, st)
@entries_of(["OccupiedEntry::remove"])
def m_orem(e, st, sl, a, c):
    old = P(e, st, kref(*sl.a)); r, k = sl.a
    es = entries(P(e, st, r))
    upd(e, st, r, mapof([x for x in es if x[0] is not k])); return ret(old, st)

# ------------------------------------------------------------- text inspection
def pats_of(e, st, p):
    if is_const(p, "char") or is_const(p, "str"): return [p.a[1]]
    if p.op == "array" and all(is_const(x, "char") for x in p.a): return [x.a[1] for x in p.a]
    return None
@model("str::strip_prefix", "str::strip_suffix")
def m_strip(e, st, a, c):
    t, p = P(e, st, a[0]), P(e, st, a[1])
    how = "starts" if c["path"].endswith("prefix") else "ends"
    ps = pats_of(e, st, p)
    if ps is None: return None
    s = st; out = []
    for q in ps:
        b = edge(e, s, how, t, string(q))
        rest = None
        xs = list(t.a) if t.op == "cat" else [t]
        x = xs[0 if how == "starts" else -1]
        if is_const(x, "str") and len(x.a[1]) >= len(q):
            y = string(x.a[1][len(q):] if how == "starts" else x.a[1][:len(x.a[1]) - len(q)])
            rest = cat(y, *xs[1:]) if how == "starts" else cat(*xs[:-1], y)
        else: rest = mk("app", "strip_" + how, t, string(q))
        cont = None
        for k, s2 in e.fork_bool(s, b):
            if k: out.append((some(rest), s2))
            else: cont = s2
        if cont is None: return out
        s = cont
    return out + [(NONE, s)]
# the first or last character of a text whose edge is not literal: only comparisons with
# literals matter, so it is a term that `eq` relates to starts_with / ends_with
_next = MODELS["Iterator::next"]
def m_next2(e, st, a, c):
    it = P(e, st, a[0])
    t = (c["targs"] or [""])[0]
    if e.unroll and re.search(r"^(&mut )*(std|core)::str::Chars", t) and not is_const(it, "str") and arr(it) is None:
        if it.op == "cat" and is_const(it.a[0], "str"):
            s0 = it.a[0].a[1]
            upd(e, st, a[0], cat(string(s0[1:]), *it.a[1:]))
            return ret(some(const("char", s0[0])), st)
        if it.op in ("tok", "cat", "pctdec", "jsontext"):
            upd(e, st, a[0], mk("app", "chars_rest", it))
            return edge_char(e, st, "starts", it)
    return _next(e, st, a, c)
MODELS["Iterator::next"] = m_next2
TEXTY = ("tok", "cat", "pctdec", "jsontext", "pct", "json", "hole", "display")
def istext(t): return t.op in TEXTY or is_const(t, "str")
_last = MODELS["Iterator::last"]
def m_last2(e, st, a, c):
    t = P(e, st, a[0]); ty = (c["targs"] or [""])[0]
    if re.search(r"^(&mut )*(std|core)::str::(Chars|Bytes)", ty) and (t.op in TEXTY or t.op == "param" or is_const(t, "str")): return edge_char(e, st, "ends", t, "Bytes" in ty[:40])
    return _last(e, st, a, c)
MODELS["Iterator::last"] = m_last2
_nb = MODELS.get("DoubleEndedIterator::next_back")
def byte_edge(name, how):
    old = MODELS[name]
    def f(e, st, a, c):
        t = P(e, st, a[0])
        if istext(t) and (c["targs"] or [""])[0] == "u8": return edge_char(e, st, how, t, True)
        return old(e, st, a, c)
    MODELS[name] = f
byte_edge("slice::first", "starts"); byte_edge("slice::last", "ends")
@model("char::encode_utf8", "methods::encode_utf8", "char::to_lowercase_")
def m_encode(e, st, a, c): return ret(P(e, st, a[0]), st)
_TRIM = {"trim": lambda s: s.strip(), "trim_start": lambda s: s.lstrip(), "trim_end": lambda s: s.rstrip()}
@model("str::trim", "str::trim_start", "str::trim_end", "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase")
def m_trim(e, st, a, c):
    t = P(e, st, a[0]); n = c["path"].split("::")[-1]
    if is_const(t, "str"):
        s = t.a[1]
        if n in _TRIM: return ret(string(_TRIM[n](s)), st)
        return ret(string(s.lower() if "lower" in n else s.upper()), st)
    return None
@model("str::trim_start_matches", "str::trim_end_matches", "str::trim_matches")
def m_trimm(e, st, a, c):
    t, p = P(e, st, a[0]), P(e, st, a[1])
    ps = pats_of(e, st, p); n = c["path"].split("::")[-1]
    if ps is None or not all(ps): return None
    xs = list(t.a) if t.op == "cat" else [t]
    def strip(s, left):
        go = True
        while go:
            go = False
            for q in ps:
                if s and (s.startswith(q) if left else s.endswith(q)): s = s[len(q):] if left else s[:len(s) - len(q)]; go = True
        return s
    if len(xs) == 1 and is_const(xs[0], "str"):
        s = xs[0].a[1]
        if n != "trim_end_matches": s = strip(s, True)
        if n != "trim_start_matches": s = strip(s, False)
        return ret(string(s), st)
    if n != "trim_end_matches":
        if not is_const(xs[0], "str"): return None
        y = strip(xs[0].a[1], True)
        if not y: return None
        xs[0] = string(y)
    if n != "trim_start_matches":
        if not is_const(xs[-1], "str"): return None
        y = strip(xs[-1].a[1], False)
        if not y: return None
        xs[-1] = string(y)
    return ret(cat(*xs), st)
@model("str::replace", "str::repeat", "String::replace")
def m_repl(e, st, a, c):
    t = P(e, st, a[0]); n = c["path"].split("::")[-1]
    if not is_const(t, "str"): return None
    x = P(e, st, a[1])
    if n == "repeat": return ret(string(t.a[1] * x.a[1]), st) if is_const(x, "int") and x.a[1] <= 400 else None
    y = P(e, st, a[2])
    return ret(string(t.a[1].replace(x.a[1], y.a[1])), st) if (is_const(x, "str") or is_const(x, "char")) and is_const(y, "str") else None
_sc = MODELS["str::contains"]
def m_scontains(e, st, a, c):
    t, p = P(e, st, a[0]), P(e, st, a[1])
    ps = pats_of(e, st, p)
    if is_const(t, "str") and ps is not None: return ret(boolean(any(q in t.a[1] for q in ps)), st)
    if e.unroll and ps is not None and pieces(t) is not None:
        if t.op == "cat" and any(is_const(x, "str") and q in x.a[1] for x in t.a for q in ps): return ret(TRUE, st)
    return _sc(e, st, a, c)
MODELS["str::contains"] = m_scontains
@model("String::pop")
def m_spop(e, st, a, c):
    v = P(e, st, a[0])
    xs = list(v.a) if v.op == "cat" else [v]
    if is_const(v, "str") and not v.a[1]: return ret(NONE, st)
    if is_const(xs[-1], "str"):
        s = xs[-1].a[1]
        upd(e, st, a[0], cat(*xs[:-1], string(s[:-1])))
        return ret(some(const("char", s[-1])), st)
    return None
@model("String::truncate")
def m_strunc(e, st, a, c):
    v, n = P(e, st, a[0]), P(e, st, a[1])
    if is_const(v, "str") and is_const(n, "int"):
        upd(e, st, a[0], string(v.a[1][:n.a[1]])); return ret(UNIT, st)
    # back to len(self) - k, with k literal trailing characters
    if n.op == "Sub" and n.a[0] is length(v) and is_const(n.a[1], "int"):
        xs = list(v.a) if v.op == "cat" else [v]
        k = n.a[1].a[1]
        if is_const(xs[-1], "str") and len(xs[-1].a[1]) >= k:
            s = xs[-1].a[1]
            upd(e, st, a[0], cat(*xs[:-1], string(s[:len(s) - k]))); return ret(UNIT, st)
    # back to an earlier length of the same text
    if n.op == "len":
        w = n.a[0]
        xs, ys = list(v.a) if v.op == "cat" else [v], list(w.a) if w.op == "cat" else [w]
        if is_prefix(ys, xs): upd(e, st, a[0], w); return ret(UNIT, st)
    return None
def is_prefix(ys, xs):
    if len(ys) > len(xs): return False
    for i, y in enumerate(ys):
        x = xs[i]
        if y is x: continue
        if i == len(ys) - 1 and is_const(x, "str") and is_const(y, "str") and x.a[1].startswith(y.a[1]): continue
        return False
    return True
@model("String::insert_str", "String::insert")
def m_sins(e, st, a, c):
    v, i, x = P(e, st, a[0]), P(e, st, a[1]), P(e, st, a[2])
    if is_const(i, "int") and i.a[1] == 0: upd(e, st, a[0], cat(x, v)); return ret(UNIT, st)
    ln = MODELS["String::len"](e, st, [a[0]], c)
    if ln and len(ln) == 1 and ln[0][0] is i: upd(e, st, a[0], cat(v, x)); return ret(UNIT, st)
    return None
@model("slice::join", "slice::concat", "Join::join", "Concat::concat")
def m_join(e, st, a, c):
    xs = arr(P(e, st, a[0]))
    n = c["path"].split("::")[-1]
    if xs is not None and STRINGY.match(e._ctx[5] or ""):
        if n == "concat": return ret(cat(*xs), st)
        sep = P(e, st, a[1]); out = []
        for i, x in enumerate(xs): out += ([sep] if i else []) + [x]
        return ret(cat(*out), st)
    return ret(mk("app", n, *[P(e, st, x) for x in a]), st)
@model("char::is_ascii_digit", "char::is_ascii_alphabetic", "char::is_ascii_alphanumeric", "char::is_alphanumeric", "char::is_numeric", "char::is_alphabetic",
       "char::is_whitespace", "char::is_ascii_whitespace", "char::is_ascii_uppercase", "char::is_ascii_lowercase", "char::is_ascii", "char::is_control", "char::is_ascii_punctuation")
def m_charis(e, st, a, c):
    v = P(e, st, a[0]); n = c["path"].split("::")[-1]
    if not is_const(v, "char"): return None
    ch = v.a[1]
    f = {"is_ascii_digit": lambda: ch in "0123456789", "is_ascii_alphabetic": lambda: ch.isascii() and ch.isalpha(),
         "is_ascii_alphanumeric": lambda: ch.isascii() and ch.isalnum(), "is_alphanumeric": ch.isalnum, "is_numeric": ch.isnumeric, "is_alphabetic": ch.isalpha,
         "is_whitespace": ch.isspace, "is_ascii_whitespace": lambda: ch in " \t\n\x0c\r", "is_ascii_uppercase": lambda: ch.isascii() and ch.isupper(),
         "is_ascii_lowercase": lambda: ch.isascii() and ch.islower(), "is_ascii": ch.isascii, "is_control": lambda: ord(ch) < 32 or 127 <= ord(ch) < 160,
         "is_ascii_punctuation": lambda: ch.isascii() and ch.isprintable() and not ch.isalnum() and ch != " "}[n]
    return ret(boolean(bool(f())), st)
@model("char::eq_ignore_ascii_case", "str::eq_ignore_ascii_case")
def m_eqic(e, st, a, c):
    x, y = P(e, st, a[0]), P(e, st, a[1])
    if is_const(x) and is_const(y): return ret(boolean(str(x.a[1]).lower() == str(y.a[1]).lower()), st)
    return None

# ------------------------------------------------------------ Option, in place
@model("Option::get_or_insert_with", "Option::get_or_insert")
def m_goi(e, st, a, c):
    r = target(e, st, a[0])
    if r is None: return None
    out = []
    ref = lambda: mk("mref", r.a[0], r.a[1] + (("field", "Some", "0"),))
    for v, s, x in fk(e, st, P(e, st, a[0]), "o"):
        if v == "Some":
            upd(e, s, r, some(field(x, "Some", "0"))); out.append((ref(), s)); continue
        vs = [(e.deep(s, a[1]), s)] if c["path"].endswith("insert") else e.call_value(s, a[1], [])
        for w, s2 in vs:
            upd(e, s2, r, some(w)); out.append((ref(), s2))
    return out
@model("Option::xor")
def m_oxor(e, st, a, c):
    out = []
    for v, s, x in fk(e, st, a[0], "o"):
        for w, s2, y in fk(e, s, a[1], "o"):
            out.append((some(field(x, "Some", "0")) if (v, w) == ("Some", "None") else some(field(y, "Some", "0")) if (v, w) == ("None", "Some") else NONE, s2))
    return out
@model("Option::ok_or_default")
def m_nn(e, st, a, c): return None
@model("Result::into_ok", "Result::unwrap_unchecked", "Option::unwrap_unchecked")
def m_into_ok(e, st, a, c): return ret(field(P(e, st, a[0]), good(kind_of(c)), "0"), st)
@model("Result::iter", "Result::into_iter")
def m_riter(e, st, a, c):
    return [(mk("array", field(x, v, "0")) if v == "Ok" else mk("array"), s) for v, s, x in fk(e, st, a[0], "r")]
@model("bool::not")
def m_bnot(e, st, a, c): return ret(neg(P(e, st, a[0])), st)
@model("mem::swap")
def m_swap(e, st, a, c):
    x, y = P(e, st, a[0]), P(e, st, a[1])
    upd(e, st, a[0], y); upd(e, st, a[1], x)
    return ret(UNIT, st)
@model("mem::drop", "mem::forget", "Vec::reserve", "String::reserve", "Vec::shrink_to_fit", "HashMap::reserve")
def m_drop(e, st, a, c): return ret(UNIT, st)

# --------------------------------------------------------------- more iterators
@conc("Iterator::partition")
def c_partition(e, st, xs, a, c):
    live = [([], [], st)]
    for x in xs:
        nxt = []
        for l, r, s in live:
            for v, s2 in e.call_value(s, a[1], [x]):
                for b, s3 in e.fork_bool(s2, v): nxt.append((l + [x], r, s3) if b else (l, r + [x], s3))
        live = nxt
        if len(live) > 200: raise RuntimeError("too many cases over a literal collection")
    return [(tup(mk("array", *l), mk("array", *r)), s) for l, r, s in live]
@conc("Iterator::unzip")
def c_unzip(e, st, xs, a, c):
    if not all(x.op == "tuple" for x in xs): return None
    return ret(tup(mk("array", *[x.a[0] for x in xs]), mk("array", *[x.a[1] for x in xs])), st)
@conc("Iterator::sum")
def c_sum(e, st, xs, a, c):
    t = integer(0)
    for x in xs: t = arith("Add", t, x)
    return ret(t, st)
@conc("Iterator::inspect")
def c_inspect(e, st, xs, a, c): return ret(mk("array", *xs), st)
@conc("Iterator::reduce")
def c_reduce(e, st, xs, a, c):
    if not xs: return ret(NONE, st)
    live = [(xs[0], st)]
    for x in xs[1:]:
        live = [(r, s2) for v, s in live for r, s2 in e.call_value(s, a[1], [v, x])]
    return [(some(v), s) for v, s in live]
@conc("Iterator::map_while")
def c_map_while(e, st, xs, a, c):
    live = [([], st, False)]
    for x in xs:
        nxt = []
        for l, s, done in live:
            if done: nxt.append((l, s, True)); continue
            for r, s2 in e.call_value(s, a[1], [x]):
                for v, s3, y in e.fork_variant(s2, r, ["Some", "None"]): nxt.append((l + [field(y, "Some", "0")], s3, False) if v == "Some" else (l, s3, True))
        live = nxt
    return [(mk("array", *l), s) for l, s, _ in live]
@conc("slice::windows")
def c_windows(e, st, xs, a, c):
    n = cint(e, st, a[1])
    return None if not n else ret(mk("array", *[mk("array", *xs[i:i + n]) for i in range(len(xs) - n + 1)]), st)
@conc("slice::chunks")
def c_chunks(e, st, xs, a, c):
    n = cint(e, st, a[1])
    return None if not n else ret(mk("array", *[mk("array", *xs[i:i + n]) for i in range(0, len(xs), n)]), st)
@conc("slice::split_first")
def c_sf(e, st, xs, a, c): return ret(some(tup(xs[0], mk("array", *xs[1:]))) if xs else NONE, st)
@conc("slice::split_last")
def c_sl(e, st, xs, a, c): return ret(some(tup(xs[-1], mk("array", *xs[:-1]))) if xs else NONE, st)
@conc("Iterator::eq")
def c_iteq(e, st, xs, a, c):
    ys = arr(P(e, st, a[1]))
    if ys is None: return None
    return ret(boolean(len(xs) == len(ys)) if len(xs) != len(ys) else conj(*[eq(x, y) for x, y in zip(xs, ys)]), st)
def _peek(e, st, a, c):
    if not e.unroll: return None
    it = P(e, st, a[0])
    xs = arr(it)
    return None if xs is None else ret(some(xs[0]) if xs else NONE, st)
MODELS["Peekable::peek"] = _peek
def _next_if(e, st, a, c):
    it = P(e, st, a[0]); xs = arr(it) if e.unroll else None
    if xs is None: return None
    if not xs: return ret(NONE, st)
    out = []
    for r, s in e.call_value(st, a[1], [xs[0]]):
        for b, s2 in e.fork_bool(s, r):
            if b: upd(e, s2, a[0], mk("array", *xs[1:]))
            out.append((some(xs[0]) if b else NONE, s2))
    return out
MODELS["Peekable::next_if"] = _next_if
def _next_back(e, st, a, c):
    it = P(e, st, a[0]); xs = arr(it) if e.unroll else None
    ty = (c["targs"] or [""])[0]
    if re.search(r"^(&mut )*(std|core)::str::(Chars|Bytes)", ty) and istext(it):
        upd(e, st, a[0], mk("app", "chars_rest", it))
        return edge_char(e, st, "ends", it, "Bytes" in ty[:40])
    if xs is None: return None
    upd(e, st, a[0], mk("array", *xs[:-1]))
    return ret(some(xs[-1]) if xs else NONE, st)
MODELS["DoubleEndedIterator::next_back"] = _next_back
for _n in ("slice::contains", "Vec::contains"):
    conc(_n)(lambda e, st, xs, a, c: ret(disj(*[eq(x, e.deep(st, a[1])) for x in xs]) if xs else FALSE, st))
@conc("slice::iter")
def c_iter(e, st, xs, a, c): return None
# `x.iter().max()` and friends on literals are left opaque

# -------------------------------------------------------------------- words of a literal text
@model("str::split_whitespace", "str::split_ascii_whitespace")
def m_words(e, st, a, c):
    t = P(e, st, a[0])
    if e.unroll and is_const(t, "str"): return ret(mk("array", *[string(x) for x in t.a[1].split()]), st)
    return ret(mk("app", "str::split_whitespace", t), st)

# ------------------------------------------------------------------- integers
INT = re.compile(r"\b([iu])(8|16|32|64|128|size)\b")
def int_range(ty):
    m = re.fullmatch(r"([iu])(8|16|32|64|128|size)", ty or "")
    if not m: return None
    n = 64 if m.group(2) == "size" else int(m.group(2))
    return (0, (1 << n) - 1) if m.group(1) == "u" else (-(1 << n - 1), (1 << n - 1) - 1)
def wrap(x, ty):
    r = int_range(ty)
    if r is None: return x
    lo, hi = r
    return (x - lo) % (hi - lo + 1) + lo
OPS = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "div_euclid": "Div", "rem_euclid": "Rem"}
def num(e, st, a, c):
    name = c["path"].split("::")[-1]
    m = re.search(r"<impl ([iu]\w+)>", c["path"])
    ty = m.group(1) if m else "usize"
    how, _, op = name.partition("_")
    if op not in OPS or how not in ("saturating", "wrapping", "checked", "overflowing"): return None
    x, y = P(e, st, a[0]), P(e, st, a[1])
    o = OPS[op]; lo, hi = int_range(ty)
    if o in ("Div", "Rem") and is_const(y, "int") and y.a[1] == 0: return ret(NONE, st) if how == "checked" else None
    r = arith(o, x, y)
    if is_const(r, "int"):
        v = r.a[1]; over = not lo <= v <= hi
        if how == "saturating": return ret(integer(min(max(v, lo), hi)), st)
        if how == "wrapping": return ret(integer(wrap(v, ty)), st)
        if how == "overflowing": return ret(tup(integer(wrap(v, ty)), boolean(over)), st)
        return ret(NONE if over else some(r), st)
    if o == "Sub" and ty[0] == "u":
        out = []
        for under, s in e.fork_bool(st, lt(x, y)):
            v = (integer(0) if how == "saturating" else NONE if how == "checked" else None) if under else (some(r) if how == "checked" else r)
            if how in ("wrapping", "overflowing"): return None
            out.append((v, s))
        return out
    if o == "Add" and ty in ("usize", "u64", "i64", "u32", "i32") and how in ("saturating", "wrapping", "checked") and (x.op in ("at", "len") or y.op in ("at", "len")):
        return ret(some(r) if how == "checked" else r, st)      # far from the limit
    return None
for _h in ("saturating", "wrapping", "checked", "overflowing"):
    for _o in OPS: MODELS[f"num::{_h}_{_o}"] = num
def num_kind(e, c):
    t = (c.get("targs") or [""])[0]
    return re.sub(r"^(&(mut )?('\w+ )?)+", "", t or "")
@model("Ord::min", "Ord::max", "cmp::min", "cmp::max")
def m_minmax(e, st, a, c):
    x, y = P(e, st, a[0]), P(e, st, a[1])
    if not (int_range(num_kind(e, c)) or is_const(x, "int") and is_const(y, "int")): return None
    small = c["path"].endswith("min")
    return [((x if v == small else y), s) for v, s in e.fork_bool(st, lt(x, y))]
ORD = "std::cmp::Ordering"
@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(e, st, a, c):
    x, y = P(e, st, a[0]), P(e, st, a[1])
    if is_const(x, "str") and is_const(y, "str"): cs = [("Less" if x.a[1] < y.a[1] else "Equal" if x.a[1] == y.a[1] else "Greater", st)]
    elif int_range(num_kind(e, c)):
        cs = []
        for v, s in e.fork_bool(st, lt(x, y)):
            if v: cs.append(("Less", s)); continue
            for w, s2 in e.fork_bool(s, eq(x, y)): cs.append(("Equal" if w else "Greater", s2))
    else: return None
    w = some if c["path"].endswith("partial_cmp") else (lambda t: t)
    return [(w(adt(ORD, n, True, ())), s) for n, s in cs]
_into = MODELS["TryFrom::try_from"]
def m_tryint(e, st, a, c):
    v = P(e, st, a[0]); ta = c["targs"]
    name = c["path"].split("::")[-1]
    if len(ta or []) >= 2:
        src, dst = (ta[0], ta[1]) if name == "try_into" else (ta[1], ta[0])
        r = int_range(dst)
        if r and int_range(src):
            if is_const(v, "int"): return ret(ok(v) if r[0] <= v.a[1] <= r[1] else err(mk("app", "TryFromIntError")), st)
            s, (lo, hi) = int_range(src), r
            if lo <= s[0] and s[1] <= hi: return ret(ok(v), st)
    return _into(e, st, a, c)
MODELS["TryFrom::try_from"] = MODELS["TryInto::try_into"] = m_tryint

@model("intrinsics::discriminant_value", "mem::discriminant")
def m_discr(e, st, a, c):
    v = P(e, st, a[0])
    return ret(string("variant " + v.a[1]), st) if v.op == "adt" else None
@model("num::pow")
def ipow(e, st, a, c):
    x, n = P(e, st, a[0]), P(e, st, a[1])
    if is_const(x, "int") and is_const(n, "int") and 0 <= n.a[1] <= 64 and abs(x.a[1]) ** n.a[1] < 128: return ret(integer(x.a[1] ** n.a[1]), st)
    if is_const(x, "int") and is_const(n, "int") and 0 <= n.a[1] <= 64:
        t = (c.get("targs") or [""]); w = {"u8": 8, "i8": 7, "u16": 16, "i16": 15, "u32": 32, "i32": 31, "u64": 64, "i64": 63, "usize": 64, "isize": 63}
        b = next((w[k] for k in w if f"::<impl {k}>::" in c["path"] or k in t), 31)
        if abs(x.a[1]) ** n.a[1] < 1 << b: return ret(integer(x.a[1] ** n.a[1]), st)
    return None

# searching a text character by character for one given character is str::find
def searched(e, st, it, f, indexed=False):
    """The one character a predicate over the characters (or bytes) of a text asks for, or None."""
    x = mk("tok", "any-character")
    v, _ = e.value_of(st, f, [mk("tuple", mk("tok", "any-index"), x) if indexed else x])
    if v is None or v.op != "eq": return None
    q = [y for y in v.a if y is not x]
    if len(q) != 1: return None
    if is_const(q[0], "char"): return q[0].a[1]
    if is_const(q[0], "int") and 0 < q[0].a[1] < 128: return chr(q[0].a[1])
    return None
def _search(name):
    old = MODELS[name]
    def f(e, st, a, c):
        it = P(e, st, a[0]); ty = (c["targs"] or [""])[0]
        how = re.search(r"^(&mut )*(std|core)::(str::(Chars|Bytes|CharIndices)|slice::Iter<'?_?,? ?u8)", ty)
        if e.unroll and how:
            ind = "CharIndices" in how.group(0)
            t = it.a[1] if ind and it.op == "app" and it.a[0] == "str::char_indices" else it
            last = name.endswith("::rposition")
            if (istext(t) or t.op == "param") and (name.endswith("::find") == ind) and (ind or "Chars" not in how.group(0)):
                q = searched(e, st, t, a[1], ind)
                if q is not None:
                    r = MODELS["str::find"](e, st, [t, const("char", q)], dict(c, path="str::rfind" if last else "str::find"))
                    if r is not None:
                        return [(some(mk("tuple", v.a[3][0][1], const("char", q))) if ind and v.op == "adt" and v.a[1] == "Some" else v, s) for v, s in r]
        return old(e, st, a, c) if old else None
    MODELS[name] = f
for _n in ("Iterator::position", "Iterator::find", "Iterator::rposition"): MODELS.setdefault(_n, None); _search(_n)
@model("array::map")
def m_amap(e, st, a, c):
    xs = arr(P(e, st, a[0]))
    if xs is None: return None
    live = [([], st)]
    for x in xs: live = [(l + [r], s2) for l, s in live for r, s2 in e.call_value(s, a[1], [x])]
    return [(mk("array", *l), s) for l, s in live]
