import re
"""Hash-consed value terms and boolean atoms used by the dataflow engine."""
class Term:
    __slots__ = ("op", "a", "id", "_ap")
    def __init__(self, op, a, i):
        self.op = op; self.a = a; self.id = i; self._ap = None
    def __repr__(self): return ap(self)

_tab = {}
_all = []
def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = Term(op, a, len(_all)); _tab[k] = t; _all.append(t)
    return t

def const(kind, v, name=None):
    return mk("const", kind, v)
TRUE = const("bool", True)
FALSE = const("bool", False)
UNIT = mk("tuple")
UNINIT = mk("uninit")
def boolean(b): return TRUE if b else FALSE
def string(s): return const("str", s)
def integer(n): return const("int", n)
def is_const(t, kind=None): return t.op == "const" and (kind is None or t.a[0] == kind)
def is_true(t): return t is TRUE
def is_false(t): return t is FALSE

def adt(path, variant, is_enum, fields):
    return mk("adt", path, variant, bool(is_enum), tuple(fields))
OPT = "std::option::Option"
RES = "std::result::Result"
def some(x): return adt(OPT, "Some", True, (("0", x),))
NONE = adt(OPT, "None", True, ())
def ok(x): return adt(RES, "Ok", True, (("0", x),))
def err(x): return adt(RES, "Err", True, (("0", x),))
def tup(*xs): return mk("tuple", *xs)

# ---------------------------------------------------------------- literals
def neg(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == "not": return t.a[0]
    return mk("not", t)
def lit_term(l): return l[0] if l[1] else neg(l[0])
def conj(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        for y in (x.a if x.op == "and" else (x,)):
            if y not in out: out.append(y)
    s = set(out)
    for y in out:
        if neg(y) in s: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    # absorption: a & (a|b) = a ; a & (!a|b) = a & b
    return mk("and", *sorted(out, key=lambda t: t.id))
def disj(*xs):
    r = conj(*[neg(x) for x in xs])
    if r.op == "and": return mk("or", *sorted([neg(x) for x in r.a], key=lambda t: t.id))
    return neg(r)

def ite(l, a, b):
    """l is a literal (atom, polarity)."""
    if a is b: return a
    c = lit_term(l)
    if c is TRUE: return a
    if c is FALSE: return b
    if c.op == "not": c, a, b = c.a[0], b, a
    ab = is_const(a, "bool") or is_boolish(a)
    bb = is_const(b, "bool") or is_boolish(b)
    if ab and bb:
        if a is TRUE: return disj(c, b)
        if a is FALSE: return conj(neg(c), b)
        if b is TRUE: return disj(neg(c), a)
        if b is FALSE: return conj(c, a)
        return disj(conj(c, a), conj(neg(c), b))
    # both the same variant: push inside
    if a.op == "adt" and b.op == "adt" and a.a[:3] == b.a[:3] and len(a.a[3]) == len(b.a[3]):
        return adt(a.a[0], a.a[1], a.a[2],
                   tuple((n, ite((c, True), x, y)) for (n, x), (_, y) in zip(a.a[3], b.a[3])))
    if a.op == "ite" and a.a[0] is c: a = a.a[1]
    if b.op == "ite" and b.a[0] is c: b = b.a[2]
    if a is b: return a
    if a.op == b.op == "push" and a.a[0] is b.a[0]: return mk("push", a.a[0], ite((c, True), a.a[1], b.a[1]))
    if a.op == b.op == "insert" and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
        return mk("insert", a.a[0], a.a[1], ite((c, True), a.a[2], b.a[2]))
    return mk("ite", c, a, b)

BOOLOPS = {"is", "eq", "lt", "and", "or", "not", "all", "empty", "contains", "haskey", "ev", "ends", "starts", "join"}
def is_boolish(t): return t.op in BOOLOPS or (t.op == "const" and t.a[0] == "bool") or (t.op == "bapp")

# --------------------------------------------------------------- accessors
def field(b, variant, name):
    if b.op == "adt":
        if variant is None or b.a[1] == variant or not b.a[2]:
            for n, v in b.a[3]:
                if n == name: return v
        return mk("f", b, variant or "", name)
    if b.op == "with":
        if b.a[1] == (variant or "") and b.a[2] == name: return b.a[3]
        return field(b.a[0], variant, name)
    if b.op == "tuple":
        i = int(name) if name.isdigit() else -1
        if 0 <= i < len(b.a): return b.a[i]
    if b.op in ("closure", "coroutine"):
        i = int(name) if name.isdigit() else -1
        if 0 <= i < len(b.a) - 1: return b.a[i + 1]
    if b.op == "ite":
        return ite((b.a[0], True), field(b.a[1], variant, name), field(b.a[2], variant, name))
    if b.op == "tk" and b.a[0] == "bool" and name == "value": return b.a[1]
    if b.op == "next" and variant == "Some": return elem(b.a[0])
    if b.op == "find" and variant == "Some": return mk("found", b.a[0], b.a[1])
    if b.op == "phi": return phi(*[field(x, variant, name) for x in b.a])
    return mk("f", b, variant or "", name)

def phi(*xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == "phi" else (x,)):
            if y not in out: out.append(y)
    if len(out) == 1: return out[0]
    if len(out) > 8: return mk("phi", *sorted(out, key=lambda t: t.id)[:8])
    return mk("phi", *sorted(out, key=lambda t: t.id))

def setfield(b, variant, name, v):
    if b.op == "adt" and (variant is None or variant == b.a[1]):
        fs = tuple((n, v if n == name else x) for n, x in b.a[3])
        if any(n == name for n, _ in b.a[3]): return adt(b.a[0], b.a[1], b.a[2], fs)
    if b.op == "tuple" and name.isdigit() and int(name) < len(b.a):
        xs = list(b.a); xs[int(name)] = v; return mk("tuple", *xs)
    if b.op in ("closure", "coroutine") and name.isdigit() and int(name) < len(b.a) - 1:
        xs = list(b.a); xs[int(name) + 1] = v; return mk(b.op, *xs)
    if b.op == "with" and b.a[1] == (variant or "") and b.a[2] == name: b = b.a[0]
    return mk("with", b, variant or "", name, v)

def strip_ref(t):
    return t

# -------------------------------------------------------------- collections
def elem(c):
    """The generic element of a collection or iterator."""
    if c.op == "map": return c.a[1]
    if c.op in ("filter", "rev"): return elem(c.a[0])
    if c.op == "fmap": return field(c.a[1], "Some", "0")
    if c.op == "enumerate": return tup(mk("idx", c.a[0]), elem(c.a[0]))
    if c.op == "zip": return tup(elem(c.a[0]), elem(c.a[1]))
    if c.op == "keys": return field(elem(c.a[0]), None, "0")
    if c.op == "values": return field(elem(c.a[0]), None, "1")
    if c.op == "array" and len(c.a) == 1: return c.a[0]
    if c.op == "ite": return ite((c.a[0], True), elem(c.a[1]), elem(c.a[2]))
    return mk("elem", c)

def base_coll(c):
    """(base collection, list of guards) such that iterating c visits exactly the
    elements of base for which the guards hold."""
    g = []
    while True:
        if c.op in ("map", "enumerate", "keys", "values", "rev"): c = c.a[0]
        elif c.op == "filter": g.append(c.a[1]); c = c.a[0]
        elif c.op == "fmap": g.append(is_variant(c.a[1], "Some")); c = c.a[0]
        else: return c, g

def mentions(t, x, seen=None):
    if t is x: return True
    if seen is None: seen = set()
    if t.id in seen: return False
    seen.add(t.id)
    for y in t.a:
        if isinstance(y, Term):
            if mentions(y, x, seen): return True
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, Term):
                    if mentions(z, x, seen): return True
                elif isinstance(z, tuple):
                    for w in z:
                        if isinstance(w, Term) and mentions(w, x, seen): return True
    return False

def subterms(t, seen=None):
    if seen is None: seen = set()
    if t.id in seen: return
    seen.add(t.id)
    yield t
    for y in t.a:
        if isinstance(y, Term): yield from subterms(y, seen)
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, Term): yield from subterms(z, seen)
                elif isinstance(z, tuple):
                    for w in z:
                        if isinstance(w, Term): yield from subterms(w, seen)

def forall(c, p):
    """The atom "every element of c satisfies p" (p is over elem(base))."""
    b, g = base_coll(c)
    if g: p = disj(*[neg(x) for x in g], p)
    if p is TRUE: return TRUE
    if p.op == "and": return conj(*[forall(b, x) for x in p.a])
    if p.op == "not":
        q = p.a[0]
        e = elem(b)
        if q.op == "eq" and (q.a[0] is e or q.a[1] is e):
            other = q.a[1] if q.a[0] is e else q.a[0]
            if not mentions(other, e): return neg(contains(b, other))
    return mk("all", b, p)
def exists(c, p): return neg(forall(c, neg(p)))
def contains(c, x):
    if c.op == "keys": return haskey(c.a[0], x)
    if c.op == "ite": return ite((c.a[0], True), contains(c.a[1], x), contains(c.a[2], x))
    if c.op == "array" and len(c.a) <= 16:
        return disj(*[eq(y, x) for y in c.a])
    if x.op == "adt" and x.a[2] and not x.a[3]: return exists(c, is_variant(elem(c), x.a[1]))
    return mk("contains", c, x)

def empty(c):
    b = c
    while b.op in ("map", "enumerate", "keys", "values", "rev"): b = b.a[0]
    if b.op == "array": return boolean(len(b.a) == 0)
    if b.op == "filter": return forall(b.a[0], neg(b.a[1]))
    if is_const(b, "str"): return boolean(b.a[1] == "")
    if b.op in ("push", "insert"): return FALSE
    if b.op == "app" and b.a[0] in ("str::split", "str::rsplit"): return FALSE
    if b.op == "ite": return ite((b.a[0], True), empty(b.a[1]), empty(b.a[2]))
    if b.op == "cat":
        if any(is_const(x, "str") and x.a[1] for x in b.a): return FALSE
    return mk("empty", b)
def length(c):
    b = c
    while b.op in ("map", "enumerate", "keys", "values", "rev"): b = b.a[0]
    if b.op == "array": return integer(len(b.a))
    if is_const(b, "str"): return integer(len(b.a[1].encode()))
    if is_const(b, "bytes"): return integer(len(b.a[1]))
    return mk("len", b)

def index(v, i):
    if i.op == "elem" and i.a[0].op == "range":
        lo, hi = i.a[0].a[0], i.a[0].a[1]
        if is_const(lo, "int") and lo.a[1] == 0 and hi.op == "len" and hi.a[0] is v: return elem(v)
    if i.op == "elem" and i.a[0].op == "adt" and i.a[0].a[0].endswith("::Range"):
        f = dict(i.a[0].a[3])
        if f.get("start") is integer(0) and f.get("end") is length(v): return elem(v)
    if v.op == "array" and is_const(i, "int") and 0 <= i.a[1] < len(v.a): return v.a[i.a[1]]
    return mk("index", v, i)

def index_end(v, n):
    if v.op == "array" and 0 < n <= len(v.a): return v.a[-n]
    return mk("index_end", v, integer(n))
def subslice(v, lo, hi, end):
    if v.op == "array": return mk("array", *v.a[lo:len(v.a) - hi if end else hi])
    return mk("subslice", v, lo, hi, end)
def haskey(m, k):
    if m.op == "ite": return ite((m.a[0], True), haskey(m.a[1], k), haskey(m.a[2], k))
    if m.op == "insert" and m.a[1] is k: return TRUE
    return mk("haskey", m, k)
def key_of(m, k):
    """Lookup of k in a map term."""
    if m.op == "insert" and m.a[1] is k: return some(m.a[2])
    if m.op == "insert" and is_const(m.a[1]) and is_const(k): return key_of(m.a[0], k)
    if m.op == "ite": return ite((m.a[0], True), key_of(m.a[1], k), key_of(m.a[2], k))
    return mk("get", m, k)
def set_key(m, k, v):
    """The map with k's value replaced, in place when its key is there."""
    def go(x):
        if x.op == "insert":
            if x.a[1] is k: return mk("insert", x.a[0], k, v)
            if is_const(x.a[1]) and is_const(k):
                r = go(x.a[0])
                return None if r is None else mk("insert", r, x.a[1], x.a[2])
        return None
    r = go(m)
    return r if r is not None else mk("insert", m, k, v)

# --------------------------------------------------------------------- atoms
def is_variant(x, v):
    if x.op == "adt": return boolean(x.a[1] == v)
    if x.op == "ite": return ite((x.a[0], True), is_variant(x.a[1], v), is_variant(x.a[2], v))
    if v == "None": return neg(is_variant(x, "Some"))
    if v == "Err": return neg(is_variant(x, "Ok"))
    if v == "Break": return neg(is_variant(x, "Continue"))
    if v == "Some":
        if x.op == "get": return haskey(x.a[0], x.a[1])
        if x.op == "find": return exists(x.a[0], x.a[1])
        if x.op == "first": return neg(empty(x.a[0]))
    return mk("is", x, v)

def eq(a, b):
    if a is b: return TRUE
    if a.op == "const" and b.op == "const":
        return boolean(a.a[1] == b.a[1] and type(a.a[1]) == type(b.a[1]))
    if a.op == "const" and b.op == "edgechar": a, b = b, a
    if a.op == "edgechar" and is_const(b, "char"): return mk(a.a[0], a.a[1], string(b.a[1]))
    if a.op == "edgechar" and is_const(b, "int") and 0 <= b.a[1] < 128: return mk(a.a[0], a.a[1], string(chr(b.a[1])))
    if is_const(a, "bool"): a, b = b, a
    if is_const(b, "bool"): return a if b.a[1] else neg(a)
    if a.op == "adt" and b.op != "adt": a, b = b, a
    if b.op == "adt" and b.a[2]:
        if a.op == "adt":
            if a.a[1] != b.a[1]: return FALSE
            return conj(*[eq(x, y) for (_, x), (_, y) in zip(a.a[3], b.a[3])])
        if len(b.a[3]) <= 1 or all(n.isdigit() for n, _ in b.a[3]):
            return conj(is_variant(a, b.a[1]), *[eq(field(a, b.a[1], n), y) for n, y in b.a[3]])
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        return conj(*[eq(x, y) for (_, x), (_, y) in zip(a.a[3], b.a[3])])
    if a.op == "array" and b.op == "array" and a.a and b.a:
        return conj(*[eq(x, y) for x, y in zip(a.a, b.a)]) if len(a.a) == len(b.a) else FALSE
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
        return conj(*[eq(x, y) for x, y in zip(a.a, b.a)])
    for x, y in ((a, b), (b, a)):
        if is_const(y, "int") and y.a[1] == 0 and x.op == "len": return empty(x.a[0])
        if is_const(y, "str") and y.a[1] == "": return empty(x)
        if y.op == "array" and not y.a: return empty(x)
    if a.id > b.id: a, b = b, a
    return mk("eq", a, b)

def lt(a, b):
    if a is b: return FALSE
    if is_const(a, "int") and is_const(b, "int"): return boolean(a.a[1] < b.a[1])
    if a.op == "elem" and a.a[0].op == "adt" and a.a[0].a[0].endswith("::Range") and dict(a.a[0].a[3]).get("end") is b: return TRUE
    if a.op == "elem" and a.a[0].op == "range" and a.a[0].a[1] is b: return TRUE
    if a.op == "idx" and b.op == "len" and length(a.a[0]) is b: return TRUE
    if a.op == "tdiff" and is_const(b, "int"): return lt(a.a[0], arith("Add", a.a[1], b))
    if b.op == "tdiff" and is_const(a, "int"): return lt(arith("Add", b.a[1], a), b.a[0])
    if is_const(a, "int") and a.a[1] == 0 and b.op == "len": return neg(empty(b.a[0]))
    if is_const(b, "int") and b.a[1] == 1 and a.op == "len": return empty(a.a[0])
    if is_const(b, "int") and b.a[1] == 0 and a.op in ("len",): return FALSE
    return mk("lt", a, b)

# ------------------------------------------------------------ strings, numbers
def cat(*xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == "cat" else (x,)):
            if is_const(y, "str"):
                if y.a[1] == "": continue
                if out and is_const(out[-1], "str"):
                    out[-1] = string(out[-1].a[1] + y.a[1]); continue
            if is_const(y, "char"):
                y = string(y.a[1])
                if out and is_const(out[-1], "str"):
                    out[-1] = string(out[-1].a[1] + y.a[1]); continue
            out.append(y)
    if not out: return string("")
    if len(out) == 1: return out[0]
    return mk("cat", *out)

def arith(o, a, b):
    if is_const(a, "int") and is_const(b, "int"):
        x, y = a.a[1], b.a[1]
        if o == "Add": return integer(x + y)
        if o == "Sub": return integer(x - y)
        if o == "Mul": return integer(x * y)
        if o == "Div" and y: return integer(x // y)
        if o == "Rem" and y: return integer(x % y)
    if o in ("Add", "Sub") and is_const(b, "int"):
        if b.a[1] == 0: return a
        d = b.a[1] if o == "Add" else -b.a[1]
        if a.op == "Add" and is_const(a.a[1], "int"):
            return arith("Add", a.a[0], integer(a.a[1].a[1] + d))
        return mk("Add", a, integer(d))
    if o == "Add" and is_const(a, "int"): return arith("Add", b, a)
    if o in ("Mul",) and a.id > b.id: a, b = b, a
    return mk(o, a, b)

# ------------------------------------------------------------- substitution
def rebuild(op, a):
    if op == "f": return field(a[0], a[1] or None, a[2])
    if op == "eq": return eq(*a)
    if op == "is": return is_variant(a[0], a[1])
    if op == "not": return neg(a[0])
    if op == "and": return conj(*a)
    if op == "or": return disj(*a)
    if op == "ite": return ite((a[0], True), a[1], a[2])
    if op == "cat": return cat(*a)
    if op == "lt": return lt(*a)
    if op == "elem": return elem(a[0])
    if op == "empty": return empty(a[0])
    if op == "len": return length(a[0])
    if op == "haskey": return haskey(*a)
    if op == "index": return index(*a)
    if op == "contains": return contains(*a)
    if op == "phi": return phi(*a)
    return mk(op, *a)

def subst(t, m, memo=None):
    """Replace the terms of m (a dict) in t."""
    if memo is None: memo = {}
    if t in m: return m[t]
    r = memo.get(t)
    if r is not None: return r
    def go(y):
        if isinstance(y, Term): return subst(y, m, memo)
        if isinstance(y, tuple): return tuple(go(z) for z in y)
        return y
    na = tuple(go(y) for y in t.a)
    r = t if na == t.a else rebuild(t.op, na)
    memo[t] = r
    return r

# ------------------------------------------------------------------ printing
def ap(t, d=0):
    """Access-path style rendering: Option/Result payloads are transparent."""
    if t._ap is not None: return t._ap
    if d > 60: return "…"
    s = _ap(t, d)
    if len(s) > 4000: s = s[:4000] + "…"
    t._ap = s
    return s
def short(p):
    from engine import shortpath
    return shortpath(p)
def _ap(t, d):
    o, a = t.op, t.a
    r = lambda x: ap(x, d + 1) if isinstance(x, Term) else str(x)
    if o == "param": return a[0]
    if o == "const":
        return repr(a[1]) if a[0] in ("str", "char", "bytes") else str(a[1]).lower() if a[0] == "bool" else str(a[1])
    if o == "f":
        if a[1] in ("Some", "Ok", "Ready", "Continue"): return r(a[0])
        if a[1]: return f"{r(a[0])}@{a[1]}.{a[2]}"
        return f"{r(a[0])}.{a[2]}"
    if o == "adt":
        n = a[0].split("::")[-1]
        if a[2]: n = f"{n}::{a[1]}" if a[0] not in (OPT, RES) else a[1]
        if not a[3]: return n
        if all(k.isdigit() for k, _ in a[3]): return f"{n}({', '.join(r(v) for _, v in a[3])})"
        return f"{n}{{{', '.join(f'{k}: {r(v)}' for k, v in a[3])}}}"
    if o == "with": return f"{r(a[0])}[{a[1]+'@' if a[1] else ''}{a[2]}:={r(a[3])}]"
    if o in ("app", "bapp"): return f"{a[0]}({', '.join(r(x) for x in a[1:] if isinstance(x, Term))})"
    if o == "ev": return f"ev:{a[0]}({', '.join(r(x) for x in a[1:] if isinstance(x, Term))})"
    if o == "type": return "type:" + re.sub(r"[\w]+::", "", a[0])
    if o == "elem": return f"{r(a[0])}[*]"
    if o == "is": return f"is({r(a[0])},{a[1]})"
    if o == "next": return f"next({r(a[0])})"
    if o == "closure" or o == "coroutine": return f"{o}#{a[0].split('::')[-2] if '::' in a[0] else a[0]}({', '.join(r(x) for x in a[1:])})"
    if o == "fn": return f"fn {a[0]}"
    if o == "mref": return f"&mut {a[0]}{a[1]}"
    if o == "ite": return f"({r(a[0])} ? {r(a[1])} : {r(a[2])})"
    return f"{o}({', '.join(r(x) if isinstance(x, Term) else str(x) for x in a)})"
