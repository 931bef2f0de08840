"""Models of the library functions the workspace uses (std, serde, quote, ...).
A model returns [(result, state)] or None to fall back to an opaque call."""
import re
from terms import *

MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

def ret(v, st): return [(v, st)]
def P(e, st, a): return e.pure(st, a)

# ----------------------------------------------------------- transparent calls
IDENT = """Deref::deref AsRef::as_ref Borrow::borrow Clone::clone Option::as_ref Option::as_deref
Option::cloned Option::copied Result::as_ref Result::as_deref Result::cloned Result::copied
IntoIterator::into_iter slice::iter Vec::iter HashMap::iter BTreeMap::iter HashSet::iter BTreeSet::iter
HashMap::into_iter Iterator::cloned Iterator::copied Iterator::peekable Iterator::fuse
Iterator::by_ref IntoFuture::into_future Pin::new_unchecked Pin::new Box::new Box::pin Rc::new Arc::new String::as_str
String::as_bytes str::as_bytes String::into_bytes ToOwned::to_owned str::to_owned str::to_string Vec::as_slice slice::to_vec
hint::must_use __private::must_use Cow::into_owned Cow::as_ref String::into_boxed_str Vec::into_boxed_slice
Vec::into_iter str::chars str::as_str String::chars Map::iter Map::into_iter convert::identity Box::as_ref slice::as_ref
Option::iter Option::into_iter str::bytes Iterator::into_iter future::ready Map::as_ref Option::as_slice
RepIteratorExt::quote_into_iter str::into_string String::into_string GenericArray::as_slice slice::as_slice array::as_slice
Chars::as_str BTreeMap::into_iter HashSet::into_iter BTreeSet::into_iter VecDeque::iter VecDeque::into_iter VecDeque::from Vec::from
String::into_chars array::iter array::into_iter Box::into_inner PathBuf::from Some::into_iter 
Iterator::into_iter String::leak Box::leak""".split()
def ident(e, st, a, c):
    v = e.simp(st, e.pure(st, a[0]))
    if v.op == "adt" and v.a[0].endswith("borrow::Cow"): v = e.pure(st, v.a[3][0][1])
    return ret(v, st)
for n in IDENT: MODELS[n] = ident

@model("String::from_utf8_lossy")
def m_lossy(e, st, a, c):
    v = e.simp(st, e.pure(st, a[0]))
    if v.op == "array" and all(is_const(x, "char") or is_const(x, "str") for x in v.a):      # the characters of a text, collected
        return ret(string("".join(str(x.a[1]) for x in v.a)), st)
    return ident(e, st, a, c)

@model("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Pin::as_mut", "Pin::get_mut", "Option::as_deref_mut",
       "Option::as_mut", "slice::iter_mut", "Vec::iter_mut", "Vec::as_mut_slice")
def keepref(e, st, a, c):
    return ret(a[0], st)

STRINGY = re.compile(r"^(&(mut )?)*('\w+ )?(std::string::String|str|std::borrow::Cow<.*str>|std::boxed::Box<str>)$")
@model("ToString::to_string")
def to_string(e, st, a, c):
    t = c["targs"][0] if c["targs"] else ""
    v = P(e, st, a[0])
    if STRINGY.match(t) or is_const(v, "str"): return ret(v, st)
    if t == "char": return ret(v, st)
    return ret(display(e, st, v, t), st)
def jsontext(v):
    """The JSON text of a JSON value; scalars other than strings print as themselves."""
    if v.op == "adt" and v.a[1] == "Number": return mk("display", v.a[3][0][1])
    if v.op == "adt" and v.a[1] == "Null": return string("null")
    if v.op == "adt" and v.a[1] == "Bool" and is_const(v.a[3][0][1], "bool"): return string("true" if v.a[3][0][1].a[1] else "false")
    return mk("jsontext", v)

def display(e, st, v, t):
    if STRINGY.match(t or ""): return v
    if (t or "").lstrip("&") == "serde_json::Value":
        if getattr(e, "json_strings", False) and v.op == "adt" and v.a[1] == "String": return mk("json", v.a[3][0][1])
        return jsontext(v)
    if is_const(v, "bool"): return string("true" if v.a[1] else "false")
    if is_const(v, "str") or is_const(v, "int"): return string(str(v.a[1]))
    if v.op in ("cat", "str", "pct", "pctdec", "joined", "b64"): return v
    return mk("display", v)

@model("Into::into", "From::from", "String::from", "TryInto::try_into", "TryFrom::try_from", "str::into", "FromStr::from_str", "str::parse")
def into(e, st, a, c):
    v = P(e, st, a[0])
    ta = c["targs"]
    name = c["path"].split("::")[-1]
    fr, blk, site, _, aty, rty = e._ctx
    src = dst = None
    if name in ("into", "try_into") and len(ta) >= 2: src, dst = ta[0], ta[1]
    elif name in ("from", "try_from") and len(ta) >= 2: dst, src = ta[0], ta[1]
    elif name in ("parse",) and ta: dst = ta[0]; src = "&str"
    elif name == "from_str" and ta: dst = ta[0]; src = "&str"
    key = None
    if dst is not None:
        tr = {"into": "std::convert::From", "from": "std::convert::From", "try_into": "std::convert::TryFrom",
              "try_from": "std::convert::TryFrom", "parse": "std::str::FromStr", "from_str": "std::str::FromStr"}[name]
        b = find_from(e, tr, dst, src)
        if b is not None and not e.skip_inline(b) and e.stack.count(b["id"]) <= 1:
            return e.exec_body(b, a, st, fr.path + (site,))
    if name in ("try_into", "try_from", "parse", "from_str"):
        r = mk("app", "convert", v, string(dst or ""))
        return ret(r, st)
    if dst and "anyhow::Error" in dst: return ret(mk("app", "anyhow", v), st)
    if dst == "serde_json::Value" and src:
        b = re.sub(r"^(&(mut )?('\w+ )?)+", "", src)
        vn = ("String" if STRINGY.match(src) else "Bool" if b == "bool" else "Object" if b.startswith("serde_json::Map") else
              "Array" if b.startswith(("std::vec::Vec", "[")) else "Number" if re.fullmatch(r"[iu](8|16|32|64|size)|serde_json::Number", b) else None)
        if vn in ("String", "Bool", "Object", "Number"): return ret(adt(JV, vn, True, (("0", v),)), st)
    if dst and dst.startswith("std::option::Option") and not (src or "").startswith("std::option::Option"): return ret(some(v), st)
    return ret(v, st)

def strip_lt(s): return re.sub(r"'\w+ ", "", s or "").replace("'_ ", "")
def find_from(e, tr, dst, src):
    if not hasattr(e.p, "_from"):
        d = {}
        for b in e.p.bodies.values():
            if b.get("trait_ref") and b.get("name") in ("from", "try_from", "from_str", "into"):
                d[strip_lt(b["trait_ref"])] = b
        e.p._from = d
    if tr.endswith("FromStr"): k = f"<{strip_lt(dst)} as {tr}>"
    else: k = f"<{strip_lt(dst)} as {tr}<{strip_lt(src)}>>"
    return e.p._from.get(k)

# ------------------------------------------------------------------ comparisons
@model("PartialEq::eq")
def m_eq(e, st, a, c): return ret(typed_eq(e, st, a, c), st)
JV = "serde_json::Value"
def typed_eq(e, st, a, c):
    x, y = e.deep(st, a[0]), e.deep(st, a[1])
    ta = [re.sub(r"^(&('\w+ )?(mut )?)+", "", t) for t in c["targs"][:2]]
    if len(ta) == 2 and (ta[0] == JV) != (ta[1] == JV):
        # a JSON value compared with a plain text, number or boolean
        j, o, t = (x, y, ta[1]) if ta[0] == JV else (y, x, ta[0])
        v = "String" if STRINGY.match(t) else "Bool" if t == "bool" else "Number"
        return conj(is_variant(j, v), eq(field(j, v, "0"), o)) if j.op != "adt" or j.a[1] == v else FALSE
    return eq(x, y)
@model("PartialEq::ne")
def m_ne(e, st, a, c): return ret(neg(typed_eq(e, st, a, c)), st)
@model("PartialOrd::lt")
def m_lt(e, st, a, c): return ret(lt(P(e, st, a[0]), P(e, st, a[1])), st)
@model("PartialOrd::gt")
def m_gt(e, st, a, c): return ret(lt(P(e, st, a[1]), P(e, st, a[0])), st)
@model("PartialOrd::le")
def m_le(e, st, a, c): return ret(neg(lt(P(e, st, a[1]), P(e, st, a[0]))), st)
@model("PartialOrd::ge")
def m_ge(e, st, a, c): return ret(neg(lt(P(e, st, a[0]), P(e, st, a[1]))), st)
@model("Not::not", "__private::not")
def m_not(e, st, a, c): return ret(neg(P(e, st, a[0])), st)

# ------------------------------------------------------------- futures, closures
@model("Future::poll")
def poll(e, st, a, c):
    v = P(e, st, a[0])
    return [(adt("std::task::Poll", "Ready", True, (("0", r),)), s) for r, s in force(e, st, v)]
def force(e, st, v):
    v = e.pure(st, v)
    if v.op == "coroutine":
        b = e.p.bodies.get(v.a[0])
        fr, blk, site, *_ = e._ctx
        if b is None or e.stack.count(b["id"]) > 1: return ret(mk("app", "await", v), st)
        return e.exec_body(b, [v, mk("param", "_cx")], st, fr.path + (site,))
    if v.op == "ite":
        out = []
        for k, s in e.fork_bool(st, v.a[0]): out += force(e, s, v.a[1] if k else v.a[2])
        return out
    return ret(v, st)
@model("future::get_context")
def getctx(e, st, a, c): return ret(mk("param", "_cx"), st)
@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call", "AsyncFn::async_call", "AsyncFnOnce::async_call_once")
def callf(e, st, a, c):
    t = P(e, st, a[1])
    xs = list(t.a) if t.op == "tuple" else [t]
    return e.call_value(st, a[0], xs)

# ------------------------------------------------------------------ try operator
@model("Try::branch")
def branch(e, st, a, c):
    v = P(e, st, a[0])
    t = (c["targs"] or [""])[0]
    isopt = t.startswith("std::option::Option")
    good, bad = ("Some", "None") if isopt else ("Ok", "Err")
    CF = "std::ops::ControlFlow"
    out = []
    for k, s, x in e.fork_variant(st, v, [good, bad]):
        if k == good: out.append((adt(CF, "Continue", True, (("0", field(x, good, "0")),)), s))
        else:
            r = NONE if isopt else err(field(x, "Err", "0"))
            out.append((adt(CF, "Break", True, (("0", r),)), s))
    return out
@model("FromResidual::from_residual")
def from_residual(e, st, a, c):
    v = P(e, st, a[0])
    if v.op == "adt" and v.a[1] == "Err":
        ta = c["targs"]
        dst = ta[0] if ta else ""
        src = ta[1] if len(ta) > 1 else ""
        x = v.a[3][0][1]
        # a local From impl for the error type
        m = re.match(r"std::result::Result<.*, ([^<>,]+(?:<.*>)?)>$", dst)
        n = re.match(r"std::result::Result<.*, ([^<>,]+(?:<.*>)?)>$", src)
        if m and n and m.group(1) != n.group(1):
            b = find_from(e, "std::convert::From", m.group(1), n.group(1))
            if b is not None and not e.skip_inline(b):
                fr, blk, site, *_ = e._ctx
                return [(err(r), s) for r, s in e.exec_body(b, [x], st, fr.path + (site,))]
            return ret(err(mk("app", "errfrom", x)), st)
    return ret(v, st)

# ------------------------------------------------------------- Option and Result
def fk(e, st, v, kind):
    return e.fork_variant(st, v, ["Some", "None"] if kind == "o" else ["Ok", "Err"])
def kind_of(c):
    p = c["path"]; o, r = p.find("option::Option"), p.find("result::Result")
    return "r" if r >= 0 and (o < 0 or r < o) else "o"
def good(k): return "Some" if k == "o" else "Ok"
def wrap(k, v): return some(v) if k == "o" else ok(v)

@model("Option::is_some")
def is_some(e, st, a, c): return ret(is_variant(P(e, st, a[0]), "Some"), st)
@model("Option::is_none")
def is_none(e, st, a, c): return ret(is_variant(P(e, st, a[0]), "None"), st)
@model("Result::is_ok")
def is_ok(e, st, a, c): return ret(is_variant(P(e, st, a[0]), "Ok"), st)
@model("Result::is_err")
def is_err(e, st, a, c): return ret(is_variant(P(e, st, a[0]), "Err"), st)
@model("Option::map", "Result::map")
def omap(e, st, a, c):
    k = kind_of(c); out = []
    for v, s, x in fk(e, st, a[0], k):
        if v == good(k):
            out += [(wrap(k, r), s2) for r, s2 in e.call_value(s, a[1], [field(x, v, "0")])]
        else: out.append((NONE if k == "o" else err(field(x, "Err", "0")), s))
    return out
@model("Option::inspect", "Result::inspect", "Result::inspect_err")
def inspect(e, st, a, c): return ret(P(e, st, a[0]), st)
@model("Option::and_then", "Result::and_then")
def and_then(e, st, a, c):
    k = kind_of(c); out = []
    for v, s, x in fk(e, st, a[0], k):
        if v == good(k): out += e.call_value(s, a[1], [field(x, v, "0")])
        else: out.append((NONE if k == "o" else err(field(x, "Err", "0")), s))
    return out
@model("Result::map_err")
def map_err(e, st, a, c):
    out = []
    for v, s, x in fk(e, st, a[0], "r"):
        if v == "Ok": out.append((ok(field(x, "Ok", "0")), s))
        else: out += [(err(r), s2) for r, s2 in e.call_value(s, a[1], [field(x, "Err", "0")])]
    return out
@model("Context::context", "Context::with_context")
def context(e, st, a, c):
    out = []
    t = (c["targs"] or [""])[0]
    k = "o" if t.startswith("std::option") else "r"
    for v, s, x in fk(e, st, a[0], k):
        out.append((ok(field(x, v, "0")) if v in ("Ok", "Some") else err(mk("app", "anyhow")), s))
    return out
@model("Option::ok_or")
def ok_or(e, st, a, c):
    return [(ok(field(x, v, "0")) if v == "Some" else err(P(e, s, a[1])), s) for v, s, x in fk(e, st, a[0], "o")]
@model("Option::ok_or_else")
def ok_or_else(e, st, a, c):
    out = []
    for v, s, x in fk(e, st, a[0], "o"):
        if v == "Some": out.append((ok(field(x, v, "0")), s))
        else: out += [(err(r), s2) for r, s2 in e.call_value(s, a[1], [])]
    return out
@model("Result::ok")
def res_ok(e, st, a, c):
    return [(some(field(x, v, "0")) if v == "Ok" else NONE, s) for v, s, x in fk(e, st, a[0], "r")]
@model("Result::err")
def res_err(e, st, a, c):
    return [(some(field(x, v, "0")) if v == "Err" else NONE, s) for v, s, x in fk(e, st, a[0], "r")]
@model("Option::unwrap_or", "Result::unwrap_or")
def unwrap_or(e, st, a, c):
    k = kind_of(c)
    return [(field(x, v, "0") if v == good(k) else P(e, s, a[1]), s) for v, s, x in fk(e, st, a[0], k)]
@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def unwrap_or_else(e, st, a, c):
    k = kind_of(c); out = []
    for v, s, x in fk(e, st, a[0], k):
        if v == good(k): out.append((field(x, v, "0"), s))
        else: out += e.call_value(s, a[1], [] if k == "o" else [field(x, "Err", "0")])
    return out
@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def unwrap_or_default(e, st, a, c):
    k = kind_of(c); out = []
    t = c["targs"][0] if c["targs"] else ""
    for v, s, x in fk(e, st, a[0], k):
        if v == good(k): out.append((field(x, v, "0"), s))
        else: out += default_of(e, s, t)
    return out
def default_of(e, st, t):
    if t == "bool": return ret(FALSE, st)
    if re.match(r"^[iu](8|16|32|64|128|size)$", t): return ret(integer(0), st)
    if STRINGY.match(t): return ret(string(""), st)
    if t.startswith("std::option::Option"): return ret(NONE, st)
    if re.match(r"^std::(vec::Vec|collections::(HashMap|BTreeMap|HashSet|BTreeSet|VecDeque))|^\[.*\]$|^&\[", t): return ret(mk("array"), st)
    if not hasattr(e.p, "_dflt"):
        e.p._dflt = {b.get("self_ty"): b for b in e.p.bodies.values() if b.get("name") == "default" and (b.get("impl_trait") or "").endswith("Default")}
    b = e.p._dflt.get(t)
    if b is not None and e.stack.count(b["id"]) <= 1:
        fr, blk, site, *_ = e._ctx
        return e.exec_body(b, [], st, fr.path + (site,))
    return ret(mk("default", t), st)
@model("Default::default")
def default(e, st, a, c):
    return default_of(e, st, c["targs"][0] if c["targs"] else e._ctx[5])
@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def unwrap(e, st, a, c):
    k = kind_of(c); out = []
    for v, s, x in fk(e, st, a[0], k):
        if v == good(k): out.append((field(x, v, "0"), s))
        else: e.panic("unwrap", e._ctx[0], e._ctx[1], s, c["path"].split("::")[-1])
    return out
@model("Result::unwrap_err", "Result::expect_err")
def unwrap_err(e, st, a, c):
    return [(field(x, v, "0"), s) for v, s, x in fk(e, st, a[0], "r") if v == "Err"]
@model("Option::map_or", "Result::map_or")
def map_or(e, st, a, c):
    k = kind_of(c); out = []
    for v, s, x in fk(e, st, a[0], k):
        if v == good(k): out += e.call_value(s, a[2], [field(x, v, "0")])
        else: out.append((P(e, s, a[1]), s))
    return out
@model("Option::map_or_else", "Result::map_or_else")
def map_or_else(e, st, a, c):
    k = kind_of(c); out = []
    for v, s, x in fk(e, st, a[0], k):
        if v == good(k): out += e.call_value(s, a[2], [field(x, v, "0")])
        else: out += e.call_value(s, a[1], [] if k == "o" else [field(x, "Err", "0")])
    return out
@model("Option::is_some_and", "Result::is_ok_and")
def is_some_and(e, st, a, c):
    k = kind_of(c); out = []
    for v, s, x in fk(e, st, a[0], k):
        if v == good(k): out += e.call_value(s, a[1], [field(x, v, "0")])
        else: out.append((FALSE, s))
    return out
@model("Option::is_none_or")
def is_none_or(e, st, a, c):
    out = []
    for v, s, x in fk(e, st, a[0], "o"):
        if v == "Some": out += e.call_value(s, a[1], [field(x, v, "0")])
        else: out.append((TRUE, s))
    return out
@model("Option::filter")
def ofilter(e, st, a, c):
    out = []
    for v, s, x in fk(e, st, a[0], "o"):
        if v == "Some":
            for r, s2 in e.call_value(s, a[1], [field(x, v, "0")]):
                for b, s3 in e.fork_bool(s2, r): out.append((some(field(x, v, "0")) if b else NONE, s3))
        else: out.append((NONE, s))
    return out
@model("Option::or", "Result::or")
def oor(e, st, a, c):
    k = kind_of(c)
    return [(wrap(k, field(x, v, "0")) if v == good(k) else P(e, s, a[1]), s) for v, s, x in fk(e, st, a[0], k)]
@model("Option::or_else", "Result::or_else")
def oor_else(e, st, a, c):
    k = kind_of(c); out = []
    for v, s, x in fk(e, st, a[0], k):
        if v == good(k): out.append((wrap(k, field(x, v, "0")), s))
        else: out += e.call_value(s, a[1], [] if k == "o" else [field(x, "Err", "0")])
    return out
@model("Option::and", "Result::and")
def oand(e, st, a, c):
    k = kind_of(c)
    return [(P(e, s, a[1]) if v == good(k) else (NONE if k == "o" else err(field(x, "Err", "0"))), s) for v, s, x in fk(e, st, a[0], k)]
@model("Option::zip")
def ozip(e, st, a, c):
    out = []
    for v, s, x in fk(e, st, a[0], "o"):
        if v == "None": out.append((NONE, s)); continue
        for v2, s2, y in fk(e, s, a[1], "o"):
            out.append((some(tup(field(x, "Some", "0"), field(y, "Some", "0"))) if v2 == "Some" else NONE, s2))
    return out
@model("Option::flatten")
def oflat(e, st, a, c):
    out = []
    for v, s, x in fk(e, st, a[0], "o"):
        out.append((field(x, "Some", "0") if v == "Some" else NONE, s))
    return out
@model("Option::transpose", "Result::transpose")
def otrans(e, st, a, c):
    out = []
    if kind_of(c) == "o":
        for v, s, x in fk(e, st, a[0], "o"):
            if v == "None": out.append((ok(NONE), s)); continue
            for w, s2, y in fk(e, s, field(x, "Some", "0"), "r"):
                out.append((ok(some(field(y, "Ok", "0"))) if w == "Ok" else err(field(y, "Err", "0")), s2))
        return out
    for v, s, x in fk(e, st, a[0], "r"):
        if v == "Err": out.append((some(err(field(x, "Err", "0"))), s)); continue
        for w, s2, y in fk(e, s, field(x, "Ok", "0"), "o"):
            out.append((some(ok(field(y, "Some", "0"))) if w == "Some" else NONE, s2))
    return out
@model("Option::take", "mem::take")
def take(e, st, a, c):
    v = P(e, st, a[0])
    if a[0].op == "mref":
        if c["path"].endswith("Option::<T>::take"): d = [(NONE, st)]
        else: d = default_of(e, st, c["targs"][0] if c["targs"] else "")
        dv, s = d[0]
        e.write_loc(s, a[0].a[0], a[0].a[1], dv)
        return ret(v, s)
    return None
@model("mem::replace", "Option::replace")
def mreplace(e, st, a, c):
    v = P(e, st, a[0])
    if a[0].op == "mref":
        n = a[1] if "mem::" in c["path"] else some(a[1])
        e.write_loc(st, a[0].a[0], a[0].a[1], n)
        return ret(v, st)
    return None
@model("Clone::clone_from", "Option::insert")
def clone_from(e, st, a, c):
    if a[0].op == "mref":
        v = P(e, st, a[1])
        if c["path"].endswith("insert"): v = some(v)
        e.write_loc(st, a[0].a[0], a[0].a[1], v)
        return ret(UNIT, st)
    return None
@model("bool::then")
def bthen(e, st, a, c):
    out = []
    for v, s in e.fork_bool(st, P(e, st, a[0])):
        if v: out += [(some(r), s2) for r, s2 in e.call_value(s, a[1], [])]
        else: out.append((NONE, s))
    return out
@model("bool::then_some")
def bthen_some(e, st, a, c):
    return [(some(P(e, s, a[1])) if v else NONE, s) for v, s in e.fork_bool(st, P(e, st, a[0]))]

# ------------------------------------------------------------------ collections
@model("Vec::new", "HashMap::new", "BTreeMap::new", "HashSet::new", "BTreeSet::new", "VecDeque::new", "Vec::with_capacity", "Map::new",
       "HashMap::with_capacity", "Map::with_capacity", "HashSet::with_capacity", "iter::empty")
def newc(e, st, a, c): return ret(mk("array"), st)
@model("Box::new_uninit", "Box::new_uninit_slice")
def new_uninit(e, st, a, c): return ret(mk("adt", "box", "box", False, (("value", mk("adt", "mu", "mu", False, (("value", mk("adt", "md", "md", False, (("value", UNINIT),))),))),)), st)
@model("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init", "slice::into_vec")
def box_init(e, st, a, c):
    v = P(e, st, a[0])
    if v.op == "with": v = v.a[3]
    n = 0
    while v.op == "adt" and v.a[0] in ("box", "mu", "md") and n < 6: v = v.a[3][0][1]; n += 1
    if v.op == "with": v = v.a[3]
    return ret(v, st)
@model("vec::from_elem")
def from_elem(e, st, a, c): return ret(mk("repeat", P(e, st, a[0]), P(e, st, a[1])), st)

def textof(e, x, ty):
    """The text an iterator over characters or texts spells."""
    if x.op == "array": return cat(*x.a)
    if is_const(x, "str"): return x
    if re.match(r"^(&(mut )?)*((std|core)::str::(Chars|Bytes)\b|percent_encoding::PercentEncode\b)", ty or ""): return x
    return mk("joined", x)
def upd(e, st, r, v):
    r = e.simp(st, r)
    if r.op == "mref": e.write_loc(st, r.a[0], r.a[1], v)
    else: st.heap[r] = v
@model("Vec::push", "VecDeque::push_back")
def push(e, st, a, c):
    v = P(e, st, a[0]); x = e.deep(st, a[1])
    n = mk("array", *v.a, x) if v.op == "array" else mk("push", v, x)
    upd(e, st, a[0], n)
    e.note(st, "push", v, x)
    return ret(UNIT, st)
@model("HashMap::insert", "BTreeMap::insert", "Map::insert")
def minsert(e, st, a, c):
    v = P(e, st, a[0]); k = e.deep(st, a[1]); x = e.deep(st, a[2])
    upd(e, st, a[0], mk("insert", v, k, x))
    e.note(st, "insert", v, k, x)
    return ret(mk("get", v, k), st)
@model("HashSet::insert", "BTreeSet::insert")
def sinsert(e, st, a, c):
    v = P(e, st, a[0]); k = e.deep(st, a[1])
    upd(e, st, a[0], mk("insert", v, k, UNIT))
    return ret(neg(contains(v, k)), st)
@model("Extend::extend", "Vec::extend_from_slice", "Vec::append")
def extend(e, st, a, c):
    v = P(e, st, a[0]); x = P(e, st, a[1])
    n = x if v.op == "array" and not v.a else mk("extend", v, x)
    if v.op in ("cat",) or is_const(v, "str") or STRINGY.match((c["targs"] or [""])[0]): n = cat(v, textof(e, x, (e._ctx[4] or ["", ""])[1]))
    upd(e, st, a[0], n)
    return ret(UNIT, st)
@model("Vec::clear", "String::clear", "HashMap::clear")
def clear(e, st, a, c):
    upd(e, st, a[0], string("") if "String" in c["path"] else mk("array"))
    return ret(UNIT, st)
@model("slice::contains", "HashSet::contains", "BTreeSet::contains", "Vec::contains", "VecDeque::contains")
def m_contains(e, st, a, c): return ret(contains(P(e, st, a[0]), e.deep(st, a[1])), st)
@model("HashMap::contains_key", "BTreeMap::contains_key", "Map::contains_key")
def m_haskey(e, st, a, c): return ret(haskey(P(e, st, a[0]), P(e, st, a[1])), st)
@model("HashMap::get", "BTreeMap::get", "Map::get", "HashMap::get_mut", "BTreeMap::get_mut", "Map::get_mut")
def m_get(e, st, a, c): return ret(mget(P(e, st, a[0]), P(e, st, a[1])), st)
mget = key_of
@model("HashMap::remove", "BTreeMap::remove", "Map::remove")
def m_remove(e, st, a, c):
    v = P(e, st, a[0]); k = P(e, st, a[1])
    upd(e, st, a[0], mk("remove", v, k))
    return ret(mget(v, k), st)
@model("Vec::is_empty", "String::is_empty", "str::is_empty", "slice::is_empty", "HashMap::is_empty", "BTreeMap::is_empty", "Map::is_empty",
       "HashSet::is_empty", "NodeList::is_empty", "ExactSizeIterator::is_empty", "VecDeque::is_empty", "Punctuated::is_empty")
def m_empty(e, st, a, c): return ret(empty(P(e, st, a[0])), st)
@model("Vec::len", "String::len", "str::len", "slice::len", "HashMap::len", "BTreeMap::len", "Map::len", "NodeList::len", "ExactSizeIterator::len",
       "Iterator::count", "HashSet::len", "Punctuated::len", "BitSlice::len", "BitVec::len")
def m_len(e, st, a, c): return ret(length(P(e, st, a[0])), st)
@model("slice::get", "Vec::get", "NodeList::get", "slice::get_mut")
def s_get(e, st, a, c):
    v = P(e, st, a[0]); i = P(e, st, a[1])
    if is_const(i, "int") and i.a[1] == 0: return ret(mk("first", v), st)
    return ret(mk("nth", v, i), st)
@model("slice::first", "Vec::first", "NodeList::first")
def s_first(e, st, a, c): return ret(mk("first", P(e, st, a[0])), st)
@model("slice::last", "Vec::last")
def s_last(e, st, a, c): return ret(mk("last", P(e, st, a[0])), st)
@model("NodeList::all")
def nodes_all(e, st, a, c): return ret(P(e, st, a[0]), st)
@model("HashMap::keys", "BTreeMap::keys", "HashMap::into_keys", "Map::keys", "BTreeMap::into_keys")
def keys(e, st, a, c): return ret(mk("keys", P(e, st, a[0])), st)
@model("HashMap::values", "BTreeMap::values", "HashMap::into_values", "Map::values", "HashMap::values_mut")
def values(e, st, a, c): return ret(mk("values", P(e, st, a[0])), st)
@model("Index::index", "IndexMut::index_mut")
def m_index(e, st, a, c):
    v = P(e, st, a[0]); i = P(e, st, a[1])
    ity = e._ctx[4][1] if len(e._ctx[4]) > 1 else ""
    if ity.endswith("ops::RangeFull"): return ret(v, st)
    if "ops::Range" in ity: # ranges
        if e.unroll and i.op == "adt":
            f = dict(i.a[3]); r = slice_at(v, f.get("start"), f.get("end"))
            if r is not None: return ret(r, st)
        e.panic("slice", e._ctx[0], e._ctx[1], st, "range index")
        return ret(mk("slice", v, i), st)
    t = (c["targs"] or [""])[0]
    if re.match(r"(std::collections::|serde_json::)(\w+::)*(HashMap|BTreeMap|Map)\b", t):
        if not st.prove(is_variant(mget(v, i), "Some")): e.panic("index", e._ctx[0], e._ctx[1], st, "index of a missing key")
        return ret(field(mget(v, i), "Some", "0"), st)
    if not (st.prove(lt(i, length(v))) or is_const(i, "int") and i.a[1] == 0 and st.prove(neg(empty(v)))):
        e.panic("index", e._ctx[0], e._ctx[1], st, "index")
    if is_const(i, "int") and i.a[1] == 0 and not v.op == "array": return ret(field(mk("first", v), "Some", "0"), st)
    return ret(index(v, i), st)
@model("Entry::or_default", "Entry::or_insert_with", "Entry::or_insert")
def entry(e, st, a, c):
    v = P(e, st, a[0])
    r = mk("slot", v)
    return ret(r, st)
@model("HashMap::entry", "BTreeMap::entry")
def entry0(e, st, a, c):
    return ret(mk("entry", P(e, st, a[0]), P(e, st, a[1])), st)
@model("Vec::retain", "Map::retain", "HashMap::retain", "BTreeMap::retain", "Vec::retain_mut")
def retain(e, st, a, c):
    v = P(e, st, a[0])
    el = elem(v)
    isvec = "Vec" in c["path"]
    args = [el] if isvec else [field(el, None, "0"), field(el, None, "1")]
    p, s = e.value_of(st, a[1], args)
    if p is None: return None
    upd(e, st, a[0], mk("filter", v, p))
    return ret(UNIT, st)

# -------------------------------------------------------------------- iterators
@model("Iterator::next")
def m_next(e, st, a, c):
    it = P(e, st, a[0])
    n = 0
    base = it
    while base.op == "adv": base = base.a[0]; n += 1
    fr, blk, site, *_ = e._ctx
    if a[0].op == "mref": e.write_loc(st, a[0].a[0], a[0].a[1], mk("adv", it))
    if e.unroll:
        xs = arr(base)
        if xs is not None: return ret(some(xs[n]) if n < len(xs) else NONE, st)
    if base.op == "array" and n < len(base.a) and not in_loop(fr, blk): return ret(some(base.a[n]), st)
    if base.op == "array" and not base.a: return ret(NONE, st)
    if n > 0 and it is not base: return ret(mk("app", "next_after", it), st)
    return ret(mk("next", base, "/".join(fr.path) + site), st)
def in_loop(fr, blk):
    for h, bs in fr.info.loops.items():
        for b in bs:
            if fr.body["blocks"][b] is blk: return True
    return False
def pred(e, st, f, args):
    p, s = e.value_of(st, f, args)
    return p
@model("Iterator::any")
def m_any(e, st, a, c):
    it = P(e, st, a[0]); p = pred(e, st, a[1], [elem(it)])
    return None if p is None else ret(exists(it, p), st)
@model("Iterator::all")
def m_all(e, st, a, c):
    it = P(e, st, a[0]); p = pred(e, st, a[1], [elem(it)])
    return None if p is None else ret(forall(it, p), st)
@model("Iterator::find")
def m_find(e, st, a, c):
    it = P(e, st, a[0]); p = pred(e, st, a[1], [elem(it)])
    return None if p is None else ret(mk("find", it, p), st)
@model("Iterator::position")
def m_pos(e, st, a, c):
    it = P(e, st, a[0]); p = pred(e, st, a[1], [elem(it)])
    return None if p is None else ret(mk("find", mk("map", it, mk("idx", it)), p), st)
@model("Iterator::filter")
def m_filter(e, st, a, c):
    it = P(e, st, a[0]); p = pred(e, st, a[1], [elem(it)])
    return None if p is None else ret(mk("filter", it, p), st)
@model("Iterator::map")
def m_map(e, st, a, c):
    it = P(e, st, a[0])
    v, s = e.value_of(st, a[1], [elem(it)])
    if v is None: return None
    if v is elem(it): return ret(it, st)
    return ret(mk("map", it, v), st)
@model("Iterator::filter_map", "Iterator::flat_map")
def m_fmap(e, st, a, c):
    it = P(e, st, a[0])
    v, s = e.value_of(st, a[1], [elem(it)])
    if v is None: return None
    if c["path"].endswith("flat_map"): return ret(mk("flatten", mk("map", it, v)), st)
    return ret(mk("fmap", it, v), st)
@model("Iterator::find_map")
def m_find_map(e, st, a, c):
    it = P(e, st, a[0])
    v, s = e.value_of(st, a[1], [elem(it)])
    if v is None: return None
    return ret(mk("find", mk("map", it, field(v, "Some", "0")), is_variant(v, "Some")), st)
@model("Iterator::enumerate")
def m_enum(e, st, a, c): return ret(mk("enumerate", P(e, st, a[0])), st)
@model("Iterator::zip")
def m_zip(e, st, a, c): return ret(mk("zip", P(e, st, a[0]), P(e, st, a[1])), st)
@model("Iterator::for_each", "Iterator::try_for_each")
def m_foreach(e, st, a, c):
    it = P(e, st, a[0])
    v, s = e.value_of(st, a[1], [elem(it)])
    if v is None: return None
    if s is not None:
        out = st.copy()
        el = elem(base_coll(it)[0])
        for t, k in s.units.items():
            if t not in st.units and t.op != "known" and mentions(t, el): out.assume(forall(it, t if k else neg(t)), True)
        # effects on captured state
        for k2, x in s.env.items():
            if k2 in st.env and st.env[k2] is not x:
                x0 = st.env[k2]
                if x.op == "push" and x.a[0] is x0:
                    m = mk("map", it, x.a[1])
                    out.env[k2] = m if empty(x0) is TRUE else mk("extend", x0, m)
                elif x.op == "array" and x0.op == "array" and len(x.a) == len(x0.a) + 1:
                    m = mk("map", it, x.a[-1])
                    out.env[k2] = m if not x0.a else mk("extend", x0, m)
                else: out.env[k2] = mk("acc", "for_each", str(k2[1]), x)
        for k2, x in s.heap.items():
            if st.heap.get(k2) is not x: out.heap[k2] = x
        st = out
    if c["path"].endswith("try_for_each"):
        outs = []
        for b, s2 in e.fork_bool(st, forall(it, is_variant(v, "Ok"))): outs.append((ok(UNIT) if b else err(mk("app", "first_err", it)), s2))
        return outs
    return ret(UNIT, st)
@model("Iterator::fold")
def m_fold(e, st, a, c):
    it = P(e, st, a[0]); init = P(e, st, a[1])
    acc = mk("acc", "fold", e._ctx[2], init)
    v, s = e.value_of(st, a[2], [acc, elem(it)])
    if v is None: return None
    back = st.copy(); back.env[("f", 0)] = v
    return ret(e.close_acc(acc, it, back, ("f", 0)), st)
@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(e, st, a, c):
    it = P(e, st, a[0])
    t = e._ctx[5] or ""
    if t.startswith("std::result::Result") or t.startswith("std::option::Option"):
        k = "r" if "Result" in t[:22] else "o"
        g = good(k)
        out = []
        b, gs = base_coll(it)
        el = elem(it)
        for v, s in e.fork_bool(st, forall(it, is_variant(el, g))):
            if v: out.append((wrap(k, mk("map", it, field(el, g, "0"))), s))
            else: out.append((err(mk("first_err", it)) if k == "r" else NONE, s))
        return out
    if t == "std::string::String": return ret(textof(e, it, (e._ctx[4] or [""])[0] or (c["targs"] or [""])[0]), st)
    return ret(it, st)
@model("Iterator::take", "Iterator::skip", "Iterator::step_by", "Iterator::take_while", "Iterator::skip_while", "Iterator::chain", "Iterator::flatten")
def m_take(e, st, a, c):
    return ret(mk(c["path"].split("::")[-1], *[P(e, st, x) for x in a]), st)
@model("Iterator::last", "Iterator::nth", "Iterator::max", "Iterator::min", "Iterator::sum")
def m_it(e, st, a, c): return ret(mk("app", c["path"].split("::")[-1], *[P(e, st, x) for x in a]), st)
@model("Iterator::try_fold")
def m_tf(e, st, a, c): return None
@model("slice::is_sorted")
def m_none(e, st, a, c): return None

# ---------------------------------------------------------------------- strings
@model("String::new")
def snew(e, st, a, c): return ret(string(""), st)
@model("String::push_str", "String::push", "AddAssign::add_assign", "String::extend")
def push_str(e, st, a, c):
    v = P(e, st, a[0]); x = P(e, st, a[1])
    t = (c["targs"] or [""])[0]
    if c["path"].endswith("add_assign") and not STRINGY.match(t): upd(e, st, a[0], arith("Add", v, x))
    else: upd(e, st, a[0], cat(v, x))
    return ret(UNIT, st)
@model("SubAssign::sub_assign")
def subas(e, st, a, c):
    upd(e, st, a[0], arith("Sub", P(e, st, a[0]), P(e, st, a[1]))); return ret(UNIT, st)
@model("Add::add")
def m_add(e, st, a, c):
    t = (c["targs"] or [""])[0]
    x, y = P(e, st, a[0]), P(e, st, a[1])
    if STRINGY.match(t): return ret(cat(x, y), st)
    return ret(arith("Add", x, y), st)
@model("Sub::sub")
def m_sub(e, st, a, c): return ret(arith("Sub", P(e, st, a[0]), P(e, st, a[1])), st)
@model("Mul::mul")
def m_mul(e, st, a, c): return ret(arith("Mul", P(e, st, a[0]), P(e, st, a[1])), st)
@model("str::starts_with")
def starts(e, st, a, c): return ret(edge(e, st, "starts", P(e, st, a[0]), P(e, st, a[1])), st)
def edge(e, st, how, t, pat):
    """starts_with / ends_with, decided when the text at that end is literal."""
    pats = [pat] if is_const(pat) else list(pat.a) if pat.op == "array" and all(is_const(x) for x in pat.a) else None
    if pats is None and pat.op in ("closure", "fn"):
        ch = mk("edgechar", how, t)
        piece = t.a[-1 if how == "ends" else 0] if t.op == "cat" else t
        if is_const(piece, "str") and piece.a[1]: ch = const("char", piece.a[1][-1 if how == "ends" else 0])
        if not is_const(ch): edge_facts(e, st, how, t)
        v, _ = e.value_of(st, pat, [ch])
        if v is None: return mk("bapp", how, t, pat)
        return v if is_const(ch) else conj(neg(empty(t)), v)
    if pats is None: return mk(how, t, pat)
    rs = []
    for q in pats:
        q = q.a[1]
        r = edge1(e, how, t, q)
        rs.append(boolean(r) if r is not None else mk(how, t, string(q)))
    return disj(*rs)
def edge_facts(e, st, how, t):
    """What is known of the first or last character of t, as assumptions."""
    for q in "{}[]\"'&=%+ ,:":
        r = edge1(e, how, t, q)
        if r is not None: st.assume(mk(how, t, string(q)), r)
def edge_char(e, st, how, t, byte=False):
    """[(Option<char>, state)]: the first or last character of a text."""
    xs = list(t.a) if t.op == "cat" else [t]
    x = xs[-1 if how == "ends" else 0]
    if is_const(x, "str"):
        if not x.a[1]: return [(NONE, st)]
        ch = x.a[1][-1 if how == "ends" else 0]
        return [(some(integer(ord(ch)) if byte and ord(ch) < 128 else const("char", ch)), st)]
    out = []
    for k, s in e.fork_bool(st, empty(t)):
        if not k: edge_facts(e, s, how, t)
        out.append((NONE if k else some(mk("edgechar", how, t)), s))
    return out
def edge1(e, how, t, q):
    if not isinstance(q, str): return None
    if q == "": return True
    xs = list(t.a) if t.op == "cat" else [t]
    if how == "ends": xs = xs[::-1]
    x = xs[0]
    if is_const(x, "str") and len(x.a[1]) >= len(q): return x.a[1].endswith(q) if how == "ends" else x.a[1].startswith(q)
    if is_const(x, "str") and len(xs) == 1: return False
    h = getattr(e, "edge_hook", None)
    return h(how, x, q) if h else None
@model("str::ends_with")
def ends(e, st, a, c): return ret(edge(e, st, "ends", P(e, st, a[0]), P(e, st, a[1])), st)
@model("str::contains")
def scontains(e, st, a, c): return ret(mk("bapp", "str::contains", P(e, st, a[0]), P(e, st, a[1])), st)
@model("slice::concat", "slice::join")
def sjoin(e, st, a, c): return ret(mk("app", c["path"].split("::")[-1], *[P(e, st, x) for x in a]), st)

@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex")
def fmtarg(e, st, a, c):
    t = c["targs"][-1] if c["targs"] else ""
    v = P(e, st, a[0])
    how = c["path"].split("_")[-1]
    if how == "display": return ret(display(e, st, v, t), st)
    return ret(mk(how, v), st)
@model("Argument::from_usize")
def fmtusize(e, st, a, c): return ret(P(e, st, a[0]), st)
@model("Arguments::from_str", "Arguments::from_str_nonconst")
def args_str(e, st, a, c): return ret(P(e, st, a[0]), st)
@model("Arguments::new", "Arguments::new_v1")
def args_new(e, st, a, c):
    tpl = P(e, st, a[0]); xs = P(e, st, a[1])
    if not is_const(tpl, "bytes") or xs.op != "array": return ret(mk("app", "fmt", tpl, xs), st)
    return ret(decode_fmt(tpl.a[1], xs.a), st)
def decode_fmt(b, xs):
    out = []; i = 0; nxt = 0
    while i < len(b):
        c = b[i]; i += 1
        if c == 0: break
        if c < 0x80: out.append(string(b[i:i + c].decode("utf8", "replace"))); i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8; i += 2
            out.append(string(b[i:i + n].decode("utf8", "replace"))); i += n
        else:
            opts = c & 0x37; flags = width = prec = 0
            if c & 1: flags = int.from_bytes(b[i:i + 4], "little"); i += 4
            if c & 2: width = int.from_bytes(b[i:i + 2], "little"); i += 2
            if c & 4: prec = int.from_bytes(b[i:i + 2], "little"); i += 2
            if c & 16: width = xs[width] if width < len(xs) else "?"
            if c & 32: prec = xs[prec] if prec < len(xs) else "?"
            if c & 8: nxt = b[i] | b[i + 1] << 8; i += 2
            x = xs[nxt] if nxt < len(xs) else mk("other", "fmt", "")
            nxt += 1
            out.append(mk("fmtopt", x, flags, width, prec) if opts else x)
    return cat(*out)
@model("fmt::format")
def fmtformat(e, st, a, c): return ret(P(e, st, a[0]), st)
@model("Formatter::write_fmt", "Formatter::write_str", "Write::write_fmt", "Write::write_str", "Formatter::pad")
def write_fmt(e, st, a, c):
    v = P(e, st, a[0]); x = P(e, st, a[1])
    upd(e, st, a[0], cat(v, x))
    return ret(ok(UNIT), st)
@model("fmt::write")
def fmtwrite(e, st, a, c): return None
@model("Display::fmt")
def dispfmt(e, st, a, c):
    v = P(e, st, a[1]); t = (c["targs"] or [""])[0]
    upd(e, st, a[1], cat(v, display(e, st, P(e, st, a[0]), t)))
    return ret(ok(UNIT), st)
@model("__private::format_err", "Error::msg", "Error::new")
def anyerr(e, st, a, c):
    return ret(mk("app", "error", *[P(e, st, x) for x in a]), st)

@model("panicking::panic", "panicking::panic_fmt", "rt::panic_fmt", "panicking::todo_default_msg", "panicking::panic_display", "panicking::unreachable_display",
       "panicking::assert_failed", "panicking::panic_str_2015", "rt::begin_panic", "panicking::panic_explicit", "panicking::unimplemented_default_msg")
def m_panic(e, st, a, c):
    e.panic("panic", e._ctx[0], e._ctx[1], st, ap(P(e, st, a[0])) if a else "")
    return []
@model("RangeInclusive::new")
def rincl(e, st, a, c): return ret(mk("rangeincl", P(e, st, a[0]), P(e, st, a[1])), st)
@model("RangeInclusive::contains", "RangeBounds::contains", "Range::contains")
def rcontains(e, st, a, c):
    r = P(e, st, a[0]); x = P(e, st, a[1])
    if r.op == "rangeincl": return ret(conj(neg(lt(x, r.a[0])), neg(lt(r.a[1], x))), st)
    if r.op == "adt" and r.a[0].endswith("ops::Range"): return ret(conj(neg(lt(x, field(r, None, "start"))), lt(x, field(r, None, "end"))), st)
    return None
@model("process::exit", "process::abort")
def m_exit(e, st, a, c): return []

# -------------------------------------------------- encodings, digests, randomness
@model("Iterator::rev")
def m_rev(e, st, a, c):
    v = P(e, st, a[0])
    return ret(v.a[0] if v.op == "rev" else mk("rev", v), st)
def tshort(t):
    return re.sub(r"<.*", "", t or "").split("::")[-1]
@model("Encoding::encode_string")
def b64enc(e, st, a, c): return ret(mk("b64", tshort(c["targs"][0] if c["targs"] else ""), P(e, st, a[0])), st)
def hashname(t):
    for h in ("Sha256", "Sha512", "Sha384", "Sha224", "Sha1", "Md5"):
        if h in (t or ""): return h
    return tshort(t)
@model("Digest::digest")
def m_digest(e, st, a, c): return ret(mk("hash", hashname(c["targs"][0] if c["targs"] else ""), P(e, st, a[0])), st)
@model("Digest::new")
def m_dnew(e, st, a, c): return ret(mk("hasher", hashname(c["targs"][0] if c["targs"] else ""), string("")), st)
@model("Digest::update", "Update::update")
def m_dupd(e, st, a, c):
    h = P(e, st, a[0])
    if h.op != "hasher": return None
    upd(e, st, a[0], mk("hasher", h.a[0], cat(h.a[1], P(e, st, a[1]))))
    return ret(UNIT, st)
@model("Digest::chain_update")
def m_dch(e, st, a, c):
    h = P(e, st, a[0])
    if h.op != "hasher": return None
    return ret(mk("hasher", h.a[0], cat(h.a[1], P(e, st, a[1]))), st)
@model("Digest::finalize", "Digest::new_with_prefix")
def m_dfin(e, st, a, c):
    h = P(e, st, a[0])
    if c["path"].endswith("prefix"): return ret(mk("hasher", hashname(c["targs"][0] if c["targs"] else ""), h), st)
    if h.op != "hasher": return None
    return ret(mk("hash", h.a[0], h.a[1]), st)
@model("iter::repeat_with")
def m_repeat_with(e, st, a, c):
    v, s = e.value_of(st, a[0], [])
    if v is None: return None
    return ret(mk("map", mk("forever"), v), st)
@model("fastrand::choice")
def m_choice(e, st, a, c):
    v = P(e, st, a[0])
    fr, blk, site, *_ = e._ctx
    r = mk("app", "fastrand::usize", adt("std::ops::RangeTo", "RangeTo", False, (("end", length(v)),)), "/".join(fr.path) + site)
    return [(some(index(v, r)), st)]
@model("String::with_capacity")
def swc(e, st, a, c): return ret(string(""), st)

# ------------------------------------------------------------ percent encoding
BASE_SETS = {"CONTROLS": frozenset(chr(i) for i in list(range(32)) + [127]),
             "NON_ALPHANUMERIC": frozenset(chr(i) for i in range(128) if not chr(i).isalnum())}
def ascii_set(t):
    """The set of ASCII characters an AsciiSet term escapes, or None."""
    if t.op == "cst": return BASE_SETS.get(t.a[0].split("::")[-1])
    if t.op == "app" and t.a[0] in ("AsciiSet::remove", "AsciiSet::add") and is_const(t.a[2]):
        s = ascii_set(t.a[1]); c = t.a[2].a[1]
        c = chr(c) if isinstance(c, int) else c
        if s is None: return None
        return s - {c} if t.a[0].endswith("remove") else s | {c}
    if t.op == "app" and t.a[0] in ("AsciiSet::union", "BitOr::bitor"):
        a, b = ascii_set(t.a[1]), ascii_set(t.a[2])
        return None if a is None or b is None else a | b
    return None
def pct_const(s, cs):
    return "".join(c if ord(c) < 128 and c not in cs else "".join("%%%02X" % b for b in c.encode()) for c in s)
def pct(x, cs):
    if is_const(x, "str") or is_const(x, "char"): return string(pct_const(x.a[1], cs))
    if x.op == "cat": return cat(*[pct(y, cs) for y in x.a])
    if x.op == "ite": return ite((x.a[0], True), pct(x.a[1], cs), pct(x.a[2], cs))
    return mk("pct", "".join(sorted(cs)), x)
@model("percent_encoding::utf8_percent_encode")
def m_pct(e, st, a, c):
    cs = ascii_set(P(e, st, a[1]))
    if cs is None: return None
    return ret(pct(P(e, st, a[0]), cs), st)
@model("percent_encoding::percent_decode_str", "percent_encoding::percent_decode")
def m_pctd(e, st, a, c): return ret(pctdec(P(e, st, a[0])), st)
def pctdec(t):
    if is_const(t, "str"):
        import urllib.parse
        return string(urllib.parse.unquote(t.a[1]))
    if t.op == "cat" and pieces(t) is not None: return cat(*[pctdec(x) for x in t.a])
    return mk("pctdec", t)
@model("PercentDecode::decode_utf8_lossy")
def m_pctl(e, st, a, c): return ret(P(e, st, a[0]), st)
@model("PercentDecode::decode_utf8")
def m_pctu(e, st, a, c):
    v = P(e, st, a[0])
    return ret(mk("app", "decode_utf8", v), st)


# ------------------------------------------- literal collections (unroll mode)
def entries(m):
    """[(key, value)] of a map with literal keys, or None."""
    if m.op == "array": return [] if not m.a else None
    if m.op == "insert":
        r = entries(m.a[0])
        if r is None: return None
        return [(k, v) for k, v in r if k is not m.a[1]] + [(m.a[1], m.a[2])]
    if m.op == "remove" and is_const(m.a[1]):
        r = entries(m.a[0])
        return None if r is None else [(k, v) for k, v in r if k is not m.a[1]]
    return None
def mapof(es):
    m = mk("array")
    for k, v in es: m = mk("insert", m, k, v)
    return m
def arr(it):
    """The elements of a literal collection, or None."""
    if it.op == "array": return list(it.a)
    if it.op == "insert":
        r = entries(it)
        return None if r is None else [tup(k, v) for k, v in r] if not all(v is UNIT for _, v in r) else [k for k, _ in r]
    if it.op == "adt" and it.a[0] == OPT: return [it.a[3][0][1]] if it.a[1] == "Some" else []
    if it.op == "adt" and it.a[0].endswith("ops::Range") and all(is_const(v, "int") for _, v in it.a[3]):
        f = dict(it.a[3]); lo, hi = f["start"].a[1], f["end"].a[1]
        return [integer(i) for i in range(lo, hi)] if hi - lo <= 300 else None
    if it.op == "push":
        r = arr(it.a[0])
        return None if r is None else r + [it.a[1]]
    if it.op == "extend":
        x, y = arr(it.a[0]), arr(it.a[1])
        return None if x is None or y is None else x + y
    if it.op == "adv":
        r = arr(it.a[0])
        return None if r is None else r[1:]
    if it.op == "rangeincl" and all(is_const(v, "int") for v in it.a[:2]):
        lo, hi = it.a[0].a[1], it.a[1].a[1]
        return [integer(i) for i in range(lo, hi + 1)] if hi - lo <= 300 else None
    if it.op == "const" and it.a[0] == "str" and len(it.a[1]) <= 300: return [const("char", c) for c in it.a[1]]
    return None
def seq(e, st, xs, f, step):
    """Thread the states through the elements.  step(index, elem, result, state) ->
    [("go" | final result, state)]; returns (finals, [states that reached the end])."""
    live = [st]; fin = []
    for i, x in enumerate(xs):
        nxt = []
        for s in live:
            for r, s2 in e.call_value(s, f, [x]):
                for k, s3 in step(i, x, r, s2):
                    if k is GO: nxt.append(s3)
                    else: fin.append((k, s3))
        live = nxt
        if len(live) + len(fin) > 200: raise RuntimeError("too many cases over a literal collection")
    return fin, live
GO = object()
def conc(name):
    """Wrap a model: use the element-wise version on literal collections."""
    old = MODELS.get(name)
    def d(f):
        def g(e, st, a, c):
            if e.unroll:
                v = P(e, st, a[0])
                xs = arr(v)
                if xs is not None:
                    if a[0].op == "mref" and not name.startswith(("HashMap", "BTreeMap", "Map", "Vec")): upd(e, st, a[0], mk("array"))
                    r = f(e, st, xs, a, c)
                    if r is not None: return r
            return old(e, st, a, c) if old else None
        MODELS[name] = g
        return f
    return d
def boolstep(e, on_true, on_false):
    def step(i, x, r, s):
        out = []
        for b, s2 in e.fork_bool(s, r):
            out.append(((on_true if b else on_false)(i, x), s2))
        return out
    return step
@conc("Iterator::any")
def c_any(e, st, xs, a, c):
    fin, live = seq(e, st, xs, a[1], boolstep(e, lambda i, x: TRUE, lambda i, x: GO))
    return fin + [(FALSE, s) for s in live]
@conc("Iterator::all")
def c_all(e, st, xs, a, c):
    fin, live = seq(e, st, xs, a[1], boolstep(e, lambda i, x: GO, lambda i, x: FALSE))
    return fin + [(TRUE, s) for s in live]
@conc("Iterator::find")
def c_find(e, st, xs, a, c):
    fin, live = seq(e, st, xs, a[1], boolstep(e, lambda i, x: some(x), lambda i, x: GO))
    return fin + [(NONE, s) for s in live]
@conc("Iterator::position")
def c_pos(e, st, xs, a, c):
    fin, live = seq(e, st, xs, a[1], boolstep(e, lambda i, x: some(integer(i)), lambda i, x: GO))
    return fin + [(NONE, s) for s in live]
@conc("Iterator::find_map")
def c_find_map(e, st, xs, a, c):
    def step(i, x, r, s):
        return [(some(field(y, "Some", "0")) if v == "Some" else GO, s2) for v, s2, y in e.fork_variant(s, r, ["Some", "None"])]
    fin, live = seq(e, st, xs, a[1], step)
    return fin + [(NONE, s) for s in live]
def build(e, st, xs, f, step):
    """Lists produced element by element: [(list of terms, state)]."""
    live = [([], st)]
    for x in xs:
        nxt = []
        for l, s in live:
            for r, s2 in e.call_value(s, f, [x]):
                nxt += [(l + y, s3) for y, s3 in step(x, r, s2)]
        live = nxt
        if len(live) > 200: raise RuntimeError("too many cases over a literal collection")
    return [(mk("array", *l), s) for l, s in live]
@conc("Iterator::map")
def c_map(e, st, xs, a, c): return build(e, st, xs, a[1], lambda x, r, s: [([r], s)])
@conc("Iterator::filter")
def c_filter(e, st, xs, a, c): return build(e, st, xs, a[1], lambda x, r, s: [([x] if b else [], s2) for b, s2 in e.fork_bool(s, r)])
@conc("Iterator::filter_map")
def c_fmap(e, st, xs, a, c):
    return build(e, st, xs, a[1], lambda x, r, s: [([field(y, "Some", "0")] if v == "Some" else [], s2) for v, s2, y in e.fork_variant(s, r, ["Some", "None"])])
@conc("Iterator::flat_map")
def c_flat_map(e, st, xs, a, c):
    def step(x, r, s):
        ys = arr(e.pure(s, r))
        if ys is not None: return [(ys, s)]
        ty = e._ctx[5] or ""
        y = next((v for v in ("Option", "Result") if re.search(r"FlatMap<.*std::(option|result)::" + v + r"<", ty)), None)
        if y is None: raise RuntimeError("flat_map over an open collection")
        vs = ["Some", "None"] if y == "Option" else ["Ok", "Err"]
        return [([field(z, vs[0], "0")] if v == vs[0] else [], s2) for v, s2, z in e.fork_variant(s, r, vs)]
    return build(e, st, xs, a[1], step)
@conc("Iterator::take_while")
def c_take_while(e, st, xs, a, c):
    live = [([], st, False)]
    for x in xs:
        nxt = []
        for l, s, done in live:
            if done: nxt.append((l, s, True)); continue
            for r, s2 in e.call_value(s, a[1], [x]):
                for b, s3 in e.fork_bool(s2, r): nxt.append((l + [x], s3, False) if b else (l, s3, True))
        live = nxt
    return [(mk("array", *l), s) for l, s, _ in live]
@conc("Iterator::skip_while")
def c_skip_while(e, st, xs, a, c):
    live = [([], st, False)]
    for x in xs:
        nxt = []
        for l, s, on in live:
            if on: nxt.append((l + [x], s, True)); continue
            for r, s2 in e.call_value(s, a[1], [x]):
                for b, s3 in e.fork_bool(s2, r): nxt.append((l, s3, False) if b else (l + [x], s3, True))
        live = nxt
    return [(mk("array", *l), s) for l, s, _ in live]
@conc("Iterator::enumerate")
def c_enum(e, st, xs, a, c): return ret(mk("array", *[tup(integer(i), x) for i, x in enumerate(xs)]), st)
@conc("Iterator::rev")
def c_rev(e, st, xs, a, c): return ret(mk("array", *xs[::-1]), st)
@conc("Iterator::zip")
def c_zip(e, st, xs, a, c):
    ys = arr(P(e, st, a[1]))
    return None if ys is None else ret(mk("array", *[tup(x, y) for x, y in zip(xs, ys)]), st)
@conc("Iterator::chain")
def c_chain(e, st, xs, a, c):
    ys = arr(P(e, st, a[1]))
    return None if ys is None else ret(mk("array", *xs, *ys), st)
@conc("Iterator::take")
def c_take(e, st, xs, a, c):
    n = P(e, st, a[1])
    return ret(mk("array", *xs[:n.a[1]]), st) if is_const(n, "int") else None
@conc("Iterator::skip")
def c_skip(e, st, xs, a, c):
    n = P(e, st, a[1])
    return ret(mk("array", *xs[n.a[1]:]), st) if is_const(n, "int") else None
@conc("Iterator::flatten")
def c_flatten(e, st, xs, a, c):
    live = [([], st)]
    for x in xs:
        nxt = []
        for l, s in live:
            ys = arr(e.pure(s, x))
            if ys is not None: nxt.append((l + ys, s)); continue
            t = (c["targs"] or [""])[0]
            vs = ["Ok", "Err"] if "Result<" in t else ["Some", "None"]
            for v, s2, y in e.fork_variant(s, x, vs): nxt.append((l + ([field(y, v, "0")] if v in ("Some", "Ok") else []), s2))
        live = nxt
    return [(mk("array", *l), s) for l, s in live]
@conc("Iterator::for_each")
def c_foreach(e, st, xs, a, c):
    fin, live = seq(e, st, xs, a[1], lambda i, x, r, s: [(GO, s)])
    return [(UNIT, s) for s in live]
@conc("Iterator::try_for_each")
def c_tfe(e, st, xs, a, c):
    t = e._ctx[5] or ""
    vs = ["Some", "None"] if t.startswith("std::option") else ["Ok", "Err"]
    if t.startswith("std::ops::ControlFlow"): vs = ["Continue", "Break"]
    def step(i, x, r, s): return [(GO if v == vs[0] else y if y.op == "adt" else err(field(y, "Err", "0")), s2) for v, s2, y in e.fork_variant(s, r, vs)]
    fin, live = seq(e, st, xs, a[1], step)
    good_ = {"Ok": ok(UNIT), "Some": some(UNIT), "Continue": adt("std::ops::ControlFlow", "Continue", True, (("0", UNIT),))}[vs[0]]
    return fin + [(good_, s) for s in live]
@conc("Iterator::fold")
def c_fold(e, st, xs, a, c):
    live = [(P(e, st, a[1]), st)]
    for x in xs:
        live = [(r, s2) for v, s in live for r, s2 in e.call_value(s, a[2], [v, x])]
        if len(live) > 200: raise RuntimeError("too many cases over a literal collection")
    return live
@conc("Iterator::try_fold")
def c_try_fold(e, st, xs, a, c):
    t = e._ctx[5] or ""
    vs = ["Some", "None"] if t.startswith("std::option") else ["Ok", "Err"]
    if t.startswith("std::ops::ControlFlow"): vs = ["Continue", "Break"]
    live = [(P(e, st, a[1]), st)]; fin = []
    for x in xs:
        nxt = []
        for v, s in live:
            for r, s2 in e.call_value(s, a[2], [v, x]):
                for w, s3, y in e.fork_variant(s2, r, vs):
                    if w == vs[0]: nxt.append((field(y, w, "0"), s3))
                    else: fin.append((y, s3))
        live = nxt
    w = {"Ok": ok, "Some": some, "Continue": lambda v: adt("std::ops::ControlFlow", "Continue", True, (("0", v),))}[vs[0]]
    return fin + [(w(v), s) for v, s in live]
@conc("Iterator::collect")
def c_collect(e, st, xs, a, c):
    t = e._ctx[5] or ""
    inner = None
    m = re.match(r"std::(result::Result|option::Option)<(.*)>$", t)
    if m: inner = m.group(2)
    def make(l, ty):
        if ty.startswith("std::string::String"): return cat(*l)
        if re.match(r"std::collections::(HashMap|BTreeMap)|serde_json::(map::)?Map", ty) and all(x.op == "tuple" and len(x.a) == 2 for x in l): return mapof([(x.a[0], x.a[1]) for x in l])
        if re.match(r"std::collections::(HashSet|BTreeSet)", ty): return mapof([(x, UNIT) for x in l])
        return mk("array", *l)
    if inner is None: return ret(make(xs, t), st)
    g = "Ok" if "Result" in t[:22] else "Some"
    vs = [g, "Err" if g == "Ok" else "None"]
    live = [([], st)]; fin = []
    for x in xs:
        nxt = []
        for l, s in live:
            for v, s2, y in e.fork_variant(s, x, vs):
                if v == g: nxt.append((l + [field(y, g, "0")], s2))
                else: fin.append((err(field(y, "Err", "0")) if g == "Ok" else NONE, s2))
        live = nxt
    w = ok if g == "Ok" else some
    return fin + [(w(make(l, inner)), s) for l, s in live]
@conc("Iterator::last")
def c_last(e, st, xs, a, c): return ret(some(xs[-1]) if xs else NONE, st)
@conc("Iterator::nth")
def c_nth(e, st, xs, a, c):
    i = P(e, st, a[1])
    if not is_const(i, "int"): return None
    if a[0].op == "mref": upd(e, st, a[0], mk("array", *xs[i.a[1] + 1:]))
    return ret(some(xs[i.a[1]]) if i.a[1] < len(xs) else NONE, st)
@conc("Iterator::count")
def c_count(e, st, xs, a, c): return ret(integer(len(xs)), st)
for _n in ("Vec::is_empty", "slice::is_empty", "HashMap::is_empty", "BTreeMap::is_empty", "Map::is_empty", "HashSet::is_empty", "NodeList::is_empty", "VecDeque::is_empty"):
    conc(_n)(lambda e, st, xs, a, c: ret(boolean(not xs), st))
for _n in ("Vec::len", "slice::len", "HashMap::len", "BTreeMap::len", "Map::len", "NodeList::len", "HashSet::len", "ExactSizeIterator::len"):
    conc(_n)(lambda e, st, xs, a, c: ret(integer(len(xs)), st))
for _n in ("slice::first", "Vec::first", "NodeList::first"):
    conc(_n)(lambda e, st, xs, a, c: ret(some(xs[0]) if xs else NONE, st))
for _n in ("slice::last", "Vec::last"):
    conc(_n)(lambda e, st, xs, a, c: ret(some(xs[-1]) if xs else NONE, st))
def _get(e, st, xs, a, c):
    i = P(e, st, a[1])
    return ret(some(xs[i.a[1]]) if i.a[1] < len(xs) else NONE, st) if is_const(i, "int") else None
for _n in ("slice::get", "Vec::get", "NodeList::get"): conc(_n)(_get)
def mconc(*names):
    """Element-wise version for maps with literal keys."""
    def d(f):
        for name in names:
            def mkg(old):
                def g(e, st, a, c):
                    if e.unroll:
                        es = entries(P(e, st, a[0]))
                        if es is not None:
                            r = f(e, st, es, a, c)
                            if r is not None: return r
                    return old(e, st, a, c)
                return g
            MODELS[name] = mkg(MODELS[name])
        return f
    return d
@mconc("HashMap::keys", "BTreeMap::keys", "HashMap::into_keys", "Map::keys", "BTreeMap::into_keys")
def c_keys(e, st, es, a, c): return ret(mk("array", *[k for k, _ in es]), st)
@mconc("HashMap::values", "BTreeMap::values", "HashMap::into_values", "Map::values")
def c_values(e, st, es, a, c): return ret(mk("array", *[v for _, v in es]), st)
def kfork(e, st, es, k):
    """[(matching entry index or None, state)] of looking k up among literal keys."""
    if is_const(k) and all(is_const(x) for x, _ in es):
        for i, (x, _) in enumerate(es):
            if x is k: return [(i, st)]
        return [(None, st)]
    out = []; s = st
    for i, (x, _) in enumerate(es):
        done = True
        for b, s2 in e.fork_bool(s, eq(x, k)):
            if b: out.append((i, s2))
            else: s = s2; done = False
        if done: return out
    return out + [(None, s)]
@mconc("HashMap::get", "BTreeMap::get", "Map::get")
def c_mget(e, st, es, a, c):
    return [(some(es[i][1]) if i is not None else NONE, s) for i, s in kfork(e, st, es, P(e, st, a[1]))]
@mconc("HashMap::contains_key", "BTreeMap::contains_key", "Map::contains_key")
def c_haskey(e, st, es, a, c):
    return [(boolean(i is not None), s) for i, s in kfork(e, st, es, P(e, st, a[1]))]
@mconc("HashMap::remove", "BTreeMap::remove", "Map::remove")
def c_mrem(e, st, es, a, c):
    out = []
    for i, s in kfork(e, st, es, P(e, st, a[1])):
        upd(e, s, a[0], mapof([x for j, x in enumerate(es) if j != i]))
        out.append((some(es[i][1]) if i is not None else NONE, s))
    return out
MODELS["HashMap::remove_entry"] = lambda e, st, a, c: None
@mconc("HashMap::remove_entry")
def c_mreme(e, st, es, a, c):
    out = []
    for i, s in kfork(e, st, es, P(e, st, a[1])):
        upd(e, s, a[0], mapof([x for j, x in enumerate(es) if j != i]))
        out.append((some(tup(*es[i])) if i is not None else NONE, s))
    return out
@mconc("HashMap::insert", "BTreeMap::insert", "Map::insert")
def c_mins(e, st, es, a, c):
    out = []
    k = e.deep(st, a[1]); v = e.deep(st, a[2])
    for i, s in kfork(e, st, es, k):
        upd(e, s, a[0], mapof([x for j, x in enumerate(es) if j != i] + [(k, v)]))
        out.append((some(es[i][1]) if i is not None else NONE, s))
    return out

# --------------------------------------------------------- splitting known text
def pieces(t):
    """A text as literals and opaque pieces free of separators, or None."""
    xs = t.a if t.op == "cat" else (t,)
    for x in xs:
        if not (is_const(x, "str") or is_const(x, "char") or x.op == "tok"): return None
    return list(xs)
def sep_of(p):
    if is_const(p, "char") or is_const(p, "str"): return [p.a[1]]
    if p.op == "array" and all(is_const(x, "char") for x in p.a): return [x.a[1] for x in p.a]
    return None
def seps_of(e, st, p):
    s = sep_of(p)
    if s is not None: return s
    if p.op in ("closure", "fn"):
        out = []
        for ch in "&=;,+% {}[]:?#/":
            v, _ = e.value_of(st, p, [const("char", ch)])
            if v is TRUE: out.append(ch)
            elif v is not FALSE: return None
        return out
    return None
def cut(t, seps, e=None):
    """The parts of t between separators.  Opaque texts contain none of the template's own separators
    (e.separators, when a rule states them) and may contain anything else."""
    xs = pieces(t)
    if xs is None: return None
    if e is not None and e.separators is not None and not set(seps) <= set(e.separators) and any(x.op == "tok" for x in xs): return None
    if any(not s or not isinstance(s, str) for s in seps): return None
    out = [[]]
    for x in xs:
        if x.op == "tok": out[-1].append(x); continue
        s = x.a[1]
        while s:
            best = None
            for q in seps:
                i = s.find(q)
                if i >= 0 and (best is None or i < best[0]): best = (i, q)
            if best is None: out[-1].append(string(s)); break
            i, q = best
            if i: out[-1].append(string(s[:i]))
            out.append([]); s = s[i + len(q):]
    return [cat(*y) if y else string("") for y in out]
def joinp(xs, sep):
    out = []
    for i, x in enumerate(xs):
        if i: out.append(string(sep))
        out.append(x)
    return cat(*out)
@model("str::split", "str::split_terminator")
def m_split(e, st, a, c):
    t, p = P(e, st, a[0]), P(e, st, a[1])
    q = seps_of(e, st, p) if e.unroll else sep_of(p)
    xs = cut(t, q, e) if e.unroll and q else None
    if xs is not None:
        if c["path"].endswith("terminator") and xs and xs[-1] is string(""): xs = xs[:-1]
        return ret(mk("array", *xs), st)
    return ret(mk("app", "str::split", t, p), st)
@model("str::rsplit")
def m_rsplit(e, st, a, c):
    t, p = P(e, st, a[0]), P(e, st, a[1])
    q = sep_of(p)
    xs = cut(t, q, e) if e.unroll and q else None
    return None if xs is None else ret(mk("array", *xs[::-1]), st)
@model("str::splitn", "str::rsplitn")
def m_splitn(e, st, a, c):
    t, n, p = P(e, st, a[0]), P(e, st, a[1]), P(e, st, a[2])
    q = sep_of(p)
    xs = cut(t, q, e) if e.unroll and q and len(q) == 1 and is_const(n, "int") else None
    if xs is None: return None
    k = n.a[1]
    if len(xs) > k:
        if c["path"].endswith("rsplitn"): xs = [joinp(xs[:len(xs) - k + 1], q[0])] + xs[len(xs) - k + 1:]
        else: xs = xs[:k - 1] + [joinp(xs[k - 1:], q[0])]
    if c["path"].endswith("rsplitn"): xs = xs[::-1]
    return ret(mk("array", *xs), st)
@model("str::split_once", "str::rsplit_once")
def m_split_once(e, st, a, c):
    t, p = P(e, st, a[0]), P(e, st, a[1])
    name = c["path"].split("::")[-1]
    q = sep_of(p)
    xs = cut(t, q, e) if e.unroll and q and len(q) == 1 else None
    if xs is None: return ret(mk("app", "str::" + name, t, p), st)
    if len(xs) == 1: return ret(NONE, st)
    if name == "split_once": return ret(some(tup(xs[0], joinp(xs[1:], q[0]))), st)
    return ret(some(tup(joinp(xs[:-1], q[0]), xs[-1])), st)
@model("str::find", "str::rfind")
def m_sfind(e, st, a, c):
    t, p = P(e, st, a[0]), P(e, st, a[1])
    q = sep_of(p)
    xs = cut(t, q, e) if e.unroll and q and len(q) == 1 else None
    if xs is None: return None
    if len(xs) == 1: return ret(NONE, st)
    return ret(some(mk("at", t, "first" if c["path"].endswith("::find") else "last", q[0])), st)
@model("str::split_at")
def m_split_at(e, st, a, c):
    t, i = P(e, st, a[0]), P(e, st, a[1])
    r = slice_at(t, None, i), slice_at(t, i, None)
    return None if None in r else ret(tup(*r), st)
def slice_at(t, lo, hi):
    """t[lo..hi] where the ends are positions found by searching t."""
    def posn(i):
        d = 0
        if i.op == "Add" and is_const(i.a[1], "int"): d = i.a[1].a[1]; i = i.a[0]
        if is_const(i, "int") and d == 0:
            x = t.a[0] if t.op == "cat" else t
            if not is_const(x, "str") or len(x.a[1].encode("utf8", "replace")) < i.a[1]: return None
            try: b = x.a[1].encode("utf8"); lo_, hi_ = b[:i.a[1]].decode("utf8"), b[i.a[1]:].decode("utf8")
            except UnicodeError: return None
            return string(lo_), cat(string(hi_), *(t.a[1:] if t.op == "cat" else ()))
        if i.op != "at" or i.a[0] is not t: return None
        xs = cut(t, [i.a[2]])
        k = 1 if i.a[1] == "first" else len(xs) - 1
        before, after = joinp(xs[:k], i.a[2]), joinp(xs[k:], i.a[2])
        if d == 0: return before, cat(string(i.a[2]), after)
        if d == len(i.a[2]): return cat(before, string(i.a[2])), after
        return None
    if hi is not None and lo is None:
        r = posn(hi); return r[0] if r else None
    if lo is not None and hi is None:
        r = posn(lo); return r[1] if r else None
    return None


# ------------------------------------------------------------------ JSON values
JVAR = ["Null", "Bool", "Number", "String", "Array", "Object"]
def jas(variant):
    def f(e, st, a, c):
        out = []
        for v, s, x in e.fork_variant(st, a[0], JVAR):
            out.append((some(field(x, variant, "0")) if v == variant else NONE, s))
        return out
    return f
for _m, _v in (("as_str", "String"), ("as_bool", "Bool"), ("as_array", "Array"), ("as_object", "Object"), ("as_number", "Number")):
    MODELS["Value::" + _m] = jas(_v)
def jis(variant):
    def f(e, st, a, c): return ret(is_variant(P(e, st, a[0]), variant), st)
    return f
for _m, _v in (("is_string", "String"), ("is_boolean", "Bool"), ("is_array", "Array"), ("is_object", "Object"), ("is_number", "Number"), ("is_null", "Null")):
    MODELS["Value::" + _m] = jis(_v)
def jnull(): return adt(JV, "Null", True, ())
def jstring(t): return adt(JV, "String", True, (("0", t),))
@model("serde_json::to_value", "value::to_value")
def m_to_value(e, st, a, c):
    t = (c["targs"] or [""])[0]
    if STRINGY.match(t): return ret(ok(jstring(P(e, st, a[0]))), st)
    return None
@model("serde_json::to_string", "ser::to_string")
def m_jtos(e, st, a, c):
    t = (c["targs"] or [""])[0].lstrip("&")
    if t == JV: return ret(ok(jsontext(P(e, st, a[0]))), st)
    return None
@model("Regex::is_match", "Regex::find", "Regex::captures")
def m_rematch(e, st, a, c):
    b = mk("bapp", "rematch", P(e, st, a[0]), P(e, st, a[1]))
    n = c["path"].split("::")[-1]
    if n == "is_match": return ret(b, st)
    return [(some(mk("app", n, P(e, st, a[0]), P(e, st, a[1]))) if v else NONE, s) for v, s in e.fork_bool(st, b)]

import models_more  # noqa: E402  (registers further models)
