"""Rules for vercre-macros: what each request macro accepts and what it generates.

The four public macros are analysed end to end on input templates: a token tree
whose shape and keys are known (or, for one key, opaque) and whose values are
opaque texts, identifiers, expressions, arrays or objects.  syn's cursor and
quote's runtime are modelled on token lists, so the result of a macro is a token
list too; it is read back as a Rust expression and compared, field by field, with
what the template says."""
import itertools, re
from registry import prop
from terms import *
from engine import State, shortpath
import models
from models import MODELS, P, upd, arr
from r_core import TRUST

C = "vercre_macros"
def tok(n): return mk("tok", n)

# ------------------------------------------------------------------ token lists
def tk(kind, v, *r): return mk("tk", kind, v, *r)
def I(name): return tk("id", name)
def PU(c): return tk("p", c)
def L(t): return tk("str", t)
def G(d, *xs): return tk("group", d, mk("array", *xs))
DELIM = {"Parenthesis": "(", "Brace": "{", "Bracket": "[", "None": ""}
SYN = {"Comma": ",", "Colon": ":", "And": "&", "PathSep": "::", "Dot": ".", "Semi": ";", "Bang": "!", "Not": "!", "Eq": "=",
       "FatArrow": "=>", "Minus": "-", "Plus": "+", "Star": "*", "Lt": "<", "Gt": ">", "Question": "?", "Or": "|", "At": "@", "Pound": "#", "Dollar": "$", "RArrow": "->", "DotDot": ".."}
PUSH = {"add": "+", "and": "&", "bang": "!", "colon": ":", "colon2": "::", "comma": ",", "dot": ".", "eq": "=", "fat_arrow": "=>", "question": "?",
        "semi": ";", "star": "*", "sub": "-", "lt": "<", "gt": ">", "or": "|", "pound": "#", "dot2": "..", "dot3": "...", "and_and": "&&", "or_or": "||", "rarrow": "->", "at": "@",
        "shr": ">>", "shl": "<<", "eq_eq": "==", "ne": "!=", "le": "<=", "ge": ">=", "caret": "^", "div": "/", "rem": "%", "dollar": "$", "dot_dot_eq": "..="}
LITS = {"LitStr": "str", "LitInt": "int", "LitBool": "bool"}

def failed(what): return err(mk("synerr", what if not isinstance(what, str) else string(what)))

BINOPS = set("+ - * / % ^ & | && || == != < > <= >= << >> .. ..= = += -=".split())
def parts_of(xs):
    """The comma-separated parts of a token list; an empty last part (a trailing comma, or nothing at all) is left out."""
    ps = [[]]
    for x in xs:
        if x.a[0] == "p" and x.a[1] == ",": ps.append([])
        else: ps[-1].append(x)
    return ps[:-1] if not ps[-1] else ps
def expr_len(xs):
    """How many tokens the expression at the start of the list takes; 0 if there is none."""
    def k(i): return xs[i].a[0] if i < len(xs) else None
    def p(i, c): return k(i) == "p" and xs[i].a[1] == c
    def g(i, d): return k(i) == "group" and xs[i].a[1] == d
    def inside(i):
        """Arguments, elements or a parenthesised expression: each an expression as a whole."""
        return xs[i].a[1] == "{" or all(q and expr_len(q) == len(q) for q in parts_of(arr(xs[i].a[2])))
    def unary(i):
        while k(i) == "p" and xs[i].a[1] in ("&", "&&", "-", "!", "*"):
            i += 1
            if k(i) == "id" and xs[i].a[1] == "mut": i += 1
        if p(i, "::"): i += 1
        if k(i) == "id":
            i += 1
            while p(i, "::"):
                if k(i + 1) != "id": return None
                i += 2
            if p(i, "!") and k(i + 1) == "group": i += 2
            elif g(i, "{"): i += 1
        elif k(i) in ("str", "int", "bool", "lit"): i += 1
        elif k(i) == "group" and inside(i): i += 1
        else: return None
        while True:
            if p(i, "."):
                if k(i + 1) not in ("id", "int"): return None
                i += 2
            elif g(i, "(") or g(i, "["):
                if not inside(i): return None
                i += 1
            elif p(i, "?"): i += 1
            else: return i
    i = unary(0)
    while i is not None and k(i) == "p" and xs[i].a[1] in BINOPS: i = unary(i + 1)
    return i or 0

class Syn:
    """Models of syn's parser and quote's runtime over token lists."""
    def __init__(self, p): self.p = p
    def body(self, ty, trait, name):
        for b in self.p.bodies.values():
            if b.get("name") == name and trait in (b.get("impl_trait") or "") and (b.get("self_ty") or "") == ty: return b
        for b in self.p.bodies.values():
            if b["path"] == f"<{ty} as {trait}>::{name}": return b
        return None
    def run(self, e, st, b, args):
        fr, blk, site, c, aty, rty = save = e._ctx
        self.n += 1
        try:
            if len(e.stack) > e.max_depth: return [(mk("app", "too-deep"), st)]
            return e.exec_body(b, args, st, fr.path + (f"{site}#{self.n}",))
        finally: e._ctx = save
    # -------------------------------------------------------------- the cursor
    def toks(self, e, st, buf):
        v = st.heap.get(mk("stream", buf))
        return None if v is None else arr(v)
    def put(self, st, buf, xs): st.heap[mk("stream", buf)] = mk("array", *xs)
    def buf(self, e, st, a):
        b = P(e, st, a)
        while b.op in ("ref",): b = b.a[0]
        return b
    def under(self, x, b):
        while x is not b:
            if x.op != "buf": return False
            x = x.a[0]
        return True
    def kind_of(self, t):
        m = re.search(r"syn::token::(\w+)", t)
        if m: return ("tok", m.group(1))
        m = re.search(r"(LitStr|LitInt|LitBool|LitFloat|LitChar|Lit)\b", t)
        if m: return ("lit", m.group(1))
        if re.search(r"Ident\b", t): return ("id",)
        return None
    def is_kind(self, k, t):
        """Whether a token starts the syntax k; None if unknown."""
        if k is None: return None
        if t is None: return False
        if k[0] == "id": return t.a[0] == "id"
        if k[0] == "lit": return t.a[0] in ("str", "int", "bool") if k[1] == "Lit" else t.a[0] == LITS.get(k[1])
        n = k[1]
        if n in ("Brace", "Bracket", "Paren"): return t.a[0] == "group" and t.a[1] == {"Brace": "{", "Bracket": "[", "Paren": "("}[n]
        if n in SYN: return t.a[0] == "p" and t.a[1] == SYN[n]
        return None
    def parse(self, e, st, buf, ty):
        """[(Result, state)] of parsing a `ty` off the stream."""
        xs = self.toks(e, st, buf)
        if xs is None: return None
        ty = ty.strip()
        m = re.match(r"std::option::Option<(.*)>$", ty)
        b = self.body(ty, "syn::parse::Parse", "parse")
        if b is not None: return self.run(e, st, b, [buf])
        if ty.endswith("syn::Expr") or ty == "syn::Expr":
            i = expr_len(xs)
            if not i: return [(failed("expected expression"), st)]
            self.put(st, buf, xs[i:]); return [(ok(mk("array", *xs[:i])), st)]
        if ty.endswith("proc_macro2::TokenStream"):
            self.put(st, buf, []); return [(ok(mk("array", *xs)), st)]
        k = self.kind_of(ty)
        y = self.is_kind(k, xs[0] if xs else None)
        if y is None: return None
        if m: return [(ok(NONE), st)] if not y else self._some(st, buf, xs)
        if not y: return [(failed("expected " + ty), st)]
        self.put(st, buf, xs[1:])
        if k == ("lit", "Lit"): return [(ok(adt("syn::Lit", {"str": "Str", "int": "Int", "bool": "Bool"}[xs[0].a[0]], True, (("0", xs[0]),))), st)]
        return [(ok(xs[0]), st)]
    def _some(self, st, buf, xs):
        self.put(st, buf, xs[1:]); return [(ok(some(xs[0])), st)]
    def install(self, e):
        self.n = 0
        M = e.models = dict(MODELS)
        S = self
        def m(*names):
            def d(f):
                for n in names: M[n] = f
                return f
            return d
        @m("ParseBuffer::parse")
        def _(e, st, a, c): return S.parse(e, st, S.buf(e, st, a[0]), c["targs"][0])
        @m("Parse::parse")
        def _(e, st, a, c): return S.parse(e, st, S.buf(e, st, a[0]), c["targs"][0])
        def peeker(n):
            def f(e, st, a, c):
                b = S.buf(e, st, a[0])
                if b.op == "lookahead": b = b.a[0]
                xs = S.toks(e, st, b)
                if xs is None: return None
                y = S.is_kind(S.kind_of(" ".join(c["targs"])), xs[n] if n < len(xs) else None)
                return None if y is None else [(boolean(y), st)]
            return f
        M["ParseBuffer::peek"] = M["Lookahead1::peek"] = peeker(0); M["ParseBuffer::peek2"] = peeker(1); M["ParseBuffer::peek3"] = peeker(2)
        @m("ParseBuffer::lookahead1")
        def _(e, st, a, c): return [(mk("lookahead", S.buf(e, st, a[0])), st)]
        @m("Lookahead1::error")
        def _(e, st, a, c): return [(mk("synerr", string("unexpected token")), st)]
        @m("ParseBuffer::error", "Error::new_spanned", "Error::new")
        def _(e, st, a, c): return [(mk("synerr", P(e, st, a[1])), st)]
        @m("ParseBuffer::is_empty")
        def _(e, st, a, c):
            xs = S.toks(e, st, S.buf(e, st, a[0]))
            return None if xs is None else [(boolean(not xs), st)]
        @m("ParseBuffer::span", "Span::call_site", "Span::mixed_site", "LitStr::span", "Lit::span", "LitInt::span", "LitBool::span", "Ident::span", "Spanned::span")
        def _(e, st, a, c): return [(mk("param", "span"), st)]
        @m("Error::span")
        def _(e, st, a, c): return [(mk("param", "span"), st)]
        def enter(delim, tyname):
            def f(e, st, a, c):
                b = S.buf(e, st, a[0]); xs = S.toks(e, st, b)
                if xs is None: return None
                if not xs or xs[0].a[0] != "group" or xs[0].a[1] != delim: return [(failed("expected " + delim), st)]
                inner = mk("buf", b, len(xs))
                st.heap[mk("stream", inner)] = xs[0].a[2]; S.put(st, b, xs[1:])
                return [(ok(adt("syn::__private::" + tyname, tyname, False, (("token", UNIT), ("content", inner)))), st)]
            return f
        M["__private::parse_braces"] = enter("{", "Braces"); M["__private::parse_brackets"] = enter("[", "Brackets"); M["__private::parse_parens"] = enter("(", "Parens")
        @m("Punctuated::parse_terminated", "ParseBuffer::parse_terminated")
        def _(e, st, a, c):
            b = S.buf(e, st, a[0]); ty = c["targs"][0]
            out = []; work = [(st, [])]; n = 0
            while work:
                s, acc = work.pop(); n += 1
                if n > 400: return None
                xs = S.toks(e, s, b)
                if xs is None: return None
                if not xs: out.append((ok(mk("array", *acc)), s)); continue
                rs = S.parse(e, s, b, ty)
                if rs is None: return None
                for v, s2 in rs:
                    v = e.simp(s2, v)
                    if v.op != "adt" or v.a[0] != RES: return None
                    x = v.a[3][0][1]
                    if v.a[1] == "Err": out.append((err(x), s2)); continue
                    ys = S.toks(e, s2, b)
                    if ys:
                        if not S.is_kind(("tok", "Comma"), ys[0]): out.append((failed("expected `,`"), s2)); continue
                        S.put(s2, b, ys[1:])
                    work.append((s2, acc + [x]))
            return out
        @m("Punctuated::into_pairs", "Punctuated::into_iter", "Punctuated::iter", "Punctuated::pairs", "Pair::into_value", "Pair::value", "Punctuated::into_values")
        def _(e, st, a, c): return [(P(e, st, a[0]), st)]
        @m("Punctuated::len")
        def _(e, st, a, c): return [(length(P(e, st, a[0])), st)]
        @m("Punctuated::is_empty")
        def _(e, st, a, c): return [(empty(P(e, st, a[0])), st)]
        @m("LitStr::value", "LitBool::value")
        def _(e, st, a, c):
            v = P(e, st, a[0]); return [(v.a[1], st)] if v.op == "tk" else None
        @m("LitInt::base10_parse")
        def _(e, st, a, c):
            v = P(e, st, a[0]); return [(ok(v.a[1]), st)] if v.op == "tk" else None
        def synparse(e, st, a, c):
            v = P(e, st, a[0]); xs = arr(v)
            if xs is None: return None
            b = mk("buf", v, -1); st.heap[mk("stream", b)] = v
            rs = S.parse(e, st, b, c["targs"][0])
            if rs is None: return None
            out = []
            for r, s in rs:
                r = e.simp(s, r)
                # tokens left over, in the input or in a group that was entered, are an error
                if r.op == "adt" and r.a[1] == "Ok" and any(k.op == "stream" and S.under(k.a[0], b) and arr(v) for k, v in s.heap.items() if isinstance(k, Term)): r = failed("unexpected token")
                out.append((r, s))
            return out
        for n in ("syn::parse", "syn::parse2", "syn::parse_macro_input::parse"): M[n] = M[shortpath(n)] = synparse
        @m("Error::to_compile_error", "Error::into_compile_error")
        def _(e, st, a, c):
            v = P(e, st, a[0]); return [(mk("array", tk("cerr", v.a[0] if v.op == "synerr" else v)), st)]
        # ------------------------------------------------------------- quote
        def add(e, st, ref, *xs):
            v = P(e, st, ref)
            ys = arr(v)
            if ys is None: upd(e, st, ref, mk("array", tk("unknown", v), *xs))
            else: upd(e, st, ref, mk("array", *ys, *xs))
            return [(UNIT, st)]
        @m("TokenStream::new")
        def _(e, st, a, c): return [(mk("array"), st)]
        @m("__private::push_ident", "__private::push_ident_spanned")
        def _(e, st, a, c):
            v = P(e, st, a[-1]); return add(e, st, a[0], I(v.a[1])) if is_const(v, "str") else None
        for n, ch in PUSH.items():
            M["__private::push_" + n] = M["__private::push_" + n + "_spanned"] = (lambda ch: lambda e, st, a, c: add(e, st, a[0], PU(ch)))(ch)
        @m("__private::push_group", "__private::push_group_spanned")
        def _(e, st, a, c):
            d = P(e, st, a[-2]); v = P(e, st, a[-1]); xs = arr(v)
            if xs is None: return None
            n = d.a[1] if d.op == "adt" else None
            if n not in DELIM: return None
            return add(e, st, a[0], *xs) if not DELIM[n] else add(e, st, a[0], tk("group", DELIM[n], mk("array", *xs)))
        @m("__private::parse", "__private::parse_spanned")
        def _(e, st, a, c):
            v = P(e, st, a[-1])
            if not is_const(v, "str"): return None
            s = v.a[1]
            if re.fullmatch(r'"[^"\\]*"', s): return add(e, st, a[0], L(string(s[1:-1])))
            if re.fullmatch(r"\d+", s): return add(e, st, a[0], tk("int", integer(int(s))))
            return None
        @m("__private::push_underscore", "__private::push_underscore_spanned")
        def _(e, st, a, c): return add(e, st, a[0], I("_"))
        @m("__private::push_literal")
        def _(e, st, a, c): return M["__private::parse"](e, st, a, c)
        def toks_of(e, st, v, ty):
            """[(token list, state)] a value of this type turns into."""
            ty = re.sub(r"^(&(mut )?('\w+ )?)+", "", ty)
            while v.op == "ref": v = v.a[0]
            m_ = re.match(r"(?:quote::__private::RepInterp|std::boxed::Box|std::rc::Rc)<(.*)>$", ty)
            if m_:
                if v.op == "adt" and v.a[0].endswith("RepInterp"): v = P(e, st, v.a[3][0][1])
                return toks_of(e, st, v, m_.group(1))
            m_ = re.match(r"std::option::Option<(.*)>$", ty)
            if m_:
                if v.op != "adt": return None
                return [([], st)] if v.a[1] == "None" else toks_of(e, st, v.a[3][0][1], m_.group(1))
            b = S.body(ty, "quote::ToTokens", "to_tokens")
            if b is not None:
                t = mk("scratch", S.n); st.heap[t] = mk("array"); S.n += 1
                out = []
                for _, s in S.run(e, st, b, [v, t]):
                    ys = arr(s.heap.get(t, mk("param", "x")))
                    if ys is None: return None
                    s.heap.pop(t, None); out.append((ys, s))
                return out
            if ty.endswith(("TokenStream", "syn::Expr", "TokenTree")):
                ys = arr(v)
                return None if ys is None else [(ys, st)]
            if ty.endswith(("LitStr", "LitInt", "LitBool", "Ident", "syn::Lit")): return [([v], st)] if v.op == "tk" else None
            if ty in ("std::string::String", "str"): return [([L(v)], st)]
            if ty == "bool": return [([tk("bool", v)], st)]
            if re.fullmatch(r"[iu](8|16|32|64|128|size)", ty): return [([tk("int", v)], st)]
            if "::" not in ty or ty.startswith(("impl ", "dyn ")):
                # a type parameter: the value itself tells what it is
                if v.op == "array" and all(x.op == "tk" for x in v.a): return [(list(v.a), st)]
                if v.op == "tk": return [([v], st)]
                if is_const(v, "str"): return [([L(v)], st)]
                if is_const(v, "bool"): return [([tk("bool", v)], st)]
                if v.op == "adt" and v.a[0] != ty:
                    if v.a[0] == OPT: return [([], st)] if v.a[1] == "None" else toks_of(e, st, v.a[3][0][1], ty)
                    return toks_of(e, st, v, v.a[0])
            return None
        @m("ToTokens::to_tokens", "TokenStreamExt::append_all")
        def _(e, st, a, c):
            rs = toks_of(e, st, P(e, st, a[0]), c["targs"][0])
            if rs is None: return None
            return [r for xs, s in rs for r in add(e, s, a[1], *xs)]
        @m("ToTokens::to_token_stream", "ToTokens::into_token_stream")
        def _(e, st, a, c):
            rs = toks_of(e, st, P(e, st, a[0]), c["targs"][0])
            return None if rs is None else [(mk("array", *xs), s) for xs, s in rs]
        oldext = M.get("Extend::extend")
        @m("Extend::extend")
        def _(e, st, a, c):
            if "TokenStream" not in c["targs"][0]: return oldext(e, st, a, c) if oldext else None
            rs = flat(e, st, P(e, st, a[1]))
            return None if rs is None else add(e, st, a[0], *rs)
        def flat(e, st, v):
            ys = arr(v)
            if ys is None: return None
            out = []
            for y in ys:
                if y.op == "tk": out.append(y)
                else:
                    z = flat(e, st, y)
                    if z is None: return None
                    out += z
            return out
        oldcol = M.get("Iterator::collect")
        @m("Iterator::collect", "FromIterator::from_iter")
        def _(e, st, a, c):
            if "TokenStream" not in (e._ctx[5] or "") or "Vec<" in e._ctx[5] or "Result<std" in e._ctx[5]: return oldcol(e, st, a, c)
            v = P(e, st, a[0])
            if e._ctx[5].startswith("std::result::Result"):
                r = oldcol(e, st, a, c)
                if r is None: return None
                out = []
                for v, s in r:
                    v = e.simp(s, v)
                    if v.op == "adt" and v.a[1] == "Ok":
                        z = flat(e, s, v.a[3][0][1])
                        if z is None: return None
                        v = ok(mk("array", *z))
                    out.append((v, s))
                return out
            if e.unroll and v.op != "array":
                r = oldcol(e, st, a, c)
                if r is None or len(r) != 1: return None
                v, st = r[0]
            z = flat(e, st, v)
            return None if z is None else [(mk("array", *z), st)]
        oldinto = M["Into::into"]
        def into(e, st, a, c):
            if c["targs"] and any("TokenStream" in t for t in c["targs"][:2]): return [(P(e, st, a[0]), st)]
            return oldinto(e, st, a, c)
        M["Into::into"] = M["From::from"] = into
        @m("RepIteratorExt::quote_into_iter", "RepAsIteratorExt::quote_into_iter", "RepToTokensExt::quote_into_iter")
        def _(e, st, a, c): return [(tup(P(e, st, a[0]), UNIT), st)]
        @m("RepToTokensExt::next")
        def _(e, st, a, c): return [(some(P(e, st, a[0])), st)]
        @m("CheckHasIterator::check", "BitOr::bitor")
        def _(e, st, a, c): return [(UNIT, st)]
        @m("Ident::new")
        def _(e, st, a, c):
            v = P(e, st, a[0]); return [(I(v.a[1]), st)] if is_const(v, "str") else None
        @m("__private::mk_ident")
        def _(e, st, a, c):
            v = P(e, st, a[0])
            xs = [v] if v.op != "cat" else list(v.a)
            def bare(x):
                x = P(e, st, x)
                while x.op in ("display", "ref"): x = P(e, st, x.a[0])
                if x.op == "adt" and x.a[0].endswith("IdentFragmentAdapter"): return bare(x.a[3][0][1])
                if x.op == "tk" and x.a[0] == "id": return x.a[1].a[1] if hasattr(x.a[1], "a") else x.a[1]
                return x.a[1] if is_const(x, "str") or is_const(x, "int") else None
            ys = [bare(x) for x in xs]
            return None if any(y is None for y in ys) else [(I("".join(map(str, ys))), st)]
        @m("IdentFragmentAdapter::span")
        def _(e, st, a, c): return [(NONE, st)]
        @m("slice::sort", "slice::sort_by", "slice::sort_by_key", "slice::sort_unstable", "slice::sort_unstable_by", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
        def _(e, st, a, c):
            """Sorting may permute: the reverse stands for every order but the original (only a result that does not depend on the order passes)."""
            xs = arr(P(e, st, a[0]))
            if xs is None: return None
            upd(e, st, a[0], mk("array", *reversed(xs)))
            return [(UNIT, st)]
        @m("TokenStream::is_empty")
        def _(e, st, a, c): return [(empty(P(e, st, a[0])), st)]

# ----------------------------------------------------- reading generated code
CONV = {"into", "to_string", "to_owned", "clone", "as_str", "as_ref"}
class Bad(Exception): pass
def parse_expr(xs):
    v, r = _expr(list(xs))
    if r: raise Bad("trailing tokens " + show(r))
    return v
def show(xs):
    out = []
    for x in xs:
        if x.a[0] == "group": out.append(x.a[1] + show(arr(x.a[2])) + {"(": ")", "[": "]", "{": "}"}[x.a[1]])
        elif x.a[0] in ("id", "p"): out.append(x.a[1])
        else: out.append(f"<{x.a[0]} {ap(x.a[1])}>")
    return " ".join(out)
def split_commas(xs):
    out = [[]]; depth = 0
    for x in xs:
        if isp(x, "<") and (depth or out[-1] and isp(out[-1][-1], "::")): depth += 1     # generic arguments
        elif depth and isp(x, ">"): depth -= 1
        elif depth and isp(x, ">>"): depth = max(0, depth - 2)
        if x.a[0] == "p" and x.a[1] == "," and not depth: out.append([])
        else: out[-1].append(x)
    if not out[-1]: out.pop()
    if any(not o for o in out): raise Bad("stray comma")
    return out
def isp(x, c): return x.a[0] == "p" and x.a[1] == c
def skip_generics(xs):
    """Drop the generic arguments `< .. >` at the head: types are the compiler's business."""
    if not xs or not isp(xs[0], "<"): return xs
    depth = 0
    for i, x in enumerate(xs):
        if isp(x, "<"): depth += 1
        elif isp(x, "<<"): depth += 2
        elif isp(x, ">"): depth -= 1
        elif isp(x, ">>"): depth -= 2
        if depth <= 0: return xs[i + 1:]
    raise Bad("unclosed generic arguments")
def _expr(xs):
    if not xs: raise Bad("missing expression")
    x = xs[0]
    if isp(x, "&"):
        return _expr(xs[1:])
    if x.a[0] in ("str", "int", "bool"): v = ("lit", x.a[1]); xs = xs[1:]
    elif x.a[0] == "group" and x.a[1] == "(":
        es = split_commas(arr(x.a[2])); xs = xs[1:]
        v = parse_expr(es[0]) if len(es) == 1 else ("tuple", tuple(parse_expr(i) for i in es))
    elif x.a[0] == "group" and x.a[1] == "[":
        v = ("list", tuple(parse_expr(i) for i in split_commas(arr(x.a[2])))); xs = xs[1:]
    elif x.a[0] == "id" or isp(x, "::"):
        path = []
        if isp(x, "::"): xs = xs[1:]
        while xs and xs[0].a[0] == "id":
            path.append(xs[0].a[1]); xs = xs[1:]
            if xs and isp(xs[0], "::"):
                xs = xs[1:]
                if xs and isp(xs[0], "<"):
                    xs = skip_generics(xs)
                    if xs and isp(xs[0], "::"): xs = xs[1:]
            else: break
        p = "::".join(path)
        if p in ("true", "false"): v = ("lit", boolean(p == "true"))
        else: v = ("path", p)
        if xs and isp(xs[0], "!"):
            g = xs[1]; xs = xs[2:]
            if p not in ("vec", "std::vec"): raise Bad("macro " + p)
            v = ("list", tuple(parse_expr(i) for i in split_commas(arr(g.a[2]))))
        elif xs and xs[0].a[0] == "group" and xs[0].a[1] == "{":
            fs = {}
            for f in split_commas(arr(xs[0].a[2])):
                if f[0].a[0] != "id": raise Bad("field name")
                n = f[0].a[1]
                if n in fs: raise Bad("duplicate field " + n)
                if len(f) == 1: fs[n] = ("path", n)
                elif isp(f[1], ":"): fs[n] = parse_expr(f[2:])
                else: raise Bad("field " + n)
            v = ("struct", p, fs); xs = xs[1:]
    else: raise Bad("token " + show([x]))
    while xs:
        if xs[0].a[0] == "group" and xs[0].a[1] == "(":
            es = [parse_expr(i) for i in split_commas(arr(xs[0].a[2]))]; xs = xs[1:]
            v = ("call", v, tuple(es))
        elif isp(xs[0], ".") and len(xs) > 1 and xs[1].a[0] == "id":
            n = xs[1].a[1]; xs = xs[2:]
            if len(xs) > 1 and isp(xs[0], "::") and isp(xs[1], "<"): xs = skip_generics(xs[1:])
            if xs and xs[0].a[0] == "group" and xs[0].a[1] == "(":
                es = [parse_expr(i) for i in split_commas(arr(xs[0].a[2]))]; xs = xs[1:]
                v = ("method", v, n, tuple(es))
            else: v = ("member", v, n)
        elif isp(xs[0], "?"): raise Bad("?")
        else: raise Bad("tokens " + show(xs))
    return v, xs
def conv(x): return x if x[0] == "conv" else ("conv", x)
def bare(x): return x[1] if x[0] == "conv" else x
TYPES = re.compile(r"^(vercre_issuer|vercre_openid(::issuer)?|crate)::")
CONVF = {("Into", "into"), ("From", "from"), ("String", "from"), ("ToString", "to_string"), ("ToOwned", "to_owned")}
def mapped(x):
    d = []
    for t in x[1]:
        if t[0] != "tuple" or len(t[1]) != 2: raise Bad("map entry")
        d.append((t[1][0], t[1][1]))
    return ("map", tuple(sorted(d, key=repr)))
def norm(v):
    """Conversions become one marker, the crate prefix is dropped, options and maps become structural."""
    k = v[0]
    if k == "path":
        p = TYPES.sub("", v[1])
        if p in ("None", "Option::None", "std::option::Option::None", "core::option::Option::None"): return ("none",)
        return ("path", p)
    if k == "call":
        f = norm(v[1]); a = [norm(x) for x in v[2]]
        if f[0] == "path":
            n = f[1]; l2 = n.split("::")[-2:]
            if l2[-1] == "Some" and len(a) == 1: return ("some", a[0])
            if tuple(l2) in CONVF and len(n.split("::")) <= 4 and len(a) == 1: return conv(a[0])
            if l2 in (["HashMap", "from"], ["HashMap", "from_iter"], ["FromIterator", "from_iter"]) and len(a) == 1 and a[0][0] == "list": return mapped(a[0])
            if l2 == ["Vec", "from"] and len(a) == 1 and a[0][0] == "list": return a[0]
            if l2 == ["Vec", "new"] and not a: return ("list", ())
            if l2 == ["HashMap", "new"] and not a: return ("map", ())
            if n.endswith("ClaimDefinition::default") and not a: return ("default", "ClaimDefinition")
        return ("call", f, tuple(a))
    if k == "method":
        x = norm(v[1])
        if v[2] in CONV and not v[3]: return conv(x) if v[2] != "clone" else ("method", x, v[2], ())
        if v[2] in ("unwrap", "expect", "unwrap_or_default") and x[0] == "some": return x[1]
        if v[2] in ("to_vec", "into_iter", "into_vec") and x[0] == "list" and not v[3]: return x
        if v[2] == "collect" and x[0] == "list" and not v[3]:
            if not x[1]: return ("collected",)     # an empty collection of whatever type the field has
            return mapped(x) if all(t[0] == "tuple" and len(t[1]) == 2 for t in x[1]) else x
        return ("method", x, v[2], tuple(norm(y) for y in v[3]))
    if k == "member": return ("member", norm(v[1]), v[2])
    if k in ("list", "tuple"): return (k, tuple(norm(x) for x in v[1]))
    if k == "struct":
        n = norm(("path", v[1]))[1]
        fs = {f: norm(x) for f, x in v[2].items()}
        if n == "ClaimDefinition" and all(x == ("none",) for x in fs.values()): return ("default", "ClaimDefinition")
        return ("struct", n, tuple(sorted(fs.items())))
    return v
def same(want, got, at=""):
    """First difference between the expected and the generated expression, or None.
    A conversion is required where expected and tolerated elsewhere."""
    if want[0] == "conv" and got[0] != "conv": return f"{at}: not converted to the field's type: {pretty(got)}"
    w, g = bare(want), bare(got)
    if g == ("collected",) and w in (("list", ()), ("map", ())): return None
    if w[0] != g[0]: return f"{at}: expected {pretty(w)}, generated {pretty(g)}"
    if w[0] in ("some",): return same(w[1], g[1], at)
    if w[0] in ("list", "tuple"):
        if len(w[1]) != len(g[1]): return f"{at}: expected {pretty(w)}, generated {pretty(g)}"
        for i, (x, y) in enumerate(zip(w[1], g[1])):
            d = same(x, y, f"{at}[{i}]")
            if d: return d
        return None
    if w[0] == "map":
        ws = {bare(k): v for k, v in w[1]}; gs = {bare(k): v for k, v in g[1]}
        if len(gs) != len(g[1]) or set(ws) != set(gs): return f"{at}: expected keys {[pretty(k) for k in ws]}, generated {[pretty(k) for k in gs]}"
        for k in ws:
            d = same(ws[k], gs[k], f"{at}[{pretty(k)}]")
            if d: return d
        return None
    if w[0] == "struct":
        if w[1] != g[1]: return f"{at}: expected {w[1]}, generated {g[1]}"
        ws, gs = dict(w[2]), dict(g[2])
        if set(ws) != set(gs): return f"{at}: {w[1]} fields expected {sorted(ws)}, generated {sorted(gs)}"
        for k in sorted(ws):
            d = same(ws[k], gs[k], f"{at}.{k}")
            if d: return d
        return None
    if w[0] == "call":
        return same(w[1], g[1], at) or same(("tuple", w[2]), ("tuple", g[2]), at + "()")
    if w[0] in ("method", "member"):
        return same(w[1], g[1], at) or (None if w[2:] == g[2:] else f"{at}: expected {pretty(w)}, generated {pretty(g)}")
    return None if w == g else f"{at}: expected {pretty(w)}, generated {pretty(g)}"
def pretty(x):
    k = x[0]
    if k == "lit": return ap(x[1])
    if k == "path": return x[1]
    if k == "none": return "None"
    if k == "some": return f"Some({pretty(x[1])})"
    if k == "conv": return pretty(x[1])
    if k in ("list", "tuple"): return "[" + ", ".join(pretty(y) for y in x[1]) + "]"
    if k == "struct": return x[1] + "{" + ", ".join(f"{n}: {pretty(y)}" for n, y in x[2]) + "}"
    if k == "call": return pretty(x[1]) + "(" + ", ".join(pretty(y) for y in x[2]) + ")"
    return str(x)[:120]
# ------------------------------------------------------------------- templates
class V:
    """A value in a template: its tokens, and what it should turn into."""
    def __init__(self, kind, toks, nf=None, kids=None, text=None): self.kind = kind; self.toks = toks; self._nf = nf; self.kids = kids; self.text = text
    @property
    def nf(self):
        if self.kind == "obj": raise Refuse("an object where a value is expected")
        if self.kind == "list": return ("list", tuple(k.nf for k in self.kids))
        return self._nf
def commas(parts, trail=False):
    xs = []
    for i, v in enumerate(parts):
        if i: xs.append(PU(","))
        xs += v
    if trail and parts: xs.append(PU(","))
    return xs
def key(k): return string(k) if isinstance(k, str) else k
def O(*kvs, trail=False):
    return V("obj", [G("{", *commas([[L(key(k)), PU(":"), *v.toks] for k, v in kvs], trail))], kids=list(kvs))
def A(*vs, trail=False): return V("list", [G("[", *commas([v.toks for v in vs], trail))], kids=list(vs))
def S(text): return V("str", [L(string(text))], conv(("lit", string(text))), text=text)
def T(name): return V("lit", [L(tok(name))], conv(("lit", tok(name))), text=tok(name))
def ident_of(k): return "u_" + re.sub(r"\W", "_", k)
def X(k, how="variable"):
    n = I(ident_of(k))
    ts = {"variable": [n], "reference": [PU("&"), n], "path": [I("u_mod"), PU("::"), n], "call": [n, G("(", I("u_x"))],
          "method": [n, PU("."), I("m"), G("(")], "field": [n, PU("."), I("f")]}[how]
    return V("expr", ts, norm(parse_expr(ts)))
def B(b): return V("bool", [tk("bool", boolean(b))], ("lit", boolean(b)))
def N(n): return V("num", [tk("int", integer(n))], ("lit", integer(n)))
HOWS = ("variable", "reference", "path", "call", "method", "field")
def kinds(k):
    yield "literal", T("v:" + k)
    for h in HOWS: yield h, X(k, h)

# -------------------------------------------------- what a request should become
class Refuse(Exception): pass
def st_(name, **fs): return ("struct", name, tuple(sorted((k, v) for k, v in fs.items())))
def path(p): return ("path", p)
def call(p, *a): return ("call", path(p), tuple(a))
NO = ("none",)
def opt(v): return NO if v is None else ("some", conv(v.nf))
def need(d, k):
    v = d.pop(k, None)
    if v is None: raise Refuse(f"`{k}` is required")
    return v
def text_of(v): return v.text if v.kind in ("str", "lit") else None
PRE = "urn:ietf:params:oauth:grant-type:pre-authorized_code"
def one_of(v, allowed, what):
    """The literal must be one of these; an opaque literal is refined by the caller."""
    if v.kind != "str" or v.text not in allowed: raise Refuse(f"{what} is not one of {allowed}")
    return v.text
def ref_offer(d):
    f = dict(credential_issuer=conv(need(d, "credential_issuer").nf), subject_id=opt(d.pop("subject_id", None)))
    ids = need(d, "credential_configuration_ids")
    if ids.kind != "list" or not ids.kids: raise Refuse("a non-empty array is required")
    f["credential_configuration_ids"] = ids.nf
    g = d.pop("grant_types", None)
    if g is None: f["grant_types"] = NO
    else:
        if g.kind != "list": raise Refuse("grant_types must be an array")
        f["grant_types"] = ("some", ("list", tuple(path("GrantType::" + ("PreAuthorizedCode" if one_of(x, (PRE, "authorization_code"), "grant type") == PRE else "AuthorizationCode")) for x in g.kids)))
    t = d.pop("tx_code_required", None)
    f["tx_code_required"] = ("lit", FALSE) if t is None else t.nf
    t = d.pop("send_type", None)
    f["send_type"] = path("SendType::ByVal") if t is None else conv(t.nf)
    return st_("CreateOfferRequest", **f)
def ref_auth(d):
    f = {k: conv(need(d, k).nf) for k in ("credential_issuer", "response_type", "client_id", "code_challenge", "code_challenge_method", "subject_id")}
    for k in ("redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state"): f[k] = opt(d.pop(k, None))
    f["authorization_details"] = ref_details(d.pop("authorization_details", None), "authorization")
    return call("AuthorizationRequest::Object", st_("RequestObject", **f))
def ref_token(d):
    f = dict(credential_issuer=conv(need(d, "credential_issuer").nf), client_id=opt(d.pop("client_id", None)), client_assertion=NO)
    g = one_of(need(d, "grant_type"), (PRE, "authorization_code"), "grant type")
    if g == PRE:
        f["grant_type"] = st_("TokenGrantType::PreAuthorizedCode", pre_authorized_code=conv(need(d, "pre-authorized_code").nf), tx_code=opt(d.pop("tx_code", None)))
    else:
        f["grant_type"] = st_("TokenGrantType::AuthorizationCode", code=conv(need(d, "code").nf), redirect_uri=opt(d.pop("redirect_uri", None)),
                              code_verifier=("some", conv(need(d, "code_verifier").nf)))
    f["authorization_details"] = ref_details(d.pop("authorization_details", None), "token")
    return st_("TokenRequest", **f)
def ref_cred(d):
    f = dict(credential_issuer=conv(need(d, "credential_issuer").nf), access_token=conv(need(d, "access_token").nf))
    i = d.pop("credential_identifier", None)
    if i is not None: f["credential"] = st_("CredentialIssuance::Identifier", credential_identifier=conv(i.nf))
    else:
        fm = need(d, "format"); one_of(fm, ("jwt_vc_json",), "format")
        f["credential"] = call("CredentialIssuance::Format", call("Format::JwtVcJson", st_("ProfileW3c", credential_definition=ref_defn(need(d, "credential_definition"), True, False, False))))
    p = d.pop("proof", None)
    if p is None: f["proof"] = NO
    else:
        if p.kind != "obj": raise Refuse("proof must be an object")
        q = once(p.kids); one_of(need(q, "proof_type"), ("jwt",), "proof type")
        f["proof"] = ("some", st_("Proof::Single", proof_type=st_("SingleProof::Jwt", jwt=conv(need(q, "jwt").nf))))
    f["credential_response_encryption"] = opt(d.pop("credential_response_encryption", None))
    return st_("CredentialRequest", **f)
def ref_details(v, macro):
    if v is None: return NO
    if v.kind != "list": raise Refuse("authorization_details must be an array")
    out = []
    for x in v.kids:
        if x.kind != "obj": raise Refuse("a detail must be an object")
        q = once(x.kids); t = need(q, "type")
        if t.kind in ("str", "lit"): one_of(t, ("openid_credential",), "type")
        defn = q.pop("credential_definition", None)
        if "credential_configuration_id" in q:
            cl = NO if defn is None else ("some", call("ProfileClaims::W3c", ref_defn(defn, False, True, macro == "token")))
            c = st_("CredentialAuthorization::ConfigurationId", credential_configuration_id=q.pop("credential_configuration_id").nf, claims=cl)
        else:
            one_of(need(q, "format"), ("jwt_vc_json",), "format")
            if defn is None: raise Refuse("credential_definition is required")
            c = call("CredentialAuthorization::Format", call("Format::JwtVcJson", st_("ProfileW3c", credential_definition=ref_defn(defn, True, True, False))))
        out.append(st_("AuthorizationDetail", type_=path("AuthorizationDetailType::OpenIdCredential"), credential=c, locations=NO))
    return ("some", ("list", tuple(out)))
def ref_defn(v, type_required, subject, context):
    if v.kind != "obj": raise Refuse("credential_definition must be an object")
    q = once(v.kids)
    t = q.pop("type", None)
    if t is None and type_required: raise Refuse("`type` is required")
    sub = q.pop("credentialSubject", None) if subject else None
    cx = q.pop("@context", None) if context else None
    return st_("CredentialDefinition", context=NO if cx is None else ("some", cx.nf), type_=NO if t is None else ("some", t.nf),
               credential_subject=NO if sub is None else ("some", ref_claims(sub)))
def ref_claims(v):
    if v.kind != "obj": raise Refuse("credentialSubject must be an object")
    return ("map", tuple((conv(("lit", key(k))), ref_claim(x)) for k, x in once(v.kids).items()))
NESTED = [True]
def ref_claim(x):
    if NESTED[0] and x.kind == "obj" and x.kids: return call("Claim::Set", ref_claims(x))
    return call("Claim::Entry", ("default", "ClaimDefinition"))
def once(kvs):
    d = {}
    for k, v in kvs:
        if k in d: raise Refuse(f"duplicate key {k}")
        d[k] = v
        if v.kind == "obj": once(v.kids)
    return d
REFS = {"create_offer_request": ref_offer, "authorization_request": ref_auth, "token_request": ref_token, "credential_request": ref_cred}
def reference(macro, kvs):
    """("code", expression) or ("error", why) for the template."""
    try:
        def deep(v):
            if v.kind == "obj": once(v.kids)
            for c in (v.kids or []): deep(c[1] if isinstance(c, tuple) else c)
        d = once(kvs)
        for _, v in kvs: deep(v)
        NESTED[0] = macro == "authorization_request"
        r = REFS[macro](d)
        if d: raise Refuse(f"unexpected {sorted(d)}")
        return "code", r
    except Refuse as x: return "error", str(x)

class Macros:
    def __init__(self, ctx):
        self.ctx = ctx; self.p = ctx.program(C); self.syn = Syn(self.p); self.n = 0; self.names = {}; self.size = self.deep = 0
    def run(self, macro, body):
        """[(kind, normal form or message, state)] of expanding macro!({..}); kind: code, error, unknown."""
        e = self.ctx.engine(self.p); e.separators = ""; e.unroll = 64 + 8 * self.size; e.split = 256; e.maxrec = 6 + self.deep; e.max_depth = 60 + 10 * self.deep; e.max_steps = 400000 + 100000 * self.size
        self.syn.install(e)
        self.n += 1
        outs = self.ctx.analyse(e, f"{C}::{macro}", params={0: mk("array", *body)})
        res = []
        for v, st in outs or []:
            v = e.simp(st, e.pure(st, v))
            xs = arr(v)
            if xs is None: res.append(("unknown", ap(v)[:300], st)); continue
            if any(x.op != "tk" for x in xs): res.append(("unknown", ap(v)[:300], st)); continue
            if xs and xs[0].a[0] == "cerr": res.append(("error", text(xs[0].a[1]), st)); continue
            try:
                nf = norm(parse_expr(xs)); names_in(nf, self.names); res.append(("code", nf, st))
            except Bad as x: res.append(("unknown", f"not readable as an expression ({x}): {show(xs)[:400]}", st))
        self.panics = list(e.panics)
        if e.panics: res += [("panic", f"{x.what} at {x.site}", x.state) for x in e.panics]
        return res
    def check(self, name, macro, kvs, trail=False, names=None):
        """The expansion must be what the reference says for this template."""
        want, what = reference(macro, kvs)
        rs = self.run(macro, O(*kvs, trail=trail).toks)
        where = f"crates/macros {macro}!"
        bad = None
        if not rs: bad = "no outcome"
        for k, v, st in rs:
            if k == "unknown": bad = f"undecided: {v}"
            elif want == "error":
                if k == "code": bad = f"accepted ({what}): {pretty(v)}"
                elif names and k == "error" and names not in v: bad = f"the error does not name `{names}`: {v}"
            elif k == "error": bad = f"rejected: {v}"
            elif k == "panic": bad = f"panics: {v}"
            else:
                d = same(what, v)
                if d: bad = d
            if bad: break
        rule = {"code": "the generated request holds each given value in its own field and the default for every absent key",
                "error": "the invocation is a compile error"}[want]
        return self.ctx.ob(f"{macro}:{name}", bad is None, rule, where, bad or "")
def names_in(x, out):
    """Type and variant names an expression uses, with their fields."""
    if not isinstance(x, tuple) or not x: return
    if x[0] == "struct": out.setdefault((x[1], "fields", tuple(n for n, _ in x[2])), x)
    if x[0] == "call" and x[1][0] == "path" and x[1][1][:1].isupper(): out.setdefault((x[1][1], "args", len(x[2])), x)
    if x[0] == "path" and x[1][:1].isupper(): out.setdefault((x[1], "unit", None), x)
    if x[0] == "default": out.setdefault((x[1], "type", None), x)
    for y in x[1:]:
        if isinstance(y, tuple):
            names_in(y, out)
            for z in y:
                if isinstance(z, tuple): names_in(z, out)
def text(t):
    if is_const(t, "str"): return t.a[1]
    return ap(t)

# ------------------------------------------------------------------ the templates
def detail(**kw): return O(*[(k.rstrip("_"), v) for k, v in kw.items()])
def bases(macro):
    """Minimal templates of a macro, one per form, and the optional keys of each."""
    if macro == "create_offer_request":
        yield "offer", [("credential_issuer", X("credential_issuer")), ("credential_configuration_ids", A(T("id0")))], \
            [("subject_id", T("v:subject_id")), ("grant_types", A(S(PRE), S("authorization_code"))), ("tx_code_required", B(True)), ("send_type", X("send_type", "path"))]
    if macro == "authorization_request":
        yield "authorization", [(k, X(k)) for k in ("credential_issuer", "response_type", "client_id", "code_challenge", "code_challenge_method", "subject_id")], \
            [(k, T("v:" + k)) for k in ("redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state")] + [("authorization_details", A(detail(type=S("openid_credential"), credential_configuration_id=T("cid"))))]
    if macro == "token_request":
        yield "pre-authorized", [("credential_issuer", X("credential_issuer")), ("grant_type", S(PRE)), ("pre-authorized_code", X("pre-authorized_code"))], \
            [("client_id", T("v:client_id")), ("tx_code", T("v:tx_code")), ("authorization_details", A(detail(type=S("openid_credential"), credential_configuration_id=T("cid"))))]
        yield "code", [("credential_issuer", X("credential_issuer")), ("grant_type", S("authorization_code")), ("code", X("code")), ("code_verifier", X("code_verifier"))], \
            [("client_id", T("v:client_id")), ("redirect_uri", T("v:redirect_uri")), ("authorization_details", A(detail(type=S("openid_credential"), credential_configuration_id=T("cid"))))]
    if macro == "credential_request":
        o = [("proof", O(("proof_type", S("jwt")), ("jwt", X("jwt")))), ("credential_response_encryption", X("credential_response_encryption"))]
        yield "identifier", [("credential_issuer", X("credential_issuer")), ("access_token", X("access_token")), ("credential_identifier", X("credential_identifier"))], o
        yield "format", [("credential_issuer", X("credential_issuer")), ("access_token", X("access_token")), ("format", S("jwt_vc_json")), ("credential_definition", O(("type", A(T("t0"), T("t1")))))], o
PLAIN = {"credential_issuer", "subject_id", "send_type", "response_type", "client_id", "code_challenge", "code_challenge_method", "redirect_uri", "state", "scope", "resource",
         "wallet_issuer", "user_hint", "issuer_state", "pre-authorized_code", "tx_code", "code", "code_verifier", "access_token", "credential_identifier", "credential_response_encryption", "tx_code_required"}
ALL = ("create_offer_request", "authorization_request", "token_request", "credential_request")
def details(macro):
    """Shapes of authorization_details that are accepted."""
    oc = S("openid_credential")
    sub = O(("c0", O()), ("c1", O()))
    nest = O(("c0", O()), ("c1", O(("d0", O()), ("d1", O(("e0", O()))))))
    defs = [("type", O(("type", A(T("t0"))))), ("subject", O(("credentialSubject", sub))), ("both", O(("type", A(T("t0"), X("t1"))), ("credentialSubject", sub))),
            ("empty", O()), ("empty-subject", O(("type", A(T("t0"))), ("credentialSubject", O()))), ("nested", O(("type", A(T("t0"))), ("credentialSubject", nest))),
            ("context", O(("@context", A(T("x0"))), ("type", A(T("t0")))))]
    yield "id", detail(type=oc, credential_configuration_id=T("cid"))
    yield "id-variable", detail(type=oc, credential_configuration_id=X("cid"))
    yield "type-variable", detail(type=X("ty", "path"), credential_configuration_id=T("cid"))
    for n, d in defs:
        yield f"id+{n}", detail(type=oc, credential_configuration_id=T("cid"), credential_definition=d)
        if any(k == "type" for k, _ in d.kids): yield f"format+{n}", detail(type=oc, format=S("jwt_vc_json"), credential_definition=d)

@prop("C14", "Value-flow analysis of the four macros end to end (parser, per-macro builder, code generation) over input templates: every "
      "optional key absent or present alone and in pairs, every plain key with each kind of value, either key order, every shape of "
      "authorization details; the generated tokens, read back as an expression, must put each template value (and only it) in the field of "
      "its name, converted where text is expected, and the type, variant and field names must exist in the request types.",
      TRUST + ["syn's cursor and quote's runtime behave as documented", "keys are compared, not computed: absent/present and pairs cover their interaction"])
def c14(ctx):
    m = Macros(ctx); n0 = 0
    for macro in ALL:
        for form, req, optional in bases(macro):
            m.check(f"{form}:minimal", macro, req)
            m.check(f"{form}:full", macro, req + optional)
            m.check(f"{form}:reversed", macro, (req + optional)[::-1])
            m.check(f"{form}:trailing-comma", macro, req + optional, trail=True)
            for kv in optional:
                m.check(f"{form}:only:{kv[0]}", macro, req + [kv])
                m.check(f"{form}:without:{kv[0]}", macro, req + [o for o in optional if o[0] != kv[0]])
            for a, b in itertools.combinations(optional, 2): m.check(f"{form}:pair:{a[0]}+{b[0]}", macro, [a] + req + [b])
            if ctx.tier == "thorough":
                for r in range(3, len(optional)):
                    for c in itertools.combinations(optional, r): m.check(f"{form}:set:{'+'.join(k for k, _ in c)}", macro, req + list(c))
                for pm in itertools.islice(itertools.permutations(req + optional), 0, 720, 7): m.check(f"{form}:order:{','.join(k for k, _ in pm)}", macro, list(pm))
            for k, v in req + optional:
                if k not in PLAIN: continue
                for kind, x in kinds(k):
                    m.check(f"{form}:{k}:{kind}", macro, [(k2, x if k2 == k else v2) for k2, v2 in (req + optional)])
                for kind, x in (("array", A(T("a0"), X("a1"))), ("empty-array", A()), ("number", N(7)), ("zero", N(0)), ("large-number", N((1 << 53) + 1)), ("bool", B(False)), ("true", B(True)),
                                ("empty-text", S("")), ("blank-text", S(" \t")), ("odd-text", S(" Mixed, \"{x}\": [1] \\n %7E\u00e9null "))):
                    m.check(f"{form}:{k}:{kind}", macro, [(k2, x if k2 == k else v2) for k2, v2 in (req + optional)])
    offer = [("credential_issuer", X("credential_issuer"))]
    for name, ids in (("one", A(T("a"))), ("variable", A(X("a"))), ("three", A(T("a"), X("b", "path"), T("c"))), ("trailing", A(T("a"), T("b"), trail=True))):
        m.check(f"ids:{name}", "create_offer_request", offer + [("credential_configuration_ids", ids)])
    for n in range(0, 4):
        for gs in itertools.product((PRE, "authorization_code"), repeat=n):
            m.check(f"grants:{n}:{','.join(g[-8:] for g in gs)}", "create_offer_request", offer + [("credential_configuration_ids", A(T("a"))), ("grant_types", A(*[S(g) for g in gs]))])
    for macro in ("authorization_request", "token_request"):
        for form, req, optional in bases(macro):
            ds = list(details(macro))
            for nm, d in ds: m.check(f"{form}:details:{nm}", macro, req + [("authorization_details", A(d))])
            m.check(f"{form}:details:none", macro, req + [("authorization_details", A())])
            for (n1, d1), (n2, d2) in itertools.product(ds, ds) if ctx.tier == "thorough" else zip(ds, ds[3:] + ds[:3]):
                m.check(f"{form}:details:{n1}|{n2}", macro, req + [("authorization_details", A(d1, d2))])
    for form, req, optional in bases("credential_request"):
        if form != "format": continue
        for nm, d in (("type", O(("type", A(T("t0"))))), ("variable", O(("type", X("types"))))):
            m.check(f"definition:{nm}", "credential_request", [(k, d if k == "credential_definition" else v) for k, v in req])
        for kind, x in kinds("jwt"):
            m.check(f"jwt:{kind}", "credential_request", req + [("proof", O(("jwt", x), ("proof_type", S("jwt"))))])
    # more members than any bound in the code, and deeper nesting
    big = m.size = ctx.reach(m.p, 24, 64); m.deep = 12
    ids = [T(f"a{i}") if i % 3 else X(f"a{i}") for i in range(big)]
    m.check("many:ids", "create_offer_request", offer + [("credential_configuration_ids", A(*ids))])
    m.check("many:grants", "create_offer_request", offer + [("credential_configuration_ids", A(T("a"))), ("grant_types", A(*[S(PRE)] * (big - 1), S("authorization_code")))])
    oc = S("openid_credential")
    tower = O()
    for i in range(m.deep): tower = O((f"l{i}", tower), (f"m{i}", O()))
    defs = {"types": O(("type", A(*[T(f"t{i}") for i in range(big)]))), "claims": O(("type", A(T("t0"))), ("credentialSubject", O(*[(f"c{i}", O((f"d{i}", O())) if i % 2 else O()) for i in range(big)]))),
            "tower": O(("type", A(T("t0"))), ("credentialSubject", tower))}
    # claims named by every text the code mentions, and texts close to them
    ws = [w for w in ctx.words(m.p, where=lambda b: b["crate"] == "vercre_macros", longest=32) if " " not in w]
    ws = sorted({y for w in ws for y in (w, w + "x", "x" + w)} | {"", " ", "id", "_", "$ref", "0", "Type", "a.b", "\u00e9"})
    for i in range(0, len(ws), 40):
        cl = ws[i:i + 40]
        defs[f"names:{i}"] = O(("type", A(T("t0"))), ("credentialSubject", O(*[(w, O((w, O())) if j % 2 else O()) for j, w in enumerate(cl)])))
    m.size = max(big, 44)
    for macro in ("authorization_request", "token_request"):
        for form, req, optional in bases(macro):
            dts = [detail(type=oc, credential_configuration_id=T(f"cid{i}")) if i % 2 else detail(type=oc, format=S("jwt_vc_json"), credential_definition=O(("type", A(T(f"t{i}"))))) for i in range(big)]
            m.check(f"{form}:many:details", macro, req + [("authorization_details", A(*dts))])
            for nm, d in defs.items():
                m.check(f"{form}:many:{nm}:id", macro, req + [("authorization_details", A(detail(type=oc, credential_configuration_id=T("cid"), credential_definition=d)))])
                m.check(f"{form}:many:{nm}:format", macro, req + [("authorization_details", A(detail(type=oc, format=S("jwt_vc_json"), credential_definition=d)))])
    for form, req, optional in bases("credential_request"):
        if form == "format": m.check("many:types", "credential_request", [(k, defs["types"] if k == "credential_definition" else v) for k, v in req])
    m.size = m.deep = 0
    # the generated names must exist
    q = ctx.program("vercre_openid")
    mod = "vercre_openid::issuer::"
    called = {x[1][1] for (n, k, _), x in m.names.items() if k == "args"}
    for (n, k, d) in sorted(m.names, key=str):
        seg = n.split("::")
        if k == "unit" and n in called: continue
        a = q.adts.get(mod + seg[0]) or q.adts.get("vercre_openid::oauth::" + seg[0])
        v = None
        if a and len(seg) == 2: v = next((fs for vn, fs in a["variants"] if vn == seg[1]), None)
        elif a and len(seg) == 1 and not a["enum"]: v = a["variants"][0][1]
        good = a is not None and (k == "type" or v is not None and {"fields": lambda: sorted(f[0] for f in v) == sorted(d), "args": lambda: [f[0] for f in v] == [str(i) for i in range(d)], "unit": lambda: not v}[k]())
        ctx.ob(f"exists:{n}:{k}", good, "the generated code uses existing types, variants and fields", f"{mod}{n}", f"generated with {d}; declared {[f[0] for f in v] if v is not None else 'nothing of this name'}")
    ctx.floor("generated names", len(m.names), 15)
    ctx.stats["templates"] += m.n
    ctx.floor("expansions analysed", m.n, 300)

@prop("C13", "Value-flow analysis of the four macros over templates with each required key (and each required member of a nested object) left "
      "out, alone and together with every optional key present: every outcome must be a compile error, and for a top-level key one that names it.",
      TRUST + ["syn's cursor and quote's runtime behave as documented"])
def c13(ctx):
    m = Macros(ctx)
    for macro in ALL:
        for form, req, optional in bases(macro):
            for k, _ in req:
                for nm, rest in (("minimal", req), ("full", req + optional), ("reversed", (req + optional)[::-1])):
                    kvs = [x for x in rest if x[0] != k]
                    m.check(f"{form}:{nm}:missing:{k}", macro, kvs, names=k)
                for ov in optional: m.check(f"{form}:{ov[0]}:missing:{k}", macro, [x for x in req if x[0] != k] + [ov])
            for (a, _), (b, _) in itertools.combinations(req, 2): m.check(f"{form}:missing:{a}+{b}", macro, [x for x in req if x[0] not in (a, b)])
        m.check("empty", macro, [])
    m.check("ids:empty", "create_offer_request", [("credential_issuer", X("i")), ("credential_configuration_ids", A())])
    # the faulty detail at the end of a long list
    big = m.size = ctx.reach(m.p, 24, 64)
    for macro in ("authorization_request", "token_request"):
        for form, req, _ in bases(macro):
            good = detail(type=S("openid_credential"), credential_configuration_id=T("cid"))
            for nm, d in (("type", detail(credential_configuration_id=T("cid"))), ("id-and-format", detail(type=S("openid_credential"))), ("object", T("x"))):
                m.check(f"{form}:many:detail-missing:{nm}", macro, req + [("authorization_details", A(*[good] * (big - 1), d))])
    m.size = 0
    m.check("ids:not-array", "create_offer_request", [("credential_issuer", X("i")), ("credential_configuration_ids", T("x"))])
    m.check("ids:variable", "create_offer_request", [("credential_issuer", X("i")), ("credential_configuration_ids", X("x"))])
    oc = S("openid_credential")
    for macro in ("authorization_request", "token_request"):
        for form, req, _ in bases(macro):
            good = detail(type=oc, credential_configuration_id=T("cid"))
            for nm, d in (("type", detail(credential_configuration_id=T("cid"))), ("id-and-format", detail(type=oc)), ("id-and-format-with-definition", detail(type=oc, credential_definition=O(("type", A(T("t")))))),
                          ("definition", detail(type=oc, format=S("jwt_vc_json"))), ("definition-type", detail(type=oc, format=S("jwt_vc_json"), credential_definition=O())),
                          ("definition-type-with-subject", detail(type=oc, format=S("jwt_vc_json"), credential_definition=O(("credentialSubject", O(("c", O())))))),
                          ("id-subject-not-object", detail(type=oc, credential_configuration_id=T("cid"), credential_definition=O(("type", A(T("t"))), ("credentialSubject", T("x"))))), ("id-subject-array", detail(type=oc, credential_configuration_id=T("cid"), credential_definition=O(("credentialSubject", A(T("x")))))),
                          ("definition-not-object", detail(type=oc, format=S("jwt_vc_json"), credential_definition=T("x"))), ("id-definition-not-object", detail(type=oc, credential_configuration_id=T("cid"), credential_definition=T("x"))),
                          ("subject-not-object", detail(type=oc, format=S("jwt_vc_json"), credential_definition=O(("type", A(T("t"))), ("credentialSubject", T("x"))))),
                          ("everything", O()), ("object", T("x"))):
                for pos, ds in (("only", [d]), ("first", [d, good]), ("last", [good, d])):
                    m.check(f"{form}:detail-missing:{nm}:{pos}", macro, req + [("authorization_details", A(*ds))])
            for nm, v in (("object", good), ("text", T("x")), ("variable", X("x"))): m.check(f"{form}:details-not-array:{nm}", macro, req + [("authorization_details", v)])
    for form, req, optional in bases("credential_request"):
        for nm, v in (("jwt", O(("proof_type", S("jwt")))), ("proof_type", O(("jwt", X("jwt")))), ("all", O()), ("object", X("proof")), ("text", T("x"))):
            m.check(f"{form}:proof-missing:{nm}", "credential_request", req + [("proof", v)])
        if form == "format":
            for nm, d in (("type", O()), ("object", T("x")), ("variable", X("d"))): m.check(f"definition-missing:{nm}", "credential_request", [(k, d if k == "credential_definition" else v) for k, v in req])
    ctx.stats["templates"] += m.n
    ctx.floor("expansions analysed", m.n, 100)

@prop("C12", "Value-flow analysis of the four macros over templates with one extra key of opaque text, in every position and next to every "
      "form of the request, and with every key repeated: an outcome other than a compile error must imply that the opaque key equals an "
      "optional key of that form that was absent; a repeated key must be a compile error at every nesting level.",
      TRUST + ["syn's cursor and quote's runtime behave as documented"])
def c12(ctx):
    m = Macros(ctx)
    ALLKEYS = sorted({k for macro in ALL for _, r, o in bases(macro) for k, _ in r + o})
    for macro in ALL:
        for form, req, optional in bases(macro):
            where = f"crates/macros {macro}!"
            for nm, kvs in (("minimal", req), ("full", req + optional)):
                present = {k for k, _ in kvs}
                allowed = [k for k, _ in optional if k not in present]
                for vk, v in (("variable", X("extra")), ("literal", T("extra")), ("object", O()), ("array", A()), ("false", B(False)), ("true", B(True)), ("zero", N(0)), ("number", N(7)), ("empty", S("")), ("reference", X("extra", "reference")), ("call", X("extra", "call"))):
                    for pos in (0, len(kvs) // 2, len(kvs)) if vk in ("variable", "literal", "object", "array") else (len(kvs),):
                        k = tok("extra-key")
                        ts = O(*kvs[:pos], (k, v), *kvs[pos:]).toks
                        bad = None; rs = m.run(macro, ts)
                        for kind, x, st in rs:
                            if kind == "unknown": bad = f"undecided: {x}"
                            elif kind == "code" and not st.prove(disj(*[eq(k, string(a)) for a in allowed])): bad = f"accepted with an undefined key: {pretty(x)}"
                        if not any(kind == "error" for kind, _, _ in rs): bad = bad or "an undefined key is never an error"
                        ctx.ob(f"{macro}:{form}:{nm}:extra:{vk}:{pos}", bad is None, "a key the request does not define is a compile error", where, bad or "")
                # concrete wrong keys: those of other requests and other forms
                for k in ALLKEYS + ["", "Credential_issuer", "credential_issuer ", "credential-issuer", "unknown"]:
                    if k not in present and k not in allowed: m.check(f"{form}:{nm}:foreign:{k}", macro, kvs + [(k, X("extra"))])
                for i, (k, v) in enumerate(kvs):
                    for pos in {i, i + 1, len(kvs)}:
                        m.check(f"{form}:{nm}:repeated:{k}:{pos}", macro, kvs[:pos] + [(k, X("again"))] + kvs[pos:])
    oc = S("openid_credential")
    for macro in ("authorization_request", "token_request"):
        for form, req, _ in bases(macro):
            for nm, d in (("type", O(("type", oc), ("type", oc), ("credential_configuration_id", T("c")))), ("id", O(("type", oc), ("credential_configuration_id", T("c")), ("credential_configuration_id", T("d")))),
                          ("claim", detail(type=oc, credential_configuration_id=T("c"), credential_definition=O(("credentialSubject", O(("a", O()), ("a", O())))))),
                          ("nested-claim", detail(type=oc, credential_configuration_id=T("c"), credential_definition=O(("credentialSubject", O(("a", O(("b", O()), ("b", O())))))))),
                          ("definition-type", detail(type=oc, credential_configuration_id=T("c"), credential_definition=O(("type", A(T("a"))), ("type", A(T("b"))))))):
                m.check(f"{form}:nested-repeated:{nm}", macro, req + [("authorization_details", A(d))])
    # a repetition far apart, and more undefined keys than any bound in the code
    big = m.size = ctx.reach(m.p, 24, 64)
    for macro in ("authorization_request", "token_request"):
        for form, req, _ in bases(macro):
            cl = [(f"c{i}", O()) for i in range(big)]
            m.check(f"{form}:many:repeated-claim", macro, req + [("authorization_details", A(detail(type=oc, credential_configuration_id=T("c"), credential_definition=O(("credentialSubject", O(*cl, ("c0", O())))))))])
    for macro in ALL:
        for form, req, optional in bases(macro):
            m.check(f"{form}:many:foreign", macro, req + optional + [(f"x{i}", X("extra")) for i in range(big)])
            m.check(f"{form}:many:foreign-first", macro, [(f"x{i}", X("extra")) for i in range(big)] + req + optional)
    m.size = 0
    # several undefined keys at once, as many as the program's own numbers
    for macro in ALL:
        for form, req, optional in bases(macro):
            for n in sorted({2, 3, 4} | {x + d for x in ctx.constants(m.p, 64) for d in (-1, 0, 1) if x + d > 1}):
                for nm, kvs in (("minimal", req), ("full", req + optional)):
                    m.check(f"{form}:{nm}:foreign-keys:{n}", macro, kvs + [(f"x{i}", X("extra")) for i in range(n)])
    for form, req, _ in bases("credential_request"):
        m.check(f"{form}:nested-repeated:jwt", "credential_request", req + [("proof", O(("proof_type", S("jwt")), ("jwt", X("a")), ("jwt", X("b"))))])
    ctx.stats["templates"] += m.n
    ctx.floor("expansions analysed", m.n, 200)

@prop("C15", "Value-flow analysis of the four macros with an opaque literal (any text), a variable, and every non-text kind of value in each "
      "position that takes one of a closed set of texts: an outcome other than a compile error must imply that the text equals a member of "
      "the set, and each member must select its own variant.",
      TRUST + ["syn's cursor and quote's runtime behave as documented"])
def c15(ctx):
    m = Macros(ctx)
    big = m.size = ctx.reach(m.p, 24, 64)
    oc = S("openid_credential")
    offer = [("credential_issuer", X("i")), ("credential_configuration_ids", A(T("a")))]
    P1 = [("credential_issuer", X("i")), ("pre-authorized_code", X("p"))]; P2 = [("credential_issuer", X("i")), ("code", X("p")), ("code_verifier", X("cv"))]
    sites = [("grant_types", "create_offer_request", (PRE, "authorization_code"), lambda v: offer + [("grant_types", A(v))]),
             ("grant_types-second", "create_offer_request", (PRE, "authorization_code"), lambda v: offer + [("grant_types", A(S(PRE), v))]),
             ("grant_types-last-of-many", "create_offer_request", (PRE, "authorization_code"), lambda v: offer + [("grant_types", A(*[S(PRE)] * big, v))]),
             ("grant_types-first", "create_offer_request", (PRE, "authorization_code"), lambda v: offer + [("grant_types", A(v, S(PRE)))]),
             ("grant_type", "token_request", (PRE,), lambda v: P1 + [("grant_type", v)]),
             ("grant_type-code", "token_request", ("authorization_code",), lambda v: P2 + [("grant_type", v)])]
    for form, req, _ in bases("credential_request"):
        sites.append((f"proof_type:{form}", "credential_request", ("jwt",), lambda v, req=req: req + [("proof", O(("proof_type", v), ("jwt", X("jwt"))))]))
        if form == "format": sites.append(("format", "credential_request", ("jwt_vc_json",), lambda v, req=req: [(k, v if k == "format" else x) for k, x in req]))
    for macro in ("authorization_request", "token_request"):
        for form, req, _ in bases(macro):
            good = detail(type=oc, credential_configuration_id=T("cid"))
            for pos in ("only", "second"):
                w = (lambda d, pos=pos: A(d) if pos == "only" else A(good, d))
                sites.append((f"detail-format:{form}:{pos}", macro, ("jwt_vc_json",), lambda v, req=req, w=w: req + [("authorization_details", w(detail(type=oc, format=v, credential_definition=O(("type", A(T("t")))))))]))
                sites.append((f"detail-type:{form}:{pos}", macro, ("openid_credential",), lambda v, req=req, w=w: req + [("authorization_details", w(detail(type=v, credential_configuration_id=T("cid"))))]))
                sites.append((f"detail-type-format:{form}:{pos}", macro, ("openid_credential",), lambda v, req=req, w=w: req + [("authorization_details", w(detail(type=v, format=S("jwt_vc_json"), credential_definition=O(("type", A(T("t")))))))]))
    for nm, macro, allowed, at in sites:
        where = f"crates/macros {macro}!"
        g = tok("choice")
        bad = None; seen = set(); rs = m.run(macro, O(*at(T("choice"))).toks)
        for kind, x, st in rs:
            if kind == "unknown": bad = f"undecided: {x}"
            elif kind == "code":
                hit = [a for a in allowed if st.prove(eq(g, string(a)))]
                if not hit: bad = f"accepts a text outside {allowed}: {pretty(x)}"; break
                seen |= set(hit)
                w, r = reference(macro, at(S(hit[0])))
                d = same(r, x) if w == "code" else f"accepted: {r}"
                if d: bad = d
        if not bad and seen != set(allowed): bad = f"never accepts {sorted(set(allowed) - seen)}"
        ctx.ob(f"{nm}:any-text", bad is None, "only the listed texts are accepted, each for its own variant", where, bad or "")
        for kind, v in (("variable", X("v")), ("path", X("v", "path")), ("call", X("v", "call")), ("number", N(1)), ("bool", B(True)), ("array", A(S(allowed[0]))), ("object", O())):
            if nm.startswith("detail-type"): continue      # a non-literal type is taken on trust
            m.check(f"{nm}:{kind}", macro, at(v))
        for w in (allowed[0].upper(), allowed[0] + " ", " " + allowed[0], allowed[0][:-1], "", allowed[0] + "x"): m.check(f"{nm}:{w}", macro, at(S(w)))
        for w in allowed: m.check(f"{nm}:{w}", macro, at(S(w)))
    for nm, v in (("text", S(PRE)), ("object", O()), ("variable", X("v")), ("number", N(1))): m.check(f"grant_types-not-array:{nm}", "create_offer_request", offer + [("grant_types", v)])
    ctx.stats["templates"] += m.n
    ctx.floor("closed choices analysed", len(sites), 12)

def spoilt(xs, at=()):
    """Every way to spoil a token list by dropping, doubling or replacing one separator, or adding a token, at any depth."""
    for i, t in enumerate(xs):
        k, v = t.a[0], t.a[1]
        here = ".".join(map(str, at + (i,)))
        if k == "p" and v in (":", ","):
            nm = {":": "colon", ",": "comma"}[v]
            yield f"no-{nm}:{here}", xs[:i] + xs[i + 1:]
            yield f"two-{nm}s:{here}", xs[:i] + [t] + xs[i:]
            for r in ("=", "=>", ";", "::", ":", ","):
                if r != v: yield f"{nm}-as-{r}:{here}", xs[:i] + [PU(r)] + xs[i + 1:]
        elif k == "group" and v in "{[":
            inner = list(arr(t.a[2]))
            for nm, ys in spoilt(inner, at + (i,)): yield nm, xs[:i] + [G(v, *ys)] + xs[i + 1:]
            for nm, extra in (("comma", [PU(",")]), ("text", [L(string("x"))]), ("variable", [I("u_extra")])):
                if nm != "comma" or not inner: yield f"lone-{nm}:{here}", xs[:i] + [G(v, *inner, *extra)] + xs[i + 1:] if inner or v == "{" or nm == "comma" else xs[:i] + [G(v, *inner, *extra)] + xs[i + 1:] + [PU(";")]
                yield f"before-{nm}:{here}", xs[:i] + [G(v, *extra, *inner)] + xs[i + 1:] if inner or v == "{" or nm == "comma" else xs[:i] + [G(v, *extra, *inner)] + xs[i + 1:] + [PU(";")]

def may_be_members(xs): return all(len(q) > 2 and q[0].a[0] == "str" and isp(q[1], ":") and may_be_value(q[2:]) for q in parts_of(xs))
def may_be_value(xs):
    """False only for a token list that is certainly no value: no text, number, boolean, array, object or Rust expression."""
    if not xs: return False
    if isp(xs[0], "&"): return may_be_value(xs[1:])
    if len(xs) == 1 and xs[0].a[0] == "group":
        d, ys = xs[0].a[1], list(arr(xs[0].a[2]))
        if d == "{": return may_be_members(ys)
        return all(may_be_value(q) for q in parts_of(ys))
    return expr_len(xs) == len(xs) and all(may_be_value(q) for x in xs if x.a[0] == "group" and x.a[1] in "([" for q in parts_of(arr(x.a[2])))
ADDED = [(";", PU(";")), (",", PU(",")), (":", PU(":")), ("=", PU("=")), ("!", PU("!")), ("#", PU("#")), ("&", PU("&")), ("text", L(string("x"))), ("number", tk("int", integer(1))),
         ("bool", tk("bool", TRUE)), ("name", I("u_extra")), ("array", G("[")), ("object", G("{")), ("parentheses", G("("))]
def inserted(xs, at=()):
    """The token list with one token added, in every gap at every depth."""
    for i in range(len(xs) + 1):
        here = ".".join(map(str, at + (i,)))
        for nm, t in ADDED: yield f"{nm}-at:{here}", xs[:i] + [t] + xs[i:]
        if i < len(xs) and xs[i].a[0] == "group":
            for nm, ys in inserted(list(arr(xs[i].a[2])), at + (i,)): yield nm, xs[:i] + [G(xs[i].a[1], *ys)] + xs[i + 1:]

@prop("C37", "Value-flow analysis of the four macros over token lists that are not one well-formed object: from a template with every key and kind "
      "of value, each separator in turn (at any depth) dropped, doubled or replaced, a token too many in any gap, keys that are not "
      "texts, other brackets, several objects or none; every outcome must be a compile error.",
      TRUST + ["syn's cursor and quote's runtime behave as documented"])
def c37(ctx):
    m = Macros(ctx)
    def refuse(name, macro, ts):
        rs = m.run(macro, ts); bad = None
        for kind, x, st in rs:
            if kind == "code": bad = f"accepted: {pretty(x)[:300]}"
            elif kind == "unknown": bad = f"undecided: {x}"
        ctx.ob(f"{macro}:{name}", bad is None and bool(rs), "input that is not one well-formed object is a compile error", f"crates/macros {macro}!", bad or ("" if rs else "no outcome"))
    for macro in ALL:
        for form, req, optional in bases(macro):
            full = O(*(req + optional)).toks
            m.check(f"{form}:well-formed", macro, req + optional)
            for nm, ts in spoilt(full): refuse(f"{form}:{nm}", macro, ts)
            body = list(arr(full[0].a[2]))
            for nm, ts in (("nothing", []), ("no-braces", body), ("brackets", [G("[", *body)]), ("parentheses", [G("(", *body)]), ("twice", full + full), ("then-comma", full + [PU(",")]), ("then-semicolon", full + [PU(";")]),
                           ("then-text", full + [L(string("x"))]), ("after-text", [L(string("x")), PU(","), *full]), ("then-variable", full + [I("u_x")]), ("text", [L(string("x"))]), ("variable", [I("u_x")]), ("inner", [G("{", *full)])):
                refuse(f"{form}:{nm}", macro, ts)
            # a token too many, in any gap: of one whole invocation, and of a value of each kind
            if macro == "credential_request" and form == "format" or ctx.tier == "thorough":
                for nm, ts in inserted(list(arr(full[0].a[2]))):
                    if not may_be_members(ts): refuse(f"{form}:added:{nm}", macro, [G("{", *ts)])
            if form == next(bases(macro))[0] or ctx.tier == "thorough":
                kept = [[L(key(k2)), PU(":"), *v2.toks] for k2, v2 in req if k2 != "credential_issuer"]
                u = I("u_x")
                for nv, vt in (("text", [L(tok("v"))]), ("number", [tk("int", integer(5))]), ("bool", [tk("bool", TRUE)]), *((h, X("v", h).toks) for h in HOWS), ("reference-text", [PU("&"), L(tok("v"))]),
                               ("array", [G("[", L(tok("v")), PU(","), u, PU(","), PU("&"), u)]), ("reference-array", [PU("&"), G("[", L(tok("v")))]), ("in-parentheses", [G("(", L(tok("v")))]), ("name-in-parentheses", [G("(", u)])):
                    for nm, ts in inserted(vt):
                        m1 = [L(string("credential_issuer")), PU(":"), *ts]
                        for at, ys in (("first", commas([m1, *kept])), ("last", commas([*kept, m1]))):
                            if not may_be_members(ys): refuse(f"{form}:added:{nv}:{nm}:{at}", macro, [G("{", *ys)])
            # keys that are not texts
            for i, (k, v) in enumerate(req + optional):
                for nm, kt in (("variable", [I("u_key")]), ("number", [tk("int", integer(1))]), ("bool", [tk("bool", TRUE)]), ("none", []), ("reference", [PU("&"), L(string(k))]), ("two", [L(string(k)), L(string(k))]), ("object", [G("{")])):
                    parts = [[L(key(k2)), PU(":"), *v2.toks] for k2, v2 in req + optional]
                    parts[i] = [*kt, PU(":"), *v.toks]
                    refuse(f"{form}:key:{k}:{nm}", macro, [G("{", *commas(parts))])
                # no value, two values, other punctuation
                for nm, vt in (("nothing", []), ("two", [*v.toks, *T("second").toks]), ("hash", [PU("#"), I("u_x")]), ("reference-to-nothing", [PU("&")])):
                    parts = [[L(key(k2)), PU(":"), *v2.toks] for k2, v2 in req + optional]
                    parts[i] = [L(key(k)), PU(":"), *vt]
                    refuse(f"{form}:value:{k}:{nm}", macro, [G("{", *commas(parts))])
    ctx.stats["templates"] += m.n
    ctx.floor("expansions analysed", m.n, 500)
