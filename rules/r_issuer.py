"""Rules for the issuer's endpoints (vercre-issuer)."""
import re
from registry import prop
from terms import *
from proto import *
from r_core import TRUST

CR = ("vercre_core", "vercre_openid", "vercre_issuer")
OI = "vercre_openid::issuer::"
OA = "vercre_openid::oauth::"
REQ = mk("param", "request")
T = TRUST + ["storage, metadata and subject services behave as their traits document", "the state read back is the state saved (serde round trip)",
             "dependencies missing here (infosec, did, coset) are type-checked against signature stubs and treated as opaque calls"]
def tok(n): return mk("tok", n)
def listof(*xs): return mk("array", *xs)

def entry(p, crate, name):
    """The endpoint function of this name, wherever its module is."""
    c = [b for b in p.bodies.values() if b["crate"] == crate and b.get("name") == name and b["argc"] == 2 and "{" not in b["path"] and "<" not in b["path"]]
    c.sort(key=lambda b: (b["path"].count("::"), b["path"] != f"{crate}::{name}::{name}"))
    return c[0]["path"] if c else f"{crate}::{name}::{name}"
class Issuer:
    def __init__(self, ctx):
        self.ctx = ctx; self.p = ctx.program(*CR)
    def gt(self, v): return variant(self.p, OA + "GrantType", v)
    def flow(self, name, request=None, opaque=("::verify_claims$",), **kw):
        return Flow(self.ctx, CR, entry(self.p, "vercre_issuer", name), opaque=opaque, params={1: request} if request is not None else None, **kw)
    def token_request(self, v, **kw):
        g = variant(self.p, OI + "TokenGrantType", v, field(REQ, None, "grant_type"))
        return struct(self.p, OI + "TokenRequest", REQ, grant_type=g, **kw)
    def token(self, v, **kw): return self.flow("token", self.token_request(v), **kw)
    def code(self, v): return field(field(REQ, None, "grant_type"), v, "code" if v == "AuthorizationCode" else "pre_authorized_code")
    # ---- what the earlier endpoints save: gives the access paths of the stored state's fields
    def offered(self, **kw):
        """create_offer for a pre-authorized offer with a PIN."""
        r = struct(self.p, OI + "CreateOfferRequest", REQ, grant_types=some(listof(self.gt("PreAuthorizedCode"))), tx_code_required=TRUE,
                   send_type=variant(self.p, OI + "SendType", "ByVal"), **kw)
        return self.flow("create_offer", r)
    def authorized(self, **kw):
        o = struct(self.p, OI + "RequestObject", REQ, **kw)
        return self.flow("authorize", adt(OI + "AuthorizationRequest", "Object", True, (("0", o),)))
    def saved(self, f, key):
        """The value saved under a fresh code by this flow."""
        for v, s, w, t in f.puts:
            if calls_of(v[0], "gen::auth_code"): return v[1]
        self.ctx.fail(key, "the endpoint saves its state under a fresh code", f.where, "no such call")
        return None
    def path(self, key, state, pred):
        p = locate(state, None, pred) if state is not None else []
        if not p: self.ctx.fail(f"anchor:{key}", f"the stored state holds the {key}", "state", "not found in the saved state")
        return p
def call_named(n): return lambda t: t.op == "app" and t.a[0] == n
def same(x): return lambda t: t is x
def dated(t): return t.op == "Add" and t.a[0] is NOW

GRANTS = ("PreAuthorizedCode", "AuthorizationCode")
def state_of(i, v): return payload(stored(i.code(v)))
def kinds(i, ctx):
    """(saved state, stage access path) per grant."""
    a, b = i.saved(i.offered(), "anchor:offer"), i.saved(i.authorized(), "anchor:authorize")
    return {"PreAuthorizedCode": a, "AuthorizationCode": b}

@prop("C16", "Must-fact dataflow over the token endpoint for an arbitrary request and arbitrary stored state: on every path to a saved token and to a "
      "successful response the code was read from the store and removed from it, its expiry is not before now, its stage is the one the offering "
      "(or authorizing) endpoint saves for that grant, and the grant type is among the server's supported ones; the removal precedes the save.", T)
def c16(ctx):
    i = Issuer(ctx); sv = kinds(i, ctx)
    for v in GRANTS:
        f = i.token(v)
        code = i.code(v); S = payload(stored(code)); k = f"token:{v}"
        sites = f.okstates(k) + f.putstates()
        f.require(f"{k}:known", sites, is_variant(stored(code), "Ok"), "a token is issued only for a code found in the store")
        f.require(f"{k}:single-use", sites, conj(mk("ev", "purge", code), is_variant(mk("app", "purge", code), "Ok")), "the code is removed from the store before a token is saved or returned")
        ep = i.path("expiry", sv[v], dated)
        f.require(f"{k}:expiry", sites, not_expired(at(S, ep)), "the code's stored expiry has not passed")
        stage = locate(sv[v], None, lambda t: t.op == "adt" and t.a[0].endswith("::Stage")) if sv[v] is not None else []
        st = at(sv[v], stage) if stage else None
        if st is None or st.op != "adt": ctx.fail(f"{k}:stage-anchor", "the stored state records its stage", f.where)
        else: f.require(f"{k}:stage", sites, is_variant(at(S, stage), st.a[1]), f"the code was issued for the {v} grant")
        srv = payload(mk("app", "Metadata::server", field(REQ, None, "credential_issuer"), NONE))
        gs = field(field(srv, None, "oauth"), None, "grant_types_supported")
        f.require(f"{k}:supported", sites, contains(inner(gs), i.gt(v)), "the authorization server supports the grant type")
        for val, s, w, t in f.puts: ctx.ob(f"{k}:fresh", calls_of(val[0], "gen::token") == [val[0]], "the token is saved under a freshly generated access token", w, ap(val[0])[:200])
        for r, s in f.good(k):
            at_ = [x for x in subterms(r) if x.op == "adt" and x.a[0].endswith("TokenResponse")]
            tk = field(at_[0], None, "access_token") if at_ else None
            ctx.ob(f"{k}:returned", tk is not None and any(val[0] is tk for val, *_ in f.puts), "the access token returned is the one saved", f.where, ap(r)[:200])
    ctx.floor("guard facts proved", sum(o["holds"] for o in ctx.obs), 12)

@prop("C17", "Must-fact dataflow over the token endpoint for an arbitrary request and stored state: on every path to a saved token or successful response, "
      "a pre-authorized code comes with exactly the PIN saved with the offer (none iff none was set), an authorization code with the client id and redirect "
      "URI saved at authorization and a verifier whose code challenge is the saved one; a client that names itself was found in the client metadata, and one that does not is served only for a pre-authorized code where the server supports anonymous access.", T)
def c17(ctx):
    i = Issuer(ctx); sv = kinds(i, ctx)
    v = "PreAuthorizedCode"; f = i.token(v); S = state_of(i, v)
    pin = i.path("PIN", sv[v], call_named("gen::tx_code"))
    req = field(field(REQ, None, "grant_type"), v, "tx_code")
    for s, w in f.okstates(v) + f.putstates():
        ctx.ob("token:pin", opt_eq(s, req, at(S, pin)), "the PIN presented equals the PIN saved with the offer", w, f"not established: {ap(req)} = {ap(at(S, pin))}")
    v = "AuthorizationCode"; f = i.token(v); S = state_of(i, v); g = field(REQ, None, "grant_type")
    o = REQ
    def p(n): return i.path(n, sv[v], same(field(REQ, None, n)))
    for s, w in f.okstates(v) + f.putstates():
        c = field(REQ, None, "client_id"); sc = at(S, p("client_id"))
        ctx.ob("token:client", opt_eq(s, c, some(sc)), "the client is the one the code was issued to", w, f"not established: {ap(c)} = {ap(sc)}")
        r = field(g, v, "redirect_uri"); sr = at(S, p("redirect_uri"))
        ctx.ob("token:redirect", opt_eq(s, r, sr), "the redirect URI is the one of the authorization request", w, f"not established: {ap(r)} = {ap(sr)}")
        cv = field(g, v, "code_verifier"); ch = at(S, p("code_challenge"))
        ctx.ob("token:pkce", s.prove(is_variant(cv, "Some")) and s.prove(eq(mk("app", "pkce::code_challenge", inner(cv)), ch)),
               "the challenge of the verifier presented is the challenge saved at authorization", w, f"not established for {ap(ch)}")
    for v in GRANTS:
        f = i.token(v); c = field(REQ, None, "client_id")
        has = is_variant(c, "Some"); known = is_variant(mk("app", "Metadata::client", inner(c)), "Ok")
        f.require(f"token:client-known:{v}", f.okstates(v) + f.putstates(), known if v == "AuthorizationCode" else disj(neg(has), known), "a client that names itself is registered")
        if v == "AuthorizationCode": continue
        anon = field(payload(mk("app", "Metadata::server", field(REQ, None, "credential_issuer"), NONE)), None, "pre_authorized_grant_anonymous_access_supported")
        f.require("token:anonymous", f.okstates(v) + f.putstates(), [disj(has, anon)], "a client that does not name itself is served only where the server supports anonymous access")
        f.require("token:anonymous-empty", f.okstates(v) + f.putstates(), [disj(neg(has), neg(empty(inner(c))), anon)], "an empty client id counts as none")
        ctx.ob("token:anonymous-served", any((lambda x: x.assume(has, False) and x.assume(anon, True))(s.copy()) for _, s in f.good(v)), "a server that supports anonymous access serves it", f.where, "every path without a client id refuses")
    ctx.floor("guard facts proved", sum(o["holds"] for o in ctx.obs), 8)

# ------------------------------------------------------------- what a token authorises
CFG = [string("cfg1"), string("cfg2"), string("cfg3")]
def ids(c): return [string(c.a[1] + "/id1"), string(c.a[1] + "/id2")]
def subject(identifiers=ids):
    """A subject service that authorises each configuration for its own dataset identifiers."""
    seen = []
    def f(e, st, a, c):
        s, g = e.deep(st, a[1]), e.deep(st, a[2])
        seen.append((s, g))
        if not is_const(g, "str"): return None
        return [(ok(listof(*identifiers(g))), st)]
    return f, seen
def detail(p, c, **kw):
    cr = c if c.op == "adt" else adt(OI + "CredentialAuthorization", "ConfigurationId", True, (("credential_configuration_id", c), ("claims", kw.pop("claims", NONE))))
    return struct(p, OI + "AuthorizationDetail", None, type_=variant(p, OI + "AuthorizationDetailType", "OpenIdCredential"), credential=cr, **kw)
def maps(t):
    return [x for x in subterms(t) if x.op == "insert"]
def unroll(e): e.unroll = 16; e.split = 64

class Chain(Issuer):
    """Endpoints chained over what each leaves in the store, with literal configuration ids."""
    def offer_state(self, cfgs, **kw):
        f, seen = subject()
        r = struct(self.p, OI + "CreateOfferRequest", REQ, grant_types=some(listof(self.gt("PreAuthorizedCode"))), credential_configuration_ids=listof(*cfgs),
                   subject_id=some(tok("subject")), send_type=variant(self.p, OI + "SendType", "ByVal"), **kw)
        fl = self.flow("create_offer", r, extra={"Subject::authorize": f}, tune=unroll)
        return fl, seen
    def issuer_meta(self, cfgs, scopes=None):
        from models import mapof
        if scopes is not None:
            def conf(c): return struct(self.p, OI + "CredentialConfiguration", mk("tok", "config:" + c.a[1]), scope=some(string(scopes[c.a[1]])) if scopes.get(c.a[1]) else NONE)
            return struct(self.p, OI + "Issuer", mk("param", "issuer"), credential_configurations_supported=mapof([(c, conf(c)) for c in cfgs]))
        return struct(self.p, OI + "Issuer", mk("param", "issuer"), credential_configurations_supported=mapof([(c, mk("tok", "config:" + c.a[1])) for c in cfgs]))
    def auth_state(self, details, scope=NONE, supported=None, scopes=None, service=None, **kw):
        f, seen = subject() if service is None else (service, [])
        o = struct(self.p, OI + "RequestObject", REQ, authorization_details=some(listof(*details)) if details is not None else NONE, scope=scope, subject_id=tok("subject"), **kw)
        meta = self.issuer_meta(supported or CFG, scopes)
        fl = self.flow("authorize", adt(OI + "AuthorizationRequest", "Object", True, (("0", o),)), tune=unroll,
                       extra={"Subject::authorize": f, "Metadata::issuer": lambda e, st, a, c: [(ok(meta), st)]})
        return fl, seen
    def token_for(self, v, state, details=None):
        code = tok("code")
        g = variant(self.p, OI + "TokenGrantType", v, field(REQ, None, "grant_type"), **{"code" if v == "AuthorizationCode" else "pre_authorized_code": code})
        r = struct(self.p, OI + "TokenRequest", REQ, grant_type=g, authorization_details=some(listof(*details)) if details is not None else NONE)
        return self.flow("token", r, cells={code: ok(state)}, tune=unroll)
def one(xs): return next(iter(xs), None)
def granted(state, cfgs):
    """{identifier: the value saved for it} in a saved token state, or None."""
    from models import entries
    ms = [m for m in maps(state)]
    ms = [m for m in ms if not any(m is not n and mentions(n, m) for n in ms)]
    if not ms: return {} if any(x.op == "array" and not x.a for x in subterms(state)) else None
    es = entries(ms[0])
    return None if es is None else dict(es)
def consts(t): return {x for x in subterms(t) if is_const(x, "str")}

def check_token(ctx, i, key, f, want, rule, shown=None):
    """Every saved token holds exactly the wanted identifiers, each with its own configuration."""
    full = {d: c for c in want for d in ids(c)}
    n = 0
    for val, s, w, t in f.puts:
        n += 1
        g = granted(val[1], want)
        good = g is not None and set(g) == set(full) and all((consts(x) & {y for c in CFG for y in [c] + ids(c)}) == {d, full[d]} for d, x in g.items())
        ctx.ob(key, good, rule, w, f"saved: {sorted(ap(k) for k in g) if g is not None else None}, expected {sorted(ap(k) for k in full)}")
    if n == 0: ctx.fail(key, rule, f.where, "no token is saved")
    for r, s in f.good(key):
        x = consts(r) & {d for c in CFG for d in ids(c)}
        ctx.ob(key + ":response", x <= set(full), "the token response names no identifier that is not granted", f.where, f"{sorted(ap(k) for k in x)}")

@prop("C18", "Value-flow analysis over the chained endpoints (offer or authorization, then token) with literal configuration ids and opaque everything else: the "
      "token saved holds exactly the dataset identifiers the subject service returned for the granted configurations, each paired with its own configuration; "
      "a request naming a subset keeps exactly that subset, one naming anything not granted reaches neither a save nor a success; the subject is carried over unchanged.", T)
def c18(ctx):
    i = Chain(ctx); a, b, c = CFG
    fo, seen = i.offer_state([a, b]); st = i.saved(fo, "anchor:offer")
    if st is None: return
    v = "PreAuthorizedCode"
    check_token(ctx, i, "offer:all", i.token_for(v, st), [a, b], "without authorization details the token grants everything offered, and nothing else")
    for n, want in (("first", [a]), ("second", [b]), ("both", [a, b]), ("reversed", [b, a])):
        check_token(ctx, i, f"offer:{n}", i.token_for(v, st, [detail(i.p, x) for x in want]), want, "with authorization details the token grants exactly the requested part of what was offered")
    for n, ds in (("unknown", [c]), ("unknown-last", [a, c]), ("unknown-first", [c, b])):
        f = i.token_for(v, st, [detail(i.p, x) for x in ds])
        ctx.ob(f"offer:{n}", not f.oks() and not f.puts, "a token request for a credential that was not offered is refused", f.where, f"{len(f.oks())} successful outcomes, {len(f.puts)} saved tokens")
    fo, seen = i.offer_state([b]); st = i.saved(fo, "anchor:offer")
    if st is not None: check_token(ctx, i, "offer:single", i.token_for(v, st), [b], "the token grants exactly what was offered")
    v = "AuthorizationCode"
    for n, want in (("first", [a]), ("both", [a, c])):
        fa, seen = i.auth_state([detail(i.p, x) for x in want]); st = i.saved(fa, "anchor:authorize")
        if st is None: continue
        check_token(ctx, i, f"authorize:{n}", i.token_for(v, st), want, "the token grants exactly what was authorized")
    # the subject is carried over
    for v, st, f in (("PreAuthorizedCode", None, i.offer_state([a])[0]), ("AuthorizationCode", None, i.auth_state([detail(i.p, a)])[0])):
        st = i.saved(f, f"anchor:{v}")
        if st is None: continue
        sp = i.path("subject", st, same(tok("subject")))
        t = i.token_for(v, st)
        for val, s, w, _ in t.puts:
            ctx.ob(f"subject:{v}", at(val[1], sp) is at(st, sp) and mentions(at(st, sp), tok("subject")), "the token is saved for the subject the code was issued for", w, ap(at(val[1], sp))[:200])
    ctx.floor("chained scenarios", sum(o["key"].startswith(("offer:", "authorize:")) for o in ctx.obs), 8)

# ------------------------------------------------------------- authorization requests
def checked_request(i, f, k, o, sites, par):
    """The guards every accepted authorization request o has passed."""
    R = lambda n: field(o, None, n)
    cl = payload(mk("app", "Metadata::client", R("client_id"))); sv = payload(mk("app", "Metadata::server", R("credential_issuer"), NONE))
    co, so = field(cl, None, "oauth"), field(sv, None, "oauth")
    has = lambda b, n, x: contains(inner(field(b, None, n)), x)
    need = f.require
    need(f"{k}:client", sites, is_variant(mk("app", "Metadata::client", R("client_id")), "Ok"), "the client is registered")
    need(f"{k}:server", sites, is_variant(mk("app", "Metadata::server", R("credential_issuer"), NONE), "Ok"), "the authorization server is known")
    need(f"{k}:issuer", sites, is_variant(mk("app", "Metadata::issuer", R("credential_issuer")), "Ok"), "the credential issuer is known")
    rp = field(so, None, "require_pushed_authorization_requests")
    if not par: need(f"{k}:par-required", sites, [disj(neg(is_variant(rp, "Some")), neg(inner(rp)))], "a server that requires pushed requests accepts no other")
    need(f"{k}:redirect", sites, conj(is_variant(R("redirect_uri"), "Some"), has(co, "redirect_uris", inner(R("redirect_uri")))), "the redirect URI is one the client registered")
    need(f"{k}:response-type-client", sites, has(co, "response_types", R("response_type")), "the client may use the response type")
    need(f"{k}:response-type-server", sites, contains(field(so, None, "response_types_supported"), R("response_type")), "the server supports the response type")
    need(f"{k}:grant-client", sites, has(co, "grant_types", i.gt("AuthorizationCode")), "the client may use the authorization code grant")
    need(f"{k}:grant-server", sites, has(so, "grant_types_supported", i.gt("AuthorizationCode")), "the server supports the authorization code grant")
    need(f"{k}:method", sites, has(so, "code_challenge_methods_supported", R("code_challenge_method")), "the server supports the PKCE method")
    n = length(R("code_challenge"))
    need(f"{k}:challenge", sites, conj(neg(lt(n, integer(43))), neg(lt(integer(128), n))), "a PKCE challenge of 43 to 128 characters is present")
    need(f"{k}:subject", sites, neg(empty(R("subject_id"))), "the holder is identified")
    need(f"{k}:asks", sites, disj(is_variant(R("authorization_details"), "Some"), is_variant(R("scope"), "Some")), "something is asked for")
def offer_bound(i, f, k, o, sites, sv):
    """A request that names an offer belongs to the offer's subject, and the offer has not expired."""
    s_ = field(o, None, "issuer_state"); S = payload(stored(inner(s_)))
    no = neg(is_variant(s_, "Some"))
    ep = i.path("offer expiry", sv, dated); sp = i.path("offer subject", sv, same(field(REQ, None, "subject_id")))
    f.require(f"{k}:offer-known", sites, disj(no, is_variant(stored(inner(s_)), "Ok")), "the offer named is in the store")
    f.require(f"{k}:offer-live", sites, [disj(no, x) for x in not_expired(at(S, ep))], "the offer named has not expired")
    f.require(f"{k}:offer-subject", sites, [disj(no, eq(at(S, sp), some(field(o, None, "subject_id"))))], "the offer named was made to this subject")
def par_state(i, ctx):
    f = i.flow("par", struct(i.p, OI + "PushedAuthorizationRequest", REQ, request=struct(i.p, OI + "RequestObject", field(REQ, None, "request"), authorization_details=NONE)))
    v = one(val[1] for val, *_ in f.puts)
    if v is None: ctx.fail("anchor:par", "a pushed request is saved", f.where)
    return f, v

@prop("C19", "Must-fact dataflow over the authorization and pushed-authorization endpoints for an arbitrary request: on every path to saved state or success, the "
      "client, server and issuer are known, the redirect URI is registered, response type, grant, PKCE method and challenge length are allowed, the holder is identified, "
      "an offer named in the request is live and was made to this subject; a pushed request read back passes the same guards and has not expired.", T)
def c19(ctx):
    i = Issuer(ctx)
    off = i.saved(i.offered(), "anchor:offer")
    f = i.authorized(authorization_details=NONE)
    sites = f.okstates("authorize") + f.putstates()
    checked_request(i, f, "authorize", REQ, sites, False); offer_bound(i, f, "authorize", REQ, sites, off)
    # pushed: stored on the same conditions, and read back only while it lives
    f, v = par_state(i, ctx)
    o = field(REQ, None, "request"); sites = f.okstates("par") + f.putstates()
    checked_request(i, f, "par", o, sites, True); offer_bound(i, f, "par", o, sites, off)
    req = field(field(mk("app", "Metadata::server", field(o, None, "credential_issuer"), NONE), "Ok", "0"), None, "oauth")
    rp = field(req, None, "require_pushed_authorization_requests")
    reach = False
    for r, s in f.good("par"):
        s2 = s.copy(); reach |= s2.assume(is_variant(rp, "Some")) and s2.assume(inner(rp))
    ctx.ob("par:accepted-when-required", reach, "a pushed request can be accepted by a server that requires pushed requests", f.where, "every path to success refuses")
    if v is None: return
    ro = locate(v, None, lambda t: t.op == "adt" and t.a[0] == OI + "RequestObject")
    ctx.ob("par:kept", bool(ro) and at(v, ro) is struct(i.p, OI + "RequestObject", o, authorization_details=NONE), "the request saved is the request pushed", f.where, ap(at(v, ro))[:300] if ro else "")
    key = tok("request_uri")
    f = i.flow("authorize", adt(OI + "AuthorizationRequest", "Uri", True, (("0", struct(i.p, OI + "RequestUri", None, request_uri=key)),)))
    S = payload(stored(key)); o2 = at(S, ro); sites = f.okstates("pushed") + f.putstates()
    f.require("pushed:known", sites, is_variant(stored(key), "Ok"), "the request URI names a pushed request in the store")
    stage = [(a, b) for a, b in ro if a][:1]
    for a, b in stage:
        pre = ro[:[x for x, _ in ro].index(a)]
        f.require("pushed:stage", sites, is_variant(at(S, pre), a), "what the request URI names is a pushed request")
    exp = [p for p in all_paths(v) if dated(at(v, p))]
    f.require("pushed:live", sites, [x for p in exp for x in not_expired(at(S, p))], "the pushed request has not expired")
    checked_request(i, f, "pushed", o2, sites, True); offer_bound(i, f, "pushed", o2, sites, off)
    ctx.floor("guard facts proved", sum(o["holds"] for o in ctx.obs), 40)
def all_paths(t, pre=()):
    if t.op != "adt": return [list(pre)]
    return [p for n, v in t.a[3] for p in all_paths(v, pre + ((t.a[1] if t.a[2] else None, n),))] or [list(pre)]

@prop("C20", "Value-flow and must-fact analysis of the authorization endpoint: the state saved under the fresh code holds this request's own client id, redirect URI, PKCE challenge "
      "and method, and subject, and the response returns that code and echoes the request's state; with literal configuration ids, what is granted is exactly what was asked for, "
      "each configuration with the identifiers the subject service returned for it and this subject; an unsupported configuration, scope or detail, or a subject "
      "service refusal, reaches no success.", T)
def c20(ctx):
    i = Chain(ctx); a, b, c = CFG
    f = i.authorized(authorization_details=NONE)
    sv = i.saved(f, "anchor:authorize")
    if sv is None: return
    have = {n for n in ("client_id", "redirect_uri", "code_challenge", "code_challenge_method", "subject_id")}
    for n in sorted(have):
        x = field(REQ, None, n); p = locate(sv, None, same(x)); v = at(sv, p) if p else None
        ctx.ob(f"saved:{n}", v is x or v is some(x), "the code's state holds this request's own value", f.where, f"{n}: {ap(v)[:200] if v is not None else 'absent'}")
    for r, s in f.good("authorize"):
        key = [val[0] for val, *_ in f.puts if calls_of(val[0], "gen::auth_code")]
        ctx.ob("response:code", any(field(r, None, "code") is k for k in key), "the code returned is the one the state is saved under", f.where, ap(r)[:200])
        ctx.ob("response:state", field(r, None, "state") is field(REQ, None, "state"), "the client's state is echoed", f.where, ap(field(r, None, "state"))[:200])
        ru = field(r, None, "redirect_uri")
        ctx.ob("response:redirect", ru is inner(field(REQ, None, "redirect_uri")) or ru is field(REQ, None, "redirect_uri"), "the redirect goes to the request's redirect URI", f.where, ap(ru)[:200])
    def grants(key, f, want, asks, rule):
        n = 0
        for val, s, w, t in f.puts:
            n += 1; x = consts(val[1]) & {y for g in CFG for y in [g] + ids(g)}
            ctx.ob(key, x == {y for g in want for y in [g] + ids(g)}, rule, w, f"saved {sorted(ap(y) for y in x)}")
            items = [y for y in subterms(val[1]) if y.op == "adt" and any(n == "credential_identifiers" for n, _ in y.a[3])] or \
                    [y for y in subterms(val[1]) if y.op == "adt" and any(v.op == "array" and set(v.a) == set(ids(g)) for g in CFG for _, v in y.a[3])]
            for y in items:
                gs = consts(y) & set(CFG); ds = consts(y) - gs
                ctx.ob(key + ":paired", len(gs) == 1 and {d for d in ds if "/id" in d.a[1]} == set(ids(one(gs))), "each configuration is saved with its own identifiers", w, ap(y)[:200])
            ctx.ob(key + ":count", len(items) == len(want), "one entry is saved per configuration", w, f"{len(items)}")
        ctx.ob(key + ":asked", {g for s_, g in asks} == set(want) and all(s_ is tok("subject") for s_, g in asks), "the subject service is asked about this subject and each configuration granted", f.where, f"{[(ap(x), ap(y)) for x, y in asks]}"[:300])
        if n == 0: ctx.fail(key, rule, f.where, "nothing is saved")
    for n, want in (("one", [a]), ("two", [a, c]), ("swapped", [c, a])):
        f, asks = i.auth_state([detail(i.p, x) for x in want])
        grants(f"details:{n}", f, want, asks, "what is granted is exactly what the authorization details ask for")
    def refused(key, f, rule): ctx.ob(key, not f.oks() and not f.puts, rule, f.where, f"{len(f.oks())} successful outcomes, {len(f.puts)} records saved")
    W3C = adt(OI + "ProfileClaims", "W3c", True, (("0", tok("definition")),))
    for n, ds in (("unsupported", [detail(i.p, c)]), ("one-unsupported", [detail(i.p, a), detail(i.p, c)]), ("unsupported-claims", [detail(i.p, c, claims=some(W3C))])):
        f, asks = i.auth_state(ds, supported=[a, b])
        refused(f"details:{n}", f, "a configuration the issuer does not support is refused")
    # claims asked for are verified against the configuration they are for
    f, asks = i.auth_state([detail(i.p, a, claims=some(adt(OI + "ProfileClaims", "SdJwt", True, (("0", tok("claims")),))))])
    vc = [x for val, s, w, t in f.puts for x in s.units if x.op == "is" and x.a[1] == "Ok" and x.a[0].op == "app" and x.a[0].a[0].endswith("verify_claims") and s.units[x]]
    ctx.ob("details:claims-verified", bool(f.puts) and any(x.a[0].a[1] is mk("tok", "config:cfg1") and mentions(x.a[0], tok("claims")) for x in vc),
           "claims asked for are verified against the configuration", f.where, f"{[ap(x)[:100] for x in vc]}")
    # refusal by the subject service
    def deny(e, st, a_, c_): return [(err(tok("denied")), st)]
    for n, kw in (("details", dict(authorization_details=some(listof(detail(i.p, a))), scope=NONE)),):
        o = struct(i.p, OI + "RequestObject", REQ, **kw)
        meta = i.issuer_meta(CFG)
        f = i.flow("authorize", adt(OI + "AuthorizationRequest", "Object", True, (("0", o),)), tune=unroll, extra={"Subject::authorize": deny, "Metadata::issuer": lambda e, st, a, c: [(ok(meta), st)]})
        refused(f"denied:{n}", f, "a subject that is not authorized gets no code")
    o = struct(i.p, OI + "RequestObject", REQ, authorization_details=some(listof()), scope=NONE)
    f, asks = i.auth_state([]); refused("details:empty", f, "an empty list of details grants nothing")
    # scopes
    SC = {"cfg1": "s1", "cfg2": "s2", "cfg3": "s1"}
    for n, sc, sup, ds, want in (("one", "s2", SC, None, [b]), ("shared", "s1", SC, None, [a, c]), ("no-scope", "s1", {"cfg1": "s1"}, None, [a]), ("with-details", "s2", SC, [a], [a, b]),
                                 ("asked-twice", "s1", SC, [a], [a, c])):
        f, asks = i.auth_state([detail(i.p, x) for x in ds] if ds else None, scope=some(string(sc)), scopes=sup)
        grants(f"scope:{n}", f, want, asks, "what is granted is exactly what the scope and the details ask for")
    for n, sc, ds in (("unknown", "s9", None), ("unknown-with-details", "s9", [a]), ("prefix", "s", None), ("case", "S1", None), ("blank", "", None)):
        f, asks = i.auth_state([detail(i.p, x) for x in ds] if ds else None, scope=some(string(sc)), scopes=SC)
        refused(f"scope:{n}", f, "a scope no configuration has is refused")
    f, _ = i.auth_state(None, scope=some(string("s1")), scopes=SC, service=deny)
    refused("denied:scope", f, "a subject that is not authorized gets no code")
    ctx.floor("scenarios", sum(o["key"].startswith(("details:", "scope:")) for o in ctx.obs), 18)
