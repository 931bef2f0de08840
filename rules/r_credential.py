"""Rules for credential issuance (vercre-issuer: credential, deferred, notification, register)."""
from registry import prop
from terms import *
from proto import *
from models import mapof, entries
from r_issuer import (T, CR, OI, REQ, CFG, Chain, ids, tok, listof, unroll, entry, one, all_paths, same, dated, call_named, subject)

CRV = CR + ("vercre_w3c_vc",)
T2 = T + ["decoding a JWS verifies its signature with the key the resolver returns for its header (vercre-infosec)"]
ACCESS = tok("access"); NONCE = tok("nonce0"); KEYNAME = "jws::decode"
def decode(e, st, a, c): return [(mk("app", KEYNAME, e.deep(st, a[0])), st)]
def dec(j): return mk("app", KEYNAME, j)
def pt(**kw): return some(mapof([(string("jwt"), tok("jwt-supported"))]))

class Issue(Chain):
    def __init__(self, ctx):
        Chain.__init__(self, ctx); self.p = ctx.program(*CRV)
    def token_state(self, cfgs):
        """What a token for these configurations leaves in the store, with its own nonce and points in time."""
        fo, _ = self.offer_state(cfgs); st = self.saved(fo, "anchor:offer")
        if st is None: return None
        ft = self.token_for("PreAuthorizedCode", st)
        v = one(val[1] for val, *_ in ft.puts)
        if v is None: self.ctx.fail("anchor:token", "the token endpoint saves a token", ft.where); return None
        return self.settle(v)
    def settle(self, v):
        times = {x for x in subterms(v) if dated(x)}
        return subst(v, {**{x: NONCE for x in calls_of(v, "gen::nonce")}, **{x: ACCESS for x in calls_of(v, "gen::token")}, **{x: tok(f"until:{ap(x.a[1])}") for x in times}})
    def config(self, n, fmt="JwtVcJson", proofs=None, profile=None):
        return struct(self.p, OI + "CredentialConfiguration", mk("param", "config:" + n), format=self.format(fmt, n, profile), proof_types_supported=pt() if proofs is None else proofs, display=NONE)
    def format(self, fmt, n, profile=None):
        return variant(self.p, OI + "Format", fmt, **{"0": profile if profile is not None else self.w3c(n)})
    def w3c(self, n, subj=NONE):
        return struct(self.p, OI + "ProfileW3c", None, credential_definition=struct(self.p, OI + "CredentialDefinition", mk("tok", "profile:" + n), credential_subject=subj, context=NONE,
                      type_=some(listof(string("VerifiableCredential"), string("type:" + n)))))
    def meta(self, **kw):
        return struct(self.p, OI + "Issuer", mk("param", "issuer"), credential_configurations_supported=mapof([(x, self.config(x.a[1], **kw)) for x in CFG]))
    def proofs(self, *js):
        return variant(self.p, OI + "Proof", "Multiple", **{"0": variant(self.p, OI + "MultipleProofs", "Jwt", **{"0": listof(*js)})})
    def proof1(self, j): return variant(self.p, OI + "Proof", "Single", proof_type=variant(self.p, OI + "SingleProof", "Jwt", jwt=j))
    def ident(self, x): return variant(self.p, OI + "CredentialIssuance", "Identifier", credential_identifier=x)
    def byformat(self, f): return variant(self.p, OI + "CredentialIssuance", "Format", **{"0": f})
    def request(self, cred=None, proof=None, **kw):
        kw.setdefault("credential", cred if cred is not None else self.ident(ids(CFG[0])[0]))
        return struct(self.p, OI + "CredentialRequest", REQ, access_token=ACCESS, proof=some(proof) if proof is not None else NONE, **kw)
    def credential(self, req, state=None, meta=None, dataset=None, extra=None):
        m = meta if meta is not None else self.meta()
        x = {"Metadata::issuer": lambda e, st, a, c: [(ok(m), st)] if e.deep(st, a[1]) is field(REQ, None, "credential_issuer") else None, KEYNAME: decode}
        if dataset is not None: x["Subject::dataset"] = lambda e, st, a, c: [(ok(dataset), st)]
        if extra: x.update(extra)
        return Flow(self.ctx, CRV, entry(self.p, "vercre_issuer", "credential"), params={1: req}, cells={ACCESS: ok(state)} if state is not None else None, tune=unroll,
                    opaque=("::verify_claims$", "to_credential$", "^vercre_w3c_vc::proof::create$"), extra=x)
    def issued(self, f, key):
        """(outcome, state, issued?) of every success: a credential or a transaction id."""
        out = []
        for r, s in f.good(key):
            t = field(r, None, "response")
            if t.op != "adt": self.ctx.fail(key + ":kind", "a response is a credential or a transaction id", f.where, ap(t)[:200]); continue
            out.append((r, s, t.a[1]))
        return out
    def sites(self, f, key):
        """Every success, and every place where something other than the renewed nonce is saved."""
        r = f.okstates(key)
        return r + [(s, w) for val, s, w, t in f.puts if val[0] is not ACCESS]

@prop("C21", "Must-fact dataflow over the credential endpoint: on every path to an issued or deferred credential the access token was found in the store in the stage the token "
      "endpoint saves, neither it nor its nonce has expired, and, where the configuration supports proofs, every proof in the request (one, or each of a non-empty list) was "
      "decoded with its signature checked, has the key-proof type, the nonce saved with the token, this issuer as audience and a key id; an access token grants only the credentials saved with it.", T2)
def c21(ctx):
    i = Issue(ctx); a, b, c = CFG; j1, j2 = tok("jwt1"), tok("jwt2")
    ts = i.token_state([a])
    if ts is None: return
    # arbitrary stored state
    S = payload(stored(ACCESS)); f = i.credential(i.request(proof=i.proof1(j1)), meta=None)
    sites = i.sites(f, "state")
    f.require("token:known", sites, is_variant(stored(ACCESS), "Ok"), "the access token is in the store")
    stage = locate(ts, None, lambda t: t.op == "adt" and t.a[0].endswith("::Stage")); st = at(ts, stage) if stage else None
    if st is None or st.op != "adt": ctx.fail("anchor:stage", "the stored state records its stage", f.where)
    else: f.require("token:stage", sites, is_variant(at(S, stage), st.a[1]), "what the access token names is a token, not another stage of issuance")
    times = [p for p in all_paths(ts) if at(ts, p).op == "tok" and str(at(ts, p).a[0]).startswith("until:")]
    for p in times: f.require(f"live:{'token' if not any(v for v, _ in p) else 'nonce'}", sites, not_expired(at(S, p)), "neither the access token nor its nonce has expired")
    ctx.ob("live:anchors", len(times) >= 2, "the token and its nonce each have an expiry", f.where, f"{len(times)} points in time saved")
    # proofs
    def proof_facts(key, f, js):
        sites = i.sites(f, key)
        n = one(p for p in all_paths(ts) if at(ts, p) is NONCE)
        for k, j in enumerate(js):
            d = payload(dec(j)); h, cl = field(d, None, "header"), field(d, None, "claims")
            f.require(f"{key}:signature{k}", sites, is_variant(dec(j), "Ok"), "every proof is decoded and its signature checked")
            f.require(f"{key}:type{k}", sites, is_variant(field(h, None, "typ"), "Proof"), "every proof is of the key-proof type")
            non = field(cl, None, "nonce")
            for s, w in sites: ctx.ob(f"{key}:nonce{k}", opt_eq(s, non, some(NONCE)), "every proof carries the nonce saved with the token", w, "not established")
            f.require(f"{key}:audience{k}", sites, [eq(field(cl, None, "aud"), field(REQ, None, "credential_issuer")), eq(field(cl, None, "aud"), field(mk("param", "issuer"), None, "credential_issuer"))], "every proof is made for this issuer")
            f.require(f"{key}:key{k}", sites, is_variant(field(h, None, "key"), "KeyId"), "every proof names its key")
    for key, pr, js in (("single", i.proof1(j1), [j1]), ("list1", i.proofs(j1), [j1]), ("list2", i.proofs(j1, j2), [j1, j2])):
        proof_facts(key, i.credential(i.request(proof=pr), ts), js)
    f = i.credential(i.request(i.byformat(i.format("JwtVcJson", "cfg1")), proof=i.proof1(j1)), ts); proof_facts("format", f, [j1])
    def refused(key, f, rule):
        bad = [w for val, s, w, t in f.puts if val[0] is not ACCESS]
        ctx.ob(key, not f.oks() and not bad, rule, f.where, f"{len(f.oks())} successful outcomes, records saved at {bad}")
    refused("proof:missing", i.credential(i.request(), ts), "a credential that needs a proof is not issued without one")
    refused("proof:none", i.credential(i.request(proof=i.proofs()), ts), "an empty list of proofs is no proof")
    refused("proof:unsupported", i.credential(i.request(proof=i.proof1(j1)), ts, meta=i.meta(proofs=some(mapof([(string("cwt"), tok("x"))])))), "a type of proof the configuration does not support is refused")
    # what the token grants
    for n, cr in (("identifier", i.ident(string("other"))), ("config", i.ident(ids(b)[0])), ("format", i.byformat(i.format("JwtVcJson", "cfg2"))), ("unknown-format", i.byformat(i.format("JwtVcJson", "cfg9")))):
        refused(f"granted:{n}", i.credential(i.request(cr, proof=i.proof1(j1)), ts), "a credential the token was not granted for is refused")
    f = i.credential(i.request(proof=i.proof1(j1)), ts, meta=struct(i.p, OI + "Issuer", mk("param", "issuer"), credential_configurations_supported=mapof([(b, i.config("cfg2"))])))
    refused("granted:withdrawn", f, "a configuration the issuer no longer supports is refused")
    ctx.floor("guard facts proved", sum(o["holds"] for o in ctx.obs), 30)

CLAIMS = [string("given"), string("family"), string("address")]
def claimset(*ks): return mapof([(k, tok("claim:" + k.a[1])) for k in ks])

@prop("C22", "Value-flow analysis of the credential endpoint with literal configurations, identifiers and claim names: on every path to an issued credential the document signed holds "
      "exactly the claims the subject service returned for the token's subject and the granted identifier (narrowed to those the request names), the holder of the proof as its subject, "
      "this issuer, the configuration's type and the status looked up for this credential, and is signed by this issuer's signer; pending data yields a saved transaction and no credential; "
      "each issuance replaces the nonce, saves it with the token and returns it.", T2)
def c22(ctx):
    i = Issue(ctx); a, b, c = CFG; j1 = tok("jwt1")
    ts = i.token_state([a, b])
    if ts is None: return
    sub = field(mk("param", "issuer"), None, "credential_issuer")
    kid = field(field(field(payload(dec(j1)), None, "header"), None, "key"), "KeyId", "0")
    did = lambda t, s: any(is_before(t, kid, x, s) for x in (const('char', '#'), string('#')))
    IDS = {x for g in CFG for x in ids(g)}
    def content(key, f, ident, cfg, claims, fmt="JwtVcJson"):
        n = 0
        for r, s, k in i.issued(f, key):
            if k != "Credential": continue
            n += 1; w = f.where; t = field(r, None, "response")
            sg = [x for x in subterms(t) if x.op == "app" and x.a[0] == "SecOps::signer"]
            ctx.ob(f"{key}:signer", len(sg) == 1 and (field(REQ, None, "credential_issuer") in sg[0].a or sub in sg[0].a), "the credential is signed by this issuer's signer", w, f"{[ap(x)[:100] for x in sg]}")
            if fmt == "IsoMdl":
                cr = [x for x in subterms(t) if x.op == "app" and x.a[0].endswith("to_credential")]
                ctx.ob(f"{key}:claims", len(cr) == 1 and cr[0].a[1] is claims, "the credential holds exactly the claims of this subject and identifier", w, ap(cr[0].a[1])[:200] if cr else ap(t)[:200]); continue
            pl = [x for x in subterms(t) if x.op == "adt" and x.a[0].endswith("VerifiableCredential")]
            if len(pl) != 1: ctx.fail(f"{key}:document", "one credential is signed", w, ap(t)[:200]); continue
            vc = pl[0]; F = lambda n: field(vc, None, n)
            cs = [x for x in subterms(F("credential_subject")) if x.op == "adt" and x.a[0].endswith("CredentialSubject")]
            ctx.ob(f"{key}:claims", len(cs) == 1 and field(cs[0], None, "claims") is claims, "the credential holds exactly the claims of this subject and identifier", w, ap(field(cs[0], None, "claims"))[:200] if cs else "")
            h = field(cs[0], None, "id") if cs else None
            ctx.ob(f"{key}:holder", h is not None and h.op == "adt" and h.a[1] == "Some" and did(h.a[3][0][1], s), "the credential's subject is the DID that made the proof", w, ap(h)[:200] if h is not None else "")
            iss = [x for x in subterms(F("issuer")) if x.op in ("fld", "param", "field")]
            ctx.ob(f"{key}:issuer", mentions(F("issuer"), sub) or mentions(F("issuer"), field(REQ, None, "credential_issuer")), "the credential names this issuer", w, ap(F("issuer"))[:200])
            stt = [x for x in subterms(F("credential_status")) if x.op == "app" and x.a[0] == "Status::status"]
            ctx.ob(f"{key}:status", len(stt) == 1 and tok("subject") in stt[0].a and ident in stt[0].a, "the status is the one of this subject's credential", w, f"{[ap(x)[:160] for x in stt]}")
            ctx.ob(f"{key}:type", mentions(F("type_"), string("type:" + cfg.a[1])), "the credential is of the configuration's type", w, ap(F("type_"))[:200])
            ctx.ob(f"{key}:time", any(x is NOW for x in subterms(t)), "the credential is dated at issuance", w)
        if n == 0: ctx.fail(key, "a credential can be issued", f.where, "no path issues one")
    ds = lambda ident: payload(mk("app", "Subject::dataset", tok("subject"), ident))
    # every identifier the token was granted
    for g in (a, b):
        for ident in ids(g):
            f = i.credential(i.request(i.ident(ident), proof=i.proof1(j1)), ts)
            content(f"identifier:{ident.a[1]}", f, ident, g, field(ds(ident), None, "claims"))
    # by format: narrowed to the claims the request names
    data = struct(i.p, OI + "Dataset", None, claims=claimset(*CLAIMS), pending=mk("tok", "pending"))
    for n, want in (("all", None), ("one", [CLAIMS[1]]), ("two", [CLAIMS[0], CLAIMS[2]]), ("foreign", [CLAIMS[0], string("extra")]), ("none", [])):
        cs = NONE if want is None else some(mapof([(k, tok("def")) for k in want]))
        for fmt in ("JwtVcJson", "IsoMdl"):
            if fmt == "JwtVcJson": pr = i.w3c("cfg1", cs)
            else: pr = struct(i.p, OI + "ProfileIsoMdl", mk("tok", "profile:cfg1"), claims=cs)
            fm = i.format(fmt, "cfg1", pr)
            cfgs = mapof([(a, struct(i.p, OI + "CredentialConfiguration", mk("param", "config:cfg1"), format=fm, proof_types_supported=pt(), display=NONE))])
            m = struct(i.p, OI + "Issuer", mk("param", "issuer"), credential_configurations_supported=cfgs)
            f = i.credential(i.request(i.byformat(fm), proof=i.proof1(j1)), i.token_state([a]), meta=m, dataset=data)
            keep = claimset(*[k for k in CLAIMS if want is None or k in want])
            fl = [x for r, s, k in i.issued(f, f"format:{n}") if k == "Credential" for x in subterms(r) if x.op == "adt" and x.a[0].endswith("CredentialSubject")] if fmt == "JwtVcJson" else \
                 [x for r, s, k in i.issued(f, f"format:{n}") if k == "Credential" for x in subterms(r) if x.op == "app" and x.a[0].endswith("to_credential")]
            for x in fl:
                es = entries(field(x, None, "claims") if fmt == "JwtVcJson" else x.a[1])
                ctx.ob(f"format:{fmt}:{n}", es is not None and dict(es) == dict(entries(keep)), "a request that names claims gets exactly those of the dataset", f.where, f"{[ap(k) for k, _ in es] if es is not None else None}")
            if not fl: ctx.fail(f"format:{fmt}:{n}", "a credential can be issued", f.where, "no path issues one")
    # claims narrowed by what was authorized
    from r_issuer import detail
    cm = mapof([(k, tok("def")) for k in CLAIMS[:2]])
    for n, d in (("claims", detail(i.p, a, claims=some(adt(OI + "ProfileClaims", "SdJwt", True, (("0", cm),))))),
                 ("definition", detail(i.p, a, claims=some(adt(OI + "ProfileClaims", "W3c", True, (("0", struct(i.p, OI + "CredentialDefinition", tok("d"), credential_subject=some(cm))),)))))):
        fa, _ = i.auth_state([d]); st = i.saved(fa, "anchor:authorize")
        if st is None: continue
        ft = i.token_for("AuthorizationCode", st)
        v = one(val[1] for val, *_ in ft.puts)
        if v is None: ctx.fail(f"authorized:{n}", "a token is issued for authorized claims", ft.where); continue
        f = i.credential(i.request(proof=i.proof1(j1)), i.settle(v), dataset=data); k2 = 0
        for r, s_, k in i.issued(f, f"authorized:{n}"):
            for x in subterms(r):
                if not (x.op == "adt" and x.a[0].endswith("CredentialSubject")): continue
                es = entries(field(x, None, "claims")); k2 += 1
                ctx.ob(f"authorized:{n}", es is not None and {y for y, _ in es} == set(CLAIMS[:2]), "a credential authorized for some claims holds only those", f.where, f"{[ap(y) for y, _ in es] if es is not None else None}")
        if k2 == 0: ctx.fail(f"authorized:{n}", "a credential can be issued", f.where, "no path issues one")
    # pending data
    f = i.credential(i.request(proof=i.proof1(j1)), ts, dataset=data)
    pend = tok("pending"); n = 0
    for r, s, k in i.issued(f, "pending"):
        t = field(r, None, "response")
        if k == "Credential": ctx.ob("pending:issued", s.prove(neg(pend)), "a credential is issued only when its data is not pending", f.where, "issued while pending")
        else:
            n += 1; x = t.a[3][0][1]
            pu = [val for val, *_ in f.puts if val[0] is x]
            ctx.ob("pending:deferred", s.prove(pend) and bool(pu) and calls_of(x, "gen::transaction_id") == [x], "pending data yields a fresh transaction id, saved under that id", f.where, ap(t)[:200])
            ctx.ob("pending:request", bool(pu) and any(y is i.request(proof=i.proof1(j1)) for y in subterms(pu[0][1])), "the deferred transaction holds this request", f.where, ap(pu[0][1])[:200] if pu else "")
            ctx.ob("pending:silent", not any(x.op == "app" and x.a[0] in ("proof::create",) for x in subterms(r)), "a deferred response holds no credential", f.where)
    if n == 0: ctx.fail("pending:deferred", "pending data defers issuance", f.where, "no path defers")
    # nonce
    fresh = lambda x: calls_of(x, "gen::nonce") == [x]
    npath = one(p for p in all_paths(ts) if at(ts, p) is NONCE)
    for r, s, k in i.issued(f, "nonce"):
        if k != "Credential": continue
        pu = [val for val, s2, w, t in f.puts if val[0] is ACCESS and s.units.get(mk("ev", "put", *val))]
        ctx.ob("nonce:replaced", bool(pu) and fresh(at(pu[-1][1], npath)), "issuance saves a fresh nonce with the token", f.where, ap(at(pu[-1][1], npath))[:200] if pu else "not saved")
        ctx.ob("nonce:returned", bool(pu) and field(r, None, "c_nonce") is some(at(pu[-1][1], npath)), "the response returns the nonce saved", f.where, ap(field(r, None, "c_nonce"))[:200])
        ctx.ob("nonce:rest", bool(pu) and all(at(pu[-1][1], p) is at(ts, p) or dated(at(pu[-1][1], p)) for p in all_paths(ts) if p != npath), "nothing else of the token changes but its lifetime", f.where, "")
    ctx.floor("issued documents", sum(o["key"].endswith(":claims") for o in ctx.obs), 4)
