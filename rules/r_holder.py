"""Rules for the wallet's endpoints (vercre-holder)."""
from registry import prop
from terms import *
from proto import *
from models import mapof, entries
from r_issuer import T, OI, tok, listof, unroll, one
from r_credential import decode, dec, KEYNAME
from r_verifier import OV, DX, kstr, kobj

CH = ("vercre_core", "vercre_openid", "vercre_issuer", "vercre_w3c_vc", "vercre_dif_exch", "vercre_holder")
ASKS = ("Issuer::metadata", "Issuer::oauth_server", "Issuer::authorization", "Issuer::token", "Issuer::credential", "Issuer::deferred", "Issuer::logo", "Issuer::notification",
        "Verifier::request_object", "Verifier::present", "CredentialStorer::save", "CredentialStorer::find", "CredentialStorer::remove", "Signer::verification_method")
TH = T + ["the wallet's provider (issuer and verifier clients, credential store, signer, state store) behaves as its traits document",
          "decoding a JWS verifies its signature, and encoding one signs it with the wallet's key (vercre-infosec)"]
ID = tok("issuance-id"); REQ = mk("param", "request")
STATUS = ("Inactive", "Offered", "Ready", "PendingPin", "Accepted", "TokenReceived", "Requested", "Failed")
PSTATUS = ("Inactive", "Requested", "Authorized", "Failed")
CFG = (string("cfg-a"), string("cfg-b"), string("cfg-c"))

class Wallet:
    def __init__(self, ctx):
        self.ctx = ctx; self.p = ctx.program(*CH)
    def ty(self, name, mod="issuance"):
        c = [n for n in self.p.adts if n.startswith("vercre_holder::") and n.split("::")[-1] == name]
        c.sort(key=lambda n: (mod not in n, n.count("::")))
        if not c: self.ctx.fail(f"anchor:{name}", f"the wallet defines {name}", "vercre_holder", "no such type")
        return c[0] if c else None
    def fn(self, name, mod="issuance"):
        c = [b for b in self.p.bodies.values() if b["crate"] == "vercre_holder" and b.get("name") == name and b["argc"] == 2 and "{" not in b["path"] and "<" not in b["path"]]
        c.sort(key=lambda b: (mod not in b["path"], not b.get("eff_pub"), b["path"].count("::")))
        return c[0]["path"] if c else f"vercre_holder::{mod}::{name}::{name}"
    def flow(self, name, request=None, cell=None, mod="issuance", key=ID, extra=None, answers=None, tune=unroll, opaque=()):
        """answers: {ask: fn(args) -> term or None}, the peer's answer for given arguments."""
        asks = []
        def ask(n, skip):
            def f(e, st, a, c):
                v = [e.deep(st, x) for x in a[skip:]]
                t = mk("app", n, *v)
                if not e.dry: asks.append((n, v, st.copy(), (e._ctx[0].body["path"], e._ctx[1]["l"]), t))
                st.units[mk("ev", n, *v)] = True
                r = answers[n](*v) if answers and n in answers else None
                return [(r if r is not None else t, st)]
            return f
        x = {n: ask(n, 1) for n in ASKS}
        enc = ask("jws::encode", 0)
        x["jws::encode"] = lambda e, st, a, c: enc(e, st, a[:2], c)
        x[KEYNAME] = decode
        if extra: x.update(extra)
        f = Flow(self.ctx, CH, self.fn(name, mod), opaque=opaque, params={1: request} if request is not None else None, extra=x, cells={key: cell} if cell is not None else None, tune=tune)
        f.asks += asks
        return f
    def status(self, v, mod="issuance"): return variant(self.p, self.ty("Status", mod), v)
    # ---- stored records
    def grants(self, pre=None, code=None, tx=None, state=NONE):
        return some(struct(self.p, OI + "Grants", None,
            pre_authorized_code=some(struct(self.p, OI + "PreAuthorizedCodeGrant", None, pre_authorized_code=tok("pre-code"), tx_code=tx if tx is not None else NONE)) if pre else NONE,
            authorization_code=some(struct(self.p, OI + "AuthorizationCodeGrant", None, issuer_state=state)) if code else NONE))
    def offer(self, grants=NONE, ids=CFG[:2]):
        return struct(self.p, OI + "CredentialOffer", None, credential_issuer=tok("offer-issuer"), credential_configuration_ids=listof(*ids), grants=grants)
    def issuance(self, status, **kw):
        kw.setdefault("offer", self.offer())
        return struct(self.p, self.ty("Issuance"), tok("saved"), id=ID, status=self.status(status), **kw)
    def presentation(self, status, **kw):
        return struct(self.p, self.ty("Presentation", "presentation"), tok("saved"), id=ID, status=self.status(status, "presentation"), **kw)
    def config(self, n, fmt="JwtVcJson", **kw):
        kw.setdefault("display", NONE); kw.setdefault("format", variant(self.p, OI + "Format", fmt, **{"0": tok(f"profile:{n.a[1]}")}))
        return struct(self.p, OI + "CredentialConfiguration", tok(f"config:{n.a[1]}"), **kw)
    def meta(self, cfgs=CFG, **kw):
        return struct(self.p, OI + "Issuer", tok("issuer"), credential_configurations_supported=mapof([(n, self.config(n, **kw)) for n in cfgs]))
    def gt(self, v): return variant(self.p, "vercre_openid::oauth::GrantType", v)
    def server(self, **kw):
        kw.setdefault("response_types_supported", listof(variant(self.p, "vercre_openid::oauth::ResponseType", "Code"))); kw.setdefault("code_challenge_methods_supported", some(listof(variant(self.p, "vercre_openid::oauth::CodeChallengeMethod", "S256"))))
        o = struct(self.p, "vercre_openid::oauth::OAuthServer", tok("oauth"), **kw)
        return struct(self.p, OI + "Server", tok("server"), oauth=o)
    def detail(self, cfg, claims=NONE):
        return struct(self.p, OI + "AuthorizationDetail", tok("detail"), credential=variant(self.p, OI + "CredentialAuthorization", "ConfigurationId", credential_configuration_id=cfg, claims=claims), locations=NONE)
    def token(self, details, **kw):
        """A token response authorizing these (configuration, identifiers)."""
        return struct(self.p, OI + "TokenResponse", tok("token"), c_nonce=some(tok("nonce:0")), authorization_details=some(listof(*[struct(self.p, OI + "AuthorizedDetail", None, authorization_detail=self.detail(c), credential_identifiers=listof(*ids)) for c, ids in details])), **kw)
    def response(self, kind, val, nonce=NONE):
        return struct(self.p, OI + "CredentialResponse", None, response=variant(self.p, OI + "CredentialResponseType", kind, **{"0": val}), c_nonce=nonce, c_nonce_expires_in=NONE, notification_id=NONE)
    def received(self, **kw):
        kw.setdefault("token", self.token([(CFG[0], [string("id-1")])])); kw.setdefault("issuer", self.meta()); kw.setdefault("deferred", mapof([])); kw.setdefault("credentials", listof()); kw.setdefault("scope", NONE)
        return self.issuance(kw.pop("status", "TokenReceived"), **kw)
    def req(self, name, mod="issuance", **kw): return struct(self.p, self.ty(name, mod), REQ, **kw)
    def fields(self, ty): return [n for n, *_ in self.p.adts[ty]["variants"][0][1]]
    # ---- endpoint by name with its request for the record
    def call(self, name, cell, **kw):
        rq = {"accept": "AcceptRequest", "pin": "PinRequest", "credentials": "CredentialsRequest", "deferred": "DeferredRequest", "save": "SaveRequest", "cancel": "CancelRequest"}
        if name in rq: return self.flow(name, self.req(rq[name], issuance_id=ID), cell, **kw)
        if name == "token": return self.flow(name, ID, cell, **kw)
        if name == "authorize": return self.flow(name, self.req("AuthorizeRequest", initiator=variant(self.p, self.ty("Initiator"), "Issuer", issuance_id=ID)), cell, **kw)
        return self.flow(name[2:], ID, cell, mod="presentation", **kw)

def quiet(f):
    """Sites at which this flow changes or tells something."""
    return [w for _, s, w, _ in f.puts + f.purges] + [w for n, _, s, w, _ in f.asks if n != "Signer::verification_method"]
def written(f): return list({tuple(v): (v, s, w, t) for v, s, w, t in f.puts}.values())
def stored_ok(ctx, f, key):
    """Success only if every write, removal and credential save made on that path succeeded."""
    n = 0
    for r, s in f.good(key):
        for u, b in list(s.units.items()):
            if b is True and u.op == "ev" and u.a[0] in ("put", "purge", "CredentialStorer::save"):
                n += 1
                if not ctx.ob(f"{key}:stored", s.prove(is_variant(mk("app", *u.a), "Ok")), "success is reported only if everything written to the store was written", f.where, ap(mk("app", *u.a))[:160]): return
    return n
def kept(ctx, w, key, f, rec, ty, changed):
    """Every record this flow writes is the record read, with only the fields named changed, under its own id."""
    n = 0
    for v, s, where, _ in written(f):
        n += 1
        ctx.ob(f"{key}:own-key", v[0] is ID or s.prove(eq(v[0], ID)), "the record is put back under its own key", f"{where[0]}:{where[1]}", ap(v[0])[:120])
        for x in w.fields(ty):
            if x in changed: continue
            a, b = field(v[1], None, x), field(rec, None, x)
            if not ctx.ob(f"{key}:keeps:{x}", a is b or s.prove(eq(a, b)), f"the record's {x} is unchanged", f"{where[0]}:{where[1]}", f"{ap(a)[:200]} instead of {ap(b)[:100]}"): break
    return n

ORDER = {  # endpoint: (statuses in which it acts, status it leaves, fields it may change)
    "accept": ({"Ready"}, "Accepted", {"accepted", "status"}),
    "pin": ({"PendingPin"}, "Accepted", {"pin", "status"}),
    "token": ({"Accepted"}, "TokenReceived", {"token", "status"}),
    "authorize": ({"Accepted"}, "TokenReceived", {"token", "status", "accepted", "code_verifier", "code_challenge"}),
    "credentials": ({"TokenReceived"}, "TokenReceived", {"token", "credentials", "deferred", "notification_id"}),
    "deferred": ({"TokenReceived"}, "TokenReceived", {"token", "credentials", "deferred", "notification_id"}),
}
@prop("C33", "Exhaustive case analysis over the stored status: every wallet endpoint is analysed once per status (and per kind of grant) with an otherwise arbitrary record; in every status but its own it has no "
      "effect and fails, in its own it writes the record back under its own key with the next status and every other field unchanged, and success implies that each write succeeded.", TH)
def c33(ctx):
    w = Wallet(ctx); p = w.p; ty = w.ty("Issuance"); pty = w.ty("Presentation", "presentation")
    if ty is None or pty is None: return
    declared = [v[0] for v in p.adts[w.ty("Status")]["variants"]]; pdecl = [v[0] for v in p.adts[w.ty("Status", "presentation")]["variants"]]
    def missing(name):
        f = w.call(name, adt(RES, "Err", True, (("0", tok("no-state")),)), tune=None)
        ctx.ob(f"{name}:unknown", not quiet(f) and not f.oks(), "without a stored record the endpoint fails and has no effect", f.where, str(quiet(f)[:2]))
    def refused(name, st, f):
        ctx.ob(f"{name}:{st}:refused", not quiet(f) and not f.oks(), f"{name} in status {st} fails and has no effect", f.where, f"effects {quiet(f)[:2]}, {len(f.oks())} successes")
    tx = some(tok("tx-code"))
    for name, (own, nxt, changed) in ORDER.items():
        missing(name)
        for st in declared:
            kw = {}
            if name == "token": kw["offer"] = w.offer(w.grants(pre=True))
            if name == "authorize": kw["offer"] = w.offer(w.grants(code=True))
            if name in ("credentials", "deferred"):
                rec = w.received(status=st, deferred=mapof([(string("tx"), CFG[0])]) if name == "deferred" else mapof([]))
                f = w.call(name, ok(rec), answers={"Issuer::credential": lambda r: ok(w.response("Credential", kstr(tok("jwt:a")))), "Issuer::deferred": lambda r: ok(struct(p, OI + "DeferredCredentialResponse", None, credential_response=w.response("Credential", kstr(tok("jwt:a")))))})
            else: rec = w.issuance(st, **kw); f = w.call(name, ok(rec), tune=None)
            if st not in own: refused(name, st, f); continue
            k = f"{name}:{st}"
            stored_ok(ctx, f, k)
            n = kept(ctx, w, k, f, rec, ty, changed)
            if n == 0: ctx.fail(f"{k}:writes", "the endpoint records its outcome", f.where); continue
            for v, s, where, _ in written(f):
                a = field(v[1], None, "status")
                ctx.ob(f"{k}:next", s.prove(eq(a, w.status(nxt))) or a is w.status(nxt), f"the record moves to {nxt}", f"{where[0]}:{where[1]}", ap(a)[:160])
            for r, s in f.good(k):
                ctx.ob(f"{k}:recorded", any(s.units.get(mk("ev", "put", *v)) for v, *_ in f.puts) or any(s.units.get(mk("ev", "purge", *v)) for v, *_ in f.purges), "success means the record was written", f.where)
    # the PIN is asked for exactly when the offer says so
    for n, g, nxt in (("no grants", NONE, "Accepted"), ("code grant", w.grants(code=True), "Accepted"), ("pre-authorized", w.grants(pre=True), "Accepted"), ("pre-authorized with PIN", w.grants(pre=True, tx=tx), "PendingPin"),
                      ("both with PIN", w.grants(pre=True, code=True, tx=tx), "PendingPin")):
        rec = w.issuance("Ready", offer=w.offer(g)); f = w.call("accept", ok(rec), tune=None)
        for v, s, where, _ in written(f):
            a = field(v[1], None, "status")
            ctx.ob(f"accept:pin:{n}", s.prove(eq(a, w.status(nxt))) or a is w.status(nxt), f"an accepted offer ({n}) moves to {nxt}", f"{where[0]}:{where[1]}", ap(a)[:160])
        if not f.puts: ctx.fail(f"accept:pin:{n}", "the offer can be accepted", f.where)
    # the grant decides which endpoint may fetch the token
    for name, g, n in (("token", NONE, "no grants"), ("token", w.grants(code=True), "code grant"), ("authorize", w.grants(pre=True), "pre-authorized grant")):
        f = w.call(name, ok(w.issuance("Accepted", offer=w.offer(g))), tune=None)
        ctx.ob(f"{name}:{n}", not quiet(f) and not f.oks(), f"{name} for an offer with {n} fails and has no effect", f.where, f"effects {quiet(f)[:2]}")
    # an offer without grants leaves the choice to the authorization server
    for n, g, may in (("unstated", NONE, False), ("none", some(listof()), False), ("pre-authorized", some(listof(w.gt("PreAuthorizedCode"))), False), ("both", some(listof(w.gt("PreAuthorizedCode"), w.gt("AuthorizationCode"))), True)):
        f = w.call("authorize", ok(w.issuance("Accepted", authorization_server=w.server(grant_types_supported=g), issuer=w.meta())), answers={"Issuer::token": lambda r: ok(w.token([(CFG[0], [string("id-1")])]))})
        if may: ctx.ob(f"authorize:server:{n}", bool(f.oks()), "an offer without grants is authorized if the server supports the code grant", f.where)
        else: ctx.ob(f"authorize:server:{n}", not quiet(f) and not f.oks(), "an offer without grants is authorized only if the server supports the code grant", f.where, f"effects {quiet(f)[:2]}")
    # offer: a new record, ready
    f = w.flow("offer", None, tune=None)
    for v, s, where, _ in written(f):
        ctx.ob("offer:ready", field(v[1], None, "status") is w.status("Ready"), "an offer is recorded as ready", f"{where[0]}:{where[1]}")
        ctx.ob("offer:own-key", v[0] is field(v[1], None, "id") and any(x.op == "app" and "new_v4" in x.a[0] for x in subterms(v[0])), "an offer is recorded under a fresh id of its own", f"{where[0]}:{where[1]}", ap(v[0])[:120])
        for x, want in (("accepted", NONE), ("pin", NONE), ("code_verifier", NONE), ("code_challenge", NONE), ("scope", NONE), ("notification_id", NONE)):
            ctx.ob(f"offer:new:{x}", field(v[1], None, x) is want, f"a new record has no {x}", f"{where[0]}:{where[1]}", ap(field(v[1], None, x))[:100])
        for x in ("deferred", "credentials"): ctx.ob(f"offer:new:{x}", s.prove(empty(field(v[1], None, x))), f"a new record has no {x}", f"{where[0]}:{where[1]}", ap(field(v[1], None, x))[:100])
    if not f.puts: ctx.fail("offer:writes", "an offer is recorded", f.where)
    stored_ok(ctx, f, "offer")
    # save and cancel
    missing("save"); missing("cancel")
    cred = [tok("credential:a"), tok("credential:b")]
    for n, d in (("none deferred", mapof([])), ("one deferred", mapof([(string("tx"), CFG[0])]))):
        rec = w.issuance("TokenReceived", deferred=d, credentials=listof(*cred)); f = w.call("save", ok(rec)); k = f"save:{n}"
        stored_ok(ctx, f, k)
        for r, s in f.good(k):
            for c in cred: ctx.ob(f"{k}:all", s.units.get(mk("ev", "CredentialStorer::save", c)) is True, "every credential received is stored", f.where, ap(c))
            pg = s.units.get(mk("ev", "purge", ID)) is True
            ps = [v for v, *_ in f.puts if s.units.get(mk("ev", "put", *v))]
            if n == "none deferred": ctx.ob(f"{k}:done", pg and not ps, "with nothing left the record is removed", f.where, f"purged {pg}, written {len(ps)}")
            else: ctx.ob(f"{k}:open", not pg and len(ps) >= 1, "while credentials are deferred the record stays", f.where, f"purged {pg}, written {len(ps)}")
        kept(ctx, w, k, f, rec, ty, {"credentials", "notification_id"})
        for v, s, where, _ in written(f): ctx.ob(f"{k}:cleared", s.prove(empty(field(v[1], None, "credentials"))), "stored credentials are not kept to be stored again", f"{where[0]}:{where[1]}", ap(field(v[1], None, "credentials"))[:100])
    f = w.call("cancel", ok(w.issuance("TokenReceived"))); stored_ok(ctx, f, "cancel")
    for r, s in f.good("cancel"): ctx.ob("cancel:removed", s.units.get(mk("ev", "purge", ID)) is True, "a cancelled issuance is removed", f.where)
    ctx.ob("cancel:only", not f.puts, "a cancelled issuance is not written again", f.where)
    # presentations
    for name, own, nxt in (("p:authorize", "Requested", "Authorized"), ("p:present", "Authorized", None)):
        missing(name)
        for st in pdecl:
            rec = w.presentation(st); f = w.call(name, ok(rec), tune=None)
            if st != own: refused(name, st, f); continue
            k = f"{name}:{st}"; stored_ok(ctx, f, k); f.good(k)
            if nxt:
                if not kept(ctx, w, k, f, rec, pty, {"status"}): ctx.fail(f"{k}:writes", "the endpoint records its outcome", f.where)
                for v, s, where, _ in written(f): ctx.ob(f"{k}:next", field(v[1], None, "status") is w.status(nxt, "presentation"), f"the presentation moves to {nxt}", f"{where[0]}:{where[1]}", ap(field(v[1], None, "status"))[:100])
                for r, s in f.good(k): ctx.ob(f"{k}:recorded", any(s.units.get(mk("ev", "put", *v)) for v, *_ in f.puts), "success means the record was written", f.where)
    f = w.flow("request", None, mod="presentation", tune=None)
    for v, s, where, _ in written(f):
        ctx.ob("p:request:status", field(v[1], None, "status") is w.status("Requested", "presentation"), "a request is recorded as requested", f"{where[0]}:{where[1]}")
        ctx.ob("p:request:own-key", v[0] is field(v[1], None, "id") and any(x.op == "app" and "new_v4" in x.a[0] for x in subterms(v[0])), "a request is recorded under a fresh id of its own", f"{where[0]}:{where[1]}", ap(v[0])[:120])
    if not f.puts: ctx.fail("p:request:writes", "a request is recorded", f.where)
    stored_ok(ctx, f, "p:request")

def evs(s, name): return [u.a[1:] for u, b in s.units.items() if b is True and u.op == "ev" and u.a[0] == name]
def same_list(s, t, xs):
    """A list is these elements in this order."""
    return t is listof(*xs) or t.op == "array" and len(t.a) == len(xs) and all(a is b or s.prove(eq(a, b)) for a, b in zip(t.a, xs))
def same_map(s, t, kv):
    try: es = entries(t)
    except Exception: es = None
    if es is None or len(es) != len(kv): return False
    d = dict(es)
    return all(k in d and (d[k] is v or s.prove(eq(d[k], v))) for k, v in kv)
def holds(s, a, b): return a is b or s.prove(eq(a, b))

class Wallet2(Wallet):
    def fields_are(self, key, s, val, want, rule, where):
        """Each named field of a request has the value expected."""
        good = True
        for n, v in want.items():
            a = field(val, None, n)
            good &= self.ctx.ob(f"{key}:{n}", holds(s, a, v) or v.op == "adt" and v.a[0] == OPT and opt_eq(s, a, v), f"{rule}: {n}", where, f"{ap(a)[:200]} instead of {ap(v)[:200]}")
        return good
    def spec(self, cfg, claims=NONE): return struct(self.p, self.ty("AuthorizationSpec"), None, credential_configuration_id=cfg, claims=claims)

@prop("C34", "Value-flow analysis of every request the wallet sends: for arbitrary stored values and small literal lists of credentials, each field of every metadata, authorization, token, credential and deferred "
      "request, on every path, is the value the protocol binds it to (offer, own client, accepted selection, the verifier of the challenge sent, the latest nonce); nothing not offered, accepted or authorized is asked for.", TH)
def c34(ctx):
    w = Wallet2(ctx); p = w.p; S = tok("saved")
    if w.ty("Issuance") is None: return
    meta = w.meta(); MR = field(REQ, None, "offer")
    def md(m): return {"Issuer::metadata": lambda r: ok(struct(p, OI + "MetadataResponse", None, credential_issuer=m)), "Issuer::oauth_server": lambda r: ok(struct(p, OI + "OAuthServerResponse", None, authorization_server=w.server()))}
    # ---- offer
    for n, cfgs in (("two", CFG[:2]), ("one", CFG[1:2])):
        o = w.offer(tok("grants"), cfgs); f = w.flow("offer", w.req("OfferRequest", offer=o), answers=md(meta)); k = f"offer:{n}"
        for nm in ("Issuer::metadata", "Issuer::oauth_server"):
            a = [(v[0], s, wh) for x, v, s, wh, _ in f.asks if x == nm]
            if not a: ctx.fail(f"{k}:{nm}", "the wallet fetches the issuer's metadata", f.where)
            for v, s, wh in a: ctx.ob(f"{k}:{nm}", field(v, None, "credential_issuer") is tok("offer-issuer"), "metadata is fetched from the issuer of the offer", f"{wh[0]}:{wh[1]}", ap(v)[:160])
        for v, s, wh, _ in written(f): w.fields_are(f"{k}:record", s, v[1], {"offer": o, "issuer": meta, "authorization_server": w.server(), "client_id": field(REQ, None, "client_id"), "subject_id": field(REQ, None, "subject_id")}, "the record holds the offer and its issuer", f"{wh[0]}:{wh[1]}")
        for r, s in f.good(k):
            ctx.ob(f"{k}:offered", same_map(s, field(r, None, "offered"), [(c, w.config(c)) for c in cfgs]), "exactly the credentials offered are shown, with the issuer's description", f.where, ap(field(r, None, "offered"))[:240])
            w.fields_are(f"{k}:response", s, r, {"issuer": tok("offer-issuer"), "grants": tok("grants")}, "the offer's issuer and grants are shown", f.where)
            ctx.ob(f"{k}:response:id", any(field(r, None, "issuance_id") is v[0] for v, *_ in f.puts), "the id returned is the one the offer is recorded under", f.where)
    f = w.flow("offer", w.req("OfferRequest", offer=w.offer(tok("grants"), ())), answers=md(meta))
    ctx.ob("offer:empty", not quiet(f) and not f.oks(), "an offer of nothing is refused", f.where)
    f = w.flow("offer", w.req("OfferRequest", offer=w.offer(tok("grants"), (CFG[0], string("cfg-z")))), answers=md(meta))
    ctx.ob("offer:unsupported", not f.oks(), "an offer of a credential the issuer does not describe is refused", f.where)
    # ---- accept
    def accept(acc, m=meta): return w.flow("accept", w.req("AcceptRequest", issuance_id=ID, accept=acc), ok(w.issuance("Ready", issuer=m)))
    f = accept(NONE)
    for v, s, wh, _ in written(f): ctx.ob("accept:all", field(v[1], None, "accepted") is NONE, "accepting without a selection selects everything offered", f"{wh[0]}:{wh[1]}", ap(field(v[1], None, "accepted"))[:160])
    if not f.puts: ctx.fail("accept:all", "an offer can be accepted as a whole", f.where)
    for n, a in (("empty", listof()), ("not offered", listof(w.spec(CFG[2]))), ("one not offered", listof(w.spec(CFG[0]), w.spec(CFG[2]))), ("unknown", listof(w.spec(string("cfg-z"), some(tok("claims")))))):
        f = accept(some(a)); ctx.ob(f"accept:{n}", not quiet(f) and not f.oks(), f"a selection that is {n} is refused", f.where, f"effects {quiet(f)[:2]}")
    for fmt, kind in (("JwtVcJson", "W3c"), ("JwtVcJsonLd", "W3c"), ("LdpVc", "W3c"), ("IsoMdl", "IsoMdl"), ("VcSdJwt", "SdJwt")):
        f = accept(some(listof(w.spec(CFG[0]), w.spec(CFG[1], some(tok("claims"))))), w.meta(fmt=fmt)); k = f"accept:{fmt}"
        if not f.puts: ctx.fail(k, "offered credentials can be accepted", f.where)
        for v, s, wh, _ in written(f):
            a = field(v[1], None, "accepted"); l = inner(a)
            if not ctx.ob(f"{k}:selection", a.op == "adt" and a.a[1] == "Some" and l.op == "array" and len(l.a) == 2, "one detail per accepted credential", f"{wh[0]}:{wh[1]}", ap(a)[:200]): continue
            for x, c, cl in ((l.a[0], CFG[0], False), (l.a[1], CFG[1], True)):
                cr = field(x, None, "credential")
                ctx.ob(f"{k}:id:{c.a[1]}", cr.op == "adt" and cr.a[1] == "ConfigurationId" and field(cr, "ConfigurationId", "credential_configuration_id") is c, "the detail names the accepted credential", f"{wh[0]}:{wh[1]}", ap(cr)[:160])
                q = field(cr, "ConfigurationId", "claims")
                if not cl: ctx.ob(f"{k}:claims:{c.a[1]}", q is NONE, "no claims were selected", f"{wh[0]}:{wh[1]}", ap(q)[:160]); continue
                y = inner(q); got = y.a[3][0][1] if y.op == "adt" and y.a[1] == kind else None
                if kind == "W3c" and got is not None: got = field(got, None, "credential_subject"); got = inner(got) if got.op == "adt" and got.a[1] == "Some" else None
                ctx.ob(f"{k}:claims:{c.a[1]}", got is tok("claims"), "the selected claims are kept in the form of the credential's format", f"{wh[0]}:{wh[1]}", ap(q)[:200])
    # ---- pin
    f = w.call("pin", ok(w.issuance("PendingPin")))
    for v, s, wh, _ in written(f): ctx.ob("pin:kept", field(v[1], None, "pin") is some(field(REQ, None, "pin")), "the PIN entered is the PIN kept", f"{wh[0]}:{wh[1]}", ap(field(v[1], None, "pin"))[:100])
    # ---- token (pre-authorized)
    TK = w.token([(CFG[0], [string("id-1"), string("id-2")]), (CFG[1], [string("id-3")])])
    for n, pin in (("PIN", some(tok("pin"))), ("no PIN", NONE)):
        f = w.call("token", ok(w.issuance("Accepted", offer=w.offer(w.grants(pre=True, code=True)), pin=pin)), answers={"Issuer::token": lambda r: ok(TK)}); k = f"token:{n}"
        a = [(v[0], s, wh) for x, v, s, wh, _ in f.asks if x == "Issuer::token"]
        if not a: ctx.fail(k, "the wallet asks for a token", f.where)
        for v, s, wh in a:
            w.fields_are(k, s, v, {"credential_issuer": field(field(S, None, "issuer"), None, "credential_issuer"), "client_id": some(field(S, None, "client_id")), "authorization_details": field(S, None, "accepted")}, "the token request", f"{wh[0]}:{wh[1]}")
            g = field(v, None, "grant_type")
            ctx.ob(f"{k}:grant", g.op == "adt" and g.a[1] == "PreAuthorizedCode" and field(g, "PreAuthorizedCode", "pre_authorized_code") is tok("pre-code") and field(g, "PreAuthorizedCode", "tx_code") is pin, "the token request carries the offer's code and the PIN entered", f"{wh[0]}:{wh[1]}", ap(g)[:200])
        authorized(ctx, w, k, f, TK)
    # ---- authorize
    auth = lambda r: ok(struct(p, OI + "AuthorizationResponse", None, code=tok("auth-code"), state=tok("auth-state"), redirect_uri=tok("auth-redirect")))
    own = some(listof(w.detail(CFG[0]))); mine = some(listof(w.detail(CFG[1])))
    V = "vercre_openid::oauth::"
    def flow(initiator, saved=None, srv=None, **kw):
        m = md(meta)
        if srv is not None: m["Issuer::oauth_server"] = lambda r: ok(struct(p, OI + "OAuthServerResponse", None, authorization_server=srv))
        return w.flow("authorize", w.req("AuthorizeRequest", initiator=initiator, **kw), saved, answers={"Issuer::token": lambda r: ok(TK), "Issuer::authorization": auth, **m})
    byissuer = variant(p, w.ty("Initiator"), "Issuer", issuance_id=ID)
    def bywallet(scope): return variant(p, w.ty("Initiator"), "Wallet", client_id=tok("w-client"), issuer=tok("w-issuer"), subject_id=tok("w-subject"), scope=scope)
    def saved(**kw): return ok(w.issuance("Accepted", offer=w.offer(w.grants(code=True, state=tok("issuer-state"))), issuer=meta, authorization_server=w.server(), **kw))
    allc = [c for c in CFG[:2]]
    # (name, flow, client, subject, issuer_state, expected details: list of ids | value | None (scope))
    for n, f, client, subj, ist, want in (
        ("issuer:all", flow(byissuer, saved(accepted=NONE), authorization_details=NONE), field(S, None, "client_id"), field(S, None, "subject_id"), tok("issuer-state"), allc),
        ("issuer:accepted", flow(byissuer, saved(accepted=own), authorization_details=NONE), field(S, None, "client_id"), field(S, None, "subject_id"), tok("issuer-state"), own),
        ("issuer:given", flow(byissuer, saved(accepted=own), authorization_details=mine), field(S, None, "client_id"), field(S, None, "subject_id"), tok("issuer-state"), mine),
        ("wallet:details", flow(bywallet(NONE), authorization_details=mine), tok("w-client"), tok("w-subject"), NONE, mine),
        ("wallet:scope", flow(bywallet(some(tok("scope"))), authorization_details=NONE), tok("w-client"), tok("w-subject"), NONE, None)):
        k = f"authorize:{n}"; iss = field(meta, None, "credential_issuer")
        for nm in ("Issuer::metadata", "Issuer::oauth_server"):
            a = [(v[0], wh) for x, v, s, wh, _ in f.asks if x == nm]
            if n.startswith("wallet") and not a: ctx.fail(f"{k}:{nm}", "the wallet fetches the issuer's metadata", f.where)
            for v, wh in a: ctx.ob(f"{k}:{nm}", n.startswith("wallet") and field(v, None, "credential_issuer") is tok("w-issuer"), "metadata is fetched from the issuer chosen", f"{wh[0]}:{wh[1]}", ap(v)[:160])
        ar = [(v[0], s, wh) for x, v, s, wh, _ in f.asks if x == "Issuer::authorization"]; tr = [(v[0], s, wh) for x, v, s, wh, _ in f.asks if x == "Issuer::token"]
        if not ar or not tr: ctx.fail(k, "the wallet asks for authorization and a token", f.where); continue
        ver = set()
        for v, s, wh in ar:
            o = v.a[3][0][1] if v.op == "adt" and v.a[1] == "Object" else None
            if o is None: ctx.fail(f"{k}:request", "the authorization request is sent by value", f"{wh[0]}:{wh[1]}", ap(v)[:160]); continue
            rid = field(o, None, "state")
            w.fields_are(k, s, o, {"credential_issuer": iss, "client_id": client, "subject_id": subj, "redirect_uri": field(REQ, None, "redirect_uri"), "response_type": variant(p, V + "ResponseType", "Code"), "code_challenge_method": variant(p, V + "CodeChallengeMethod", "S256"),
                "issuer_state": ist, "scope": some(tok("scope")) if want is None else NONE}, "the authorization request", f"{wh[0]}:{wh[1]}")
            ctx.ob(f"{k}:state", rid.op == "adt" and rid.a[1] == "Some" and (inner(rid) is ID if n.startswith("issuer") else any(x.op == "app" and "new_v4" in x.a[0] for x in subterms(rid))), "the request's state is the issuance's own id", f"{wh[0]}:{wh[1]}", ap(rid)[:100])
            d = field(o, None, "authorization_details")
            if isinstance(want, list):
                l = inner(d); idl = [field(field(x, None, "credential"), "ConfigurationId", "credential_configuration_id") for x in l.a] if d.op == "adt" and d.a[1] == "Some" and l.op == "array" else None
                ctx.ob(f"{k}:details", idl == want, "without a selection everything offered is asked for", f"{wh[0]}:{wh[1]}", ap(d)[:240])
            else: ctx.ob(f"{k}:details", d is (want if want is not None else NONE), "exactly the selection is asked for", f"{wh[0]}:{wh[1]}", ap(d)[:240])
            ch = field(o, None, "code_challenge")
            if ctx.ob(f"{k}:challenge", ch.op == "app" and ch.a[0].endswith("code_challenge") and len(calls_of(ch, "pkce::code_verifier")) == 1 and ch.a[1] in calls_of(ch, "pkce::code_verifier"), "the challenge is that of a fresh verifier", f"{wh[0]}:{wh[1]}", ap(ch)[:160]): ver.add(ch.a[1])
        for v, s, wh in tr:
            rec = ID if n.startswith("issuer") else None
            w.fields_are(f"{k}:token", s, v, {"credential_issuer": iss, "client_id": some(client), "authorization_details": NONE if want is None or isinstance(want, list) else want}, "the token request", f"{wh[0]}:{wh[1]}")
            g = field(v, None, "grant_type")
            ctx.ob(f"{k}:token:grant", g.op == "adt" and g.a[1] == "AuthorizationCode" and field(g, "AuthorizationCode", "code") is tok("auth-code") and holds(s, field(g, "AuthorizationCode", "redirect_uri"), field(REQ, None, "redirect_uri")), "the token request carries the code received and the same redirect URI", f"{wh[0]}:{wh[1]}", ap(g)[:240])
            cv = field(g, "AuthorizationCode", "code_verifier") if g.op == "adt" else NONE
            ctx.ob(f"{k}:token:verifier", cv.op == "adt" and cv.a[1] == "Some" and {inner(cv)} == ver, "the token request carries the verifier of the challenge sent", f"{wh[0]}:{wh[1]}", ap(cv)[:160])
            idt = ID if n.startswith("issuer") else inner(field(ar[0][0].a[3][0][1], None, "state"))
            ctx.ob(f"{k}:token:state", s.prove(eq(tok("auth-state"), some(idt))) or s.prove(conj(is_variant(tok("auth-state"), "Some"), eq(inner(tok("auth-state")), idt))), "a response to another authorization request is refused", f"{wh[0]}:{wh[1]}")
        authorized(ctx, w, k, f, TK)
        for v, s, wh, _ in written(f):
            w.fields_are(f"{k}:record", s, v[1], {"issuer": meta, "client_id": client, "subject_id": subj, "scope": some(tok("scope")) if want is None else field(S, None, "scope") if n.startswith("issuer") else NONE}, "the record", f"{wh[0]}:{wh[1]}")
    f = flow(bywallet(some(tok("scope"))), authorization_details=mine)
    ctx.ob("authorize:wallet:both", not quiet(f) and not f.oks(), "scope and details are not mixed", f.where)
    f = flow(bywallet(NONE), authorization_details=NONE)
    ctx.ob("authorize:wallet:nothing", not f.oks() and not any(x in ("Issuer::authorization", "Issuer::token") for x, *_ in f.asks), "asking for nothing is refused", f.where)
    for n, srv in (("no code", w.server(response_types_supported=listof(variant(p, V + "ResponseType", "VpToken")))), ("no challenge methods", w.server(code_challenge_methods_supported=NONE)), ("empty challenge methods", w.server(code_challenge_methods_supported=some(listof())))):
        f = flow(bywallet(NONE), srv=srv, authorization_details=mine)
        ctx.ob(f"authorize:server:{n}", not f.oks() and not any(x in ("Issuer::authorization", "Issuer::token") for x, *_ in f.asks), f"a server with {n} is not asked", f.where)
    # ---- credential requests
    i1, i2, i3 = string("id-1"), string("id-2"), string("id-3")
    nonces = {i1: some(tok("nonce:1")), i2: NONE, i3: some(tok("nonce:3"))}
    def cid(r): return field(field(r, None, "credential"), "Identifier", "credential_identifier")
    for n, sel, ids in (("all", NONE, (i1, i2, i3)), ("some", some(listof(i2, i3)), (i2, i3)), ("one", some(listof(i2)), (i2,)), ("other", some(listof(string("id-9"))), ())):
        f = w.flow("credentials", w.req("CredentialsRequest", issuance_id=ID, credential_identifiers=sel, format=NONE), ok(w.received(token=TK)), answers={"Issuer::credential": lambda r: ok(w.response("Credential", kstr(tok("jwt:" + ap(cid(r)))), nonces.get(cid(r), NONE)))})
        k = f"credentials:{n}"
        for r, s in f.good(k):
            rs = [a[0] for a in evs(s, "Issuer::credential")]
            ctx.ob(f"{k}:exactly", sorted(map(ap, map(cid, rs))) == sorted(map(ap, ids)), "exactly the authorized credentials selected are requested, each once", f.where, str([ap(cid(x)) for x in rs])[:200])
        latest = some(tok("nonce:0"))
        exp = {}
        for i in ids:
            exp[i] = latest
            if nonces[i] is not NONE: latest = nonces[i]
        key_proofs(ctx, w, k, f, lambda r: exp.get(cid(r)))
        for v, s, wh, _ in written(f): ctx.ob(f"{k}:nonce-kept", field(field(v[1], None, "token"), None, "c_nonce") is latest, "the latest nonce is kept", f"{wh[0]}:{wh[1]}", ap(field(field(v[1], None, "token"), None, "c_nonce"))[:100])
    # by scope and format
    fm = variant(p, OI + "Format", "JwtVcJson", **{"0": string("profile-x")}); fm2 = variant(p, OI + "Format", "JwtVcJson", **{"0": string("profile-y")})
    sm = struct(p, OI + "Issuer", tok("issuer"), credential_configurations_supported=mapof([(CFG[0], w.config(CFG[0], scope=some(string("scope-o")), format=fm)), (CFG[1], w.config(CFG[1], scope=some(string("scope-x")), format=fm2)), (CFG[2], w.config(CFG[2], scope=some(string("scope-x")), format=fm))]))
    def scoped(ids=NONE, fmt=some(fm)): return w.flow("credentials", w.req("CredentialsRequest", issuance_id=ID, credential_identifiers=ids, format=fmt), ok(w.received(token=TK, issuer=sm, scope=some(string("scope-x")))), answers={"Issuer::credential": lambda r: ok(w.response("TransactionId", tok("tx-9"), some(tok("nonce:9"))))})
    f = scoped(); k = "credentials:scope"
    key_proofs(ctx, w, k, f, lambda r: some(tok("nonce:0")))
    for r, s in f.good(k):
        rs = [a[0] for a in evs(s, "Issuer::credential")]
        ctx.ob(f"{k}:format", len(rs) == 1 and holds(s, field(rs[0], None, "credential"), variant(p, OI + "CredentialIssuance", "Format", **{"0": fm})), "the credential of the scope and format chosen is requested", f.where, str([ap(field(x, None, "credential")) for x in rs])[:200])
    for v, s, wh, _ in written(f):
        ctx.ob(f"{k}:configuration", same_map(s, field(v[1], None, "deferred"), [(tok("tx-9"), CFG[2])]), "the configuration of the scope and format chosen is recorded", f"{wh[0]}:{wh[1]}", ap(field(v[1], None, "deferred"))[:200])
        ctx.ob(f"{k}:nonce-kept", field(field(v[1], None, "token"), None, "c_nonce") is some(tok("nonce:9")), "the latest nonce is kept", f"{wh[0]}:{wh[1]}", ap(field(field(v[1], None, "token"), None, "c_nonce"))[:100])
    for n, f in (("identifiers", scoped(some(listof(i1)))), ("no format", scoped(fmt=NONE)), ("unknown format", scoped(fmt=some(variant(p, OI + "Format", "JwtVcJson", **{"0": string("profile-q")}))))):
        ctx.ob(f"{k}:{n}", not f.oks() and not any(x == "Issuer::credential" for x, *_ in f.asks), f"a scope-based request with {n} is refused", f.where)
    # ---- deferred requests
    f = w.call("deferred", ok(w.received(deferred=mapof([(string("tx"), CFG[0])]))), answers={"Issuer::deferred": lambda r: ok(struct(p, OI + "DeferredCredentialResponse", None, credential_response=w.response("TransactionId", tok("tx-9"))))})
    a = [(v[0], s, wh) for x, v, s, wh, _ in f.asks if x == "Issuer::deferred"]
    if not a: ctx.fail("deferred", "the wallet asks for the deferred credential", f.where)
    for v, s, wh in a: w.fields_are("deferred", s, v, {"transaction_id": field(REQ, None, "transaction_id"), "credential_issuer": field(tok("issuer"), None, "credential_issuer"), "access_token": field(tok("token"), None, "access_token")}, "the deferred request", f"{wh[0]}:{wh[1]}")
    f.good("deferred")

def authorized(ctx, w, k, f, TK):
    """The token received is kept as it is and what it authorizes is shown."""
    for v, s, wh, _ in written(f): ctx.ob(f"{k}:token-kept", field(v[1], None, "token") is TK, "the token response is kept", f"{wh[0]}:{wh[1]}", ap(field(v[1], None, "token"))[:160])
    if not f.puts: ctx.fail(f"{k}:token-kept", "the token response is kept", f.where)
    for r, s in f.good(k):
        m = field(r, None, "authorized"); want = [(field(field(field(d, None, "authorization_detail"), None, "credential"), "ConfigurationId", "credential_configuration_id"), field(d, None, "credential_identifiers")) for d in inner(field(TK, None, "authorization_details")).a]
        ctx.ob(f"{k}:shown", m.op == "adt" and m.a[1] == "Some" and same_map(s, inner(m), want), "exactly the credentials authorized are shown", f.where, ap(m)[:240])
        ctx.ob(f"{k}:id", any(holds(s, field(r, None, "issuance_id"), v[0]) for v, *_ in f.puts), "the id returned is the one the record is kept under", f.where)
def key_proofs(ctx, w, k, f, nonce):
    """Every credential request carries the token and one signed key proof for this issuer with the latest nonce."""
    n = 0
    for x, v, s, wh, _ in f.asks:
        if x != "Issuer::credential": continue
        r = v[0]; at_ = f"{wh[0]}:{wh[1]}"; n += 1
        w.fields_are(k, s, r, {"credential_issuer": field(tok("issuer"), None, "credential_issuer"), "access_token": field(tok("token"), None, "access_token")}, "the credential request", at_)
        pr = [t for t in subterms(field(r, None, "proof")) if t.op == "app" and t.a[0] == "jws::encode"]
        jw = [t for t in subterms(field(r, None, "proof")) if t.op == "adt" and t.a[0].endswith("::SingleProof")]
        if not ctx.ob(f"{k}:proof", len(set(pr)) == 1 and len(jw) == 1 and jw[0].a[1] == "Jwt", "the request carries a signed key proof", at_, ap(field(r, None, "proof"))[:200]): continue
        j = field(jw[0], "Jwt", "jwt")
        ctx.ob(f"{k}:proof:jwt", j is payload(pr[0]), "the proof is the JWT signed", at_, ap(j)[:200])
        ctx.ob(f"{k}:proof:type", pr[0].a[1].op == "adt" and pr[0].a[1].a[1] == "Proof", "the JWT is a key proof", at_, ap(pr[0].a[1]))
        c = pr[0].a[2]
        ctx.ob(f"{k}:proof:time", field(c, None, "iat") is NOW, "the proof is dated now", at_, ap(field(c, None, "iat"))[:100])
        w.fields_are(f"{k}:proof", s, c, {"iss": some(field(tok("saved"), None, "client_id")), "aud": field(tok("issuer"), None, "credential_issuer")}, "the key proof", at_)
        want = nonce(r)
        ctx.ob(f"{k}:proof:nonce", want is not None and holds(s, field(c, None, "nonce"), want), "the key proof carries the latest nonce received", at_, f"{ap(field(c, None, 'nonce'))[:80]} instead of {ap(want)[:80] if want is not None else 'no request'}")
    return n

@prop("C35", "Value-flow and must-fact analysis of what the wallet keeps: for every kind of credential response, a credential reaches the record (and from there the credential store) only on paths where its proof was verified, "
      "with the verified content and the text received; deferred transactions are recorded with their configuration and dropped when answered; the issuer is told of success only after every credential was stored.", TH)
def c35(ctx):
    w = Wallet2(ctx); p = w.p
    if w.ty("Issuance") is None: return
    A, B = tok("jwt:a"), tok("jwt:b"); old = tok("credential:old"); T0 = (string("tx-0"), CFG[1])
    def disp(n): return some(listof(struct(p, OI + "CredentialDisplay", tok(f"display:{n.a[1]}"), logo=NONE)))
    meta = struct(p, OI + "Issuer", tok("issuer"), credential_configurations_supported=mapof([(n, w.config(n, display=disp(n))) for n in CFG]))
    TK = w.token([(CFG[0], [string("id-1")])])
    def run(kind, end, resp):
        rec = w.received(token=TK, issuer=meta, credentials=listof(old), deferred=mapof([T0] + ([(string("tx-1"), CFG[0])] if end == "deferred" else [])))
        ans = {"Issuer::credential": lambda r: ok(resp), "Issuer::deferred": lambda r: ok(struct(p, OI + "DeferredCredentialResponse", None, credential_response=resp))}
        if end == "credentials": return w.flow(end, w.req("CredentialsRequest", issuance_id=ID, credential_identifiers=NONE, format=NONE), ok(rec), answers=ans)
        return w.flow(end, w.req("DeferredRequest", issuance_id=ID, transaction_id=string("tx-1"), credential_configuration_id=CFG[0]), ok(rec), answers=ans)
    for end in ("credentials", "deferred"):
        for kind, resp, jwts, tx in (("Credential", w.response("Credential", kstr(A)), [A], None), ("Credentials", w.response("Credentials", listof(kstr(A), kstr(B))), [A, B], None), ("TransactionId", w.response("TransactionId", string("tx-2")), [], string("tx-2"))):
            f = run(kind, end, resp); k = f"{end}:{kind}"
            f.good(k)
            if not f.puts: ctx.fail(f"{k}:kept", "what is received is recorded", f.where)
            for v, s, wh, _ in written(f):
                at_ = f"{wh[0]}:{wh[1]}"
                for j in jwts: ctx.ob(f"{k}:verified", s.prove(is_variant(dec(j), "Ok")), "a credential is kept only if its proof was verified", at_, ap(j))
                cs = field(v[1], None, "credentials")
                if not ctx.ob(f"{k}:credentials", cs.op == "array" and len(cs.a) == 1 + len(jwts) and cs.a[0] is old, "exactly the credentials received are added to those kept", at_, ap(cs)[:200]): continue
                for c, j in zip(cs.a[1:], jwts):
                    vc = field(field(payload(dec(j)), None, "claims"), None, "vc")
                    w.fields_are(k, s, c, {"vc": vc, "issued": j, "display": disp(CFG[0])}, "the credential kept is the one verified", at_)
                    iss = field(vc, None, "issuer"); ci = field(c, None, "issuer")
                    ctx.ob(f"{k}:issuer", ci is field(iss, "String", "0") or ci is field(field(iss, "Object", "0"), None, "id") or s.prove(eq(ci, field(iss, "String", "0"))), "the issuer kept is the verified credential's", at_, ap(ci)[:120])
                    dt = field(c, None, "issuance_date")
                    ctx.ob(f"{k}:date", mentions(dt, field(field(payload(dec(j)), None, "claims"), None, "iat")), "the date kept is that of issuance", at_, ap(dt)[:120])
                want = [T0] + ([(tx, CFG[0])] if tx is not None else [])
                ctx.ob(f"{k}:transactions", same_map(s, field(v[1], None, "deferred"), want), "transactions are recorded with their configuration, and dropped when answered", at_, ap(field(v[1], None, "deferred"))[:200])
            for r, s in f.good(k):
                ctx.ob(f"{k}:told", field(r, None, "issuance_id") is ID and opt_map(s, field(r, None, "deferred"), [T0] + ([(tx, CFG[0])] if tx is not None else [])), "what is still deferred is reported", f.where, ap(field(r, None, "deferred"))[:200])
        for kind, resp in (("unsigned", w.response("Credential", kobj(tok("vc")))), ("one unsigned", w.response("Credentials", listof(kstr(A), kobj(tok("vc")))))):
            f = run(kind, end, resp)
            ctx.ob(f"{end}:{kind}", not f.oks() and not f.puts, "a credential without a proof is refused, and nothing is recorded", f.where, f"{len(f.oks())} successes, {len(f.puts)} writes")
    f = w.flow("deferred", w.req("DeferredRequest", issuance_id=ID, transaction_id=string("tx-1"), credential_configuration_id=string("cfg-z")), ok(w.received(issuer=meta, deferred=mapof([(string("tx-1"), CFG[0])]))),
               answers={"Issuer::deferred": lambda r: ok(struct(p, OI + "DeferredCredentialResponse", None, credential_response=w.response("Credential", kstr(A))))})
    ctx.ob("deferred:unknown", not f.oks() and not f.puts, "a configuration the issuer does not describe is refused", f.where)
    # a deferred answer that leaves nothing closes the record only when nothing is left to store
    rec = w.received(issuer=meta, deferred=mapof([(string("tx-1"), CFG[0])]), credentials=listof())
    f = w.flow("deferred", w.req("DeferredRequest", issuance_id=ID, transaction_id=string("tx-1"), credential_configuration_id=CFG[0]), ok(rec), answers={"Issuer::deferred": lambda r: ok(struct(p, OI + "DeferredCredentialResponse", None, credential_response=w.response("Credential", kstr(A))))})
    ctx.ob("deferred:open", bool(f.puts) and not f.purges, "a record with credentials to store stays", f.where, f"{len(f.puts)} writes, {len(f.purges)} removals")
    for r, s in f.good("deferred:last"): ctx.ob("deferred:last", field(r, None, "deferred") is NONE, "nothing is reported as deferred when all is answered", f.where, ap(field(r, None, "deferred"))[:100])
    # what the issuer is told
    cred = [tok("credential:a"), tok("credential:b")]; nid = some(tok("notification"))
    EV = {"save": "CredentialAccepted", "cancel": "CredentialDeleted"}
    for end in ("save", "cancel"):
        rec = w.received(credentials=listof(*cred), notification_id=nid); f = w.call(end, ok(rec))
        n = 0
        for x, v, s, wh, _ in f.asks:
            if x != "Issuer::notification": continue
            at_ = f"{wh[0]}:{wh[1]}"; r = v[0]; e = field(r, None, "event"); ev = e.a[1] if e.op == "adt" else None; n += ev == EV[end]
            w.fields_are(f"{end}:notification", s, r, {"credential_issuer": field(field(rec, None, "issuer"), None, "credential_issuer"), "access_token": field(field(rec, None, "token"), None, "access_token"), "notification_id": tok("notification")}, "the notification", at_)
            saves = [mk("app", "CredentialStorer::save", c) for c in cred]
            if end == "cancel": ctx.ob("cancel:event", ev == "CredentialDeleted", "a cancelled issuance is notified as deleted", at_, ap(e)[:80])
            elif ev == "CredentialAccepted": ctx.ob("save:accepted", all(s.prove(is_variant(t, "Ok")) for t in saves), "the issuer is told of success only after every credential was stored", at_)
            else: ctx.ob("save:failed", ev == "CredentialFailure" and any(s.prove(is_variant(t, "Err")) for t in saves), "the issuer is told of a failure only if storing failed", at_, ap(e)[:80])
        ctx.ob(f"{end}:notified", n > 0, "the issuer is notified", f.where)
        for r, s in f.good(f"{end}:n"): ctx.ob(f"{end}:outcome", any(field(a[0], None, "event").a[1] == EV[end] for a in evs(s, "Issuer::notification")), "the issuer is told the outcome before success is reported", f.where)
        f = w.call(end, ok(w.received(credentials=listof(*cred), notification_id=NONE)))
        ctx.ob(f"{end}:unasked", not any(x == "Issuer::notification" for x, *_ in f.asks) and bool(f.oks()), "without a notification id nothing is notified", f.where)

def opt_map(s, t, kv): return t.op == "adt" and t.a[1] == "Some" and same_map(s, inner(t), kv)

@prop("C36", "Value-flow and must-fact analysis of the wallet's presentation endpoints: what is recorded, shown, signed and sent, for arbitrary requests and small literal lists of descriptors and credentials, on every path: the request comes "
      "from the link or from a verified signed object, the presentation signed holds exactly the stored credentials, the request's nonce and verifier and the signer's DID, and the submission answers each descriptor.", TH)
def c36(ctx):
    w = Wallet2(ctx); p = w.p
    if w.ty("Presentation", "presentation") is None: return
    URL = mk("param", "request")
    def desc(n, fields=NONE): return struct(p, DX + "InputDescriptor", tok("descriptor:" + n), id=string(n), constraints=struct(p, DX + "Constraints", tok("constraints:" + n), fields=fields))
    def pd(*ds): return kobj(struct(p, DX + "PresentationDefinition", tok("definition"), id=tok("definition-id"), input_descriptors=listof(*ds)))
    def ro(d): return struct(p, OV + "RequestObject", tok("request-object"), presentation_definition=d, response_uri=tok("response-uri"))
    # ---- request
    def request(d, kind="Jwt", find=None):
        o = ro(d); js = tok("signed-request")
        def decoded(e, st, a, c):
            j = e.deep(st, a[0]); t = mk("app", KEYNAME, j)
            out = []
            for b, s in e.fork_bool(st, is_variant(t, "Ok")):
                out.append((ok(adt("Jwt", "Jwt", False, (("claims", o),))), s) if b and j is js else (adt(RES, "Err", True, (("0", tok("bad-jwt")),)), s) if not b else (t, s))
            return out
        x = {KEYNAME: decoded}
        x["!urlencode::from_str"] = lambda e, st, a, c: [(s_, st2) for s_, st2 in parsed(e, st, a)]
        def parsed(e, st, a):
            t = mk("app", "parsed", e.deep(st, a[0]))
            return [((ok(o) if b else adt(RES, "Err", True, (("0", tok("bad-query")),))), s) for b, s in e.fork_bool(st, is_variant(t, "Ok"))]
        ans = {"Verifier::request_object": lambda u: ok(struct(p, OV + "RequestObjectResponse", None, request_object=variant(p, OV + "RequestObjectType", kind, **{"0": js if kind == "Jwt" else o}))),
               "CredentialStorer::find": lambda *a: find}
        return w.flow("request", URL, mod="presentation", extra=x, answers=ans, opaque=("^vercre_core::urlencode::from_str$",)), o, js
    C1, C2 = [struct(p, w.ty("Credential", "credential"), tok("credential:" + n), issued=tok("issued:" + n)) for n in "ab"]
    f, o, js = request(pd(desc("one")), find=ok(listof(C1, C2)))
    if not f.puts: ctx.fail("request:recorded", "a request is recorded", f.where)
    link = is_variant(mk("app", "parsed", URL), "Ok"); signed = is_variant(dec(js), "Ok")
    for v, s, wh, _ in written(f):
        at_ = f"{wh[0]}:{wh[1]}"; byref = bool(evs(s, "Verifier::request_object"))
        ctx.ob("request:genuine", s.prove(disj(link, signed)), "the request comes from the link itself or from a signed request whose signature was verified", at_)
        w.fields_are("request:recorded", s, v[1], {"request": o, "credentials": listof(C1, C2), "filter": field(desc("one"), None, "constraints")}, "the request and the credentials found for it are recorded", at_)
    for x, v, s, wh, _ in f.asks:
        if x == "CredentialStorer::find": ctx.ob("request:find", holds(s, v[0], some(field(desc("one"), None, "constraints"))), "credentials are looked up by the request's constraints", f"{wh[0]}:{wh[1]}", ap(v[0])[:160])
        if x == "Verifier::request_object": ctx.ob("request:fetch", mentions(v[0], URL), "the request is fetched from the address given", f"{wh[0]}:{wh[1]}", ap(v[0])[:120])
    for r, s in f.good("request"):
        ctx.ob("request:shown", field(r, None, "credentials") is listof(C1, C2) and field(r, None, "status") is w.status("Requested", "presentation"), "the credentials found are shown", f.where, ap(r)[:200])
        ctx.ob("request:id", any(field(r, None, "presentation_id") is v[0] for v, *_ in f.puts), "the id returned is the one recorded", f.where)
    f, o, js = request(pd(desc("one")), kind="Object", find=ok(listof(C1)))
    for v, s, wh, _ in written(f): ctx.ob("request:unsigned", s.prove(link), "a fetched request that is not signed is refused", f"{wh[0]}:{wh[1]}")
    for r, s in f.good("request:unsigned"): ctx.ob("request:unsigned", s.prove(link), "a fetched request that is not signed is refused", f.where)
    for n, d in (("by reference", kstr(tok("definition-uri"))), ("empty", pd())):
        f, o, js = request(d, find=ok(listof(C1))); ctx.ob(f"request:{n}", not f.oks() and not f.puts, f"a definition {n} is refused", f.where)
    f, o, js = request(pd(desc("one"), desc("two")), find=ok(listof(C1, C2)))
    cons = [field(desc(n), None, "constraints") for n in ("one", "two")]
    ctx.ob("request:second-descriptor", all(any(mentions(t, c) for x, v, s, wh, _ in f.asks if x == "CredentialStorer::find" for t in v) for c in cons), "credentials are looked up for every descriptor", f.where, "only the first descriptor's constraints are used")
    # ---- authorize leaves everything but the status as it is: C33
    # ---- present
    def present(ds, cs, rq=None):
        return w.flow("present", ID, ok(w.presentation("Authorized", request=rq if rq is not None else ro(pd(*ds)), credentials=listof(*cs))), mod="presentation")
    const = struct(p, DX + "Field", None, filter=some(struct(p, DX + "Filter", None, value=variant(p, DX + "FilterValue", "Const", **{"0": tok("const")}))))
    cf = some(listof(const))
    for n, ds, cs in (("one", [desc("one", cf)], [C1]), ("two", [desc("one", cf), desc("two")], [C1, C2])):
        f = present(ds, cs); k = f"present:{n}"; o = ro(pd(*ds))
        sent = [(v, s, wh) for x, v, s, wh, _ in f.asks if x == "Verifier::present"]
        if not sent: ctx.fail(k, "the presentation is sent", f.where)
        for v, s, wh in sent:
            at_ = f"{wh[0]}:{wh[1]}"; q = v[1]
            u = field(o, None, "response_uri")
            ctx.ob(f"{k}:uri", mentions(v[0], u) and s.prove(is_variant(u, "Some")) or v[0] is NONE and s.prove(is_variant(u, "None")), "the response goes to the address the request gives", at_, ap(v[0])[:160])
            w.fields_are(k, s, q, {"state": field(o, None, "state")}, "the response carries the request's state", at_)
            sb = field(q, None, "presentation_submission"); sub = inner(sb)
            ctx.ob(f"{k}:definition", sb.op == "adt" and sb.a[1] == "Some" and field(sub, None, "definition_id") is tok("definition-id"), "the submission is for the request's definition", at_, ap(sb)[:160])
            dm = field(sub, None, "descriptor_map")
            ctx.ob(f"{k}:descriptors", dm.op == "array" and [field(x, None, "id") for x in dm.a] == [field(d, None, "id") for d in ds], "the submission answers each descriptor by its id, in order", at_, ap(dm)[:240])
            if dm.op == "array":
                for i, x in enumerate(dm.a):
                    nest = field(x, None, "path_nested")
                    ctx.ob(f"{k}:path:{i}", field(x, None, "path") is string("$") and field(nest, None, "path") is string(f"$.verifiableCredential[{i}]"), "each descriptor is answered by a credential of its own", at_, f"{ap(field(x, None, 'path'))} {ap(field(nest, None, 'path'))}")
                    ctx.ob(f"{k}:format:{i}", field(x, None, "format") is string("jwt_vc_json") and field(nest, None, "format") is string("jwt_vc_json"), "the format named is that of what is sent", at_)
            tk = inner(field(q, None, "vp_token"))
            enc = [t for t in set(subterms(tk)) if t.op == "app" and t.a[0] == "jws::encode"]
            if not ctx.ob(f"{k}:signed", tk.op == "array" and len(tk.a) == 1 and len(enc) == 1 and tk.a[0] is kstr(payload(enc[0])), "one signed presentation is sent", at_, ap(tk)[:200]): continue
            ctx.ob(f"{k}:type", enc[0].a[1].op == "adt" and enc[0].a[1].a[1] == "Presentation", "it is signed as a presentation", at_, ap(enc[0].a[1])[:80])
            c = enc[0].a[2]; vp = field(c, None, "vp")
            w.fields_are(f"{k}:claims", s, c, {"aud": field(o, None, "client_id"), "nonce": field(o, None, "nonce")}, "the presentation is bound to the request", at_)
            h = field(vp, None, "holder"); hd = inner(h)
            ks = [t for t in subterms(h) if t.op == "app" and t.a[0] == "Signer::verification_method"]
            ctx.ob(f"{k}:holder", bool(ks) and h.op == "adt" and h.a[1] == "Some" and (any(is_before(hd, ks[0], q, s) for q in (string("#"), mk("const", "char", "#"))) or ap(hd) == f"first(str::split({ap(ks[0])}, '#'))"), "the holder is the signer's DID", at_, ap(h)[:160])
            ctx.ob(f"{k}:iss", holds(s, field(c, None, "iss"), hd), "the presentation is issued by its holder", at_, ap(field(c, None, "iss"))[:160])
            vcs = field(vp, None, "verifiable_credential"); l = inner(vcs)
            ctx.ob(f"{k}:credentials", vcs.op == "adt" and vcs.a[1] == "Some" and quota(l) == [kstr(field(x, None, "issued")) for x in cs], "the presentation holds exactly the credentials chosen, as issued", at_, ap(vcs)[:240])
        for r, s in f.good(k): ctx.ob(f"{k}:sent", len(evs(s, "Verifier::present")) == 1, "success means the presentation was sent, once", f.where)
    f = present([], [C1], ro(kstr(tok("definition-uri"))))
    ctx.ob("present:by reference", not f.oks() and not any(x == "Verifier::present" for x, *_ in f.asks), "a definition by reference is refused", f.where)
def quota(t):
    if t.op == "adt" and t.a[1] == "One": return [t.a[3][0][1]]
    if t.op == "adt" and t.a[1] == "Many": t = t.a[3][0][1]
    return list(t.a) if t.op == "array" else None
