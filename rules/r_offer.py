"""Rules for offers, deferral, notification, registration, lifetimes and storage failures (vercre-issuer)."""
from registry import prop
from terms import *
from proto import *
from models import mapof, entries
from r_issuer import (T, CR, OI, OA, REQ, CFG, Chain, Issuer, ids, tok, listof, unroll, entry, one, all_paths, same, dated, subject, detail, par_state)
from r_credential import Issue, T2, ACCESS, NONCE, decode, dec, KEYNAME

def gens(t, n): return calls_of(t, "gen::" + n)
class Offer(Chain):
    def offer(self, cfgs, grants, pin, send, subj=None, extra=None, **kw):
        sup = kw.pop("supported", CFG); meta = self.issuer_meta(sup)
        f, seen = subject()
        r = struct(self.p, OI + "CreateOfferRequest", REQ, grant_types=grants, credential_configuration_ids=listof(*cfgs), tx_code_required=pin,
                   subject_id=some(tok("subject")) if subj is None else subj, send_type=variant(self.p, OI + "SendType", send), **kw)
        x = {"Subject::authorize": f, "Metadata::issuer": lambda e, st, a, c: [(ok(meta), st)]}; x.update(extra or {})
        fl = self.flow("create_offer", r, extra=x, tune=unroll); fl.seen = seen
        return fl

@prop("C23", "Value-flow and must-fact analysis of the offer endpoint for every set of grants, with and without a PIN, by value and by reference: an offer is made only for supported "
      "configurations and grants and, if pre-authorized, for an identified subject; it names exactly the configurations and grants asked for; its code is the fresh key its state is saved under; "
      "the PIN exists iff asked for with a pre-authorized grant, is saved with the offer, returned beside it and never part of it; by reference, the same offer is saved under the token in the URI.", T)
def c23(ctx):
    i = Offer(ctx); p = i.p; a, b, c = CFG
    PRE, AUTH = i.gt("PreAuthorizedCode"), i.gt("AuthorizationCode")
    G = {"none": NONE, "empty": some(listof()), "pre": some(listof(PRE)), "auth": some(listof(AUTH)), "both": some(listof(PRE, AUTH)), "both-reversed": some(listof(AUTH, PRE))}
    for gn, g in G.items():
        pre, auth = "pre" in gn or "both" in gn, "auth" in gn or "both" in gn
        for pin in (TRUE, FALSE):
            for send in ("ByVal", "ByRef"):
                k = f"{gn}:{'pin' if pin is TRUE else 'open'}:{send}"
                f = i.offer([a, c], g, pin, send); w = f.where
                for r, s in f.good(k):
                    evs = list({tuple(val): val for val, s2, w2, t in f.puts if s.units.get(mk("ev", "put", *val))}.values())
                    ot = field(r, None, "offer_type")
                    if send == "ByVal":
                        off = ot.a[3][0][1] if ot.op == "adt" and ot.a[1] == "Object" else None
                        if off is None: ctx.fail(f"{k}:kind", "an offer sent by value is an object", w, ap(ot)[:200]); continue
                    else:
                        u = ot.a[3][0][1] if ot.op == "adt" and ot.a[1] == "Uri" else None
                        tk = gens(u, "uri_token") if u is not None else []
                        kept = [v for v in evs if tk and v[0] is tk[0]]
                        if not kept: ctx.fail(f"{k}:kind", "an offer sent by reference is saved under the fresh token in its URI", w, ap(ot)[:200]); continue
                        offs = [x for x in subterms(kept[0][1]) if x.op == "adt" and x.a[0] == OI + "CredentialOffer"]
                        off = offs[0] if len(offs) == 1 else None
                        if off is None: ctx.fail(f"{k}:kept", "the offer is saved for retrieval", w, ap(kept[0][1])[:200]); continue
                        ctx.ob(f"{k}:uri", u.op == "cat" and u.a[0] is field(REQ, None, "credential_issuer") and u.a[-1] is tk[0] and not gens(u, "auth_code"), "the URI is the issuer's and ends with the token", w, ap(u)[:200])
                    # the offer
                    ctx.ob(f"{k}:issuer", field(off, None, "credential_issuer") is field(REQ, None, "credential_issuer"), "the offer names the issuer it was asked for", w)
                    ctx.ob(f"{k}:configurations", field(off, None, "credential_configuration_ids") is listof(a, c), "the offer names exactly the configurations asked for", w, ap(field(off, None, "credential_configuration_ids"))[:200])
                    gr = field(off, None, "grants")
                    code = gens(off, "auth_code") + gens(off, "issuer_state")
                    if not (pre or auth):
                        ctx.ob(f"{k}:grants", gr is NONE and not [v for v in evs if gens(v[0], "auth_code")], "an offer without grants authorizes nothing", w, ap(gr)[:200])
                    else:
                        gg = inner(gr); pg, ag = field(gg, None, "pre_authorized_code"), field(gg, None, "authorization_code")
                        ctx.ob(f"{k}:grants", (pg is not NONE) == pre and (ag is not NONE) == auth, "the offer has exactly the grants asked for", w, ap(gr)[:300])
                        used = {"pre": field(inner(pg), None, "pre_authorized_code")} if pre else {}
                        if auth: used["auth"] = inner(field(inner(ag), None, "issuer_state"))
                        for n, x in used.items():
                            v = [v for v in evs if v[0] is x]
                            ctx.ob(f"{k}:{n}-code", len(v) == 1 and x in code, "the code in the offer is fresh and its state is saved under it", w, ap(x)[:200])
                            if len(v) != 1: continue
                            st = v[0][1]
                            ctx.ob(f"{k}:{n}-subject", mentions(st, tok("subject")), "the state holds the subject of the offer", w)
                            pins = gens(st, "tx_code")
                            want = pre and pin is TRUE and n == "pre"
                            ctx.ob(f"{k}:{n}-pin", (len(pins) == 1 and field(r, None, "tx_code") is some(pins[0])) if want else (n == "auth" and pre and pin is TRUE) or not pins, "a PIN is saved iff one was asked for, and it is the one returned", w, ap(field(r, None, "tx_code"))[:200])
                        if pre:
                            td = field(inner(pg), None, "tx_code")
                            ctx.ob(f"{k}:pin-announced", (td is not NONE) == (pin is TRUE), "the offer announces a PIN iff one is needed", w, ap(td)[:200])
                            if pin is TRUE: ctx.ob(f"{k}:pin-shape", field(inner(td), None, "length") is some(integer(6)) and field(inner(td), None, "input_mode") is some(string("numeric")), "the PIN announced is six digits", w, ap(td)[:200])
                    if not (pre and pin is TRUE): ctx.ob(f"{k}:no-pin", field(r, None, "tx_code") is NONE, "no PIN is made up", w, ap(field(r, None, "tx_code"))[:200])
                    ctx.ob(f"{k}:pin-secret", not gens(ot, "tx_code") and not gens(off, "tx_code"), "the PIN is never part of the offer", w)
                asked = {(x, y) for x, y in f.seen}
                ctx.ob(f"{k}:authorized", asked == ({(tok("subject"), a), (tok("subject"), c)} if pre else set()), "a pre-authorized offer is authorized for this subject, configuration by configuration", w, f"{[(ap(x), ap(y)) for x, y in asked]}")
    # refusals
    def refused(key, f, rule): ctx.ob(key, not f.oks() and not f.puts, rule, f.where, f"{len(f.oks())} successful outcomes, {len(f.puts)} records saved")
    refused("refuse:none", i.offer([], G["pre"], FALSE, "ByVal"), "an offer of nothing is refused")
    for n, cs in (("only", [c]), ("last", [a, c]), ("first", [c, a])): refused(f"refuse:unsupported-{n}", i.offer(cs, G["auth"], FALSE, "ByVal", supported=[a, b]), "a configuration the issuer does not support is refused")
    for n in ("pre", "both", "both-reversed"): refused(f"refuse:anonymous-{n}", i.offer([a], G[n], FALSE, "ByVal", subj=NONE), "a pre-authorized offer needs a subject")
    deny = {"Subject::authorize": lambda e, st, a_, c_: [(err(tok("denied")), st)]}
    refused("refuse:denied", i.offer([a], G["pre"], FALSE, "ByVal", extra=deny), "a subject that is not authorized gets no pre-authorized offer")
    sup = field(field(payload(mk("app", "Metadata::server", field(REQ, None, "credential_issuer"), NONE)), None, "oauth"), None, "grant_types_supported")
    for n in ("pre", "auth", "both"):
        f = i.offer([a], G[n], FALSE, "ByVal")
        for x in [PRE] * (n != "auth") + [AUTH] * (n != "pre"):
            f.require(f"grant:{n}:{x.a[1]}", f.okstates(n) + f.putstates(), [disj(neg(is_variant(sup, "Some")), contains(inner(sup), x))], "only grants the server supports are offered")
        f.require(f"known:{n}", f.okstates(n) + f.putstates(), is_variant(mk("app", "Metadata::server", field(REQ, None, "credential_issuer"), NONE), "Ok"), "the authorization server is known")
        f.require(f"issuer:{n}", f.okstates(n) + f.putstates(), neg(empty(field(REQ, None, "credential_issuer"))), "the issuer is named")
    ctx.floor("offer shapes", len({o["key"].rsplit(":", 1)[0] for o in ctx.obs}), 20)

@prop("C24", "Must-fact dataflow over the retrieval of offers by reference, chained to what the offer endpoint saves: an offer is handed out only if it was saved for retrieval under that id, "
      "belongs to the issuer asked, has not expired, and was removed from the store, and what is returned is the offer saved.", T)
def c24(ctx):
    i = Offer(ctx); key = field(REQ, None, "id")
    fo = i.offer([CFG[0]], some(listof(i.gt("AuthorizationCode"))), FALSE, "ByRef")
    sv = one(val[1] for val, *_ in fo.puts if gens(val[0], "uri_token"))
    if sv is None: return ctx.fail("anchor:offer", "an offer by reference is saved", fo.where)
    f = i.flow("credential_offer"); S = payload(stored(key)); sites = f.okstates("offer")
    f.require("offer:known", sites, is_variant(stored(key), "Ok"), "the offer is in the store")
    f.require("offer:once", sites, conj(mk("ev", "purge", key), is_variant(mk("app", "purge", key), "Ok")), "the offer is removed before it is handed out")
    f.require("offer:live", sites, not_expired(at(S, i.path("expiry", sv, dated))), "the offer has not expired")
    pp = locate(sv, None, lambda t: t.op == "adt" and t.a[0] == OI + "CredentialOffer")
    st = [(v, n) for v, n in pp if v][:1]
    for v, n in st: f.require("offer:stage", sites, is_variant(at(S, pp[:[x for x, _ in pp].index(v)]), v), "what the id names is an offer awaiting retrieval")
    f.require("offer:issuer", sites, eq(field(at(S, pp), None, "credential_issuer"), field(REQ, None, "credential_issuer")), "the offer is of the issuer asked")
    for r, s in f.good("offer"):
        ctx.ob("offer:unchanged", any(x is at(S, pp) for x in subterms(r)), "the offer returned is the one saved", f.where, ap(r)[:200])
    ctx.floor("guard facts proved", sum(o["holds"] for o in ctx.obs), 6)

@prop("C25", "Must-fact and value-flow analysis of the deferred-credential, notification and registration endpoints, chained to the states the other endpoints save: a deferred credential is issued only "
      "for a live transaction, for the request saved with it and under the guards of the credential endpoint (the caller's token, issuer and the saved proof), the transaction is removed exactly when a "
      "credential is returned; a notification is accepted only for what was issued, once; a client is registered only with a live access token.", T2)
def c25(ctx):
    i = Issue(ctx); a = CFG[0]; j1 = tok("jwt1")
    ts = i.token_state([a])
    if ts is None: return
    data = struct(i.p, OI + "Dataset", None, claims=tok("claims"), pending=tok("pending"))
    f0 = i.credential(i.request(proof=i.proof1(j1)), ts, dataset=data)
    dv = one(val for val, *_ in f0.puts if gens(val[0], "transaction_id"))
    if dv is None: return ctx.fail("anchor:deferred", "a deferred transaction is saved", f0.where)
    TX = tok("transaction"); sv = dv[1]
    times = {x for x in subterms(sv) if dated(x)}
    lit = subst(sv, {dv[0]: TX, ACCESS: tok("token then"), **{x: tok("until:txn") for x in times}})
    NEWTOK = tok("access")
    req = struct(i.p, OI + "DeferredCredentialRequest", REQ, transaction_id=TX, access_token=ACCESS)
    meta = i.meta()
    def flow(state, tstate, pend=None, opaque=()):
        d = data if pend is None else struct(i.p, OI + "Dataset", None, claims=tok("claims"), pending=pend)
        x = {"Metadata::issuer": lambda e, st, a_, c: [(ok(meta), st)] if e.deep(st, a_[1]) is field(REQ, None, "credential_issuer") else None, KEYNAME: decode, "Subject::dataset": lambda e, st, a_, c: [(ok(d), st)]}
        from r_credential import CRV
        cells = {}
        if state is not None: cells[TX] = ok(state)
        if tstate is not None: cells[ACCESS] = ok(tstate)
        return Flow(ctx, CRV, entry(i.p, "vercre_issuer", "deferred"), params={1: req}, cells=cells, tune=unroll, opaque=("::verify_claims$", "to_credential$", "^vercre_w3c_vc::proof::create$") + opaque, extra=x)
    f = flow(lit, ts); sites = [(s, f.where + " success") for _, s in f.good("deferred")]
    f.require("deferred:live", sites, not_expired(tok("until:txn")), "the transaction has not expired")
    f.require("deferred:once", sites, conj(mk("ev", "purge", TX), is_variant(mk("app", "purge", TX), "Ok")), "the transaction is removed when its credential is returned")
    f.require("deferred:proof", sites, is_variant(dec(j1), "Ok"), "the proof saved with the transaction is verified")
    f.require("deferred:complete", sites, neg(tok("pending")), "the credential is returned only when its data is no longer pending")
    for r, s in f.good("deferred"):
        ctx.ob("deferred:content", any(x.op == "app" and x.a[0] == "proof::create" for x in subterms(r)) and mentions(r, tok("claims")), "the response is the credential of the request saved with the transaction", f.where, ap(r)[:200])
        ctx.ob("deferred:granted", s.prove(mk("ev", "stored", ACCESS)), "the access token of the caller is looked up", f.where)
    f = flow(lit, ts, TRUE)
    ctx.ob("deferred:pending", not f.oks(), "while the data is pending no credential is returned", f.where, f"{len(f.oks())} successful outcomes")
    ctx.ob("deferred:kept", not [1 for v, *_ in f.purges if v[0] is TX], "while the data is pending the transaction is kept for the next attempt", f.where, "the transaction is removed")
    f = flow(None, ts, opaque=("^" + entry(i.p, "vercre_issuer", "credential") + "$",)); S = payload(stored(TX)); sites = [(s, f.where + " success") for _, s in f.oks()]
    if sites:
        f.require("deferred:known", sites, is_variant(stored(TX), "Ok"), "the transaction is in the store")
        sp = locate(sv, None, lambda t: t.op == "adt" and t.a[0].endswith("::Stage")); st = at(sv, sp) if sp else None
        if st is not None and st.op == "adt": f.require("deferred:stage", sites, is_variant(at(S, sp), st.a[1]), "what the id names is a deferred transaction")
    for n, other in (("token", ts), ("code", subst(ts, {}))):
        f = flow(subst(other, {}), ts)
        ctx.ob(f"deferred:not-{n}", not f.oks(), "a record of another stage is not a deferred transaction", f.where, f"{len(f.oks())} successful outcomes")
    # notification
    NID = field(REQ, None, "notification_id")
    f = i.flow("notification"); S = payload(stored(NID)); sites = f.okstates("notification")
    f.require("notification:known", sites, is_variant(stored(NID), "Ok"), "the notification is about something in the store")
    f.require("notification:once", sites, conj(mk("ev", "purge", NID), is_variant(mk("app", "purge", NID), "Ok")), "a notification is accepted once")
    nv = one(val for val, *_ in f0.puts if gens(val[0], "notification_id"))
    if nv is None: ctx.fail("anchor:notification", "issuance saves state for the notification", f0.where)
    else:
        sp = locate(nv[1], None, lambda t: t.op == "adt" and t.a[0].endswith("::Stage")); st = at(nv[1], sp)
        same_stage = at(ts, sp)
        ctx.ob("notification:separate", not (st.op == "adt" and same_stage.op == "adt" and st.a[1] == same_stage.a[1]), "a notification id is not an access token", f0.where, f"the state saved under a notification id is in stage {st.a[1] if st.op == 'adt' else ap(st)[:80]}, the stage of access tokens")
        tied = all(s.prove(is_variant(at(S, sp), st.a[1]), 10) for s, _ in sites) if st.op == "adt" else False
        ctx.ob("notification:accepted", tied, "a notification for a credential just issued is accepted", f.where, f"the endpoint requires another stage than the one saved at issuance ({st.a[1] if st.op == 'adt' else ''})")
    # registration
    AT = field(REQ, None, "access_token"); S = payload(stored(AT)); f = i.flow("register"); sites = f.okstates("register") + [(s, w) for n, v, s, w, t in f.asks if n.endswith("register")]
    f.require("register:known", sites, is_variant(stored(AT), "Ok"), "the access token is in the store")
    ep = one(p for p in all_paths(ts) if str(at(ts, p).a[0]).startswith("until:") and not any(v for v, _ in p))
    f.require("register:live", sites, not_expired(at(S, ep)), "the access token has not expired")
    sp = locate(ts, None, lambda t: t.op == "adt" and t.a[0].endswith("::Stage"))
    f.require("register:stage", sites, is_variant(at(S, sp), at(ts, sp).a[1]), "what the access token names is a token")
    f.require("register:metadata", f.okstates("register"), lambda s: [x for x in s.units if x.op == "is" and x.a[1] == "Ok" and "register" in str(x.a[0].a[0])] or None, "the client is registered")
    for n, v, s, w, t in f.asks:
        if n.endswith("register"): ctx.ob("register:content", v[-1] is field(REQ, None, "client_metadata"), "the metadata registered is the metadata sent", w, ap(v[-1])[:200])
    ctx.floor("guard facts proved", sum(o["holds"] for o in ctx.obs), 15)

# ------------------------------------------------------------- across the endpoints
def scenarios(ctx, quick=True):
    """One flow per endpoint and form of request: (name, flow)."""
    o = Offer(ctx); i = Issue(ctx); a, b, c = CFG; j1 = tok("jwt1")
    PRE, AUTH = o.gt("PreAuthorizedCode"), o.gt("AuthorizationCode")
    out = []
    for n, g in (("none", NONE), ("pre", some(listof(PRE))), ("auth", some(listof(AUTH))), ("both", some(listof(PRE, AUTH)))):
        for send in ("ByVal", "ByRef"): out.append((f"create_offer:{n}:{send}", o.offer([a], g, TRUE, send)))
    out.append(("credential_offer", o.flow("credential_offer")))
    out.append(("authorize:details", o.auth_state([detail(o.p, a)])[0]))
    out.append(("authorize:pushed", o.flow("authorize", adt(OI + "AuthorizationRequest", "Uri", True, (("0", struct(o.p, OI + "RequestUri", None, request_uri=tok("request_uri"))),)))))
    out.append(("par", par_state(o, ctx)[0]))
    for v in ("PreAuthorizedCode", "AuthorizationCode"): out.append((f"token:{v}", o.token(v)))
    ts = i.token_state([a])
    if ts is not None:
        data = struct(i.p, OI + "Dataset", None, claims=tok("claims"), pending=tok("pending"))
        out.append(("credential:identifier", i.credential(i.request(proof=i.proof1(j1)), ts, dataset=data)))
        out.append(("credential:format", i.credential(i.request(i.byformat(i.format("JwtVcJson", "cfg1")), proof=i.proof1(j1)), ts, dataset=data)))
        out.append(("credential:mdoc", i.credential(i.request(proof=i.proof1(j1)), ts, dataset=data, meta=i.meta(fmt="IsoMdl", profile=tok("mdl")))))
        out.append(("credential:noproof", i.credential(i.request(), ts, dataset=data, meta=i.meta(proofs=NONE))))
    op = ("^" + entry(i.p, "vercre_issuer", "credential") + "$",)
    out.append(("deferred", o.flow("deferred", opaque=op)))
    for n in ("notification", "register", "metadata", "oauth_server"): out.append((n, o.flow(n)))
    return i, ts, out

@prop("C26", "Value-flow analysis of every endpoint that saves or announces a lifetime: each record is given to the store with exactly the expiry kept inside it, a fixed time ahead of now and at most an hour; "
      "the lifetimes announced for access tokens, nonces and pushed requests equal the expiry saved for them, also when a rejected proof renews the nonce.", T2)
def c26(ctx):
    i, ts, fl = scenarios(ctx)
    def until(t):
        """Points in time in a saved value, as seconds from now."""
        return [x.a[1].a[1] for x in subterms(t) if dated(x) and is_const(x.a[1], "int")]
    for n, f in fl:
        for val, s, w, t in f.puts:
            key, rec, exp = val
            top = [v for v_, v in [(None, x) for x in (rec,)]]
            own = [at(rec, p) for p in all_paths(rec) if dated(at(rec, p)) and not any(v for v, _ in p)] if rec.op == "adt" else [x.a[3] for x in subterms(rec) if x.op == "with" and dated(x.a[3]) and not x.a[1]]
            ctx.ob(f"{n}:kept", any(x is exp for x in own), "a record is stored with the expiry it holds", w, f"stored until {ap(exp)[:100]}, holds {[ap(x)[:60] for x in own]}")
            ctx.ob(f"{n}:bounded", dated(exp) and is_const(exp.a[1], "int") and 0 < exp.a[1].a[1] <= 3600, "a record lives for a fixed time, an hour at most", w, ap(exp)[:100])
        for r, s in f.outs:
            if r.op != "adt": continue
            evs = {tuple(val): val for val, *_ in f.puts if s.units.get(mk("ev", "put", *val))}
            recs = [v[1] for v in evs.values()]
            pay = r.a[3][0][1] if r.a[3] else None
            if pay is None or pay.op not in ("adt",): continue
            for x in subterms(pay):
                if x.op != "adt": continue
                names = dict(x.a[3])
                for nm, val in names.items():
                    if not nm.endswith("expires_in"): continue
                    v = inner(val) if val.op == "adt" and val.a[1] == "Some" else val
                    if v is NONE: continue
                    what = names.get({"expires_in": "access_token", "c_nonce_expires_in": "c_nonce"}[nm]) if nm in ("expires_in", "c_nonce_expires_in") else None
                    if what is None: what = names.get("request_uri")
                    if what is not None and what.op == "adt": what = inner(what)
                    sec = v.a[1] if is_const(v, "int") else None
                    # the expiry saved beside (or for) the value announced
                    got = []
                    for k, rec, exp in evs.values():
                        if k is what and is_const(exp.a[1], "int"): got.append(exp.a[1].a[1])
                        else:
                            for y in subterms(rec):
                                if y.op == "adt" and any(z is what for _, z in y.a[3]): got += [z.a[1].a[1] for _, z in y.a[3] if dated(z)]
                                if y.op == "with" and y.a[3] is what: got += [z.a[3].a[1].a[1] for z in subterms(rec) if z.op == "with" and dated(z.a[3]) and z.a[1] == y.a[1] and mentions(z, y)]
                    ctx.ob(f"{n}:{nm}", sec is not None and bool(got) and sec in got, "the lifetime announced is the lifetime saved", f.where, f"announced {ap(v)[:60]}, saved {got}")
    keys = {o["key"] for o in ctx.obs}
    for k in ("token:PreAuthorizedCode:expires_in", "token:PreAuthorizedCode:c_nonce_expires_in", "par:expires_in", "credential:identifier:c_nonce_expires_in"):
        if k not in keys: ctx.fail(k, "the lifetime announced is the lifetime saved", "responses", "no announced lifetime found")
    ctx.floor("records and announcements", len(ctx.obs), 30)

@prop("C27", "Must-fact dataflow over every endpoint: on every path to a successful response each save to and removal from the store that was performed is known to have succeeded, "
      "so that a storage failure is always reported to the caller as an error.", T2)
def c27(ctx):
    i, ts, fl = scenarios(ctx); ops = 0
    for n, f in fl:
        for r, s in f.good(n):
            for ev, k in list(s.units.items()):
                if ev.op != "ev" or ev.a[0] not in ("put", "purge") or not k: continue
                ops += 1
                t = mk("app", ev.a[0], *ev.a[1:])
                ctx.ob(f"{n}:{ev.a[0]}", s.prove(is_variant(t, "Ok"), 8), "a success is reported only if the store reported success", f.where, f"{ev.a[0]}({ap(ev.a[1])[:100]}) is not known to have succeeded")
    ctx.floor("store operations on successful paths", ops, 20)
