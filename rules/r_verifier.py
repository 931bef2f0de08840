"""Rules for the verifier's endpoints (vercre-verifier)."""
from registry import prop
from terms import *
from proto import *
from models import mapof, entries
from r_issuer import T, tok, listof, unroll, entry, one, all_paths, dated, same
from r_credential import T2, decode, dec, KEYNAME

CV = ("vercre_core", "vercre_openid", "vercre_verifier", "vercre_w3c_vc", "vercre_dif_exch")
OV = "vercre_openid::verifier::"
DX = "vercre_dif_exch::"
KIND = "vercre_core::Kind"
REQ = mk("param", "request")
def kstr(x): return adt(KIND, "String", True, (("0", x),))
def kobj(x): return adt(KIND, "Object", True, (("0", x),))

class Verifier:
    def __init__(self, ctx): self.ctx = ctx; self.p = ctx.program(*CV)
    def flow(self, name, request=None, **kw):
        x = dict(kw.pop("extra", {})); x[KEYNAME] = decode
        return Flow(self.ctx, CV, entry(self.p, "vercre_verifier", name), opaque=("::satisfied$",), params={1: request} if request is not None else None, extra=x, tune=unroll, **kw)
    def create(self, device=None, descs=None, **kw):
        if descs is not None: kw["input_descriptors"] = descs
        if device is not None: kw["device_flow"] = variant(self.p, OV + "DeviceFlow", device)
        return self.flow("create_request", struct(self.p, OV + "CreateRequestRequest", REQ, **kw))
    def descriptor(self, n, formats=None):
        return struct(self.p, DX + "InputDescriptor", tok("descriptor:" + n), id=string(n), constraints=tok("constraints:" + n),
                      format=NONE if formats is None else some(mapof([(string(x), tok("claimformat")) for x in formats])))
    def mapping(self, n, fmt="jwt_vc_json"):
        return struct(self.p, DX + "DescriptorMap", tok("map:" + n), id=string(n), path_nested=struct(self.p, DX + "PathNested", tok("nested:" + n), path=tok("path:" + n), format=string(fmt)))
    def state(self, descs, device="CrossDevice"):
        """What the request endpoint saves, with a nonce and expiry of its own."""
        f = self.create(device, listof(*descs))
        v = one(val for val, *_ in f.puts)
        if v is None: self.ctx.fail("anchor:request", "the request is saved", f.where); return None
        return subst(v[1], {**{x: tok("nonce0") for x in calls_of(v[1], "gen::nonce")}, **{x: tok("until") for x in subterms(v[1]) if dated(x)}})
    def response(self, saved, vps, maps, **kw):
        sub = struct(self.p, DX + "PresentationSubmission", tok("submission"), descriptor_map=listof(*maps))
        kw.setdefault("vp_token", some(listof(*vps))); kw.setdefault("presentation_submission", some(sub)); kw.setdefault("state", some(tok("state")))
        r = struct(self.p, OV + "ResponseRequest", REQ, **kw)
        return self.flow("response", r, cells={tok("state"): ok(saved)} if saved is not None else None)

@prop("C28", "Value-flow and must-fact analysis of the request endpoints: every presentation request carries a fresh nonce and fresh state key, is saved under that key exactly as it is handed out, holds the "
      "input descriptors asked for, is made only for a known verifier and for at least one descriptor; by reference only the request saved for that verifier is returned, signed by it, while it is live.", T2)
def c28(ctx):
    i = Verifier(ctx); p = i.p
    for dev in ("SameDevice", "CrossDevice"):
        f = i.create(dev); w = f.where
        f.require(f"{dev}:known", f.okstates(dev) + f.putstates(), is_variant(mk("app", "Metadata::verifier", field(REQ, None, "client_id")), "Ok"), "the verifier is known")
        f.require(f"{dev}:asks", f.okstates(dev) + f.putstates(), neg(empty(field(REQ, None, "input_descriptors"))), "at least one credential is asked for")
        for r, s in f.good(dev):
            evs = list({tuple(v): v for v, *_ in f.puts if s.units.get(mk("ev", "put", *v))}.values())
            ctx.ob(f"{dev}:saved", len(evs) == 1, "the request is saved once", w, f"{len(evs)}")
            if len(evs) != 1: continue
            key, rec, exp = evs[0]
            ro = [x for x in subterms(rec) if x.op == "adt" and x.a[0] == OV + "RequestObject"]
            if len(ro) != 1: ctx.fail(f"{dev}:object", "the state holds the request object", w, ap(rec)[:200]); continue
            ro = ro[0]
            ctx.ob(f"{dev}:key", calls_of(key, "gen::uri_token") == [key], "the state key is fresh", w, ap(key)[:100])
            ctx.ob(f"{dev}:state", field(ro, None, "state") is some(key), "the request's state is the key it is saved under", w, ap(field(ro, None, "state"))[:100])
            n = field(ro, None, "nonce")
            ctx.ob(f"{dev}:nonce", calls_of(n, "gen::nonce") == [n], "the nonce is fresh", w, ap(n)[:100])
            pd = field(ro, None, "presentation_definition")
            ctx.ob(f"{dev}:definition", pd.op == "adt" and pd.a[1] == "Object" and field(pd.a[3][0][1], None, "input_descriptors") is field(REQ, None, "input_descriptors"), "the definition holds the descriptors asked for", w, ap(pd)[:200])
            ctx.ob(f"{dev}:definition-id", pd.op == "adt" and any(x.op == "app" and "new_v4" in x.a[0] for x in subterms(field(pd.a[3][0][1], None, "id"))), "the definition has a fresh id", w)
            cid = field(ro, None, "client_id")
            ctx.ob(f"{dev}:client", mentions(cid, field(REQ, None, "client_id")), "the request is made in the verifier's name", w, ap(cid)[:100])
            ctx.ob(f"{dev}:metadata", mentions(field(ro, None, "client_metadata"), mk("app", "Metadata::verifier", field(REQ, None, "client_id"))), "the request carries the verifier's metadata", w)
            robj, uri = field(r, None, "request_object"), field(r, None, "request_uri")
            if dev == "SameDevice":
                ctx.ob(f"{dev}:returned", robj is some(ro), "the request returned is the request saved", w, ap(robj)[:200])
                ctx.ob(f"{dev}:form", uri is NONE, "a same-device request is given by value only", w)
            else:
                ctx.ob(f"{dev}:form", robj is NONE, "a cross-device request is given by reference only", w)
                u = inner(uri)
                ctx.ob(f"{dev}:uri", uri is not NONE and u.op == "cat" and u.a[0] is field(REQ, None, "client_id") and u.a[-1] is key, "the request URI is the verifier's and ends with the key", w, ap(uri)[:200])
                ctx.ob(f"{dev}:post", field(ro, None, "response_mode") is some(string("direct_post")) and field(ro, None, "response_uri") is some(cid), "a cross-device response is posted to the verifier", w, ap(field(ro, None, "response_uri"))[:200])
            own = [at(rec, q) for q in all_paths(rec) if dated(at(rec, q))]
            ctx.ob(f"{dev}:lifetime", any(x is exp for x in own) and is_const(exp.a[1], "int") and 0 < exp.a[1].a[1] <= 3600, "the request is stored with the expiry it holds", w, ap(exp)[:100])
            t = mk("app", "put", *evs[0]); ctx.ob(f"{dev}:stored", s.prove(is_variant(t, "Ok")), "a request is handed out only if it was saved", w)
    f = i.create(None, listof()); ctx.ob("empty", not f.oks() and not f.puts, "a request for nothing is refused", f.where)
    # by reference
    st = i.state([i.descriptor("d1")])
    if st is None: return
    key = tok("id"); r = struct(p, OV + "RequestObjectRequest", REQ, id=key)
    rp = locate(st, None, lambda t: t.op == "adt" and t.a[0] == OV + "RequestObject"); ep = one(q for q in all_paths(st) if at(st, q) is tok("until"))
    f = i.flow("request_object", r); S = payload(stored(key)); sites = f.okstates("object"); ro = at(S, rp)
    f.require("object:known", sites, is_variant(stored(key), "Ok"), "the request is in the store")
    f.require("object:live", sites, not_expired(at(S, ep)), "the request has not expired")
    f.require("object:client", sites, lambda s: [x for x in s.units if x.op == "eq" and mentions(x, field(ro, None, "client_id")) and mentions(x, field(REQ, None, "client_id"))] or None, "the request is of the verifier asked")
    f2 = i.flow("request_object", r, cells={key: ok(st)})
    f2.require("object:own", f2.okstates("object"), TRUE, "a verifier's request can be retrieved")
    for x, s in f.good("object"):
        e = [y for y in subterms(x) if y.op == "app" and y.a[0] == "jws::encode"]
        ctx.ob("object:signed", len(e) == 1 and any(y is ro for y in e[0].a) and any(isinstance(y, Term) and y.op == "app" and y.a[0] == "SecOps::signer" and field(REQ, None, "client_id") in y.a for z in e[0].a if isinstance(z, Term) for y in subterms(z)), "what is returned is the request saved, signed by the verifier", f.where, ap(x)[:300])
    ctx.floor("guard facts proved", sum(o["holds"] for o in ctx.obs), 25)

@prop("C29", "Must-fact dataflow over the response endpoint, chained to the request it answers, for one and two presentations and descriptors in every pairing: on every path to success the request is known and live, "
      "every presentation's signature was checked, with the request's nonce and the verifier as audience, the submission is for the request's definition, and for every input descriptor a credential "
      "taken from the verified presentations at the path mapped to that descriptor was signature-checked, satisfies that descriptor's own constraints and has not expired; the request is removed, so it cannot be answered twice.", T2)
def c29(ctx):
    i = Verifier(ctx); p = i.p; d1, d2 = i.descriptor("d1"), i.descriptor("d2"); m1, m2 = i.mapping("d1"), i.mapping("d2")
    j1, j2 = tok("vp1"), tok("vp2"); J = [kstr(j1), kstr(j2)]
    K = tok("state")
    def facts(key, f, st, js, ds):
        ro = at(st, locate(st, None, lambda t: t.op == "adt" and t.a[0] == OV + "RequestObject"))
        sites = f.okstates(key); w = f.where
        f.require(f"{key}:live", sites, not_expired(tok("until")), "the request has not expired")
        f.require(f"{key}:once", sites, conj(mk("ev", "purge", K), is_variant(mk("app", "purge", K), "Ok")), "the request is removed from the store")
        for n, j in enumerate(js):
            cl = field(payload(dec(j)), None, "claims")
            f.require(f"{key}:signature{n}", sites, is_variant(dec(j), "Ok"), "every presentation's signature is checked")
            f.require(f"{key}:nonce{n}", sites, eq(field(cl, None, "nonce"), tok("nonce0")), "every presentation carries the request's nonce")
            f.require(f"{key}:audience{n}", sites, eq(field(cl, None, "aud"), field(ro, None, "client_id")), "every presentation is made for this verifier")
        pd = field(ro, None, "presentation_definition").a[3][0][1]
        f.require(f"{key}:definition", sites, eq(field(tok("submission"), None, "definition_id"), field(pd, None, "id")), "the submission answers the request's definition")
        for s, _ in sites:
            for n, d in ds:
                con = tok("constraints:" + n)
                sat = [x for x in known_terms(s) if x.op == "app" and x.a[0].endswith("satisfied") and x.a[1] is con]
                good = [x for x in sat if s.prove(conj(is_variant(x, "Ok"), payload(x)), 10)]
                if not ctx.ob(f"{key}:{n}:satisfied", bool(good), "every descriptor's constraints are satisfied", w, f"{[ap(x)[:120] for x in sat]}"): continue
                vc = good[0].a[2]
                vd = [x for x in subterms(vc) if x.op == "app" and x.a[0] == KEYNAME and not any(x is dec(j) for j in js)]
                vd = [x for x in vd if not any(x is not y and mentions(y, x) for y in vd)]
                if not ctx.ob(f"{key}:{n}:credential", len(vd) == 1, "the credential matched is one decoded from the presentation", w, ap(vc)[:200]): continue
                ctx.ob(f"{key}:{n}:signature", s.prove(is_variant(vd[0], "Ok"), 10), "the credential's signature is checked", w)
                src = vd[0].a[1]
                ctx.ob(f"{key}:{n}:mapped", mentions(src, tok("path:" + n)) and not any(mentions(src, tok("path:" + m)) for m, _ in ds if m != n), "the credential is the one mapped to this descriptor", w, ap(src)[:300])
                ctx.ob(f"{key}:{n}:presented", all(mentions(src, field(field(payload(dec(j)), None, "claims"), None, "vp")) for j in js), "the credential is taken from the verified presentations", w, ap(src)[:300])
                vu = field(vc, None, "valid_until")
                ctx.ob(f"{key}:{n}:current", any(s.prove(disj(neg(is_variant(vu, "Some")), x), 10) for x in not_expired(inner(vu))), "the credential has not expired", w, "not established")
    cases = [("one", J[:1], [j1], [("d1", d1)], [m1]), ("two-descriptors", J[:1], [j1], [("d1", d1), ("d2", d2)], [m1, m2]), ("swapped", J[:1], [j1], [("d1", d1), ("d2", d2)], [m2, m1]),
             ("two-presentations", J, [j1, j2], [("d1", d1)], [m1]), ("extra-mapping", J[:1], [j1], [("d2", d2)], [m1, m2])]
    for key, vps, js, ds, ms in cases:
        for dev in ("CrossDevice", "SameDevice") if key == "one" else ("CrossDevice",):
            st = i.state([d for _, d in ds], dev)
            if st is None: return
            facts(key if dev == "CrossDevice" else key + "-same", i.response(st, vps, ms), st, js, ds)
    st = i.state([d1])
    # arbitrary stored state
    f = i.response(None, J[:1], [m1]); sites = f.okstates("known")
    f.require("known:state", sites, is_variant(stored(K), "Ok"), "the response answers a request in the store")
    # refusals
    def refused(key, f, rule): ctx.ob(key, not f.oks(), rule, f.where, f"{len(f.oks())} successful outcomes")
    refused("refuse:no-state", i.response(st, J[:1], [m1], state=NONE), "a response that names no request is refused")
    refused("refuse:no-presentation", i.response(st, [], [m1], vp_token=NONE), "a response without a presentation is refused")
    refused("refuse:empty", i.response(st, [], [m1]), "a response with an empty list of presentations is refused")
    refused("refuse:no-submission", i.response(st, J[:1], [m1], presentation_submission=NONE), "a response without a submission is refused")
    refused("refuse:unmapped", i.response(st, J[:1], [m2]), "a response that maps no credential to a descriptor is refused")
    refused("refuse:no-mapping", i.response(st, J[:1], []), "a response that maps no credential is refused")
    refused("refuse:half-mapped", i.response(i.state([d1, d2]), J[:1], [m1]), "every descriptor needs a credential")
    dst = i.state([i.descriptor("d1", ["ldp_vc"])])
    refused("refuse:format", i.response(dst, J[:1], [m1]), "a credential in a format that was not asked for is refused")
    dst = i.state([i.descriptor("d1", ["ldp_vc", "jwt_vc_json"])])
    ctx.ob("accept:format", bool(i.response(dst, J[:1], [m1]).oks()), "a credential in a format that was asked for is accepted", "response")
    # what is not bound (known findings)
    vp = tok("vpobject"); f = i.response(st, [kobj(vp)], [m1])
    signed = all(any(x.op == "app" and x.a[0] == KEYNAME and mentions(x, vp) and x.a[1] is not None and not mentions(x, tok("path:d1")) for x in known_terms(s)) for _, s in f.oks())
    ctx.ob("unsigned-presentation", not f.oks() or signed, "a presentation that is not signed is refused", f.where, "a presentation given as an object is accepted on the challenge in it, no signature is checked")
    f = i.response(st, J[:1], [m1])
    def related(a, b): return all(any(a(x) and b(x) for x in facts_of(s)) for _, s in f.good("binding"))
    vch = lambda nm: lambda x: any(y.op == "field" and y.a[-1] == nm and any(z.op == "app" and z.a[0] == KEYNAME and z is not dec(j1) for z in subterms(y)) for y in subterms(x))
    ctx.ob("issuer-binding", related(vch("issuer"), vch("header")), "a credential is signed by a key of the issuer it names", f.where, "the key that signed a credential is not compared with the credential's issuer")
    ctx.ob("holder-binding", related(vch("credential_subject"), lambda x: mentions(x, payload(dec(j1)))), "a credential is presented by its subject", f.where, "the signer of a presentation is not compared with the subject of its credentials")
    ctx.floor("guard facts proved", sum(o["holds"] for o in ctx.obs), 40)
def known_terms(s):
    seen = set()
    for t, k in s.units.items(): yield from subterms(t, seen)
    for c in s.clauses:
        for l in c: yield from subterms(l[0], seen)
def facts_of(s):
    for t, k in s.units.items():
        if t.op == "eq" or t.op == "app": yield t
    for c in s.clauses:
        for l in c: yield l[0]
