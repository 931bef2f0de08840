"""Rules for the claims a wallet asks for (crates/openid)."""
import itertools
from registry import prop
from terms import *
from proto import *
from models import mapof

CO = ("vercre_core", "vercre_openid")
OI = "vercre_openid::issuer::"
def entry(p, mandatory=None):
    m = NONE if mandatory is None else some(boolean(mandatory))
    d = struct(p, OI + "ClaimDefinition", None, mandatory=m)
    return adt(OI + "Claim", "Entry", True, (("0", d),))
def cset(p, kids): return adt(OI + "Claim", "Set", True, (("0", mapof([(string(k), claim(p, v)) for k, v in kids.items()])),))
def claim(p, v): return cset(p, v) if isinstance(v, dict) else entry(p, {"opt": None, "no": False, "must": True}[v])
def cmap(p, d): return mapof([(string(k), claim(p, v)) for k, v in d.items()])

def supported(req, sup):
    return all(k in sup and (not isinstance(v, dict) or isinstance(sup[k], dict) and supported(v, sup[k])) for k, v in req.items())
def complete(req, sup):
    for k, v in sup.items():
        if isinstance(v, dict):
            r = req.get(k, {})
            if not isinstance(r, dict) or not complete(r, v): return False
        elif v == "must" and k not in req: return False
    return True
def combos(opts, keys):
    for vs in itertools.product(opts, repeat=len(keys)): yield {k: v for k, v in zip(keys, vs) if v is not None}

def config(p, fmt, claims):
    c = mk("tok", "config")
    for n, fs, *_ in p.adts[OI + "Format"]["variants"]:
        if n != fmt: continue
        ty = fs[0][1]; base = mk("tok", "profile")
        cd = [(x, t) for x, t, _ in p.adts[ty]["variants"][0][1] if t.endswith("CredentialDefinition")]
        if cd: prof = struct(p, ty, base, **{cd[0][0]: struct(p, OI + "CredentialDefinition", mk("tok", "definition"), credential_subject=claims)})
        else: prof = struct(p, ty, base, claims=claims)
        return struct(p, OI + "CredentialConfiguration", c, format=adt(OI + "Format", n, True, ((fs[0][0], prof),)))

SUP = [None, "opt", "no", "must", {}, {"c": "opt"}, {"c": "must"}, {"c": {"d": "must"}}]
REQ = [None, "opt", "must", {}, {"c": "opt"}, {"z": "opt"}, {"c": {"d": "no"}}, {"c": {"y": "opt"}}]
@prop("C31", how="The check of requested claims is analysed on every pairing of a described and a requested claim tree over two names and three levels, for each credential format, and its verdict is compared with the specified one: every requested claim described at its own place and level, every mandatory claim requested.")
def claims(ctx):
    p = ctx.program(*CO); n = 0
    path = OI + "CredentialConfiguration::verify_claims"
    fmts = [v[0] for v in p.adts[OI + "Format"]["variants"]]
    ctx.floor("credential formats", len(fmts), 5)
    def run(fmt, sup, req):
        nonlocal n; n += 1
        e = ctx.engine(p); e.unroll = 8; e.maxrec = 6; e.split = 64
        c = config(p, fmt, NONE if sup is None else some(cmap(p, sup)))
        outs = ctx.analyse(e, path, params={0: c, 1: cmap(p, req)})
        if outs is None: return None
        r = {v.a[1] if v.op == "adt" and v.a[0] == RES else "?" for v, _ in outs}
        return r
    def verdict(key, fmt, sup, req, good):
        r = run(fmt, sup, req)
        if r is None: return False
        ok = r == ({"Ok"} if good else {"Err"})
        rule = "a requested claim set is accepted exactly when each claim is described and each mandatory one is asked for"
        return ctx.ob(key, ok, rule, path, "" if ok else f"format {fmt}, described {sup}, requested {req}: specified {'accepted' if good else 'refused'}, found {sorted(r)}")
    for sup in combos(SUP, "ab"):
        for req in combos(REQ, "ab"):
            if not verdict("pairs", fmts[0], sup, req, supported(req, sup) and complete(req, sup)): return
    for fmt in fmts:
        for sup, req in (({"a": "must"}, {"a": "opt"}), ({"a": "must", "b": "opt"}, {"b": "opt"}), ({"a": "opt"}, {"b": "opt"}), ({"a": "opt"}, {}), ({"a": {"b": "must"}}, {"a": {}}), ({"a": {"b": "must"}}, {"a": {"b": "opt"}})):
            if not verdict(f"format:{fmt}", fmt, sup, req, supported(req, sup) and complete(req, sup)): break
    ctx.floor("claim tree pairings", n, 4000)
