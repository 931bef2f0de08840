"""Rules about panics (every crate but the macros)."""
from registry import prop
from terms import *
from proto import *

ALL = ("vercre_core", "vercre_openid", "vercre_issuer", "vercre_w3c_vc", "vercre_status", "vercre_iso_mdl", "vercre_dif_exch", "vercre_verifier", "vercre_holder")
ROOTS = ("vercre_openid", "vercre_issuer", "vercre_verifier", "vercre_holder", "vercre_w3c_vc", "vercre_dif_exch", "vercre_iso_mdl")

def roots(p):
    """What code outside the workspace can call: functions in reach of other crates, and the trait
    implementations written by hand (parsers, conversions)."""
    for b in sorted(p.bodies.values(), key=lambda b: b["path"]):
        if b["crate"] not in ROOTS or b["kind"] not in ("Fn", "AssocFn") or b.get("derived") or "::_::" in b["path"] or "{" in b["path"]: continue
        if b.get("eff_pub"): yield b

@prop("C30", how="Every function the crates make reachable from outside (endpoints, parsers, conversions, builders) is analysed for arbitrary arguments, arbitrary stored state and arbitrary metadata; on no path may a bounds check, arithmetic check, lookup of a missing key, unwrap of a missing value or explicit panic be reachable. Calls into other libraries are taken not to panic.")
def panics(ctx):
    p = ctx.program(*ALL); n = sites = 0
    for b in roots(p):
        f = Flow(ctx, ALL, b["path"], opaque=() if b["path"].endswith("::verify_claims") else ("CredentialConfiguration::verify_claims$",)); n += 1; sites += len(f.e.inlined); seen = set()
        for x in f.e.panics:
            if x.what == "intrinsics::unreachable" and x.body.endswith("PartialEq>::eq"): continue
            k = (x.kind, x.body)
            if k in seen: continue
            seen.add(k)
            ctx.fail(f"panic:{b['path']}:{x.body}:{x.kind}", "no argument makes a function panic", f"{x.site[0]}:{x.site[1]} in {x.body}", f"reached from {b['path']}: {x.kind} {x.what[:200]}")
        if not seen: ctx.ob(f"free:{b['path']}", True, "no argument makes a function panic", b["path"])
    ctx.floor("entry functions", n, 60)
    ctx.stats["functions inlined"] += sites
