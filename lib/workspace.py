"""Generates the analysis workspace: manifests that point at /repo's sources,
with the dependencies that cannot be fetched here replaced by signature stubs."""
import os, pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
STUBS = VERIF / "stubs"

# crate -> (path in repo, edition, is proc macro, deps)
EXT = {
    "anyhow": '"1"', "base64ct": '{ version = "1.6", features = ["std"] }',
    "bitvec": '"1"', "chrono": '{ version = "0.4", features = ["serde"] }',
    "ciborium": '"0.2.2"', "fastrand": '"2"', "flate2": '"1"',
    "percent-encoding": '"2.3"', "proc-macro2": '{ version = "1", features = ["proc-macro"] }',
    "quote": '"1"', "rand": '{ version = "0.8", features = ["getrandom"] }', "regex": '"1"',
    "serde": '{ version = "1", features = ["derive"] }', "serde_json": '{ version = "1", features = ["alloc"] }',
    "sha2": '"0.10"', "syn": '{ version = "2", features = ["full"] }', "thiserror": '"1"',
    "urlencoding": '"2.1"', "uuid": '{ version = "1", features = ["v4"] }',
}
STUBBED = ["coset", "derive_builder", "image", "qrcode", "serde_json_path", "tracing",
           "vercre-did", "vercre-infosec"]
CRATES = {
    "vercre-core": ("crates/core", "2021", False,
        ["base64ct", "fastrand", "percent-encoding", "serde", "serde_json", "sha2"]),
    "vercre-dif-exch": ("crates/dif-exch", "2021", False,
        ["anyhow", "chrono", "regex", "serde", "serde_json", "serde_json_path"]),
    "vercre-macros": ("crates/macros", "2024", True, ["proc-macro2", "quote", "syn"]),
    "vercre-iso-mdl": ("crates/iso-mdl", "2021", False,
        ["anyhow", "base64ct", "chrono", "ciborium", "coset", "rand", "serde", "serde_json", "sha2", "vercre-infosec"]),
    "vercre-w3c-vc": ("crates/w3c-vc", "2021", False,
        ["anyhow", "base64ct", "chrono", "serde", "serde_json", "tracing", "uuid", "vercre-core",
         "vercre-did", "vercre-dif-exch", "vercre-infosec"]),
    "vercre-status": ("crates/status", "2021", False,
        ["anyhow", "base64ct", "bitvec", "chrono", "flate2", "serde", "serde_json", "thiserror",
         "vercre-core", "vercre-infosec", "vercre-w3c-vc"]),
    "vercre-openid": ("crates/openid", "2021", False,
        ["anyhow", "base64ct", "chrono", "image", "qrcode", "serde", "serde_json", "thiserror",
         "vercre-core", "vercre-did", "vercre-dif-exch", "vercre-infosec", "vercre-status", "vercre-w3c-vc"]),
    "vercre-issuer": ("vercre-issuer", "2021", False,
        ["base64ct", "chrono", "serde", "serde_json", "sha2", "tracing", "vercre-core", "vercre-did",
         "vercre-infosec", "vercre-iso-mdl", "vercre-openid", "vercre-status", "vercre-w3c-vc"]),
    "vercre-verifier": ("vercre-verifier", "2021", False,
        ["chrono", "derive_builder", "serde", "serde_json", "serde_json_path", "tracing", "uuid",
         "vercre-core", "vercre-did", "vercre-dif-exch", "vercre-infosec", "vercre-openid", "vercre-w3c-vc"]),
    "vercre-holder": ("vercre-holder", "2021", False,
        ["anyhow", "chrono", "serde", "serde_json", "tracing", "urlencoding", "uuid", "vercre-core",
         "vercre-did", "vercre-dif-exch", "vercre-infosec", "vercre-issuer", "vercre-macros",
         "vercre-openid", "vercre-w3c-vc"]),
}

def write(p, s):
    p.parent.mkdir(parents=True, exist_ok=True)
    if not (p.exists() and p.read_text() == s):
        p.write_text(s)

def generate(ws: pathlib.Path, repo: pathlib.Path, editions=None, overrides=None):
    """overrides: crate -> alternative source dir (used by the let-chains fallback)."""
    editions = editions or {}
    overrides = overrides or {}
    members = []
    for name, (rel, ed, pm, deps) in CRATES.items():
        src = overrides.get(name, repo / rel / "src")
        if not (src / "lib.rs").exists():
            continue
        members.append(name)
        m = f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "{editions.get(name, ed)}"\npublish = false\n'
        m += f'[lib]\npath = "{src}/lib.rs"\n' + ('proc-macro = true\n' if pm else '') + 'doctest = false\n'
        m += '[dependencies]\n'
        for d in deps:
            if d in EXT: m += f'{d} = {EXT[d]}\n'
            elif d in STUBBED: m += f'{d} = {{ path = "{STUBS}/{d}" }}\n'
            else: m += f'{d} = {{ path = "../{d}" }}\n'
        write(ws / name / "Cargo.toml", m)
    top = '[workspace]\nresolver = "2"\nmembers = [' + ", ".join(f'"{m}"' for m in members) + ']\n'
    top += '[profile.dev]\ndebug = 0\nincremental = false\n'
    write(ws / "Cargo.toml", top)
    return members
