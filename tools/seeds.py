"""Planted bugs: edits to /repo and the program that shows each one.  Read by tools/seedbugs.py only."""
LIB_TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
vercre-core = { path = "@REPO@/crates/core" }
vercre-dif-exch = { path = "@REPO@/crates/dif-exch" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
anyhow = "1"
base64ct = { version = "1.6", features = ["std"] }
'''
HEAD = '''#!/bin/bash
# Run with the repository as working directory: exits 0 if the behaviour shown is right.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2024-10-18 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export CARGO_TARGET_DIR=$work/target
mkdir -p "$work/src"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
'''
DEMO = HEAD + '''sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cp "$here/main.rs" "$work/src/main.rs"
cd "$work" && cargo run --offline -q
'''
DEMO_MACRO = HEAD + '''cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
vercre-macros = { path = "$repo/crates/macros" }
T
mkdir -p "$work/src/bin"
cp "$here/stub.rs" "$work/src/stub.rs"
cp "$here/good.rs" "$work/src/bin/good.rs"
cd "$work" && cargo run --offline -q --bin good || exit 1
# each of these must fail to compile
for f in "$here"/bad*.rs; do
  [ -e "$f" ] || continue
  cp "$f" "$work/src/bin/bad.rs"
  if cargo build --offline -q --bin bad 2>"$work/err"; then echo "compiled: $(basename "$f")"; exit 1; fi
  grep -q "^error" "$work/err" || exit 2
done
exit 0
'''
STUB = '''#![allow(dead_code)]
use std::collections::HashMap;
#[derive(Debug, PartialEq)]
pub enum SendType { ByVal, ByRef }
#[derive(Debug, PartialEq)]
pub enum GrantType { PreAuthorizedCode, AuthorizationCode }
#[derive(Debug, PartialEq)]
pub struct CreateOfferRequest {
    pub credential_issuer: String, pub subject_id: Option<String>, pub credential_configuration_ids: Vec<String>,
    pub grant_types: Option<Vec<GrantType>>, pub tx_code_required: bool, pub send_type: SendType,
}
#[derive(Debug, PartialEq, Default)]
pub struct RequestObject {
    pub credential_issuer: String, pub response_type: String, pub client_id: String, pub redirect_uri: Option<String>,
    pub state: Option<String>, pub code_challenge: String, pub code_challenge_method: String,
    pub authorization_details: Option<Vec<AuthorizationDetail>>, pub scope: Option<String>, pub resource: Option<String>,
    pub subject_id: String, pub wallet_issuer: Option<String>, pub user_hint: Option<String>, pub issuer_state: Option<String>,
}
#[derive(Debug, PartialEq)]
pub enum AuthorizationRequest { Object(RequestObject) }
#[derive(Debug, PartialEq)]
pub struct AuthorizationDetail {
    pub type_: AuthorizationDetailType, pub credential: CredentialAuthorization, pub locations: Option<Vec<String>>,
}
#[derive(Debug, PartialEq)]
pub enum AuthorizationDetailType { OpenIdCredential }
#[derive(Debug, PartialEq)]
pub enum CredentialAuthorization {
    ConfigurationId { credential_configuration_id: String, claims: Option<ProfileClaims> },
    Format(Format),
}
#[derive(Debug, PartialEq)]
pub enum ProfileClaims { W3c(CredentialDefinition) }
#[derive(Debug, PartialEq)]
pub enum Format { JwtVcJson(ProfileW3c) }
#[derive(Debug, PartialEq)]
pub struct ProfileW3c { pub credential_definition: CredentialDefinition }
#[derive(Debug, PartialEq)]
pub struct CredentialDefinition {
    pub context: Option<Vec<String>>, pub type_: Option<Vec<String>>, pub credential_subject: Option<HashMap<String, Claim>>,
}
#[derive(Debug, PartialEq)]
pub enum Claim { Entry(ClaimDefinition), Set(HashMap<String, Claim>) }
#[derive(Debug, PartialEq, Default)]
pub struct ClaimDefinition;
#[derive(Debug, PartialEq)]
pub struct TokenRequest {
    pub credential_issuer: String, pub client_id: Option<String>, pub grant_type: TokenGrantType,
    pub authorization_details: Option<Vec<AuthorizationDetail>>, pub client_assertion: Option<String>,
}
#[derive(Debug, PartialEq)]
pub enum TokenGrantType {
    PreAuthorizedCode { pre_authorized_code: String, tx_code: Option<String> },
    AuthorizationCode { code: String, redirect_uri: Option<String>, code_verifier: Option<String> },
}
#[derive(Debug, PartialEq)]
pub struct CredentialRequest {
    pub credential_issuer: String, pub access_token: String, pub credential: CredentialIssuance,
    pub proof: Option<Proof>, pub credential_response_encryption: Option<String>,
}
#[derive(Debug, PartialEq)]
pub enum CredentialIssuance { Identifier { credential_identifier: String }, Format(Format) }
#[derive(Debug, PartialEq)]
pub enum Proof { Single { proof_type: SingleProof } }
#[derive(Debug, PartialEq)]
pub enum SingleProof { Jwt { jwt: String } }
'''
M = '#![allow(unused)]\n#[path = "../stub.rs"]\nmod vercre_issuer;\nuse vercre_issuer::*;\n'
GEN, SER, CORE = "crates/core/src/gen.rs", "crates/core/src/urlencode/ser.rs", "crates/core/src/lib.rs"
MAT, DIF = "crates/dif-exch/src/matcher.rs", "crates/dif-exch/src/lib.rs"
MP, MA, MT, MC, MO = ("crates/macros/src/" + x + ".rs" for x in ("parse", "authorization", "token", "credential", "create_offer"))
CRED = '''
struct C(serde_json::Value);
impl vercre_dif_exch::Claims for C { fn to_json(&self) -> anyhow::Result<serde_json::Value> { Ok(self.0.clone()) } }
fn sat(constraints: serde_json::Value, vc: serde_json::Value) -> anyhow::Result<bool> {
    let c: vercre_dif_exch::Constraints = serde_json::from_value(constraints).unwrap();
    c.satisfied(&C(vc))
}
'''
SEEDS = []
def S(id, property, needs, breaks, edits, **kw): SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **kw))

S("pin-range", "C02", "many generated PINs looked at together", "the last character of an alphabet is never drawn: no PIN contains a 9",
  [(GEN, "chars[fastrand::usize(..chars.len())]", "chars[fastrand::usize(..chars.len() - 1)]")],
  main='fn main() { let n = (0..20000).filter(|_| vercre_core::gen::tx_code().contains(\'9\')).count(); assert!(n > 1000, "{n}"); }\n')
S("token-prefix", "C01", "two tokens generated by one process", "half of every access token is fixed for the life of the process",
  [(GEN, '''pub fn token() -> String {
    let rnd = random_string(STATE_LEN, SAFE_CHARS);
''', '''pub fn token() -> String {
    static NODE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let node = NODE.get_or_init(|| random_string(STATE_LEN / 2, SAFE_CHARS));
    let rnd = format!("{node}{}", random_string(STATE_LEN / 2, SAFE_CHARS));
''')],
  main='fn main() { let a = vercre_core::gen::token(); let b = vercre_core::gen::token(); assert!(a[..8] != b[..8], "{a} {b}"); }\n')
S("char-raw", "C03", "a char-typed field holding a separator", "a single character is written without escaping, so '&' starts a new parameter",
  [(SER, "self.serialize_str(&v.to_string())", '''if self.level > TOP_LEVEL {
            return self.serialize_str(&v.to_string());
        }
        self.output.push(v);
        Ok(())''')],
  main='''#[derive(serde::Serialize)] struct S { a: char, b: String }
fn main() {
    let s = vercre_core::urlencode::to_string(&S { a: '&', b: "x".into() }).unwrap();
    assert_eq!(s, "a=%26&b=x");
}
''')
S("variant-level", "C04", "a struct with a field after a nested struct variant", "the nesting level is not restored after a nested struct variant, so following members are written as JSON members",
  [(SER, '''            self.output += "}}";
        } else {
            self.output += "}";
        }
        self.level -= 1;
        Ok(())''', '''            self.output += "}}";
        } else {
            self.output += "}";
            self.level -= 1;
        }
        Ok(())''')],
  main='''#[derive(serde::Serialize)] enum E { V { x: u8 } }
#[derive(serde::Serialize)] struct S { e: E, z: u8 }
fn main() {
    let s = vercre_core::urlencode::to_string(&S { e: E::V { x: 1 }, z: 2 }).unwrap();
    assert!(s.ends_with("&z=2"), "{s}");
}
''')
S("seq-empty-element", "C04", "a tuple struct whose first element is an empty list", "an element after one that ends in ']' is not separated",
  [(SER, '''impl ser::SerializeTupleStruct for &mut Serializer {
    type Error = Error;
    type Ok = ();

    fn serialize_field<T>(&mut self, value: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        if !self.output.ends_with('[') {''', '''impl ser::SerializeTupleStruct for &mut Serializer {
    type Error = Error;
    type Ok = ();

    fn serialize_field<T>(&mut self, value: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        if !self.output.trim_end_matches(']').ends_with('[') {''')],
  main='''#[derive(serde::Serialize)] struct P(Vec<u8>, u8);
#[derive(serde::Serialize)] struct S { p: P }
fn main() {
    let s = vercre_core::urlencode::to_string(&S { p: P(vec![], 2) }).unwrap();
    assert_eq!(s, "p=%5B%5B%5D%2C2%5D");
}
''')
S("quota-dedupe", "C06", "adding a value equal to one already present", "an element equal to an earlier one is dropped",
  [(CORE, '''            Self::Many(many) => {
                many.push(item);
            }''', '''            Self::Many(many) => {
                if !many.contains(&item) {
                    many.push(item);
                }
            }''')],
  main='''use vercre_core::Quota;
fn main() { let mut q = Quota::Many(vec![1, 2]); q.add(1); assert_eq!(q.len(), 3); }
''')
S("quota-default-empty", "C06", "a single value equal to its type's default", "a single default-valued element counts as empty",
  [(CORE, '''    pub fn is_empty(&self) -> bool {
        match self {
            Self::One(_) => false,''', '''    pub fn is_empty(&self) -> bool {
        match self {
            Self::One(one) => *one == T::default(),''')],
  main='''use vercre_core::Quota;
fn main() { let q = Quota::One(0u8); assert!(!q.is_empty() && q.len() == 1); }
''')
S("constraints-no-filter", "C07", "a required field without filter that the credential lacks, together with a matching one", "required fields without a filter are not looked at",
  [(MAT, "        for field in fields {\n", "        for field in fields.iter().filter(|f| f.filter.is_some() || fields.len() == 1) {\n")],
  main='use serde_json::json;\n' + CRED + '''fn main() {
    let c = json!({"fields": [{"path": ["$.a"], "filter": {"type": "string", "const": "x"}}, {"path": ["$.b"]}]});
    assert!(!sat(c, json!({"a": "x"})).unwrap());
}
''')
S("unreadable-empty", "C07", "a credential that cannot be turned into claims and only optional fields", "an unreadable credential is matched as if it were empty",
  [(MAT, '''        let Ok(vc_val) = claims.to_json() else {
            return Err(anyhow!("error serializing credential"));
        };''', '''        let vc_val = claims.to_json().unwrap_or_default();''')],
  main='''use serde_json::json;
struct B; impl vercre_dif_exch::Claims for B { fn to_json(&self) -> anyhow::Result<serde_json::Value> { anyhow::bail!("no") } }
fn main() {
    let c: vercre_dif_exch::Constraints = serde_json::from_value(json!({"fields": [{"path": ["$.a"], "optional": true}]})).unwrap();
    assert!(c.satisfied(&B).is_err());
}
''')
S("last-node", "C08", "a path that selects several values, only the last matching", "the last value a path selects decides, not the first",
  [(MAT, "nodes.into_iter().next()", "nodes.into_iter().next_back()"),],
  main='use serde_json::json;\n' + CRED + '''fn main() {
    let c = json!({"fields": [{"path": ["$.a[*]"], "filter": {"type": "string", "const": "x"}}]});
    assert!(!sat(c, json!({"a": ["y", "x"]})).unwrap());
}
''')
S("skip-bad-path", "C08", "a malformed path before a matching one", "malformed paths are skipped",
  [(MAT, '''                return Err(anyhow!("Invalid JSONPath: {path}"));''', '''                if self.path.len() > 1 {
                    continue;
                }
                return Err(anyhow!("Invalid JSONPath: {path}"));''')],
  main='use serde_json::json;\n' + CRED + '''fn main() {
    let c = json!({"fields": [{"path": ["$.[", "$.a"]}]});
    assert!(!sat(c, json!({"a": "x"})).unwrap_or(false));
}
''')
S("date-prefix", "C09", "a text that only begins with a date", "a text that begins with a date passes the date filter",
  [(MAT, 'Ok(NaiveDate::parse_from_str(str_node, "%Y-%m-%d").is_ok())', 'Ok(NaiveDate::parse_and_remainder(str_node, "%Y-%m-%d").is_ok())')],
  main='use serde_json::json;\n' + CRED + '''fn main() {
    let c = json!({"fields": [{"path": ["$.a"], "filter": {"type": "string", "format": "date"}}]});
    assert!(!sat(c, json!({"a": "2024-01-02 or so"})).unwrap());
}
''')
S("const-list-prefix", "C09", "a list element that begins with the constant", "a list element that merely begins with the constant matches",
  [(MAT, "Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),", '''Value::Array(arr_node) => {
            Ok(arr_node.iter().any(|v| v == &const_val || v.as_str().is_some_and(|s| s.starts_with(const_str.as_str()))))
        }''')],
  main='use serde_json::json;\n' + CRED + '''fn main() {
    let c = json!({"fields": [{"path": ["$.type"], "filter": {"type": "string", "const": "Employee"}}]});
    assert!(!sat(c, json!({"type": ["VerifiableCredential", "EmployeeID"]})).unwrap());
}
''')
S("date-slice", "C10", "a text shorter than a date, checked against the date format", "a short or non-ASCII text makes the date check panic",
  [(MAT, 'Ok(NaiveDate::parse_from_str(str_node, "%Y-%m-%d").is_ok())', 'Ok(str_node.len() == 10 && str_node[..4].parse::<u16>().is_ok() && NaiveDate::parse_from_str(str_node, "%Y-%m-%d").is_ok())')],
  main='use serde_json::json;\n' + CRED + '''fn main() {
    let c = json!({"fields": [{"path": ["$.a"], "filter": {"type": "string", "format": "date"}}]});
    let _ = sat(c, json!({"a": "€€€1"}));
}
''')
S("filter-second-keyword", "C11", "a filter with two keywords", "a filter with a second keyword is read and the second keyword never checked",
  [(DIF, "#[serde(deny_unknown_fields)]\npub struct Filter", "pub struct Filter")],
  main='''fn main() {
    let r = serde_json::from_str::<vercre_dif_exch::Filter>(r#"{"type":"string","const":"a","pattern":"b"}"#);
    assert!(r.is_err(), "{r:?}");
}
''')
S("optional-default", "C11", "a descriptor without constraints", "an input descriptor without constraints is read as one with none",
  [(DIF, "    pub constraints: Constraints,\n", "    #[serde(default)]\n    pub constraints: Constraints,\n")],
  main='''fn main() {
    let r = serde_json::from_str::<vercre_dif_exch::InputDescriptor>(r#"{"id":"a"}"#);
    assert!(r.is_err(), "{r:?}");
}
''')
S("token-swallow", "C12", "a pre-authorized token request with a redirect_uri", "a key of the other grant type is silently ignored",
  [(MT, '''    let tx_code = input.option("tx_code");
''', '''    let tx_code = input.option("tx_code");
    input.option("redirect_uri");
''')],
  good=M + 'fn main() { let _ = vercre_macros::token_request!({"credential_issuer": "i", "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": "c"}); }\n',
  bad=[M + 'fn main() { let _ = vercre_macros::token_request!({"credential_issuer": "i", "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": "c", "redirect_uri": "r"}); }\n'])
S("verifier-optional", "C13", "a token request without code_verifier", "an authorization-code token request without a code verifier compiles",
  [(MT, 'let code_verifier = input.expect("code_verifier")?;', 'let code_verifier = input.option("code_verifier");'),
   (MT, "code_verifier: Some(#code_verifier),", "code_verifier: #code_verifier,")],
  good=M + 'fn main() { let _ = vercre_macros::token_request!({"credential_issuer": "i", "grant_type": "authorization_code", "code": "c", "code_verifier": "v"}); }\n',
  bad=[M + 'fn main() { let _ = vercre_macros::token_request!({"credential_issuer": "i", "grant_type": "authorization_code", "code": "c"}); }\n'])
S("ids-empty-nested", "C13", "an authorization detail by format whose definition has no type", "a format definition without a type is given an empty one",
  [(MA, '''    let Some(type_array) = credential_definition.get("type") else {
        return Err(Error::new(span, "`type` is not set"));
    };''', '''    let type_array = credential_definition.get("type").cloned().unwrap_or(Value::Array(vec![]));''')],
  good=M + 'fn main() { let _ = vercre_macros::authorization_request!({"credential_issuer": "i", "response_type": "code", "client_id": "c", "code_challenge": "x", "code_challenge_method": "S256", "subject_id": "s", "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": ["A"]}}]}); }\n',
  bad=[M + 'fn main() { let _ = vercre_macros::authorization_request!({"credential_issuer": "i", "response_type": "code", "client_id": "c", "code_challenge": "x", "code_challenge_method": "S256", "subject_id": "s", "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {}}]}); }\n'])
S("state-for-issuer-state", "C14", "an authorization request with both state and issuer_state", "without issuer_state, the state is sent as issuer_state",
  [(MA, '''    let issuer_state = input.option("issuer_state");
''', '''    let issuer_state =
        if input.fields.contains_key("issuer_state") { input.option("issuer_state") } else { state.clone() };
''')],
  good=M + '''fn main() {
    let AuthorizationRequest::Object(r) = vercre_macros::authorization_request!({"credential_issuer": "i", "response_type": "code", "client_id": "c", "code_challenge": "x", "code_challenge_method": "S256", "subject_id": "s", "state": "t"});
    assert_eq!(r.state.as_deref(), Some("t"));
    assert_eq!(r.issuer_state, None);
}
''')
S("nested-claim-lost", "C14", "a claim whose nested object is a single member deep", "nested claims of one member are flattened away",
  [(MA, "            && !nested.is_empty()\n", "            && nested.len() > 1\n")],
  good=M + '''fn main() {
    let AuthorizationRequest::Object(r) = vercre_macros::authorization_request!({"credential_issuer": "i", "response_type": "code", "client_id": "c", "code_challenge": "x", "code_challenge_method": "S256", "subject_id": "s",
      "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "e", "credential_definition": {"credentialSubject": {"address": {"street": {}}}}}]});
    let d = r.authorization_details.unwrap();
    let CredentialAuthorization::ConfigurationId { claims: Some(ProfileClaims::W3c(def)), .. } = &d[0].credential else { panic!() };
    assert!(matches!(def.credential_subject.as_ref().unwrap()["address"], Claim::Set(_)));
}
''')
S("proof-type-any", "C15", "a proof whose type is a variable", "a proof type that is not a literal is assumed to be jwt",
  [(MC, '''if proof_type.as_str() != Some("jwt") {''', '''if proof_type.as_str().is_some_and(|t| t != "jwt") {''')],
  good=M + 'fn main() { let _ = vercre_macros::credential_request!({"credential_issuer": "i", "access_token": "t", "credential_identifier": "c", "proof": {"proof_type": "jwt", "jwt": "j"}}); }\n',
  bad=[M + 'fn main() { let pt = "cwt"; let _ = vercre_macros::credential_request!({"credential_issuer": "i", "access_token": "t", "credential_identifier": "c", "proof": {"proof_type": pt, "jwt": "j"}}); }\n'])
S("fields-capped", "C07", "constraints with more than 32 fields", "only the first 32 fields are looked at",
  [(MAT, "        for field in fields {\n", "        for field in fields.iter().take(32) {\n")],
  main='use serde_json::json;\n' + CRED + '''fn main() {
    let mut fs: Vec<_> = (0..32).map(|_| json!({"path": ["$.a"]})).collect();
    fs.push(json!({"path": ["$.b"]}));
    assert!(!sat(json!({"fields": fs}), json!({"a": "x"})).unwrap());
}
''')
S("null-not-selected", "C08", "a field without filter whose value in the credential is null", "a null the path selects is passed over",
  [(MAT, "            if nodes.is_empty() {\n", "            if nodes.first().map_or(true, |n| n.is_null()) {\n")],
  main='use serde_json::json;\n' + CRED + '''fn main() {
    assert!(sat(json!({"fields": [{"path": ["$.a"]}]}), json!({"a": null})).unwrap());
}
''')
S("colon-optional", "C37", "a key and a value with no colon between them", "the colon between key and value may be left out",
  [(MP, "        input.parse::<token::Colon>()?;\n", "        if input.peek(token::Colon) {\n            input.parse::<token::Colon>()?;\n        }\n")],
  good=M + 'fn main() { let _ = vercre_macros::token_request!({"credential_issuer": "i", "grant_type": "authorization_code", "code": "c", "code_verifier": "v"}); }\n',
  bad=[M + 'fn main() { let _ = vercre_macros::token_request!({"credential_issuer": "i", "grant_type": "authorization_code", "code" "c", "code_verifier": "v"}); }\n'])
S("key-trimmed", "C12", "a key written with a blank around its name", "keys are compared without surrounding blanks",
  [(MP, "lhs: lhs.value(),", "lhs: lhs.value().trim().to_string(),")],
  good=M + 'fn main() { let _ = vercre_macros::token_request!({"credential_issuer": "i", "grant_type": "authorization_code", "code": "c", "code_verifier": "v"}); }\n',
  bad=[M + 'fn main() { let _ = vercre_macros::token_request!({"credential_issuer": "i", "grant_type": "authorization_code", "code": "c", "code_verifier": "v", "client_id ": "x"}); }\n'])
S("array-capped", "C14", "a list with more than 16 elements", "elements of a list after the sixteenth are dropped",
  [(MP, "items.into_pairs().map(Pair::into_value).collect();", "items.into_pairs().map(Pair::into_value).take(16).collect();")],
  good=M + '''fn main() {
    let r = vercre_macros::create_offer_request!({"credential_issuer": "i", "credential_configuration_ids": ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17"]});
    assert_eq!(r.credential_configuration_ids.len(), 18);
}
''')
S("claim-id-dropped", "C14", "a claim named id", "a claim named id is left out of the request",
  [(MA, "    let claims = claimset.iter().map(|(k, v)| {", "    let claims = claimset.iter().filter(|(k, _)| *k != \"id\").map(|(k, v)| {")],
  good=M + '''fn main() {
    let AuthorizationRequest::Object(r) = vercre_macros::authorization_request!({"credential_issuer": "i", "response_type": "code", "client_id": "c", "code_challenge": "x", "code_challenge_method": "S256", "subject_id": "s",
      "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "e", "credential_definition": {"credentialSubject": {"id": {}, "name": {}}}}]});
    let d = r.authorization_details.unwrap();
    let CredentialAuthorization::ConfigurationId { claims: Some(ProfileClaims::W3c(def)), .. } = &d[0].credential else { panic!() };
    assert_eq!(def.credential_subject.as_ref().unwrap().len(), 2);
}
''')
S("number-as-float", "C09", "a number beyond what a float can hold exactly", "a number is compared by the text of its float approximation",
  [(MAT, "Value::Number(num_node) => Ok(num_node.to_string() == const_val),", "Value::Number(num_node) => Ok(num_node.as_f64().is_some_and(|n| n.to_string() == *const_str)),")],
  main='use serde_json::json;\n' + CRED + '''fn main() {
    let c = json!({"fields": [{"path": ["$.a"], "filter": {"type": "number", "const": "9007199254740992"}}]});
    assert!(!sat(c, json!({"a": 9007199254740993_u64})).unwrap());
}
''')
S("submission-empty", "C11", "an empty text given as a submission", "an empty text is read as a submission without its required members",
  [(DIF, "        Ok(serde_json::from_str::<Self>(s)?)\n", "        if s.trim().is_empty() {\n            return Ok(Self::default());\n        }\n        Ok(serde_json::from_str::<Self>(s)?)\n")],
  main='''fn main() { assert!(" ".parse::<vercre_dif_exch::PresentationSubmission>().is_err()); }
''')
S("quota-unwrapped", "C06", "a list of exactly one element", "a list holding one element is written as that element",
  [(CORE, '''    /// Set of objects
    Many(Vec<T>),''', '''    /// Set of objects
    #[serde(serialize_with = "unwrapped")]
    Many(Vec<T>),'''), (CORE, "impl<T: Default> Default for Quota<T> {", '''fn unwrapped<T: Serialize, S: serde::Serializer>(many: &[T], s: S) -> Result<S::Ok, S::Error> {
    match many {
        [one] => one.serialize(s),
        many => many.serialize(s),
    }
}

impl<T: Default> Default for Quota<T> {''')],
  main='''use vercre_core::Quota;
fn main() { assert_eq!(serde_json::to_string(&Quota::Many(vec![1])).unwrap(), "[1]"); }
''')
S("reference-second", "C37", "a reference followed by a second value", "a second text after a referenced value is skipped",
  [(MP, "            input.parse::<token::And>()?;\n            input.parse::<Self>()?\n", "            input.parse::<token::And>()?;\n            let value = input.parse::<Self>()?;\n            if matches!(value, Self::String(_)) && input.peek(syn::LitStr) {\n                input.parse::<syn::LitStr>()?;\n            }\n            value\n")],
  good=M + 'fn main() { let _ = vercre_macros::token_request!({"credential_issuer": &"i", "grant_type": "authorization_code", "code": "c", "code_verifier": "v"}); }\n',
  bad=[M + 'fn main() { let _ = vercre_macros::token_request!({"credential_issuer": &"i" "j", "grant_type": "authorization_code", "code": "c", "code_verifier": "v"}); }\n'])
