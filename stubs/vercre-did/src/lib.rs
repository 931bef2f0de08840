//! Analysis stub of vercre-did (signatures only).
use std::future::Future;
use std::fmt;
use serde::{Deserialize, Serialize};
use vercre_infosec::PublicKeyJwk;
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct Document { pub id: String, pub verification_method: Option<Vec<VerificationMethod>> }
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct VerificationMethod { pub id: String, pub controller: String, pub method_type: MethodType }
#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
pub enum MethodType { Multikey { public_key_multibase: String }, JsonWebKey { public_key_jwk: PublicKeyJwk } }
impl Default for MethodType { fn default() -> Self { loop {} } }
impl MethodType { pub fn jwk(&self) -> Result<PublicKeyJwk> { loop {} } pub fn multibase(&self) -> Result<String> { loop {} } }
#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
pub enum Resource { VerificationMethod(VerificationMethod), Document(Document) }
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct Dereferenced { pub content_stream: Option<Resource> }
#[derive(Clone, Debug, Default)]
pub struct Options;
#[derive(Debug)]
pub enum Error { MethodNotSupported(String), InvalidDid(String), NotFound(String), Other(anyhow::Error) }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub trait DidResolver: Send + Sync { fn resolve(&self, url: &str) -> impl Future<Output = anyhow::Result<Document>> + Send; }
pub async fn dereference(_url: &str, _opts: Option<Options>, _r: &impl DidResolver) -> Result<Dereferenced> { loop {} }
pub async fn resolve(_did: &str, _opts: Option<Options>, _r: &impl DidResolver) -> Result<Document> { loop {} }
