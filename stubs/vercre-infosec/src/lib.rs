//! Analysis stub: the signatures of vercre-infosec the workspace is written
//! against (the git dependency is not available offline). Never executed.
pub mod cose;
pub mod jose;
use std::future::{ready, Future};
pub use crate::jose::jwa::Algorithm;
pub use crate::jose::jwk::PublicKeyJwk;
use serde::{Deserialize, Serialize};
pub use anyhow::Result;

pub trait SecOps: Send + Sync {
    fn signer(&self, identifier: &str) -> Result<impl Signer>;
    fn encryptor(&self, identifier: &str) -> Result<impl Encryptor>;
    fn decryptor(&self, identifier: &str) -> Result<impl Decryptor>;
}
pub trait Signer: Send + Sync {
    fn sign(&self, msg: &[u8]) -> impl Future<Output = Vec<u8>> + Send { let _ = msg; ready(Vec::new()) }
    fn try_sign(&self, msg: &[u8]) -> impl Future<Output = Result<Vec<u8>>> + Send;
    fn public_key(&self) -> impl Future<Output = Result<Vec<u8>>> + Send;
    fn algorithm(&self) -> Algorithm;
    fn verification_method(&self) -> String;
}
pub trait Encryptor: Send + Sync {
    fn encrypt(&self, plaintext: &[u8], recipient_public_key: &[u8]) -> impl Future<Output = Result<Vec<u8>>> + Send;
    fn public_key(&self) -> Vec<u8>;
}
pub trait Decryptor: Send + Sync {
    fn decrypt(&self, ciphertext: &[u8], sender_public_key: &[u8]) -> impl Future<Output = Result<Vec<u8>>> + Send;
}
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub enum KeyType { #[default] #[serde(rename = "OKP")] Okp, #[serde(rename = "EC")] Ec, #[serde(rename = "oct")] Oct }
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub enum Curve { #[default] Ed25519, X25519, #[serde(rename = "secp256k1")] Es256K, #[serde(rename = "P-256")] P256 }
