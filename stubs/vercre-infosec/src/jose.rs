pub mod jwa {
    use serde::{Deserialize, Serialize};
    use std::fmt::{self, Display};
    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub enum Algorithm { ES256K, #[default] EdDSA }
    impl Display for Algorithm { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("") } }
}
pub mod jwk {
    use serde::{Deserialize, Serialize};
    use crate::{Curve, KeyType};
    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub struct PublicKeyJwk {
        #[serde(skip_serializing_if = "Option::is_none")] pub kid: Option<String>,
        pub kty: KeyType, pub crv: Curve, pub x: String,
        #[serde(skip_serializing_if = "Option::is_none")] pub y: Option<String>,
        #[serde(skip_serializing_if = "Option::is_none", rename = "use")] pub use_: Option<KeyUse>,
    }
    impl PublicKeyJwk { pub fn from_multibase(_k: &str) -> anyhow::Result<Self> { loop {} } pub fn to_multibase(&self) -> anyhow::Result<String> { loop {} } }
    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub enum KeyUse { #[default] Signature, Encryption }
}
pub mod jws {
    use std::future::Future;
    use serde::{de::DeserializeOwned, Serialize};
    pub use super::jwt::{Header, Jwt, KeyType, Type};
    pub type Protected = Header;
    use super::jwk::PublicKeyJwk;
    use crate::Signer;
    pub async fn encode<T>(_typ: Type, _claims: &T, _signer: impl Signer) -> anyhow::Result<String> where T: Serialize + Send + Sync { loop {} }
    pub async fn decode<F, Fut, T>(_token: &str, _pubkey_cb: F) -> anyhow::Result<Jwt<T>>
    where T: DeserializeOwned + Send, F: Fn(String) -> Fut + Send + Sync, Fut: Future<Output = anyhow::Result<PublicKeyJwk>> + Send { loop {} }
}
pub mod jwt {
    use serde::{Deserialize, Serialize};
    use super::jwa::Algorithm;
    use super::jwk::PublicKeyJwk;
    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub struct Jwt<T> { pub header: Header, pub claims: T }
    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub struct Header {
        pub alg: Algorithm, pub typ: Type,
        #[serde(flatten)] pub key: KeyType,
        #[serde(skip_serializing_if = "Option::is_none")] pub trust_chain: Option<String>,
    }
    #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
    pub enum KeyType { #[serde(rename = "kid")] KeyId(String), #[serde(rename = "jwk")] Jwk(PublicKeyJwk), #[serde(rename = "x5c")] X5c(Vec<String>) }
    impl Default for KeyType { fn default() -> Self { Self::KeyId(String::new()) } }
    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub enum Type { #[default] Credential, Presentation, Request, Proof }
    impl std::fmt::Display for Type { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("") } }
}
pub mod jwe {}
