use serde::{Deserialize, Serialize};
use crate::{Curve, KeyType};
#[derive(Clone, Debug, Default, Deserialize, Serialize)]
pub struct CoseKey { pub kty: KeyType, pub crv: Curve, pub x: Vec<u8>, #[serde(skip_serializing_if = "Option::is_none")] pub y: Option<Vec<u8>> }
#[derive(Clone, Debug, Default, Deserialize, Serialize)]
pub struct Tag24<T>(pub T);
impl<T> std::ops::Deref for Tag24<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
impl<T: Serialize> Tag24<T> { pub fn to_vec(&self) -> anyhow::Result<Vec<u8>> { loop {} } }
pub mod cbor {
    use serde::{de::DeserializeOwned, Serialize};
    pub fn to_vec<T: Serialize>(_t: &T) -> anyhow::Result<Vec<u8>> { loop {} }
    pub fn from_slice<T: DeserializeOwned>(_s: &[u8]) -> anyhow::Result<T> { loop {} }
}
