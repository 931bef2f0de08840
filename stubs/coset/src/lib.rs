use ciborium::value::Value;
pub mod iana {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[allow(non_camel_case_types)]
    pub enum Algorithm { EdDSA, ES256, ES256K, ES384, ES512 }
}
#[derive(Debug)]
pub enum CoseError { Bad }
impl std::fmt::Display for CoseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("c") } }
impl std::error::Error for CoseError {}
pub type Result<T, E = CoseError> = std::result::Result<T, E>;
pub trait AsCborValue: Sized { fn from_cbor_value(value: Value) -> Result<Self>; fn to_cbor_value(self) -> Result<Value>; }
pub trait CborSerializable: AsCborValue { fn from_slice(_s: &[u8]) -> Result<Self> { loop {} } fn to_vec(self) -> Result<Vec<u8>> { loop {} } }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Header { pub key_id: Vec<u8>, pub iv: Vec<u8> }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct ProtectedHeader { pub original_data: Option<Vec<u8>>, pub header: Header }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct CoseSign1 { pub protected: ProtectedHeader, pub unprotected: Header, pub payload: Option<Vec<u8>>, pub signature: Vec<u8> }
impl AsCborValue for CoseSign1 { fn from_cbor_value(_v: Value) -> Result<Self> { loop {} } fn to_cbor_value(self) -> Result<Value> { loop {} } }
impl CborSerializable for CoseSign1 {}
impl CoseSign1 {
    pub fn verify_signature<F, E>(&self, _aad: &[u8], _verify: F) -> std::result::Result<(), E> where F: FnOnce(&[u8], &[u8]) -> std::result::Result<(), E> { loop {} }
    pub fn tbs_data(&self, _aad: &[u8]) -> Vec<u8> { loop {} }
}
pub struct HeaderBuilder(Header);
impl HeaderBuilder {
    pub fn new() -> Self { loop {} }
    pub fn algorithm(self, _a: iana::Algorithm) -> Self { loop {} }
    pub fn key_id(self, _k: Vec<u8>) -> Self { loop {} }
    pub fn iv(self, _k: Vec<u8>) -> Self { loop {} }
    pub fn value(self, _l: i64, _v: Value) -> Self { loop {} }
    pub fn build(self) -> Header { loop {} }
}
pub struct CoseSign1Builder(CoseSign1);
impl CoseSign1Builder {
    pub fn new() -> Self { loop {} }
    pub fn protected(self, _h: Header) -> Self { loop {} }
    pub fn unprotected(self, _h: Header) -> Self { loop {} }
    pub fn payload(self, _p: Vec<u8>) -> Self { loop {} }
    pub fn signature(self, _s: Vec<u8>) -> Self { loop {} }
    pub fn create_signature<F>(self, _aad: &[u8], _f: F) -> Self where F: FnOnce(&[u8]) -> Vec<u8> { loop {} }
    pub fn build(self) -> CoseSign1 { loop {} }
}
