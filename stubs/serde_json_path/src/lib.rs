//! Analysis stub: signatures of serde_json_path 0.6.
use serde_json::Value;
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct JsonPath;
#[derive(Debug, Clone)]
pub struct ParseError;
impl ParseError { pub fn message(&self) -> &str { loop {} } pub fn position(&self) -> usize { loop {} } }
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("p") } }
impl std::error::Error for ParseError {}
impl std::fmt::Display for JsonPath { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("p") } }
impl std::str::FromStr for JsonPath { type Err = ParseError; fn from_str(_s: &str) -> Result<Self, ParseError> { loop {} } }
impl JsonPath {
    pub fn parse(_p: &str) -> Result<Self, ParseError> { loop {} }
    pub fn query<'b>(&self, _v: &'b Value) -> NodeList<'b> { loop {} }
    pub fn query_located<'b>(&self, _v: &'b Value) -> LocatedNodeList<'b> { loop {} }
}
#[derive(Debug, Default, Clone, Eq, PartialEq)]
pub struct NodeList<'a>(Vec<&'a Value>);
#[derive(Debug, Default, Clone, Eq, PartialEq)]
pub struct LocatedNodeList<'a>(Vec<&'a Value>);
#[derive(Debug)]
pub enum ExactlyOneError { Empty, MoreThanOne(usize) }
#[derive(Debug)]
pub struct AtMostOneError(pub usize);
impl std::fmt::Display for ExactlyOneError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("p") } }
impl std::error::Error for ExactlyOneError {}
impl std::fmt::Display for AtMostOneError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("p") } }
impl std::error::Error for AtMostOneError {}
impl<'a> NodeList<'a> {
    pub fn at_most_one(&self) -> Result<Option<&'a Value>, AtMostOneError> { loop {} }
    pub fn exactly_one(&self) -> Result<&'a Value, ExactlyOneError> { loop {} }
    pub fn all(self) -> Vec<&'a Value> { loop {} }
    pub fn len(&self) -> usize { loop {} }
    pub fn is_empty(&self) -> bool { loop {} }
    pub fn iter(&self) -> std::slice::Iter<'_, &'a Value> { loop {} }
    pub fn first(&self) -> Option<&'a Value> { loop {} }
    pub fn last(&self) -> Option<&'a Value> { loop {} }
    pub fn get(&self, _i: usize) -> Option<&'a Value> { loop {} }
}
impl<'a> IntoIterator for NodeList<'a> { type Item = &'a Value; type IntoIter = std::vec::IntoIter<&'a Value>; fn into_iter(self) -> Self::IntoIter { loop {} } }
impl<'a> From<Vec<&'a Value>> for NodeList<'a> { fn from(v: Vec<&'a Value>) -> Self { Self(v) } }
pub trait JsonPathExt { fn json_path(&self, path: &JsonPath) -> NodeList<'_>; }
impl JsonPathExt for Value { fn json_path(&self, path: &JsonPath) -> NodeList<'_> { path.query(self) } }
