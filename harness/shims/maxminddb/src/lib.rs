//! Stand-in for maxminddb: a database is a JSON object from addresses to records.
use std::{collections::BTreeMap, fmt, net::IpAddr};
#[derive(Debug, PartialEq, Eq)]
pub enum MaxMindDBError { AddressNotFoundError(String), InvalidDatabaseError(String), IoError(String), MapError(String), DecodingError(String), InvalidNetworkError(String) }
impl fmt::Display for MaxMindDBError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for MaxMindDBError {}
pub struct Reader<S: AsRef<[u8]>> { db: BTreeMap<String, serde_json::Value>, _s: std::marker::PhantomData<fn() -> S> }
impl<S: AsRef<[u8]>> Reader<S> {
    pub fn from_source(s: S) -> Result<Self, MaxMindDBError> {
        Ok(Self { db: serde_json::from_slice(s.as_ref()).map_err(|e| MaxMindDBError::InvalidDatabaseError(e.to_string()))?, _s: std::marker::PhantomData })
    }
    pub fn lookup<'a, T: serde::Deserialize<'a>>(&'a self, ip: IpAddr) -> Result<T, MaxMindDBError> {
        let v = self.db.get(&ip.to_string()).ok_or_else(|| MaxMindDBError::AddressNotFoundError("Address not found in database".into()))?;
        T::deserialize(v).map_err(|e| MaxMindDBError::DecodingError(e.to_string()))
    }
}
pub mod geoip2 {
    use serde::Deserialize;
    use std::collections::BTreeMap;
    #[derive(Deserialize, Clone, Debug)]
    pub struct City<'a> { #[serde(borrow)] pub country: Option<Named<'a>>, #[serde(borrow)] pub city: Option<Named<'a>> }
    #[derive(Deserialize, Clone, Debug)]
    pub struct Named<'a> { #[serde(borrow)] pub names: Option<BTreeMap<&'a str, &'a str>> }
}
