//! Stand-in for the part of axum-extra that needs the `headers` crate: the bearer token of a request.
use axum::{extract::FromRequestParts, http::{header::AUTHORIZATION, request::Parts, StatusCode}};
pub struct TypedHeader<T>(pub T);
pub mod headers {
    pub struct Authorization<C>(pub C);
    pub mod authorization { pub struct Bearer(pub(crate) String); impl Bearer { pub fn token(&self) -> &str { &self.0 } } impl Bearer { pub(crate) fn parse(h: &str) -> Option<Self> { let (s, t) = h.split_once(' ')?; if s.eq_ignore_ascii_case("bearer") { Some(Bearer(t.trim_start().to_string())) } else { None } } }
        pub use super::Authorization; }
}
use headers::{authorization::Bearer, Authorization};
#[async_trait::async_trait]
impl<S: Send + Sync> FromRequestParts<S> for TypedHeader<Authorization<Bearer>> {
    type Rejection = (StatusCode, &'static str);
    async fn from_request_parts(p: &mut Parts, _: &S) -> Result<Self, Self::Rejection> {
        let mut it = p.headers.get_all(AUTHORIZATION).iter();
        match (it.next().and_then(|h| h.to_str().ok()).and_then(Bearer::parse), it.next()) {
            (Some(b), None) => Ok(TypedHeader(Authorization(b))),
            _ => Err((StatusCode::BAD_REQUEST, "invalid authorization header")),
        }
    }
}
