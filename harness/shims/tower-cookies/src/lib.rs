//! Stand-in for tower-cookies: the cookies of a request, and those it sets in the response.
use std::{future::Future, pin::Pin, sync::{Arc, Mutex}, task::{Context, Poll}};
use axum::{extract::{FromRequestParts, Request}, http::{header, request::Parts, HeaderValue, StatusCode}, response::Response};
pub use cookie::Cookie;
use cookie::CookieJar;
#[derive(Clone, Default, Debug)]
pub struct Cookies(Arc<Mutex<CookieJar>>);
impl Cookies {
    pub fn get(&self, name: &str) -> Option<Cookie<'static>> { self.0.lock().unwrap().get(name).cloned() }
    pub fn add(&self, c: Cookie<'static>) { self.0.lock().unwrap().add(c) }
    pub fn remove(&self, c: Cookie<'static>) { self.0.lock().unwrap().remove(c) }
}
#[axum::async_trait]
impl<S: Send + Sync> FromRequestParts<S> for Cookies {
    type Rejection = (StatusCode, &'static str);
    async fn from_request_parts(parts: &mut Parts, _: &S) -> Result<Self, Self::Rejection> {
        parts.extensions.get::<Cookies>().cloned().ok_or((StatusCode::INTERNAL_SERVER_ERROR, "no CookieManagerLayer"))
    }
}
#[derive(Clone, Default)]
pub struct CookieManagerLayer;
impl CookieManagerLayer { pub fn new() -> Self { Self } }
impl<S> tower::Layer<S> for CookieManagerLayer { type Service = CookieManager<S>; fn layer(&self, s: S) -> CookieManager<S> { CookieManager(s) } }
#[derive(Clone)]
pub struct CookieManager<S>(S);
impl<S> tower::Service<Request> for CookieManager<S>
where S: tower::Service<Request, Response = Response>, S::Future: Send + 'static, S::Error: Send + 'static {
    type Response = Response; type Error = S::Error;
    type Future = Pin<Box<dyn Future<Output = Result<Response, S::Error>> + Send>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> { self.0.poll_ready(cx) }
    fn call(&mut self, mut req: Request) -> Self::Future {
        let mut jar = CookieJar::new();
        for h in req.headers().get_all(header::COOKIE) {
            for c in Cookie::split_parse(h.to_str().unwrap_or("").to_string()).flatten() { jar.add_original(c.into_owned()); }
        }
        let cookies = Cookies(Arc::new(Mutex::new(jar)));
        req.extensions_mut().insert(cookies.clone());
        let f = self.0.call(req);
        Box::pin(async move {
            let mut res = f.await?;
            for c in cookies.0.lock().unwrap().delta() { res.headers_mut().append(header::SET_COOKIE, HeaderValue::from_str(&c.to_string()).unwrap()); }
            Ok(res)
        })
    }
}
