//! Stand-in for tower-http: layers that pass requests on and a file service that finds nothing.
pub mod cors {
    pub struct Any;
    #[derive(Clone, Default)]
    pub struct CorsLayer;
    impl CorsLayer {
        pub fn new() -> Self { Self }
        pub fn allow_methods(self, _: Any) -> Self { self }
        pub fn allow_origin(self, _: Any) -> Self { self }
        pub fn allow_headers(self, _: Any) -> Self { self }
    }
    impl<S> tower::Layer<S> for CorsLayer { type Service = S; fn layer(&self, s: S) -> S { s } }
}
pub mod trace {
    #[derive(Clone)]
    pub struct TraceLayer;
    impl TraceLayer { pub fn new_for_http() -> Self { Self } }
}
pub mod services {
    use std::{convert::Infallible, future::{ready, Ready}, path::Path, task::{Context, Poll}};
    use axum::{extract::Request, http::StatusCode, response::{IntoResponse, Response}};
    #[derive(Clone)]
    pub struct ServeFile;
    impl ServeFile { pub fn new(_: impl AsRef<Path>) -> Self { Self } }
    #[derive(Clone)]
    pub struct ServeDir;
    impl ServeDir { pub fn new(_: impl AsRef<Path>) -> Self { Self } pub fn not_found_service<F>(self, _: F) -> Self { self } }
    impl tower::Service<Request> for ServeDir {
        type Response = Response; type Error = Infallible; type Future = Ready<Result<Response, Infallible>>;
        fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> { Poll::Ready(Ok(())) }
        fn call(&mut self, _: Request) -> Self::Future { ready(Ok((StatusCode::NOT_FOUND, "no such file").into_response())) }
    }
}
