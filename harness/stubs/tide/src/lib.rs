// Stands in for tide, which is not in the cargo cache: a server that does not serve.
pub use http;
use std::future::Future;
use std::net::SocketAddr;

pub type Response = http::Response<String>;
pub type EndpointResult<T = Response> = Result<T, error::Error>;

pub mod error {
    #[derive(Debug)]
    pub struct Error;

    pub trait ResultExt<T> {
        fn client_err(self) -> Result<T, Error>;
    }

    impl<T> ResultExt<T> for Result<T, std::io::Error> {
        fn client_err(self) -> Result<T, Error> {
            self.map_err(|_| Error)
        }
    }
}

pub mod response {
    pub fn json<T>(_: T) -> super::Response {
        http::Response::new(String::new())
    }
}

pub struct Context<S>(S);

impl<S> Context<S> {
    pub async fn body_json<T>(&mut self) -> Result<T, std::io::Error> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "no body"))
    }

    pub fn state(&self) -> &S {
        &self.0
    }
}

pub mod middleware {
    pub struct CorsMiddleware;

    pub struct CorsOrigin;

    impl From<&str> for CorsOrigin {
        fn from(_: &str) -> Self {
            CorsOrigin
        }
    }

    impl CorsMiddleware {
        pub fn new() -> Self {
            CorsMiddleware
        }

        pub fn allow_origin(self, _: CorsOrigin) -> Self {
            self
        }

        pub fn allow_methods(self, _: http::header::HeaderValue) -> Self {
            self
        }
    }
}

pub struct App<S>(S);

pub struct Route;

impl<S> App<S> {
    pub fn with_state(s: S) -> Self {
        App(s)
    }

    pub fn middleware<M>(&mut self, _: M) {}

    pub fn at(&mut self, _: &str) -> Route {
        Route
    }

    pub async fn serve(self, _: SocketAddr) -> Result<(), std::io::Error> {
        Ok(())
    }
}

impl Route {
    pub fn post<S, F, R, T>(&mut self, _: F)
    where
        F: Fn(Context<S>) -> R,
        R: Future<Output = EndpointResult<T>>,
    {
    }

    pub fn get<S, F, R, T>(&mut self, _: F)
    where
        F: Fn(Context<S>) -> R,
        R: Future<Output = EndpointResult<T>>,
    {
    }
}
