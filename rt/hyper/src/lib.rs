//! HTTP messages are the real `http` types; the transport is the harness: requests of the client
//! go to a function set by the harness, requests to the server come from another one.
#![allow(static_mut_refs)]
pub use http;
pub use http::{header, HeaderMap, Method, Request, Response, StatusCode, Uri, Version};
pub use body::Body;
pub use client::Client;
pub use server::Server;

#[derive(Debug)]
pub struct Error(pub &'static str);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub mod body {
    pub use bytes::{Buf, Bytes};
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    /// chunks still to be delivered; None stands for a transport error
    #[derive(Debug)]
    pub struct Body(pub std::collections::VecDeque<Option<Bytes>>);
    impl Body {
        pub fn empty() -> Body {
            Body(Default::default())
        }
        pub fn chunks(c: Vec<Option<Vec<u8>>>) -> Body {
            Body(c.into_iter().map(|x| x.map(Bytes::from)).collect())
        }
        /// everything that is left
        pub fn take_all(&mut self) -> Vec<u8> {
            let mut v = Vec::new();
            for c in self.0.drain(..) {
                v.extend_from_slice(&c.unwrap());
            }
            v
        }
    }
    impl Default for Body {
        fn default() -> Body {
            Body::empty()
        }
    }
    macro_rules! from {
        ($t:ty) => {
            impl From<$t> for Body {
                fn from(x: $t) -> Body {
                    let b = Bytes::from(x);
                    let mut q = std::collections::VecDeque::new();
                    if !b.is_empty() {
                        q.push_back(Some(b));
                    }
                    Body(q)
                }
            }
        };
    }
    from!(Vec<u8>);
    from!(String);
    from!(&'static str);
    from!(&'static [u8]);
    from!(Bytes);

    pub struct Data<'a>(&'a mut Body);
    impl<'a> Future for Data<'a> {
        type Output = Option<crate::Result<Bytes>>;
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
            Poll::Ready(match self.0 .0.pop_front() {
                None => None,
                Some(Some(b)) => Some(Ok(b)),
                Some(None) => Some(Err(crate::Error("connection error"))),
            })
        }
    }
    pub trait HttpBody {
        type Data;
        type Error;
        fn data(&mut self) -> Data<'_>;
        fn is_end_stream(&self) -> bool;
    }
    impl HttpBody for Body {
        type Data = Bytes;
        type Error = crate::Error;
        fn data(&mut self) -> Data<'_> {
            Data(self)
        }
        fn is_end_stream(&self) -> bool {
            self.0.is_empty()
        }
    }
    impl Body {
        fn left(&self) -> u64 {
            self.0.iter().map(|c| c.as_ref().map_or(0, |b| b.len() as u64)).sum()
        }
        pub fn size_hint(&self) -> SizeHint {
            SizeHint(self.left())
        }
    }
    pub struct SizeHint(u64);
    impl SizeHint {
        pub fn exact(&self) -> Option<u64> {
            Some(self.0)
        }
        pub fn lower(&self) -> u64 {
            self.0
        }
        pub fn upper(&self) -> Option<u64> {
            Some(self.0)
        }
    }
    impl HttpBody for http::Response<Body> {
        type Data = Bytes;
        type Error = crate::Error;
        fn data(&mut self) -> Data<'_> {
            Data(self.body_mut())
        }
        fn is_end_stream(&self) -> bool {
            self.body().0.is_empty()
        }
    }
    impl HttpBody for http::Request<Body> {
        type Data = Bytes;
        type Error = crate::Error;
        fn data(&mut self) -> Data<'_> {
            Data(self.body_mut())
        }
        fn is_end_stream(&self) -> bool {
            self.body().0.is_empty()
        }
    }
    pub async fn to_bytes<B: HttpBody>(mut b: B) -> crate::Result<Bytes> {
        let mut v = Vec::new();
        while let Some(c) = b.data().await {
            v.extend_from_slice(&c?);
        }
        Ok(Bytes::from(v))
    }
    pub async fn aggregate<B: HttpBody>(b: B) -> crate::Result<Bytes> {
        to_bytes(b).await
    }
}

/// method, uri, headers, body -> status and body chunks, or None for a failed connection
pub type Transport = fn(Request<Vec<u8>>) -> Option<(u16, Vec<Option<Vec<u8>>>)>;
pub static mut TRANSPORT: Option<Transport> = None;

pub mod client {
    use super::*;
    #[derive(Clone, Debug, Default)]
    pub struct HttpConnector;
    impl HttpConnector {
        pub fn new() -> Self {
            HttpConnector
        }
    }
    pub mod connect {
        pub use super::HttpConnector;
    }
    pub use super::body::HttpBody;
    #[derive(Debug)]
    pub struct Client<C = HttpConnector, B = Body>(std::marker::PhantomData<(C, B)>);
    unsafe impl<C, B> Send for Client<C, B> {}
    unsafe impl<C, B> Sync for Client<C, B> {}
    impl<C, B> Clone for Client<C, B> {
        fn clone(&self) -> Self {
            Client(std::marker::PhantomData)
        }
    }
    impl Client<HttpConnector, Body> {
        pub fn new() -> Self {
            Client(std::marker::PhantomData)
        }
        pub fn builder() -> Builder {
            Builder
        }
    }
    impl Default for Client<HttpConnector, Body> {
        fn default() -> Self {
            Self::new()
        }
    }
    pub struct Builder;
    impl Builder {
        pub fn pool_max_idle_per_host(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn pool_idle_timeout<D>(&mut self, _: D) -> &mut Self {
            self
        }
        pub fn build_http<B>(&self) -> Client<HttpConnector, B> {
            Client(std::marker::PhantomData)
        }
        pub fn build<C, B>(&self, _: C) -> Client<C, B> {
            Client(std::marker::PhantomData)
        }
    }
    impl<C> Client<C, Body> {
        pub async fn request(&self, r: Request<Body>) -> crate::Result<Response<Body>> {
            vrt::sched::point();
            let (p, mut b) = r.into_parts();
            let body = b.take_all();
            let t = unsafe { TRANSPORT }.expect("no transport");
            match t(Request::from_parts(p, body)) {
                None => Err(crate::Error("connection refused")),
                Some((s, c)) => Ok(Response::builder().status(s).body(Body::chunks(c)).unwrap()),
            }
        }
        pub async fn get(&self, u: Uri) -> crate::Result<Response<Body>> {
            self.request(Request::builder().uri(u).body(Body::empty()).unwrap()).await
        }
    }
}

pub mod service {
    use std::future::Future;
    pub trait Service<R> {
        type Response;
        type Error;
        type Future: Future<Output = Result<Self::Response, Self::Error>>;
        fn call(&mut self, r: R) -> Self::Future;
    }
    #[derive(Clone)]
    pub struct ServiceFn<F>(F);
    pub fn service_fn<F, R, S, T, E>(f: F) -> ServiceFn<F>
    where
        F: FnMut(R) -> S,
        S: Future<Output = Result<T, E>>,
    {
        ServiceFn(f)
    }
    impl<F, R, S, T, E> Service<R> for ServiceFn<F>
    where
        F: FnMut(R) -> S,
        S: Future<Output = Result<T, E>>,
    {
        type Response = T;
        type Error = E;
        type Future = S;
        fn call(&mut self, r: R) -> S {
            (self.0)(r)
        }
    }
    #[derive(Clone)]
    pub struct MakeServiceFn<F>(F);
    pub fn make_service_fn<F, S>(f: F) -> MakeServiceFn<F>
    where
        F: FnMut(&crate::server::conn::AddrStream) -> S,
        S: Future,
    {
        MakeServiceFn(f)
    }
    impl<F, S, V, E> Service<&crate::server::conn::AddrStream> for MakeServiceFn<F>
    where
        F: FnMut(&crate::server::conn::AddrStream) -> S,
        S: Future<Output = Result<V, E>>,
    {
        type Response = V;
        type Error = E;
        type Future = S;
        fn call(&mut self, r: &crate::server::conn::AddrStream) -> S {
            (self.0)(r)
        }
    }
}

pub mod server {
    use super::service::Service;
    use super::*;
    use std::future::Future;
    use std::net::SocketAddr;
    pub mod conn {
        pub struct AddrStream(pub(crate) std::net::SocketAddr);
        impl AddrStream {
            pub fn remote_addr(&self) -> std::net::SocketAddr {
                self.0
            }
        }
    }
    /// The harness side of a bound server: gets the address and a function that answers one request.
    pub type Driver = fn(SocketAddr, &mut dyn FnMut(Request<Body>) -> Response<Body>);
    pub static mut DRIVER: Option<Driver> = None;

    pub struct Server(());
    pub struct Builder(SocketAddr);
    impl Server {
        pub fn bind(a: &SocketAddr) -> Builder {
            Builder(*a)
        }
        pub fn try_bind(a: &SocketAddr) -> crate::Result<Builder> {
            Ok(Builder(*a))
        }
    }
    impl Builder {
        pub fn http1_keepalive(self, _: bool) -> Self {
            self
        }
        pub fn http1_only(self, _: bool) -> Self {
            self
        }
        pub fn tcp_nodelay(self, _: bool) -> Self {
            self
        }
        pub async fn serve<M, S, E, E2>(self, mut make: M) -> crate::Result<()>
        where
            M: for<'a> MakeService<'a, S, E>,
            S: Service<Request<Body>, Response = Response<Body>, Error = E2>,
        {
            let d = unsafe { DRIVER }.expect("no server driver");
            let addr = self.0;
            let stream = conn::AddrStream(SocketAddr::from(([10, 0, 0, 1], 4000)));
            d(addr, &mut |r| {
                // a connection of its own for every request
                let mut s = match vrt::block_on(make.make(&stream)) {
                    Ok(s) => s,
                    Err(_) => panic!("make_service failed"),
                };
                match vrt::block_on(s.call(r)) {
                    Ok(r) => r,
                    Err(_) => panic!("service failed"),
                }
            });
            Ok(())
        }
    }
    pub trait MakeService<'a, S, E> {
        type F: Future<Output = std::result::Result<S, E>>;
        fn make(&mut self, s: &'a conn::AddrStream) -> Self::F;
    }
    impl<'a, M, S, E> MakeService<'a, S, E> for M
    where
        M: Service<&'a conn::AddrStream, Response = S, Error = E>,
    {
        type F = M::Future;
        fn make(&mut self, s: &'a conn::AddrStream) -> Self::F {
            self.call(s)
        }
    }
}
