//! `hyper` as the program under test sees it: real requests, responses and bodies, but the client
//! talks to the simulated node and the server hands its service to the harness.
#![allow(warnings)]
pub use ::hyper::*;

pub use client::Client;
pub use server::Server;

use std::cell::RefCell;
use std::rc::Rc;

/// How the simulated node answers.
#[derive(Clone, Debug)]
pub enum Reply {
    Http { status: u16, chunks: Vec<Vec<u8>>, broken: bool },
    /// The connection cannot be made or breaks before the response.
    Transport,
    /// No answer, ever.
    Hang,
    /// An answer that waits (before anything, or after a part of the body) until the gate is opened.
    Late(bool, Box<Reply>),
    /// Nothing happens to the call until the gate is opened.
    Later,
}

/// A request as the node sees it.
#[derive(Clone, Debug)]
pub struct Call {
    pub method: String,
    pub uri: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

type Node = Rc<dyn Fn(Call) -> Reply>;

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
    static LISTENERS: RefCell<Vec<Listener>> = const { RefCell::new(Vec::new()) };
    static BUSY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static BROKEN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static GATE: RefCell<(bool, Vec<std::task::Waker>)> = const { RefCell::new((false, Vec::new())) };
    static SERVERS: RefCell<Vec<std::task::Waker>> = const { RefCell::new(Vec::new()) };
}
/// Opens or closes the gate at which late answers wait.
pub fn verif_gate(open: bool) {
    let w = GATE.with(|g| {
        let mut g = g.borrow_mut();
        g.0 = open;
        if open {
            std::mem::take(&mut g.1)
        } else {
            Vec::new()
        }
    });
    for w in w {
        w.wake();
    }
}
fn gate(c: &mut std::task::Context<'_>) -> std::task::Poll<()> {
    GATE.with(|g| {
        let mut g = g.borrow_mut();
        if g.0 {
            return std::task::Poll::Ready(());
        }
        g.1.push(c.waker().clone());
        std::task::Poll::Pending
    })
}
/// No connection can be accepted any more: servers end with an error.
pub fn verif_servers_fail() {
    BROKEN.with(|b| b.set(true));
    for w in SERVERS.with(|s| std::mem::take(&mut *s.borrow_mut())) {
        w.wake();
    }
}

pub fn verif_node(n: Option<Node>) {
    NODE.with(|x| *x.borrow_mut() = n);
}
/// The port is taken by someone else.
pub fn verif_port_busy(b: bool) {
    BUSY.with(|x| x.set(b));
}
pub fn verif_reset() {
    NODE.with(|x| *x.borrow_mut() = None);
    LISTENERS.with(|x| x.borrow_mut().clear());
    BUSY.with(|x| x.set(false));
    BROKEN.with(|x| x.set(false));
    SERVERS.with(|x| x.borrow_mut().clear());
        GATE.with(|x| *x.borrow_mut() = (false, Vec::new()));
}
pub fn verif_servers_work() {
    BROKEN.with(|x| x.set(false));
}

/// Some real transport error.
async fn transport_error() -> ::hyper::Error {
    use ::hyper::body::HttpBody;
    let (tx, mut body) = ::hyper::Body::channel();
    tx.abort();
    match body.data().await {
        Some(Err(e)) => e,
        _ => panic!("no transport error"),
    }
}

struct Chunks {
    chunks: std::collections::VecDeque<Vec<u8>>,
    broken: bool,
    stalled: bool,
    /// The last piece waits at the gate.
    late: bool,
}
impl futures_core::Stream for Chunks {
    type Item = std::result::Result<bytes::Bytes, std::io::Error>;
    fn poll_next(mut self: std::pin::Pin<&mut Self>, c: &mut std::task::Context<'_>) -> std::task::Poll<Option<Self::Item>> {
        if self.late && self.chunks.len() < 2 {
            if gate(c).is_pending() {
                return std::task::Poll::Pending;
            }
            self.late = false;
        }
        match self.chunks.pop_front() {
            Some(c) => std::task::Poll::Ready(Some(Ok(c.into()))),
            None if self.stalled => std::task::Poll::Pending,
            None if self.broken => {
                self.broken = false;
                std::task::Poll::Ready(Some(Err(std::io::Error::from_raw_os_error(104))))
            }
            None => std::task::Poll::Ready(None),
        }
    }
}

pub mod client {
    use super::*;
    pub use ::hyper::client::connect;
    pub use ::hyper::client::connect::HttpConnector;
    use ::hyper::body::HttpBody;
    use ::hyper::{Body, Request, Response, Uri};
    use std::fmt;
    use std::future::Future;
    use std::marker::PhantomData;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use std::time::Duration;

    pub struct Client<C, B = Body>(PhantomData<fn(C, B)>);

    impl<C, B> Clone for Client<C, B> {
        fn clone(&self) -> Self {
            Client(PhantomData)
        }
    }
    impl<C, B> fmt::Debug for Client<C, B> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Client")
        }
    }
    impl Client<HttpConnector, Body> {
        pub fn new() -> Self {
            Client(PhantomData)
        }
    }
    impl Default for Client<HttpConnector, Body> {
        fn default() -> Self {
            Client(PhantomData)
        }
    }
    impl Client<(), Body> {
        pub fn builder() -> Builder {
            Builder::default()
        }
    }

    pub struct ResponseFuture(Pin<Box<dyn Future<Output = std::result::Result<Response<Body>, ::hyper::Error>> + Send>>);
    impl Future for ResponseFuture {
        type Output = std::result::Result<Response<Body>, ::hyper::Error>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            self.0.as_mut().poll(cx)
        }
    }
    impl fmt::Debug for ResponseFuture {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("ResponseFuture")
        }
    }

    impl<C, B> Client<C, B>
    where
        B: HttpBody + Send + 'static,
        B::Data: Send,
        B::Error: fmt::Debug + Send,
    {
        pub fn get(&self, uri: Uri) -> ResponseFuture
        where
            B: Default,
        {
            let mut r = Request::new(B::default());
            *r.uri_mut() = uri;
            self.request(r)
        }
        pub fn request(&self, r: Request<B>) -> ResponseFuture {
            ResponseFuture(Box::pin(async move {
                let (parts, body) = r.into_parts();
                let body = match ::hyper::body::to_bytes(body).await {
                    Ok(b) => b.to_vec(),
                    Err(_) => return Err(transport_error().await),
                };
                let call = Call {
                    method: parts.method.to_string(),
                    uri: parts.uri.to_string(),
                    headers: parts.headers.iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect(),
                    body,
                };
                ::rt::point("rpc");
                let ask = |call| {
                    let n = NODE.with(|n| n.borrow().clone());
                    match n {
                        Some(n) => n(call),
                        None => Reply::Transport,
                    }
                };
                let mut reply = ask(call.clone());
                if let Reply::Later = reply {
                    std::future::poll_fn(gate).await;
                    reply = ask(call);
                }
                let mut late = false;
                if let Reply::Late(part, r) = reply {
                    match part {
                        true => late = true,
                        false => std::future::poll_fn(gate).await,
                    }
                    reply = *r;
                }
                match reply {
                    Reply::Http { status, chunks, broken } => {
                        let body = if late {
                            let all = chunks.concat();
                            let (a, b) = all.split_at(all.len() / 2);
                            Body::wrap_stream(Chunks { chunks: [a.to_vec(), b.to_vec()].into(), broken, stalled: false, late })
                        } else if chunks.len() <= 1 && !broken {
                            Body::from(chunks.into_iter().next().unwrap_or_default())
                        } else {
                            Body::wrap_stream(Chunks { chunks: chunks.into(), broken, stalled: false, late: false })
                        };
                        Ok(Response::builder().status(status).header("content-type", "application/json").body(body).unwrap())
                    }
                    Reply::Transport => Err(transport_error().await),
                    Reply::Hang | Reply::Late(..) | Reply::Later => std::future::pending().await,
                }
            }))
        }
    }

    #[derive(Clone, Debug, Default)]
    pub struct Builder(());
    macro_rules! opts {
        ($($n:ident: $t:ty),*) => {
            impl Builder {
                $(pub fn $n(&mut self, _: $t) -> &mut Self { self })*
            }
        };
    }
    opts!(keep_alive: bool, max_idle_per_host: usize, pool_max_idle_per_host: usize, http1_read_buf_exact_size: usize,
        http1_max_buf_size: usize, http1_writev: bool, http1_title_case_headers: bool, http1_preserve_header_case: bool,
        http09_responses: bool, http2_only: bool, retry_canceled_requests: bool, set_host: bool);
    impl Builder {
        pub fn pool_idle_timeout<D: Into<Option<Duration>>>(&mut self, _: D) -> &mut Self {
            self
        }
        pub fn build_http<B>(&self) -> Client<HttpConnector, B> {
            Client(PhantomData)
        }
        pub fn build<C, B>(&self, _: C) -> Client<C, B> {
            Client(PhantomData)
        }
    }
}

type BoxFuture<T> = std::pin::Pin<Box<dyn std::future::Future<Output = T>>>;
pub type Handler = Box<dyn FnMut(Request<Body>) -> BoxFuture<std::result::Result<(u16, Vec<(String, String)>, Vec<u8>), String>>>;
type Accept = Rc<RefCell<Box<dyn FnMut() -> BoxFuture<std::result::Result<Handler, String>>>>>;

#[derive(Clone)]
struct Listener {
    id: u64,
    proc: ::rt::ProcId,
    addr: std::net::SocketAddr,
    accept: Accept,
}

/// Where a process listens.
pub fn verif_listening(proc: ::rt::ProcId) -> Vec<std::net::SocketAddr> {
    LISTENERS.with(|l| l.borrow().iter().filter(|x| x.proc == proc).map(|x| x.addr).collect())
}

/// Connects to a process: a future that yields the connection's request handler.
pub fn verif_connect(proc: ::rt::ProcId) -> Option<BoxFuture<std::result::Result<Handler, String>>> {
    let l = LISTENERS.with(|l| l.borrow().iter().find(|x| x.proc == proc).cloned())?;
    let f = (l.accept.borrow_mut())();
    Some(f)
}

pub mod server {
    use super::*;
    use ::hyper::body::HttpBody;
    use ::hyper::service::Service;
    use ::hyper::{Body, Request, Response};
    use std::error::Error as StdError;
    use std::fmt;
    use std::future::Future;
    use std::marker::PhantomData;
    use std::net::SocketAddr;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use std::time::Duration;

    pub mod conn {
        use std::net::SocketAddr;
        /// A connection, as far as a service factory can see it.
        #[derive(Debug)]
        pub struct AddrStream(pub(crate) SocketAddr);
        impl AddrStream {
            pub fn remote_addr(&self) -> SocketAddr {
                ([127, 0, 0, 1], 40000).into()
            }
            pub fn local_addr(&self) -> SocketAddr {
                self.0
            }
        }
        #[derive(Debug)]
        pub struct AddrIncoming(());
    }
    use conn::{AddrIncoming, AddrStream};

    pub trait MakeServiceRef<Target> {
        type ResBody: HttpBody;
        type Error: Into<Box<dyn StdError + Send + Sync>>;
        type Service: Service<Request<Body>, Response = Response<Self::ResBody>, Error = Self::Error>;
        type MakeError: Into<Box<dyn StdError + Send + Sync>>;
        type Future: Future<Output = std::result::Result<Self::Service, Self::MakeError>>;
        fn make_service_ref(&mut self, target: &Target) -> Self::Future;
    }
    impl<T, Target, E, ME, S, F, OB> MakeServiceRef<Target> for T
    where
        T: for<'a> Service<&'a Target, Error = ME, Response = S, Future = F>,
        E: Into<Box<dyn StdError + Send + Sync>>,
        ME: Into<Box<dyn StdError + Send + Sync>>,
        S: Service<Request<Body>, Response = Response<OB>, Error = E>,
        F: Future<Output = std::result::Result<S, ME>>,
        OB: HttpBody,
    {
        type Error = E;
        type Service = S;
        type ResBody = OB;
        type MakeError = ME;
        type Future = F;
        fn make_service_ref(&mut self, target: &Target) -> Self::Future {
            self.call(target)
        }
    }

    #[derive(Debug)]
    pub struct Builder<I = AddrIncoming> {
        addr: SocketAddr,
        _i: PhantomData<fn(I)>,
    }

    macro_rules! opts {
        ($($n:ident: $t:ty),*) => {
            impl<I> Builder<I> {
                $(pub fn $n(self, _: $t) -> Self { self })*
            }
        };
    }
    opts!(http1_keepalive: bool, http1_half_close: bool, http1_max_buf_size: usize, http1_pipeline_flush: bool, http1_writev: bool,
        http1_title_case_headers: bool, http1_preserve_header_case: bool, http1_header_read_timeout: Duration, http1_only: bool,
        http2_only: bool, tcp_nodelay: bool, tcp_keepalive: Option<Duration>, tcp_sleep_on_accept_errors: bool);

    pub struct Server<I = AddrIncoming, S = ()> {
        addr: SocketAddr,
        make: Option<S>,
        shutdown: Option<Pin<Box<dyn Future<Output = ()>>>>,
        id: u64,
        _i: PhantomData<fn(I)>,
    }
    // only ever polled by the task it belongs to
    unsafe impl<I, S> Send for Server<I, S> {}

    impl Server<AddrIncoming, ()> {
        pub fn bind(addr: &SocketAddr) -> Builder<AddrIncoming> {
            match Self::try_bind(addr) {
                Ok(b) => b,
                Err(_) => panic!("error binding to {}: address in use", addr),
            }
        }
        pub fn try_bind(addr: &SocketAddr) -> std::result::Result<Builder<AddrIncoming>, ::hyper::Error> {
            if BUSY.with(|b| b.get()) {
                return Err(::rt::block_on(transport_error()));
            }
            Ok(Builder { addr: *addr, _i: PhantomData })
        }
    }

    impl<I> Builder<I> {
        pub fn serve<S, B>(self, make: S) -> Server<I, S>
        where
            S: MakeServiceRef<AddrStream, ResBody = B>,
            B: HttpBody,
        {
            Server { addr: self.addr, make: Some(make), shutdown: None, id: 0, _i: PhantomData }
        }
    }

    impl<I, S> Server<I, S> {
        pub fn local_addr(&self) -> SocketAddr {
            self.addr
        }
        pub fn with_graceful_shutdown<F: Future<Output = ()> + 'static>(mut self, f: F) -> Self {
            self.shutdown = Some(Box::pin(f));
            self
        }
    }

    impl<I, S> Unpin for Server<I, S> {}

    impl<I, S> Future for Server<I, S>
    where
        S: MakeServiceRef<AddrStream>,
        <S::ResBody as HttpBody>::Error: fmt::Debug,
    {
        type Output = std::result::Result<(), ::hyper::Error>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if let Some(mut make) = self.make.take() {
                let addr = self.addr;
                // the listener is forgotten when this future is dropped, so nothing outlives what it borrows
                // connections are served by the runtime that runs the server
                let pool = ::rt::current_pool();
                let accept: Box<dyn FnMut() -> BoxFuture<std::result::Result<Handler, String>> + '_> = Box::new(move || {
                    let f = {
                        let _g = ::rt::beside_workers(pool);
                        make.make_service_ref(&AddrStream(addr))
                    };
                    let b: Pin<Box<dyn Future<Output = std::result::Result<Handler, String>> + '_>> = Box::pin(::rt::OnWorker(pool, Box::pin(async move {
                        let mut svc = f.await.map_err(|e| e.into().to_string())?;
                        let h: Box<dyn FnMut(Request<Body>) -> BoxFuture<std::result::Result<(u16, Vec<(String, String)>, Vec<u8>), String>> + '_> = Box::new(move |req| {
                            let w = ::rt::now_waker();
                            let _ = svc.poll_ready(&mut Context::from_waker(&w));
                            let f = ::rt::on_worker(pool, || svc.call(req));
                            let b: Pin<Box<dyn Future<Output = std::result::Result<(u16, Vec<(String, String)>, Vec<u8>), String>> + '_>> = Box::pin(::rt::OnWorker(pool, Box::pin(async move {
                                let resp = f.await.map_err(|e| e.into().to_string())?;
                                let (parts, body) = resp.into_parts();
                                let bytes = ::hyper::body::to_bytes(body).await.map_err(|e| format!("{:?}", e))?;
                                let headers =
                                    parts.headers.iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect();
                                Ok((parts.status.as_u16(), headers, bytes.to_vec()))
                            })));
                            unsafe { std::mem::transmute(b) }
                        });
                        let h: Handler = unsafe { std::mem::transmute(h) };
                        Ok(h)
                    })));
                    unsafe { std::mem::transmute(b) }
                });
                let accept: Box<dyn FnMut() -> BoxFuture<std::result::Result<Handler, String>>> = unsafe { std::mem::transmute(accept) };
                let id = LISTENERS.with(|l| {
                    let mut l = l.borrow_mut();
                    let id = l.iter().map(|x| x.id).max().unwrap_or(0) + 1;
                    l.push(Listener { id, proc: ::rt::current_proc(), addr, accept: Rc::new(RefCell::new(accept)) });
                    id
                });
                self.id = id;
                ::rt::point("listening");
            }
            if BROKEN.with(|b| b.get()) {
                let id = self.id;
                LISTENERS.with(|l| l.borrow_mut().retain(|x| x.id != id));
                return Poll::Ready(Err(::rt::block_on(transport_error())));
            }
            SERVERS.with(|s| s.borrow_mut().push(cx.waker().clone()));
            if let Some(s) = self.shutdown.as_mut() {
                if s.as_mut().poll(cx).is_ready() {
                    return Poll::Ready(Ok(()));
                }
            }
            Poll::Pending
        }
    }

    impl<I, S> Drop for Server<I, S> {
        fn drop(&mut self) {
            let id = self.id;
            let _ = LISTENERS.try_with(|l| {
                if let Ok(mut l) = l.try_borrow_mut() {
                    l.retain(|x| x.id != id);
                }
            });
        }
    }
}

/// A body that arrives in pieces, and possibly breaks off.
pub fn verif_body(chunks: Vec<Vec<u8>>, broken: bool) -> ::hyper::Body {
    ::hyper::Body::wrap_stream(Chunks { chunks: chunks.into(), broken, stalled: false, late: false })
}
/// A body of which only a part ever arrives.
pub fn verif_stalled_body(chunks: Vec<Vec<u8>>) -> ::hyper::Body {
    ::hyper::Body::wrap_stream(Chunks { chunks: chunks.into(), broken: false, stalled: true, late: false })
}
