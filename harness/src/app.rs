//! A small application on top of htrpc's public API: procedures whose method and entry point are
//! set per execution, generic request and response types, and handlers which log what they get.
use crate::dynty::{Req, Resp};
use crate::exec::{Handle, Outcome, Sim, SimSpawn};
use futures::{self, Future};
use htrpc::types::{EntryPoint, HttpMethod, NeverFail, PathSegment};
use htrpc::{BodyReader, Error, FutureExt, HandleRpc, Procedure, ReadBody, RpcClient, RpcRequest,
            RpcResponse, RpcServerBuilder};
use htrpc::pool::RpcClientPool;
use mio::sim::{self, Side};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::Debug;
use std::io::Read;
use std::marker::PhantomData;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

/// How much of the body the request type reads for itself.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ReadMode {
    All,
    Nothing,
    /// Reads at most this many bytes.
    Some(usize),
    /// Reads everything by buffers of this size.
    Pieces(usize),
    /// Reads exactly as many bytes as the head announces, or everything if it does not say.
    Announced,
}

thread_local! {
    static SLOTS: RefCell<Vec<Option<(HttpMethod, EntryPoint)>>> = const { RefCell::new(Vec::new()) };
    static LOG: RefCell<Vec<(usize, String)>> = const { RefCell::new(Vec::new()) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static MODE: Cell<ReadMode> = const { Cell::new(ReadMode::All) };
}

pub fn reset() {
    SLOTS.with(|s| s.borrow_mut().clear());
    LOG.with(|s| s.borrow_mut().clear());
    MODE.with(|m| m.set(ReadMode::All));
    crate::dynty::reset();
    TICKS.with(|t| t.set(0));
}
pub fn tick() {
    let _ = TICKS.try_with(|t| t.set(t.get() + 1));
}
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}
pub fn log_hash() -> u64 {
    LOG.with(|l| l.borrow().len() as u64)
}
/// Handler runs so far: slot and request.
pub fn log() -> Vec<(usize, String)> {
    LOG.with(|l| l.borrow().clone())
}
/// Handler runs from the given one on.
pub fn log_from(n: usize) -> Vec<(usize, String)> {
    LOG.with(|l| l.borrow()[n..].to_vec())
}
pub fn log_len() -> usize {
    LOG.with(|l| l.borrow().len())
}
pub fn push_log(slot: usize, s: String) {
    LOG.with(|l| l.borrow_mut().push((slot, s)));
    tick();
}
pub fn set_read_mode(m: ReadMode) {
    MODE.with(|x| x.set(m))
}

/// Sets method and entry point of procedure `slot`.
pub fn define(slot: usize, method: HttpMethod, ep: EntryPoint) {
    SLOTS.with(|s| {
        let mut s = s.borrow_mut();
        while s.len() <= slot {
            s.push(None);
        }
        s[slot] = Some((method, ep));
    })
}
/// The entry point with these segments (`None`: variable).
pub fn ep(segments: &[Option<&str>]) -> EntryPoint {
    static CACHE: Mutex<Option<HashMap<Vec<Option<String>>, &'static [PathSegment]>>> =
        Mutex::new(None);
    let key: Vec<Option<String>> = segments.iter().map(|s| s.map(|s| s.to_string())).collect();
    let mut c = CACHE.lock().unwrap_or_else(|e| e.into_inner());
    let c = c.get_or_insert_with(HashMap::new);
    let s = *c.entry(key.clone()).or_insert_with(|| {
        let v: Vec<PathSegment> = key
            .iter()
            .map(|s| match s {
                None => PathSegment::Var,
                Some(s) => PathSegment::Val(Box::leak(s.clone().into_boxed_str())),
            })
            .collect();
        Box::leak(v.into_boxed_slice())
    });
    EntryPoint::new(s)
}

/// Procedure number `N`.
pub struct Pr<const N: usize, Q, S>(PhantomData<fn() -> (Q, S)>);
impl<const N: usize, Q, S> Pr<N, Q, S> {
    pub fn new() -> Self {
        Pr(PhantomData)
    }
}
impl<const N: usize, Q: RpcRequest, S: RpcResponse> Procedure for Pr<N, Q, S> {
    type Request = Q;
    type Response = S;
    fn method() -> HttpMethod {
        SLOTS.with(|s| s.borrow()[N].expect("defined").0)
    }
    fn entry_point() -> EntryPoint {
        SLOTS.with(|s| s.borrow()[N].expect("defined").1)
    }
}

pub type BoxReply<S> = Box<dyn Future<Item = S, Error = NeverFail> + Send + 'static>;

pub struct Handler<Q, S> {
    slot: usize,
    f: Arc<dyn Fn(Q) -> BoxReply<S> + Send + Sync>,
}
impl<Q, S> Clone for Handler<Q, S> {
    fn clone(&self) -> Self {
        Handler {
            slot: self.slot,
            f: Arc::clone(&self.f),
        }
    }
}
impl<Q: 'static, S: Send + 'static> Handler<Q, S> {
    pub fn now(slot: usize, f: impl Fn(Q) -> S + Send + Sync + 'static) -> Self {
        Handler {
            slot,
            f: Arc::new(move |q| Box::new(futures::finished(f(q)))),
        }
    }
    pub fn fut(slot: usize, f: impl Fn(Q) -> BoxReply<S> + Send + Sync + 'static) -> Self {
        Handler {
            slot,
            f: Arc::new(f),
        }
    }
}
impl<const N: usize, Q, S> HandleRpc<Pr<N, Q, S>> for Handler<Q, S>
where
    Q: RpcRequest + Debug,
    S: RpcResponse + Send + 'static,
{
    type Future = BoxReply<S>;
    fn handle_rpc(self, request: Q) -> BoxReply<S> {
        push_log(self.slot, format!("{:?}", request));
        (self.f)(request)
    }
}

struct ReadPieces(Option<BodyReader>, Vec<u8>, usize);
impl Future for ReadPieces {
    type Item = (BodyReader, Vec<u8>);
    type Error = Error;
    fn poll(&mut self) -> futures::Poll<Self::Item, Error> {
        let mut b = vec![0; self.2];
        loop {
            // (A read into nothing is no end.)
            match self.0.as_mut().expect("polled twice").read(&mut []) {
                Ok(0) => {}
                Ok(_) => self.1.push(b'!'),
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                Err(e) => return Err(Error::from(e)),
            }
            match self.0.as_mut().expect("polled twice").read(&mut b) {
                Ok(0) => {
                    let r = self.0.take().expect("polled twice");
                    return Ok(futures::Async::Ready((r, std::mem::take(&mut self.1))));
                }
                Ok(k) => self.1.extend(&b[..k]),
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => return Ok(futures::Async::NotReady),
                Err(e) => return Err(Error::from(e)),
            }
        }
    }
}
pub fn read_body_by_mode<T: Send + 'static>(
    t: T,
    body: BodyReader,
    set: impl FnOnce(&mut T, Vec<u8>) + Send + 'static,
) -> ReadBody<T> {
    match MODE.with(|m| m.get()) {
        ReadMode::All => Box::new(body.read_all_bytes().map_err(Error::from).map(
            move |(r, b)| {
                let mut t = t;
                set(&mut t, b);
                (r, t)
            },
        )),
        ReadMode::Nothing => Box::new(futures::finished((body, t))),
        ReadMode::Pieces(n) => Box::new(ReadPieces(Some(body), Vec::new(), n).map(move |(r, b)| {
            let mut t = t;
            set(&mut t, b);
            (r, t)
        })),
        ReadMode::Announced if htrpc::content_length(&body).is_none() => {
            Box::new(ReadPieces(Some(body), Vec::new(), 100).map(move |(r, b)| {
                let mut t = t;
                set(&mut t, b);
                (r, t)
            }))
        }
        ReadMode::Some(_) | ReadMode::Announced => {
            let n = match MODE.with(|m| m.get()) {
                ReadMode::Some(n) => n,
                _ => htrpc::content_length(&body).unwrap_or(0) as usize,
            };
            struct ReadSome(Option<BodyReader>, Vec<u8>, usize);
            impl Future for ReadSome {
                type Item = (BodyReader, Vec<u8>);
                type Error = Error;
                fn poll(&mut self) -> futures::Poll<Self::Item, Error> {
                    loop {
                        let want = self.2 - self.1.len();
                        let mut b = vec![0; want];
                        let r = if want == 0 {
                            Ok(0)
                        } else {
                            self.0.as_mut().expect("polled twice").read(&mut b)
                        };
                        match r {
                            Ok(0) => {
                                let r = self.0.take().expect("polled twice");
                                return Ok(futures::Async::Ready((
                                    r,
                                    std::mem::take(&mut self.1),
                                )));
                            }
                            Ok(k) => self.1.extend(&b[..k]),
                            Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                                return Ok(futures::Async::NotReady)
                            }
                            Err(e) => return Err(Error::from(e)),
                        }
                    }
                }
            }
            Box::new(ReadSome(Some(body), Vec::new(), n).map(move |(r, b)| {
                let mut t = t;
                set(&mut t, b);
                (r, t)
            }))
        }
    }
}

/// The procedure of slot `N` with requests and responses whose shape is data.
pub type Dp<const N: usize> = Pr<N, Req<N>, Resp<N>>;

pub fn addr(port: u16) -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], port))
}
pub const PORT: u16 = 3000;

/// Starts a server; the handle yields its result should it ever end.
pub fn start_server(sim: &mut Sim, port: u16, b: RpcServerBuilder) -> Handle<Result<(), Error>> {
    let server = b.start(SimSpawn("conn"));
    let _ = port;
    sim.run_fut("server", server)
}

/// Result of a call to a one-procedure server.
pub struct Exchange<S> {
    pub result: Option<Result<S, Error>>,
    pub log: Vec<(usize, String)>,
    pub sent: Vec<u8>,
    pub answered: Vec<u8>,
    pub outcome: Outcome,
    pub server_ended: bool,
}

/// Which client makes the calls.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Client {
    Plain,
    Pooled,
}

/// One call over a fresh server and connection, default schedule unless `tune` says otherwise.
pub fn exchange<Q, S>(
    method: HttpMethod,
    entry: EntryPoint,
    request: Q,
    reply: impl Fn(Q) -> S + Send + Sync + 'static,
    tune: impl FnOnce(&mut Sim),
) -> Exchange<S>
where
    Q: RpcRequest + Debug,
    S: RpcResponse + Send + 'static,
{
    exchange_by(Client::Plain, method, entry, request, reply, tune)
}
pub fn exchange_by<Q, S>(
    client: Client,
    method: HttpMethod,
    entry: EntryPoint,
    request: Q,
    reply: impl Fn(Q) -> S + Send + Sync + 'static,
    tune: impl FnOnce(&mut Sim),
) -> Exchange<S>
where
    Q: RpcRequest + Debug,
    S: RpcResponse + Send + 'static,
{
    crate::exec::fresh();
    define(0, method, entry);
    let mut b = RpcServerBuilder::new(addr(PORT));
    b.register(Handler::now(0, reply), Pr::<0, Q, S>::new())
        .expect("register");
    let mut sim = Sim::new();
    tune(&mut sim);
    let server = start_server(&mut sim, PORT, b);
    sim.run();
    let call = match client {
        Client::Plain => {
            let mut client = RpcClient::new(addr(PORT));
            sim.run_fut("call", client.call::<Pr<0, Q, S>>(request))
        }
        Client::Pooled => {
            let pool = RpcClientPool::new();
            let handle = pool.handle();
            sim.spawn("pool", pool);
            sim.run_fut("call", handle.client(addr(PORT)).call::<Pr<0, Q, S>>(request))
        }
    };
    let outcome = sim.run();
    let (sent, answered) = if sim::conn_count() > 0 {
        sim::with_conn(0, |c| {
            (
                c.pipes[Side::Client as usize].log.clone(),
                c.pipes[Side::Server as usize].log.clone(),
            )
        })
    } else {
        (Vec::new(), Vec::new())
    };
    Exchange {
        result: call.take(),
        log: log(),
        sent,
        answered,
        outcome,
        server_ended: server.is_done(),
    }
}

/// Formats everything which is logged, like any drain with an output.
struct Format;
impl slog::Drain for Format {
    type Ok = ();
    type Err = slog::Never;
    fn log(&self, record: &slog::Record, values: &slog::OwnedKVList) -> Result<(), slog::Never> {
        use slog::KV;
        struct Values(usize);
        impl slog::Serializer for Values {
            fn emit_arguments(&mut self, key: slog::Key, val: &std::fmt::Arguments) -> slog::Result {
                self.0 += format!("{}={}", key, val).len();
                Ok(())
            }
        }
        let mut n = Values(record.msg().to_string().len());
        let _ = record.kv().serialize(record, &mut n);
        let _ = values.serialize(record, &mut n);
        Ok(())
    }
}
pub fn logger() -> slog::Logger {
    slog::Logger::root(Format, slog::o!("from" => "mc"))
}
