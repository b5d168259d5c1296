//! The application: procedures whose code stops at the gates, and the machine which runs it on threads.
use crate::world::{self, gate, Gate, Outcome, World};
use fibers::executor::{InPlaceExecutor, InPlaceExecutorHandle};
use fibers::{Executor, Spawn};
use futures::{Async, Future, Poll};
use htrpc::pool::{RpcClientPool, RpcClientPoolHandle};
use htrpc::types::{EntryPoint, HttpMethod, NeverFail, PathSegment};
use htrpc::{BodyReader, Error, FutureExt, HandleRpc, Procedure, ReadBody, RpcClient, RpcRequest, RpcResponse, RpcServerBuilder};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::Cell;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A text whose (de)serialization is application code.
#[derive(Debug, Clone)]
pub struct Text(String);
impl Serialize for Text {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        gate(Gate::Serialize);
        self.0.serialize(s)
    }
}
impl<'de> Deserialize<'de> for Text {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        gate(Gate::Deserialize);
        Ok(Text(String::deserialize(d)?))
    }
}
#[derive(Serialize, Deserialize)]
pub struct Req {
    path: (Text,),
    query: Query,
    #[serde(skip)]
    body: Vec<u8>,
}
#[derive(Serialize, Deserialize)]
struct Query {
    n: u32,
}
#[derive(Serialize, Deserialize)]
struct Head {
    #[serde(rename = "X-Text")]
    text: Text,
}
#[derive(Serialize, Deserialize)]
pub struct Res {
    status: u16,
    header: Head,
    #[serde(skip)]
    body: Vec<u8>,
}
impl RpcRequest for Req {
    fn body(&mut self) -> Vec<u8> {
        gate(Gate::Body);
        std::mem::take(&mut self.body)
    }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        gate(Gate::ReadBody);
        Box::new(body.read_all_bytes().map_err(Error::from).map(move |(r, b)| {
            self.body = b;
            (r, self)
        }))
    }
}
struct Bytes(Vec<u8>, AtomicBool);
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        // (How often the bytes are looked at is nobody's business.)
        if !self.1.swap(true, Ordering::SeqCst) {
            gate(Gate::Bytes);
        }
        &self.0
    }
}
impl RpcResponse for Res {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        gate(Gate::Body);
        Box::new(Bytes(std::mem::take(&mut self.body), AtomicBool::new(false)))
    }
    fn set_body(&mut self, b: Vec<u8>) {
        gate(Gate::SetBody);
        self.body = b
    }
}

/// A handler which may be sent to another thread, but not be used by two of them at once.
pub struct Handler {
    /// How many threads are using this value.
    users: Cell<usize>,
    clones: Cell<u32>,
    watch: Arc<AtomicUsize>,
}
impl Handler {
    fn new() -> Self {
        Handler { users: Cell::new(0), clones: Cell::new(0), watch: Arc::new(AtomicUsize::new(0)) }
    }
}
impl Clone for Handler {
    fn clone(&self) -> Self {
        // (The watch belongs to this value only, see below.)
        if self.watch.fetch_add(1, Ordering::SeqCst) != 0 {
            world::report("two threads use the registered handler at the same time".into());
        }
        gate(Gate::CloneBegin);
        self.users.set(self.users.get() + 1);
        self.clones.set(self.clones.get() + 1);
        gate(Gate::CloneEnd);
        self.users.set(self.users.get() - 1);
        self.watch.fetch_sub(1, Ordering::SeqCst);
        Handler::new()
    }
}
/// A logger whose drain is application code.
struct Drain;
impl slog::Drain for Drain {
    type Ok = ();
    type Err = slog::Never;
    fn log(&self, _: &slog::Record, _: &slog::OwnedKVList) -> Result<(), slog::Never> {
        gate(Gate::Log);
        Ok(())
    }
}
pub struct Later(Option<Res>);
impl Future for Later {
    type Item = Res;
    type Error = NeverFail;
    fn poll(&mut self) -> Poll<Res, NeverFail> {
        gate(Gate::Poll);
        Ok(Async::Ready(self.0.take().expect("polled after the end")))
    }
}
fn answer(name: &str, r: Req) -> Later {
    gate(Gate::Handle);
    let mut body = format!("{}:{}:", name, r.query.n).into_bytes();
    body.extend(r.body);
    Later(Some(Res { status: 200, header: Head { text: r.path.0 }, body }))
}
macro_rules! procedure {
    ($n:ident, $m:ident, $p:expr) => {
        pub struct $n;
        impl Procedure for $n {
            type Request = Req;
            type Response = Res;
            fn method() -> HttpMethod {
                HttpMethod::$m
            }
            fn entry_point() -> EntryPoint {
                gate(Gate::Definition);
                static S: &[PathSegment] = &[PathSegment::Val($p), PathSegment::Var];
                EntryPoint::new(S)
            }
        }
        impl HandleRpc<$n> for Handler {
            type Future = Later;
            fn handle_rpc(self, r: Req) -> Later {
                answer($p, r)
            }
        }
    };
}
procedure!(Echo, Post, "echo");
procedure!(Other, Put, "other");
procedure!(Plain, Get, "echo");

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    /// A request to the server, by raw bytes, whose connection is served by the thread of the lane.
    Echo,
    Other,
    Plain,
    Refused,
    Unknown,
    /// Two requests on one connection.
    Twice,
    /// A call by a client which runs on the thread of the lane.
    Call,
    Pooled,
    /// Like that, to another server.
    Elsewhere,
}
#[derive(Debug, Clone)]
pub struct Case {
    pub family: &'static str,
    pub lanes: Vec<Kind>,
    pub gates: Vec<Gate>,
}

pub fn cases(thorough: bool) -> Vec<Case> {
    use Gate::*;
    use Kind::*;
    let mut out = Vec::new();
    let mut add = |family, lanes: &[Kind], gates: &[Gate]| out.push(Case { family, lanes: lanes.to_vec(), gates: gates.to_vec() });
    let served = [Echo, Other, Plain, Refused, Unknown, Twice];
    // The code of the application on the way of a request.
    let way: &[Gate] = &[Deserialize, ReadBody, Handle, Poll, Serialize, Body, Bytes];
    for a in served {
        for b in served {
            if a == Twice || b == Twice {
                let g: &[Gate] = if thorough { &[CloneBegin, CloneEnd, Handle, Body] } else { &[CloneBegin, Handle] };
                add("requests on two threads", &[a, b], g);
            } else {
                add("requests on two threads", &[a, b], &[CloneBegin, CloneEnd, Deserialize, Handle, Body]);
            }
        }
    }
    for a in served {
        for b in served {
            add("logger and definitions", &[a, b], &[Log, Definition, Handle]);
        }
    }
    for (a, b) in [(Echo, Echo), (Echo, Other), (Echo, Plain)] {
        add("all the code of a request", &[a, b], way);
    }
    for g in way.iter().chain(&[CloneBegin, CloneEnd, Log, Definition]) {
        for a in [Echo, Other, Plain] {
            for b in [Echo, Other] {
                for c in [Echo, Twice] {
                    add("requests on three threads", &[a, b, c], &[*g]);
                }
            }
        }
    }
    if thorough {
        for (i, g) in way.iter().enumerate() {
            for h in &way[i + 1..] {
                add("requests on three threads", &[Echo, Echo, Other], &[*g, *h]);
            }
        }
        add("requests on four threads", &[Echo, Echo, Other, Plain], &[Handle]);
        add("requests on four threads", &[Echo, Echo, Echo, Echo], &[Body]);
        add("requests on four threads", &[Echo, Other, Echo, Other], &[Deserialize]);
    }
    let calls = [Call, Pooled, Elsewhere];
    let mine: &[Gate] = &[Serialize, Body, Deserialize, SetBody];
    for a in calls {
        for b in calls {
            add("calls on two threads", &[a, b], mine);
        }
    }
    for (i, g) in mine.iter().enumerate() {
        for a in calls {
            for b in calls {
                add("calls on three threads", &[a, b, Pooled], std::slice::from_ref(g));
                for h in mine[i + 1..].iter().filter(|_| thorough) {
                    add("calls on three threads", &[a, b, Pooled], &[*g, *h]);
                }
            }
        }
    }
    out
}

const LANES: usize = 4;
pub struct Machine {
    world: Arc<World>,
    lanes: Vec<InPlaceExecutorHandle>,
    server: InPlaceExecutorHandle,
    next: Arc<AtomicUsize>,
    gated: SocketAddr,
    quiet: [SocketAddr; 2],
    stop: Arc<AtomicBool>,
}
/// Gives the n-th connection to the n-th lane.
struct ByLane(Mutex<Vec<InPlaceExecutorHandle>>, Arc<AtomicUsize>);
impl Spawn for ByLane {
    fn spawn_boxed(&self, fiber: Box<dyn Future<Item = (), Error = ()> + Send>) {
        let lanes = self.0.lock().unwrap();
        let n = self.1.fetch_add(1, Ordering::SeqCst);
        lanes[n % lanes.len()].spawn_boxed(fiber)
    }
}
fn executor(stop: &Arc<AtomicBool>, lane: Option<(Arc<World>, usize)>) -> InPlaceExecutorHandle {
    let (tx, rx) = std::sync::mpsc::channel();
    let stop = Arc::clone(stop);
    std::thread::Builder::new()
        .spawn(move || {
            let mut e = InPlaceExecutor::new().unwrap();
            if let Some((w, i)) = lane {
                world::enter(&w, i);
            }
            tx.send(e.handle()).unwrap();
            while !stop.load(Ordering::SeqCst) {
                e.run_once().unwrap();
            }
        })
        .unwrap();
    rx.recv().unwrap()
}
/// An address of the loopback network which nobody else uses.
fn address() -> SocketAddr {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    loop {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        let port = 4_000 + std::process::id() % 20_000;
        let a = SocketAddr::from(([127, 2 + (n >> 16) as u8, (n >> 8) as u8, n as u8], port as u16));
        if std::net::TcpListener::bind(a).is_ok() {
            return a;
        }
    }
}
fn connect(a: SocketAddr) -> TcpStream {
    let limit = Instant::now() + Duration::from_secs(20);
    loop {
        match TcpStream::connect(a) {
            Ok(s) => {
                s.set_nodelay(true).unwrap();
                // (No port is left in TIME_WAIT.)
                let l = libc::linger { l_onoff: 1, l_linger: 0 };
                unsafe {
                    libc::setsockopt(
                        s.as_raw_fd(),
                        libc::SOL_SOCKET,
                        libc::SO_LINGER,
                        &l as *const _ as *const libc::c_void,
                        std::mem::size_of::<libc::linger>() as libc::socklen_t,
                    );
                }
                s.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
                return s;
            }
            Err(e) if Instant::now() > limit => panic!("cannot connect: {}", e),
            Err(_) => std::thread::sleep(Duration::from_millis(1)),
        }
    }
}
impl Machine {
    pub fn new() -> Machine {
        let world = World::new(LANES);
        let stop = Arc::new(AtomicBool::new(false));
        let lanes: Vec<_> = (0..LANES).map(|i| executor(&stop, Some((Arc::clone(&world), i)))).collect();
        let server = executor(&stop, None);
        let next = Arc::new(AtomicUsize::new(0));
        let serve = |a: SocketAddr, gated: bool| {
            let mut b = RpcServerBuilder::new(a);
            b.set_logger(slog::Logger::root(Drain, slog::o!()));
            b.register(Handler::new(), Echo).unwrap();
            b.register(Handler::new(), Other).unwrap();
            b.register(Handler::new(), Plain).unwrap();
            let s = if gated {
                b.start(ByLane(Mutex::new(lanes.clone()), Arc::clone(&next)))
            } else {
                b.start(server.clone())
            };
            server.spawn(s.map_err(|e| eprintln!("server: {}", e)));
        };
        let gated = address();
        serve(gated, true);
        let quiet = [address(), address()];
        serve(quiet[0], false);
        serve(quiet[1], false);
        for a in [gated, quiet[0], quiet[1]] {
            drop(connect(a));
        }
        let m = Machine { world, lanes, server, next, gated, quiet, stop };
        let limit = Instant::now() + Duration::from_secs(20);
        while m.next.load(Ordering::SeqCst) < 1 && Instant::now() < limit {
            std::thread::sleep(Duration::from_millis(1));
        }
        m
    }
    pub fn execute(&mut self, case: &Case, choices: &[usize]) -> (Outcome, Result<(), String>) {
        let n = case.lanes.len();
        self.next.store(0, Ordering::SeqCst);
        // The connections of the lanes.
        let mut streams = Vec::new();
        for k in &case.lanes {
            streams.push(match k {
                Kind::Call | Kind::Pooled | Kind::Elsewhere => None,
                _ => {
                    let before = self.next.load(Ordering::SeqCst);
                    let s = connect(self.gated);
                    let limit = Instant::now() + Duration::from_secs(20);
                    while self.next.load(Ordering::SeqCst) == before && Instant::now() < limit {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                    Some(s)
                }
            });
        }
        let mut pool = RpcClientPool::new();
        pool.set_connect_timeout(Duration::from_secs(60));
        let pooled = pool.handle();
        // (The pool and its connections go away at the end of the execution.)
        let (end, ended) = fibers::sync::oneshot::channel::<()>();
        self.server.spawn(pool.map_err(|_| ()).select(ended.map_err(|_| ())).then(|_| Ok(())));
        self.world.prepare(&case.gates, n);
        let start = |i: usize| self.start(i, case.lanes[i], streams[i].as_ref(), &pooled);
        let o = self.world.run(choices, n, &start);
        self.world.release();
        let _ = end.send(());
        let r = match &o.results {
            Err(m) => Err(m.clone()),
            Ok(rs) => rs.iter().enumerate().try_for_each(|(i, r)| {
                let want = expected(i, case.lanes[i]);
                if *r == want {
                    Ok(())
                } else {
                    Err(format!("lane {} got {:?} instead of {:?}", i, r, want))
                }
            }),
        };
        (o, r)
    }
    fn start(&self, i: usize, kind: Kind, stream: Option<&TcpStream>, pool: &RpcClientPoolHandle) {
        let world = Arc::clone(&self.world);
        if let Some(s) = stream {
            let mut s = s.try_clone().unwrap();
            std::thread::spawn(move || {
                let count = if kind == Kind::Twice { 2 } else { 1 };
                let r = s.write_all(&request(i, kind)).map_err(|e| e.to_string()).and_then(|()| {
                    (0..count).map(|_| response(&mut s)).collect::<Result<Vec<_>, _>>()
                });
                world.finished(i, r.map(|v| v.join("|")).unwrap_or_else(|e| format!("failed: {}", e)));
            });
            return;
        }
        let to = self.quiet[(kind == Kind::Elsewhere) as usize];
        let pool = pool.clone();
        let f = futures::lazy(move || {
            let r = Req { path: (Text(format!("p {}", i)),), query: Query { n: i as u32 }, body: vec![b'x'; 10 + i] };
            let call: Box<dyn Future<Item = Res, Error = Error> + Send> = if kind == Kind::Call {
                Box::new(RpcClient::new(to).call::<Echo>(r))
            } else {
                Box::new(pool.client(to).call::<Echo>(r))
            };
            call.then(move |r| {
                world.finished(
                    i,
                    match r {
                        Ok(r) => format!("{} {} {}", r.status, r.header.text.0, String::from_utf8_lossy(&r.body)),
                        Err(e) => format!("failed: {}", e),
                    },
                );
                Ok(())
            })
        });
        self.lanes[i].spawn(f);
    }
}
impl Drop for Machine {
    fn drop(&mut self) {
        self.world.release();
        self.stop.store(true, Ordering::SeqCst);
    }
}
fn request(i: usize, kind: Kind) -> Vec<u8> {
    let (method, path) = match kind {
        Kind::Other => ("PUT", format!("/other/p{}?n={}", i, i)),
        Kind::Plain => ("GET", format!("/echo/p{}?n={}", i, i)),
        Kind::Refused => ("POST", format!("/echo/p{}?n=no", i)),
        Kind::Unknown => ("POST", format!("/nothing/p{}?n={}", i, i)),
        _ => ("POST", format!("/echo/p{}?n={}", i, i)),
    };
    let body = "x".repeat(10 + i);
    let mut r = format!("{} {} HTTP/1.1\r\nContent-Length: {}\r\n\r\n{}", method, path, body.len(), body);
    if kind == Kind::Twice {
        r = r.repeat(2);
    }
    r.into_bytes()
}
/// What has to come back: the status, the header and the body.
fn expected(i: usize, kind: Kind) -> String {
    let body = "x".repeat(10 + i);
    let text = if matches!(kind, Kind::Call | Kind::Pooled | Kind::Elsewhere) { "p " } else { "p" };
    let one = match kind {
        Kind::Other => format!("200 p{} other:{}:{}", i, i, body),
        Kind::Refused => "400".to_string(),
        Kind::Unknown => "404".to_string(),
        _ => format!("200 {}{} echo:{}:{}", text, i, i, body),
    };
    if kind == Kind::Twice {
        format!("{}|{}", one, one)
    } else {
        one
    }
}
fn response(s: &mut TcpStream) -> Result<String, String> {
    let mut head = Vec::new();
    let mut byte = [0];
    while !head.ends_with(b"\r\n\r\n") {
        if s.read(&mut byte).map_err(|e| e.to_string())? == 0 {
            return Err("closed".into());
        }
        head.push(byte[0]);
    }
    let head = String::from_utf8_lossy(&head).into_owned();
    let field = |n: &str| {
        head.lines()
            .filter_map(|l| l.split_once(':'))
            .find(|(k, _)| k.eq_ignore_ascii_case(n))
            .map(|(_, v)| v.trim().to_string())
            .unwrap_or_default()
    };
    let mut body = vec![0; field("content-length").parse::<usize>().map_err(|e| e.to_string())?];
    s.read_exact(&mut body).map_err(|e| e.to_string())?;
    let status = head.split(' ').nth(1).unwrap_or("").to_string();
    Ok(if status == "200" {
        format!("{} {} {}", status, field("x-text"), String::from_utf8_lossy(&body))
    } else {
        status
    })
}
