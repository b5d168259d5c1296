//! Replays the traces of the simulated world (produced by `harness`' example `traces`) on htrpc with
//! the real mio and fibers over the loopback network, and compares what can be seen after each step.
#[path = "../procs.rs"]
mod procs;
use fibers::executor::InPlaceExecutor;
use fibers::{Executor, Spawn};
use futures::Future;
use htrpc::pool::RpcClientPool;
use htrpc::{RpcClient, RpcServerBuilder};
use procs::*;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Conn {
    s: Option<TcpStream>,
    got: Vec<u8>,
    closed: bool,
    held: bool,
}
/// A port below those which the system gives to others.
fn free_addr() -> SocketAddr {
    static NEXT: AtomicUsize = AtomicUsize::new(12_000);
    loop {
        let port = 12_000 + NEXT.fetch_add(1, Ordering::SeqCst) % 18_000;
        let a = SocketAddr::from(([127, 0, 0, 1], port as u16));
        if TcpListener::bind(a).is_ok() {
            return a;
        }
    }
}
struct World {
    handle: fibers::executor::InPlaceExecutorHandle,
    pool: htrpc::pool::RpcClientPoolHandle,
    stop: Arc<AtomicBool>,
    thread: Option<std::thread::JoinHandle<()>>,
    server: SocketAddr,
    peers: Vec<(SocketAddr, Option<TcpListener>)>,
    conns: Vec<Conn>,
    calls: Vec<Arc<Mutex<Option<String>>>>,
}
impl World {
    fn new(serve: bool) -> World {
        let server = free_addr();
        let (tx, rx) = std::sync::mpsc::channel();
        let stop = Arc::new(AtomicBool::new(false));
        let s2 = Arc::clone(&stop);
        let thread = std::thread::spawn(move || {
            let mut e = InPlaceExecutor::new().unwrap();
            let pool = RpcClientPool::new();
            let ph = pool.handle();
            e.spawn(pool.map_err(|_| ()));
            if serve {
                let mut b = RpcServerBuilder::new(server);
                register(&mut b);
                let s = b.start(e.handle());
                e.spawn(s.map_err(|e| eprintln!("server: {}", e)));
            }
            tx.send((e.handle(), ph)).unwrap();
            while !s2.load(Ordering::SeqCst) {
                e.run_once().unwrap();
            }
        });
        let (handle, pool) = rx.recv().unwrap();
        let peers = (0..2)
            .map(|_| {
                let l = TcpListener::bind("127.0.0.1:0").unwrap();
                l.set_nonblocking(true).unwrap();
                (l.local_addr().unwrap(), Some(l))
            })
            .collect();
        World { handle, pool, stop, thread: Some(thread), server, peers, conns: Vec::new(), calls: Vec::new() }
    }
    fn add(&mut self, s: TcpStream) {
        s.set_nodelay(true).unwrap();
        self.conns.push(Conn { s: Some(s), got: Vec::new(), closed: false, held: false });
    }
    fn write(&mut self, conn: usize, bytes: &[u8]) {
        let limit = Instant::now() + Duration::from_secs(5);
        let mut at = 0;
        while at < bytes.len() && Instant::now() < limit {
            let Some(s) = self.conns[conn].s.as_mut() else { return };
            s.set_nonblocking(true).unwrap();
            match s.write(&bytes[at..]) {
                Ok(n) => at += n,
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    self.receive();
                    std::thread::sleep(Duration::from_micros(200));
                }
                Err(_) => return,
            }
        }
    }
    fn act(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Connect => {
                let limit = Instant::now() + Duration::from_secs(5);
                loop {
                    match TcpStream::connect(self.server) {
                        Ok(s) => break self.add(s),
                        Err(_) if Instant::now() < limit => std::thread::sleep(Duration::from_millis(2)),
                        Err(e) => return Err(format!("cannot connect: {}", e)),
                    }
                }
            }
            Op::Call { pooled, peer, body, method } => {
                let addr = self.peers[*peer].0;
                let r = request(self.calls.len(), *body);
                let cell = Arc::new(Mutex::new(None));
                let c2 = Arc::clone(&cell);
                self.calls.push(cell);
                macro_rules! call {
                    ($p:ident) => {
                        if *pooled {
                            let f = self.pool.client(addr).call::<$p>(r);
                            self.handle.spawn(f.then(move |r| {
                                *c2.lock().unwrap() = Some(show(r));
                                Ok(())
                            }))
                        } else {
                            let f = RpcClient::new(addr).call::<$p>(r);
                            self.handle.spawn(f.then(move |r| {
                                *c2.lock().unwrap() = Some(show(r));
                                Ok(())
                            }))
                        }
                    };
                }
                match method.as_str() {
                    "POST" => call!(Post),
                    "GET" => call!(Get),
                    _ => call!(HeadP),
                }
            }
            Op::Accept { peer } => {
                let limit = Instant::now() + Duration::from_secs(5);
                loop {
                    match self.peers[*peer].1.as_ref().unwrap().accept() {
                        Ok((s, _)) => break self.add(s),
                        Err(_) if Instant::now() < limit => std::thread::sleep(Duration::from_micros(200)),
                        Err(e) => return Err(format!("cannot accept: {}", e)),
                    }
                }
            }
            Op::Send { conn, bytes } => self.write(*conn, bytes.as_bytes()),
            Op::Fill { conn, n } => self.write(*conn, &vec![b'x'; *n]),
            Op::Half { conn } => {
                let _ = self.conns[*conn].s.as_ref().unwrap().shutdown(Shutdown::Write);
            }
            Op::Close { conn } => {
                self.conns[*conn].s = None;
            }
            Op::Reset { conn } => {
                let s = self.conns[*conn].s.take().unwrap();
                let l = libc::linger { l_onoff: 1, l_linger: 0 };
                unsafe {
                    libc::setsockopt(
                        s.as_raw_fd(),
                        libc::SOL_SOCKET,
                        libc::SO_LINGER,
                        &l as *const _ as *const _,
                        std::mem::size_of::<libc::linger>() as u32,
                    );
                }
            }
            Op::Unlisten { peer } => self.peers[*peer].1 = None,
            Op::Hold { conn } => self.conns[*conn].held = true,
            Op::Read { conn } => self.conns[*conn].held = false,
        }
        Ok(())
    }
    fn receive(&mut self) {
        let mut buf = [0; 65536];
        for c in &mut self.conns {
            if c.held || c.closed {
                continue;
            }
            if let Some(s) = c.s.as_mut() {
                s.set_nonblocking(true).unwrap();
                loop {
                    match s.read(&mut buf) {
                        Ok(0) => {
                            c.closed = true;
                            break;
                        }
                        Ok(n) => c.got.extend(&buf[..n]),
                        Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                        Err(_) => {
                            c.closed = true;
                            break;
                        }
                    }
                }
            }
        }
    }
    fn seen(&mut self) -> Seen {
        self.receive();
        Seen {
            conns: self.conns.iter().map(|c| (String::from_utf8_lossy(&c.got).into_owned(), c.closed)).collect(),
            calls: self.calls.iter().map(|c| c.lock().unwrap().clone()).collect(),
        }
    }
}
impl Drop for World {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        self.handle.spawn(futures::finished(()));
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}
fn cut(s: &Seen) -> String {
    let s = format!("{:?}", s);
    if s.len() > 1500 {
        format!("{}...", s.chars().take(1500).collect::<String>())
    } else {
        s
    }
}
fn replay(t: &Trace) -> Result<(), String> {
    let mut w = World::new(t.steps.iter().any(|s| s.0 == Op::Connect));
    for (i, (op, want)) in t.steps.iter().enumerate() {
        w.act(op).map_err(|e| format!("step {} {:?}: {}", i, op, e))?;
        let limit = Instant::now() + Duration::from_secs(5);
        loop {
            let got = w.seen();
            if got == *want {
                // let the other side come to rest, too
                std::thread::sleep(Duration::from_millis(3));
                break;
            }
            if Instant::now() > limit {
                return Err(format!("step {} {:?}\n  simulated: {}\n  real:      {}", i, op, cut(want), cut(&got)));
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    // nothing more comes
    std::thread::sleep(Duration::from_millis(25));
    let got = w.seen();
    let want = &t.steps.last().unwrap().1;
    if got != *want {
        return Err(format!("at the end\n  simulated: {}\n  real:      {}", cut(want), cut(&got)));
    }
    Ok(())
}
fn main() {
    let file = std::env::args().nth(1).expect("usage: conform TRACES");
    let only = std::env::args().nth(2);
    let text = std::fs::read_to_string(file).expect("read");
    let traces: Vec<Trace> = text
        .lines()
        .map(|l| serde_json::from_str(l).expect("trace"))
        .filter(|t: &Trace| only.as_ref().map_or(true, |o| t.name.contains(o.as_str())))
        .collect();
    let next = AtomicUsize::new(0);
    let bad = AtomicUsize::new(0);
    let steps: usize = traces.iter().map(|t| t.steps.len()).sum();
    std::thread::scope(|s| {
        for _ in 0..32 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                let Some(t) = traces.get(i) else { return };
                if let Err(e) = replay(t) {
                    bad.fetch_add(1, Ordering::SeqCst);
                    println!("DIFFERENT {}: {}", t.name, e);
                }
            });
        }
    });
    let bad = bad.load(Ordering::SeqCst);
    println!("conform: {} traces, {} steps replayed over real sockets, {} differ", traces.len(), steps, bad);
    std::process::exit((bad > 0) as i32);
}
