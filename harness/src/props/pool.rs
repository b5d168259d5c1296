//! C11 to C14: the connection pool against a reference model, over all histories of operations.
use crate::app::*;
use crate::clock;
use crate::dynty::*;
use crate::exec::{self, Actor, Outcome, Sim};
use crate::explore::{self, short, Family};
use crate::http;
use crate::net::Net;
use crate::Tier;
use futures::{Async, Future, Poll};
use htrpc::pool::{RpcClientPool, RpcClientPoolHandle};
use super::args::METHODS;
use super::responses::{build, Form, FORMS, STATUSES};
use htrpc::types::HttpMethod::{self, Get, Head, Post};
use htrpc::Error;
use mio::sim::{self, ConnectAns, Env, IoAns, Side};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::ErrorKind;
use std::net::{IpAddr, Ipv6Addr, SocketAddr, SocketAddrV6};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ---- the environment ---------------------------------------------------------------------------

/// How an address reacts to connection attempts.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Mode {
    Ok,
    /// Established before `connect` returns.
    Now,
    Refuse,
    /// `connect` itself fails.
    RefuseNow,
    /// No answer at all.
    Silent,
    /// Established when the history says so.
    Held,
}
thread_local! {
    static MODES: RefCell<HashMap<SocketAddr, Mode>> = RefCell::new(HashMap::new());
}
pub fn set_mode(a: SocketAddr, m: Mode) {
    MODES.with(|x| {
        x.borrow_mut().insert(a, m);
    })
}
struct World {
    net: Net,
}
impl Env for World {
    fn on_connect(&mut self, a: SocketAddr, _listening: bool) -> ConnectAns {
        match MODES.with(|m| m.borrow().get(&a).cloned().unwrap_or(Mode::Ok)) {
            Mode::Ok => ConnectAns::Later,
            Mode::Now => ConnectAns::Now,
            Mode::Refuse => ConnectAns::ErrLater(ErrorKind::ConnectionRefused),
            Mode::RefuseNow => ConnectAns::ErrNow(ErrorKind::ConnectionRefused),
            Mode::Silent => ConnectAns::Silent,
            Mode::Held => ConnectAns::Held,
        }
    }
    fn on_read(&mut self, conn: usize, side: Side, avail: usize, buf: usize) -> IoAns {
        self.net.on_read(conn, side, avail, buf)
    }
    fn on_write(&mut self, conn: usize, side: Side, len: usize) -> IoAns {
        self.net.on_write(conn, side, len)
    }
}
/// The addresses used: different in port only, in host only, in family.
pub fn addresses() -> Vec<SocketAddr> {
    vec![
        addr(3001),
        addr(3002),
        SocketAddr::from(([127, 0, 0, 2], 3001)),
        SocketAddr::new(IpAddr::V6(Ipv6Addr::LOCALHOST), 3001),
        SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, 1), 3001, 0, 1)),
        SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, 1), 3001, 0, 2)),
        addr(3000),
        SocketAddr::from(([127, 0, 0, 0], 3001)),
    ]
}

// ---- calls which can be abandoned from outside -------------------------------------------------

type Inner = Arc<Mutex<Option<Box<dyn Future<Item = Resp<0>, Error = Error> + Send>>>>;
type Outcomes = Arc<Mutex<Option<(Result<Resp<0>, String>, Duration)>>>;
struct Abortable(Inner, Outcomes);
impl Future for Abortable {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        let mut f = self.0.lock().unwrap();
        let r = match f.as_mut() {
            None => return Ok(Async::Ready(())),
            Some(f) => match f.poll() {
                Ok(Async::NotReady) => return Ok(Async::NotReady),
                Ok(Async::Ready(r)) => Ok(r),
                Err(e) => Err(e.to_string()),
            },
        };
        *f = None;
        *self.1.lock().unwrap() = Some((r, clock::now()));
        tick();
        Ok(Async::Ready(()))
    }
}
/// The pool, which can be dropped from outside.
pub type PoolCell = Arc<Mutex<Option<RpcClientPool>>>;
struct Droppable(PoolCell);
impl Future for Droppable {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        match *self.0.lock().unwrap() {
            None => Ok(Async::Ready(())),
            Some(ref mut p) => p.poll(),
        }
    }
}
#[derive(Clone)]
pub struct CallRec {
    pub a: usize,
    pub started: Duration,
    inner: Inner,
    out: Outcomes,
}
impl CallRec {
    pub fn cancel(&self) {
        let f = self.inner.lock().unwrap().take();
        drop(f);
        tick();
    }
    pub fn result(&self) -> Option<(Result<Resp<0>, String>, Duration)> {
        self.out.lock().unwrap().clone()
    }
    pub fn is_done(&self) -> bool {
        self.out.lock().unwrap().is_some()
    }
}

pub fn drop_pool(p: &PoolCell) {
    let p = p.lock().unwrap().take();
    drop(p);
    tick();
}

#[derive(Debug, Clone, Copy)]
pub struct Config {
    pub size: Option<usize>,
    pub suspend: Option<Duration>,
    pub timeout: Option<Duration>,
}
impl Config {
    pub fn suspend(&self) -> Duration {
        self.suspend.unwrap_or(Duration::from_secs(60))
    }
    pub fn timeout(&self) -> Duration {
        self.timeout.unwrap_or(Duration::from_secs(1))
    }
    pub fn size(&self) -> usize {
        self.size.unwrap_or(1024)
    }
}
pub const DEFAULT: Config = Config {
    size: None,
    suspend: None,
    timeout: None,
};

pub struct Lab {
    pub sim: Sim,
    pub pool: PoolCell,
    pub handle: RpcClientPoolHandle,
    pub addrs: Vec<SocketAddr>,
    pub calls: Vec<CallRec>,
}
pub fn request_body(i: usize) -> Vec<u8> {
    format!("call-{}", i).into_bytes()
}
pub fn response(i: usize) -> Vec<u8> {
    let b = format!("re: call-{}", i);
    format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{}", b.len(), b).into_bytes()
}
pub fn expected(i: usize) -> Resp<0> {
    Resp::<0>::status(200, format!("re: call-{}", i).as_bytes())
}
impl Lab {
    pub fn new(config: Config, addrs: Vec<SocketAddr>, net: Net) -> Lab {
        exec::fresh();
        MODES.with(|m| m.borrow_mut().clear());
        sim::set_env(Box::new(World { net }));
        define(0, Post, ep(&[Some("c")]));
        for a in &addrs {
            sim::raw_listen(*a);
        }
        let mut sim = Sim::new();
        let mut pool = match config.size {
            None => RpcClientPool::new(),
            Some(n) => RpcClientPool::with_pool_size(n),
        };
        if let Some(d) = config.suspend {
            pool.set_suspended_duration(d);
        }
        if let Some(d) = config.timeout {
            pool.set_connect_timeout(d);
        }
        let handle = pool.handle();
        let pool: PoolCell = Arc::new(Mutex::new(Some(pool)));
        sim.spawn("pool", Droppable(Arc::clone(&pool)));
        Lab {
            sim,
            pool,
            handle,
            addrs,
            calls: Vec::new(),
        }
    }
    pub fn start(&mut self, a: usize) -> usize {
        let i = self.calls.len();
        let call = self.handle.client(self.addrs[a]).call::<Dp<0>>(Req {
            body: request_body(i),
            ..Req::default()
        });
        let inner: Inner = Arc::new(Mutex::new(Some(Box::new(call))));
        let out: Outcomes = Arc::new(Mutex::new(None));
        self.calls.push(CallRec {
            a,
            started: clock::now(),
            inner: Arc::clone(&inner),
            out: Arc::clone(&out),
        });
        self.sim.spawn(&format!("call{}", i), Abortable(inner, out));
        i
    }
    /// Lets everything happen which needs no time to pass.
    pub fn settle(&mut self) -> Result<(), String> {
        if self.sim.run_to(clock::now()) == Outcome::StepLimit {
            return Err("does not come to rest".into());
        }
        for a in &self.addrs {
            while sim::raw_accept(*a).is_some() {}
        }
        Ok(())
    }
}
/// The calls whose requests were written to this connection, in order.
pub fn requests_on(conn: usize) -> Result<Vec<usize>, String> {
    let log = sim::with_conn(conn, |c| c.pipes[Side::Client as usize].log.clone());
    let mut rest = &log[..];
    let mut out = Vec::new();
    while !rest.is_empty() {
        match http::parse(rest, false) {
            http::Parsed::Complete(m, n) => {
                let b = String::from_utf8_lossy(&m.body).into_owned();
                let i = b.strip_prefix("call-").and_then(|s| s.parse().ok());
                match i {
                    None => return Err(format!("unexpected request {:?}", m)),
                    Some(i) => out.push(i),
                }
                rest = &rest[n..];
            }
            http::Parsed::Incomplete => break,
            http::Parsed::Bad(e) => return Err(e),
        }
    }
    Ok(out)
}

// ---- the model ---------------------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum St {
    /// Attempted, with this connection of the network.
    Connecting(usize),
    Busy(usize),
    Ok,
    Failed,
    Cancelled,
    /// Nothing is known: the call may use a connection which its server had closed.
    Unknown,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Op {
    Call(usize),
    Answer(usize),
    /// The server closes or resets without a (complete) response.
    Fail(usize, Failure),
    /// A complete response after which the connection is of no use.
    Last(usize, Unclean),
    Cancel(usize),
    /// A call which is abandoned before anything else happens.
    Blink(usize),
    Mode(usize, Mode),
    /// The clock goes to just before / after the next deadline.
    Before,
    After,
    /// A held connection attempt is established.
    Complete(usize),
    KillPool,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Failure {
    Close,
    Reset,
    Partial,
    Garbage,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Unclean {
    UntilEnd,
    Extra,
    /// A second response.
    Second,
}
#[derive(Debug, Clone, Default)]
pub struct Alphabet {
    pub addrs: usize,
    pub busy: usize,
    pub fail: Vec<Failure>,
    pub last: Vec<Unclean>,
    pub cancel: bool,
    pub blink: bool,
    pub modes: Vec<Mode>,
    pub time: bool,
    pub kill: bool,
    pub depth: usize,
}
enum Stop {
    /// Violation of the property under examination.
    Violation(String),
    /// Violation of another one.
    Other,
}
struct Model {
    prop: &'static str,
    config: Config,
    lab: Lab,
    calls: Vec<St>,
    /// Oldest first.
    idle: Vec<(usize, usize)>,
    mode: Vec<Mode>,
    until: Vec<Option<Duration>>,
    pool_alive: bool,
    /// Connections which must not carry anything any more, with the length of what they carried.
    retired: Vec<(usize, usize)>,
}
fn connects_to(a: SocketAddr) -> usize {
    sim::connects().iter().filter(|x| **x == a).count()
}
fn wire(conn: usize) -> usize {
    sim::with_conn(conn, |c| c.pipes[Side::Client as usize].log.len())
}
impl Model {
    fn new(prop: &'static str, config: Config, addrs: Vec<SocketAddr>) -> Model {
        let n = addrs.len();
        Model {
            prop,
            config,
            lab: Lab::new(config, addrs, Net::default()),
            calls: vec![],
            idle: vec![],
            mode: vec![Mode::Ok; n],
            until: vec![None; n],
            pool_alive: true,
            retired: vec![],
        }
    }
    fn fail<T>(&self, props: &[&str], m: String) -> Result<T, Stop> {
        if props.contains(&self.prop) {
            Err(Stop::Violation(m))
        } else {
            Err(Stop::Other)
        }
    }
    fn settle(&mut self) -> Result<(), Stop> {
        self.lab.settle().map_err(Stop::Violation)
    }
    fn suspended(&self, a: usize) -> bool {
        self.until[a].map_or(false, |t| clock::now() < t)
    }
    fn ops(&self, al: &Alphabet) -> Vec<Op> {
        let mut out = Vec::new();
        let active = self.calls.iter().filter(|c| matches!(c, St::Connecting(_) | St::Busy(_))).count();
        // addresses are taken in order
        let used = self.lab.calls.iter().map(|c| c.a + 1).max().unwrap_or(0);
        if active < al.busy {
            for a in 0..al.addrs.min(used + 1) {
                out.push(Op::Call(a));
            }
        }
        if al.blink {
            for a in 0..al.addrs.min(used + 1) {
                // (whether an attempt which fails unnoticed suspends the address is left open)
                if self.suspended(a) || !matches!(self.mode[a], Mode::Refuse | Mode::RefuseNow) {
                    out.push(Op::Blink(a));
                }
            }
        }
        for (i, c) in self.calls.iter().enumerate() {
            if let St::Busy(_) = *c {
                out.push(Op::Answer(i));
                for f in &al.fail {
                    out.push(Op::Fail(i, *f));
                }
                for f in &al.last {
                    out.push(Op::Last(i, *f));
                }
            }
            if let St::Connecting(conn) = *c {
                if sim::with_conn(conn, |c| c.state == sim::ConnState::Held) {
                    out.push(Op::Complete(i));
                }
            }
            if al.cancel && matches!(c, St::Connecting(_) | St::Busy(_)) {
                out.push(Op::Cancel(i));
            }
        }
        for a in 0..al.addrs.min(used + 1) {
            for m in &al.modes {
                if self.mode[a] != *m {
                    out.push(Op::Mode(a, *m));
                }
            }
        }
        if al.time && self.next_deadline().is_some() {
            out.push(Op::Before);
            out.push(Op::After);
        }
        if al.kill && self.pool_alive {
            out.push(Op::KillPool);
        }
        out
    }
    fn next_deadline(&self) -> Option<Duration> {
        let now = clock::now();
        let mut out: Vec<Duration> = self.until.iter().flatten().cloned().collect();
        for (i, c) in self.calls.iter().enumerate() {
            if let St::Connecting(_) = *c {
                out.push(self.lab.calls[i].started + self.config.timeout());
            }
        }
        // not again right in front of it
        out.into_iter().filter(|t| *t > now + Duration::from_millis(1)).min()
    }
    fn apply(&mut self, op: Op) -> Result<(), Stop> {
        match op {
            Op::Mode(a, m) => {
                self.mode[a] = m;
                set_mode(self.lab.addrs[a], m);
                return Ok(());
            }
            Op::Call(a) => self.call(a)?,
            Op::Blink(a) => {
                let target = self.lab.addrs[a];
                let before = sim::connects().len();
                let to_a = connects_to(target);
                let conns = sim::conn_count();
                let i = self.lab.start(a);
                self.lab.calls[i].cancel();
                self.calls.push(St::Cancelled);
                self.settle()?;
                let attempts = sim::connects().len() - before;
                if attempts != connects_to(target) - to_a || attempts > 1 {
                    return self.fail(&["C12", "C13"], format!("the abandoned call {} made {} connection attempts", i, attempts));
                }
                if attempts > 0 && self.suspended(a) {
                    return self.fail(&["C13"], format!("the abandoned call {} attempts to connect to the suspended address {}", i, target));
                }
                for c in conns..sim::conn_count() {
                    self.retire(c);
                }
                // an idle connection may be lost with it
                let open = sim::open_client_conns(target);
                let lost: Vec<usize> = self.idle.iter().filter(|x| x.1 == a && !open.contains(&x.0)).map(|x| x.0).collect();
                if lost.len() <= 1 {
                    self.idle.retain(|x| !lost.contains(&x.0));
                    for c in lost {
                        self.retire(c);
                    }
                }
            }
            Op::Answer(i) => {
                let conn = self.conn_of(i);
                sim::raw_recv(conn, Side::Server);
                sim::raw_send(conn, Side::Server, &response(i));
                self.settle()?;
                self.expect_ok(i)?;
                if self.pool_alive {
                    self.idle.push((conn, self.lab.calls[i].a));
                    if self.idle.len() > self.config.size() {
                        let (c, _) = self.idle.remove(0);
                        self.retire(c);
                    }
                } else {
                    self.retire(conn);
                }
            }
            Op::Last(i, u) => {
                let conn = self.conn_of(i);
                sim::raw_recv(conn, Side::Server);
                match u {
                    Unclean::UntilEnd => {
                        sim::raw_send(conn, Side::Server, format!("HTTP/1.1 200 OK\r\n\r\nre: call-{}", i).as_bytes());
                        sim::raw_close(conn, Side::Server);
                    }
                    Unclean::Extra => {
                        let mut r = response(i);
                        r.extend(b"\r\n");
                        sim::raw_send(conn, Side::Server, &r);
                    }
                    Unclean::Second => {
                        let mut r = response(i);
                        r.extend(response(i + 1));
                        sim::raw_send(conn, Side::Server, &r);
                    }
                }
                self.settle()?;
                self.expect_ok(i)?;
                self.retire(conn);
            }
            Op::Fail(i, f) => {
                let conn = self.conn_of(i);
                sim::raw_recv(conn, Side::Server);
                match f {
                    Failure::Close => sim::raw_close(conn, Side::Server),
                    Failure::Reset => sim::raw_reset(conn, Side::Server, false),
                    Failure::Partial => {
                        let r = response(i);
                        sim::raw_send(conn, Side::Server, &r[..r.len() - 2]);
                        sim::raw_close(conn, Side::Server);
                    }
                    Failure::Garbage => sim::raw_send(conn, Side::Server, b"garbage\r\n\r\n"),
                }
                self.settle()?;
                self.expect_failed(i, clock::now(), clock::now())?;
                self.retire(conn);
            }
            Op::Cancel(i) => {
                let conn = self.conn_of(i);
                self.lab.calls[i].cancel();
                self.settle()?;
                self.calls[i] = St::Cancelled;
                self.retire(conn);
            }
            Op::Complete(i) => {
                let conn = self.conn_of(i);
                sim::complete_connect(conn);
                self.settle()?;
                self.expect_on(i, conn)?;
                self.calls[i] = St::Busy(conn);
            }
            Op::Before | Op::After => {
                let t = self.next_deadline().expect("enabled");
                let ms = Duration::from_millis(1);
                let to = if op == Op::Before { t - ms } else { t + ms };
                if self.lab.sim.run_to(to) == Outcome::StepLimit {
                    return Err(Stop::Violation("does not come to rest".into()));
                }
                let now = clock::now();
                for i in 0..self.calls.len() {
                    if let St::Connecting(conn) = self.calls[i] {
                        let at = self.lab.calls[i].started + self.config.timeout();
                        if at <= now {
                            self.expect_failed(i, at, now)?;
                            let a = self.lab.calls[i].a;
                            self.until[a] = Some(self.until[a].map_or(at, |u| u.max(at)).max(at + self.config.suspend()));
                            self.retire(conn);
                        }
                    }
                }
            }
            Op::KillPool => {
                drop_pool(&self.lab.pool);
                self.pool_alive = false;
                for (c, _) in std::mem::take(&mut self.idle) {
                    self.retire(c);
                }
                self.settle()?;
            }
        }
        self.check()
    }
    fn conn_of(&self, i: usize) -> usize {
        match self.calls[i] {
            St::Busy(c) | St::Connecting(c) => c,
            _ => unreachable!("not enabled"),
        }
    }
    fn retire(&mut self, conn: usize) {
        let n = wire(conn);
        self.retired.push((conn, n));
    }
    fn expect_ok(&mut self, i: usize) -> Result<(), Stop> {
        match self.lab.calls[i].result() {
            Some((Ok(ref r), _)) if *r == expected(i) => {}
            Some((Ok(r), _)) => return self.fail(&["C11"], format!("call {} got {:?}", i, r)),
            Some((Err(e), _)) => return self.fail(&["C11", "C12", "C13", "C14"], format!("call {} failed although it was answered: {}", i, e)),
            None => return self.fail(&["C14"], format!("call {} does not settle although it was answered", i)),
        }
        self.calls[i] = St::Ok;
        Ok(())
    }
    fn expect_failed(&mut self, i: usize, from: Duration, to: Duration) -> Result<(), Stop> {
        match self.lab.calls[i].result() {
            Some((Err(_), t)) => {
                if t > to || t > from + Duration::from_millis(1) {
                    return self.fail(&["C14"], format!("call {} failed only at {:?} instead of {:?}", i, t, from));
                }
                if t < from {
                    return self.fail(&["C13", "C14"], format!("call {} failed at {:?} already, before {:?}", i, t, from));
                }
            }
            Some((Ok(r), _)) => return self.fail(&["C11"], format!("call {} got {:?} although nothing was answered", i, r)),
            None => return self.fail(&["C14"], format!("call {} does not settle", i)),
        }
        self.calls[i] = St::Failed;
        Ok(())
    }
    /// Call `i` must have been sent, on this connection and nowhere else.
    fn expect_on(&self, i: usize, conn: usize) -> Result<(), Stop> {
        let mut at = Vec::new();
        for c in 0..sim::conn_count() {
            for r in requests_on(c).map_err(Stop::Violation)? {
                if r == i {
                    at.push(c);
                }
            }
        }
        if at == [conn] {
            return Ok(());
        }
        if at.is_empty() {
            if let Some((r, _)) = self.lab.calls[i].result() {
                return self.fail(&["C11", "C12", "C13", "C14"], format!("call {} settled without being sent: {}", i, short(&format!("{:?}", r))));
            }
            return self.fail(&["C14"], format!("call {} was not sent", i));
        }
        self.fail(&["C11", "C12"], format!("call {} was sent on connections {:?} instead of {}", i, at, conn))
    }
    fn call(&mut self, a: usize) -> Result<(), Stop> {
        let target = self.lab.addrs[a];
        let before = sim::connects().len();
        let to_a = connects_to(target);
        let conns = sim::conn_count();
        let i = self.lab.start(a);
        let now = clock::now();
        self.calls.push(St::Unknown);
        self.settle()?;
        let attempts = sim::connects().len() - before;
        let attempts_a = connects_to(target) - to_a;
        if attempts != attempts_a {
            return self.fail(&["C12", "C11"], format!("call {} to {} made a connection to another address", i, target));
        }
        if attempts > 1 {
            return self.fail(&["C12", "C13"], format!("call {} made {} connection attempts", i, attempts));
        }
        if !self.pool_alive {
            if attempts > 0 {
                return self.fail(&["C14"], format!("call {} made a connection although the pool has stopped", i));
            }
            return self.expect_failed(i, now, now);
        }
        if self.suspended(a) {
            if attempts > 0 {
                return self.fail(&["C13"], format!("call {} attempts to connect to the suspended address {}", i, target));
            }
            return match self.lab.calls[i].result() {
                Some((Err(_), _)) => self.expect_failed(i, now, now),
                r => self.fail(&["C13"], format!("call {} to the suspended address {} does not fail immediately: {:?}", i, target, r)),
            };
        }
        let candidates: Vec<usize> = self.idle.iter().filter(|x| x.1 == a).map(|x| x.0).collect();
        if !candidates.is_empty() {
            if attempts > 0 {
                return self.fail(&["C12"], format!("call {} opened a connection to {} although there was an idle one", i, target));
            }
            for c in candidates {
                if requests_on(c).map_err(Stop::Violation)?.contains(&i) {
                    self.expect_on(i, c)?;
                    self.idle.retain(|x| x.0 != c);
                    self.calls[i] = St::Busy(c);
                    return Ok(());
                }
            }
            for c in 0..sim::conn_count() {
                if requests_on(c).map_err(Stop::Violation)?.contains(&i) {
                    return self.fail(&["C11", "C12"], format!("call {} to {} was sent on connection {}, which is not an idle one of that address", i, target, c));
                }
            }
            return match self.lab.calls[i].result() {
                Some((r, _)) => self.fail(&["C11", "C12", "C13", "C14"], format!("call {} settled without being sent: {}", i, short(&format!("{:?}", r)))),
                None => self.fail(&["C12", "C14"], format!("call {} to {} was not sent although there was an idle connection", i, target)),
            };
        }
        if attempts == 0 {
            for c in 0..sim::conn_count() {
                if requests_on(c).map_err(Stop::Violation)?.contains(&i) {
                    return self.fail(&["C11", "C12"], format!("call {} to {} was sent on connection {}", i, target, c));
                }
            }
            return match self.lab.calls[i].result() {
                Some((r, _)) => self.fail(
                    &["C13"],
                    format!("call {} to {}, which is not suspended, settled without a connection attempt: {}", i, target, short(&format!("{:?}", r))),
                ),
                None => self.fail(&["C14", "C13"], format!("call {} to {} neither connects nor settles", i, target)),
            };
        }
        let conn = (conns..sim::conn_count()).find(|c| sim::with_conn(*c, |x| x.addr == target));
        match self.mode[a] {
            Mode::Ok | Mode::Now => {
                let conn = match conn {
                    None => return self.fail(&["C12", "C14"], format!("call {}: no connection", i)),
                    Some(c) => c,
                };
                self.expect_on(i, conn)?;
                self.calls[i] = St::Busy(conn);
            }
            Mode::Refuse | Mode::RefuseNow => {
                self.expect_failed(i, now, now)?;
                self.until[a] = Some(now + self.config.suspend());
            }
            Mode::Silent | Mode::Held => {
                if let Some((r, _)) = self.lab.calls[i].result() {
                    if self.config.timeout() == Duration::from_secs(0) && r.is_err() {
                        self.calls[i] = St::Failed;
                        self.until[a] = Some(now + self.config.suspend());
                        return Ok(());
                    }
                    return self.fail(&["C13", "C14"], format!("call {} settled while connecting: {:?}", i, r));
                }
                let conn = match conn {
                    None => return self.fail(&["C12", "C14"], format!("call {}: no connection", i)),
                    Some(c) => c,
                };
                self.calls[i] = St::Connecting(conn);
            }
        }
        Ok(())
    }
    /// Compares the whole observable state.
    fn check(&mut self) -> Result<(), Stop> {
        for (i, c) in self.calls.iter().enumerate() {
            if matches!(c, St::Busy(_) | St::Connecting(_)) {
                if let Some((r, t)) = self.lab.calls[i].result() {
                    return self.fail(&["C11", "C12", "C13", "C14"], format!("call {} settled at {:?} for no reason: {}", i, t, short(&format!("{:?}", r))));
                }
            }
        }
        let mut expected: Vec<usize> = self.idle.iter().map(|x| x.0).collect();
        for c in &self.calls {
            if let St::Busy(c) = *c {
                expected.push(c);
            }
        }
        expected.sort();
        let mut open: Vec<usize> = self.lab.addrs.iter().flat_map(|a| sim::open_client_conns(*a)).collect();
        open.sort();
        for c in &open {
            if !expected.contains(c) {
                return self.fail(&["C12"], format!("connection {} is still held (limit {}, idle should be {:?})", c, self.config.size(), self.idle));
            }
        }
        for c in &expected {
            if !open.contains(c) {
                return self.fail(&["C12"], format!("connection {} was closed, although it is not the one to be closed (idle should be {:?}, limit {})", c, self.idle, self.config.size()));
            }
        }
        for (c, n) in &self.retired {
            if wire(*c) != *n {
                return self.fail(&["C11"], format!("connection {} is used again", c));
            }
        }
        Ok(())
    }
}
/// Explores every sequence of operations of the given length.
pub fn history(prop: &'static str, config: Config, addrs: &[SocketAddr], al: &Alphabet, prefix: &[Op]) -> Result<(), String> {
    let mut m = Model::new(prop, config, addrs.to_vec());
    let mut done: Vec<Op> = Vec::new();
    let mut out = Ok(());
    for k in 0..al.depth + prefix.len() {
        let op = if k < prefix.len() {
            prefix[k]
        } else {
            let ops = m.ops(al);
            if ops.is_empty() {
                break;
            }
            ops[explore::choose_free(ops.len(), &|| format!("{:?}", ops))]
        };
        explore::note(|| format!("[{:?}] {:?}", clock::now(), op));
        done.push(op);
        match m.apply(op) {
            Ok(()) => {}
            Err(Stop::Other) => break,
            Err(Stop::Violation(e)) => {
                out = Err(format!("{} after {:?}", e, done));
                break;
            }
        }
    }
    out
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
fn script(prop: &'static str, config: Config, addrs: &[SocketAddr], ops: &[Op]) -> Result<(), String> {
    history(prop, config, addrs, &Alphabet::default(), ops)
}
fn sized(n: usize) -> Config {
    Config {
        size: Some(n),
        ..DEFAULT
    }
}

// ---- C12 ---------------------------------------------------------------------------------------

pub fn c12(tier: Tier) -> Vec<Family> {
    let mut out = Vec::new();
    out.push(Family::list("shapes of calls", 0, shapes(tier), |x| shaped("C12", x)));
    out.push(Family::list("shapes of failing calls", 0, useless(tier), replaced));
    // every history of calls and completions
    let mut cases = Vec::new();
    for size in 0..=3usize {
        for addrs in 1..=3usize {
            cases.push((size, addrs));
        }
    }
    let depth = tier.pick(7, 9);
    out.push(Family::list("histories", 0, cases, move |(size, addrs)| {
        let al = Alphabet {
            addrs: *addrs,
            busy: 3,
            depth,
            ..Alphabet::default()
        };
        history("C12", sized(*size), &addresses()[..*addrs], &al, &[])
    }));
    // with losses and cancellations
    let depth = tier.pick(5, 7);
    out.push(Family::list("histories with losses", 0, vec![0usize, 1, 2], move |size| {
        let al = Alphabet {
            addrs: 2,
            busy: 2,
            fail: vec![Failure::Close, Failure::Partial],
            last: vec![Unclean::UntilEnd, Unclean::Extra],
            cancel: true,
            blink: true,
            depth,
            ..Alphabet::default()
        };
        history("C12", sized(*size), &addresses()[..2], &al, &[])
    }));
    // some addresses fail; the connections to the others stay
    let depth = tier.pick(6, 8);
    let mut cases = Vec::new();
    for size in [1usize, 2, 3] {
        for m in [Mode::Refuse, Mode::RefuseNow, Mode::Silent] {
            cases.push((size, m));
        }
    }
    out.push(Family::list("histories with failing addresses", 0, cases, move |(size, m)| {
        let al = Alphabet {
            addrs: 2,
            busy: 2,
            modes: vec![Mode::Ok, *m],
            time: true,
            depth,
            ..Alphabet::default()
        };
        history("C12", sized(*size), &addresses()[..2], &al, &[])
    }));
    let mut cases = Vec::new();
    for a in 0..addresses().len() {
        for b in 0..addresses().len() {
            for m in [Mode::Refuse, Mode::RefuseNow, Mode::Silent] {
                if a != b {
                    cases.push((addresses()[a], addresses()[b], m));
                }
            }
        }
    }
    out.push(Family::list("failing neighbours", 0, cases, |(a, b, m)| {
        for n in 1..=3 {
            let mut ops: Vec<Op> = (0..n).map(|_| Op::Call(0)).collect();
            ops.extend((0..n).map(Op::Answer));
            ops.extend([Op::Mode(1, *m), Op::Call(1)]);
            if *m == Mode::Silent {
                ops.push(Op::After);
            }
            ops.extend((0..=n).map(|_| Op::Call(0)));
            ops.push(Op::Call(1));
            script("C12", DEFAULT, &[*a, *b], &ops)?;
        }
        Ok(())
    }));
    // n calls at once, completed in every order, then taken again in every order of addresses
    let n = tier.pick(4usize, 5);
    let all = addresses();
    let mut cases = Vec::new();
    let groups: Vec<Vec<usize>> = vec![vec![0, 1, 2], vec![0, 3, 4], vec![4, 5, 0], vec![6, 0, 7]];
    for g in &groups {
        for size in 0..=n {
            cases.push((g.clone(), size));
        }
    }
    let all2 = all.clone();
    out.push(Family::list("release orders", 0, cases, move |(g, size)| {
        let addrs: Vec<SocketAddr> = g.iter().map(|i| all2[*i]).collect();
        for p in permutations(n) {
            for k in 0..3usize.pow(n as u32) {
                let assign: Vec<usize> = (0..n).map(|i| k / 3usize.pow(i as u32) % 3).collect();
                let mut ops: Vec<Op> = assign.iter().map(|a| Op::Call(*a)).collect();
                ops.extend(p.iter().map(|i| Op::Answer(*i)));
                for a in [2usize, 1, 0, 0, 1, 2] {
                    ops.push(Op::Call(a));
                }
                script("C12", sized(*size), &addrs, &ops)?;
            }
        }
        Ok(())
    }));
    // all pairs of addresses: neither uses the connections of the other, both reuse their own
    let mut cases = Vec::new();
    for a in 0..all.len() {
        for b in 0..all.len() {
            if a != b {
                cases.push((all[a], all[b]));
            }
        }
    }
    out.push(Family::list("pairs of addresses", 0, cases, |(a, b)| {
        let addrs = [*a, *b];
        let orders: &[&[Op]] = &[
            &[Op::Call(0), Op::Answer(0), Op::Call(1), Op::Answer(1), Op::Call(0), Op::Answer(2), Op::Call(1), Op::Call(0)],
            &[Op::Call(0), Op::Answer(0), Op::Call(1), Op::Answer(1), Op::Call(1), Op::Answer(2), Op::Call(0), Op::Call(0)],
            &[Op::Call(0), Op::Call(1), Op::Answer(1), Op::Answer(0), Op::Call(0), Op::Call(1), Op::Answer(2), Op::Answer(3), Op::Call(1), Op::Call(0)],
            &[Op::Call(0), Op::Call(0), Op::Call(1), Op::Call(1), Op::Answer(1), Op::Answer(3), Op::Answer(0), Op::Answer(2), Op::Call(1), Op::Call(1), Op::Call(0), Op::Call(0)],
        ];
        for size in 1..=4 {
            for o in orders {
                script("C12", sized(size), &addrs, o)?;
            }
        }
        Ok(())
    }));
    // long histories
    let rounds = tier.pick(300usize, 3000);
    out.push(Family::list("long histories", 0, vec![(0usize, 1usize), (1, 1), (1, 2), (2, 2), (2, 3), (3, 3)], move |(size, addrs)| {
        let mut ops = Vec::new();
        let mut i = 0;
        for r in 0..rounds {
            let n = 1 + r % 3;
            for k in 0..n {
                ops.push(Op::Call((r + k * k) % addrs));
            }
            for k in 0..n {
                ops.push(Op::Answer(i + (k + r) % n));
            }
            i += n;
            if ops.len() >= 900 {
                script("C12", sized(*size), &addresses()[..*addrs], &ops)?;
                ops.clear();
                i = 0;
            }
        }
        script("C12", sized(*size), &addresses()[..*addrs], &ops)
    }));
    // more releases than a 16-bit counter can tell apart
    let releases = tier.pick(70_000usize, 270_000);
    out.push(Family::list("very long histories", 0, vec![1usize, 2], move |size| {
        let addrs = addresses()[..size + 1].to_vec();
        let mut lab = Lab::new(sized(*size), addrs.clone(), Net::default());
        lab.sim.step_limit = usize::MAX as _;
        for r in 0..releases {
            // the connection needed is always the one which was closed last
            let before = sim::conn_count();
            let i = lab.start(r % addrs.len());
            lab.settle()?;
            if sim::conn_count() != before + 1 {
                return Err(format!("after {} releases, the oldest idle connection was kept instead of a newer one", r));
            }
            sim::raw_recv(before, Side::Server);
            sim::raw_send(before, Side::Server, &response(i));
            lab.settle()?;
            match lab.calls[i].result() {
                Some((Ok(ref x), _)) if *x == expected(i) => {}
                other => return Err(format!("call {}: {}", i, short(&format!("{:?}", other)))),
            }
            if r >= *size {
                // (its peer follows the closing)
                let old = before - size;
                if !sim::raw_is_closed(old, Side::Server) {
                    return Err(format!("after {} releases, the connection which was idle longest is still open", r + 1));
                }
                sim::raw_close(old, Side::Server);
            }
            if r % 8192 == 0 || r % 65536 < 8 || r % 65536 > 65527 {
                let open: Vec<usize> = addrs.iter().map(|a| sim::open_client_conns(*a).len()).collect();
                for (k, n) in open.iter().enumerate() {
                    let want = if (r + addrs.len() - k) % addrs.len() < *size && r + 1 >= *size { 1 } else { 0 };
                    if r > addrs.len() && *n != want {
                        return Err(format!("after {} releases: {:?} idle connections by address", r + 1, open));
                    }
                }
            }
        }
        Ok(())
    }));
    // more connections than any usual limit
    out.push(Family::list("many connections", 0, vec![None, Some(0usize), Some(1), Some(7), Some(299), Some(300), Some(301)], |size| {
        let c = Config { size: *size, ..DEFAULT };
        let n = 300;
        let mut ops: Vec<Op> = (0..n).map(|i| Op::Call(i % 3)).collect();
        ops.extend((0..n).map(|i| Op::Answer((i * 7) % n)));
        ops.extend((0..n).map(|i| Op::Call((i * 2) % 3)));
        script("C12", c, &addresses()[..3], &ops)
    }));
    // many at once
    let mut cases = Vec::new();
    for n in (1..=tier.pick(20usize, 60)).chain(tier.pick(vec![65, 129, 257], vec![65, 129, 257, 300, 513, 1001, 1025])) {
        for size in [Some(0usize), Some(1), Some(2), Some(n), None] {
            cases.push((n, size));
        }
    }
    out.push(Family::list("bursts", 0, cases, |(n, size)| {
        for spread in [1usize, 2, 3] {
            burst(*n, *size, spread)?;
        }
        Ok(())
    }));
    // concurrent callers: limits and reuse at rest
    let mut cases = Vec::new();
    for size in 0..=2usize {
        for assign in [[0usize, 0, 0], [0, 0, 1], [0, 1, 0]] {
            cases.push((size, assign));
        }
    }
    out.push(Family::list("schedules", tier.pick(2, 3), cases, |(size, assign)| {
        let mut lab = Lab::new(sized(*size), addresses()[..2].to_vec(), Net::default());
        lab.sim.explore = true;
        add_servers(&mut lab, false);
        for a in assign {
            lab.start(*a);
        }
        at_rest(&mut lab, *size)?;
        // once more: every address with an idle connection is served by it
        let before = sim::connects().len();
        let idle: Vec<usize> = (0..2).map(|a| sim::open_client_conns(lab.addrs[a]).len()).collect();
        let wanted: Vec<usize> = (0..2).map(|a| assign.iter().take(2).filter(|x| **x == a).count()).collect();
        for a in assign.iter().take(2) {
            lab.start(*a);
        }
        at_rest(&mut lab, *size)?;
        let new = sim::connects().len() - before;
        let most: usize = (0..2).map(|a| if idle[a] > 0 { wanted[a].saturating_sub(1) } else { wanted[a] }).sum();
        if new > most {
            return Err(format!("{} new connections for {:?} calls with {:?} idle ones", new, wanted, idle));
        }
        Ok(())
    }));
    out
}
/// Runs to the end; all calls have succeeded, and the pool holds no more than allowed.
fn at_rest(lab: &mut Lab, size: usize) -> Result<(), String> {
    if lab.sim.run() == Outcome::StepLimit {
        return Err("does not come to rest".into());
    }
    for (i, c) in lab.calls.iter().enumerate() {
        match c.result() {
            Some((Ok(ref r), _)) if *r == expected(i) => {}
            other => return Err(format!("call {}: {}", i, short(&format!("{:?}", other)))),
        }
    }
    let open: usize = lab.addrs.iter().map(|a| sim::open_client_conns(*a).len()).sum();
    if open > size {
        return Err(format!("{} idle connections, limit {}", open, size));
    }
    let used = sim::conn_count();
    if open < size.min(used) {
        return Err(format!("{} idle connections of {} (limit {})", open, used, size));
    }
    Ok(())
}

// ---- servers as actors -------------------------------------------------------------------------

/// Answers the requests at one address, one per step; with `faults` in different ways.
struct Server {
    addr: SocketAddr,
    faults: bool,
    conns: Vec<usize>,
    held: HashMap<usize, Vec<u8>>,
    /// (connection, complete requests received, complete responses sent, dead)
    state: HashMap<usize, (usize, usize, bool)>,
}
impl Server {
    fn new(addr: SocketAddr, faults: bool) -> Server {
        Server {
            addr,
            faults,
            conns: vec![],
            held: HashMap::new(),
            state: HashMap::new(),
        }
    }
    fn ready(&mut self) -> Vec<usize> {
        while let Some(c) = sim::raw_accept(self.addr) {
            self.conns.push(c);
        }
        let mut out = Vec::new();
        for c in &self.conns {
            let s = self.state.entry(*c).or_insert((0, 0, false));
            if s.2 {
                continue;
            }
            let n = requests_on(*c).map_or(0, |r| r.len());
            if n > s.1 {
                out.push(*c);
            }
        }
        out
    }
}
impl Actor for Server {
    fn enabled(&mut self) -> bool {
        !self.ready().is_empty()
    }
    fn name(&self) -> String {
        format!("server {}", self.addr)
    }
    fn step(&mut self) {
        let ready = self.ready();
        let c = ready[explore::choose(ready.len(), &|| format!("answer on {:?}", ready))];
        let s = self.state.get_mut(&c).expect("known");
        let i = requests_on(c).unwrap_or_default()[s.1];
        sim::raw_recv(c, Side::Server);
        s.1 += 1;
        let what = if self.faults {
            explore::choose(6, &|| format!("c{}: answer|close|reset|partial|until end|extra", c))
        } else {
            0
        };
        match what {
            0 => sim::raw_send(c, Side::Server, &response(i)),
            1 => sim::raw_close(c, Side::Server),
            2 => sim::raw_reset(c, Side::Server, false),
            3 => {
                let r = response(i);
                sim::raw_send(c, Side::Server, &r[..r.len() - 1]);
                sim::raw_close(c, Side::Server);
            }
            4 => {
                sim::raw_send(c, Side::Server, format!("HTTP/1.1 200 OK\r\n\r\nre: call-{}", i).as_bytes());
                sim::raw_close(c, Side::Server);
            }
            _ => {
                let mut r = response(i);
                r.extend(response(i + 1));
                sim::raw_send(c, Side::Server, &r);
            }
        }
        if what != 0 {
            s.2 = true;
        }
        let _ = &self.held;
        explore::note(|| format!("c{}: call {} answered by {}", c, i, what));
    }
}
fn add_servers(lab: &mut Lab, faults: bool) {
    for a in lab.addrs.clone() {
        lab.sim.add_actor(Box::new(Server::new(a, faults)));
    }
}

/// `n` calls at once, `n` answers at once, `n` calls at once again, and so on.
fn burst(n: usize, size: Option<usize>, spread: usize) -> Result<(), String> {
    let config = Config { size, ..DEFAULT };
    let mut lab = Lab::new(config, addresses()[..spread + 1].to_vec(), Net::default());
    let all = |lab: &mut Lab, calls: &[usize]| -> Result<(), String> {
        let mut on = HashMap::new();
        for c in 0..sim::conn_count() {
            if let Some(i) = requests_on(c)?.last() {
                on.insert(*i, c);
            }
        }
        for i in calls {
            let c = *on.get(i).ok_or_else(|| format!("call {} of {} at once was not sent: {:?}", i, n, lab.calls[*i].result()))?;
            sim::raw_recv(c, Side::Server);
            sim::raw_send(c, Side::Server, &response(*i));
        }
        lab.settle()?;
        for i in calls {
            match lab.calls[*i].result() {
                Some((Ok(ref r), _)) if *r == expected(*i) => {}
                other => return Err(format!("call {} of {} at once: {}", i, n, short(&format!("{:?}", other)))),
            }
        }
        let open: usize = lab.addrs.iter().map(|a| sim::open_client_conns(*a).len()).sum();
        if open > config.size() || open < config.size().min(n) {
            return Err(format!("{} idle connections after {} calls at once (limit {})", open, n, config.size()));
        }
        Ok(())
    };
    for round in 0..3usize {
        let idle: Vec<usize> = lab.addrs.iter().map(|a| sim::open_client_conns(*a).len()).collect();
        let before: Vec<usize> = lab.addrs.iter().map(|a| connects_to(*a)).collect();
        let calls: Vec<usize> = (0..n).map(|k| lab.start((k + round) % spread)).collect();
        if round == 1 {
            // and some which are abandoned at once, elsewhere
            for _ in 0..n {
                let i = lab.start(spread);
                lab.calls[i].cancel();
            }
        }
        lab.settle()?;
        for a in 0..spread {
            let wanted = calls.iter().filter(|i| lab.calls[**i].a == a).count();
            let made = connects_to(lab.addrs[a]) - before[a];
            if made != wanted.saturating_sub(idle[a]) {
                return Err(format!("{} connections were opened for {} calls at once with {} idle connections", made, wanted, idle[a]));
            }
        }
        all(&mut lab, &calls)?;
    }
    // failures at once
    let last = spread;
    set_mode(lab.addrs[last], Mode::Refuse);
    let calls: Vec<usize> = (0..n).map(|_| lab.start(last)).collect();
    lab.settle()?;
    for i in &calls {
        if !matches!(lab.calls[*i].result(), Some((Err(_), _))) {
            return Err(format!("call {} of {} refused ones at once: {:?}", i, n, lab.calls[*i].result()));
        }
    }
    set_mode(lab.addrs[last], Mode::Ok);
    let i = lab.start(last);
    lab.settle()?;
    if !matches!(lab.calls[i].result(), Some((Err(_), _))) {
        return Err(format!("call {} to a suspended address: {:?}", i, lab.calls[i].result()));
    }
    let i = lab.start(0);
    lab.settle()?;
    answer(&mut lab, i)?;
    let later = clock::now() + Duration::from_secs(61);
    go_to(&mut lab, later)?;
    let calls: Vec<usize> = (0..n).map(|_| lab.start(last)).collect();
    lab.settle()?;
    all(&mut lab, &calls)
}

// ---- C13 ---------------------------------------------------------------------------------------

fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn suspended_for(d: Option<Duration>) -> Config {
    Config { suspend: d, ..DEFAULT }
}
/// One call which is expected to be attempted or not, respectively.
fn attempt(lab: &mut Lab, a: usize, expected_attempts: usize) -> Result<usize, String> {
    let before = (sim::connects().len(), connects_to(lab.addrs[a]));
    let i = lab.start(a);
    lab.settle()?;
    let after = (sim::connects().len(), connects_to(lab.addrs[a]));
    if after.0 - before.0 != expected_attempts || after.1 - before.1 != expected_attempts {
        return Err(format!(
            "call {} to {} at {:?} made {} connection attempts ({} to this address) instead of {}; result {}",
            i,
            lab.addrs[a],
            clock::now(),
            after.0 - before.0,
            after.1 - before.1,
            expected_attempts,
            short(&format!("{:?}", lab.calls[i].result()))
        ));
    }
    if expected_attempts == 0 {
        match lab.calls[i].result() {
            Some((Err(_), t)) if t == clock::now() => {}
            other => return Err(format!("call {} to a suspended address does not fail immediately: {:?}", i, other)),
        }
    }
    Ok(i)
}
fn answer(lab: &mut Lab, i: usize) -> Result<(), String> {
    for c in 0..sim::conn_count() {
        if requests_on(c)?.last() == Some(&i) {
            sim::raw_recv(c, Side::Server);
            sim::raw_send(c, Side::Server, &response(i));
            lab.settle()?;
            return match lab.calls[i].result() {
                Some((Ok(ref r), _)) if *r == expected(i) => Ok(()),
                other => Err(format!("call {} got {}", i, short(&format!("{:?}", other)))),
            };
        }
    }
    Err(format!("call {} was not sent: {}", i, short(&format!("{:?}", lab.calls[i].result()))))
}
fn go_to(lab: &mut Lab, t: Duration) -> Result<(), String> {
    if lab.sim.run_to(t) == Outcome::StepLimit {
        return Err("does not come to rest".into());
    }
    Ok(())
}
/// What a call and its response are like.
#[derive(Debug, Clone, Copy)]
struct Shape {
    method: HttpMethod,
    status: (u16, &'static str),
    form: Form,
    /// The status is not among those the caller knows.
    unknown: bool,
    framing: Framing,
    header: bool,
    len: usize,
    step: usize,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Framing {
    Length,
    Chunked,
    /// No body at all.
    Nothing,
    /// Until the end of the connection.
    End,
}
fn shapes(tier: Tier) -> Vec<Shape> {
    let mut out = Vec::new();
    let steps: &[usize] = if tier == Tier::Quick { &[1, 100_000] } else { &[1, 2, 17, 100_000] };
    for step in steps {
        let base = Shape {
            method: Post,
            status: (200, "Ok"),
            form: Form::Status,
            unknown: false,
            framing: Framing::Length,
            header: false,
            len: 3,
            step: *step,
        };
        for status in STATUSES {
            for method in METHODS {
                for len in [0, 3] {
                    out.push(Shape {
                        method: *method,
                        status: *status,
                        len,
                        ..base
                    });
                }
            }
            for method in [Get, Head, Post] {
                for form in FORMS {
                    for unknown in [false, true] {
                        for framing in [Framing::Length, Framing::Chunked, Framing::Nothing] {
                            for header in [false, true] {
                                let bare = status.0 < 200 || status.0 == 204 || status.0 == 304 || method == Head;
                                if (framing != Framing::Nothing || bare) && (framing != Framing::Chunked || !bare) {
                                    let len = if framing == Framing::Nothing { 0 } else { 3 };
                                    out.push(Shape {
                                        method,
                                        status: *status,
                                        form: *form,
                                        unknown,
                                        framing,
                                        header,
                                        len,
                                        ..base
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // (interim responses of which no length is given are followed by others)
    out.retain(|s| s.status.0 >= 200 || (s.framing == Framing::Length && s.method != Head));
    out
}
/// The type of the response, its bytes, what the caller gets, and whether the call fails.
fn prepared(shape: &Shape) -> (RespTy, Vec<u8>, Resp<0>, bool) {
    let body = vec![b'b'; shape.len];
    let header = if shape.header { Some(Fields::Struct(vec![("x-a", s("1"))])) } else { None };
    let (_, mut ty, mut want) = build(shape.form, shape.status.0, shape.status.1, header.clone(), &body);
    let enumeration = matches!(shape.form, Form::Unit | Form::Struct | Form::Newtype);
    if shape.unknown {
        let name = if shape.status.0 == 418 { "Ok" } else { "ImATeapot" };
        match shape.form {
            Form::Unit => ty = RespTy::enums(vec![(name, Variant::Unit)]),
            Form::Struct => ty = RespTy::enums(vec![(name, Variant::Struct(None))]),
            Form::Newtype => ty = RespTy::enums(vec![(name, Variant::Newtype(None))]),
            _ => {}
        }
    }
    if shape.method == Head {
        want.body.clear();
    }
    let mut m = format!("HTTP/1.1 {} X\r\n{}", shape.status.0, if shape.header { "X-A: 1\r\n" } else { "" });
    match shape.framing {
        Framing::Length => m.push_str(&format!("Content-Length: {}\r\n\r\n", shape.len)),
        Framing::Chunked => m.push_str(&format!("Transfer-Encoding: chunked\r\n\r\n")),
        Framing::Nothing | Framing::End => m.push_str("\r\n"),
    }
    let mut m = m.into_bytes();
    if shape.method != Head {
        match shape.framing {
            Framing::Length | Framing::End => m.extend(&body),
            Framing::Chunked => {
                m.extend(format!("{:x}\r\n", shape.len).bytes());
                m.extend(&body);
                m.extend(b"\r\n0\r\n\r\n");
            }
            Framing::Nothing => {}
        }
    }
    (ty, m, want, shape.unknown && enumeration)
}
/// A call of the given shape, then an ordinary one at the same address.
fn shaped(prop: &'static str, shape: &Shape) -> Result<(), String> {
    let fail = |props: &[&str], m: String| if props.contains(&prop) { Err(m) } else { Ok(()) };
    let mut lab = Lab::new(DEFAULT, addresses()[..1].to_vec(), Net::default());
    let (ty, m, want, failing) = prepared(shape);
    define(0, shape.method, ep(&[Some("c")]));
    set_resp(0, ty);
    let i = lab.start(0);
    lab.settle()?;
    if requests_on(0)? != [i] {
        return fail(&["C11", "C14"], "the request was not sent".into());
    }
    sim::raw_recv(0, Side::Server);
    for piece in m.chunks(shape.step) {
        sim::raw_send(0, Side::Server, piece);
        lab.settle()?;
    }
    match lab.calls[i].result() {
        None => fail(&["C14"], "the call does not settle".into())?,
        Some((Ok(ref r), _)) if !failing && *r == want => {}
        Some((Err(_), _)) if failing => {}
        Some((r, _)) => return fail(&["C11"], format!("the caller got {}", short(&format!("{:?}", r)))),
    }
    define(0, Post, ep(&[Some("c")]));
    set_resp(0, RespTy::Status(None));
    let before = sim::connects().len();
    let j = lab.start(0);
    lab.settle()?;
    if let Some((r, _)) = lab.calls[j].result() {
        return fail(&["C13", "C11"], format!("the next call: {}", short(&format!("{:?}", r))));
    }
    let new = sim::connects().len() - before;
    if failing && requests_on(0)?.contains(&j) {
        return fail(&["C11"], "the connection of a failed call was used again".into());
    }
    if !failing && (new > 0 || !requests_on(0)?.contains(&j)) {
        return fail(&["C12"], "the idle connection was not used".into());
    }
    if prop == "C12" {
        return Ok(());
    }
    answer(&mut lab, j)
}
/// Calls after which the connection is of no use, or becomes so.
fn useless(tier: Tier) -> Vec<Shape> {
    let mut out = shapes(tier);
    let steps: &[usize] = if tier == Tier::Quick { &[100_000] } else { &[1, 17, 100_000] };
    for step in steps {
        for status in STATUSES {
            for method in METHODS {
                for form in FORMS {
                    let interim = status.0 < 200;
                    let bare = interim || status.0 == 204 || status.0 == 304 || *method == Head;
                    out.push(Shape {
                        method: *method,
                        status: *status,
                        form: *form,
                        unknown: !bare && *method == Get,
                        framing: if bare { Framing::Nothing } else { Framing::End },
                        header: false,
                        len: if bare { 0 } else { 3 },
                        step: *step,
                    });
                }
            }
        }
    }
    out
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Surplus {
    /// With the response.
    With,
    /// Before the next call is made.
    Before,
    /// When the next call has been made.
    After,
}
/// A call of the given shape on a connection on which more is received than its response.
fn surplus(shape: &Shape, when: Surplus) -> Result<(), String> {
    let (ty, mut m, _, failing) = prepared(shape);
    let interim = shape.status.0 < 200 && shape.framing == Framing::Nothing;
    let end = shape.framing == Framing::End;
    let stale = b"HTTP/1.1 200 OK\r\nContent-Length: 9\r\n\r\nno: stale";
    // (what follows an interim response is the final one, and another one
    // can come only on a connection which is used again)
    if interim || failing {
        if when != Surplus::After {
            return Ok(());
        }
    } else if end || when == Surplus::After {
        return Ok(());
    }
    let mut lab = Lab::new(DEFAULT, addresses()[..1].to_vec(), Net::default());
    define(0, shape.method, ep(&[Some("c")]));
    set_resp(0, ty);
    let i = lab.start(0);
    lab.settle()?;
    sim::raw_recv(0, Side::Server);
    if when == Surplus::With {
        m.extend(stale);
    }
    for piece in m.chunks(shape.step) {
        sim::raw_send(0, Side::Server, piece);
        lab.settle()?;
    }
    if when == Surplus::Before {
        sim::raw_send(0, Side::Server, stale);
        lab.settle()?;
    }
    if !lab.calls[i].is_done() {
        return Ok(());
    }
    define(0, Post, ep(&[Some("c")]));
    set_resp(0, RespTy::Status(None));
    for k in 0..2 {
        let j = lab.start(0);
        lab.settle()?;
        if when == Surplus::After && k == 0 {
            sim::raw_send(0, Side::Server, stale);
            lab.settle()?;
        }
        if requests_on(0)?.contains(&j) {
            return Err(format!("call {} was sent on a connection which is not clean", j));
        }
        answer(&mut lab, j)?;
    }
    Ok(())
}
/// A connection which is of no use does not take the place of one which is.
fn replaced(shape: &Shape) -> Result<(), String> {
    let (ty, m, _, failing) = prepared(shape);
    let interim = shape.status.0 < 200 && shape.framing == Framing::Nothing;
    let end = shape.framing == Framing::End;
    if !failing && !interim && !end {
        return Ok(());
    }
    for size in [1usize, 2] {
        let mut lab = Lab::new(sized(size), addresses()[..2].to_vec(), Net::default());
        let mut first = Vec::new();
        for _ in 0..size {
            first.push(lab.start(1));
        }
        lab.settle()?;
        for i in first {
            answer(&mut lab, i)?;
        }
        define(0, shape.method, ep(&[Some("c")]));
        set_resp(0, ty.clone());
        lab.start(0);
        lab.settle()?;
        let c = sim::conn_count() - 1;
        sim::raw_recv(c, Side::Server);
        for piece in m.chunks(shape.step) {
            sim::raw_send(c, Side::Server, piece);
            lab.settle()?;
        }
        sim::raw_close(c, Side::Server);
        lab.settle()?;
        define(0, Post, ep(&[Some("c")]));
        set_resp(0, RespTy::Status(None));
        let before = sim::connects().len();
        let next: Vec<usize> = (0..size).map(|_| lab.start(1)).collect();
        lab.settle()?;
        if sim::connects().len() != before {
            return Err("a connection of no use took the place of an idle one".into());
        }
        for j in next {
            answer(&mut lab, j)?;
        }
    }
    Ok(())
}
struct FailWith(ErrorKind, bool);
impl Env for FailWith {
    fn on_connect(&mut self, a: SocketAddr, _listening: bool) -> ConnectAns {
        if a != addresses()[0] {
            return ConnectAns::Later;
        }
        if self.1 {
            ConnectAns::ErrNow(self.0)
        } else {
            ConnectAns::ErrLater(self.0)
        }
    }
}
pub fn c13(tier: Tier) -> Vec<Family> {
    let mut out = Vec::new();
    out.push(Family::list("shapes of calls", 0, shapes(tier), |x| shaped("C13", x)));
    let durations: Vec<Option<Duration>> = vec![None, Some(ms(0)), Some(ms(500)), Some(ms(3000)), Some(Duration::from_secs(3600))];
    let depth = tier.pick(7, 9);
    out.push(Family::list("histories", 0, durations.clone(), move |d| {
        let al = Alphabet {
            addrs: 1,
            busy: 2,
            modes: vec![Mode::Ok, Mode::Refuse, Mode::Silent],
            time: true,
            depth,
            ..Alphabet::default()
        };
        history("C13", suspended_for(*d), &addresses()[..1], &al, &[])
    }));
    let depth = tier.pick(5, 7);
    let mut cases = Vec::new();
    for d in durations.iter().take(4) {
        for first in [Mode::Refuse, Mode::RefuseNow, Mode::Silent] {
            cases.push((*d, first));
        }
    }
    out.push(Family::list("two addresses", 0, cases, move |(d, first)| {
        let al = Alphabet {
            addrs: 2,
            busy: 2,
            modes: vec![Mode::Ok, Mode::Refuse],
            time: true,
            cancel: true,
            blink: true,
            depth,
            ..Alphabet::default()
        };
        history("C13", suspended_for(*d), &addresses()[..2], &al, &[Op::Mode(0, *first), Op::Call(0)])
    }));
    let depth = tier.pick(5, 6);
    out.push(Family::list("failures of established connections", 0, vec![Some(0usize), Some(1), None], move |size| {
        let al = Alphabet {
            addrs: 2,
            busy: 2,
            fail: vec![Failure::Close, Failure::Reset, Failure::Partial, Failure::Garbage],
            last: vec![Unclean::UntilEnd, Unclean::Extra],
            cancel: true,
            depth,
            ..Alphabet::default()
        };
        let c = Config { size: *size, ..DEFAULT };
        history("C13", c, &addresses()[..2], &al, &[])
    }));
    let depth = tier.pick(5, 6);
    out.push(Family::list("cancelled attempts", 0, vec![Mode::Silent, Mode::Held], move |mode| {
        let al = Alphabet {
            addrs: 2,
            busy: 2,
            modes: vec![Mode::Ok, *mode],
            cancel: true,
            blink: true,
            time: true,
            depth,
            ..Alphabet::default()
        };
        history("C13", DEFAULT, &addresses()[..2], &al, &[Op::Mode(0, *mode), Op::Call(0)])
    }));
    // the exact duration, with and without idle connections, and the other addresses
    let all = addresses();
    let mut cases = Vec::new();
    for a in 0..all.len() {
        for b in 0..all.len() {
            if a != b {
                cases.push((all[a], all[b]));
            }
        }
    }
    out.push(Family::list("exact durations", 0, cases, |(a, b)| {
        let ns = Duration::from_nanos(1);
        for d in [None, Some(ns), Some(ms(1)), Some(ms(999)), Some(ms(1000)), Some(Duration::new(12, 345_678_901)), Some(Duration::from_secs(86400 * 365))] {
            for (mode, delay) in [(Mode::Refuse, ms(0)), (Mode::RefuseNow, ms(0)), (Mode::Silent, ms(1000))] {
                for idle in [false, true] {
                    let config = suspended_for(d);
                    let mut lab = Lab::new(config, vec![*a, *b], Net::default());
                    go_to(&mut lab, ms(77))?;
                    let mut used = 0;
                    if idle {
                        // two calls at once, so that one connection stays idle
                        let i = attempt(&mut lab, 0, 1)?;
                        let j = attempt(&mut lab, 0, 1)?;
                        answer(&mut lab, i)?;
                        used = j;
                    }
                    let k = attempt(&mut lab, 1, 1)?;
                    answer(&mut lab, k)?;
                    set_mode(*a, mode);
                    if idle {
                        // the idle connection is in use when the attempt fails
                        let i = attempt(&mut lab, 0, 0).err();
                        let _ = i;
                    }
                    let f = attempt(&mut lab, 0, 1)?;
                    let t0 = clock::now() + delay;
                    go_to(&mut lab, t0)?;
                    match lab.calls[f].result() {
                        Some((Err(_), t)) if t == t0 => {}
                        other => return Err(format!("the failing attempt gave {:?} at {:?}", other, clock::now())),
                    }
                    if idle {
                        // an established connection is not affected, and does not end the suspension
                        answer(&mut lab, used)?;
                    }
                    set_mode(*a, Mode::Ok);
                    let until = t0 + config.suspend();
                    for t in [t0, t0 + ns, t0 + (until - t0) / 2, until - ns] {
                        if t < until {
                            go_to(&mut lab, t)?;
                            attempt(&mut lab, 0, 0)?;
                            let k = attempt(&mut lab, 1, 0).or_else(|_| Err("the other address is affected".to_string()));
                            // its connection is idle, so that no attempt is needed; it must be answered
                            match k {
                                Ok(_) => return Err("the other address is affected".into()),
                                Err(_) => {
                                    let k = lab.calls.len() - 1;
                                    answer(&mut lab, k).map_err(|e| format!("the other address is affected: {}", e))?;
                                }
                            }
                        }
                    }
                    go_to(&mut lab, until + ns)?;
                    let k = lab.start(0);
                    lab.settle()?;
                    answer(&mut lab, k).map_err(|e| format!("suspended for too long: {}", e))?;
                    if !idle && connects_to(*a) != 2 {
                        return Err(format!("{} attempts", connects_to(*a)));
                    }
                }
            }
        }
        Ok(())
    }));
    // many addresses at once: no limit makes one of them forget its suspension, or get one
    let mut counts: Vec<usize> = (1..=12).collect();
    counts.extend([16, 17, 20, 32, 33, 50, 64, 65, 100, 101, 128, 129]);
    counts.extend(tier.pick(vec![257, 300], vec![255, 256, 257, 300, 512, 513, 1000, 1024, 1025, 1030]));
    let mut cases = tier.pick(vec![(513, Mode::Refuse, 0), (1025, Mode::Refuse, 0)], vec![(2049, Mode::Refuse, 0)]);
    for n in counts {
        for mode in [Mode::Refuse, Mode::RefuseNow, Mode::Silent] {
            for gap in [0u64, 1, 10] {
                cases.push((n, mode, gap));
            }
        }
    }
    out.push(Family::list("many addresses", 0, cases, |(n, mode, gap)| {
        let d = ms(60_000);
        let addrs: Vec<SocketAddr> = (0..=*n).map(|i| SocketAddr::from(([10, 0, (i / 200) as u8, (i % 200) as u8 + 1], 3000 + (i % 7) as u16))).collect();
        let mut lab = Lab::new(suspended_for(Some(d)), addrs.clone(), Net::default());
        for a in &addrs[..*n] {
            set_mode(*a, *mode);
        }
        let wait = if *mode == Mode::Silent { ms(1000) } else { ms(0) };
        let mut since = Vec::new();
        for i in 0..*n {
            go_to(&mut lab, ms(gap * i as u64))?;
            attempt(&mut lab, i, 1)?;
            since.push(clock::now() + wait);
        }
        let last = since[n - 1];
        go_to(&mut lab, last)?;
        for a in &addrs {
            set_mode(*a, Mode::Ok);
        }
        let k = attempt(&mut lab, *n, 1)?;
        answer(&mut lab, k)?;
        for t in [last, last + d / 2, since[0] + d - ms(1)] {
            go_to(&mut lab, t)?;
            for i in 0..*n {
                attempt(&mut lab, i, 0).map_err(|e| format!("{} addresses are suspended: {}", n, e))?;
            }
        }
        for i in 0..*n {
            go_to(&mut lab, since[i] + d + Duration::from_nanos(1))?;
            attempt(&mut lab, i, 1).map_err(|e| format!("{} addresses were suspended: {}", n, e))?;
            if *gap > 0 && i + 1 < *n {
                attempt(&mut lab, i + 1, 0).map_err(|e| format!("after the suspension of address {} of {}: {}", i, n, e))?;
            }
        }
        Ok(())
    }));
    // attempts at different times: the suspension lasts until the last failure is old enough
    let mut cases = Vec::new();
    for gap in [0u64, 1, 300, 999] {
        for s in [0u64, 100, 700, 5000] {
            for n in 2..=3usize {
                cases.push((gap, s, n));
            }
        }
    }
    out.push(Family::list("overlapping attempts", 0, cases, |(gap, s, n)| {
        let mut lab = Lab::new(suspended_for(Some(ms(*s))), addresses()[..2].to_vec(), Net::default());
        set_mode(lab.addrs[0], Mode::Silent);
        for k in 0..*n {
            if (*gap as usize * k) as u64 >= 1000 {
                break;
            }
            go_to(&mut lab, ms(gap * k as u64))?;
            attempt(&mut lab, 0, 1)?;
        }
        let last = lab.calls.last().expect("one").started + ms(1000);
        go_to(&mut lab, last)?;
        set_mode(lab.addrs[0], Mode::Ok);
        if *s > 0 {
            attempt(&mut lab, 0, 0)?;
            go_to(&mut lab, last + ms(*s) - ms(1))?;
            attempt(&mut lab, 0, 0)?;
        }
        go_to(&mut lab, last + ms(*s) + ms(1))?;
        let i = attempt(&mut lab, 0, 1)?;
        answer(&mut lab, i)
    }));
    // whatever the reason
    let kinds = [
        ErrorKind::ConnectionRefused,
        ErrorKind::ConnectionReset,
        ErrorKind::ConnectionAborted,
        ErrorKind::NotConnected,
        ErrorKind::AddrInUse,
        ErrorKind::AddrNotAvailable,
        ErrorKind::TimedOut,
        ErrorKind::PermissionDenied,
        ErrorKind::InvalidInput,
        ErrorKind::Other,
        ErrorKind::HostUnreachable,
        ErrorKind::NetworkUnreachable,
    ];
    let mut cases = Vec::new();
    for k in kinds {
        for now in [false, true] {
            cases.push((k, now));
        }
    }
    out.push(Family::list("reasons of failure", 0, cases, |(k, now)| {
        let mut lab = Lab::new(DEFAULT, addresses()[..2].to_vec(), Net::default());
        sim::set_env(Box::new(FailWith(*k, *now)));
        let i = attempt(&mut lab, 0, 1)?;
        if !matches!(lab.calls[i].result(), Some((Err(_), _))) {
            return Err(format!("{:?}", lab.calls[i].result()));
        }
        attempt(&mut lab, 0, 0)?;
        let i = attempt(&mut lab, 1, 1)?;
        answer(&mut lab, i)?;
        go_to(&mut lab, Duration::from_secs(59))?;
        attempt(&mut lab, 0, 0)?;
        go_to(&mut lab, Duration::from_secs(61))?;
        attempt(&mut lab, 0, 1)?;
        attempt(&mut lab, 0, 0)?;
        Ok(())
    }));
    // suspensions and timeouts which never end
    let secs: Vec<u64> = vec![86_400 * 365 * 100, 1 << 33, 1 << 40, i64::MAX as u64 - 2_000_000_000, i64::MAX as u64, u64::MAX];
    out.push(Family::list("very long suspensions", 0, secs, |s| {
        let mut lab = Lab::new(suspended_for(Some(Duration::new(*s, 999_999_999))), addresses()[..2].to_vec(), Net::default());
        set_mode(lab.addrs[0], Mode::Refuse);
        attempt(&mut lab, 0, 1)?;
        set_mode(lab.addrs[0], Mode::Ok);
        attempt(&mut lab, 0, 0)?;
        go_to(&mut lab, Duration::from_secs(900_000))?;
        attempt(&mut lab, 0, 0)?;
        let i = attempt(&mut lab, 1, 1)?;
        answer(&mut lab, i)
    }));
    // concurrent callers
    let mut cases = Vec::new();
    for mode in [Mode::Refuse, Mode::RefuseNow, Mode::Silent] {
        for n in 1..=2usize {
            cases.push((mode, n));
        }
    }
    out.push(Family::list("schedules", tier.pick(2, 3), cases, |(mode, n)| {
        let mut lab = Lab::new(DEFAULT, addresses()[..2].to_vec(), Net::default());
        lab.sim.explore = true;
        set_mode(lab.addrs[0], *mode);
        let servers = [lab.addrs[1]];
        for a in servers {
            lab.sim.add_actor(Box::new(Server::new(a, false)));
        }
        for _ in 0..*n {
            lab.start(0);
        }
        let other = lab.start(1);
        if lab.sim.run() == Outcome::StepLimit {
            return Err("does not come to rest".into());
        }
        for i in 0..*n {
            if !matches!(lab.calls[i].result(), Some((Err(_), _))) {
                return Err(format!("call {}: {:?}", i, lab.calls[i].result()));
            }
        }
        if !matches!(lab.calls[other].result(), Some((Ok(ref r), _)) if *r == expected(other)) {
            return Err(format!("the call to the other address: {:?}", lab.calls[other].result()));
        }
        let failed = (0..*n).filter_map(|i| lab.calls[i].result()).map(|r| r.1).max().unwrap_or_default();
        lab.sim.explore = false;
        attempt(&mut lab, 0, 0)?;
        go_to(&mut lab, failed + Duration::from_secs(59))?;
        attempt(&mut lab, 0, 0)?;
        let o = lab.start(1);
        lab.sim.run_to(clock::now());
        if !matches!(lab.calls[o].result(), Some((Ok(_), _))) {
            return Err("the other address is affected".into());
        }
        go_to(&mut lab, failed + Duration::from_secs(61))?;
        attempt(&mut lab, 0, 1)?;
        Ok(())
    }));
    out
}

// ---- C14 ---------------------------------------------------------------------------------------

fn timeout_of(d: Option<Duration>) -> Config {
    Config { timeout: d, ..DEFAULT }
}
/// Drops the pool, or abandons a call, at any moment.
enum Quit {
    Pool(PoolCell),
    Call(CallRec),
}
struct Quitter(Option<Quit>, Arc<Mutex<Option<u64>>>);
impl Actor for Quitter {
    fn enabled(&mut self) -> bool {
        match self.0 {
            None => false,
            Some(Quit::Pool(_)) => true,
            Some(Quit::Call(ref c)) => !c.is_done(),
        }
    }
    fn name(&self) -> String {
        "quit".into()
    }
    fn step(&mut self) {
        *self.1.lock().unwrap() = Some(0);
        match self.0.take() {
            None => {}
            Some(Quit::Pool(p)) => drop_pool(&p),
            Some(Quit::Call(c)) => c.cancel(),
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Who {
    Nobody,
    Pool,
    Call(usize),
}
pub fn c14(tier: Tier) -> Vec<Family> {
    let mut out = Vec::new();
    out.push(Family::list("shapes of calls", 0, shapes(tier), |x| shaped("C14", x)));
    let timeouts: Vec<Option<Duration>> = vec![None, Some(ms(5)), Some(ms(700)), Some(Duration::from_secs(100))];
    let depth = tier.pick(6, 8);
    out.push(Family::list("histories", 0, timeouts.clone(), move |t| {
        let al = Alphabet {
            addrs: 1,
            busy: 3,
            modes: vec![Mode::Ok, Mode::Silent, Mode::Held],
            time: true,
            kill: true,
            depth,
            ..Alphabet::default()
        };
        history("C14", timeout_of(*t), &addresses()[..1], &al, &[])
    }));
    let depth = tier.pick(4, 6);
    let mut cases = Vec::new();
    for t in timeouts.iter().take(3) {
        for m in [Mode::Silent, Mode::Held, Mode::Refuse, Mode::Ok, Mode::Now] {
            cases.push((*t, m));
        }
    }
    out.push(Family::list("two addresses", 0, cases, move |(t, m)| {
        let al = Alphabet {
            addrs: 2,
            busy: 3,
            fail: vec![Failure::Close],
            cancel: true,
            blink: true,
            time: true,
            kill: true,
            depth,
            ..Alphabet::default()
        };
        history("C14", timeout_of(*t), &addresses()[..2], &al, &[Op::Mode(0, *m), Op::Call(0)])
    }));
    // no timeout but that of the connection attempt
    let mut cases = Vec::new();
    for t in &timeouts {
        for m in [Mode::Ok, Mode::Held, Mode::Now] {
            cases.push((*t, m));
        }
    }
    out.push(Family::list("slow servers", 0, cases, |(t, m)| {
        let c = timeout_of(*t);
        if *m == Mode::Held && c.timeout() < ms(2) {
            return Ok(());
        }
        let mut lab = Lab::new(c, addresses()[..1].to_vec(), Net::default());
        set_mode(lab.addrs[0], *m);
        let i = lab.start(0);
        lab.settle()?;
        if *m == Mode::Held {
            go_to(&mut lab, c.timeout() - ms(1))?;
            sim::complete_connect(0);
            lab.settle()?;
        }
        for d in [c.timeout(), c.timeout() + ms(1), Duration::from_secs(60), Duration::from_secs(5000), Duration::from_secs(500_000)] {
            if d > clock::now() {
                go_to(&mut lab, d)?;
            }
            if let Some(r) = lab.calls[i].result() {
                return Err(format!("the call does not wait for its server: {:?}", r));
            }
        }
        answer(&mut lab, i)?;
        // the same for a call on an idle connection
        let i = lab.start(0);
        let t0 = clock::now();
        lab.settle()?;
        for d in [c.timeout(), c.timeout() + ms(1), Duration::from_secs(5000)] {
            go_to(&mut lab, t0 + d)?;
            if let Some(r) = lab.calls[i].result() {
                return Err(format!("the call does not wait for its server: {:?}", r));
            }
        }
        answer(&mut lab, i)
    }));
    // exact timeouts, for several callers
    let mut cases = Vec::new();
    for t in [1u64, 2, 10, 999, 1000, 60_000] {
        for gap in [0u64, 1, 500] {
            for from in 0..addresses().len() {
                cases.push((t, gap, from));
            }
        }
    }
    out.push(Family::list("exact timeouts", 0, cases, |(t, gap, from)| {
        let mut addrs = addresses();
        addrs.rotate_left(*from);
        let mut lab = Lab::new(Config { timeout: Some(ms(*t)), suspend: Some(ms(0)), size: None }, addrs[..3].to_vec(), Net::default());
        set_mode(lab.addrs[0], Mode::Silent);
        set_mode(lab.addrs[1], Mode::Silent);
        for k in 0..4u64 {
            go_to(&mut lab, ms(gap * k))?;
            lab.start((k % 2) as usize);
            // somebody else is not delayed
            let i = lab.start(2);
            lab.settle()?;
            answer(&mut lab, i)?;
        }
        if lab.sim.run() == Outcome::StepLimit {
            return Err("does not come to rest".into());
        }
        for (i, c) in lab.calls.iter().enumerate() {
            let want = c.started + ms(*t);
            match c.result() {
                Some((Err(_), at)) if c.a != 2 => {
                    if at < want || at > want + ms(1) {
                        return Err(format!("call {} failed at {:?} instead of {:?}", i, at, want));
                    }
                }
                Some((Ok(_), at)) if c.a == 2 && at == c.started => {}
                other => return Err(format!("call {}: {:?}", i, other)),
            }
        }
        Ok(())
    }));
    // no time at all
    out.push(Family::list("no time to connect", 0, vec![Mode::Ok, Mode::Held, Mode::Silent, Mode::Refuse], |m| {
        let mut lab = Lab::new(timeout_of(Some(ms(0))), addresses()[..2].to_vec(), Net::default());
        set_mode(lab.addrs[0], *m);
        add_servers(&mut lab, false);
        lab.start(0);
        lab.start(1);
        lab.sim.run();
        for (i, c) in lab.calls.iter().enumerate() {
            match c.result() {
                Some((Err(_), t)) if t == c.started => {}
                Some((Ok(_), _)) if *m == Mode::Ok || i == 1 => {}
                other => return Err(format!("call {}: {:?}", i, other)),
            }
        }
        Ok(())
    }));
    // timeouts which never end
    let secs: Vec<u64> = vec![86_400 * 365 * 100, 1 << 33, 1 << 40, i64::MAX as u64, u64::MAX];
    out.push(Family::list("very long timeouts", 0, secs, |s| {
        let mut lab = Lab::new(timeout_of(Some(Duration::new(*s, 999_999_999))), addresses()[..2].to_vec(), Net::default());
        set_mode(lab.addrs[0], Mode::Held);
        let held = lab.start(0);
        lab.settle()?;
        let i = lab.start(1);
        lab.settle()?;
        answer(&mut lab, i)?;
        go_to(&mut lab, Duration::from_secs(900_000))?;
        if let Some(r) = lab.calls[held].result() {
            return Err(format!("{:?}", r));
        }
        sim::complete_connect(0);
        lab.settle()?;
        answer(&mut lab, held)?;
        let i = lab.start(1);
        lab.settle()?;
        answer(&mut lab, i)
    }));
    // nobody waits for anybody else
    let mut cases = Vec::new();
    for n in [1usize, 5, 50] {
        for m in [Mode::Silent, Mode::Held] {
            for size in [Some(0usize), Some(1), None] {
                cases.push((n, m, size));
            }
        }
    }
    out.push(Family::list("waiting callers", 0, cases, |(n, m, size)| {
        let mut lab = Lab::new(Config { size: *size, ..DEFAULT }, addresses()[..3].to_vec(), Net::default());
        set_mode(lab.addrs[0], *m);
        for _ in 0..*n {
            // waits for the connection
            lab.start(0);
            // waits for the server
            lab.start(1);
            lab.settle()?;
        }
        for k in 0..*n {
            let i = lab.start(2);
            lab.settle()?;
            answer(&mut lab, i)?;
            // abandoned ones
            let i = lab.start(k % 3);
            if k % 2 == 0 {
                lab.settle()?;
            }
            lab.calls[i].cancel();
            lab.settle()?;
            let i = lab.start(1);
            lab.settle()?;
            answer(&mut lab, i)?;
        }
        for i in 0..lab.calls.len() {
            if lab.calls[i].a == 1 && i < 2 * n {
                answer(&mut lab, i)?;
            }
        }
        Ok(())
    }));
    // many at once: calls, then answers, then failures, without a break
    let mut cases = Vec::new();
    for n in (1..=tier.pick(40usize, 130)).chain(tier.pick(vec![65, 101, 129, 257, 300], vec![255, 256, 257, 300, 513, 1001, 1025, 1030])) {
        for size in [Some(0usize), Some(1), None] {
            cases.push((n, size));
        }
    }
    out.push(Family::list("bursts", 0, cases, |(n, size)| {
        for spread in [1usize, 2, 3] {
            burst(*n, *size, spread)?;
        }
        Ok(())
    }));
    // pools which were never started
    out.push(Family::list("pools not running", 0, vec![0usize, 1, 2], |n| {
        exec::fresh();
        define(0, Post, ep(&[Some("c")]));
        sim::raw_listen(addresses()[0]);
        let mut lab = Lab::new(DEFAULT, addresses()[..1].to_vec(), Net::default());
        for _ in 0..*n {
            lab.start(0);
        }
        drop_pool(&lab.pool);
        lab.start(0);
        lab.settle()?;
        for _ in 0..2 {
            lab.start(0);
        }
        let h2 = lab.handle.clone();
        lab.handle = h2;
        lab.settle()?;
        lab.start(0);
        lab.settle()?;
        for (i, c) in lab.calls.iter().enumerate() {
            match c.result() {
                Some((Err(_), t)) if t == c.started => {}
                other => return Err(format!("call {} on a stopped pool: {:?}", i, other)),
            }
        }
        Ok(())
    }));
    // all schedules, with somebody leaving at any moment
    let mut cases = Vec::new();
    for who in [Who::Nobody, Who::Pool, Who::Call(0), Who::Call(1)] {
        for mode in [Mode::Ok, Mode::Now, Mode::Refuse, Mode::RefuseNow, Mode::Silent] {
            for size in [0usize, 1] {
                cases.push((who, mode, size));
            }
        }
    }
    out.push(Family::list("schedules", tier.pick(2, 3), cases, |(who, mode, size)| {
        let mut lab = Lab::new(sized(*size), addresses()[..2].to_vec(), Net::default());
        lab.sim.explore = true;
        lab.sim.race_timers = *mode == Mode::Silent;
        set_mode(lab.addrs[0], *mode);
        add_servers(&mut lab, false);
        lab.start(0);
        lab.start(0);
        lab.start(1);
        let left = Arc::new(Mutex::new(None));
        let quit = match *who {
            Who::Nobody => None,
            Who::Pool => Some(Quit::Pool(Arc::clone(&lab.pool))),
            Who::Call(i) => Some(Quit::Call(lab.calls[i].clone())),
        };
        lab.sim.add_actor(Box::new(Quitter(quit, Arc::clone(&left))));
        if lab.sim.run() == Outcome::StepLimit {
            return Err("does not come to rest".into());
        }
        let left = left.lock().unwrap().is_some();
        let good = matches!(mode, Mode::Ok | Mode::Now);
        for (i, c) in lab.calls.iter().enumerate() {
            match c.result() {
                None => {
                    if !(left && *who == Who::Call(i)) {
                        return Err(format!("call {} does not settle", i));
                    }
                }
                Some((Ok(ref r), _)) if *r == expected(i) && (good || c.a == 1) => {}
                Some((Ok(r), _)) => return Err(format!("call {} got {:?}", i, r)),
                Some((Err(e), t)) => {
                    // time may have passed while the call was waiting for its turn
                    let late = lab.sim.race_timers && t >= c.started + ms(1000);
                    if (good || c.a == 1) && *who != Who::Pool && !late {
                        return Err(format!("call {} failed: {}", i, e));
                    }
                    if !lab.sim.race_timers && t > c.started + ms(1001) {
                        return Err(format!("call {} failed only at {:?}", i, t));
                    }
                }
            }
        }
        // the pool goes on, or fails every call
        lab.sim.explore = false;
        let later = clock::now() + Duration::from_secs(61);
        go_to(&mut lab, later)?;
        let i = lab.start(1);
        lab.sim.run();
        match (lab.calls[i].result(), *who == Who::Pool && left) {
            (Some((Ok(ref r), _)), false) if *r == expected(i) => Ok(()),
            (Some((Err(_), _)), true) => Ok(()),
            (other, _) => Err(format!("afterwards: {:?}", other)),
        }
    }));
    out
}

// ---- C11 ---------------------------------------------------------------------------------------

/// What must hold at every moment: a request is sent on a connection only after all earlier calls
/// on it have succeeded, and every success is the response to that call.
fn discipline(calls: &[CallRec]) -> Result<(), String> {
    for c in 0..sim::conn_count() {
        let len = wire(c);
        if len == 0 {
            continue;
        }
        let on = requests_on(c)?;
        // complete requests; is there a part of another one?
        let log = sim::with_conn(c, |x| x.pipes[Side::Client as usize].log.clone());
        let mut used = 0;
        for _ in &on {
            if let http::Parsed::Complete(_, n) = http::parse(&log[used..], false) {
                used += n;
            }
        }
        let started = on.len() + if used < log.len() { 1 } else { 0 };
        for i in on.iter().take(started - 1) {
            match calls[*i].result() {
                Some((Ok(_), _)) => {}
                other => {
                    return Err(format!(
                        "connection {} carries another request although call {} on it {}",
                        c,
                        i,
                        match other {
                            None => "has not succeeded".to_string(),
                            Some(r) => format!("failed: {}", short(&format!("{:?}", r))),
                        }
                    ))
                }
            }
        }
        for (k, i) in on.iter().enumerate() {
            if on[..k].contains(i) {
                return Err(format!("call {} was sent twice", i));
            }
        }
    }
    for (i, c) in calls.iter().enumerate() {
        if let Some((Ok(r), _)) = c.result() {
            if r != expected(i) {
                return Err(format!("call {} got {}", i, short(&format!("{:?}", r))));
            }
        }
    }
    Ok(())
}
/// Runs with the discipline checked after every step.
fn run_disciplined(lab: &mut Lab) -> Result<(), String> {
    let calls = lab.calls.clone();
    let mut bad = Ok(());
    let mut seen = (0, 0);
    let o = lab.sim.run_while(|_| {
        let now = (sim::activity(), ticks());
        if now != seen {
            seen = now;
            bad = discipline(&calls);
        }
        bad.is_ok()
    });
    bad?;
    discipline(&calls)?;
    if o == Outcome::StepLimit {
        return Err("does not come to rest".into());
    }
    Ok(())
}
pub fn c11(tier: Tier) -> Vec<Family> {
    let mut out = Vec::new();
    out.push(Family::list("shapes of calls", 0, shapes(tier), |x| shaped("C11", x)));
    out.push(Family::list("shapes of calls and surplus bytes", 0, useless(tier), |x| {
        surplus(x, Surplus::With)?;
        surplus(x, Surplus::Before)?;
        surplus(x, Surplus::After)
    }));
    let fails = vec![Failure::Close, Failure::Reset, Failure::Partial, Failure::Garbage];
    let lasts = vec![Unclean::UntilEnd, Unclean::Extra, Unclean::Second];
    let depth = tier.pick(6, 7);
    let (f, l) = (fails.clone(), lasts.clone());
    out.push(Family::list("histories", 0, vec![0usize, 1, 2], move |size| {
        let al = Alphabet {
            addrs: 2,
            busy: 2,
            fail: f.clone(),
            last: l.clone(),
            cancel: true,
            depth,
            ..Alphabet::default()
        };
        history("C11", sized(*size), &addresses()[..2], &al, &[])
    }));
    let depth = tier.pick(8, 10);
    out.push(Family::list("histories at one address", 0, vec![1usize, 2, 1024], move |size| {
        let al = Alphabet {
            addrs: 1,
            busy: 3,
            fail: vec![Failure::Close],
            cancel: true,
            blink: true,
            depth,
            ..Alphabet::default()
        };
        history("C11", sized(*size), &addresses()[..1], &al, &[])
    }));
    let depth = tier.pick(7, 9);
    out.push(Family::list("histories with connection attempts", 0, vec![Mode::Held, Mode::Silent, Mode::Now], move |m| {
        let al = Alphabet {
            addrs: 1,
            busy: 3,
            modes: vec![Mode::Ok, *m],
            cancel: true,
            time: true,
            depth,
            ..Alphabet::default()
        };
        history("C11", DEFAULT, &addresses()[..1], &al, &[])
    }));
    // a call is abandoned or its connection ends at every point of its response
    let mut cases = Vec::new();
    let whole = response(0);
    for cut in 0..=whole.len() {
        for what in 0..4usize {
            cases.push((cut, what));
        }
    }
    out.push(Family::list("interrupted responses", 0, cases, |(cut, what)| {
        for step in [1usize, 3, 1000] {
            let mut lab = Lab::new(DEFAULT, addresses()[..1].to_vec(), Net::default());
            let i = lab.start(0);
            lab.settle()?;
            sim::raw_recv(0, Side::Server);
            let whole = response(i);
            for piece in whole[..*cut].chunks(step) {
                sim::raw_send(0, Side::Server, piece);
                lab.settle()?;
            }
            match *what {
                0 => lab.calls[i].cancel(),
                1 => sim::raw_close(0, Side::Server),
                2 => sim::raw_reset(0, Side::Server, true),
                _ => sim::raw_reset(0, Side::Server, false),
            }
            lab.settle()?;
            let complete = *cut == whole.len();
            let r = lab.calls[i].result();
            if matches!(r, Some((Ok(_), _))) != complete {
                return Err(format!("{:?}", r));
            }
            // the rest arrives; the next calls must not see any of it
            if *what == 0 {
                sim::raw_send(0, Side::Server, &whole[*cut..]);
                lab.settle()?;
            }
            let used = wire(0);
            for _ in 0..2 {
                let j = lab.start(0);
                lab.settle()?;
                if !complete && wire(0) != used {
                    return Err("the connection is used again".into());
                }
                if complete && lab.calls[j].is_done() {
                    // it took the connection which its server has left
                    if !matches!(lab.calls[j].result(), Some((Err(_), _))) {
                        return Err(format!("{:?}", lab.calls[j].result()));
                    }
                    continue;
                }
                answer(&mut lab, j)?;
            }
            discipline(&lab.calls)?;
        }
        Ok(())
    }));
    // idle connections which are lost
    let mut cases = Vec::new();
    for n in 1..=3usize {
        for dead in 0..1usize << n {
            for rst in [false, true] {
                cases.push((n, dead, rst));
            }
        }
    }
    out.push(Family::list("lost idle connections", 0, cases, |(n, dead, rst)| {
        let mut lab = Lab::new(DEFAULT, addresses()[..1].to_vec(), Net::default());
        for _ in 0..*n {
            lab.start(0);
        }
        lab.settle()?;
        for i in 0..*n {
            answer(&mut lab, i)?;
        }
        for c in 0..*n {
            if dead >> c & 1 == 1 {
                if *rst {
                    sim::raw_reset(c, Side::Server, true);
                } else {
                    sim::raw_close(c, Side::Server);
                }
            }
        }
        lab.settle()?;
        let mut failed = 0;
        for _ in 0..n + 2 {
            let j = lab.start(0);
            lab.settle()?;
            match lab.calls[j].result() {
                None => answer(&mut lab, j)?,
                Some((Err(_), _)) => failed += 1,
                other => return Err(format!("{:?}", other)),
            }
        }
        if failed > 0 {
            return Err(format!("{} calls failed, because {} idle connections had been lost before", failed, dead.count_ones()));
        }
        discipline(&lab.calls)
    }));
    // responses and requests of all kinds one after another
    let all: Vec<(&'static str, Vec<u8>)> = vec![
        ("plain", b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc".to_vec()),
        ("empty", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n".to_vec()),
        ("chunked", b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n".to_vec()),
        ("chunked with trailer", b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n2\r\nbc\r\n0\r\nA: b\r\n\r\n".to_vec()),
        ("no content", b"HTTP/1.1 204 No Content\r\n\r\n".to_vec()),
        ("not modified", b"HTTP/1.1 304 Not Modified\r\n\r\n".to_vec()),
        ("error", b"HTTP/1.1 500 Internal Server Error\r\nContent-Length: 2\r\n\r\nno".to_vec()),
        ("interim", b"HTTP/1.1 100 Continue\r\n\r\n".to_vec()),
        ("interim with length", b"HTTP/1.1 102 Processing\r\nContent-Length: 0\r\n\r\n".to_vec()),
        ("until end", b"HTTP/1.1 200 OK\r\n\r\nabc".to_vec()),
        ("large", {
            let mut r = b"HTTP/1.1 200 OK\r\nContent-Length: 20000\r\n\r\n".to_vec();
            r.extend(vec![b'x'; 20000]);
            r
        }),
    ];
    let mut cases = Vec::new();
    for (n, r) in &all {
        for step in [1usize, 7, 100_000] {
            for late in [false, true] {
                // (an interim response of which the length is given is a final one for htrpc)
                if late && *n == "interim with length" {
                    continue;
                }
                cases.push((*n, r.clone(), step, late));
            }
        }
    }
    out.push(Family::list("kinds of responses", 0, cases, |(name, r, step, late)| {
        if *step == 1 && r.len() > 1000 {
            return Ok(());
        }
        let mut lab = Lab::new(DEFAULT, addresses()[..1].to_vec(), Net::default());
        let i = lab.start(0);
        lab.settle()?;
        sim::raw_recv(0, Side::Server);
        for piece in r.chunks(*step) {
            sim::raw_send(0, Side::Server, piece);
            lab.settle()?;
        }
        let end = name.contains("until");
        let interim = name.contains("interim");
        if *late || end {
            if interim {
                // what was announced follows
                sim::raw_send(0, Side::Server, &response(i));
                lab.settle()?;
            } else {
                sim::raw_close(0, Side::Server);
                lab.settle()?;
            }
        }
        if !lab.calls[i].is_done() && !interim {
            return Err("the call does not settle".into());
        }
        for _ in 0..2 {
            let j = lab.start(0);
            lab.settle()?;
            match lab.calls[j].result() {
                None => answer(&mut lab, j)?,
                other => return Err(format!("the next call: {}", short(&format!("{:?}", other)))),
            }
        }
        Ok(())
    }));
    // a connection on which the final response is still to come is not used by others
    out.push(Family::list("interim responses", 0, (100u16..200).collect(), |status| {
        let mut lab = Lab::new(DEFAULT, addresses()[..1].to_vec(), Net::default());
        let i = lab.start(0);
        lab.settle()?;
        sim::raw_recv(0, Side::Server);
        sim::raw_send(0, Side::Server, format!("HTTP/1.1 {} Interim\r\n\r\n", status).as_bytes());
        lab.settle()?;
        let j = lab.start(0);
        lab.settle()?;
        sim::raw_send(0, Side::Server, &response(i));
        lab.settle()?;
        if requests_on(0)?.len() > 1 {
            return Err("the connection was used by another call before the final response".into());
        }
        answer(&mut lab, j)
    }));
    // bytes which do not belong to the response, with it or while the connection is idle
    let surplus: Vec<(&'static str, Vec<u8>)> = vec![
        ("line end", b"\r\n".to_vec()),
        ("one byte", b"x".to_vec()),
        ("another response", response(1)),
        ("two other responses", [response(1), response(2)].concat()),
        ("a part of a response", b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nre".to_vec()),
        ("a part of a head", b"HTTP/1.1 200 OK\r\nContent-".to_vec()),
        ("a lot", vec![b'x'; 20_000]),
    ];
    let mut cases = Vec::new();
    for (n, s) in surplus {
        for at in 0..=whole.len() {
            for then in 0..3usize {
                cases.push((n, s.clone(), at, then));
            }
        }
    }
    out.push(Family::list("surplus bytes", 0, cases, |(name, surplus, at, then)| {
        let mut lab = Lab::new(DEFAULT, addresses()[..1].to_vec(), Net::default());
        let i = lab.start(0);
        lab.settle()?;
        sim::raw_recv(0, Side::Server);
        let whole = response(i);
        sim::raw_send(0, Side::Server, &whole[..*at]);
        lab.settle()?;
        let mut rest = whole[*at..].to_vec();
        if *name == "another response" || *name == "two other responses" {
            // (what the next call must not get)
            rest.extend(String::from_utf8_lossy(surplus).replace("re: call-", "no: call-").bytes());
        } else {
            rest.extend(surplus);
        }
        sim::raw_send(0, Side::Server, &rest);
        lab.settle()?;
        match lab.calls[i].result() {
            Some((Ok(ref r), _)) if *r == expected(i) => {}
            other => return Err(format!("the first call: {}", short(&format!("{:?}", other)))),
        }
        match *then {
            0 => {}
            1 => sim::raw_close(0, Side::Server),
            _ => sim::raw_reset(0, Side::Server, true),
        }
        let mut failed = 0;
        for _ in 0..3 {
            let j = lab.start(0);
            lab.settle()?;
            match lab.calls[j].result() {
                Some((Err(_), _)) => failed += 1,
                Some((Ok(r), _)) => return Err(format!("call {} was not answered, but got {}", j, short(&format!("{:?}", r)))),
                None => {
                    if requests_on(0)?.contains(&j) {
                        return Err(format!("call {} waits for its response after bytes of which none belongs to it", j));
                    }
                    answer(&mut lab, j)?
                }
            }
        }
        if failed > 1 {
            return Err(format!("{} calls failed after the loss of one connection", failed));
        }
        discipline(&lab.calls)
    }));
    // everything at once
    let mut cases = Vec::new();
    for who in [Who::Nobody, Who::Call(0), Who::Call(1), Who::Pool] {
        for size in [0usize, 1, 2] {
            for faults in [false, true] {
                cases.push((who, size, faults));
            }
        }
    }
    out.push(Family::list("schedules", tier.pick(2, 3), cases, |(who, size, faults)| {
        let mut lab = Lab::new(sized(*size), addresses()[..1].to_vec(), Net::default());
        lab.sim.explore = true;
        add_servers(&mut lab, *faults);
        lab.start(0);
        lab.start(0);
        let left = Arc::new(Mutex::new(None));
        let quit = match *who {
            Who::Nobody => None,
            Who::Pool => Some(Quit::Pool(Arc::clone(&lab.pool))),
            Who::Call(i) => Some(Quit::Call(lab.calls[i].clone())),
        };
        lab.sim.add_actor(Box::new(Quitter(quit, Arc::clone(&left))));
        run_disciplined(&mut lab)?;
        // later calls on what is left
        lab.start(0);
        lab.start(0);
        run_disciplined(&mut lab)?;
        lab.start(0);
        run_disciplined(&mut lab)
    }));
    // calls while others are under way
    let mut cases = Vec::new();
    for size in [1usize, 2] {
        for assign in [[0usize, 0, 0], [0, 1, 0], [0, 0, 1]] {
            for io in [false, true] {
                cases.push((size, assign, io));
            }
        }
    }
    out.push(Family::list("overlapping calls", tier.pick(2, 3), cases, |(size, assign, io)| {
        let net = Net { choices: *io, only: Some(0), ..Net::default() };
        let mut lab = Lab::new(sized(*size), addresses()[..2].to_vec(), net);
        lab.sim.explore = true;
        add_servers(&mut lab, false);
        lab.start(assign[0]);
        lab.start(assign[1]);
        // the third one starts as soon as the first one is done
        let first = lab.calls[0].clone();
        let calls = lab.calls.clone();
        let mut bad = Ok(());
        lab.sim.run_while(|_| {
            bad = discipline(&calls);
            bad.is_ok() && !first.is_done()
        });
        bad?;
        lab.start(assign[2]);
        run_disciplined(&mut lab)?;
        for (i, c) in lab.calls.iter().enumerate() {
            if !matches!(c.result(), Some((Ok(_), _))) {
                return Err(format!("call {}: {}", i, short(&format!("{:?}", c.result()))));
            }
        }
        Ok(())
    }));
    // faults of reads and writes
    out.push(Family::list("faults", tier.pick(2, 3), vec![1usize, 2], |size| {
        let net = Net { faults: true, ..Net::default() };
        let mut lab = Lab::new(sized(*size), addresses()[..1].to_vec(), net);
        add_servers(&mut lab, false);
        lab.start(0);
        lab.start(0);
        run_disciplined(&mut lab)?;
        lab.start(0);
        lab.start(0);
        run_disciplined(&mut lab)?;
        for (i, c) in lab.calls.iter().enumerate() {
            if !c.is_done() {
                return Err(format!("call {} does not settle", i));
            }
        }
        Ok(())
    }));
    out
}
