//! The simulated network: state, operations used by the sockets, and the interface of the explorer.
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::io::{self, ErrorKind};
use std::net::{IpAddr, Ipv4Addr, Shutdown, SocketAddr};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Source {
    Sock(usize),
    Listener(usize),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Side {
    Client,
    Server,
}
impl Side {
    pub fn other(self) -> Side {
        match self {
            Side::Client => Side::Server,
            Side::Server => Side::Client,
        }
    }
    fn ix(self) -> usize {
        self as usize
    }
}

/// Outcome of a `connect`.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ConnectAns {
    /// Completes in the background (the usual case).
    Later,
    /// Established when `connect` returns.
    Now,
    /// `connect` itself fails.
    ErrNow(ErrorKind),
    /// The attempt fails in the background.
    ErrLater(ErrorKind),
    /// No answer from the network, ever.
    Silent,
    /// Established only when the explorer calls `complete_connect`.
    Held,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum IoAns {
    /// At most this many bytes are transferred.
    Upto(usize),
    /// At most this many bytes are transferred, and the next call would block once.
    UptoThenBlock(usize),
    WouldBlock,
    Err(ErrorKind),
    /// (read only) the stream ends here, as if the peer had closed it.
    Eof,
}

/// Answers of the environment. Default methods give the plain behaviour.
pub trait Env {
    fn on_connect(&mut self, _addr: SocketAddr, listening: bool) -> ConnectAns {
        if listening {
            ConnectAns::Later
        } else {
            ConnectAns::ErrLater(ErrorKind::ConnectionRefused)
        }
    }
    fn on_accept(&mut self, _addr: SocketAddr) -> Option<ErrorKind> {
        None
    }
    fn on_read(&mut self, _conn: usize, _side: Side, avail: usize, _buf: usize) -> IoAns {
        IoAns::Upto(avail)
    }
    fn on_write(&mut self, _conn: usize, _side: Side, len: usize) -> IoAns {
        IoAns::Upto(len)
    }
}
pub struct PlainEnv;
impl Env for PlainEnv {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ConnState {
    Connecting,
    Silent,
    Held,
    Failed(ErrorKind),
    FailPending(ErrorKind),
    Established,
}

#[derive(Debug, Default)]
pub struct Pipe {
    buf: VecDeque<u8>,
    /// The writer closed its end (FIN after the buffered bytes).
    fin: bool,
    /// The reader gets this error after the buffered bytes.
    err: Option<ErrorKind>,
    block_read: bool,
    block_write: bool,
    /// Bytes which may be buffered before writes would block.
    pub capacity: Option<usize>,
    /// Everything ever written into this direction.
    pub log: Vec<u8>,
    pub read_total: u64,
    pub discarded: u64,
    hash: u64,
}

#[derive(Debug)]
pub struct Conn {
    pub addr: SocketAddr,
    pub client_addr: SocketAddr,
    pub state: ConnState,
    /// `pipes[side]` carries the bytes written by `side`.
    pub pipes: [Pipe; 2],
    /// Whether the socket of each side still exists.
    pub open: [bool; 2],
    pub accepted: bool,
    /// Order of creation and closing, for oracles.
    pub closed_seq: [Option<u64>; 2],
}

#[derive(Debug)]
struct Sock {
    conn: usize,
    side: Side,
    error: Option<ErrorKind>,
}

#[derive(Debug)]
struct Listener {
    addr: SocketAddr,
    backlog: VecDeque<usize>,
    open: bool,
    /// The explorer plays the server at this address.
    raw: bool,
}

#[derive(Debug)]
struct Reg {
    token: usize,
    interest: u8,
    armed: bool,
}

#[derive(Debug, Default)]
pub struct World {
    epoch: u64,
    conns: Vec<Conn>,
    socks: Vec<Sock>,
    listeners: Vec<Listener>,
    regs: BTreeMap<Source, Reg>,
    activity: u64,
    seq: u64,
    next_port: u16,
    connects: Vec<(SocketAddr, u64)>,
    /// Connections before this one are closed on both sides; `dead_hash` stands for them.
    first_live: usize,
    dead_hash: u64,
}

struct Tls {
    world: World,
    env: Option<Box<dyn Env>>,
}
thread_local! {
    static TLS: RefCell<Tls> = RefCell::new(Tls { world: World::default(), env: None });
}

fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    TLS.with(|t| f(&mut t.borrow_mut().world))
}
/// Runs `f` on the environment outside of the world borrow.
fn env<T>(f: impl FnOnce(&mut dyn Env) -> T) -> T {
    let mut e = TLS
        .with(|t| t.borrow_mut().env.take())
        .unwrap_or_else(|| Box::new(PlainEnv));
    let r = f(&mut *e);
    TLS.with(|t| {
        let mut t = t.borrow_mut();
        if t.env.is_none() {
            t.env = Some(e)
        }
    });
    r
}

impl World {
    fn readiness(&self, s: Source) -> u8 {
        match s {
            Source::Listener(id) => {
                let l = &self.listeners[id];
                if l.open && !l.backlog.is_empty() {
                    1
                } else {
                    0
                }
            }
            Source::Sock(id) => {
                let sock = &self.socks[id];
                let c = &self.conns[sock.conn];
                match c.state {
                    ConnState::Connecting | ConnState::FailPending(_) => 0,
                    ConnState::Silent | ConnState::Held => 0,
                    ConnState::Failed(_) => 3,
                    ConnState::Established => {
                        let i = &c.pipes[sock.side.other().ix()];
                        let o = &c.pipes[sock.side.ix()];
                        let mut r = 0;
                        if !i.buf.is_empty() || i.fin || i.err.is_some() {
                            r |= 1;
                        }
                        if o.capacity.map_or(true, |k| o.buf.len() < k)
                            || i.err.is_some()
                            || !c.open[sock.side.other().ix()]
                        {
                            r |= 2;
                        }
                        r
                    }
                }
            }
        }
    }
    fn hash_bytes(p: &mut Pipe, b: &[u8]) {
        for x in b {
            p.hash = (p.hash ^ u64::from(*x)).wrapping_mul(0x1000_0000_01b3);
        }
    }
    fn settle_connects(&mut self) {
        let from = self.first_live;
        for c in &mut self.conns[from..] {
            match c.state {
                ConnState::Connecting => {
                    c.state = ConnState::Established;
                    self.activity += 1;
                }
                ConnState::FailPending(k) => {
                    c.state = ConnState::Failed(k);
                    self.activity += 1;
                }
                _ => {}
            }
        }
    }
    fn new_conn(&mut self, addr: SocketAddr, state: ConnState) -> usize {
        self.next_port = self.next_port.wrapping_add(1);
        let port = 20000 + self.next_port % 40000;
        let client_addr = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1)), port);
        self.conns.push(Conn {
            addr,
            client_addr,
            state,
            pipes: [Pipe::default(), Pipe::default()],
            open: [true, true],
            accepted: false,
            closed_seq: [None, None],
        });
        self.conns.len() - 1
    }
    fn find_listener(&self, addr: SocketAddr) -> Option<usize> {
        self.listeners
            .iter()
            .position(|l| l.open && l.addr == addr)
    }
    fn close_side(&mut self, conn: usize, side: Side) {
        self.seq += 1;
        let seq = self.seq;
        let c = &mut self.conns[conn];
        if !c.open[side.ix()] {
            return;
        }
        self.activity += 1;
        c.open[side.ix()] = false;
        c.closed_seq[side.ix()] = Some(seq);
        c.pipes[side.ix()].fin = true;
        let n = c.pipes[side.other().ix()].buf.len() as u64;
        c.pipes[side.other().ix()].buf.clear();
        c.pipes[side.other().ix()].discarded += n;
    }
}

// ---- operations of the sockets -------------------------------------------------------------

pub(crate) fn connect(addr: SocketAddr) -> io::Result<(u64, usize)> {
    let listening = with(|w| w.find_listener(addr).is_some());
    let ans = env(|e| e.on_connect(addr, listening));
    with(|w| {
        w.seq += 1;
        let seq = w.seq;
        w.connects.push((addr, seq));
        w.activity += 1;
        let state = match ans {
            ConnectAns::Later => ConnState::Connecting,
            ConnectAns::Now => ConnState::Established,
            ConnectAns::ErrNow(k) => return Err(k.into()),
            ConnectAns::ErrLater(k) => ConnState::FailPending(k),
            ConnectAns::Silent => ConnState::Silent,
            ConnectAns::Held => ConnState::Held,
        };
        let conn = w.new_conn(addr, state);
        if matches!(state, ConnState::Connecting | ConnState::Established | ConnState::Held) {
            match w.find_listener(addr) {
                Some(l) => {
                    if state != ConnState::Held {
                        w.listeners[l].backlog.push_back(conn)
                    }
                }
                None => {
                    w.conns[conn].open[Side::Server.ix()] = false;
                    w.conns[conn].pipes[Side::Server.ix()].fin = true;
                }
            }
        }
        w.socks.push(Sock {
            conn,
            side: Side::Client,
            error: None,
        });
        Ok((w.epoch, w.socks.len() - 1))
    })
}
pub(crate) fn peer_addr(epoch: u64, id: usize) -> io::Result<SocketAddr> {
    with(|w| {
        if w.epoch != epoch {
            return Err(ErrorKind::NotConnected.into());
        }
        let s = &w.socks[id];
        let c = &w.conns[s.conn];
        // (the client side would be told so by the connection attempt itself)
        if s.side == Side::Server && c.pipes[Side::Client.ix()].err.is_some() {
            return Err(ErrorKind::NotConnected.into());
        }
        match c.state {
            ConnState::Established => Ok(match s.side {
                Side::Client => c.addr,
                Side::Server => c.client_addr,
            }),
            _ => Err(ErrorKind::NotConnected.into()),
        }
    })
}
pub(crate) fn local_addr(epoch: u64, id: usize) -> io::Result<SocketAddr> {
    with(|w| {
        if w.epoch != epoch {
            return Err(ErrorKind::NotConnected.into());
        }
        let s = &w.socks[id];
        let c = &w.conns[s.conn];
        Ok(match s.side {
            Side::Client => c.client_addr,
            Side::Server => c.addr,
        })
    })
}
pub(crate) fn take_error(epoch: u64, id: usize) -> Option<io::Error> {
    with(|w| {
        if w.epoch != epoch {
            return None;
        }
        if let Some(k) = w.socks[id].error.take() {
            return Some(k.into());
        }
        match w.conns[w.socks[id].conn].state {
            ConnState::Failed(k) => Some(k.into()),
            _ => None,
        }
    })
}
pub(crate) fn read(epoch: u64, id: usize, buf: &mut [u8]) -> io::Result<usize> {
    enum Do {
        Ret(io::Result<usize>),
        Ask(usize, Side, usize),
    }
    let d = with(|w| {
        if w.epoch != epoch {
            return Do::Ret(Err(ErrorKind::NotConnected.into()));
        }
        let s = &w.socks[id];
        let c = &mut w.conns[s.conn];
        match c.state {
            ConnState::Established => {}
            ConnState::Failed(k) => return Do::Ret(Err(k.into())),
            _ => return Do::Ret(Err(ErrorKind::WouldBlock.into())),
        }
        if buf.is_empty() {
            return Do::Ret(Ok(0));
        }
        let p = &mut c.pipes[s.side.other().ix()];
        if p.block_read {
            p.block_read = false;
            w.activity += 1;
            return Do::Ret(Err(ErrorKind::WouldBlock.into()));
        }
        if p.buf.is_empty() {
            return Do::Ret(if let Some(k) = p.err {
                w.activity += 1;
                Err(k.into())
            } else if p.fin {
                w.activity += 1;
                Ok(0)
            } else {
                Err(ErrorKind::WouldBlock.into())
            });
        }
        Do::Ask(s.conn, s.side, p.buf.len())
    });
    let (conn, side, avail) = match d {
        Do::Ret(r) => return r,
        Do::Ask(c, s, n) => (c, s, n),
    };
    let max = avail.min(buf.len());
    let ans = env(|e| e.on_read(conn, side, avail, buf.len()));
    with(|w| {
        w.activity += 1;
        let p = &mut w.conns[conn].pipes[side.other().ix()];
        let n = match ans {
            IoAns::WouldBlock => return Err(ErrorKind::WouldBlock.into()),
            IoAns::Err(k) => {
                p.buf.clear();
                p.err = Some(k);
                return Err(k.into());
            }
            IoAns::Eof => {
                p.buf.clear();
                p.fin = true;
                return Ok(0);
            }
            IoAns::Upto(n) => n,
            IoAns::UptoThenBlock(n) => {
                p.block_read = true;
                n
            }
        };
        let n = n.max(1).min(max);
        for (d, s) in buf.iter_mut().zip(p.buf.drain(..n)) {
            *d = s;
        }
        p.read_total += n as u64;
        Ok(n)
    })
}
pub(crate) fn write(epoch: u64, id: usize, buf: &[u8]) -> io::Result<usize> {
    enum Do {
        Ret(io::Result<usize>),
        Ask(usize, Side, usize),
    }
    let d = with(|w| {
        if w.epoch != epoch {
            return Do::Ret(Err(ErrorKind::NotConnected.into()));
        }
        let s = &w.socks[id];
        let c = &mut w.conns[s.conn];
        match c.state {
            ConnState::Established => {}
            ConnState::Failed(k) => return Do::Ret(Err(k.into())),
            _ => return Do::Ret(Err(ErrorKind::WouldBlock.into())),
        }
        if buf.is_empty() {
            return Do::Ret(Ok(0));
        }
        if c.pipes[s.side.other().ix()].err.is_some() {
            w.activity += 1;
            return Do::Ret(Err(ErrorKind::BrokenPipe.into()));
        }
        if !c.open[s.side.other().ix()] {
            // The bytes leave this host; the peer answers with a reset.
            w.activity += 1;
            c.pipes[s.side.other().ix()].err = Some(ErrorKind::ConnectionReset);
            return Do::Ret(Ok(buf.len()));
        }
        let p = &mut c.pipes[s.side.ix()];
        if p.block_write {
            p.block_write = false;
            w.activity += 1;
            return Do::Ret(Err(ErrorKind::WouldBlock.into()));
        }
        let space = p.capacity.map_or(usize::MAX, |k| k.saturating_sub(p.buf.len()));
        if space == 0 {
            return Do::Ret(Err(ErrorKind::WouldBlock.into()));
        }
        Do::Ask(s.conn, s.side, buf.len().min(space))
    });
    let (conn, side, max) = match d {
        Do::Ret(r) => return r,
        Do::Ask(c, s, n) => (c, s, n),
    };
    let ans = env(|e| e.on_write(conn, side, max));
    with(|w| {
        w.activity += 1;
        let n = match ans {
            IoAns::WouldBlock => return Err(ErrorKind::WouldBlock.into()),
            IoAns::Err(k) => {
                // the connection is gone for both sides
                let c = &mut w.conns[conn];
                c.pipes[side.other().ix()].err = Some(ErrorKind::ConnectionReset);
                c.pipes[side.ix()].err = Some(ErrorKind::ConnectionReset);
                return Err(k.into());
            }
            IoAns::Eof => max,
            IoAns::Upto(n) => n,
            IoAns::UptoThenBlock(n) => {
                w.conns[conn].pipes[side.ix()].block_write = true;
                n
            }
        };
        let n = n.max(1).min(max);
        let p = &mut w.conns[conn].pipes[side.ix()];
        World::hash_bytes(p, &buf[..n]);
        p.log.extend_from_slice(&buf[..n]);
        p.buf.extend(&buf[..n]);
        Ok(n)
    })
}
pub(crate) fn shutdown(epoch: u64, id: usize, how: Shutdown) -> io::Result<()> {
    with(|w| {
        if w.epoch != epoch {
            return Err(ErrorKind::NotConnected.into());
        }
        let (conn, side) = (w.socks[id].conn, w.socks[id].side);
        w.activity += 1;
        if how != Shutdown::Read {
            w.conns[conn].pipes[side.ix()].fin = true;
        }
        if how != Shutdown::Write {
            w.conns[conn].pipes[side.other().ix()].fin = true;
        }
        Ok(())
    })
}
pub(crate) fn drop_sock(epoch: u64, id: usize) {
    let _ = TLS.try_with(|t| {
        if let Ok(mut t) = t.try_borrow_mut() {
            let w = &mut t.world;
            if w.epoch == epoch {
                w.regs.remove(&Source::Sock(id));
                let (conn, side) = (w.socks[id].conn, w.socks[id].side);
                w.close_side(conn, side);
            }
        }
    });
}
pub(crate) fn bind(addr: SocketAddr) -> io::Result<(u64, usize)> {
    with(|w| {
        if w.find_listener(addr).is_some() {
            return Err(ErrorKind::AddrInUse.into());
        }
        w.activity += 1;
        w.listeners.push(Listener {
            addr,
            backlog: VecDeque::new(),
            open: true,
            raw: false,
        });
        Ok((w.epoch, w.listeners.len() - 1))
    })
}
pub(crate) fn accept(epoch: u64, id: usize) -> io::Result<(usize, SocketAddr)> {
    let addr = with(|w| {
        if w.epoch != epoch {
            return Err(ErrorKind::NotConnected.into());
        }
        let l = &w.listeners[id];
        if l.backlog.is_empty() {
            Err(io::Error::from(ErrorKind::WouldBlock))
        } else {
            Ok(l.addr)
        }
    })?;
    if let Some(k) = env(|e| e.on_accept(addr)) {
        return with(|w| {
            w.activity += 1;
            if k == ErrorKind::ConnectionAborted || k == ErrorKind::ConnectionReset {
                // the pending connection is the one which failed
                if let Some(conn) = w.listeners[id].backlog.pop_front() {
                    w.close_side(conn, Side::Server);
                    w.conns[conn].pipes[Side::Server.ix()].err = Some(ErrorKind::ConnectionReset);
                }
            }
            Err(k.into())
        });
    }
    with(|w| {
        w.activity += 1;
        let conn = w.listeners[id].backlog.pop_front().expect("checked");
        w.conns[conn].accepted = true;
        w.conns[conn].state = ConnState::Established;
        let a = w.conns[conn].client_addr;
        w.socks.push(Sock {
            conn,
            side: Side::Server,
            error: None,
        });
        Ok((w.socks.len() - 1, a))
    })
}
pub(crate) fn listener_addr(epoch: u64, id: usize) -> io::Result<SocketAddr> {
    with(|w| {
        if w.epoch != epoch {
            return Err(ErrorKind::NotConnected.into());
        }
        Ok(w.listeners[id].addr)
    })
}
pub(crate) fn drop_listener(epoch: u64, id: usize) {
    let _ = TLS.try_with(|t| {
        if let Ok(mut t) = t.try_borrow_mut() {
            let w = &mut t.world;
            if w.epoch == epoch {
                w.regs.remove(&Source::Listener(id));
                w.listeners[id].open = false;
                let backlog: Vec<usize> = w.listeners[id].backlog.drain(..).collect();
                for c in backlog {
                    w.close_side(c, Side::Server);
                    w.conns[c].pipes[Side::Server.ix()].err = Some(ErrorKind::ConnectionReset);
                }
            }
        }
    });
}
pub(crate) fn arm(epoch: u64, s: Source, token: usize, interest: u8) {
    with(|w| {
        if w.epoch == epoch {
            w.regs.insert(
                s,
                Reg {
                    token,
                    interest,
                    armed: true,
                },
            );
        }
    })
}
pub(crate) fn disarm(epoch: u64, s: Source) {
    with(|w| {
        if w.epoch == epoch {
            w.regs.remove(&s);
        }
    })
}
pub(crate) fn take_events() -> Vec<(usize, u8)> {
    with(|w| {
        w.settle_connects();
        let mut out = Vec::new();
        let keys: Vec<Source> = w.regs.keys().cloned().collect();
        for s in keys {
            let ready = w.readiness(s);
            let r = w.regs.get_mut(&s).expect("key");
            if r.armed && ready & r.interest != 0 {
                r.armed = false;
                out.push((r.token, ready & r.interest));
            }
        }
        out
    })
}

// ---- interface of the explorer ----------------------------------------------------------------

/// Starts a fresh world; sockets of earlier worlds become inert.
pub fn reset(env: Box<dyn Env>) {
    TLS.with(|t| {
        let mut t = t.borrow_mut();
        let epoch = t.world.epoch + 1;
        t.world = World {
            epoch,
            ..World::default()
        };
        t.env = Some(env);
    })
}
pub fn set_env(env: Box<dyn Env>) {
    TLS.with(|t| t.borrow_mut().env = Some(env))
}
/// Whether a `Poll::poll` would report something or complete a connect.
pub fn has_events() -> bool {
    with(|w| {
        w.conns[w.first_live..]
            .iter()
            .any(|c| matches!(c.state, ConnState::Connecting | ConnState::FailPending(_)))
            || w.regs
                .iter()
                .any(|(s, r)| r.armed && w.readiness(*s) & r.interest != 0)
    })
}
/// Grows whenever something observable happens in the network.
pub fn activity() -> u64 {
    with(|w| w.activity)
}
/// All connection attempts so far.
pub fn connects() -> Vec<SocketAddr> {
    with(|w| w.connects.iter().map(|c| c.0).collect())
}
pub fn conn_count() -> usize {
    with(|w| w.conns.len())
}
pub fn with_conn<T>(conn: usize, f: impl FnOnce(&Conn) -> T) -> T {
    with(|w| f(&w.conns[conn]))
}
pub fn with_pipe<T>(conn: usize, writer: Side, f: impl FnOnce(&mut Pipe) -> T) -> T {
    with(|w| f(&mut w.conns[conn].pipes[writer.ix()]))
}
/// Bytes written by `side` and not yet read by the other one.
pub fn unread(conn: usize, writer: Side) -> usize {
    with(|w| w.conns[conn].pipes[writer.ix()].buf.len())
}
/// Connections whose client socket exists.
pub fn open_client_conns(addr: SocketAddr) -> Vec<usize> {
    with(|w| {
        (0..w.conns.len())
            .filter(|&i| {
                w.conns[i].addr == addr
                    && w.conns[i].open[Side::Client.ix()]
                    && w.conns[i].state == ConnState::Established
            })
            .collect()
    })
}
pub fn complete_connect(conn: usize) {
    with(|w| {
        if w.conns[conn].state == ConnState::Held {
            w.activity += 1;
            w.conns[conn].state = ConnState::Connecting;
            let addr = w.conns[conn].addr;
            if let Some(l) = w.find_listener(addr) {
                w.listeners[l].backlog.push_back(conn);
            }
        }
    })
}
/// Makes the explorer the server at `addr`.
pub fn raw_listen(addr: SocketAddr) {
    with(|w| {
        w.listeners.push(Listener {
            addr,
            backlog: VecDeque::new(),
            open: true,
            raw: true,
        })
    })
}
pub fn raw_unlisten(addr: SocketAddr) {
    with(|w| {
        for l in &mut w.listeners {
            if l.addr == addr {
                l.open = false;
            }
        }
    })
}
/// Takes the next connection made to a raw listener.
pub fn raw_accept(addr: SocketAddr) -> Option<usize> {
    with(|w| {
        let l = w
            .listeners
            .iter_mut()
            .find(|l| l.open && l.raw && l.addr == addr)?;
        let conn = l.backlog.pop_front()?;
        w.activity += 1;
        w.conns[conn].accepted = true;
        Some(conn)
    })
}
/// Connects the explorer, as a client, to a listening server.
pub fn raw_connect(addr: SocketAddr) -> Option<usize> {
    with(|w| {
        let l = w.find_listener(addr)?;
        w.activity += 1;
        let conn = w.new_conn(addr, ConnState::Established);
        w.listeners[l].backlog.push_back(conn);
        Some(conn)
    })
}
pub fn raw_send(conn: usize, from: Side, bytes: &[u8]) {
    with(|w| {
        w.activity += 1;
        let c = &mut w.conns[conn];
        if !c.open[from.other().ix()] {
            return;
        }
        let p = &mut c.pipes[from.ix()];
        World::hash_bytes(p, bytes);
        p.log.extend_from_slice(bytes);
        p.buf.extend(bytes);
    })
}
/// Takes everything the explorer's side has received.
pub fn raw_recv(conn: usize, at: Side) -> Vec<u8> {
    with(|w| {
        let p = &mut w.conns[conn].pipes[at.other().ix()];
        if !p.buf.is_empty() {
            w.activity += 1;
        }
        p.read_total += p.buf.len() as u64;
        p.buf.drain(..).collect()
    })
}
/// Whether the other side of the explorer's end has been closed or reset.
pub fn raw_is_closed(conn: usize, at: Side) -> bool {
    with(|w| {
        let p = &w.conns[conn].pipes[at.other().ix()];
        p.fin || p.err.is_some()
    })
}
pub fn raw_close(conn: usize, side: Side) {
    with(|w| w.close_side(conn, side))
}
/// Half close: no more bytes from `side`, which still receives.
pub fn raw_shutdown(conn: usize, side: Side) {
    with(|w| {
        w.activity += 1;
        w.conns[conn].pipes[side.ix()].fin = true;
    })
}
/// Abortive close; `keep` leaves the already sent bytes readable.
pub fn raw_reset(conn: usize, side: Side, keep: bool) {
    with(|w| {
        w.close_side(conn, side);
        let p = &mut w.conns[conn].pipes[side.ix()];
        if !keep {
            p.buf.clear();
        }
        p.err = Some(ErrorKind::ConnectionReset);
    })
}
/// A fingerprint of the network state.
pub fn state_hash() -> u64 {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    fn hash_conn(c: &Conn, h: &mut DefaultHasher) {
        (c.addr.port(), c.open, c.accepted).hash(h);
        std::mem::discriminant(&c.state).hash(h);
        for p in &c.pipes {
            (p.hash, p.buf.len(), p.fin, p.err.is_some(), p.block_read, p.read_total).hash(h);
        }
    }
    with(|w| {
        while w.first_live < w.conns.len() && w.conns[w.first_live].open == [false, false] {
            let mut h = DefaultHasher::new();
            w.dead_hash.hash(&mut h);
            hash_conn(&w.conns[w.first_live], &mut h);
            w.dead_hash = h.finish();
            w.first_live += 1;
        }
        let mut h = DefaultHasher::new();
        w.dead_hash.hash(&mut h);
        for c in &w.conns[w.first_live..] {
            hash_conn(c, &mut h);
        }
        for l in &w.listeners {
            (l.addr.port(), l.open, l.backlog.len()).hash(&mut h);
        }
        for (s, r) in &w.regs {
            (s, r.interest, r.armed).hash(&mut h);
        }
        h.finish()
    })
}
