//! C20: how often a call runs its handler.
use super::args::METHODS;
use super::bodies::End;
use super::pool::{self, requests_on, Lab};
use super::responses::STATUSES;
use super::sequences::tuples;
use crate::app::*;
use crate::dynty::*;
use crate::exec::{self, Handle, Outcome, Sim};
use crate::explore::{self, short, Family};
use crate::http;
use crate::net::{Cut, Net};
use crate::Tier;
use futures::Future;
use htrpc::pool::RpcClientPool;
use htrpc::types::HttpMethod::{self, *};
use htrpc::{RpcClient, RpcServerBuilder};
use mio::sim::{self, ConnectAns, Side};
use std::io::ErrorKind;
use std::time::Duration;

/// The procedures: with a body, without one, slow.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Proc {
    Body,
    Plain,
    Slow,
}
fn id(i: usize) -> String {
    format!("call-{}", i)
}
fn req<const N: usize>(i: usize) -> Req<N> {
    if N == 1 {
        Req {
            path: Some(Path::Tuple(vec![s(&id(i))])),
            ..Req::default()
        }
    } else {
        Req {
            body: id(i).into_bytes(),
            ..Req::default()
        }
    }
}
/// What the procedures are like: their method and status (each has its own by default).
#[derive(Debug, Clone, Copy, Default)]
struct Like {
    method: Option<HttpMethod>,
    status: Option<u16>,
}
impl Like {
    fn method(self, m: HttpMethod) -> HttpMethod {
        self.method.unwrap_or(m)
    }
    fn status<const N: usize>(self) -> u16 {
        self.status.unwrap_or(200 + N as u16)
    }
}
fn resp<const N: usize>(i: usize, like: Like) -> Resp<N> {
    let body = format!("re: {}", id(i));
    Resp::status(like.status::<N>(), if like.method == Some(Head) { b"" } else { body.as_bytes() })
}
fn echo<const N: usize>(r: &Req<N>, like: Like) -> Resp<N> {
    let i = match &r.path {
        Some(Path::Tuple(v)) => match &v[0] {
            V::Str(s) => s.clone(),
            _ => String::new(),
        },
        _ => String::from_utf8_lossy(&r.body).into_owned(),
    };
    Resp::status(like.status::<N>(), format!("re: {}", i).as_bytes())
}
fn serve(sim: &mut Sim, like: Like) -> Handle<Result<(), htrpc::Error>> {
    define(0, like.method(Post), ep(&[Some("o")]));
    define(1, like.method(Get), ep(&[Some("g"), None]));
    define(2, like.method(Put), ep(&[Some("slow")]));
    set_req(1, req::<1>(0).ty());
    let mut b = RpcServerBuilder::new(addr(PORT));
    b.set_logger(crate::app::logger());
    b.register(Handler::now(0, move |r: Req<0>| echo(&r, like)), Dp::<0>::new()).expect("register");
    b.register(Handler::now(1, move |r: Req<1>| echo(&r, like)), Dp::<1>::new()).expect("register");
    b.register(
        Handler::fut(2, move |r: Req<2>| {
            Box::new(
                fibers::time::timer::timeout(Duration::from_millis(500))
                    .map_err(|e| panic!("timer: {:?}", e))
                    .map(move |()| echo(&r, like)),
            )
        }),
        Dp::<2>::new(),
    )
    .expect("register");
    start_server(sim, PORT, b)
}
enum Call {
    P0(Handle<Result<Resp<0>, htrpc::Error>>),
    P1(Handle<Result<Resp<1>, htrpc::Error>>),
    P2(Handle<Result<Resp<2>, htrpc::Error>>),
}
impl Call {
    fn fiber(&self) -> usize {
        match self {
            Call::P0(h) => h.1,
            Call::P1(h) => h.1,
            Call::P2(h) => h.1,
        }
    }
    fn done(&self) -> bool {
        match self {
            Call::P0(h) => h.is_done(),
            Call::P1(h) => h.is_done(),
            Call::P2(h) => h.is_done(),
        }
    }
    /// `Ok(true)`: the expected response.
    fn result(&self, i: usize, like: Like) -> Option<Result<bool, String>> {
        fn map<const N: usize>(i: usize, like: Like, r: Option<Result<Resp<N>, htrpc::Error>>) -> Option<Result<bool, String>> {
            r.map(|r| r.map(|r| r == resp::<N>(i, like)).map_err(|e| e.to_string()))
        }
        match self {
            Call::P0(h) => map(i, like, h.take()),
            Call::P1(h) => map(i, like, h.take()),
            Call::P2(h) => map(i, like, h.take()),
        }
    }
}
fn want_log(p: Proc, i: usize) -> (usize, String) {
    match p {
        Proc::Body => (0, format!("{:?}", req::<0>(i))),
        Proc::Plain => (1, format!("{:?}", req::<1>(i))),
        Proc::Slow => (2, format!("{:?}", req::<2>(i))),
    }
}
struct World {
    sim: Sim,
    server: Handle<Result<(), htrpc::Error>>,
    handle: Option<htrpc::pool::RpcClientPoolHandle>,
    calls: Vec<(Proc, Call, bool)>,
    like: Like,
}
impl World {
    fn new(client: Client, size: usize, net: Net, like: Like) -> World {
        exec::fresh();
        let mut sim = Sim::new();
        let server = serve(&mut sim, like);
        sim.run();
        net.install();
        let handle = match client {
            Client::Plain => None,
            Client::Pooled => {
                let pool = RpcClientPool::with_pool_size(size);
                let h = pool.handle();
                sim.spawn("pool", pool);
                Some(h)
            }
        };
        World {
            sim,
            server,
            handle,
            calls: vec![],
            like,
        }
    }
    fn start(&mut self, p: Proc) {
        let i = self.calls.len();
        let s = &mut self.sim;
        let c = match (p, &self.handle) {
            (Proc::Body, None) => Call::P0(s.run_fut("call", RpcClient::new(addr(PORT)).call::<Dp<0>>(req(i)))),
            (Proc::Plain, None) => Call::P1(s.run_fut("call", RpcClient::new(addr(PORT)).call::<Dp<1>>(req(i)))),
            (Proc::Slow, None) => Call::P2(s.run_fut("call", RpcClient::new(addr(PORT)).call::<Dp<2>>(req(i)))),
            (Proc::Body, Some(h)) => Call::P0(s.run_fut("call", h.client(addr(PORT)).call::<Dp<0>>(req(i)))),
            (Proc::Plain, Some(h)) => Call::P1(s.run_fut("call", h.client(addr(PORT)).call::<Dp<1>>(req(i)))),
            (Proc::Slow, Some(h)) => Call::P2(s.run_fut("call", h.client(addr(PORT)).call::<Dp<2>>(req(i)))),
        };
        self.calls.push((p, c, false));
    }
    fn cancel(&mut self, i: usize) {
        let f = self.calls[i].1.fiber();
        if !self.calls[i].1.done() {
            self.calls[i].2 = true;
        }
        self.sim.kill(f);
    }
    fn judge(&mut self) -> Result<(), String> {
        if self.server.is_done() {
            return Err("the server ended".into());
        }
        let log = log();
        let (sent, received) = requests()?;
        let mut ran = 0;
        for (i, (p, c, cancelled)) in self.calls.iter().enumerate() {
            let want = want_log(*p, i);
            let runs = log.iter().filter(|l| **l == want).count();
            ran += runs;
            if runs > 1 {
                return Err(format!("call {} ran its handler {} times", i, runs));
            }
            let n = sent.iter().filter(|x| **x == i).count();
            if n > 1 {
                return Err(format!("call {} sent its request {} times", i, n));
            }
            if runs > received.iter().filter(|x| **x == i).count() {
                return Err(format!("call {} ran its handler without a complete request", i));
            }
            match c.result(i, self.like) {
                None if *cancelled => {}
                None => return Err(format!("call {} does not settle", i)),
                Some(Ok(true)) if runs == 1 => {}
                Some(Ok(true)) => return Err(format!("call {} succeeded without a handler run", i)),
                Some(Ok(false)) => return Err(format!("call {} got a response which is not its own", i)),
                Some(Err(_)) => {}
            }
        }
        if ran != log.len() {
            return Err(format!("handlers ran for nothing which was called: {}", short(&format!("{:?}", log))));
        }
        Ok(())
    }
}
/// The calls whose complete requests were sent, and those whose complete requests were read.
fn requests() -> Result<(Vec<usize>, Vec<usize>), String> {
    let (mut sent, mut received) = (Vec::new(), Vec::new());
    for c in 0..sim::conn_count() {
        let (log, read) = sim::with_conn(c, |c| {
            let p = &c.pipes[Side::Client as usize];
            (p.log.clone(), p.read_total as usize)
        });
        let mut at = 0;
        while at < log.len() {
            match http::parse(&log[at..], false) {
                http::Parsed::Complete(m, n) => {
                    let text = if m.body.is_empty() { m.start.clone() } else { String::from_utf8_lossy(&m.body).into_owned() };
                    let i = text.find("call-").and_then(|p| {
                        let d: String = text[p + 5..].chars().take_while(|c| c.is_ascii_digit()).collect();
                        d.parse().ok()
                    });
                    let i = i.ok_or_else(|| format!("unexpected request {}", short(&format!("{:?}", m))))?;
                    at += n;
                    sent.push(i);
                    if at <= read {
                        received.push(i);
                    }
                }
                http::Parsed::Incomplete => break,
                http::Parsed::Bad(e) => return Err(e),
            }
        }
    }
    Ok((sent, received))
}
fn settle(w: &mut World) -> Result<(), String> {
    if w.sim.run() == Outcome::StepLimit {
        return Err("does not come to rest".into());
    }
    Ok(())
}
#[derive(Debug, Clone)]
struct Spec {
    client: Client,
    size: usize,
    procs: Vec<Proc>,
    /// One after the other, or at the same time.
    sequential: bool,
    explore: bool,
    net: Net,
    /// This call is cancelled after so many steps.
    cancel: Option<(usize, usize)>,
    like: Like,
}
fn spec(client: Client, procs: &[Proc]) -> Spec {
    Spec {
        client,
        size: 2,
        procs: procs.to_vec(),
        sequential: true,
        explore: false,
        net: Net::default(),
        cancel: None,
        like: Like::default(),
    }
}
fn run(x: &Spec) -> Result<(), String> {
    let mut w = World::new(x.client, x.size, x.net.clone(), x.like);
    w.sim.explore = x.explore;
    for (i, p) in x.procs.iter().enumerate() {
        w.start(*p);
        if x.sequential {
            if let Some((c, at)) = x.cancel {
                if c == i {
                    let end = w.sim.steps + at as u64;
                    w.sim.run_while(|s| s.steps < end);
                    w.cancel(i);
                }
            }
            settle(&mut w)?;
        }
    }
    if let (false, Some((i, at))) = (x.sequential, x.cancel) {
        let end = w.sim.steps + at as u64;
        w.sim.run_while(|s| s.steps < end);
        w.cancel(i);
    }
    settle(&mut w)?;
    w.judge()
}
const CLIENTS: [Client; 2] = [Client::Plain, Client::Pooled];

/// Calls which cannot be sent.
#[derive(Debug, Clone)]
struct Refused {
    what: &'static str,
    req: Req<0>,
    entry: Vec<Option<&'static str>>,
}
fn refused_cases() -> Vec<Refused> {
    let mut out = Vec::new();
    let header = |k: &'static str, v: &str| Req::<0> {
        header: Some(Fields::Struct(vec![(k, s(v))])),
        body: b"body".to_vec(),
        ..Req::default()
    };
    for (k, v) in [
        ("x", "a\r\nb: c"), ("x", "a\n"), ("x", "\r"), ("x", "\0"), ("x y", "v"), ("", "v"), ("x:", "v"), ("x\r\ny", "v"),
        ("content-length", "1"), ("Content-Length", "0"), ("transfer-encoding", "chunked"), ("x", "a\r\n\r\nGET /o HTTP/1.1\r\n\r\n"),
    ] {
        out.push(Refused { what: "header", req: header(k, v), entry: vec![Some("o")] });
    }
    let big = "x".repeat(9000);
    out.push(Refused { what: "large header", req: header("x", &big), entry: vec![Some("o")] });
    for p in ["", ".", "..", "a\tb", "a\nb", &big] {
        out.push(Refused {
            what: "path",
            req: Req {
                path: Some(Path::Tuple(vec![s(p)])),
                body: b"body".to_vec(),
                ..Req::default()
            },
            entry: vec![Some("o"), None],
        });
    }
    out.push(Refused {
        what: "too many path arguments",
        req: Req { path: Some(Path::Tuple(vec![s("a"), s("b")])), ..Req::default() },
        entry: vec![Some("o"), None],
    });
    out.push(Refused {
        what: "too few path arguments",
        req: Req { path: Some(Path::Tuple(vec![s("a")])), ..Req::default() },
        entry: vec![Some("o"), None, None],
    });
    out.push(Refused {
        what: "large query",
        req: Req { query: Some(Fields::Struct(vec![("q", s(&big))])), ..Req::default() },
        entry: vec![Some("o")],
    });
    out
}
/// A call may be refused; then nothing ran. If it is not, the handler ran once.
fn refused(x: &Refused) -> Result<(), String> {
    for client in CLIENTS {
        let ty = x.req.ty();
        let r = exchange_by(client, Post, ep(&x.entry), x.req.clone(), |_| Resp::<0>::status(200, b"fine"), |_| set_req(0, ty));
        let complete = !matches!(http::parse(&r.sent, false), http::Parsed::Incomplete);
        match (r.result, r.log.len()) {
            (None, _) => return Err("the call does not settle".into()),
            (Some(Ok(ref r)), 1) if *r == Resp::<0>::status(200, b"fine") => {}
            (Some(Ok(Resp { kind: RespKind::Status(c), .. })), 0) if c / 100 == 4 => {}
            (Some(Ok(_)), n) => return Err(format!("succeeded with {} handler runs", n)),
            (Some(Err(_)), 0) if !complete => {}
            (Some(Err(e)), n) => return Err(format!("refused ({}), complete request sent: {}, handler runs: {}", short(&e.to_string()), complete, n)),
        }
    }
    Ok(())
}

/// Servers played by the harness.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Op {
    Call,
    /// The oldest open request is answered.
    Answer,
    /// Its connection ends instead, in some way.
    Fail(usize),
    /// Idle connections end.
    CloseIdle,
    ResetIdle,
    /// One second passes.
    Wait,
    /// The server stops or starts listening.
    Down,
    Up,
}
const OPS: &[Op] = &[Op::Call, Op::Answer, Op::Fail(0), Op::Fail(1), Op::Fail(2), Op::Fail(3), Op::CloseIdle, Op::ResetIdle, Op::Wait, Op::Down, Op::Up];
fn history(ops: &[Op], suspend: Option<Duration>) -> Result<(), String> {
    let a = addr(3001);
    let mut lab = Lab::new(
        pool::Config {
            suspend,
            ..pool::DEFAULT
        },
        vec![a],
        Net::default(),
    );
    lab.settle()?;
    let mut down = false;
    for op in ops {
        // the oldest request which is not answered
        let mut open: Vec<(usize, usize)> = Vec::new();
        for c in 0..sim::conn_count() {
            if sim::with_conn(c, |c| !c.open[Side::Client as usize] || !c.open[Side::Server as usize]) {
                continue;
            }
            if let Some(i) = requests_on(c)?.last() {
                if !lab.calls[*i].is_done() {
                    open.push((*i, c));
                }
            }
        }
        open.sort();
        match *op {
            Op::Call => {
                lab.start(0);
            }
            Op::Answer => {
                if let Some((i, c)) = open.first() {
                    sim::raw_send(*c, Side::Server, &pool::response(*i));
                }
            }
            Op::Fail(k) => {
                if let Some((i, c)) = open.first() {
                    let r = pool::response(*i);
                    match k {
                        0 => sim::raw_close(*c, Side::Server),
                        1 => sim::raw_reset(*c, Side::Server, true),
                        2 => {
                            sim::raw_send(*c, Side::Server, &r[..r.len() - 1]);
                            sim::raw_close(*c, Side::Server)
                        }
                        _ => {
                            sim::raw_send(*c, Side::Server, b"HTTP/1.1 503 Service Unavailable\r\nRetry-After: 0\r\nContent-Length: 0\r\nConnection: close\r\n\r\n");
                            sim::raw_close(*c, Side::Server)
                        }
                    }
                }
            }
            Op::CloseIdle | Op::ResetIdle => {
                for c in 0..sim::conn_count() {
                    if sim::with_conn(c, |c| c.open[Side::Client as usize] && c.open[Side::Server as usize]) && !open.iter().any(|o| o.1 == c) {
                        if *op == Op::CloseIdle {
                            sim::raw_close(c, Side::Server)
                        } else {
                            sim::raw_reset(c, Side::Server, true)
                        }
                    }
                }
            }
            Op::Wait => {
                let t = crate::clock::now() + Duration::from_secs(1);
                lab.sim.run_to(t);
            }
            Op::Down => {
                down = true;
                pool::set_mode(a, pool::Mode::Refuse);
            }
            Op::Up => {
                down = false;
                pool::set_mode(a, pool::Mode::Ok);
            }
        }
        lab.settle()?;
    }
    let _ = down;
    let mut count = vec![0; lab.calls.len()];
    for c in 0..sim::conn_count() {
        for i in requests_on(c)? {
            count[i] += 1;
        }
    }
    for (i, n) in count.iter().enumerate() {
        if *n > 1 {
            return Err(format!("call {} sent its request {} times", i, n));
        }
        match lab.calls[i].result() {
            Some((Ok(ref r), _)) if *r == pool::expected(i) && *n != 1 => return Err(format!("call {} succeeded although its request was sent {} times", i, n)),
            _ => {}
        }
    }
    Ok(())
}

/// A request in two pieces from the harness.
fn raw_pieces(msg: &[u8], cuts: &[usize], end: End, slow: bool, mode: ReadMode) -> Result<(), String> {
    exec::fresh();
    set_read_mode(mode);
    let mut sim = Sim::new();
    let server = serve(&mut sim, Like::default());
    sim.run();
    let c = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
    let mut from = 0;
    let mut stream: Vec<&[u8]> = Vec::new();
    for at in cuts {
        stream.push(&msg[from..*at]);
        from = *at;
    }
    for p in stream {
        sim::raw_send(c, Side::Client, p);
        if slow {
            sim.run();
        } else {
            sim.run_to(crate::clock::now());
        }
    }
    match end {
        End::Open => {}
        End::Close => sim::raw_close(c, Side::Client),
        End::Shutdown => sim::raw_shutdown(c, Side::Client),
        End::Reset => sim::raw_reset(c, Side::Client, true),
    }
    if sim.run() == Outcome::StepLimit {
        return Err("does not come to rest".into());
    }
    if server.is_done() {
        return Err("the server ended".into());
    }
    let complete = from == msg.len();
    let runs = log().len();
    // a complete request is handled unless its connection was reset before it could be read
    if runs > 1 || (!complete && runs > 0) || (complete && end == End::Open && runs != 1) {
        return Err(format!("{} of {} bytes ran the handler {} times", from, msg.len(), runs));
    }
    Ok(())
}

pub fn c20(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut out = Vec::new();
    // faults at any transfer
    let mut one = Vec::new();
    let mut three = Vec::new();
    for client in CLIENTS {
        for p in [Proc::Body, Proc::Plain, Proc::Slow] {
            for block in [false, true] {
                let net = Net { faults: true, block, ..Net::default() };
                one.push(Spec { net: net.clone(), ..spec(client, &[p]) });
                for q in [Proc::Body, Proc::Plain] {
                    three.push(Spec { net: net.clone(), ..spec(client, &[q, p, q]) });
                    three.push(Spec { net: net.clone(), sequential: false, ..spec(client, &[q, p, q]) });
                }
            }
        }
    }
    out.push(Family::list("one call with faults", if quick { 3 } else { 4 }, one, |x| run(x)));
    out.push(Family::list("three calls with faults", if quick { 2 } else { 3 }, three, |x| run(x)));
    let mut split = Vec::new();
    for client in CLIENTS {
        for procs in [vec![Proc::Body], vec![Proc::Plain], vec![Proc::Slow, Proc::Body]] {
            let net = Net { faults: true, choices: true, ..Net::default() };
            split.push(Spec { net, ..spec(client, &procs) });
        }
    }
    out.push(Family::list("splits and faults", if quick { 2 } else { 3 }, split, |x| run(x)));
    // the stream ends at any offset
    let mut cuts = Vec::new();
    let top = if quick { 230 } else { 330 };
    for client in CLIENTS {
        for p in [Proc::Body, Proc::Plain, Proc::Slow] {
            for at in 0..top {
                for side in [Side::Client, Side::Server] {
                    for only in [Some(0), None] {
                        for cut in [Cut::Eof, Cut::Err(ErrorKind::ConnectionReset)] {
                            let net = Net { read_cut: Some((side, at, cut)), only, ..Net::default() };
                            cuts.push(Spec { net, ..spec(client, &[p, Proc::Body, p]) });
                        }
                        for k in [ErrorKind::BrokenPipe, ErrorKind::ConnectionReset] {
                            let net = Net { write_cut: Some((side, at, k)), only, ..Net::default() };
                            cuts.push(Spec { net, ..spec(client, &[p, Proc::Body, p]) });
                        }
                    }
                }
            }
        }
    }
    out.push(Family::list("ends of the stream", 0, cuts, |x| run(x)));
    // procedures of all kinds
    let mut likes: Vec<Like> = METHODS.iter().map(|m| Like { method: Some(*m), status: None }).collect();
    likes.extend(STATUSES.iter().map(|s| Like { method: None, status: Some(s.0) }));
    let (mut kinds, mut choices) = (Vec::new(), Vec::new());
    let top = if quick { 130 } else { 280 };
    for like in likes {
        for client in CLIENTS {
            for side in [Side::Client, Side::Server] {
                for at in 0..top {
                    for only in [Some(0), None] {
                        let net = Net { read_cut: Some((side, at, Cut::Eof)), only, ..Net::default() };
                        kinds.push(Spec { net, like, ..spec(client, &[Proc::Body, Proc::Plain]) });
                    }
                }
            }
            let net = Net { faults: true, ..Net::default() };
            for p in [Proc::Body, Proc::Plain, Proc::Slow] {
                choices.push(Spec { net: net.clone(), like, ..spec(client, &[p, p]) });
            }
        }
    }
    out.push(Family::list("ends of the stream, every method and status", 0, kinds, |x| run(x)));
    out.push(Family::list("faults, every method and status", if quick { 1 } else { 2 }, choices, |x| run(x)));
    // schedules
    let mut sched = Vec::new();
    for client in CLIENTS {
        for size in [0, 1, 2] {
            if client == Client::Plain && size > 0 {
                continue;
            }
            for procs in [vec![Proc::Body, Proc::Plain], vec![Proc::Slow, Proc::Body], vec![Proc::Body, Proc::Body, Proc::Plain]] {
                for sequential in [false, true] {
                    sched.push(Spec { size, sequential, explore: true, ..spec(client, &procs) });
                }
            }
        }
    }
    out.push(Family::list("schedules", if quick { 2 } else { 3 }, sched.clone(), |x| run(x)));
    let faulty: Vec<Spec> = sched
        .iter()
        .filter(|x| x.procs.len() == 2)
        .map(|x| Spec {
            net: Net { faults: true, ..Net::default() },
            ..x.clone()
        })
        .collect();
    out.push(Family::list("schedules and faults", 2, faulty, |x| run(x)));
    // abandoned calls
    let mut gone = Vec::new();
    for client in CLIENTS {
        for procs in [vec![Proc::Body, Proc::Plain, Proc::Body], vec![Proc::Slow, Proc::Body, Proc::Plain]] {
            for at in 0..if quick { 40 } else { 90 } {
                for i in 0..2 {
                    for sequential in [true, false] {
                        for size in [1, 2] {
                            gone.push(Spec { cancel: Some((i, at)), sequential, size, explore: true, ..spec(client, &procs) });
                        }
                    }
                }
            }
        }
    }
    out.push(Family::list("abandoned calls", if quick { 1 } else { 2 }, gone, |x| run(x)));
    // connection attempts
    let answers = vec![
        ConnectAns::Now,
        ConnectAns::Later,
        ConnectAns::ErrNow(ErrorKind::ConnectionRefused),
        ConnectAns::ErrLater(ErrorKind::ConnectionRefused),
        ConnectAns::ErrLater(ErrorKind::TimedOut),
    ];
    let mut conns = Vec::new();
    for client in CLIENTS {
        for a in tuples(&answers, 3) {
            for sequential in [true, false] {
                conns.push(Spec {
                    net: Net { connects: a.clone(), ..Net::default() },
                    sequential,
                    ..spec(client, &[Proc::Body, Proc::Plain, Proc::Slow])
                });
            }
        }
    }
    out.push(Family::list("connection attempts", 0, conns, |x| run(x)));
    out.push(Family::list("calls which cannot be sent", 0, refused_cases(), |x| refused(x)));
    // histories with a server played by the harness
    let depth = if quick { 6 } else { 7 };
    let mut hs: Vec<Option<Duration>> = vec![None, Some(Duration::from_millis(500)), Some(Duration::from_secs(0))];
    if quick {
        hs.truncate(2);
    }
    out.push(Family::list("histories", 0, hs, move |suspend| {
        let mut ops = vec![Op::Call];
        for _ in 1..depth {
            let k = explore::choose_free(OPS.len() + 1, &|| "op".into());
            if k == OPS.len() {
                break;
            }
            ops.push(OPS[k]);
        }
        explore::note(|| format!("{:?}", ops));
        history(&ops, *suspend).map_err(|e| format!("{:?}: {}", ops, e))
    }));
    // requests in pieces
    let msgs: Vec<Vec<u8>> = vec![
        b"POST /o HTTP/1.1\r\nContent-Length: 6\r\n\r\ncall-0".to_vec(),
        b"POST /o HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\ncal\r\n3\r\nl-0\r\n0\r\n\r\n".to_vec(),
        b"GET /g/call-0 HTTP/1.1\r\nHost: x\r\n\r\n".to_vec(),
        b"PUT /slow HTTP/1.1\r\nContent-Length: 6\r\n\r\ncall-0".to_vec(),
    ];
    let mut cases = Vec::new();
    for (m, msg) in msgs.iter().enumerate() {
        for a in 0..=msg.len() {
            for b in a..=msg.len() {
                cases.push((m, a, b));
            }
        }
    }
    out.push(Family::list("requests in pieces", 0, cases, move |(m, a, b)| {
        for end in super::bodies::ENDS {
            for slow in [true, false] {
                for mode in [ReadMode::All, ReadMode::Nothing, ReadMode::Some(2)] {
                    raw_pieces(&msgs[*m], &[*a, *b], *end, slow, mode)?;
                }
            }
        }
        Ok(())
    }));
    out
}
