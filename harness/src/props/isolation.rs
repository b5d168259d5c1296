//! C09: misbehaving peers next to well-behaved ones.
use crate::app::*;
use crate::clock;
use crate::dynty::*;
use crate::exec::{self, Handle, Outcome, Sim};
use crate::explore::{self, short, Family};
use crate::http;
use crate::net::{Cut, Net};
use crate::Tier;
use futures::Future;
use htrpc::types::HttpMethod::{Get, Patch, Post};
use htrpc::{RpcClient, RpcServerBuilder};
use mio::sim::{self, Env, IoAns, Side};
use std::io::ErrorKind;
use std::net::SocketAddr;
use std::time::Duration;

#[derive(Debug, Clone, PartialEq)]
enum Act {
    Connect,
    Send(Vec<u8>),
    Close,
    Reset,
    Shutdown,
    /// Bytes of responses which fit in before the server has to wait.
    Capacity(usize),
}
type Script = Vec<Act>;

const BIG: usize = 60_000;

fn server() -> (Sim, Handle<Result<(), htrpc::Error>>) {
    exec::fresh();
    define(0, Post, ep(&[Some("b")]));
    define(1, Get, ep(&[Some("never")]));
    define(2, Get, ep(&[Some("slow")]));
    define(3, Get, ep(&[Some("big")]));
    let mut b = RpcServerBuilder::new(addr(PORT));
    b.set_logger(crate::app::logger());
    b.register(
        Handler::fut(0, |r: Req<0>| {
            let mut x = b"got ".to_vec();
            x.extend(&r.body);
            let resp = Resp::<0>::status(200, &x);
            if r.body.starts_with(b"never") {
                Box::new(futures::empty())
            } else if r.body.starts_with(b"slow") {
                Box::new(
                    fibers::time::timer::timeout(Duration::from_secs(2))
                        .map_err(|e| panic!("timer: {:?}", e))
                        .map(move |()| resp),
                )
            } else {
                Box::new(futures::finished(resp))
            }
        }),
        Dp::<0>::new(),
    )
    .expect("register");
    b.register(Handler::fut(1, |_: Req<1>| Box::new(futures::empty())), Dp::<1>::new()).expect("register");
    b.register(
        Handler::fut(2, |_: Req<2>| {
            Box::new(
                fibers::time::timer::timeout(Duration::from_secs(2))
                    .map_err(|e| panic!("timer: {:?}", e))
                    .map(move |()| Resp::<2>::status(202, b"slow")),
            )
        }),
        Dp::<2>::new(),
    )
    .expect("register");
    define(4, Patch, ep(&[Some("p"), None]));
    set_req(
        4,
        ReqTy {
            path: Some(PathTy::Tuple(vec![Ty::U8])),
            ..ReqTy::default()
        },
    );
    b.register(Handler::now(4, |_: Req<4>| Resp::<4>::status(503, b"p")), Dp::<4>::new()).expect("register");
    b.register(Handler::now(3, |_: Req<3>| Resp::<3>::status(200, &vec![b'x'; BIG])), Dp::<3>::new()).expect("register");
    let mut sim = Sim::new();
    let h = start_server(&mut sim, PORT, b);
    sim.run();
    (sim, h)
}
/// Lets everything happen which does not need time to pass.
fn settle(sim: &mut Sim) -> Result<(), String> {
    if sim.run_to(clock::now()) == Outcome::StepLimit {
        return Err("the server does not come to rest".into());
    }
    Ok(())
}
struct Peer {
    conn: Option<usize>,
}
impl Peer {
    fn act(&mut self, a: &Act) -> Result<(), String> {
        if *a == Act::Connect {
            self.conn = Some(sim::raw_connect(addr(PORT)).ok_or("the server does not listen any more")?);
            return Ok(());
        }
        let c = self.conn.expect("connected first");
        match *a {
            Act::Connect => {}
            Act::Send(ref b) => sim::raw_send(c, Side::Client, b),
            Act::Close => sim::raw_close(c, Side::Client),
            Act::Reset => sim::raw_reset(c, Side::Client, false),
            Act::Shutdown => sim::raw_shutdown(c, Side::Client),
            Act::Capacity(n) => sim::with_pipe(c, Side::Server, |p| p.capacity = Some(n)),
        }
        Ok(())
    }
}
fn expect_got(conn: usize, body: &str) -> Result<(), String> {
    let r = sim::raw_recv(conn, Side::Client);
    match http::parse(&r, false) {
        http::Parsed::Complete(ref m, n) if n == r.len() && m.status() == 200 && m.body == format!("got {}", body).into_bytes() => Ok(()),
        other => Err(format!("a well-behaved peer is answered by {}", short(&format!("{:?}", other)))),
    }
}
/// A call of an htrpc client must succeed at once.
fn good_call(sim: &mut Sim, body: &str) -> Result<(), String> {
    let mut client = RpcClient::new(addr(PORT));
    let before = log_len();
    let h = sim.run_fut(
        "good",
        client.call::<Dp<0>>(Req {
            body: body.as_bytes().to_vec(),
            ..Req::default()
        }),
    );
    settle(sim)?;
    let want = Resp::<0>::status(200, format!("got {}", body).as_bytes());
    match h.take() {
        Some(Ok(ref r)) if *r == want => {}
        other => return Err(format!("a well-behaved call gave {}", short(&format!("{:?}", other.map(|r| r.map_err(|e| e.to_string())))))),
    }
    let runs = log_from(before);
    let want = format!(
        "{:?}",
        Req::<0> {
            body: body.as_bytes().to_vec(),
            ..Req::default()
        }
    );
    if runs.iter().filter(|r| **r == (0, want.clone())).count() != 1 {
        return Err(format!("the handler of a well-behaved call ran with {}", short(&format!("{:?}", runs))));
    }
    Ok(())
}

/// Runs scripts of misbehaving peers and one well-behaved peer in the given merge order.
/// In `order`, number `k` stands for the next act of script `k`; the last script is the good one.
fn merged(bad: &[Script], order: &[usize]) -> Result<(), String> {
    let (mut sim, server) = server();
    let good: Script = vec![
        Act::Connect,
        Act::Send(b"POST /b HTTP/1.1\r\nContent-".to_vec()),
        Act::Send(b"Length: 4\r\n\r\nfi".to_vec()),
        Act::Send(b"nePOST /b HTTP/1.1\r\nContent-Length: 3\r\n\r\nt".to_vec()),
        Act::Send(b"wo".to_vec()),
    ];
    let mut peers: Vec<Peer> = (0..=bad.len()).map(|_| Peer { conn: None }).collect();
    let mut at = vec![0; bad.len() + 1];
    for k in order {
        let script = if *k == bad.len() { &good } else { &bad[*k] };
        let a = &script[at[*k]];
        at[*k] += 1;
        peers[*k].act(a)?;
        settle(&mut sim)?;
        if *k == bad.len() {
            let c = peers[*k].conn.expect("connected");
            match at[*k] {
                4 => expect_got(c, "fine")?,
                5 => expect_got(c, "two")?,
                _ => {}
            }
        }
    }
    if server.is_done() {
        return Err("the server ended".into());
    }
    good_call(&mut sim, "after")?;
    // the good peer's connection still works later on
    sim.run_to(clock::now() + Duration::from_secs(100));
    let c = peers[bad.len()].conn.expect("connected");
    sim::raw_send(c, Side::Client, b"POST /b HTTP/1.1\r\nContent-Length: 5\r\n\r\nlater");
    settle(&mut sim)?;
    expect_got(c, "later")?;
    good_call(&mut sim, "much later")
}
/// All merges of scripts with the given numbers of acts.
fn merges(lens: &[usize]) -> Vec<Vec<usize>> {
    if lens.iter().all(|n| *n == 0) {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for k in 0..lens.len() {
        if lens[k] > 0 {
            let mut l = lens.to_vec();
            l[k] -= 1;
            for mut m in merges(&l) {
                m.insert(0, k);
                out.push(m);
            }
        }
    }
    out
}
fn requests() -> Vec<Vec<u8>> {
    vec![
        b"POST /b HTTP/1.1\r\nContent-Length: 6\r\n\r\nfoobar".to_vec(),
        b"POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n6\r\nfoobar\r\n0\r\n\r\n".to_vec(),
        b"GET /never HTTP/1.1\r\n\r\n".to_vec(),
        b"GET /slow HTTP/1.1\r\n\r\n".to_vec(),
        b"GET /big HTTP/1.1\r\n\r\n".to_vec(),
        b"GET /nope HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc".to_vec(),
        b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03garbage\r\n\r\n".to_vec(),
        b"BREW /pot HTTP/1.1\r\n\r\n".to_vec(),
        b"POST /b HTTP/1.1\r\nContent-Length: x\r\n\r\n".to_vec(),
        // the procedure which others call as well
        b"POST /b HTTP/1.1\r\nContent-Length: 5\r\n\r\nnever".to_vec(),
        b"POST /b HTTP/1.1\r\nContent-Length: 4\r\n\r\nslow".to_vec(),
    ]
}
/// What well-behaved peers ask for: the request, and the status and body of the answer.
fn good_kinds() -> Vec<(Vec<u8>, bool, u16, Option<Vec<u8>>)> {
    vec![
        (b"POST /b HTTP/1.1\r\nContent-Length: 4\r\n\r\nfine".to_vec(), false, 200, Some(b"got fine".to_vec())),
        (b"POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nfi\r\n2\r\nne\r\n0\r\n\r\n".to_vec(), false, 200, Some(b"got fine".to_vec())),
        (b"GET /big HTTP/1.1\r\n\r\n".to_vec(), false, 200, Some(vec![b'x'; BIG])),
        (b"HEAD /head?x=1 HTTP/1.1\r\nA: b\r\n\r\n".to_vec(), true, 404, None),
        (b"HEAD /b HTTP/1.1\r\n\r\n".to_vec(), true, 405, None),
        (b"GET /nope HTTP/1.1\r\n\r\n".to_vec(), false, 404, None),
        (b"PUT /b HTTP/1.1\r\nContent-Length: 1\r\n\r\nx".to_vec(), false, 405, None),
        (b"PATCH /p/4 HTTP/1.1\r\nContent-Length: 1\r\n\r\nx".to_vec(), false, 503, Some(b"p".to_vec())),
        (b"PATCH /p/x HTTP/1.1\r\nContent-Length: 1\r\n\r\nx".to_vec(), false, 400, None),
    ]
}
/// A well-behaved peer makes this kind of request twice while others misbehave.
fn merged_kind(bad: &[Script], order: &[usize], kind: usize) -> Result<(), String> {
    let (r, head, status, body) = good_kinds()[kind].clone();
    let (mut sim, server) = server();
    let n = r.len();
    let good: Script = vec![
        Act::Connect,
        Act::Send(r[..n / 2].to_vec()),
        Act::Send(r[n / 2..n - 2].to_vec()),
        Act::Send(r[n - 2..].iter().chain(&r[..n - 1]).cloned().collect()),
        Act::Send(r[n - 1..].to_vec()),
    ];
    let mut peers: Vec<Peer> = (0..=bad.len()).map(|_| Peer { conn: None }).collect();
    let mut at = vec![0; bad.len() + 1];
    let check = |c: usize, when: &str| -> Result<(), String> {
        let r = sim::raw_recv(c, Side::Client);
        match http::parse(&r, head) {
            http::Parsed::Complete(ref m, n) if n == r.len() && m.status() == status && body.as_ref().map_or(true, |b| *b == m.body) => Ok(()),
            other => Err(format!("{}: a well-behaved peer is answered by {}", when, short(&format!("{:?}", other)))),
        }
    };
    for k in order {
        let script = if *k == bad.len() { &good } else { &bad[*k] };
        let a = &script[at[*k]];
        at[*k] += 1;
        peers[*k].act(a)?;
        settle(&mut sim)?;
        if *k == bad.len() && at[*k] >= 4 {
            check(peers[*k].conn.expect("connected"), if at[*k] == 4 { "first request" } else { "second request" })?;
        }
    }
    sim.run_to(clock::now() + Duration::from_secs(86_400 * 30));
    let c = peers[bad.len()].conn.expect("connected");
    sim::raw_send(c, Side::Client, &r);
    settle(&mut sim)?;
    check(c, "a month later")?;
    let c = sim::raw_connect(addr(PORT)).ok_or("the server does not listen any more")?;
    sim::raw_send(c, Side::Client, &r);
    settle(&mut sim)?;
    check(c, "a new connection")?;
    if server.is_done() {
        return Err("the server ended".into());
    }
    Ok(())
}
fn endings() -> Vec<Option<Act>> {
    vec![None, Some(Act::Close), Some(Act::Reset), Some(Act::Shutdown)]
}
fn misbehaviours() -> Vec<Script> {
    let mut out: Vec<Script> = Vec::new();
    for r in requests() {
        for e in endings() {
            let mut s = vec![Act::Connect, Act::Send(r.clone())];
            s.extend(e);
            out.push(s);
        }
        let (a, b) = r.split_at(r.len() / 2);
        for e in endings() {
            let mut s = vec![Act::Connect, Act::Send(a.to_vec())];
            s.extend(e);
            out.push(s);
        }
        out.push(vec![Act::Connect, Act::Send(a.to_vec()), Act::Send(b.to_vec()), Act::Close]);
    }
    for e in endings() {
        let mut s = vec![Act::Connect];
        s.extend(e.clone());
        out.push(s);
        // responses are not read
        for n in [1usize, 20] {
            for cap in [0usize, 1, 10, 1000] {
                let mut s = vec![Act::Connect, Act::Capacity(cap), Act::Send(b"GET /big HTTP/1.1\r\n\r\n".repeat(n))];
                s.extend(e.clone());
                out.push(s);
            }
        }
        let mut s = vec![Act::Connect, Act::Send(b"GET /never HTTP/1.1\r\n\r\n".repeat(50))];
        s.extend(e);
        out.push(s);
    }
    out
}

/// Accepts fail in a given pattern.
struct AcceptEnv {
    answers: Vec<Option<ErrorKind>>,
}
impl Env for AcceptEnv {
    fn on_accept(&mut self, _: SocketAddr) -> Option<ErrorKind> {
        if self.answers.is_empty() {
            None
        } else {
            self.answers.remove(0)
        }
    }
}
/// Accepts, reads and writes of some connections fail by choice; those of others never.
struct Flaky {
    good: Vec<usize>,
}
impl Env for Flaky {
    fn on_read(&mut self, conn: usize, side: Side, avail: usize, _: usize) -> IoAns {
        if side == Side::Client || self.good.contains(&conn) {
            return IoAns::Upto(avail);
        }
        match explore::choose(5, &|| format!("read c{}: ok|eof|reset|timeout|other", conn)) {
            0 => IoAns::Upto(avail),
            1 => IoAns::Eof,
            2 => IoAns::Err(ErrorKind::ConnectionReset),
            3 => IoAns::Err(ErrorKind::TimedOut),
            _ => IoAns::Err(ErrorKind::Other),
        }
    }
    fn on_write(&mut self, conn: usize, side: Side, len: usize) -> IoAns {
        if side == Side::Client || self.good.contains(&conn) {
            return IoAns::Upto(len);
        }
        match explore::choose(5, &|| format!("write c{}: ok|broken|reset|one|block", conn)) {
            0 => IoAns::Upto(len),
            1 => IoAns::Err(ErrorKind::BrokenPipe),
            2 => IoAns::Err(ErrorKind::ConnectionReset),
            3 => IoAns::UptoThenBlock(1),
            _ => IoAns::WouldBlock,
        }
    }
}

fn failing_accepts(answers: &[Option<ErrorKind>]) -> Result<(), String> {
    for together in [true, false] {
        let (mut sim, server) = server();
        sim.step_limit = usize::MAX as _;
        mio::sim::set_env(Box::new(AcceptEnv {
            answers: answers.to_vec(),
        }));
        // as many connections as there are answers, each with a request
        let mut conns = Vec::new();
        for i in 0..answers.len() {
            let c = sim::raw_connect(addr(PORT)).ok_or("the server does not listen any more")?;
            sim::raw_send(c, Side::Client, format!("POST /b HTTP/1.1\r\nContent-Length: 1\r\n\r\n{}", i % 10).as_bytes());
            conns.push(c);
            if !together {
                settle(&mut sim)?;
            }
        }
        settle(&mut sim)?;
        // aborted connections never reach the server, all others are served
        for (i, c) in conns.iter().enumerate() {
            let aborted = sim::with_conn(*c, |c| !c.accepted);
            if !aborted {
                expect_got(*c, &(i % 10).to_string())?;
            }
        }
        let failures = answers.iter().filter(|a| matches!(a, Some(ErrorKind::ConnectionAborted) | Some(ErrorKind::ConnectionReset))).count();
        let lost = conns.iter().filter(|c| sim::with_conn(**c, |c| !c.accepted)).count();
        if lost > failures {
            return Err(format!("{} connections were not accepted, {} failed", lost, failures));
        }
        mio::sim::set_env(Box::new(sim::PlainEnv));
        good_call(&mut sim, "after")?;
        good_call(&mut sim, "again")?;
        if server.is_done() {
            return Err("the server ended".into());
        }
    }
    Ok(())
}

pub fn c09(tier: Tier) -> Vec<Family> {
    let deep = tier == Tier::Thorough;
    let mut out = Vec::new();
    let good_len = 5;
    // one misbehaving peer, every merge
    let bad = misbehaviours();
    out.push(Family::list("one misbehaving peer", 0, bad.clone(), move |s| {
        for m in merges(&[s.len(), good_len]) {
            merged(&[s.clone()], &m).map_err(|e| format!("order {:?}: {}", m, e))?;
        }
        Ok(())
    }));
    // other kinds of well-behaved calls
    let mut cases = Vec::new();
    for s in &bad {
        for k in 0..good_kinds().len() {
            cases.push((s.clone(), k));
        }
    }
    out.push(Family::list("kinds of well-behaved calls", 0, cases, move |(s, k)| {
        let orders: Vec<Vec<usize>> = if deep {
            merges(&[s.len(), good_len])
        } else {
            vec![
                vec![0; s.len()].into_iter().chain([1, 1, 1, 1, 1]).collect(),
                vec![1, 1].into_iter().chain(vec![0; s.len()]).chain([1, 1, 1]).collect(),
                vec![1, 1, 1, 0, 1].into_iter().chain(vec![0; s.len() - 1]).chain([1]).collect(),
            ]
        };
        for m in orders {
            merged_kind(&[s.clone()], &m, *k).map_err(|e| format!("order {:?}: {}", m, e))?;
        }
        Ok(())
    }));
    // it acts while the server is busy with what it did before: after every number of steps
    let steps = tier.pick(16usize, 40);
    let mut cases = Vec::new();
    for s in &bad {
        for i in 1..s.len() {
            for t in 0..=steps {
                for hurried in [false, true] {
                    cases.push((s.clone(), i, t, hurried));
                }
            }
        }
    }
    out.push(Family::list("moments of acting", 0, cases, move |(s, i, t, hurried)| {
        for n in [1usize, 2] {
            let (mut sim, server) = server();
            settle(&mut sim)?;
            let g = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
            sim::raw_send(g, Side::Client, b"POST /b HTTP/1.1\r\nContent-Length: 2\r\n\r\nh");
            let mut peers: Vec<Peer> = (0..n).map(|_| Peer { conn: None }).collect();
            for (k, a) in s.iter().enumerate() {
                if k == *i {
                    for _ in 0..*t {
                        if clock::now() == Duration::from_secs(0) {
                            sim.step();
                        }
                    }
                } else if k > 0 && !hurried {
                    settle(&mut sim)?;
                }
                for p in &mut peers {
                    p.act(a)?;
                }
            }
            sim::raw_send(g, Side::Client, b"i");
            settle(&mut sim)?;
            expect_got(g, "hi")?;
            good_call(&mut sim, "after")?;
            good_call(&mut sim, "again")?;
            if server.is_done() {
                return Err("the server ended".into());
            }
        }
        Ok(())
    }));
    // it misbehaves after every prefix of its request
    let mut cases = Vec::new();
    for r in requests() {
        for at in 0..=r.len() {
            for e in endings() {
                let mut s = vec![Act::Connect, Act::Send(r[..at].to_vec())];
                s.extend(e);
                cases.push(s);
            }
        }
    }
    out.push(Family::list("every prefix", 0, cases, move |s| {
        let orders: Vec<Vec<usize>> = vec![
            vec![0; s.len()].into_iter().chain([1, 1, 1, 1, 1]).collect(),
            vec![1, 1].into_iter().chain(vec![0; s.len()]).chain([1, 1, 1]).collect(),
            vec![1, 1, 1, 0, 1].into_iter().chain(vec![0; s.len() - 1]).chain([1]).collect(),
        ];
        for m in orders {
            merged(&[s.clone()], &m).map_err(|e| format!("order {:?}: {}", m, e))?;
        }
        Ok(())
    }));
    // two misbehaving peers
    let few: Vec<Script> = bad.iter().filter(|s| s.len() == 2 || s.len() == 3).cloned().collect();
    let mut cases = Vec::new();
    for (i, a) in few.iter().enumerate() {
        for b in &few[..=i] {
            cases.push((a.clone(), b.clone()));
        }
    }
    out.push(Family::list("two misbehaving peers", 0, cases, move |(a, b)| {
        let (na, nb) = (a.len(), b.len());
        let orders: Vec<Vec<usize>> = if deep {
            merges(&[na, nb, 5]).into_iter().filter(|m| m.ends_with(&[2, 2])).collect()
        } else {
            vec![
                vec![0; na].into_iter().chain(vec![1; nb]).chain([2, 2, 2, 2, 2]).collect(),
                vec![0, 1, 2, 2, 0, 1, 2].into_iter().chain(vec![0; na - 2]).chain(vec![1; nb - 2]).chain([2, 2]).collect(),
                vec![2, 1, 0, 2, 1, 2].into_iter().chain(vec![1; nb - 2]).chain(vec![0; na - 1]).chain([2, 2]).collect(),
            ]
        };
        for m in orders {
            merged(&[a.clone(), b.clone()], &m).map_err(|e| format!("order {:?}: {}", m, e))?;
        }
        Ok(())
    }));
    // many at once
    let mut cases = Vec::new();
    for s in &bad {
        if !s.contains(&Act::Capacity(1000)) {
            for n in [30usize, 300] {
                cases.push((n, s.clone()));
            }
        }
    }
    out.push(Family::list("many misbehaving peers", 0, cases, |(n, s)| {
        let (mut sim, server) = server();
        let mut peers: Vec<Peer> = (0..*n).map(|_| Peer { conn: None }).collect();
        for a in s {
            for p in &mut peers {
                p.act(a)?;
            }
            settle(&mut sim)?;
        }
        good_call(&mut sim, "one")?;
        good_call(&mut sim, "two")?;
        if server.is_done() {
            return Err("the server ended".into());
        }
        Ok(())
    }));
    // many, one after another: nothing may be used up by connections which have ended
    let n = tier.pick(4500usize, 70_000);
    let mut cases: Vec<Script> = Vec::new();
    for r in [0usize, 1, 5, 6, 7, 8] {
        let r = requests()[r].clone();
        for (part, ends) in [(r.len(), endings()), (r.len() / 2, endings()), (r.len() - 1, endings())] {
            for e in ends {
                let mut s = vec![Act::Connect, Act::Send(r[..part].to_vec())];
                s.extend(e);
                cases.push(s);
            }
        }
    }
    for e in endings() {
        cases.push([Act::Connect].into_iter().chain(e).collect());
    }
    out.push(Family::list("many connections one after another", 0, cases, move |s| {
        let (mut sim, server) = server();
        sim.step_limit = usize::MAX as _;
        for i in 0..n {
            let mut p = Peer { conn: None };
            for a in s {
                p.act(a)?;
                settle(&mut sim)?;
            }
            p.act(&Act::Close)?;
            settle(&mut sim)?;
            if i % 256 == 0 {
                good_call(&mut sim, "meanwhile").map_err(|e| format!("after {} connections: {}", i + 1, e))?;
            }
        }
        good_call(&mut sim, "one").map_err(|e| format!("after {} connections: {}", n, e))?;
        good_call(&mut sim, "two")?;
        if server.is_done() {
            return Err("the server ended".into());
        }
        Ok(())
    }));
    // accepts fail
    let kinds = [None, Some(ErrorKind::ConnectionAborted), Some(ErrorKind::ConnectionReset), Some(ErrorKind::Interrupted)];
    let n = tier.pick(4, 6);
    let mut pats: Vec<Vec<Option<ErrorKind>>> = vec![vec![]];
    for _ in 0..n {
        let mut next = Vec::new();
        for p in &pats {
            for k in kinds {
                let mut q = p.clone();
                q.push(k);
                next.push(q);
            }
        }
        pats = next;
    }
    out.push(Family::list("failing accepts", 0, pats, |answers| failing_accepts(answers)));
    let mut many = Vec::new();
    for n in tier.pick(vec![20usize, 70, 150, 300], vec![20, 70, 150, 300, 1030, 5000]) {
        for a in kinds.iter().filter(|k| k.is_some()) {
            for b in kinds {
                for c in kinds.iter().filter(|_| n <= 150) {
                    many.push((n, [*a, b, *c]));
                }
                if n > 150 {
                    many.push((n, [*a, b, b]));
                }
            }
        }
    }
    out.push(Family::list("many failing accepts", 0, many, |(n, cycle)| {
        let answers: Vec<Option<ErrorKind>> = (0..*n).map(|i| cycle[i % 3]).collect();
        failing_accepts(&answers)
    }));
    // reads and writes of a connection fail with any error, at any offset
    let errors = [
        ErrorKind::ConnectionReset,
        ErrorKind::ConnectionAborted,
        ErrorKind::TimedOut,
        ErrorKind::BrokenPipe,
        ErrorKind::NotConnected,
        ErrorKind::PermissionDenied,
        ErrorKind::InvalidInput,
        ErrorKind::UnexpectedEof,
        ErrorKind::Other,
    ];
    let mut cases = Vec::new();
    for (i, r) in requests().iter().enumerate().take(6) {
        for off in 0..=r.len() {
            for k in errors {
                cases.push((i, off as u64, k));
            }
        }
    }
    out.push(Family::list("connection errors", 0, cases, |(i, off, k)| {
        for write in [false, true] {
            let (mut sim, server) = server();
            let mut net = Net {
                only: Some(0),
                ..Net::default()
            };
            if write {
                net.write_cut = Some((Side::Server, *off, *k));
            } else {
                net.read_cut = Some((Side::Server, *off, Cut::Err(*k)));
            }
            net.install();
            let c = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
            let d = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
            sim::raw_send(d, Side::Client, b"POST /b HTTP/1.1\r\nContent-Length: 2\r\n\r\nh");
            sim::raw_send(c, Side::Client, &requests()[*i]);
            sim::raw_send(c, Side::Client, &requests()[*i]);
            settle(&mut sim)?;
            sim::raw_send(d, Side::Client, b"i");
            settle(&mut sim)?;
            expect_got(d, "hi")?;
            good_call(&mut sim, "after")?;
            if server.is_done() {
                return Err("the server ended".into());
            }
        }
        Ok(())
    }));
    // faults and schedules as choices
    let pairs: Vec<(usize, usize)> = (0..6).flat_map(|a| (0..6).map(move |b| (a, b))).collect();
    out.push(Family::list("faults and schedules", tier.pick(2, 3), if deep { pairs } else { vec![(0, 2), (1, 4), (4, 5), (3, 0)] }, |(a, b)| {
        let (mut sim, server) = server();
        // the good peer is connection 1
        mio::sim::set_env(Box::new(Flaky {
            good: vec![1, 3],
        }));
        let c0 = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
        let c1 = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
        let c2 = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
        sim.explore = true;
        sim::raw_send(c0, Side::Client, &requests()[*a]);
        sim::raw_send(c1, Side::Client, b"POST /b HTTP/1.1\r\nContent-Length: 2\r\n\r\nhi");
        sim::raw_send(c2, Side::Client, &requests()[*b]);
        settle(&mut sim)?;
        expect_got(c1, "hi")?;
        sim.explore = false;
        good_call(&mut sim, "after")?;
        if server.is_done() {
            return Err("the server ended".into());
        }
        Ok(())
    }));
    out
}
