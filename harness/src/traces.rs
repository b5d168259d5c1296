//! Writes traces of the simulated world, one JSON text per line, for `conform`.
#![allow(dead_code)]
mod app;
mod clock;
mod crash;
mod dynty;
mod exec;
mod explore;
mod http;
#[path = "../../conform/procs.rs"]
mod procs;

use exec::{Handle, Sim, SimSpawn};
use futures::Future;
use htrpc::pool::RpcClientPool;
use htrpc::{RpcClient, RpcServerBuilder};
use mio::sim::{self, Side};
use procs::*;
use std::io::Write;
use std::time::Duration;

struct World {
    sim: Sim,
    pool: htrpc::pool::RpcClientPoolHandle,
    conns: Vec<(usize, Side, Vec<u8>, bool, bool)>,
    calls: Vec<(Handle<Result<String, ()>>, Option<String>)>,
}
impl World {
    fn new() -> World {
        let mut sim = Sim::new();
        sim.horizon = Duration::from_secs(0);
        let pool = RpcClientPool::new();
        let ph = pool.handle();
        sim.spawn("pool", pool.map_err(|_| ()));
        let mut b = RpcServerBuilder::new(app::addr(app::PORT));
        register(&mut b);
        let s = b.start(SimSpawn("conn"));
        sim.spawn("server", s.map_err(|_| ()));
        for p in 0..2 {
            sim::raw_listen(app::addr(4000 + p));
        }
        sim.run();
        World { sim, pool: ph, conns: Vec::new(), calls: Vec::new() }
    }
    fn act(&mut self, op: &Op) {
        let add = |w: &mut World, c: usize, side: Side| w.conns.push((c, side, Vec::new(), false, false));
        match op {
            Op::Connect => {
                let c = sim::raw_connect(app::addr(app::PORT)).expect("connect");
                add(self, c, Side::Client)
            }
            Op::Call { pooled, peer, body, method } => {
                let addr = app::addr(4000 + *peer as u16);
                let r = request(self.calls.len(), *body);
                macro_rules! call {
                    ($p:ident) => {
                        if *pooled {
                            self.sim.run_fut("call", self.pool.client(addr).call::<$p>(r).then(|r| Ok(show(r))))
                        } else {
                            self.sim.run_fut("call", RpcClient::new(addr).call::<$p>(r).then(|r| Ok(show(r))))
                        }
                    };
                }
                let h = match method.as_str() {
                    "POST" => call!(Post),
                    "GET" => call!(Get),
                    _ => call!(HeadP),
                };
                self.calls.push((h, None))
            }
            Op::Accept { peer } => {
                let c = sim::raw_accept(app::addr(4000 + *peer as u16)).expect("nothing to accept");
                add(self, c, Side::Server)
            }
            Op::Send { conn, bytes } => sim::raw_send(self.conns[*conn].0, self.conns[*conn].1, bytes.as_bytes()),
            Op::Fill { conn, n } => sim::raw_send(self.conns[*conn].0, self.conns[*conn].1, &vec![b'x'; *n]),
            Op::Half { conn } => sim::raw_shutdown(self.conns[*conn].0, self.conns[*conn].1),
            Op::Close { conn } => {
                sim::raw_close(self.conns[*conn].0, self.conns[*conn].1);
                self.conns[*conn].4 = true;
            }
            Op::Reset { conn } => {
                sim::raw_reset(self.conns[*conn].0, self.conns[*conn].1, true);
                self.conns[*conn].4 = true;
            }
            Op::Unlisten { peer } => sim::raw_unlisten(app::addr(4000 + *peer as u16)),
            Op::Hold { conn } => self.conns[*conn].4 = true,
            Op::Read { conn } => self.conns[*conn].4 = false,
        }
        // as long as the played sides receive something, the others may go on
        loop {
            self.sim.run();
            let mut more = false;
            for c in &mut self.conns {
                if !c.4 {
                    let b = sim::raw_recv(c.0, c.1);
                    more |= !b.is_empty();
                    c.2.extend(b);
                    c.3 = sim::raw_is_closed(c.0, c.1);
                }
            }
            if !more {
                break;
            }
        }
        for c in &mut self.calls {
            if let Some(r) = c.0.take() {
                c.1 = Some(r.unwrap());
            }
        }
    }
    fn seen(&self) -> Seen {
        Seen {
            conns: self.conns.iter().map(|c| (String::from_utf8_lossy(&c.2).into_owned(), c.3)).collect(),
            calls: self.calls.iter().map(|c| c.1.clone()).collect(),
        }
    }
}
fn trace(name: String, ops: Vec<Op>) -> Trace {
    exec::begin();
    let mut w = World::new();
    let mut steps = Vec::new();
    for op in ops {
        w.act(&op);
        let s = w.seen();
        steps.push((op, s));
    }
    drop(w);
    exec::end();
    Trace { name, steps }
}
fn with_len(start: &str, body: &str) -> String {
    format!("{}\r\nContent-Length: {}\r\n\r\n{}", start, body.len(), body)
}
fn requests() -> Vec<(&'static str, String)> {
    vec![
        ("post", with_len("POST /echo/p%20q?q=7 HTTP/1.1", "hello")),
        ("chunked", "POST /echo/x?q=7 HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n2\r\nde\r\n0\r\n\r\n".into()),
        ("get", "GET /echo/x?q=7 HTTP/1.1\r\n\r\n".into()),
        ("head", "HEAD /echo/x?q=7 HTTP/1.1\r\n\r\n".into()),
        ("404", with_len("GET /nope HTTP/1.1", "some body")),
        ("405", with_len("PUT /echo/x HTTP/1.1", "some body")),
        ("400", with_len("POST /echo/x?q=a HTTP/1.1", "some body")),
        ("garbage", "\0\r\n\r\n".into()),
    ]
}
fn responses() -> Vec<(&'static str, String)> {
    let h = "HTTP/1.1 200 OK\r\nX-Path: p\r\n";
    vec![
        ("length", format!("{}Content-Length: 5\r\n\r\nhello", h)),
        ("empty", format!("{}Content-Length: 0\r\n\r\n", h)),
        ("surplus", format!("{}Content-Length: 2\r\n\r\nhello", h)),
        ("chunked", format!("{}Transfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n", h)),
        ("until-end", format!("{}\r\nhello", h)),
        ("no-header", "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n".into()),
        ("garbage", "HTTP/1.1 2x0 OK\r\n\r\n".into()),
    ]
}
fn send(conn: usize, s: &str) -> Op {
    Op::Send { conn, bytes: s.into() }
}
fn call(pooled: bool, peer: usize, body: usize, method: &str) -> Op {
    Op::Call { pooled, peer, body, method: method.into() }
}
fn main() {
    explore::install_panic_hook();
    let out = std::env::args().nth(1).expect("usage: traces OUT");
    let mut scripts: Vec<(String, Vec<Op>)> = Vec::new();
    let ends = |c: usize| vec![("half", Op::Half { conn: c }), ("close", Op::Close { conn: c }), ("reset", Op::Reset { conn: c })];
    for (n, r) in requests() {
        for i in 1..r.len() {
            scripts.push((format!("server split {} {}", n, i), vec![Op::Connect, send(0, &r[..i]), send(0, &r[i..]), Op::Half { conn: 0 }]));
            for (en, e) in ends(0) {
                scripts.push((
                    format!("server {} after {} bytes of {}", en, i, n),
                    vec![Op::Connect, send(0, &r[..i]), e, Op::Connect, send(1, &requests()[2].1)],
                ));
            }
        }
        let mut ops = vec![Op::Connect];
        ops.extend(r.split("").filter(|s| !s.is_empty()).map(|s| send(0, s)));
        scripts.push((format!("server byte by byte {}", n), ops));
    }
    let rs = requests();
    for a in 0..rs.len() {
        for b in 0..rs.len() {
            for c in 0..rs.len() {
                let (x, y, z) = (&rs[a], &rs[b], &rs[c]);
                let name = format!("{},{},{}", x.0, y.0, z.0);
                scripts.push((format!("server at once {}", name), vec![Op::Connect, send(0, &(x.1.clone() + &y.1 + &z.1)), Op::Half { conn: 0 }]));
                scripts.push((format!("server one by one {}", name), vec![Op::Connect, send(0, &x.1), send(0, &y.1), send(0, &z.1), Op::Half { conn: 0 }]));
                scripts.push((
                    format!("server two connections {}", name),
                    vec![Op::Connect, Op::Connect, send(0, &x.1[..5]), send(1, &y.1), send(0, &x.1[5..]), send(1, &z.1), Op::Half { conn: 1 }, Op::Close { conn: 0 }],
                ));
            }
        }
    }
    for n in [1, 1000, 65_536, 1_000_000, 3_000_000] {
        let head = format!("POST /echo/x?q=7 HTTP/1.1\r\nContent-Length: {}\r\n\r\n", n);
        scripts.push((format!("server body of {}", n), vec![Op::Connect, send(0, &head), Op::Fill { conn: 0, n }, send(0, &rs[2].1)]));
        scripts.push((
            format!("server slow reader {}", n),
            vec![Op::Connect, send(0, &head), Op::Hold { conn: 0 }, Op::Fill { conn: 0, n }, Op::Connect, send(1, &rs[0].1), Op::Read { conn: 0 }, send(0, &rs[2].1)],
        ));
    }
    for pooled in [false, true] {
        for m in ["POST", "GET", "HEAD"] {
            let p = |s: String| format!("{} {} {}", if pooled { "pooled" } else { "plain" }, m, s);
            scripts.push((p("refused".into()), vec![Op::Unlisten { peer: 0 }, call(pooled, 0, 3, m), call(pooled, 0, 3, m)]));
            for (n, r) in responses() {
                for i in 0..=r.len() {
                    scripts.push((
                        p(format!("split {} {}", n, i)),
                        vec![call(pooled, 0, 3, m), Op::Accept { peer: 0 }, send(0, &r[..i]), send(0, &r[i..]), Op::Half { conn: 0 }],
                    ));
                    for (en, e) in ends(0) {
                        scripts.push((p(format!("{} after {} of {}", en, i, n)), vec![call(pooled, 0, 3, m), Op::Accept { peer: 0 }, send(0, &r[..i]), e]));
                    }
                }
            }
            for n in [65_536, 3_000_000] {
                let head = format!("HTTP/1.1 200 OK\r\nX-Path: p\r\nContent-Length: {}\r\n\r\n", n);
                scripts.push((p(format!("large {}", n)), vec![call(pooled, 0, n, m), Op::Accept { peer: 0 }, send(0, &head), Op::Fill { conn: 0, n }]));
            }
        }
    }
    // histories of pooled calls: each op is an index into what is possible then
    pool_histories(5, &mut scripts);
    let n = scripts.len();
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).expect("create"));
    for (name, ops) in scripts {
        let t = trace(name, ops);
        serde_json::to_writer(&mut f, &t).unwrap();
        f.write_all(b"\n").unwrap();
    }
    f.flush().unwrap();
    println!("traces: {}", n);
}
/// What the generator knows: the connections (peer, busy with a call, dead).
#[derive(Clone)]
struct State {
    conns: Vec<(usize, bool, bool)>,
    ops: Vec<Op>,
    depth: usize,
}
fn pool_histories(depth: usize, out: &mut Vec<(String, Vec<Op>)>) {
    fn go(s: State, out: &mut Vec<(String, Vec<Op>)>) {
        if s.depth == 0 {
            out.push((format!("pool history {}", out.len()), s.ops));
            return;
        }
        let ok = "HTTP/1.1 200 OK\r\nX-Path: p\r\nContent-Length: 2\r\n\r\nhe";
        for peer in 0..2 {
            let mut t = s.clone();
            t.depth -= 1;
            t.ops.push(call(true, peer, 3, "POST"));
            let idle: Vec<usize> = (0..t.conns.len()).filter(|i| t.conns[*i].0 == peer && !t.conns[*i].1 && !t.conns[*i].2).collect();
            if idle.is_empty() {
                t.ops.push(Op::Accept { peer });
                t.conns.push((peer, true, false));
                go(t, out);
            } else {
                // which one is used: found by running the history
                for i in idle {
                    let mut u = t.clone();
                    u.conns[i].1 = true;
                    if plausible(&u.ops, i) {
                        go(u, out);
                    }
                }
            }
        }
        for i in 0..s.conns.len() {
            let (_, busy, dead) = s.conns[i];
            if dead {
                continue;
            }
            if !busy {
                for e in [Op::Close { conn: i }, Op::Half { conn: i }, Op::Reset { conn: i }, send(i, "x")] {
                    let mut t = s.clone();
                    t.depth -= 1;
                    t.ops.push(e);
                    t.conns[i].2 = true;
                    go(t, out);
                }
            }
            if busy {
                let mut t = s.clone();
                t.depth -= 1;
                t.ops.push(send(i, ok));
                t.conns[i].1 = false;
                go(t, out);
                for (e, x) in [(Op::Close { conn: i }, ""), (Op::Half { conn: i }, "surplus")] {
                    let mut t = s.clone();
                    t.depth -= 1;
                    if !x.is_empty() {
                        t.ops.push(send(i, &(ok.to_string() + x)));
                    }
                    t.ops.push(e);
                    t.conns[i] = (9, false, true);
                    go(t, out);
                }
            }
        }
    }
    /// Whether the last call of the history uses connection `i`.
    fn plausible(ops: &[Op], i: usize) -> bool {
        let t = trace(String::new(), ops.to_vec());
        let (a, b) = (&t.steps[t.steps.len() - 2].1, &t.steps[t.steps.len() - 1].1);
        a.conns[i] != b.conns[i]
    }
    go(State { conns: Vec::new(), ops: Vec::new(), depth }, out);
}
