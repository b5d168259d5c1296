//! C05: bodies under fragmentation and truncation.
use crate::app::*;
use crate::dynty::*;
use crate::exec::{self, Outcome, Sim};
use crate::explore::{short, Family};
use crate::net::{Cut, Net};
use crate::Tier;
use super::args::METHODS;
use super::responses::STATUSES;
use htrpc::types::HttpMethod::{self, *};
use htrpc::{RpcClient, RpcServerBuilder};
use mio::sim::{self, Side};
use std::io::ErrorKind;

pub fn pattern(n: usize, seed: usize) -> Vec<u8> {
    // includes every byte value, CR LF sequences and digits
    (0..n)
        .map(|i| match (i + seed) % 11 {
            0 => b'\r',
            1 => b'\n',
            2 => b'0',
            _ => (i * 37 + seed * 101 + i / 256) as u8,
        })
        .collect()
}

/// A call with these bodies must go through under the given network.
fn exchange_bodies(client: Client, request: &[u8], response: &[u8], net: Net, tune: impl FnOnce(&mut Sim)) -> Result<(), String> {
    exchange_shaped(Shape::default(), client, request, response, net, tune)
}
/// What the messages are like, apart from their bodies.
#[derive(Debug, Clone, Copy, PartialEq)]
struct Shape {
    method: HttpMethod,
    status: u16,
    path: bool,
    query: bool,
    header: bool,
    back: bool,
}
impl Default for Shape {
    fn default() -> Shape {
        Shape {
            method: Post,
            status: 200,
            path: false,
            query: false,
            header: false,
            back: false,
        }
    }
}
fn exchange_shaped(shape: Shape, client: Client, request: &[u8], response: &[u8], net: Net, tune: impl FnOnce(&mut Sim)) -> Result<(), String> {
    let fields = |b: bool| if b { Some(Fields::Struct(vec![("x-a", s("1")), ("x-b", s("two"))])) } else { None };
    let want_req = Req::<0> {
        path: if shape.path { Some(Path::Tuple(vec![s("v")])) } else { None },
        query: fields(shape.query),
        header: fields(shape.header),
        body: request.to_vec(),
    };
    let mut resp = Resp::<0>::status(shape.status, response);
    resp.header = fields(shape.back);
    let mut want = resp.clone();
    if shape.method == Head {
        want.body.clear();
    }
    let ty = want_req.ty();
    let back = RespTy::Status(resp.header.as_ref().map(|_| FieldsTy::strukt(vec![("x-a", Ty::Str), ("x-b", Ty::Str)])));
    let x = exchange_by(
        client,
        shape.method,
        ep(if shape.path { &[Some("b"), None] } else { &[Some("b")] }),
        want_req.clone(),
        move |_| resp.clone(),
        move |s| {
            set_req(0, ty);
            set_resp(0, back);
            net.install();
            tune(s)
        },
    );
    if x.outcome == Outcome::StepLimit {
        return Err("the exchange does not come to rest".into());
    }
    if x.log.len() != 1 {
        return Err(format!("the handler ran {} times", x.log.len()));
    }
    if x.log[0].1 != format!("{:?}", want_req) {
        return Err(format!("the handler got {}", short(&x.log[0].1)));
    }
    match x.result {
        Some(Ok(ref r)) if *r == want => Ok(()),
        other => Err(format!("the caller got {}", short(&format!("{:?}", other.map(|r| r.map_err(|e| e.to_string())))))),
    }
}

/// A server with one procedure and a client played by the harness. Returns the connection.
pub fn raw_client(method: HttpMethod, tune: impl FnOnce(&mut Sim)) -> (Sim, usize, crate::exec::Handle<Result<(), htrpc::Error>>) {
    exec::fresh();
    define(0, method, ep(&[Some("b")]));
    let mut b = RpcServerBuilder::new(addr(PORT));
    b.set_logger(crate::app::logger());
    b.register(Handler::now(0, |_| Resp::<0>::status(200, b"done")), Dp::<0>::new()).expect("register");
    let mut s = Sim::new();
    tune(&mut s);
    let h = start_server(&mut s, PORT, b);
    s.run();
    let c = sim::raw_connect(addr(PORT)).expect("listening");
    s.run();
    (s, c, h)
}
/// How the request type may read the whole body.
const READS: &[ReadMode] = &[
    ReadMode::All,
    ReadMode::Announced,
    ReadMode::Pieces(1),
    ReadMode::Pieces(2),
    ReadMode::Pieces(3),
    ReadMode::Pieces(7),
    ReadMode::Pieces(255),
    ReadMode::Pieces(256),
    ReadMode::Pieces(1023),
    ReadMode::Pieces(1024),
    ReadMode::Pieces(1025),
    ReadMode::Pieces(4096),
    ReadMode::Pieces(8192),
    ReadMode::Pieces(65535),
    ReadMode::Pieces(65536),
    ReadMode::Pieces(65537),
    ReadMode::Pieces(1 << 20),
];
/// Sends `pieces` one by one, then ends the stream; returns the logged requests and the answer.
fn feed(method: HttpMethod, pieces: &[&[u8]], end: End) -> Result<(Vec<String>, Vec<u8>), String> {
    feed_mode(ReadMode::All, method, pieces, end)
}
fn feed_mode(mode: ReadMode, method: HttpMethod, pieces: &[&[u8]], end: End) -> Result<(Vec<String>, Vec<u8>), String> {
    let (mut s, c, server) = raw_client(method, |_| set_read_mode(mode));
    for p in pieces {
        sim::raw_send(c, Side::Client, p);
        if s.run() == Outcome::StepLimit {
            return Err("the server does not come to rest".into());
        }
    }
    match end {
        End::Open => {}
        End::Close => sim::raw_close(c, Side::Client),
        End::Shutdown => sim::raw_shutdown(c, Side::Client),
        End::Reset => sim::raw_reset(c, Side::Client, true),
    }
    if s.run() == Outcome::StepLimit {
        return Err("the server does not come to rest".into());
    }
    if server.is_done() {
        return Err("the server ended".into());
    }
    let answer = sim::with_conn(c, |c| c.pipes[Side::Server as usize].log.clone());
    Ok((log().into_iter().map(|l| l.1).collect(), answer))
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum End {
    Open,
    Close,
    Shutdown,
    Reset,
}
pub const ENDS: &[End] = &[End::Open, End::Close, End::Shutdown, End::Reset];

fn want_log(body: &[u8]) -> Vec<String> {
    vec![format!(
        "{:?}",
        Req::<0> {
            body: body.to_vec(),
            ..Req::default()
        }
    )]
}
/// Sends a prefix of `msg` (of which `msg` is exactly one request with `body`).
fn prefix_case(method: HttpMethod, msg: &[u8], at: usize, end: End, body: &[u8]) -> Result<(), String> {
    let (log, answer) = feed(method, &[&msg[..at]], end)?;
    if at < msg.len() {
        if !log.is_empty() {
            return Err(format!("the handler ran for {} of {} bytes: {}", at, msg.len(), short(&log[0])));
        }
        if answer.starts_with(b"HTTP/1.1 2") {
            return Err("answered with success".into());
        }
    } else if log != want_log(body) {
        return Err(format!("the complete request gave {}", short(&format!("{:?}", log))));
    } else if end != End::Reset && end != End::Close && !answer.starts_with(b"HTTP/1.1 200 ") {
        return Err("the complete request was not answered".into());
    }
    Ok(())
}

/// A call to a server played by the harness which sends the pieces and then ends the stream.
pub fn feed_client(method: HttpMethod, pieces: &[&[u8]], end: End) -> Result<Option<Result<Resp<0>, String>>, String> {
    exec::fresh();
    define(0, method, ep(&[Some("b")]));
    sim::raw_listen(addr(PORT));
    let mut s = Sim::new();
    let mut client = RpcClient::new(addr(PORT));
    let call = s.run_fut("call", client.call::<Dp<0>>(Req::default()));
    s.run();
    let c = sim::raw_accept(addr(PORT)).ok_or("no connection")?;
    sim::raw_recv(c, Side::Server);
    for p in pieces {
        sim::raw_send(c, Side::Server, p);
        if s.run() == Outcome::StepLimit {
            return Err("the client does not come to rest".into());
        }
    }
    match end {
        End::Open => {}
        End::Close => sim::raw_close(c, Side::Server),
        End::Shutdown => sim::raw_shutdown(c, Side::Server),
        End::Reset => sim::raw_reset(c, Side::Server, true),
    }
    if s.run() == Outcome::StepLimit {
        return Err("the client does not come to rest".into());
    }
    Ok(call.take().map(|r| r.map_err(|e| e.to_string())))
}
fn client_prefix_case(msg: &[u8], at: usize, end: End, body: &[u8]) -> Result<(), String> {
    client_prefix_of(Post, 200, msg, at, end, body)
}
fn client_prefix_of(method: HttpMethod, status: u16, msg: &[u8], at: usize, end: End, body: &[u8]) -> Result<(), String> {
    let r = feed_client(method, &[&msg[..at]], end)?;
    let complete = at == msg.len();
    match r {
        Some(Ok(ref r)) if complete && *r == Resp::<0>::status(status, body) => Ok(()),
        Some(Err(_)) if !complete && end != End::Open => Ok(()),
        None if !complete && end == End::Open => Ok(()),
        // malformed enough to be refused early
        Some(Err(_)) if !complete => Err("failed although the rest could have followed".into()),
        other => Err(format!("{} of {} bytes gave {}", at, msg.len(), short(&format!("{:?}", other)))),
    }
}
pub fn request(body: &[u8]) -> Vec<u8> {
    let mut m = format!("POST /b HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes();
    m.extend(body);
    m
}
pub fn response(body: &[u8]) -> Vec<u8> {
    let mut m = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes();
    m.extend(body);
    m
}
/// Encodes the body with the given chunk sizes.
pub fn chunked(start: &str, body: &[u8], sizes: &[usize], style: usize) -> Vec<u8> {
    let mut m = format!("{}\r\nTransfer-Encoding: {}\r\n\r\n", start, if style == 1 { "Chunked" } else { "chunked" }).into_bytes();
    let mut rest = body;
    for n in sizes {
        let (a, b) = rest.split_at(*n);
        match style {
            0 => m.extend(format!("{:x}\r\n", n).into_bytes()),
            1 => m.extend(format!("{:X};ext=1\r\n", n).into_bytes()),
            3 => m.extend(format!("{:x};{}=\"{}\"\r\n", n, "e".repeat(60), "v".repeat(n % 200 + 100)).into_bytes()),
            _ => m.extend(format!("{:04x}\r\n", n).into_bytes()),
        }
        m.extend(a);
        m.extend(b"\r\n");
        rest = b;
    }
    m.extend(match style {
        2 => &b"0\r\nTrailer: x\r\n\r\n"[..],
        3 => &b"00;last\r\nX-A: 1\r\nX-B: a longer trailer with GET / HTTP/1.1 in it which is nothing but a trailer\r\nX-C:\r\n\r\n"[..],
        _ => &b"0\r\n\r\n"[..],
    });
    m
}
/// A request and a response in chunks, complete and without their last bytes.
fn large_chunks(b: &[u8], sizes: &[usize]) -> Result<(), String> {
    let m = chunked("POST /b HTTP/1.1", b, sizes, 0);
    let (log, answer) = feed(Post, &[&m], End::Open)?;
    if log != want_log(b) || !answer.starts_with(b"HTTP/1.1 200 ") {
        return Err(format!("request: {}", short(&format!("{:?}", log))));
    }
    for left in [1, 3, 6] {
        let (log, answer) = feed(Post, &[&m[..m.len() - left]], End::Close)?;
        if !log.is_empty() || answer.starts_with(b"HTTP/1.1 2") {
            return Err(format!("request without {} bytes: {}", left, short(&format!("{:?}", log))));
        }
    }
    let m = chunked("HTTP/1.1 200 OK", b, sizes, 0);
    match feed_client(Post, &[&m], End::Open)? {
        Some(Ok(ref x)) if *x == Resp::<0>::status(200, b) => {}
        other => return Err(format!("response: {}", short(&format!("{:?}", other)))),
    }
    for left in [1, 3, 6] {
        match feed_client(Post, &[&m[..m.len() - left]], End::Close)? {
            Some(Err(_)) => {}
            other => return Err(format!("response without {} bytes: {}", left, short(&format!("{:?}", other)))),
        }
    }
    Ok(())
}
/// All ways to write `n` as a sum of positive numbers, in order.
pub fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for k in 1..=n {
        for mut c in compositions(n - k) {
            c.insert(0, k);
            out.push(c);
        }
    }
    out
}
/// Splits bytes at the given offsets.
pub fn split_at<'a>(m: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut out = Vec::new();
    let mut from = 0;
    for c in cuts.iter().chain([&m.len()]) {
        if *c > from {
            out.push(&m[from..*c]);
            from = *c;
        }
    }
    out
}

pub fn c05(tier: Tier) -> Vec<Family> {
    let deep = tier == Tier::Thorough;
    let mut out = Vec::new();
    // lengths, plain network
    let lens: Vec<usize> = if deep {
        (0..9000).chain([16383, 16384, 65535, 65536, 65537, 300_000, 2_000_000]).collect()
    } else {
        (0..150)
            .chain(850..1100)
            .chain([1500, 2047, 2048, 2049, 4095, 4096, 4097, 7900, 8000, 8095, 8096, 8097, 8200, 16384, 65536, 300_000])
            .collect()
    };
    out.push(Family::list("lengths", 0, lens, |n| {
        exchange_bodies(Client::Plain, &pattern(*n, 1), &pattern(*n, 2), Net::default(), |_| {})?;
        exchange_bodies(Client::Pooled, &pattern(*n, 3), b"", Net::default(), |_| {})?;
        exchange_bodies(Client::Pooled, b"", &pattern(*n, 4), Net::default(), |_| {})
    }));
    // large bodies, of announced length and in chunks
    let mut large: Vec<usize> = vec![100_000, 1_000_000, 1_000_001, 2_000_000, 3_000_000, 5_000_000];
    for bits in tier.pick(17..23, 17..25) {
        large.extend([(1usize << bits) - 1, 1 << bits, (1 << bits) + 1]);
    }
    large.extend(tier.pick(vec![], vec![10_000_000, 10_000_001, 20_000_000]));
    let mut cases = Vec::new();
    for n in large {
        for kind in 0..6 {
            cases.push((n, kind));
        }
    }
    out.push(Family::list("large bodies", 0, cases, |(n, kind)| {
        let b = pattern(*n, 1);
        match kind {
            0 => exchange_bodies(Client::Plain, &b, b"x", Net::default(), |_| {}),
            1 => exchange_bodies(Client::Plain, b"x", &b, Net::default(), |_| {}),
            2 => exchange_bodies(Client::Pooled, &b, &b, Net::default(), |_| {}),
            3 => {
                // in one and in several chunks
                for sizes in [vec![*n], vec![1, *n - 1], vec![*n / 3, *n / 3, *n - 2 * (*n / 3)]] {
                    large_chunks(&b, &sizes)?;
                }
                Ok(())
            }
            _ => {
                // all but the last byte
                let end = if *kind == 4 { End::Close } else { End::Shutdown };
                let m = request(&b);
                prefix_case(Post, &m, m.len() - 1, end, &b)?;
                let m = response(&b);
                client_prefix_case(&m, m.len() - 1, end, &b)
            }
        }
    }));
    // many chunks
    let mut cases = Vec::new();
    for n in [50usize, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 1000, 1001, 1023, 1024, 1025, 4096, 4097, 10_000, 20_000]
        .into_iter()
        .chain(tier.pick(vec![], vec![32_768, 65_535, 65_536, 65_537, 100_000, 300_000]))
    {
        for size in [1usize, 2, 17] {
            cases.push((n, size));
        }
    }
    out.push(Family::list("many chunks", 0, cases, |(n, size)| {
        large_chunks(&pattern(n * size, 6), &vec![*size; *n])
    }));
    // contents: every byte value, every pair of special bytes
    let special: Vec<u8> = vec![0, b'\n', b'\r', b'0', b'5', b' ', b':', b'H', 0x7f, 0x80, 0xff];
    let mut cases: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    for a in &special {
        for b in &special {
            cases.push(vec![*a, *b]);
            for c in &special {
                cases.push(vec![*a, *b, *c]);
                for d in [b'\n', b'\r', 0, b'0'] {
                    cases.push(vec![*a, *b, *c, d]);
                }
            }
        }
    }
    for t in ["GET / HTTP/1.1\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "0\r\n\r\n", "5\r\nhello\r\n0\r\n\r\n", "\r\n\r\n"] {
        cases.push(t.as_bytes().to_vec());
        cases.push(t.repeat(200).into_bytes());
    }
    out.push(Family::list("contents", 0, cases, |b| {
        for c in [1usize, 0] {
            let net = Net {
                read_chunk: [c, c],
                ..Net::default()
            };
            exchange_bodies(Client::Plain, b, b, net, |_| {})?;
        }
        Ok(())
    }));
    // whatever the messages are like otherwise
    let mut shapes = Vec::new();
    for method in METHODS {
        for status in STATUSES {
            for len in [0, 1, 700] {
                let shape = Shape {
                    method: *method,
                    status: status.0,
                    ..Shape::default()
                };
                shapes.push((shape, len));
            }
        }
        for bits in 0..16 {
            for len in if deep { vec![0, 1, 2, 700, 3000, 9000] } else { vec![0, 1, 1500] } {
                let shape = Shape {
                    method: *method,
                    status: 200,
                    path: bits & 1 > 0,
                    query: bits & 2 > 0,
                    header: bits & 4 > 0,
                    back: bits & 8 > 0,
                };
                shapes.push((shape, len));
            }
        }
    }
    out.push(Family::list("shapes of messages", 0, shapes, |(shape, n)| {
        for client in [Client::Plain, Client::Pooled] {
            exchange_shaped(*shape, client, &pattern(*n, 1), &pattern(*n, 2), Net::default(), |_| {})?;
            exchange_shaped(*shape, client, &pattern(*n, 1), b"", Net::default(), |_| {})?;
            exchange_shaped(*shape, client, b"", &pattern(*n, 2), Net::default(), |_| {})?;
        }
        Ok(())
    }));
    let of = |start: String, body: &[u8]| [format!("{}\r\nContent-Length: {}\r\n\r\n", start, body.len()).as_bytes(), body].concat();
    let mut cases = Vec::new();
    for method in METHODS {
        for at in 0..=of(format!("{} /b HTTP/1.1", method), b"12\r\n5").len() {
            cases.push((*method, at));
        }
    }
    out.push(Family::list("truncated requests, every method", 0, cases, move |(method, at)| {
        let m = of(format!("{} /b HTTP/1.1", method), b"12\r\n5");
        for e in ENDS {
            prefix_case(*method, &m, *at, *e, b"12\r\n5")?;
        }
        Ok(())
    }));
    let mut cases = Vec::new();
    for method in METHODS.iter().filter(|m| **m != Head) {
        for at in 0..=of("HTTP/1.1 200 X".into(), b"12\r\n5").len() {
            cases.push((*method, 200, at));
        }
    }
    for status in STATUSES {
        for at in 0..=of(format!("HTTP/1.1 {} X", status.0), b"12\r\n5").len() {
            cases.push((Post, status.0, at));
            cases.push((Get, status.0, at));
        }
    }
    out.push(Family::list("truncated responses, every method and status", 0, cases, move |(method, status, at)| {
        let m = of(format!("HTTP/1.1 {} X", status), b"12\r\n5");
        for e in ENDS {
            client_prefix_of(*method, *status, &m, *at, *e, b"12\r\n5")?;
        }
        Ok(())
    }));
    // announced bodies which are too long to be true
    let mut cases = Vec::new();
    for n in [1u64 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 48, 1 << 63, 0] {
        for more in [0u64, 1, 5, 255, 256, u64::MAX] {
            let n = n.wrapping_add(more);
            if n > 256 {
                cases.push(n);
            }
        }
    }
    out.push(Family::list("enormous lengths", 0, cases, |n| {
        for len in [0, 1, 5, 255, 256] {
            for e in ENDS {
                let mut m = format!("POST /b HTTP/1.1\r\nContent-Length: {}\r\n\r\n", n).into_bytes();
                m.extend(pattern(len, 1));
                let (log, answer) = feed(Post, &[&m], *e)?;
                if !log.is_empty() || answer.starts_with(b"HTTP/1.1 2") {
                    return Err(format!("{} of {} bytes of a request were taken as complete", len, n));
                }
                let mut m = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", n).into_bytes();
                m.extend(pattern(len, 1));
                match feed_client(Post, &[&m], *e)? {
                    Some(Err(_)) => {}
                    None if *e == End::Open => {}
                    other => return Err(format!("{} of {} bytes of a response gave {}", len, n, short(&format!("{:?}", other)))),
                }
            }
        }
        Ok(())
    }));
    // constant transfer sizes in all four places
    let sizes = [0usize, 1, 2, 3, 7, 64];
    let n = sizes.len();
    let lens = [0usize, 1, 2, 5, 30, 200, 1100];
    out.push(Family::new(
        "transfer sizes",
        n.pow(4) * 2 * lens.len(),
        0,
        move |i| {
            format!(
                "sizes {:?} block {} len {}",
                [sizes[i % n], sizes[i / n % n], sizes[i / n / n % n], sizes[i / n.pow(3) % n]],
                i / n.pow(4) % 2,
                lens[i / n.pow(4) / 2]
            )
        },
        move |i| {
            let net = Net {
                read_chunk: [sizes[i % n], sizes[i / n % n]],
                write_chunk: [sizes[i / n / n % n], sizes[i / n.pow(3) % n]],
                block: i / n.pow(4) % 2 == 1,
                ..Net::default()
            };
            let len = lens[i / n.pow(4) / 2];
            exchange_bodies(Client::Plain, &pattern(len, 1), &pattern(len, 2), net, |_| {})
        },
    ));
    // one and two splits at every offset of either stream
    let mut cases: Vec<(usize, Vec<(Side, u64)>, Vec<(Side, u64)>)> = Vec::new();
    let len = 24;
    let total = 110u64;
    for side in [Side::Client, Side::Server] {
        for o in 1..total {
            cases.push((len, vec![(side, o)], vec![]));
            cases.push((len, vec![], vec![(side, o)]));
            for p in (o + 1)..total {
                cases.push((len, vec![(side, o), (side, p)], vec![]));
                cases.push((len, vec![], vec![(side, o), (side, p)]));
            }
        }
    }
    out.push(Family::list("splits", 0, cases, |(len, r, w)| {
        let net = Net {
            read_splits: r.clone(),
            write_splits: w.clone(),
            ..Net::default()
        };
        exchange_bodies(Client::Plain, &pattern(*len, 1), &pattern(*len, 2), net, |_| {})
    }));
    // splits and spurious would-blocks at any transfer, with scheduling choices
    out.push(Family::list(
        "split choices",
        tier.pick(2, 3),
        vec![(0usize, 0usize), (1, 1), (5, 0), (0, 5), (9, 9), (40, 40), (1000, 1000), (1030, 9000)],
        |(a, b)| {
            let net = Net {
                choices: true,
                ..Net::default()
            };
            exchange_bodies(Client::Plain, &pattern(*a, 5), &pattern(*b, 6), net, |s| s.explore = true)
        },
    ));
    out.push(Family::list(
        "split choices, pooled",
        2,
        vec![(0usize, 0usize), (5, 5), (1000, 1000)],
        |(a, b)| {
            let net = Net {
                choices: true,
                ..Net::default()
            };
            exchange_bodies(Client::Pooled, &pattern(*a, 5), &pattern(*b, 6), net, |s| s.explore = true)
        },
    ));
    // backpressure: the peer reads only when the pipe is full
    let mut cases = Vec::new();
    for cap in [1usize, 2, 10, 100, 1000, 5000] {
        for len in [0usize, 1, 50, 1000, 9000] {
            if cap > 2 || len <= 1000 {
                cases.push((cap, len));
            }
        }
    }
    out.push(Family::list("backpressure", 0, cases, |(cap, len)| {
        // small chunks on write model a full send buffer; the reader drains it
        for rd in [0usize, 1] {
            let net = Net {
                write_chunk: [*cap, *cap],
                read_chunk: [rd, rd],
                block: true,
                ..Net::default()
            };
            exchange_bodies(Client::Plain, &pattern(*len, 7), &pattern(*len, 8), net, |_| {})?;
        }
        Ok(())
    }));
    // truncated requests
    let mut cases = Vec::new();
    for len in [0usize, 1, 2, 10, 33] {
        let m = request(&pattern(len, 3));
        for at in 0..=m.len() {
            for e in ENDS {
                cases.push((len, at, *e));
            }
        }
    }
    let m = request(&pattern(1100, 3));
    for at in (0..=m.len()).rev().step_by(1) {
        for e in ENDS {
            cases.push((1100, at, *e));
        }
    }
    out.push(Family::list("truncated requests", 0, cases, |(len, at, e)| {
        let b = pattern(*len, 3);
        prefix_case(Post, &request(&b), *at, *e, &b)
    }));
    let mut cases = Vec::new();
    for len in [0usize, 1, 2, 10, 33] {
        for at in 0..=response(&pattern(len, 3)).len() {
            for e in ENDS {
                cases.push((len, at, *e));
            }
        }
    }
    let m = response(&pattern(1100, 3));
    for at in (0..=m.len()).rev().step_by(1) {
        for e in ENDS {
            cases.push((1100, at, *e));
        }
    }
    out.push(Family::list("truncated responses", 0, cases, |(len, at, e)| {
        let b = pattern(*len, 3);
        client_prefix_case(&response(&b), *at, *e, &b)
    }));
    // the stream between two htrpc sides ends at every offset
    let mut cases = Vec::new();
    for len in [0usize, 3, 40] {
        for side in [Side::Client, Side::Server] {
            for off in 0..130u64 {
                for c in [Cut::Eof, Cut::Err(ErrorKind::ConnectionReset), Cut::Err(ErrorKind::TimedOut)] {
                    cases.push((len, side, off, c));
                }
            }
        }
    }
    out.push(Family::list("cut streams", 0, cases, |(len, side, off, c)| {
        let (len, side, off) = (*len, *side, *off);
        let body = pattern(len, 1);
        let want = Req::<0> {
            body: body.clone(),
            ..Req::default()
        };
        let resp = Resp::<0>::status(200, &pattern(len, 2));
        let want_resp = resp.clone();
        let cut = *c;
        let x = exchange_by(
            Client::Plain,
            Post,
            ep(&[Some("b")]),
            want.clone(),
            move |_| resp.clone(),
            move |_| {
                Net {
                    read_cut: Some((side, off, cut)),
                    ..Net::default()
                }
                .install()
            },
        );
        let complete = if side == Side::Server { x.sent.len() as u64 <= off } else { true };
        match x.log.len() {
            0 if !complete => {}
            1 if complete && x.log[0].1 == format!("{:?}", want) => {}
            k => return Err(format!("the handler ran {} times: {}", k, short(&format!("{:?}", x.log)))),
        }
        match x.result {
            Some(Ok(ref r)) if *r == want_resp && x.answered.len() > 0 => {
                if side == Side::Client && (x.answered.len() as u64) > off {
                    return Err("success although the response was cut".into());
                }
                Ok(())
            }
            Some(Err(_)) => {
                if side == Side::Client && x.answered.len() as u64 <= off {
                    return Err("failed although the response was complete".into());
                }
                Ok(())
            }
            other => Err(format!("{}", short(&format!("{:?}", other)))),
        }
    }));
    // chunked bodies: all compositions, styles, fragmentations and truncations
    let mut cases = Vec::new();
    for len in 0..=tier.pick(5, 7) {
        for c in compositions(len) {
            for style in 0..4 {
                cases.push((c.clone(), style));
            }
        }
    }
    for c in [vec![9, 9], vec![10, 1], vec![15, 16, 17], vec![100, 1, 100], vec![1000, 1000], vec![26, 1], vec![8192, 10], vec![300, 0x1234]] {
        for style in 0..4 {
            cases.push((c.clone(), style));
        }
    }
    out.push(Family::list("chunked bodies", 0, cases.clone(), |(sizes, style)| {
        let b = pattern(sizes.iter().sum(), 4);
        let m = chunked("POST /b HTTP/1.1", &b, sizes, *style);
        let r = chunked("HTTP/1.1 200 OK", &b, sizes, *style);
        let single = m.len() < 200;
        let cuts = |n: usize| -> Vec<Vec<usize>> {
            let mut v = vec![vec![], (1..n).collect(), (1..n).filter(|i| i % 2 == 0).collect()];
            if single {
                v.extend((1..n).map(|i| vec![i]));
            }
            v
        };
        for c in cuts(m.len()) {
            let (log, answer) = feed(Post, &split_at(&m, &c), End::Open)?;
            if log != want_log(&b) || !answer.starts_with(b"HTTP/1.1 200 ") {
                return Err(format!("request split at {:?}: {}", c, short(&format!("{:?}", log))));
            }
        }
        for c in cuts(r.len()) {
            match feed_client(Post, &split_at(&r, &c), End::Open)? {
                Some(Ok(ref x)) if *x == Resp::<0>::status(200, &b) => {}
                other => return Err(format!("response split at {:?}: {}", c, short(&format!("{:?}", other)))),
            }
        }
        Ok(())
    }));
    // however the request type reads its body
    let mut ways = Vec::new();
    for mode in READS {
        for len in [0usize, 1, 2, 3, 6, 7, 8, 50, 255, 256, 257, 1023, 1024, 1025, 3000, 8192, 65535, 65536, 65537, 140_000] {
            if len < 5000 || !matches!(mode, ReadMode::Pieces(n) if *n < 200) {
                ways.push((*mode, len));
            }
        }
    }
    out.push(Family::list("ways of reading", 0, ways, |(mode, len)| {
        let (mode, len) = (*mode, *len);
        let b = pattern(len, 5);
        let mut messages = vec![request(&b)];
        for style in 0..4 {
            messages.push(chunked("POST /b HTTP/1.1", &b, &[len].iter().filter(|n| **n > 0).cloned().collect::<Vec<_>>(), style));
            messages.push(chunked("POST /b HTTP/1.1", &b, &[len / 3, len - len / 3].iter().filter(|n| **n > 0).cloned().collect::<Vec<_>>(), style));
        }
        for m in messages {
            let n = m.len();
            let mut cuts = vec![vec![], vec![n - 1], vec![n / 2], vec![n / 3, n / 3 + 1, 2 * n / 3]];
            if n < 400 {
                cuts.push((1..n).collect());
            }
            for c in cuts {
                let (log, answer) = feed_mode(mode, Post, &split_at(&m, &c), End::Open)?;
                if log != want_log(&b) || !answer.starts_with(b"HTTP/1.1 200 ") {
                    return Err(format!("split at {:?}: {}", c, short(&format!("{:?}", log))));
                }
            }
            // every truncation of short ones, a few of others
            let cuts: Vec<usize> = if n < 200 { (0..n).collect() } else { vec![n / 2, n - 1, n - 2, n - 5] };
            for at in cuts {
                for e in ENDS {
                    let (log, answer) = feed_mode(mode, Post, &[&m[..at]], *e)?;
                    if !log.is_empty() || answer.starts_with(b"HTTP/1.1 2") {
                        return Err(format!("{} of {} bytes were taken as complete: {}", at, n, short(&format!("{:?}", log))));
                    }
                }
            }
        }
        Ok(())
    }));
    let mut tr = Vec::new();
    for (sizes, style) in cases {
        if sizes.iter().sum::<usize>() <= 200 {
            let b = pattern(sizes.iter().sum(), 4);
            for at in 0..=chunked("POST /b HTTP/1.1", &b, &sizes, style).len() {
                tr.push((sizes.clone(), style, at));
            }
        }
    }
    out.push(Family::list("truncated chunked bodies", 0, tr, |(sizes, style, at)| {
        let b = pattern(sizes.iter().sum(), 4);
        let m = chunked("POST /b HTTP/1.1", &b, sizes, *style);
        let r = chunked("HTTP/1.1 200 OK", &b, sizes, *style);
        for e in ENDS {
            prefix_case(Post, &m, *at, *e, &b)?;
            if *at <= r.len() {
                client_prefix_case(&r, *at, *e, &b)?;
            }
        }
        Ok(())
    }));
    out
}
