//! C08: sequences of requests on one connection.
use crate::app::*;
use crate::dynty::*;
use crate::exec::{self, Handle, Outcome, Sim};
use crate::explore::{short, Family};
use crate::http::{self, Msg};
use crate::net::Net;
use crate::Tier;
use futures::Future;
use htrpc::types::HttpMethod::{self, Get, Head, Post};
use htrpc::RpcServerBuilder;
use mio::sim::{self, Side};
use std::time::Duration;

use super::args::METHODS;
use super::bodies::{chunked, pattern, split_at};
use super::responses::STATUSES;

/// Kinds of requests.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    /// `POST /b` with a body of which the content is a request.
    Post,
    /// `POST /b` with a chunked body.
    Chunked,
    /// `POST /b` with an empty body.
    Empty,
    /// `GET /g/{n}` without body.
    Get,
    /// `GET /g/{n}` with a body.
    GetBody,
    /// `HEAD /h`.
    Head,
    /// `GET /nope` with a body: 404.
    NotFound,
    /// `PUT /b` with a body: 405.
    NotAllowed,
    /// `GET /g/x` with a chunked body: 400.
    Bad,
    /// `HEAD /nope`: 404, `HEAD /b`: 405.
    HeadNotFound,
    HeadNotAllowed,
    /// `GET /slow/{n}`: answered after a while.
    Slow,
    /// A target which is not a URL: 400.
    BadTarget,
}
pub const KINDS: &[Kind] = &[
    Kind::Post,
    Kind::Chunked,
    Kind::Empty,
    Kind::Get,
    Kind::GetBody,
    Kind::Head,
    Kind::NotFound,
    Kind::NotAllowed,
    Kind::Bad,
    Kind::HeadNotFound,
    Kind::HeadNotAllowed,
    Kind::Slow,
    Kind::BadTarget,
];
impl Kind {
    fn head(self) -> bool {
        matches!(self, Kind::Head | Kind::HeadNotFound | Kind::HeadNotAllowed)
    }
}
fn with_len(start: &str, body: &[u8]) -> Vec<u8> {
    let mut m = format!("{}\r\nContent-Length: {}\r\n\r\n", start, body.len()).into_bytes();
    m.extend(body);
    m
}
/// The content of the bodies: must never be taken for requests.
fn trap(n: usize) -> Vec<u8> {
    format!("POST /b HTTP/1.1\r\nContent-Length: 2\r\n\r\n{}!", n).into_bytes()
}
#[derive(Debug, Clone)]
pub struct Exchange {
    pub head: bool,
    pub bytes: Vec<u8>,
    /// Slot, request arguments as logged; `None`: no handler runs.
    run: Option<(usize, String)>,
    status: u16,
    body: Option<Vec<u8>>,
}
fn cut(b: &[u8], mode: ReadMode) -> Vec<u8> {
    match mode {
        ReadMode::All | ReadMode::Pieces(_) | ReadMode::Announced => b.to_vec(),
        ReadMode::Nothing => Vec::new(),
        ReadMode::Some(n) => b[..n.min(b.len())].to_vec(),
    }
}
fn req(path: Option<V>, body: Vec<u8>) -> String {
    format!(
        "{:?}",
        Req::<0> {
            path: path.map(|v| Path::Tuple(vec![v])),
            body,
            ..Req::default()
        }
    )
}
fn post(body: &[u8], bytes: Vec<u8>, mode: ReadMode) -> Exchange {
    let b = cut(body, mode);
    let mut reply = b"got ".to_vec();
    reply.extend(&b);
    Exchange {
        head: false,
        bytes,
        run: Some((0, req(None, b))),
        status: 200,
        body: Some(reply),
    }
}
/// The `n`th request of a sequence.
pub fn make(kind: Kind, n: usize, mode: ReadMode) -> Exchange {
    let t = trap(n);
    let num = V::U32(n as u32);
    let rejected = |bytes: Vec<u8>, status: u16| Exchange {
        head: kind.head(),
        bytes,
        run: None,
        status,
        body: None,
    };
    match kind {
        Kind::Post => post(&t, with_len("POST /b HTTP/1.1", &t), mode),
        Kind::Chunked => post(&t, chunked("POST /b HTTP/1.1", &t, &[7, 1, 20, t.len() - 28], 0), mode),
        Kind::Empty => post(b"", with_len("POST /b HTTP/1.1", b""), mode),
        Kind::Get | Kind::GetBody => {
            let (body, bytes) = if kind == Kind::Get {
                (vec![], format!("GET /g/{} HTTP/1.1\r\nHost: h\r\n\r\n", n).into_bytes())
            } else {
                (t.clone(), with_len(&format!("GET /g/{} HTTP/1.1", n), &t))
            };
            Exchange {
                head: false,
                bytes,
                run: Some((1, req(Some(num), cut(&body, mode)))),
                status: 201,
                body: Some(format!("number {}", n).into_bytes()),
            }
        }
        Kind::Slow => Exchange {
            head: false,
            bytes: format!("GET /slow/{} HTTP/1.1\r\nHost: h\r\n\r\n", n).into_bytes(),
            run: Some((3, req(Some(num), vec![]))),
            status: 202,
            body: Some(format!("slow {}", n).into_bytes()),
        },
        Kind::Head => Exchange {
            head: true,
            bytes: b"HEAD /h HTTP/1.1\r\n\r\n".to_vec(),
            run: Some((2, req(None, vec![]))),
            status: 203,
            body: None,
        },
        Kind::NotFound => rejected(with_len(&format!("GET /nope/{} HTTP/1.1", n), &t), 404),
        Kind::NotAllowed => rejected(with_len("PUT /b HTTP/1.1", &t), 405),
        Kind::Bad => rejected(chunked("GET /g/x HTTP/1.1", &t, &[3, t.len() - 3], 1), 400),
        Kind::BadTarget => rejected(with_len("GET http://[ HTTP/1.1", &t), 400),
        Kind::HeadNotFound => rejected(b"HEAD /nope HTTP/1.1\r\n\r\n".to_vec(), 404),
        Kind::HeadNotAllowed => rejected(b"HEAD /b HTTP/1.1\r\nContent-Length: 0\r\n\r\n".to_vec(), 405),
    }
}
pub fn server(mode: ReadMode, tune: impl FnOnce(&mut Sim)) -> (Sim, Handle<Result<(), htrpc::Error>>) {
    exec::fresh();
    set_read_mode(mode);
    define(0, Post, ep(&[Some("b")]));
    define(1, Get, ep(&[Some("g"), None]));
    define(2, Head, ep(&[Some("h")]));
    define(3, Get, ep(&[Some("slow"), None]));
    for i in [1, 3] {
        set_req(
            i,
            ReqTy {
                path: Some(PathTy::Tuple(vec![Ty::U32])),
                query: None,
                header: None,
            },
        );
    }
    fn number<const N: usize>(r: &Req<N>) -> String {
        match r.path {
            Some(Path::Tuple(ref v)) => match v[0] {
                V::U32(n) => n.to_string(),
                _ => "?".into(),
            },
            _ => "?".into(),
        }
    }
    let mut b = RpcServerBuilder::new(addr(PORT));
    b.set_logger(crate::app::logger());
    b.register(
        Handler::now(0, |r: Req<0>| {
            let mut x = b"got ".to_vec();
            x.extend(&r.body);
            Resp::<0>::status(200, &x)
        }),
        Dp::<0>::new(),
    )
    .expect("register");
    b.register(
        Handler::now(1, |r: Req<1>| Resp::<1>::status(201, format!("number {}", number(&r)).as_bytes())),
        Dp::<1>::new(),
    )
    .expect("register");
    b.register(Handler::now(2, |_| Resp::<2>::status(203, b"not sent")), Dp::<2>::new())
        .expect("register");
    b.register(
        Handler::fut(3, |r: Req<3>| {
            let text = format!("slow {}", number(&r));
            Box::new(
                fibers::time::timer::timeout(Duration::from_secs(2))
                    .map_err(|e| panic!("timer: {:?}", e))
                    .map(move |()| Resp::<3>::status(202, text.as_bytes())),
            )
        }),
        Dp::<3>::new(),
    )
    .expect("register");
    let mut sim = Sim::new();
    tune(&mut sim);
    let h = start_server(&mut sim, PORT, b);
    sim.run();
    (sim, h)
}
pub fn judge(want: &[Exchange], runs: &[(usize, String)], answer: &[u8]) -> Result<(), String> {
    let wanted: Vec<(usize, String)> = want.iter().filter_map(|w| w.run.clone()).collect();
    if *runs != wanted[..] {
        return Err(format!("handlers ran with {}, want {}", short(&format!("{:?}", runs)), short(&format!("{:?}", wanted))));
    }
    let heads: Vec<bool> = want.iter().map(|w| w.head).collect();
    let msgs: Vec<Msg> = http::parse_all(answer, &heads)?;
    if msgs.len() != want.len() {
        return Err(format!("{} responses to {} requests", msgs.len(), want.len()));
    }
    for (i, (m, w)) in msgs.iter().zip(want).enumerate() {
        if m.status() != w.status {
            return Err(format!("response {} has status {} instead of {}", i, m.status(), w.status));
        }
        if !w.head {
            if let Some(ref b) = w.body {
                if *b != m.body {
                    return Err(format!("response {} has body {}", i, short(&format!("{:?}", String::from_utf8_lossy(&m.body)))));
                }
            }
        }
    }
    Ok(())
}
#[derive(Debug, Clone)]
pub enum Delivery {
    /// Everything in one piece.
    AtOnce,
    /// The next request after the response to the last one.
    Alternating,
    /// The same, but judged at the end only.
    OneByOne,
    ByteByByte,
    /// Split at these offsets of the stream.
    Cuts(Vec<usize>),
    /// Pieces of this size.
    Pieces(usize),
}
/// Delivers the requests and judges the responses.
pub fn converse(want: &[Exchange], mode: ReadMode, delivery: &Delivery, net: Net, tune: impl FnOnce(&mut Sim)) -> Result<(), String> {
    let (mut sim, server) = server(mode, |_| {});
    net.install();
    tune(&mut sim);
    let c = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
    let stream: Vec<u8> = want.iter().flat_map(|w| w.bytes.clone()).collect();
    let pieces: Vec<&[u8]> = match delivery {
        Delivery::AtOnce => vec![&stream],
        Delivery::OneByOne => want.iter().map(|w| &w.bytes[..]).collect(),
        Delivery::ByteByByte => stream.chunks(1).collect(),
        Delivery::Pieces(n) => stream.chunks(*n).collect(),
        Delivery::Cuts(c) => split_at(&stream, c),
        Delivery::Alternating => {
            for (i, w) in want.iter().enumerate() {
                sim::raw_send(c, Side::Client, &w.bytes);
                if sim.run() == Outcome::StepLimit {
                    return Err("the server does not come to rest".into());
                }
                let answer = sim::with_conn(c, |c| c.pipes[Side::Server as usize].log.clone());
                judge(&want[..=i], &log(), &answer)?;
            }
            vec![]
        }
    };
    for p in pieces {
        sim::raw_send(c, Side::Client, p);
        if sim.run() == Outcome::StepLimit {
            return Err("the server does not come to rest".into());
        }
    }
    sim.run();
    let answer = sim::with_conn(c, |c| c.pipes[Side::Server as usize].log.clone());
    judge(want, &log(), &answer)?;
    if sim::raw_is_closed(c, Side::Client) {
        return Err("the connection was closed although the peer has not".into());
    }
    if server.is_done() {
        return Err("the server ended".into());
    }
    Ok(())
}
pub const MODES: &[ReadMode] = &[ReadMode::All, ReadMode::Nothing, ReadMode::Some(1), ReadMode::Some(30), ReadMode::Pieces(3), ReadMode::Announced];
pub fn tuples<T: Copy>(of: &[T], n: usize) -> Vec<Vec<T>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for t in tuples(of, n - 1) {
        for x in of {
            let mut t = t.clone();
            t.push(*x);
            out.push(t);
        }
    }
    out
}
/// Where a request is made longer.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Pad {
    Target,
    Header,
    Headers,
    Body,
}
/// The `n`th request of a sequence, with a part which is longer than usual by `size`.
fn padded(kind: Kind, n: usize, mode: ReadMode, pad: Pad, size: usize) -> Option<Exchange> {
    let mut e = make(kind, n, mode);
    let text = String::from_utf8(e.bytes.clone()).expect("ASCII");
    let (start, rest) = text.split_once(" HTTP/1.1\r\n").expect("a request line");
    let (start, rest) = (start.to_string(), rest.to_string());
    e.bytes = match pad {
        Pad::Target => {
            let path = matches!(kind, Kind::NotFound | Kind::HeadNotFound);
            let more = format!("{}{}", if path { "/" } else { "?q=" }, "x".repeat(size));
            format!("{}{} HTTP/1.1\r\n{}", start, more, rest).into_bytes()
        }
        Pad::Header => format!("{} HTTP/1.1\r\nX-Pad: {}\r\n{}", start, "x".repeat(size), rest).into_bytes(),
        Pad::Headers if size > 25 => return None,
        Pad::Headers => {
            let more: String = (0..size).map(|i| format!("X-Pad-{}: {}\r\n", i, i)).collect();
            format!("{} HTTP/1.1\r\n{}{}", start, more, rest).into_bytes()
        }
        Pad::Body => {
            let body = b"GET /g/7 HTTP/1.1\r\n\r\n".iter().cycle().take(size).cloned().collect::<Vec<u8>>();
            let bytes = with_len(&format!("{} HTTP/1.1", start), &body);
            match kind {
                Kind::Post => return Some(post(&body, bytes, mode)),
                Kind::Chunked => {
                    let sizes: Vec<usize> = [size / 2, size - size / 2].iter().filter(|n| **n > 0).cloned().collect();
                    return Some(post(&body, chunked(&format!("{} HTTP/1.1", start), &body, &sizes, 0), mode));
                }
                Kind::GetBody | Kind::Slow | Kind::Head => {
                    let (slot, path) = match kind {
                        Kind::GetBody => (1, Some(V::U32(n as u32))),
                        Kind::Slow => (3, Some(V::U32(n as u32))),
                        _ => (2, None),
                    };
                    e.run = Some((slot, req(path, cut(&body, mode))));
                    bytes
                }
                Kind::Empty | Kind::Get => return None,
                Kind::Bad => {
                    let sizes: Vec<usize> = [size].iter().filter(|n| **n > 0).cloned().collect();
                    chunked(&format!("{} HTTP/1.1", start), &body, &sizes, 1)
                }
                _ => bytes,
            }
        }
    };
    Some(e)
}
fn sequence(kinds: &[Kind], mode: ReadMode) -> Vec<Exchange> {
    kinds.iter().enumerate().map(|(i, k)| make(*k, i, mode)).collect()
}

/// A procedure of any kind: its method, status, response body and whether requests carry bodies.
#[derive(Debug, Clone, Copy)]
struct Any {
    method: HttpMethod,
    status: u16,
    reply: usize,
    body: bool,
}
/// Two procedures, called in turn, with rejected requests in between.
fn turns(a: Any, b: Any, mode: ReadMode, delivery: usize) -> Result<(), String> {
    exec::fresh();
    set_read_mode(mode);
    define(0, a.method, ep(&[Some("a")]));
    define(1, b.method, ep(&[Some("z")]));
    let mut builder = RpcServerBuilder::new(addr(PORT));
    let (ra, rb) = (pattern(a.reply, 1), pattern(b.reply, 2));
    let (wa, wb) = (ra.clone(), rb.clone());
    builder.register(Handler::now(0, move |_: Req<0>| Resp::<0>::status(a.status, &ra)), Dp::<0>::new()).expect("register");
    builder.register(Handler::now(1, move |_: Req<1>| Resp::<1>::status(b.status, &rb)), Dp::<1>::new()).expect("register");
    let mut sim = Sim::new();
    let server = start_server(&mut sim, PORT, builder);
    sim.run();
    let mut want = Vec::new();
    for i in 0..5 {
        let (x, slot, path, reply) = if i % 2 == 0 { (a, 0, "/a", &wa) } else { (b, 1, "/z", &wb) };
        let t = if x.body { trap(i) } else { vec![] };
        let bytes = |target: &str| {
            if x.body {
                with_len(&format!("{} {} HTTP/1.1", x.method, target), &t)
            } else {
                format!("{} {} HTTP/1.1\r\n\r\n", x.method, target).into_bytes()
            }
        };
        want.push(if i == 2 {
            Exchange {
                head: x.method == Head,
                bytes: bytes("/nope"),
                run: None,
                status: 404,
                body: None,
            }
        } else {
            Exchange {
                head: x.method == Head,
                bytes: bytes(path),
                run: Some((slot, req(None, cut(&t, mode)))),
                status: x.status,
                body: Some(reply.clone()),
            }
        });
    }
    let c = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
    let stream: Vec<u8> = want.iter().flat_map(|w| w.bytes.clone()).collect();
    let pieces: Vec<&[u8]> = match delivery {
        0 => want.iter().map(|w| &w.bytes[..]).collect(),
        n => stream.chunks(n).collect(),
    };
    for (i, p) in pieces.iter().enumerate() {
        sim::raw_send(c, Side::Client, p);
        if sim.run() == Outcome::StepLimit {
            return Err("the server does not come to rest".into());
        }
        if delivery == 0 {
            let answer = sim::with_conn(c, |c| c.pipes[Side::Server as usize].log.clone());
            judge(&want[..=i], &log(), &answer)?;
        }
    }
    let answer = sim::with_conn(c, |c| c.pipes[Side::Server as usize].log.clone());
    judge(&want, &log(), &answer)?;
    if sim::raw_is_closed(c, Side::Client) || server.is_done() {
        return Err("the connection was closed or the server ended".into());
    }
    Ok(())
}

pub fn c08(tier: Tier) -> Vec<Family> {
    let deep = tier == Tier::Thorough;
    let mut out = Vec::new();
    // procedures of all kinds
    let mut cases = Vec::new();
    for a in METHODS {
        for b in METHODS {
            for body in [false, true] {
                let any = |method, status, body| Any { method, status, reply: 3, body };
                cases.push((any(*a, 200, body), any(*b, 201, !body)));
                cases.push((any(*a, 200, body), any(*b, 201, body)));
            }
        }
        for st in STATUSES {
            for reply in [0, 3, 2000] {
                let any = |method, status| Any { method, status, reply, body: reply != 3 };
                cases.push((any(*a, st.0), any(Get, 200)));
                cases.push((any(Head, st.0), any(*a, st.0)));
            }
        }
    }
    out.push(Family::list("methods and statuses", 0, cases, move |(a, b)| {
        let ways: &[usize] = if deep { &[0, 1, 100_000] } else { &[0, 100_000] };
        for mode in [ReadMode::All, ReadMode::Nothing] {
            for way in ways {
                turns(*a, *b, mode, *way)?;
            }
        }
        Ok(())
    }));
    // requests of all sizes, between others
    let mut sizes = super::args::lengths();
    sizes.extend([0, 4000, 5000, 6500, 7500]);
    let mut cases = Vec::new();
    for kind in KINDS {
        for pad in [Pad::Target, Pad::Header, Pad::Headers, Pad::Body] {
            for n in &sizes {
                cases.push((*kind, pad, *n));
            }
            for n in tier.pick(&[16_384usize, 65_536, 100_000][..], &[8192, 16_384, 65_535, 65_536, 65_537, 100_000, 1_000_000, 3_000_000]) {
                if pad == Pad::Body {
                    cases.push((*kind, pad, *n));
                }
            }
        }
    }
    out.push(Family::list("sizes of requests", 0, cases, move |(kind, pad, n)| {
        for mode in if deep { MODES } else { &[ReadMode::All, ReadMode::Some(30)] } {
            for others in [[Kind::Post, Kind::Get], [Kind::NotAllowed, Kind::Head], [Kind::Head, Kind::NotFound]] {
                let w = match padded(*kind, 1, *mode, *pad, *n) {
                    Some(e) => vec![make(others[0], 0, *mode), e, make(others[1], 2, *mode)],
                    None => return Ok(()),
                };
                for d in [Delivery::AtOnce, Delivery::Alternating] {
                    converse(&w, *mode, &d, Net::default(), |_| {}).map_err(|e| format!("{:?} {:?} {:?}: {}", others, mode, d, e))?;
                }
            }
        }
        Ok(())
    }));
    // every sequence of up to three requests, delivered in several ways
    let mut seqs: Vec<Vec<Kind>> = tuples(KINDS, 1);
    seqs.extend(tuples(KINDS, 2));
    seqs.extend(tuples(KINDS, 3));
    out.push(Family::list("sequences", 0, seqs.clone(), |kinds| {
        for mode in MODES {
            let w = sequence(kinds, *mode);
            for d in [Delivery::AtOnce, Delivery::Alternating, Delivery::Pieces(13)] {
                converse(&w, *mode, &d, Net::default(), |_| {}).map_err(|e| format!("{:?} {:?}: {}", mode, d, e))?;
            }
        }
        Ok(())
    }));
    if deep {
        let mut four = tuples(KINDS, 4);
        out.push(Family::list("sequences of four", 0, std::mem::take(&mut four), |kinds| {
            for mode in MODES {
                let w = sequence(kinds, *mode);
                for d in [Delivery::AtOnce, Delivery::Alternating] {
                    converse(&w, *mode, &d, Net::default(), |_| {}).map_err(|e| format!("{:?} {:?}: {}", mode, d, e))?;
                }
            }
            Ok(())
        }));
    }
    let two = tuples(KINDS, 2);
    out.push(Family::list("byte by byte", 0, if deep { seqs } else { two.clone() }, |kinds| {
        for mode in MODES {
            converse(&sequence(kinds, *mode), *mode, &Delivery::ByteByByte, Net::default(), |_| {})?;
        }
        Ok(())
    }));
    // two requests, split once at every offset
    let mut cases = Vec::new();
    for k in &two {
        for mode in MODES {
            let n: usize = sequence(k, *mode).iter().map(|w| w.bytes.len()).sum();
            for at in 1..n {
                cases.push((k.clone(), *mode, at));
            }
        }
    }
    out.push(Family::list("split once", 0, cases, |(k, mode, at)| {
        converse(&sequence(k, *mode), *mode, &Delivery::Cuts(vec![*at]), Net::default(), |_| {})
    }));
    // the sizes of reads and writes
    let mut cases = Vec::new();
    for k in &two {
        for r in [0usize, 1, 5, 50] {
            for w in [0usize, 1, 5, 50] {
                for block in [false, true] {
                    cases.push((k.clone(), r, w, block));
                }
            }
        }
    }
    out.push(Family::list("transfer sizes", 0, cases, |(k, r, w, block)| {
        for mode in [ReadMode::All, ReadMode::Nothing] {
            let net = Net {
                read_chunk: [0, *r],
                write_chunk: [0, *w],
                block: *block,
                ..Net::default()
            };
            converse(&sequence(k, mode), mode, &Delivery::AtOnce, net, |_| {})?;
        }
        Ok(())
    }));
    // sizes around those of the buffers: first a body, then a head, of every length
    let step = 1;
    let lens: Vec<usize> = (0..2300).step_by(step).chain((7000..9300).step_by(step * 3)).chain([1023, 1024, 1025, 8095, 8096, 8097]).collect();
    out.push(Family::list("body lengths", 0, lens, |n| {
        for mode in [ReadMode::All, ReadMode::Nothing, ReadMode::Some(10)] {
            let b = pattern(*n, 3);
            let w = vec![
                make(Kind::Get, 0, mode),
                post(&b, with_len("POST /b HTTP/1.1", &b), mode),
                make(Kind::Post, 2, mode),
                make(Kind::Head, 3, mode),
                make(Kind::Get, 4, mode),
            ];
            converse(&w, mode, &Delivery::AtOnce, Net::default(), |_| {})?;
            let w = vec![
                post(&b, chunked("POST /b HTTP/1.1", &b, &[n / 2, n - n / 2].iter().cloned().filter(|x| *x > 0).collect::<Vec<_>>(), 0), mode),
                make(Kind::Get, 1, mode),
            ];
            converse(&w, mode, &Delivery::AtOnce, Net::default(), |_| {})?;
        }
        Ok(())
    }));
    let lens: Vec<usize> = (0..1200).step_by(step).chain((6800..7900).step_by(step)).collect();
    out.push(Family::list("head lengths", 0, lens, |n| {
        let mode = ReadMode::All;
        let mut g = make(Kind::Get, 0, mode);
        g.bytes = format!("GET /g/0 HTTP/1.1\r\nX: {}\r\n\r\n", "y".repeat(*n)).into_bytes();
        let mut g2 = g.clone();
        g2.bytes = format!("GET /g/0?{} HTTP/1.1\r\nHost: h\r\n\r\n", "y".repeat(*n)).into_bytes();
        for w in [vec![g.clone(), make(Kind::Post, 1, mode), g2.clone()], vec![make(Kind::Post, 0, mode), g, make(Kind::NotFound, 2, mode)], vec![g2, make(Kind::Head, 1, mode), make(Kind::Get, 2, mode)]] {
            for d in [Delivery::AtOnce, Delivery::Pieces(1000), Delivery::Alternating] {
                converse(&w, mode, &d, Net::default(), |_| {})?;
            }
        }
        Ok(())
    }));
    // many requests
    let mut cases = Vec::new();
    for k in KINDS {
        for n in [10usize, 100, 400] {
            cases.push((*k, n));
        }
    }
    out.push(Family::list("many requests", 0, cases, |(k, n)| {
        for d in [Delivery::AtOnce, Delivery::Alternating, Delivery::Pieces(1000)] {
            if *n > 100 && !matches!(d, Delivery::AtOnce | Delivery::Pieces(_)) {
                continue;
            }
            let kinds: Vec<Kind> = (0..*n).map(|i| if i % 3 == 2 { Kind::Get } else { *k }).collect();
            converse(&sequence(&kinds, ReadMode::All), ReadMode::All, &d, Net::default(), |_| {})?;
        }
        Ok(())
    }));
    // many requests in a buffer which a large one has enlarged
    let mut cases = Vec::new();
    for k in KINDS {
        for big in [1000usize, 1100, 2100, 4200, 6000, 7500] {
            cases.push((*k, big));
        }
    }
    out.push(Family::list("many requests after a large one", 0, cases, |(k, big)| {
        let kinds: Vec<Kind> = (0..200).map(|i| if i % 3 == 1 { Kind::Get } else { *k }).collect();
        let mut want = sequence(&kinds, ReadMode::All);
        for at in [0usize, 1, 100] {
            let mut large = make(Kind::Get, 0, ReadMode::All);
            large.bytes = format!("GET /g/0 HTTP/1.1\r\nX: {}\r\n\r\n", "y".repeat(*big)).into_bytes();
            want.insert(at, large);
        }
        for d in [Delivery::AtOnce, Delivery::OneByOne, Delivery::Pieces(1000), Delivery::Pieces(3001), Delivery::Pieces(8096)] {
            converse(&want, ReadMode::All, &d, Net::default(), |_| {}).map_err(|e| format!("{:?}: {}", d, e))?;
        }
        Ok(())
    }));
    let n = tier.pick(20_000usize, 70_000);
    out.push(Family::list("very many requests", 0, KINDS.to_vec(), move |k| {
        let kinds: Vec<Kind> = (0..n).map(|i| if i % 3 == 2 { Kind::Get } else { *k }).collect();
        for d in [Delivery::OneByOne, Delivery::AtOnce] {
            converse(&sequence(&kinds, ReadMode::All), ReadMode::All, &d, Net::default(), |sim| sim.step_limit = usize::MAX as _)
                .map_err(|e| format!("{:?}: {}", d, e))?;
        }
        Ok(())
    }));
    // splits, would-blocks and scheduling as choices
    let some: Vec<Vec<Kind>> = if deep {
        two
    } else {
        vec![
            vec![Kind::Post, Kind::Get],
            vec![Kind::Chunked, Kind::Head],
            vec![Kind::NotFound, Kind::Post],
            vec![Kind::Head, Kind::Bad],
            vec![Kind::Slow, Kind::Post],
        ]
    };
    let mut cases = Vec::new();
    for k in some {
        for m in [ReadMode::All, ReadMode::Some(1)] {
            for d in [Delivery::AtOnce, Delivery::Pieces(60)] {
                cases.push((k.clone(), m, d));
            }
        }
    }
    out.push(Family::list("choices", 2, cases, |(k, mode, d)| {
        let net = Net {
            choices: true,
            ..Net::default()
        };
        converse(&sequence(k, *mode), *mode, d, net, |s| s.explore = true)
    }));
    // the peer reads its responses late: the send buffer fills up
    let mut cases = Vec::new();
    for k in tuples(&[Kind::Post, Kind::Get, Kind::Head, Kind::NotFound, Kind::Bad, Kind::Slow], 3) {
        for cap in [1usize, 20, 100, 250] {
            cases.push((k.clone(), cap));
        }
    }
    out.push(Family::list("slow readers", 0, cases, |(kinds, cap)| {
        let want = sequence(kinds, ReadMode::All);
        let (mut sim, _server) = server(ReadMode::All, |_| {});
        let c = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
        sim::with_pipe(c, Side::Server, |p| p.capacity = Some(*cap));
        for w in &want {
            sim::raw_send(c, Side::Client, &w.bytes);
        }
        loop {
            if sim.run() == Outcome::StepLimit {
                return Err("the server does not come to rest".into());
            }
            if sim::raw_recv(c, Side::Client).is_empty() {
                break;
            }
        }
        let answer = sim::with_conn(c, |c| c.pipes[Side::Server as usize].log.clone());
        judge(&want, &log(), &answer)
    }));
    // the peer half-closes after its requests: they are answered, then the connection ends
    let mut cases = tuples(KINDS, 1);
    cases.extend(tuples(KINDS, 2));
    out.push(Family::list("half close", 0, cases, |kinds| {
        for mode in MODES {
            let want = sequence(kinds, *mode);
            let (mut sim, _server) = server(*mode, |_| {});
            let c = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
            for w in &want {
                sim::raw_send(c, Side::Client, &w.bytes);
            }
            sim::raw_shutdown(c, Side::Client);
            sim.run();
            let answer = sim::with_conn(c, |c| c.pipes[Side::Server as usize].log.clone());
            judge(&want, &log(), &answer)?;
            if !sim::raw_is_closed(c, Side::Client) {
                return Err("the connection stays open after the end of the requests".into());
            }
        }
        Ok(())
    }));
    out
}
