//! C19: heads of any size and any number of headers.
use super::bodies::pattern;
use super::responses::{build, Form};
use crate::app::*;
use crate::dynty::*;
use crate::exec::{self, Outcome, Sim};
use crate::explore::{short, Family};
use crate::http;
use crate::net::Net;
use crate::Tier;
use htrpc::pool::RpcClientPool;
use htrpc::types::HttpMethod::{self, *};
use htrpc::{RpcClient, RpcServerBuilder};
use mio::sim::{self, Side};

/// What makes the head large.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Place {
    Path,
    /// Text which has to be escaped.
    Escaped,
    /// Many variables.
    Segments,
    Query,
    EscapedQuery,
    /// A long name of a parameter.
    QueryName,
    /// Many parameters.
    Params,
    /// The same in a map.
    ParamsMap,
    Header,
    /// A long name of a header.
    HeaderName,
    /// Many headers.
    Count,
    /// The same in a map.
    CountMap,
    /// A bit of everything.
    All,
}
const REQUEST: &[Place] = &[
    Place::Path,
    Place::Escaped,
    Place::Segments,
    Place::Query,
    Place::EscapedQuery,
    Place::QueryName,
    Place::Params,
    Place::ParamsMap,
    Place::Header,
    Place::HeaderName,
    Place::Count,
    Place::CountMap,
    Place::All,
];
const RESPONSE: &[Place] = &[Place::Header, Place::HeaderName, Place::Count, Place::CountMap];
impl Place {
    /// The size is a number of headers, parameters or variables.
    fn is_number(self) -> Option<usize> {
        match self {
            Place::Count | Place::CountMap => Some(40),
            Place::Params | Place::ParamsMap => Some(1100),
            Place::Segments => Some(1700),
            _ => None,
        }
    }
}

fn text(n: usize) -> String {
    // position dependent, so that a lost or repeated part shows
    (0..n).map(|i| b"abcdefghijklmnopqrstuvwxyz0123456789-"[(i + i / 37) % 37] as char).collect()
}
fn escaped(n: usize) -> String {
    // six bytes per character
    text(n / 6).chars().map(|c| char::from_u32(0xc0 + (c as u32 & 0x3f)).unwrap()).collect()
}
fn names(n: usize) -> Vec<&'static str> {
    (0..n).map(|i| leak(&format!("h{}", i))).collect()
}
fn counted(n: usize) -> Fields {
    Fields::Struct(names(n).into_iter().enumerate().map(|(i, k)| (k, s(&format!("v{}", i)))).collect())
}
fn entry_point(place: Place, n: usize) -> htrpc::types::EntryPoint {
    let n = if place == Place::Segments { n } else { 1 };
    let mut v = vec![Some("big")];
    v.extend((0..n).map(|_| None));
    ep(&v)
}
/// The fields as a map.
fn mapped(f: Option<Fields>) -> Option<Fields> {
    f.map(|f| match f {
        Fields::Struct(f) => Fields::Map(Ty::Str, f.into_iter().map(|(k, v)| (k.to_string(), v)).collect()),
        f => f,
    })
}
/// How the request is written by its sender. The receiver gets what `request` tells.
fn sent(place: Place, n: usize, body: &[u8]) -> Req<0> {
    let mut r = request(place, n, body);
    match place {
        Place::ParamsMap => r.query = mapped(r.query),
        Place::CountMap => r.header = mapped(r.header),
        _ => {}
    }
    r
}
/// The request; for some places the size is a number.
fn request(place: Place, n: usize, body: &[u8]) -> Req<0> {
    let one = |n: usize| Some(Fields::Struct(vec![("x-a", s("1")), ("x-big", s(&text(n))), ("x-z", s("2"))]));
    let path = |n: usize| Some(Path::Tuple(vec![s(&format!("p{}", text(n)))]));
    let query = |n: usize| Some(Fields::Struct(vec![("a", s("1")), ("big", s(&text(n))), ("z", s("2"))]));
    let mut r = Req::<0> {
        path: path(0),
        body: body.to_vec(),
        ..Req::default()
    };
    match place {
        Place::Path => r.path = path(n),
        Place::Escaped => r.path = Some(Path::Tuple(vec![s(&format!("p{}", escaped(n)))])),
        Place::Segments => r.path = Some(Path::Tuple((0..n).map(|i| s(&format!("v{}", i))).collect())),
        Place::Query => r.query = query(n),
        Place::EscapedQuery => r.query = Some(Fields::Struct(vec![("a", s("1")), ("big", s(&escaped(n))), ("z", s("2"))])),
        Place::QueryName => r.query = Some(Fields::Struct(vec![("a", s("1")), (leak(&format!("q{}", text(n))), s("v")), ("z", s("2"))])),
        Place::Params | Place::ParamsMap => r.query = Some(counted(n)),
        Place::Header => r.header = one(n),
        Place::HeaderName => r.header = Some(long_name(n)),
        Place::Count | Place::CountMap => r.header = Some(counted(n)),
        Place::All => {
            r.path = path(n / 3);
            r.query = query(n / 3);
            r.header = one(n - n / 3 * 2);
        }
    }
    r
}
fn long_name(n: usize) -> Fields {
    Fields::Struct(vec![("x-a", s("1")), (leak(&format!("x-{}", text(n))), s("v")), ("x-z", s("2"))])
}
/// The response as the handler writes it, its type, and what the caller must get.
fn response(place: Option<(Place, usize)>, form: Form, body: &[u8]) -> (Resp<0>, RespTy, Resp<0>) {
    let header = match place {
        None => None,
        Some((Place::Count, n)) | Some((Place::CountMap, n)) => Some(counted(n)),
        Some((Place::HeaderName, n)) => Some(long_name(n)),
        Some((_, n)) => Some(Fields::Struct(vec![("x-a", s("1")), ("x-big", s(&text(n))), ("x-z", s("2"))])),
    };
    let (mut resp, ty, want) = build(form, 200, "Ok", header, body);
    if let Some((Place::CountMap, _)) = place {
        resp.header = mapped(resp.header);
    }
    (resp, ty, want)
}
/// Must go through: far below any limit.
fn small(place: Place, n: usize) -> bool {
    match place {
        Place::Count | Place::CountMap => n <= 24,
        Place::Params | Place::ParamsMap | Place::Segments => n <= 60,
        _ => n <= 700,
    }
}

#[derive(Debug, Clone)]
struct Case {
    client: Client,
    method: HttpMethod,
    place: Place,
    n: usize,
    body: Vec<u8>,
    /// Where the response is large.
    back: Option<(Place, usize)>,
    form: Form,
    reply: Vec<u8>,
    chunk: usize,
    explore: bool,
}
struct World {
    sim: Sim,
    /// What is sent and what arrives.
    req: (Req<0>, Req<0>),
    resp: (Resp<0>, Resp<0>),
}
fn start(case: &Case) -> World {
    exec::fresh();
    define(0, case.method, entry_point(case.place, case.n));
    define(1, Put, ep(&[Some("ping")]));
    let req = request(case.place, case.n, &case.body);
    let (resp, ty, mut want) = response(case.back, case.form, &case.reply);
    if case.method == Head {
        want.body.clear();
    }
    set_req(0, req.ty());
    set_resp(0, ty);
    let mut sim = Sim::new();
    if case.chunk > 0 {
        Net {
            read_chunk: [case.chunk, case.chunk],
            write_chunk: [case.chunk, case.chunk],
            block: true,
            ..Net::default()
        }
        .install();
    }
    sim.explore = case.explore;
    World {
        sim,
        req: (sent(case.place, case.n, &case.body), req),
        resp: (resp, want),
    }
}
fn serve(sim: &mut Sim, resp: &Resp<0>) -> crate::exec::Handle<Result<(), htrpc::Error>> {
    let mut b = RpcServerBuilder::new(addr(PORT));
    let r = resp.clone();
    b.register(Handler::now(0, move |_: Req<0>| r.clone()), Dp::<0>::new()).expect("register");
    b.register(Handler::now(1, |r: Req<1>| Resp::<1>::status(201, &r.body)), Dp::<1>::new()).expect("register");
    start_server(sim, PORT, b)
}
fn ping(i: u8) -> Req<1> {
    Req {
        body: vec![i; 5],
        ..Req::default()
    }
}
/// Client and server are both real. Ordinary calls before, besides and after the large one succeed.
fn real(case: &Case) -> Result<(), String> {
    let World { mut sim, req, resp } = start(case);
    let server = serve(&mut sim, &resp.0);
    let pool = RpcClientPool::new();
    let handle = pool.handle();
    if case.client == Client::Pooled {
        sim.spawn("pool", pool);
    }
    let pinging = |sim: &mut Sim, i: u8| match case.client {
        Client::Plain => sim.run_fut("ping", RpcClient::new(addr(PORT)).call::<Dp<1>>(ping(i))),
        Client::Pooled => sim.run_fut("ping", handle.client(addr(PORT)).call::<Dp<1>>(ping(i))),
    };
    let explore = sim.explore;
    sim.explore = false;
    let p0 = pinging(&mut sim, 0);
    let mut rest = sim.run();
    sim.explore = explore;
    let call = match case.client {
        Client::Plain => sim.run_fut("big", RpcClient::new(addr(PORT)).call::<Dp<0>>(req.0.clone())),
        Client::Pooled => sim.run_fut("big", handle.client(addr(PORT)).call::<Dp<0>>(req.0.clone())),
    };
    let p1 = pinging(&mut sim, 1);
    if rest == Outcome::Quiescent {
        rest = sim.run();
    }
    sim.explore = false;
    let p2 = pinging(&mut sim, 2);
    if rest == Outcome::Quiescent {
        rest = sim.run();
    }
    if rest == Outcome::StepLimit {
        return Err("does not come to rest".into());
    }
    if server.is_done() {
        return Err("the server ended".into());
    }
    for (i, p) in [p0, p1, p2].iter().enumerate() {
        match p.take() {
            Some(Ok(ref r)) if *r == Resp::<1>::status(201, &[i as u8; 5]) => {}
            other => return Err(format!("another call gave {}", short(&format!("{:?}", other.map(|r| r.map_err(|e| e.to_string())))))),
        }
    }
    let log: Vec<String> = log().into_iter().filter(|l| l.0 == 0).map(|l| l.1).collect();
    if log.len() > 1 || log.iter().any(|l| *l != format!("{:?}", req.1)) {
        return Err(format!("the handler got {}", short(&format!("{:?}", log))));
    }
    let fits = small(case.place, case.n) && case.back.map_or(true, |(p, n)| small(p, n));
    let want = resp.1;
    match call.take() {
        None => Err("the call does not settle".into()),
        Some(Err(e)) if fits => Err(format!("failed: {}", short(&e.to_string()))),
        Some(Err(_)) => Ok(()),
        Some(Ok(ref r)) if *r == want && log.len() == 1 => Ok(()),
        // refused by the server
        Some(Ok(Resp { kind: RespKind::Status(c), .. })) if !fits && log.is_empty() && c / 100 == 4 => Ok(()),
        Some(Ok(r)) => Err(format!("handler runs: {}, the caller got {}", log.len(), short(&format!("{:?}", r)))),
    }
}
fn expect_fields(m: &http::Msg, f: &Option<Fields>) -> Result<(), String> {
    let f = match f {
        Some(Fields::Struct(f)) => &f[..],
        _ => &[],
    };
    if m.headers.len() != f.len() + 1 {
        return Err(format!("{} header lines instead of {}", m.headers.len(), f.len() + 1));
    }
    for (k, v) in f {
        match (m.count(k), m.header(k), v) {
            (1, Some(ref x), V::Str(v)) if x == v => {}
            (_, x, _) => return Err(format!("header {} is {}", k, short(&format!("{:?}", x)))),
        }
    }
    Ok(())
}
fn decoded(line: &str) -> String {
    let (mut out, mut b) = (Vec::new(), line.as_bytes());
    while let Some((c, rest)) = b.split_first() {
        let hex = rest.get(..2).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
        b = match hex {
            Some(h) if *c == b'%' => {
                out.push(h);
                &rest[2..]
            }
            _ => {
                out.push(*c);
                rest
            }
        };
    }
    String::from_utf8_lossy(&out).into_owned()
}
fn target(r: &Req<0>) -> String {
    let mut t = String::from("/big");
    if let Some(Path::Tuple(v)) = &r.path {
        for v in v {
            if let V::Str(v) = v {
                t.push('/');
                t.push_str(v);
            }
        }
    }
    if let Some(Fields::Struct(f)) = &r.query {
        for (i, (k, v)) in f.iter().enumerate() {
            if let V::Str(v) = v {
                t.push(if i == 0 { '?' } else { '&' });
                t.push_str(&format!("{}={}", k, v));
            }
        }
    }
    t
}
/// The server is played by the harness and has no limits.
fn foreign_server(case: &Case) -> Result<(), String> {
    let World { mut sim, req, .. } = start(case);
    sim::raw_listen(addr(PORT));
    let call = match case.client {
        Client::Plain => sim.run_fut("big", RpcClient::new(addr(PORT)).call::<Dp<0>>(req.0.clone())),
        Client::Pooled => {
            let pool = RpcClientPool::new();
            let handle = pool.handle();
            sim.spawn("pool", pool);
            sim.run_fut("big", handle.client(addr(PORT)).call::<Dp<0>>(req.0.clone()))
        }
    };
    let mut sent = Vec::new();
    loop {
        if sim.run() == Outcome::StepLimit {
            return Err("does not come to rest".into());
        }
        let c = match sim::raw_accept(addr(PORT)) {
            None if sim::conn_count() == 0 => break,
            Some(c) => c,
            None => 0,
        };
        let got = sim::raw_recv(c, Side::Server);
        if got.is_empty() {
            break;
        }
        sent.extend(got);
    }
    let fits = small(case.place, case.n);
    match http::parse(&sent, false) {
        http::Parsed::Bad(e) => Err(format!("sent a malformed request: {}", e)),
        http::Parsed::Incomplete => match call.take() {
            Some(Err(_)) if !fits => Ok(()),
            Some(Err(e)) => Err(format!("failed: {}", short(&e.to_string()))),
            Some(Ok(_)) => Err("succeeded without having sent the request".into()),
            None => Err(format!("sent only a part of the request ({} bytes) and waits for the response", sent.len())),
        },
        http::Parsed::Complete(m, len) => {
            let req = req.1;
            let start = decoded(&format!("{} {} HTTP/1.1", case.method, target(&req)));
            if len != sent.len() || decoded(&m.start).replace("? ", " ") != start || m.body != req.body {
                return Err(format!("sent another request: {} bytes in excess, body {}, {}", sent.len() - len, m.body.len(), short(&m.start)));
            }
            expect_fields(&m, &req.header)?;
            sim::raw_send(0, Side::Server, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
            sim.run();
            match call.take() {
                Some(Ok(ref r)) if *r == Resp::<0>::status(200, b"") => Ok(()),
                other => Err(format!("the caller got {}", short(&format!("{:?}", other.map(|r| r.map_err(|e| e.to_string())))))),
            }
        }
    }
}
/// The client is played by the harness and has no limits.
fn foreign_client(case: &Case) -> Result<(), String> {
    let World { mut sim, resp, .. } = start(&Case { place: Place::Path, n: 3, ..case.clone() });
    let server = serve(&mut sim, &resp.0);
    let resp = resp.1;
    sim.run();
    let c = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
    sim::raw_send(c, Side::Client, format!("{} /big/pabc HTTP/1.1\r\nContent-Length: 0\r\n\r\n", case.method).as_bytes());
    let mut answer = Vec::new();
    loop {
        if sim.run() == Outcome::StepLimit {
            return Err("does not come to rest".into());
        }
        let got = sim::raw_recv(c, Side::Client);
        if got.is_empty() {
            break;
        }
        answer.extend(got);
    }
    if server.is_done() {
        return Err("the server ended".into());
    }
    let fits = case.back.map_or(true, |(p, n)| small(p, n));
    match http::parse(&answer, case.method == Head) {
        http::Parsed::Bad(e) => Err(format!("malformed response: {}", e)),
        http::Parsed::Incomplete if fits => Err("no complete response".into()),
        http::Parsed::Incomplete if sim::raw_is_closed(c, Side::Client) => Ok(()),
        http::Parsed::Incomplete => Err(format!("sent only a part of the response ({} bytes) and leaves the client waiting", answer.len())),
        http::Parsed::Complete(m, len) => {
            if m.status() != 200 && (fits || m.status() / 100 != 5) {
                return Err(format!("answered {}", m.start));
            }
            if len != answer.len() || (m.status() == 200 && m.body != resp.body) {
                return Err(format!("sent another response: {} bytes in excess, body {}", answer.len() - len, m.body.len()));
            }
            if m.status() == 200 {
                expect_fields(&m, &resp.header)?;
            }
            Ok(())
        }
    }
}

/// A head as sent by the harness.
fn raw_request(place: Place, n: usize, body: &[u8]) -> (Vec<u8>, Req<0>) {
    let r = request(place, n, body);
    let path: String = target(&r).bytes().map(|b| if b < 0x80 { (b as char).to_string() } else { format!("%{:02X}", b) }).collect();
    let mut m = format!("POST {} HTTP/1.1\r\n", path);
    if let Some(Fields::Struct(f)) = &r.header {
        for (k, v) in f {
            if let V::Str(v) = v {
                m.push_str(&format!("{}: {}\r\n", k, v));
            }
        }
    }
    m.push_str(&format!("Content-Length: {}\r\n\r\n", body.len()));
    let mut m = m.into_bytes();
    m.extend(body);
    (m, r)
}
const PING: &[u8] = b"PUT /ping HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc";
/// Requests by the harness: small, large, small on one connection (pipelined or not), with another
/// connection in the midst.
fn hostile_request(place: Place, n: usize, body: &[u8], before: usize, pipelined: bool, split: usize) -> Result<(), String> {
    let case = Case {
        client: Client::Plain,
        method: Post,
        place,
        n,
        body: body.to_vec(),
        back: None,
        form: Form::Status,
        reply: b"re".to_vec(),
        chunk: 0,
        explore: false,
    };
    let World { mut sim, req, resp } = start(&case);
    let server = serve(&mut sim, &resp.0);
    sim.run();
    let (big, _) = raw_request(place, n, body);
    let c = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
    let other = |sim: &mut Sim| -> Result<(), String> {
        let o = sim::raw_connect(addr(PORT)).ok_or("not listening any more")?;
        sim::raw_send(o, Side::Client, PING);
        sim.run();
        let r = sim::raw_recv(o, Side::Client);
        if !r.starts_with(b"HTTP/1.1 201 ") || !r.ends_with(b"\r\n\r\nabc") {
            return Err(format!("another connection got {:?}", short(&String::from_utf8_lossy(&r))));
        }
        sim::raw_close(o, Side::Client);
        sim.run();
        Ok(())
    };
    let mut stream = Vec::new();
    let at = split.min(big.len());
    for _ in 0..before {
        if pipelined {
            stream.extend(PING);
        } else {
            sim::raw_send(c, Side::Client, PING);
            sim.run();
        }
    }
    stream.extend(&big[..at]);
    sim::raw_send(c, Side::Client, &stream);
    if sim.run() == Outcome::StepLimit {
        return Err("does not come to rest".into());
    }
    other(&mut sim)?;
    let mut stream = big[at..].to_vec();
    if pipelined {
        stream.extend(PING);
    }
    sim::raw_send(c, Side::Client, &stream);
    if sim.run() == Outcome::StepLimit {
        return Err("does not come to rest".into());
    }
    if !pipelined {
        sim::raw_send(c, Side::Client, PING);
        sim.run();
    }
    other(&mut sim)?;
    if server.is_done() {
        return Err("the server ended".into());
    }
    let answer = sim::with_conn(c, |c| c.pipes[Side::Server as usize].log.clone());
    let closed = sim::raw_is_closed(c, Side::Client);
    let log: Vec<String> = log().into_iter().filter(|l| l.0 == 0).map(|l| l.1).collect();
    if log.len() > 1 || log.iter().any(|l| *l != format!("{:?}", req.1)) {
        return Err(format!("the handler got {}", short(&format!("{:?}", log))));
    }
    let all = http::parse_all(&answer, &[])?;
    let codes: Vec<u16> = all.iter().map(|m| m.status()).collect();
    let ok: Vec<u16> = (0..before).map(|_| 201).chain(vec![200, 201]).collect();
    if codes == ok && log.len() == 1 && !closed {
        return Ok(());
    }
    if small(place, n) {
        return Err(format!("answers {:?}", codes));
    }
    // answered as far as possible, then refused
    let fine = codes.len() >= before && codes[..before].iter().all(|c| *c == 201) && log.is_empty();
    match &codes[before.min(codes.len())..] {
        [] if fine && closed => Ok(()),
        [c] if fine && closed && c / 100 == 4 => Ok(()),
        [c, 201] if fine && !closed && c / 100 == 4 => Ok(()),
        _ => Err(format!("answers {:?}, handler runs {}, closed: {}", codes, log.len(), closed)),
    }
}
/// Responses by the harness.
fn hostile_response(client: Client, place: Place, n: usize, form: Form, body: &[u8], split: usize, close: bool) -> Result<(), String> {
    let case = Case {
        client,
        method: Post,
        place: Place::Path,
        n: 0,
        body: Vec::new(),
        back: Some((place, n)),
        form,
        reply: body.to_vec(),
        chunk: 0,
        explore: false,
    };
    let World { mut sim, req, resp } = start(&case);
    let (req, resp) = (req.0, resp.1);
    sim::raw_listen(addr(PORT));
    let pool = RpcClientPool::new();
    let handle = pool.handle();
    if client == Client::Pooled {
        sim.spawn("pool", pool);
    }
    let call = match client {
        Client::Plain => sim.run_fut("big", RpcClient::new(addr(PORT)).call::<Dp<0>>(req)),
        Client::Pooled => sim.run_fut("big", handle.client(addr(PORT)).call::<Dp<0>>(req)),
    };
    let other = match client {
        Client::Plain => sim.run_fut("ping", RpcClient::new(addr(PORT)).call::<Dp<1>>(ping(1))),
        Client::Pooled => sim.run_fut("ping", handle.client(addr(PORT)).call::<Dp<1>>(ping(1))),
    };
    sim.run();
    let mut m = String::from("HTTP/1.1 200 OK\r\n");
    if let Some(Fields::Struct(f)) = &resp.header {
        for (k, v) in f {
            if let V::Str(v) = v {
                m.push_str(&format!("{}: {}\r\n", k, v));
            }
        }
    }
    m.push_str(&format!("Content-Length: {}\r\n\r\n", body.len()));
    let mut m = m.into_bytes();
    m.extend(body);
    let mut conns = Vec::new();
    while let Some(c) = sim::raw_accept(addr(PORT)) {
        conns.push((c, sim::raw_recv(c, Side::Server)));
    }
    let find = |what: &[u8]| conns.iter().find(|c| c.1.starts_with(what)).map(|c| c.0).ok_or("no request");
    let (c, o) = (find(b"POST")?, find(b"PUT")?);
    let at = split.min(m.len());
    sim::raw_send(c, Side::Server, &m[..at]);
    if sim.run() == Outcome::StepLimit {
        return Err("does not come to rest".into());
    }
    sim::raw_send(o, Side::Server, b"HTTP/1.1 201 Created\r\nContent-Length: 5\r\n\r\n\x01\x01\x01\x01\x01");
    sim.run();
    match other.take() {
        Some(Ok(ref r)) if *r == Resp::<1>::status(201, &[1; 5]) => {}
        other => return Err(format!("another call gave {}", short(&format!("{:?}", other.map(|r| r.map_err(|e| e.to_string())))))),
    }
    sim::raw_send(c, Side::Server, &m[at..]);
    if close {
        sim::raw_close(c, Side::Server);
    }
    if sim.run() == Outcome::StepLimit {
        return Err("does not come to rest".into());
    }
    match call.take() {
        None => Err("the call does not settle".into()),
        Some(Ok(ref r)) if *r == resp => Ok(()),
        Some(Ok(r)) => Err(format!("the caller got {}", short(&format!("{:?}", r)))),
        Some(Err(e)) if small(place, n) => Err(format!("failed: {}", short(&e.to_string()))),
        Some(Err(_)) => Ok(()),
    }
}

fn sizes(place: Place, tier: Tier) -> Vec<usize> {
    let quick = tier == Tier::Quick;
    let mut v: Vec<usize> = Vec::new();
    match place {
        _ if place.is_number() == Some(40) => {
            v.extend(0..40);
            v.extend([64, 100, 500, 2000]);
        }
        _ if place.is_number().is_some() => {
            v.extend((0..place.is_number().unwrap()).step_by(if quick { 13 } else { 1 }));
            v.extend([2000, 5000]);
        }
        _ if quick => {
            v.extend((0..9000).step_by(307));
            v.extend([16_000, 16_384, 40_000, 70_000]);
            for top in [1024, 2048, 4096, 8096] {
                v.extend(top - 100..top + 4);
            }
            v.extend(8192 - 100..8192 + 4);
        }
        _ => {
            v.extend(0..8300);
            v.extend((8300..70_000).step_by(997));
        }
    }
    v.sort();
    v.dedup();
    v
}
fn smuggled() -> Vec<u8> {
    b"\r\n\r\nPUT /ping HTTP/1.1\r\nContent-Length: 0\r\n\r\n".to_vec()
}

pub fn c19(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut out = Vec::new();
    let bodies = vec![Vec::new(), smuggled(), pattern(3000, 1)];
    let case = |client, method, place, n, body: &Vec<u8>, chunk| Case {
        client,
        method,
        place,
        n,
        body: body.clone(),
        back: None,
        form: Form::Status,
        reply: b"re".to_vec(),
        chunk,
        explore: false,
    };
    let back = |client, method, place, n, form, reply: &Vec<u8>, chunk| Case {
        client,
        method,
        place: Place::Path,
        n: 0,
        body: b"x".to_vec(),
        back: Some((place, n)),
        form,
        reply: reply.clone(),
        chunk,
        explore: false,
    };
    let forms = &[Form::Status, Form::Struct, Form::Newtype];
    let (mut rq, mut rs) = (Vec::new(), Vec::new());
    for place in REQUEST {
        for n in sizes(*place, tier) {
            for (i, b) in bodies.iter().enumerate() {
                for client in [Client::Plain, Client::Pooled] {
                    rq.push(case(client, [Get, Post, Put][i], *place, n, b, 0));
                }
            }
        }
    }
    for place in RESPONSE {
        for n in sizes(*place, tier) {
            for b in &bodies {
                for client in [Client::Plain, Client::Pooled] {
                    for m in [Post, Head] {
                        for form in forms {
                            rs.push(back(client, m, *place, n, *form, b, 0));
                        }
                    }
                }
            }
        }
    }
    out.push(Family::list("requests to a server without limits", 0, rq.clone(), |c| foreign_server(c)));
    out.push(Family::list("responses to a client without limits", 0, rs.iter().filter(|c| c.client == Client::Plain).cloned().collect(), |c| foreign_client(c)));
    out.push(Family::list("requests", 0, rq.clone(), |c| real(c)));
    out.push(Family::list("responses", 0, rs.clone(), |c| real(c)));
    // both at the same time
    let mut both = Vec::new();
    for n in [1, 1000, 4000, 7900, 8000, 8050, 8090, 8100, 9000] {
        for k in [1, 1000, 4000, 7900, 8000, 8050, 8090, 8100, 9000] {
            for client in [Client::Plain, Client::Pooled] {
                for place in [Place::Path, Place::Header] {
                    both.push(Case {
                        back: Some((Place::Header, k)),
                        ..case(client, Put, place, n, &bodies[1], 0)
                    });
                }
            }
        }
    }
    out.push(Family::list("both directions", 0, both, |c| real(c)));
    // in pieces
    let edges: &[usize] = if quick { &[1000, 8000, 8044, 8045, 8046, 8060, 8096, 8200] } else { &[900, 1000, 1024, 2048, 4096, 8000, 8010, 8020, 8030, 8040, 8041, 8042, 8043, 8044, 8045, 8046, 8047, 8048, 8050, 8060, 8080, 8090, 8096, 8097, 8200, 9000, 16384] };
    let chunks: &[usize] = if quick { &[1023, 4000] } else { &[100, 511, 1023, 1024, 1025, 4000, 4048, 8095] };
    let mut pieces = Vec::new();
    for chunk in chunks {
        for n in edges {
            for client in [Client::Plain, Client::Pooled] {
                for place in REQUEST {
                    let n = match place {
                        Place::Count | Place::CountMap => n % 40,
                        Place::Params | Place::ParamsMap => n / 8,
                        Place::Segments => n / 6,
                        _ => *n,
                    };
                    pieces.push(case(client, Post, *place, n, &bodies[1], *chunk));
                }
                for place in RESPONSE {
                    let n = if place.is_number().is_some() { n % 40 } else { *n };
                    pieces.push(back(client, Post, *place, n, Form::Status, &bodies[1], *chunk));
                }
            }
        }
    }
    out.push(Family::list("in pieces", 0, pieces.clone(), |c| real(c)));
    out.push(Family::list(
        "in pieces, by a peer without limits",
        0,
        pieces,
        |c| if c.back.is_some() { foreign_client(c) } else { foreign_server(c) },
    ));
    // requests of the harness
    let mut hs = Vec::new();
    for place in REQUEST {
        for n in sizes(*place, tier) {
            for (before, pipelined) in [(0, false), (1, false), (1, true), (2, true)] {
                for split in [0, 1024, 8096] {
                    hs.push((*place, n, before, pipelined, split));
                }
            }
        }
    }
    out.push(Family::list("requests of other clients", 0, hs, |(place, n, before, pipelined, split)| {
        for body in [&b""[..], b"\r\n\r\nbody"] {
            hostile_request(*place, *n, body, *before, *pipelined, *split)?;
        }
        Ok(())
    }));
    let mut hs = Vec::new();
    for place in RESPONSE {
        for n in sizes(*place, tier) {
            for split in [0, 1024, 8096] {
                for close in [false, true] {
                    for form in forms {
                        hs.push((*place, n, *form, split, close));
                    }
                }
            }
        }
    }
    out.push(Family::list("responses of other servers", 0, hs, |(place, n, form, split, close)| {
        for client in [Client::Plain, Client::Pooled] {
            for body in [&b""[..], b"\r\n\r\nbody"] {
                hostile_response(client, *place, *n, *form, body, *split, *close)?;
            }
        }
        Ok(())
    }));
    // every schedule
    let mut sched = Vec::new();
    for n in [7000, 8200] {
        for client in [Client::Plain, Client::Pooled] {
            sched.push(Case {
                explore: true,
                ..case(client, Post, Place::Header, n, &bodies[1], 0)
            });
            sched.push(Case {
                explore: true,
                ..back(client, Post, Place::Header, n, Form::Status, &bodies[1], 0)
            });
        }
    }
    out.push(Family::list("schedules", if quick { 2 } else { 3 }, sched, |c| real(c)));
    out
}
