//! C07: arbitrary bytes sent to a server, judged by a permissive reference reader.
use crate::app::*;
use crate::dynty::*;
use crate::exec::{self, Handle, Outcome, Sim};
use crate::explore::{short, Family};
use crate::http;
use crate::Tier;
use htrpc::types::HttpMethod::*;
use htrpc::RpcServerBuilder;
use mio::sim::{self, Side};

/// A request as a permissive reader understands it.
#[derive(Debug, Clone, PartialEq)]
pub struct Seen {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Rest {
    Nothing,
    Incomplete,
    Invalid,
}

const METHODS: &[&str] = &["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE", "PATCH"];

fn token(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}
/// One line; `Ok(None)`: incomplete.
fn line<'a>(b: &mut &'a [u8]) -> Option<&'a [u8]> {
    let p = b.iter().position(|c| *c == b'\n')?;
    let mut l = &b[..p];
    *b = &b[p + 1..];
    if l.last() == Some(&b'\r') {
        l = &l[..l.len() - 1];
    }
    Some(l)
}
/// Reads one request. Everything some sane HTTP reader would take is taken.
pub fn read_request(bytes: &[u8]) -> Result<(Seen, usize), Rest> {
    let mut b = bytes;
    // empty lines in front of a request may be skipped
    loop {
        if b.starts_with(b"\r\n") {
            b = &b[2..];
        } else if b.starts_with(b"\n") {
            b = &b[1..];
        } else {
            break;
        }
    }
    let l = match line(&mut b) {
        None => return Err(if b.is_empty() && bytes.is_empty() { Rest::Nothing } else { Rest::Incomplete }),
        Some(l) => l,
    };
    let parts: Vec<&[u8]> = l.split(|c| *c == b' ').collect();
    if parts.len() != 3 {
        return Err(Rest::Invalid);
    }
    let method = String::from_utf8_lossy(parts[0]).into_owned();
    if !METHODS.contains(&method.as_str()) {
        return Err(Rest::Invalid);
    }
    let target = match std::str::from_utf8(parts[1]) {
        Ok(t) if !t.is_empty() && t.bytes().all(|c| c > 32 && c != 127) => t.to_string(),
        _ => return Err(Rest::Invalid),
    };
    if parts[2] != b"HTTP/1.1" && parts[2] != b"HTTP/1.0" {
        return Err(Rest::Invalid);
    }
    let mut headers: Vec<(String, String)> = Vec::new();
    loop {
        let l = match line(&mut b) {
            None => return Err(Rest::Incomplete),
            Some(l) => l,
        };
        if l.is_empty() {
            break;
        }
        let c = match l.iter().position(|c| *c == b':') {
            None => return Err(Rest::Invalid),
            Some(c) => c,
        };
        if c == 0 || !l[..c].iter().all(|c| token(*c)) {
            return Err(Rest::Invalid);
        }
        if !l[c + 1..].iter().all(|c| *c == b'\t' || (*c >= 32 && *c != 127)) {
            return Err(Rest::Invalid);
        }
        let name = String::from_utf8_lossy(&l[..c]).to_lowercase();
        let value = String::from_utf8_lossy(&l[c + 1..]);
        headers.push((name, value.trim_matches(|c| c == ' ' || c == '\t').to_string()));
    }
    if headers.len() > 32 {
        return Err(Rest::Invalid);
    }
    let get = |n: &str| -> Vec<String> { headers.iter().filter(|h| h.0 == n).map(|h| h.1.clone()).collect() };
    let (len, te) = (get("content-length"), get("transfer-encoding"));
    let mut body = Vec::new();
    if len.len() + te.len() > 1 {
        return Err(Rest::Invalid);
    }
    if let Some(v) = len.first() {
        if v.is_empty() || !v.bytes().all(|c| c.is_ascii_digit()) {
            return Err(Rest::Invalid);
        }
        let n: u64 = match v.parse() {
            Err(_) => return Err(Rest::Invalid),
            Ok(n) => n,
        };
        if (b.len() as u64) < n {
            return Err(Rest::Incomplete);
        }
        body = b[..n as usize].to_vec();
        b = &b[n as usize..];
    } else if let Some(v) = te.first() {
        if !v.eq_ignore_ascii_case("chunked") {
            return Err(Rest::Invalid);
        }
        loop {
            let strict = |b: &mut &[u8]| -> Result<Vec<u8>, Rest> {
                // lines of the chunked coding end with CR LF
                let p = b.windows(2).position(|w| w == b"\r\n").ok_or(if b.len() > 1100 { Rest::Invalid } else { Rest::Incomplete })?;
                let l = b[..p].to_vec();
                *b = &b[p + 2..];
                Ok(l)
            };
            let l = strict(&mut b)?;
            let digits = l.split(|c| *c == b';').next().unwrap_or(b"");
            let digits = String::from_utf8_lossy(digits).trim().to_string();
            if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_hexdigit()) {
                return Err(Rest::Invalid);
            }
            let n = match u64::from_str_radix(&digits, 16) {
                Err(_) => return Err(Rest::Invalid),
                Ok(n) => n,
            };
            if n == 0 {
                while !strict(&mut b)?.is_empty() {}
                break;
            }
            if (b.len() as u64) < n {
                return Err(Rest::Incomplete);
            }
            body.extend(&b[..n as usize]);
            b = &b[n as usize..];
            if b.len() < 2 {
                return Err(if b"\r\n".starts_with(b) { Rest::Incomplete } else { Rest::Invalid });
            }
            if &b[..2] != b"\r\n" {
                return Err(Rest::Invalid);
            }
            b = &b[2..];
        }
    }
    Ok((
        Seen {
            method,
            target,
            headers,
            body,
        },
        bytes.len() - b.len(),
    ))
}
pub fn read_all(bytes: &[u8]) -> (Vec<Seen>, Rest) {
    let mut out = Vec::new();
    let mut at = 0;
    loop {
        match read_request(&bytes[at..]) {
            Ok((r, n)) => {
                out.push(r);
                at += n;
            }
            Err(r) => return (out, if at == bytes.len() { Rest::Nothing } else { r }),
        }
    }
}

/// Whether a request can have led to this handler run.
fn explains(seen: &Seen, run: &(usize, String)) -> bool {
    let method = ["POST", "GET"][run.0];
    if seen.method != method {
        return false;
    }
    let t = &seen.target;
    let plain = |t: &str| t.bytes().all(|b| b.is_ascii_alphanumeric() || b"/-_~!$&'()*+,;=:@?".contains(&b)) && t.starts_with('/');
    let (path, query) = match t.find('?') {
        None => (t.as_str(), None),
        Some(p) => (&t[..p], Some(&t[p + 1..])),
    };
    if run.0 == 0 {
        let want = format!(
            "{:?}",
            Req::<0> {
                body: seen.body.clone(),
                ..Req::default()
            }
        );
        run.1 == want && (path == "/b" || !plain(t))
    } else {
        if !plain(t) {
            return true;
        }
        let num = match path.strip_prefix("/v/").and_then(|n| n.parse::<i32>().ok()) {
            None => return false,
            Some(n) => n,
        };
        let mut q = None;
        for kv in query.unwrap_or("").split('&') {
            let mut it = kv.splitn(2, '=');
            if it.next() == Some("q") {
                q = Some(it.next().unwrap_or("").replace('+', " "));
            }
        }
        let q = match q.map(|q| q.parse::<u8>()) {
            Some(Ok(q)) => q,
            _ => return false,
        };
        let h: Vec<&String> = seen.headers.iter().filter(|h| h.0 == "x-h").map(|h| &h.1).collect();
        if h.is_empty() {
            return false;
        }
        // a repeated parameter may give any of its values
        let repeated = h.len() > 1 || query.unwrap_or("").matches("q=").count() > 1;
        let want = format!(
            "{:?}",
            Req::<1> {
                path: Some(Path::Tuple(vec![V::I32(num)])),
                query: Some(Fields::Struct(vec![("q", V::U8(q))])),
                header: Some(Fields::Struct(vec![("x-h", s(h[0]))])),
                body: seen.body.clone(),
            }
        );
        repeated || run.1 == want
    }
}

/// A server with `POST /b` (body) and `GET /v/{i32}?q={u8}` (header `x-h`).
pub fn target_server(tune: impl FnOnce(&mut Sim)) -> (Sim, Handle<Result<(), htrpc::Error>>) {
    exec::fresh();
    define(0, Post, ep(&[Some("b")]));
    define(1, Get, ep(&[Some("v"), None]));
    set_req(
        1,
        ReqTy {
            path: Some(PathTy::Tuple(vec![Ty::I32])),
            query: Some(FieldsTy::strukt(vec![("q", Ty::U8)])),
            header: Some(FieldsTy::strukt(vec![("x-h", Ty::Str)])),
        },
    );
    let mut b = RpcServerBuilder::new(addr(PORT));
    b.set_logger(crate::app::logger());
    b.register(Handler::now(0, |_| Resp::<0>::status(200, b"zero")), Dp::<0>::new()).expect("register");
    b.register(Handler::now(1, |_| Resp::<1>::status(200, b"one")), Dp::<1>::new()).expect("register");
    let mut sim = Sim::new();
    tune(&mut sim);
    let h = start_server(&mut sim, PORT, b);
    sim.run();
    (sim, h)
}
/// A well-formed request on a connection of its own is answered.
pub fn probe(sim: &mut Sim) -> Result<(), String> {
    let c = sim::raw_connect(addr(PORT)).ok_or("the server does not listen any more")?;
    let before = log_len();
    sim::raw_send(c, Side::Client, b"POST /b HTTP/1.1\r\nContent-Length: 5\r\n\r\nprobe");
    sim.run();
    let r = sim::raw_recv(c, Side::Client);
    sim::raw_close(c, Side::Client);
    sim.run();
    match http::parse(&r, false) {
        http::Parsed::Complete(ref m, n) if n == r.len() && m.status() == 200 && m.body == b"zero" && log_len() == before + 1 => Ok(()),
        other => Err(format!("afterwards, another connection is answered by {}", short(&format!("{:?}", other)))),
    }
}
/// Splits what the server has sent; every message must be complete and its status a known one.
fn responses(bytes: &[u8], seen: &[Seen]) -> Result<Vec<http::Msg>, String> {
    let heads: Vec<bool> = seen.iter().map(|s| s.method == "HEAD").collect();
    match http::parse_all(bytes, &heads) {
        Ok(m) => Ok(m),
        // the server may take a request which the reference does not, and it may be a HEAD
        Err(e) => Err(format!("the server sent: {}", e)),
    }
}

/// Feeds the pieces to a server.
pub fn hostile(pieces: &[&[u8]], probing: bool) -> Result<(), String> {
    let (mut sim, server) = target_server(|_| {});
    let early = if probing {
        // a connection from before, in the middle of its request
        let c = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
        sim::raw_send(c, Side::Client, b"POST /b HTTP/1.1\r\nContent-Length: 5\r\n\r\nea");
        sim.run();
        Some(c)
    } else {
        None
    };
    attack(&mut sim, &server, pieces, early)?;
    if probing {
        probe(&mut sim)?;
    }
    Ok(())
}
fn attack(sim: &mut Sim, server: &Handle<Result<(), htrpc::Error>>, pieces: &[&[u8]], early: Option<usize>) -> Result<(), String> {
    let all: Vec<u8> = pieces.concat();
    let before = log_len();
    let c = sim::raw_connect(addr(PORT)).ok_or("the server does not listen any more")?;
    for p in pieces {
        sim::raw_send(c, Side::Client, p);
        if sim.run() == Outcome::StepLimit {
            return Err("the server does not come to rest".into());
        }
    }
    let (seen, rest) = read_all(&all);
    let runs = log_from(before);
    // the runs are explained by well-formed requests, in order
    let mut i = 0;
    for r in &runs {
        while i < seen.len() && !explains(&seen[i], r) {
            i += 1;
        }
        if i == seen.len() {
            return Err(format!("a handler ran without a well-formed request for it: {:?}", r));
        }
        i += 1;
    }
    let bytes = sim::raw_recv(c, Side::Client);
    let msgs = responses(&bytes, &seen)?;
    let mut good = 0;
    for m in &msgs {
        match m.status() {
            200 => good += 1,
            400..=499 => {}
            s => return Err(format!("answered with status {}", s)),
        }
    }
    if good != runs.len() {
        return Err(format!("{} handlers ran, {} successful responses", runs.len(), good));
    }
    let closed = sim::raw_is_closed(c, Side::Client);
    if rest == Rest::Invalid && !closed && msgs.len() <= seen.len() && !all.is_empty() {
        // not yet refused: it may still be waiting for the end of something; the end of the stream
        // has to settle it
        sim::raw_shutdown(c, Side::Client);
        sim.run();
        let more = sim::raw_recv(c, Side::Client);
        let m = responses(&more, &[])?;
        if !sim::raw_is_closed(c, Side::Client) {
            return Err("malformed, and neither answered nor closed".into());
        }
        for m in &m {
            if m.status() < 400 || m.status() > 499 {
                return Err(format!("answered with status {}", m.status()));
            }
        }
    }
    sim::raw_close(c, Side::Client);
    sim.run();
    if log_len() != before + runs.len() {
        return Err("a handler ran after the connection was closed".into());
    }
    if sim::with_conn(c, |c| c.open[Side::Server as usize]) {
        return Err("the connection is kept although the peer has closed it".into());
    }
    if server.is_done() {
        return Err("the server ended".into());
    }
    if let Some(c) = early {
        let before = log_len();
        sim::raw_send(c, Side::Client, b"rly");
        sim.run();
        let r = sim::raw_recv(c, Side::Client);
        match http::parse(&r, false) {
            http::Parsed::Complete(ref m, n) if n == r.len() && m.status() == 200 && log_len() == before + 1 => {}
            other => return Err(format!("an earlier connection is answered by {}", short(&format!("{:?}", other)))),
        }
    }
    Ok(())
}

pub fn bases() -> Vec<Vec<u8>> {
    vec![
        b"POST /b HTTP/1.1\r\nContent-Length: 3\r\n\r\nxyz".to_vec(),
        b"GET /v/12?q=7 HTTP/1.1\r\nX-H: val\r\n\r\n".to_vec(),
        b"POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nxy\r\na;e\r\n0123456789\r\n0\r\nT: x\r\n\r\n".to_vec(),
        b"POST /b HTTP/1.1\r\nContent-Length: 1\r\n\r\nAPOST /b HTTP/1.1\r\nContent-Length: 1\r\n\r\nB".to_vec(),
        b"HEAD /x HTTP/1.0\r\nA: b\r\nContent-Length: 0\r\n\r\n".to_vec(),
    ]
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Edit {
    Replace(u8),
    Insert(u8),
    Delete,
    Dup,
    Cut,
    Swap,
}
fn edit(m: &mut Vec<u8>, at: usize, e: Edit) {
    match e {
        Edit::Replace(b) => m[at] = b,
        Edit::Insert(b) => m.insert(at, b),
        Edit::Delete => {
            m.remove(at);
        }
        Edit::Dup => {
            let b = m[at];
            m.insert(at, b)
        }
        Edit::Cut => m.truncate(at),
        Edit::Swap => {
            if at + 1 < m.len() {
                m.swap(at, at + 1)
            }
        }
    }
}

pub fn c07(tier: Tier) -> Vec<Family> {
    let deep = tier == Tier::Thorough;
    let mut out = Vec::new();
    // every single-byte edit of well-formed requests
    let mut cases: Vec<(usize, usize)> = Vec::new();
    for (i, b) in bases().iter().enumerate() {
        for at in 0..b.len() {
            cases.push((i, at));
        }
    }
    out.push(Family::list("single edits", 0, cases.clone(), |(i, at)| {
        let base = &bases()[*i];
        let mut edits: Vec<Edit> = (0..=255).map(Edit::Replace).collect();
        edits.extend((0..=255).map(Edit::Insert));
        edits.extend([Edit::Delete, Edit::Dup, Edit::Cut, Edit::Swap]);
        let (mut sim, server) = target_server(|_| {});
        for e in edits {
            let mut m = base.clone();
            edit(&mut m, *at, e);
            attack(&mut sim, &server, &[&m], None).map_err(|x| format!("{:?}: {} ({:?})", e, x, String::from_utf8_lossy(&m)))?;
        }
        probe(&mut sim)
    }));
    // the same byte by byte, with connections before and after
    let marks = [0u8, b'\n', b'\r', b' ', b'\t', b':', b';', b'/', b'0', b'9', b'-', b'+', b',', b'%', b'?', b'#', b'\\', b'.', 0x7f, 0x80, 0xc3, 0xff];
    out.push(Family::list("single edits, byte by byte", 0, cases, move |(i, at)| {
        let base = &bases()[*i];
        let mut edits: Vec<Edit> = marks.iter().map(|b| Edit::Replace(*b)).collect();
        edits.extend(marks.iter().map(|b| Edit::Insert(*b)));
        edits.extend([Edit::Delete, Edit::Dup, Edit::Cut, Edit::Swap]);
        for e in edits {
            let mut m = base.clone();
            edit(&mut m, *at, e);
            let pieces: Vec<&[u8]> = m.chunks(1).collect();
            hostile(&pieces, true).map_err(|x| format!("{:?}: {}", e, x))?;
        }
        Ok(())
    }));
    // pairs of edits
    let marks2: Vec<Edit> = vec![
        Edit::Delete,
        Edit::Dup,
        Edit::Replace(b'\n'),
        Edit::Replace(b' '),
        Edit::Insert(b'\r'),
        Edit::Insert(b'\n'),
        Edit::Insert(b' '),
        Edit::Insert(0),
        Edit::Insert(b'9'),
        Edit::Insert(b':'),
        Edit::Insert(0xff),
    ];
    let mut cases: Vec<(usize, usize, usize)> = Vec::new();
    for (i, b) in bases().iter().enumerate() {
        if !deep && i > 1 {
            continue;
        }
        for a in 0..b.len() {
            for c in 0..a {
                cases.push((i, a, c));
            }
        }
    }
    out.push(Family::list("pairs of edits", 0, cases, move |(i, a, c)| {
        let base = &bases()[*i];
        let (mut sim, server) = target_server(|_| {});
        for e in &marks2 {
            for f in &marks2 {
                let mut m = base.clone();
                edit(&mut m, *a, *e);
                edit(&mut m, *c, *f);
                attack(&mut sim, &server, &[&m], None).map_err(|x| format!("{:?}: {}", String::from_utf8_lossy(&m), x))?;
            }
        }
        Ok(())
    }));
    // all short strings
    let alphabet: Vec<u8> = b"GET /HP1.:\r\n0%?#\\".iter().cloned().chain([0, 9, 0x80, 0xff]).collect();
    let n = alphabet.len();
    let depth = tier.pick(4u32, 5);
    let alpha = alphabet.clone();
    out.push(Family::new(
        "short strings",
        n * n,
        0,
        move |i| format!("{:?}", String::from_utf8_lossy(&[alphabet[i % n], alphabet[i / n]])),
        move |i| {
            let (mut sim, server) = target_server(|_| {});
            let head = [alpha[i % n], alpha[i / n]];
            for len in 0..=(depth - 2) {
                for mut k in 0..n.pow(len) {
                    let mut m = head.to_vec();
                    for _ in 0..len {
                        m.push(alpha[k % n]);
                        k /= n;
                    }
                    attack(&mut sim, &server, &[&m], None).map_err(|x| format!("{:?}: {}", String::from_utf8_lossy(&m), x))?;
                }
            }
            probe(&mut sim)
        },
    ));
    // every pair of bytes as a whole input, and as a target
    out.push(Family::new("two bytes", 256, 0, |i| format!("first byte {}", i), |i| {
        let (mut sim, server) = target_server(|_| {});
        for b in 0..=255u8 {
            let m = [i as u8, b];
            attack(&mut sim, &server, &[&m], None).map_err(|x| format!("{:?}: {}", m, x))?;
            for pre in [&b"GET "[..], b"POST /", b"GET /v/", b"POST /b?"] {
                let mut t = pre.to_vec();
                t.extend(&m);
                t.extend(b" HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
                attack(&mut sim, &server, &[&t], None).map_err(|x| format!("{:?}: {}", String::from_utf8_lossy(&t), x))?;
            }
        }
        probe(&mut sim)
    }));
    // targets which are not paths of this server
    let targets: Vec<String> = [
        "*", "b", "b/", "./b", "../b", "/./b", "/../b", "/x/../b", "/%2e%2e/b", "//b", "///b", "//h/b", "/b/", "/b//", "http://h/b", "http://h", "http:",
        "http:/", "http://", "http://[", "http://[::1", "http://[::1]/b", "http://h:99999/b", "http://h:x/b", "http://u:p@h/b", "https://h/b",
        "ftp://h/b", "file:///b", "file:b", "mailto:b", "data:,b", "javascript:b", "about:blank", "urn:b", "x:/b", "x://h/b", "x:b", ":", ":b", "?",
        "?b", "#", "#b", "/#", "/?", "/%", "/%00", "/%ff", "/%zz", "\\b", "/\\b", "\\\\h\\b", "h:80", "h", "@", "/b%00", "/b%20", "/b;x", "/b,", "/b%2f", "/b%3f",
        "blob:http://h/b", "ws://h/b", "http://%", "http://%zz/b", "http://h%00/b", "http://\u{e9}/b", "http://xn--a/b", "http://0x7f.1/b", "http://1.2.3.4.5/b",
        "http://-/b", "http://./b", "http://h:/b", "http:b", "HTTP://H/b", "//", "///", "//@", "//:", "//[", "/[", "/]", "/b[", "/v/", "/v/1", "/v/1?", "/v/1?q", "/v/1?q=",
        "/v/1?q=256", "/v/1?q=-1", "/v/1?q=1&q=2", "/v/1?=", "/v/1?&", "/v/1?&&q=1", "/v/2147483648?q=1", "/v/-2147483649?q=1", "/v/0x1?q=1", "/v/%31?q=%31", "/v/1/?q=1",
        "/v/%?q=1", "/v/1?%=%", "/v/1?q=%ff", "/v/\u{7f}", "/v/+1?q=1", "/v/%F0%9F%98%80?q=1",
    ]
    .iter()
    .map(|s| s.to_string())
    .chain([format!("/{}", "a/".repeat(3000)), format!("/{}", "%".repeat(3000)), format!("/v/{}", "9".repeat(3000)), format!("/v/1?{}", "&".repeat(3000)), format!("/v/1?{}", "q=1&".repeat(1000))])
    .collect();
    out.push(Family::list("targets", 0, targets, |t| {
        for m in METHODS {
            for v in ["HTTP/1.1", "HTTP/1.0"] {
                for h in ["", "X-H: v\r\n", "Content-Length: 2\r\n", "Host: \r\n"] {
                    let mut x = format!("{} {} {}\r\n{}\r\n", m, t, v, h).into_bytes();
                    if h.starts_with("Content") {
                        x.extend(b"zz");
                    }
                    hostile(&[&x], true).map_err(|e| format!("{} {}: {}", m, h, e))?;
                }
            }
        }
        Ok(())
    }));
    // request lines
    let methods = ["", "GET", "get", "Get", "POST", "BREW", "G", "GETT", "GE T", "\u{e9}", "PRI", "LINK", "PROPFIND", "\0", "-", "GET\t", "\tGET", " GET"];
    let versions = [
        "", "HTTP/1.1", "HTTP/1.0", "HTTP/1.2", "HTTP/0.9", "HTTP/2.0", "HTTP/2", "HTTP/1.", "HTTP/1", "http/1.1", "HTTP/1.1 ", "HTTP/1.1 x", "HTTP/11", "HTTP/1.10", "HTTP/ 1.1", "HTP/1.1", "x",
    ];
    let targets = ["", "/b", "/v/1?q=1", "/ b", "/b\t", "/\0"];
    let ends = ["\r\n\r\n", "\n\n", "\r\r", "\r\n", "\n", "\r\n\n", "\n\r\n", "\r", "", "\r\n \r\n\r\n", "\r\n\tx: y\r\n\r\n"];
    let mut cases = Vec::new();
    for m in methods {
        for t in targets {
            for v in versions {
                cases.push((m, t, v));
            }
        }
    }
    out.push(Family::list("request lines", 0, cases, move |(m, t, v)| {
        let (mut sim, server) = target_server(|_| {});
        for sep in [" ", "  ", "\t", ""] {
            for e in &ends {
                for pre in ["", "\r\n", "\n", "\r", " ", "\0"] {
                    let x = format!("{}{}{}{}{}{}{}", pre, m, sep, t, sep, v, e).into_bytes();
                    attack(&mut sim, &server, &[&x], None).map_err(|er| format!("{:?}: {}", String::from_utf8_lossy(&x), er))?;
                }
            }
        }
        probe(&mut sim)
    }));
    // header lines which matter for the framing
    let names = [
        "Content-Length", "content-length", "Content-Length ", " Content-Length", "Content_Length", "Transfer-Encoding", "transfer-encoding", "Transfer-Encoding ", "Connection", "Host", "Expect", "", "X",
        "X\0", "X Y", "X\t", "(X)", "X\u{e9}", "\"X\"", "Te",
    ];
    let values = [
        "", " ", "0", "1", "2", "3", "4", "+2", "-1", "02", "2 ", " 2", "2,2", "2, 2", "2.0", "0x2", "2e0", "2a", "99999999999", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456",
        "chunked", "Chunked", "identity", "gzip, chunked", "chunked, gzip", "chunked, chunked", "xchunked", "chunked;q=1", "close", "keep-alive", "100-continue", "\0", "\u{7f}", "\u{1}", "a\tb", "\u{b}2", "2\u{c}", "\u{e9}", "\r", "x\ry", "x\r y", "x\n y",
    ];
    let mut lines: Vec<String> = Vec::new();
    for n in names {
        for v in values {
            lines.push(format!("{}: {}\r\n", n, v));
        }
        lines.push(format!("{}\r\n", n));
        lines.push(format!("{}:2\r\n", n));
        lines.push(format!("{}: 2\n", n));
    }
    let seconds: Vec<String> = if deep {
        lines.clone()
    } else {
        lines
            .iter()
            .filter(|l| {
                ["Content-Length: 2\r\n", "Content-Length: 0\r\n", "Content-Length: 3\r\n", "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: identity\r\n", "X: 1\r\n", "content-length: 2\r\n"].contains(&l.as_str())
            })
            .cloned()
            .collect()
    };
    out.push(Family::list("framing headers", 0, lines, move |l| {
        let (mut sim, server) = target_server(|_| {});
        for two in std::iter::once(&String::new()).chain(&seconds) {
            for body in ["", "ab", "2\r\nab\r\n0\r\n\r\n", "0\r\n\r\n", "abPOST /b HTTP/1.1\r\nContent-Length: 0\r\n\r\n"] {
                for order in 0..2 {
                    let (a, b) = if order == 0 { (l, two) } else { (two, l) };
                    let x = format!("POST /b HTTP/1.1\r\n{}{}\r\n{}", a, b, body).into_bytes();
                    attack(&mut sim, &server, &[&x], None).map_err(|er| format!("{:?}: {}", String::from_utf8_lossy(&x), er))?;
                }
            }
        }
        probe(&mut sim)
    }));
    // chunk lines
    let sizes = [
        "", "0", "00", "000000000000000000000", "1", "2", "02", "0x2", "-2", "+2", " 2", "2 ", "2;", "2;x", "2 ;x", ";2", "g", "2g", "FFFFFFFFFFFFFFFF", "10000000000000000", "ffffffffffffffffff", "7fffffffffffffff",
        "2\0", "2\t", "\t2", "2,", "\u{e9}", "2\r", "2;\r",
    ];
    let mut cases = Vec::new();
    for a in sizes {
        for e in ["\r\n", "\n", "\r", "", "\n\r", "\r\n\r\n"] {
            for data in ["ab\r\n", "ab", "ab\n", "abc\r\n", "a\r\n", "\r\n", ""] {
                cases.push((a, e, data));
            }
        }
    }
    out.push(Family::list("chunks", 0, cases, move |(a, e, data)| {
        let (mut sim, server) = target_server(|_| {});
        for tail in ["0\r\n\r\n", "0\n\n", "0\r\n", "", "00\r\n\r\n", "0;x\r\nA: b\r\n\r\n", "0\r\nA\r\n\r\n", "-0\r\n\r\n", "x"] {
            let x = format!("POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n{}{}{}{}", a, e, data, tail).into_bytes();
            attack(&mut sim, &server, &[&x], None).map_err(|er| format!("{:?}: {}", String::from_utf8_lossy(&x), er))?;
            let pieces: Vec<&[u8]> = x.chunks(1).collect();
            attack(&mut sim, &server, &pieces, None).map_err(|er| format!("{:?} byte by byte: {}", String::from_utf8_lossy(&x), er))?;
        }
        probe(&mut sim)
    }));
    // floods: more than any limit
    let floods: Vec<(&str, Vec<u8>)> = vec![
        ("A", b"A".to_vec()),
        ("NUL", vec![0]),
        ("CR LF", b"\r\n".to_vec()),
        ("LF", b"\n".to_vec()),
        ("CR", b"\r".to_vec()),
        ("space", b" ".to_vec()),
        ("header", b"A: b\r\n".to_vec()),
        ("0xff", vec![0xff]),
        ("GET", b"GET ".to_vec()),
        ("slash", b"/".to_vec()),
        ("percent", b"%41".to_vec()),
        ("chunk", b"1\r\nA\r\n".to_vec()),
        ("request", b"GET / HTTP/1.1\r\n\r\n".to_vec()),
    ];
    let prefixes: Vec<&'static [u8]> = vec![
        b"", b"GET ", b"GET /", b"GET / HTTP/1.1\r\n", b"GET / HTTP/1.1\r\nA: ", b"GET / HTTP/1.1\r\nA",
        b"POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", b"POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5;",
        b"POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", b"POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\nA: ",
    ];
    let mut cases = Vec::new();
    for (n, f) in &floods {
        for p in &prefixes {
            for size in [1000usize, 1024, 8000, 8096, 8097, 9000, 20000, 70000] {
                cases.push((*n, f.clone(), *p, size));
            }
        }
    }
    out.push(Family::list("floods", 0, cases, |(_, f, p, size)| {
        let mut m = p.to_vec();
        while m.len() < *size {
            m.extend(f);
        }
        hostile(&[&m], true)?;
        let pieces: Vec<&[u8]> = m.chunks(777).collect();
        hostile(&pieces, true)
    }));
    out
}
