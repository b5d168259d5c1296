//! C10: calls to a server played by the harness, judged by a reference reader of responses.
use crate::app::*;
use crate::dynty::*;
use crate::exec::{self, Handle, Outcome, Sim};
use crate::explore::{short, Family};
use crate::net::{Cut, Net};
use crate::Tier;
use htrpc::pool::{RpcClientPool, RpcClientPoolHandle};
use htrpc::types::HttpMethod::{self, *};
use htrpc::{Error, RpcClient};
use mio::sim::{self, ConnectAns, Side};
use std::io::ErrorKind;

use super::bodies::{chunked, pattern, End, ENDS};
use super::args::METHODS;
use super::responses::{Form, FORMS, STATUSES};

/// What a reader makes of the bytes received so far.
#[derive(Debug, Clone, PartialEq)]
pub enum Read {
    /// A response; `clean`: in a form every reader has to take; `exact`: nothing follows it.
    Complete { status: u16, body: Vec<u8>, clean: bool, exact: bool },
    /// A response whose body extends to the end of the stream.
    UntilEnd { status: u16, body: Vec<u8>, clean: bool },
    Incomplete,
    Invalid,
}
fn token(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}
/// Takes a line off the front; the flag tells whether it ended with CR LF.
fn line<'a>(b: &mut &'a [u8]) -> Option<(&'a [u8], bool)> {
    let p = b.iter().position(|c| *c == b'\n')?;
    let l = &b[..p];
    *b = &b[p + 1..];
    if l.last() == Some(&b'\r') {
        Some((&l[..l.len() - 1], true))
    } else {
        Some((l, false))
    }
}
pub fn read_response(bytes: &[u8], head: bool) -> Read {
    let mut b = bytes;
    let mut clean = true;
    // empty lines in front may be skipped by a permissive reader
    while b.starts_with(b"\r\n") || b.starts_with(b"\n") {
        clean = false;
        b = &b[if b[0] == b'\n' { 1 } else { 2 }..];
    }
    let (l, crlf) = match line(&mut b) {
        None => return Read::Incomplete,
        Some(l) => l,
    };
    clean &= crlf;
    let mut ok = l.len() >= 12 && (l.starts_with(b"HTTP/1.1 ") || l.starts_with(b"HTTP/1.0 "));
    ok = ok && l[9..12].iter().all(|c| c.is_ascii_digit());
    ok = ok && (l.len() == 12 || l[12] == b' ');
    // the reason phrase is not interpreted
    ok = ok && l[12..].iter().all(|c| *c == b'\t' || (*c >= 32 && *c != 127));
    if !ok {
        return Read::Invalid;
    }
    clean &= l.len() > 12 && l[12..].iter().all(|c| *c >= 32 && *c < 127);
    let status: u16 = std::str::from_utf8(&l[9..12]).unwrap_or("0").parse().unwrap_or(0);
    let mut headers: Vec<(String, String)> = Vec::new();
    loop {
        let (l, crlf) = match line(&mut b) {
            None => return Read::Incomplete,
            Some(l) => l,
        };
        clean &= crlf;
        if l.is_empty() {
            break;
        }
        let c = match l.iter().position(|c| *c == b':') {
            None => return Read::Invalid,
            Some(c) => c,
        };
        if c == 0 || !l[..c].iter().all(|c| token(*c)) {
            return Read::Invalid;
        }
        if !l[c + 1..].iter().all(|c| *c == b'\t' || (*c >= 32 && *c != 127)) {
            return Read::Invalid;
        }
        clean &= l[c + 1..].iter().all(|c| *c >= 32 && *c < 127);
        let name = String::from_utf8_lossy(&l[..c]).to_lowercase();
        let value = String::from_utf8_lossy(&l[c + 1..]);
        headers.push((name, value.trim_matches(|c| c == ' ' || c == '\t').to_string()));
    }
    if headers.len() > 32 {
        return Read::Invalid;
    }
    let get = |n: &str| -> Vec<String> { headers.iter().filter(|h| h.0 == n).map(|h| h.1.clone()).collect() };
    let (len, te) = (get("content-length"), get("transfer-encoding"));
    if head {
        // no body whatever the headers say
        let odd = len.len() + te.len() > 1 || len.iter().any(|l| l.parse::<u64>().is_err()) || te.iter().any(|t| !t.eq_ignore_ascii_case("chunked"));
        return Read::Complete {
            status,
            body: vec![],
            clean: clean && !odd,
            exact: b.is_empty(),
        };
    }
    if len.len() + te.len() > 1 {
        return Read::Invalid;
    }
    let bodyless = status / 100 == 1 || status == 204 || status == 304;
    if bodyless && len.len() + te.len() > 0 {
        // a body where none is allowed: readers differ
        clean = false;
    }
    if let Some(v) = len.first() {
        if v.is_empty() || !v.bytes().all(|c| c.is_ascii_digit()) {
            return Read::Invalid;
        }
        let n: u64 = match v.parse() {
            Err(_) => return Read::Invalid,
            Ok(n) => n,
        };
        if (b.len() as u64) < n {
            return Read::Incomplete;
        }
        return Read::Complete {
            status,
            body: b[..n as usize].to_vec(),
            clean,
            exact: b.len() as u64 == n,
        };
    }
    if let Some(v) = te.first() {
        if !v.eq_ignore_ascii_case("chunked") {
            return Read::Invalid;
        }
        let mut body = Vec::new();
        let next = |b: &mut &[u8]| -> Option<Vec<u8>> {
            let p = b.windows(2).position(|w| w == b"\r\n")?;
            let l = b[..p].to_vec();
            *b = &b[p + 2..];
            Some(l)
        };
        loop {
            let l = match next(&mut b) {
                None => return if b.len() > 1100 { Read::Invalid } else { Read::Incomplete },
                Some(l) => l,
            };
            let digits = String::from_utf8_lossy(l.split(|c| *c == b';').next().unwrap_or(b"")).into_owned();
            clean &= digits.trim() == digits && l.iter().all(|c| *c >= 32 && *c < 127);
            let digits = digits.trim();
            if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_hexdigit()) {
                return Read::Invalid;
            }
            let n = match u64::from_str_radix(digits, 16) {
                Err(_) => return Read::Invalid,
                Ok(n) => n,
            };
            if n == 0 {
                loop {
                    match next(&mut b) {
                        None => return if b.len() > 1100 { Read::Invalid } else { Read::Incomplete },
                        Some(ref l) if l.is_empty() => break,
                        Some(l) => clean &= l.contains(&b':'),
                    }
                }
                return Read::Complete {
                    status,
                    body,
                    clean,
                    exact: b.is_empty(),
                };
            }
            if (b.len() as u64) < n {
                return Read::Incomplete;
            }
            body.extend(&b[..n as usize]);
            b = &b[n as usize..];
            if b.len() < 2 {
                return if b"\r\n".starts_with(b) { Read::Incomplete } else { Read::Invalid };
            }
            if &b[..2] != b"\r\n" {
                return Read::Invalid;
            }
            b = &b[2..];
        }
    }
    if bodyless {
        return Read::Complete {
            status,
            body: vec![],
            clean,
            exact: b.is_empty(),
        };
    }
    Read::UntilEnd {
        status,
        body: b.to_vec(),
        clean,
    }
}

/// A client which can be asked to call.
pub enum Caller {
    Plain(RpcClient),
    Pooled(RpcClientPoolHandle),
}
impl Caller {
    pub fn new(client: Client, sim: &mut Sim) -> Caller {
        match client {
            Client::Plain => Caller::Plain(RpcClient::new(addr(PORT))),
            Client::Pooled => {
                let pool = RpcClientPool::new();
                let h = pool.handle();
                sim.spawn("pool", pool);
                Caller::Pooled(h)
            }
        }
    }
    pub fn call(&mut self, sim: &mut Sim, req: Req<0>) -> Handle<Result<Resp<0>, Error>> {
        match *self {
            Caller::Plain(ref mut c) => sim.run_fut("call", c.call::<Dp<0>>(req)),
            Caller::Pooled(ref h) => sim.run_fut("call", h.client(addr(PORT)).call::<Dp<0>>(req)),
        }
    }
}
fn run(sim: &mut Sim) -> Result<(), String> {
    if sim.run() == Outcome::StepLimit {
        Err("the client does not come to rest".into())
    } else {
        Ok(())
    }
}
type Res = Option<Result<Resp<0>, String>>;
fn take(h: &Handle<Result<Resp<0>, Error>>) -> Res {
    h.take().map(|r| r.map_err(|e| e.to_string()))
}
fn known(status: u16) -> bool {
    STATUSES.iter().any(|s| s.0 == status)
}
fn judge(bytes: &[u8], head: bool, ended: Option<End>, limit: bool, got: &Res) -> Result<(), String> {
    let read = read_response(bytes, head);
    let bad = |why: &str| Err(format!("{}: {} (reference: {})", why, short(&format!("{:?}", got)), short(&format!("{:?}", read))));
    let is = |status: u16, body: &[u8]| match got {
        Some(Ok(r)) => *r == Resp::<0>::status(status, body),
        _ => false,
    };
    let ended_or = |pending_ok: bool| match got {
        Some(Ok(_)) => bad("success without a complete response"),
        Some(Err(_)) => Ok(()),
        None => {
            if ended.is_none() && pending_ok {
                Ok(())
            } else {
                bad("the call does not settle")
            }
        }
    };
    match read {
        Read::Invalid => ended_or(true),
        Read::Incomplete => {
            if ended.is_none() && !limit {
                match got {
                    None => Ok(()),
                    // refused early: only if what follows cannot make it a clean response
                    Some(Err(_)) => {
                        if hopeless(bytes) {
                            Ok(())
                        } else {
                            bad("failed although the response could still be completed")
                        }
                    }
                    _ => bad("success without a complete response"),
                }
            } else {
                ended_or(true)
            }
        }
        Read::Complete { status, ref body, clean, .. } => {
            if is(status, body) {
                return Ok(());
            }
            match got {
                Some(Err(_)) if !clean || limit || !known(status) => Ok(()),
                Some(Err(_)) => bad("failed although the response is complete"),
                // interim or bodyless responses with framing headers may be read in different ways
                Some(Ok(_)) if !clean && (status / 100 == 1 || status == 204 || status == 304) => Ok(()),
                _ if !clean && ended.is_none() => Ok(()),
                _ => bad("not the response which was sent"),
            }
        }
        Read::UntilEnd { status, ref body, clean } => match ended {
            None => match got {
                None => Ok(()),
                Some(Err(_)) if !clean || !known(status) || limit => Ok(()),
                _ => bad("settled before the end of the response"),
            },
            Some(End::Reset) => ended_or(false),
            _ => {
                if is(status, body) {
                    return Ok(());
                }
                match got {
                    Some(Err(_)) if !clean || limit || !known(status) => Ok(()),
                    Some(Err(_)) => bad("failed although the response is complete"),
                    _ => bad("not the response which was sent"),
                }
            }
        },
    }
}
/// Whether no continuation of these bytes is a clean response.
fn hopeless(bytes: &[u8]) -> bool {
    let head_end = bytes.windows(4).position(|w| w == b"\r\n\r\n");
    let head = &bytes[..head_end.map_or(bytes.len(), |p| p + 2)];
    // anything unusual in the head will do
    let template = b"HTTP/1.";
    let n = head.len().min(7);
    if head[..n] != template[..n] {
        return true;
    }
    let mut first = true;
    let mut lines: Vec<&[u8]> = head.split(|c| *c == b'\n').collect();
    let last = lines.pop().unwrap_or(b"");
    // more headers than the client takes
    if lines.len() > 32 {
        return true;
    }
    for l in lines {
        if l.last() != Some(&b'\r') {
            return true;
        }
        let l = &l[..l.len() - 1];
        if !l.iter().all(|c| *c >= 32 && *c < 127) {
            return true;
        }
        if first {
            let digits = l.len() > 12 && l[9..12].iter().all(|c| c.is_ascii_digit()) && l[8] == b' ' && l[12] == b' ' && (l[7] == b'0' || l[7] == b'1');
            if !digits {
                return true;
            }
            first = false;
            continue;
        }
        match l.iter().position(|c| *c == b':') {
            None => return true,
            Some(c) => {
                if c == 0 || !l[..c].iter().all(|c| token(*c)) {
                    return true;
                }
                let name = String::from_utf8_lossy(&l[..c]).to_lowercase();
                let value = String::from_utf8_lossy(&l[c + 1..]).trim().to_string();
                if name == "content-length" && (value.is_empty() || !value.bytes().all(|b| b.is_ascii_digit()) || value.len() > 15) {
                    return true;
                }
            }
        }
    }
    // the unfinished line
    if head_end.is_none() {
        let l = if last.last() == Some(&b'\r') { &last[..last.len() - 1] } else { last };
        if !l.iter().all(|c| *c >= 32 && *c < 127) {
            return true;
        }
        if first {
            for (i, c) in l.iter().enumerate() {
                let ok = match i {
                    0..=6 => true,
                    7 => *c == b'0' || *c == b'1',
                    8 | 12 => *c == b' ',
                    9..=11 => c.is_ascii_digit(),
                    _ => true,
                };
                if !ok {
                    return true;
                }
            }
            if last.last() == Some(&b'\r') && l.len() <= 12 {
                return true;
            }
        } else {
            let name_end = l.iter().position(|c| *c == b':').unwrap_or(l.len());
            if (name_end == 0 && !l.is_empty()) || !l[..name_end].iter().all(|c| token(*c)) || (last.last() == Some(&b'\r') && name_end == l.len() && !l.is_empty()) {
                return true;
            }
        }
        return false;
    }
    // a chunked body: lines must be well-formed
    match read_response(&bytes[..head_end.unwrap_or(0) + 4], false) {
        Read::Incomplete => {}
        _ => return false,
    }
    let mut b = &bytes[head_end.unwrap_or(0) + 4..];
    if !String::from_utf8_lossy(head).to_lowercase().contains("chunked") {
        return false;
    }
    loop {
        let p = match b.windows(2).position(|w| w == b"\r\n") {
            None => {
                // an unfinished line
                let l = if b.last() == Some(&b'\r') { &b[..b.len() - 1] } else { b };
                let d = l.split(|c| *c == b';').next().unwrap_or(b"");
                return !d.iter().all(|c| c.is_ascii_hexdigit()) || d.len() > 15 || !l.iter().all(|c| *c >= 32 && *c < 127);
            }
            Some(p) => p,
        };
        let d = b[..p].split(|c| *c == b';').next().unwrap_or(b"");
        let n = match u64::from_str_radix(&String::from_utf8_lossy(d), 16) {
            Err(_) => return true,
            Ok(n) => n,
        };
        if n == 0 {
            return !b[p..].iter().all(|c| *c == b'\r' || *c == b'\n' || (*c >= 32 && *c < 127));
        }
        b = &b[p + 2..];
        if (b.len() as u64) < n + 2 {
            return b.len() as u64 == n + 1 && b[n as usize] != b'\r';
        }
        if &b[n as usize..n as usize + 2] != b"\r\n" {
            return true;
        }
        b = &b[n as usize + 2..];
    }
}

/// One call answered by these pieces; judged before and after the end of the stream.
pub fn answered(client: Client, method: HttpMethod, pieces: &[&[u8]], end: End) -> Result<(), String> {
    exec::fresh();
    define(0, method, ep(&[Some("b")]));
    sim::raw_listen(addr(PORT));
    let mut s = Sim::new();
    let mut caller = Caller::new(client, &mut s);
    answer_call(&mut s, &mut caller, method, pieces, end)
}
fn answer_call(s: &mut Sim, caller: &mut Caller, method: HttpMethod, pieces: &[&[u8]], end: End) -> Result<(), String> {
    let head = method == Head;
    let h = caller.call(s, Req::default());
    run(s)?;
    // the connection on which the request arrived
    let c = match sim::raw_accept(addr(PORT)) {
        Some(c) => c,
        None => sim::open_client_conns(addr(PORT)).last().cloned().ok_or("no connection")?,
    };
    let request = sim::raw_recv(c, Side::Server);
    if request.is_empty() {
        return Err("no request was sent".into());
    }
    let mut all: Vec<u8> = Vec::new();
    let mut result: Res = None;
    for p in pieces {
        if p.is_empty() {
            continue;
        }
        sim::raw_send(c, Side::Server, p);
        all.extend(*p);
        run(s)?;
        if result.is_none() {
            result = take(&h);
            let limit = all.len() > 7000;
            judge(&all, head, None, limit, &result)?;
        }
    }
    match end {
        End::Open => return Ok(()),
        End::Close => sim::raw_close(c, Side::Server),
        End::Shutdown => sim::raw_shutdown(c, Side::Server),
        End::Reset => sim::raw_reset(c, Side::Server, true),
    }
    run(s)?;
    if result.is_none() {
        result = take(&h);
        judge(&all, head, Some(end), all.len() > 7000, &result)?;
    } else if take(&h).is_some() {
        return Err("the call settled twice".into());
    }
    Ok(())
}
fn bases() -> Vec<Vec<u8>> {
    vec![
        b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhello".to_vec(),
        b"HTTP/1.0 404 Not Found\r\nX-Y: z\r\n\r\nuntil the end".to_vec(),
        b"HTTP/1.1 201 Created\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\nb;x\r\n01234567890\r\n0\r\nT: u\r\n\r\n".to_vec(),
        b"HTTP/1.1 204 No Content\r\nDate: x\r\n\r\n".to_vec(),
        b"HTTP/1.1 500 Internal Server Error\r\nContent-Length: 0\r\n\r\n".to_vec(),
    ]
}
/// A response to a caller which expects something in particular. `decl`: the status it declares
/// (for enums), `header`: the type of the header `x-a` it declares, `given`: what is sent.
fn expecting(
    client: Client,
    method: HttpMethod,
    form: Form,
    decl: &'static str,
    header: Option<Ty>,
    status: u16,
    given: &[&[u8]],
    split: bool,
) -> Result<(), String> {
    exec::fresh();
    define(0, method, ep(&[Some("b")]));
    let fields = header.clone().map(|t| FieldsTy::strukt(vec![("x-a", t)]));
    let fields = if form == Form::Unit { None } else { fields };
    set_resp(
        0,
        match form {
            Form::Status => RespTy::Status(fields.clone()),
            Form::OptStatus => RespTy::OptStatus(fields.clone()),
            Form::Unit => RespTy::enums(vec![(decl, Variant::Unit)]),
            Form::Struct => RespTy::enums(vec![(decl, Variant::Struct(fields.clone()))]),
            Form::Newtype => RespTy::enums(vec![(decl, Variant::Newtype(fields.clone()))]),
        },
    );
    sim::raw_listen(addr(PORT));
    let mut s = Sim::new();
    let mut caller = Caller::new(client, &mut s);
    let h = caller.call(&mut s, Req::default());
    run(&mut s)?;
    let c = sim::raw_accept(addr(PORT)).ok_or("no connection")?;
    sim::raw_recv(c, Side::Server);
    let mut m = format!("HTTP/1.1 {} Whatever\r\n", status).into_bytes();
    for g in given {
        m.extend(b"X-A: ");
        m.extend(*g);
        m.extend(b"\r\n");
    }
    m.extend(b"Content-Length: 3\r\n\r\n");
    if method != Head {
        m.extend(b"abc");
    }
    if split {
        for b in m.chunks(1) {
            sim::raw_send(c, Side::Server, b);
            run(&mut s)?;
        }
    } else {
        sim::raw_send(c, Side::Server, &m);
        run(&mut s)?;
    }
    let name = STATUSES.iter().find(|s| s.0 == status).map(|s| s.1);
    let enumerated = !matches!(form, Form::Status | Form::OptStatus);
    let value = match (&fields, given) {
        (None, _) => Some(vec![]),
        (Some(FieldsTy::Struct(f, _)), g) => match (&f[0].1, g) {
            (Ty::Opt(t), []) => Some(vec![("x-a", V::None((**t).clone()))]),
            (_, []) => None,
            // which of them counts is not said here
            (_, [_, _, ..]) => return if h.is_done() { Ok(()) } else { Err("the call does not settle".into()) },
            (t, [g]) => {
                let text = std::str::from_utf8(g).ok();
                let of = |t: &Ty| match t {
                    Ty::U8 => text.and_then(|x| x.parse().ok()).map(V::U8),
                    Ty::Bool => text.and_then(|x| x.parse().ok()).map(V::Bool),
                    Ty::Str => text.map(|x| V::Str(x.into())),
                    Ty::Bytes => Some(V::Bytes(g.to_vec())),
                    _ => None,
                };
                let v = match t {
                    Ty::Opt(t) => of(t).map(some),
                    t => of(t),
                };
                v.map(|v| vec![("x-a", v)])
            }
        },
        (Some(FieldsTy::Map(_)), _) => None,
    };
    let fine = value.is_some() && (!enumerated || name == Some(decl));
    match take(&h) {
        None => Err("the call does not settle".into()),
        Some(Err(e)) if fine && name.is_some() => Err(format!("failed: {}", short(&e))),
        Some(Err(_)) => Ok(()),
        Some(Ok(r)) => {
            if !fine {
                return Err(format!("got {}", short(&format!("{:?}", r))));
            }
            let want = Resp::<0> {
                kind: match form {
                    Form::Status => RespKind::Status(status),
                    Form::OptStatus => RespKind::OptStatus(Some(status)),
                    Form::Unit => RespKind::Unit(decl),
                    Form::Struct => RespKind::Struct(decl),
                    Form::Newtype => RespKind::Newtype(decl, None),
                },
                header: fields.map(|_| Fields::Struct(value.unwrap())),
                body: if method == Head { vec![] } else { b"abc".to_vec() },
            };
            if r == want {
                Ok(())
            } else {
                Err(format!("got {} instead of {:?}", short(&format!("{:?}", r)), want))
            }
        }
    }
}
const CLIENTS: &[Client] = &[Client::Plain, Client::Pooled];

pub fn c10(tier: Tier) -> Vec<Family> {
    let deep = tier == Tier::Thorough;
    let mut out = Vec::new();
    // every single-byte edit of well-formed responses
    let mut cases: Vec<(usize, usize)> = Vec::new();
    for (i, b) in bases().iter().enumerate() {
        for at in 0..b.len() {
            cases.push((i, at));
        }
    }
    out.push(Family::list("single edits", 0, cases.clone(), |(i, at)| {
        let base = &bases()[*i];
        let mut all: Vec<Vec<u8>> = Vec::new();
        for b in 0..=255u8 {
            let mut m = base.clone();
            m[*at] = b;
            all.push(m);
            let mut m = base.clone();
            m.insert(*at, b);
            all.push(m);
        }
        let mut m = base.clone();
        m.remove(*at);
        all.push(m);
        let mut m = base.clone();
        let x = m[*at];
        m.insert(*at, x);
        all.push(m);
        for m in &all {
            for end in [End::Close, End::Reset] {
                answered(Client::Plain, Get, &[m], end).map_err(|e| format!("{:?} {:?}: {}", String::from_utf8_lossy(m), end, e))?;
            }
            answered(Client::Pooled, Head, &[m], End::Close).map_err(|e| format!("{:?} HEAD: {}", String::from_utf8_lossy(m), e))?;
        }
        Ok(())
    }));
    let marks = [0u8, b'\n', b'\r', b' ', b'\t', b':', b';', b'0', b'9', b'-', b'+', b',', b'a', 0x7f, 0x80, 0xff];
    out.push(Family::list("single edits, byte by byte", 0, cases, move |(i, at)| {
        let base = &bases()[*i];
        for b in marks {
            for ins in [false, true] {
                let mut m = base.clone();
                if ins {
                    m.insert(*at, b);
                } else {
                    m[*at] = b;
                }
                let pieces: Vec<&[u8]> = m.chunks(1).collect();
                for c in CLIENTS {
                    answered(*c, Get, &pieces, End::Shutdown).map_err(|e| format!("{:?}: {}", String::from_utf8_lossy(&m), e))?;
                }
            }
        }
        Ok(())
    }));
    // every prefix of the responses, with every end
    let mut cases = Vec::new();
    for (i, b) in bases().iter().enumerate() {
        for at in 0..=b.len() {
            for e in ENDS {
                cases.push((i, at, *e));
            }
        }
    }
    out.push(Family::list("every prefix", 0, cases, |(i, at, e)| {
        let b = &bases()[*i];
        for c in CLIENTS {
            for m in [Get, Post, Head] {
                answered(*c, m, &[&b[..*at]], *e).map_err(|x| format!("{:?} {}: {}", c, m, x))?;
                answered(*c, m, &[&b[..*at / 2], &b[*at / 2..*at]], *e).map_err(|x| format!("{:?} {} in halves: {}", c, m, x))?;
            }
        }
        Ok(())
    }));
    // pairs of edits
    let mut cases: Vec<(usize, usize, usize)> = Vec::new();
    for (i, b) in bases().iter().enumerate() {
        if !deep && i > 0 {
            continue;
        }
        for a in 0..b.len() {
            for c in 0..a {
                cases.push((i, a, c));
            }
        }
    }
    let marks2 = [None, Some(b'\n'), Some(b'\r'), Some(b' '), Some(0), Some(b'9'), Some(b':'), Some(0xff)];
    out.push(Family::list("pairs of edits", 0, cases, move |(i, a, c)| {
        for x in marks2 {
            for y in marks2 {
                for ins in [false, true] {
                    let mut m = bases()[*i].clone();
                    for (at, e) in [(*a, x), (*c, y)] {
                        match e {
                            None => {
                                m.remove(at);
                            }
                            Some(b) if ins => m.insert(at, b),
                            Some(b) => m[at] = b,
                        }
                    }
                    answered(Client::Plain, Post, &[&m], End::Close).map_err(|e| format!("{:?}: {}", String::from_utf8_lossy(&m), e))?;
                }
            }
        }
        Ok(())
    }));
    // status lines
    let mut statuses: Vec<String> = (0..=999).map(|n| format!("{:03}", n)).collect();
    statuses.extend(["", "2", "20", "2000", "+20", "-20", "2 0", "0x2", "٢٠٠", "abc", "65736", "99999999999"].iter().map(|s| s.to_string()));
    out.push(Family::list("status lines", 0, statuses, |st| {
        for v in ["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/1.2", "http/1.1", "HTTP/1", "", "ICY"] {
            for reason in ["", " ", " OK", " Not Found", " \u{e9}", " a\tb", " \0", "  OK", " OK "] {
                for rest in ["Content-Length: 2\r\n\r\nhi", "\r\nhi", "Transfer-Encoding: chunked\r\n\r\n2\r\nhi\r\n0\r\n\r\n"] {
                    let m = format!("{} {}{}\r\n{}", v, st, reason, rest).into_bytes();
                    answered(Client::Plain, Get, &[&m], End::Close).map_err(|e| format!("{:?}: {}", String::from_utf8_lossy(&m), e))?;
                }
            }
        }
        Ok(())
    }));
    // what the caller expects
    let mut cases = Vec::new();
    for form in FORMS {
        for ty in [None, Some(Ty::U8), Some(Ty::Str), Some(Ty::Bool), Some(Ty::Bytes), Some(opt(Ty::U8)), Some(opt(Ty::Str))] {
            for decl in ["Ok", "NotFound", "ImATeapot"] {
                cases.push((*form, ty.clone(), decl));
            }
        }
    }
    out.push(Family::list("kinds of expected responses", 0, cases, |(form, ty, decl)| {
        let odd = [vec![], vec![&b"1"[..]], vec![b"300"], vec![b"-1"], vec![b"true"], vec![b"x y"], vec![b""], vec![b"\xff"], vec![b"1", b"2"], vec![b"1", b"x", b"\xff"]];
        let codes = STATUSES.iter().map(|s| s.0).chain([299, 420, 599, 600, 999]);
        for status in codes.filter(|c| *c >= 200) {
            for g in &odd {
                for m in [Get, Head] {
                    expecting(Client::Plain, m, *form, decl, ty.clone(), status, g, false).map_err(|e| format!("{} {} {:?}: {}", m, status, g, e))?;
                }
                if [200, 404, 418, 500].contains(&status) {
                    expecting(Client::Pooled, Post, *form, decl, ty.clone(), status, g, true).map_err(|e| format!("pooled {} {:?}: {}", status, g, e))?;
                }
            }
        }
        for m in METHODS {
            for c in CLIENTS {
                for g in &odd {
                    expecting(*c, *m, *form, decl, ty.clone(), 200, g, false).map_err(|e| format!("{:?} {} {:?}: {}", c, m, g, e))?;
                }
            }
        }
        Ok(())
    }));
    // framing headers
    let names = [
        "Content-Length", "content-length", "Content-Length ", " Content-Length", "Content_Length", "Transfer-Encoding", "transfer-encoding", "Connection", "", "X", "X\0", "X Y", "(X)", "X\u{e9}",
    ];
    let values = [
        "", " ", "0", "1", "2", "3", "+2", "-1", "02", " 2", "2,2", "2.0", "0x2", "2a", "99999999999", "18446744073709551615", "18446744073709551616", "chunked", "Chunked", "identity", "gzip, chunked", "chunked, chunked",
        "xchunked", "close", "keep-alive", "\0", "\u{7f}", "a\tb", "\u{b}2", "\u{e9}", "x\ry", "x\n y",
    ];
    let mut lines: Vec<String> = Vec::new();
    for n in names {
        for v in values {
            lines.push(format!("{}: {}\r\n", n, v));
        }
        lines.push(format!("{}\r\n", n));
        lines.push(format!("{}:2\r\n", n));
        lines.push(format!("{}: 2\n", n));
    }
    let seconds: Vec<String> = if deep {
        lines.clone()
    } else {
        ["Content-Length: 2\r\n", "Content-Length: 0\r\n", "Transfer-Encoding: chunked\r\n", "X: 1\r\n", "content-length: 2\r\n"].iter().map(|s| s.to_string()).collect()
    };
    out.push(Family::list("framing headers", 0, lines, move |l| {
        for two in std::iter::once(&String::new()).chain(&seconds) {
            for body in ["", "ab", "abc", "2\r\nab\r\n0\r\n\r\n", "0\r\n\r\n"] {
                for start in ["HTTP/1.1 200 OK", "HTTP/1.1 204 No Content", "HTTP/1.1 100 Continue"] {
                    let m = format!("{}\r\n{}{}\r\n{}", start, l, two, body).into_bytes();
                    let ends: &[End] = if deep || two.is_empty() { ENDS } else { &[End::Close] };
                    for e in ends {
                        for method in [Get, Head] {
                            answered(Client::Plain, method, &[&m], *e).map_err(|x| format!("{:?} {:?} {}: {}", String::from_utf8_lossy(&m), e, method, x))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    // chunk lines
    let sizes = [
        "", "0", "00", "1", "2", "02", "0x2", "-2", "+2", " 2", "2 ", "2;", "2;x", "2 ;x", ";2", "g", "2g", "FFFFFFFFFFFFFFFF", "10000000000000000", "ffffffffffffffffff", "2\0", "2\t", "2,", "\u{e9}", "2\r",
    ];
    let mut cases = Vec::new();
    for a in sizes {
        for e in ["\r\n", "\n", "\r", "", "\r\n\r\n"] {
            for data in ["ab\r\n", "ab", "ab\n", "abc\r\n", "a\r\n", "\r\n", ""] {
                cases.push((a, e, data));
            }
        }
    }
    out.push(Family::list("chunks", 0, cases, move |(a, e, data)| {
        for tail in ["0\r\n\r\n", "0\n\n", "0\r\n", "", "00\r\n\r\n", "0;x\r\nA: b\r\n\r\n", "-0\r\n\r\n", "x"] {
            let m = format!("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n{}{}{}{}", a, e, data, tail).into_bytes();
            for end in [End::Open, End::Close, End::Reset] {
                answered(Client::Plain, Get, &[&m], end).map_err(|er| format!("{:?} {:?}: {}", String::from_utf8_lossy(&m), end, er))?;
            }
            let pieces: Vec<&[u8]> = m.chunks(1).collect();
            answered(Client::Pooled, Get, &pieces, End::Close).map_err(|er| format!("{:?} byte by byte: {}", String::from_utf8_lossy(&m), er))?;
        }
        Ok(())
    }));
    // floods
    let floods: Vec<Vec<u8>> = vec![b"A".to_vec(), vec![0], b"\r\n".to_vec(), b"\n".to_vec(), b" ".to_vec(), b"A: b\r\n".to_vec(), vec![0xff], b"1\r\nA\r\n".to_vec(), b"HTTP/1.1 200 OK\r\n\r\n".to_vec()];
    let prefixes: Vec<&'static [u8]> = vec![
        b"", b"HTTP/1.1 200 ", b"HTTP/1.1 200 OK\r\n", b"HTTP/1.1 200 OK\r\nA: ", b"HTTP/1.1 200 OK\r\nA", b"HTTP/1.1 200 OK\r\n\r\n",
        b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5;", b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\nA: ",
    ];
    let mut cases = Vec::new();
    for f in &floods {
        for p in &prefixes {
            for size in [1000usize, 1024, 8000, 8096, 8097, 9000, 20000, 70000] {
                cases.push((f.clone(), *p, size));
            }
        }
    }
    out.push(Family::list("floods", 0, cases, |(f, p, size)| {
        let mut m = p.to_vec();
        while m.len() < *size {
            m.extend(f);
        }
        for c in CLIENTS {
            for e in [End::Close, End::Reset] {
                answered(*c, Get, &[&m], e).map_err(|x| format!("{:?}: {}", e, x))?;
                let pieces: Vec<&[u8]> = m.chunks(777).collect();
                answered(*c, Get, &pieces, e).map_err(|x| format!("{:?} in pieces: {}", e, x))?;
            }
        }
        Ok(())
    }));
    // short strings
    let alphabet: Vec<u8> = b"HTP/1. 20\r\n:".iter().cloned().chain([0, 0xff]).collect();
    let n = alphabet.len();
    let depth = tier.pick(4u32, 5);
    let alpha = alphabet.clone();
    out.push(Family::new(
        "short strings",
        n * n,
        0,
        move |i| format!("{:?}", String::from_utf8_lossy(&[alphabet[i % n], alphabet[i / n]])),
        move |i| {
            let head = [alpha[i % n], alpha[i / n]];
            for len in 0..=(depth - 2) {
                for mut k in 0..n.pow(len) {
                    let mut m = head.to_vec();
                    for _ in 0..len {
                        m.push(alpha[k % n]);
                        k /= n;
                    }
                    answered(Client::Plain, Get, &[&m], End::Close).map_err(|x| format!("{:?}: {}", String::from_utf8_lossy(&m), x))?;
                }
            }
            Ok(())
        },
    ));
    // more than was asked for
    let extras: Vec<Vec<u8>> = vec![
        b"x".to_vec(),
        b"\r\n".to_vec(),
        b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\ntwo".to_vec(),
        b"HTTP/1.1 ".to_vec(),
        vec![0; 10000],
    ];
    let mut cases = Vec::new();
    for i in 0..bases().len() {
        for x in &extras {
            cases.push((i, x.clone()));
        }
    }
    out.push(Family::list("unexpected data", 0, cases, |(i, x)| {
        let b = &bases()[*i];
        let mut m = b.clone();
        m.extend(x);
        for c in CLIENTS {
            for method in [Get, Head] {
                for e in ENDS {
                    answered(*c, method, &[&m], *e).map_err(|r| format!("{:?} {} {:?}: {}", c, method, e, r))?;
                    answered(*c, method, &[b, x], *e).map_err(|r| format!("{:?} {} {:?} later: {}", c, method, e, r))?;
                }
            }
        }
        Ok(())
    }));
    // the connection cannot be made, or fails while the request is written
    let kinds = [
        ErrorKind::ConnectionRefused,
        ErrorKind::ConnectionReset,
        ErrorKind::TimedOut,
        ErrorKind::AddrNotAvailable,
        ErrorKind::PermissionDenied,
        ErrorKind::Other,
    ];
    let mut cases: Vec<ConnectAns> = Vec::new();
    for k in kinds {
        cases.push(ConnectAns::ErrNow(k));
        cases.push(ConnectAns::ErrLater(k));
    }
    out.push(Family::list("failing connects", 0, cases, |ans| {
        for c in CLIENTS {
            exec::fresh();
            define(0, Post, ep(&[Some("b")]));
            sim::raw_listen(addr(PORT));
            let mut s = Sim::new();
            Net {
                connects: vec![*ans],
                ..Net::default()
            }
            .install();
            let mut caller = Caller::new(*c, &mut s);
            let h = caller.call(&mut s, Req::default());
            run(&mut s)?;
            match take(&h) {
                Some(Err(_)) => {}
                other => return Err(format!("{:?}: {:?}", c, other)),
            }
        }
        Ok(())
    }));
    let mut cases = Vec::new();
    for len in [0usize, 5, 3000] {
        for off in (0..=70u64).chain([1000, 2000, 3000, 3060]) {
            for k in [ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::TimedOut] {
                cases.push((len, off, k));
            }
        }
    }
    out.push(Family::list("failing writes", 0, cases, |(len, off, k)| {
        for c in CLIENTS {
            for early in [false, true] {
                exec::fresh();
                define(0, Post, ep(&[Some("b")]));
                sim::raw_listen(addr(PORT));
                let mut s = Sim::new();
                Net {
                    write_cut: Some((Side::Client, *off, *k)),
                    ..Net::default()
                }
                .install();
                let mut caller = Caller::new(*c, &mut s);
                let h = caller.call(
                    &mut s,
                    Req {
                        body: pattern(*len, 1),
                        ..Req::default()
                    },
                );
                run(&mut s)?;
                if !h.is_done() {
                    // everything was written before the offset
                    let a = sim::raw_accept(addr(PORT)).ok_or("no connection")?;
                    if (sim::with_conn(a, |c| c.pipes[0].log.len()) as u64) > *off {
                        return Err("the call does not settle".into());
                    }
                    if early {
                        sim::raw_send(a, Side::Server, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
                    }
                    sim::raw_close(a, Side::Server);
                    run(&mut s)?;
                    match take(&h) {
                        Some(Ok(_)) if early => continue,
                        Some(Err(_)) if !early => continue,
                        other => return Err(format!("{:?}: {:?}", c, other)),
                    }
                }
                match take(&h) {
                    Some(Err(_)) => {}
                    other => return Err(format!("{:?}: {:?}", c, other)),
                }
            }
        }
        Ok(())
    }));
    // the server ends the connection at any point of the request
    let mut cases = Vec::new();
    for cap in [0usize, 1, 10, 50, 100] {
        for e in [End::Close, End::Reset, End::Shutdown] {
            for reply in [false, true] {
                cases.push((cap, e, reply));
            }
        }
    }
    out.push(Family::list("closed while sending", 0, cases, |(cap, e, reply)| {
        for c in CLIENTS {
            exec::fresh();
            define(0, Post, ep(&[Some("b")]));
            sim::raw_listen(addr(PORT));
            let mut s = Sim::new();
            Net {
                connects: vec![ConnectAns::Held],
                ..Net::default()
            }
            .install();
            let mut caller = Caller::new(*c, &mut s);
            let h = caller.call(
                &mut s,
                Req {
                    body: pattern(200, 1),
                    ..Req::default()
                },
            );
            s.horizon = crate::clock::now();
            run(&mut s)?;
            sim::with_pipe(0, Side::Client, |p| p.capacity = Some(*cap));
            sim::complete_connect(0);
            run(&mut s)?;
            let a = sim::raw_accept(addr(PORT)).ok_or("no connection")?;
            if *reply {
                sim::raw_send(a, Side::Server, b"HTTP/1.1 413 Payload Too Large\r\nContent-Length: 0\r\n\r\n");
                run(&mut s)?;
            }
            if h.is_done() && !*reply {
                return Err(format!("settled before anything happened: {:?}", take(&h)));
            }
            match e {
                End::Close => sim::raw_close(a, Side::Server),
                End::Reset => sim::raw_reset(a, Side::Server, true),
                _ => {
                    sim::raw_shutdown(a, Side::Server);
                    run(&mut s)?;
                    // the rest of the request is taken, but there is no more response
                    sim::with_pipe(a, Side::Client, |p| p.capacity = None);
                    sim::raw_recv(a, Side::Server);
                }
            }
            run(&mut s)?;
            match take(&h) {
                Some(Err(_)) => {}
                Some(Ok(ref r)) if *reply && *r == Resp::<0>::status(413, b"") => {}
                other => return Err(format!("{:?}: {:?}", c, other)),
            }
        }
        Ok(())
    }));
    // the response is cut or fails at every offset by any error
    let mut cases = Vec::new();
    for i in 0..bases().len() {
        for off in 0..=bases()[i].len() {
            for k in [ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::Other] {
                cases.push((i, off as u64, k));
            }
        }
    }
    out.push(Family::list("failing reads", 0, cases, |(i, off, k)| {
        for c in CLIENTS {
            exec::fresh();
            define(0, Get, ep(&[Some("b")]));
            sim::raw_listen(addr(PORT));
            let mut s = Sim::new();
            Net {
                read_cut: Some((Side::Client, *off, Cut::Err(*k))),
                ..Net::default()
            }
            .install();
            let mut caller = Caller::new(*c, &mut s);
            let h = caller.call(&mut s, Req::default());
            run(&mut s)?;
            let a = sim::raw_accept(addr(PORT)).ok_or("no connection")?;
            let b = &bases()[*i];
            sim::raw_send(a, Side::Server, b);
            run(&mut s)?;
            let complete = *off as usize >= b.len();
            match take(&h) {
                Some(Ok(_)) if complete => {}
                Some(Err(_)) if !complete => {}
                None if complete && matches!(read_response(b, false), Read::UntilEnd { .. }) => {}
                other => return Err(format!("{:?}: {:?}", c, other)),
            }
        }
        Ok(())
    }));
    // schedules, splits and faults as choices
    let mut cases = Vec::new();
    for c in CLIENTS {
        for i in 0..bases().len() {
            for faults in [false, true] {
                cases.push((*c, i, faults));
            }
        }
    }
    out.push(Family::list("choices", tier.pick(2, 3), cases, |(c, i, faults)| {
        exec::fresh();
        define(0, Get, ep(&[Some("b")]));
        sim::raw_listen(addr(PORT));
        let mut s = Sim::new();
        Net {
            choices: !*faults,
            faults: *faults,
            ..Net::default()
        }
        .install();
        s.explore = true;
        let mut caller = Caller::new(*c, &mut s);
        let h = caller.call(&mut s, Req::default());
        run(&mut s)?;
        let b = &bases()[*i];
        let mut result = take(&h);
        if result.is_none() {
            if let Some(a) = sim::raw_accept(addr(PORT)) {
                sim::raw_send(a, Side::Server, b);
                run(&mut s)?;
                sim::raw_close(a, Side::Server);
                run(&mut s)?;
            }
            result = take(&h);
        }
        match (&result, *faults) {
            (Some(Err(_)), true) => Ok(()),
            (r, _) => match (read_response(b, false), r) {
                (Read::Complete { status, body, .. }, Some(Ok(r))) | (Read::UntilEnd { status, body, .. }, Some(Ok(r))) => {
                    if *r == Resp::<0>::status(status, &body) {
                        Ok(())
                    } else if *faults && matches!(read_response(b, false), Read::UntilEnd { .. }) && r.body.len() < body.len() {
                        // the fault was an end of the stream, and it ended the response
                        Ok(())
                    } else {
                        Err(format!("got {}", short(&format!("{:?}", r))))
                    }
                }
                (_, r) => Err(format!("got {}", short(&format!("{:?}", r)))),
            },
        }
    }));
    let _ = chunked;
    out
}
