//! C18: requests are validated against the declared arguments, and only against them.
use super::args::*;
use super::sequences::tuples;
use crate::app::*;
use crate::dynty::*;
use crate::exec::{self, Outcome, Sim};
use crate::explore::{short, Family};
use crate::http;
use crate::Tier;
use futures;
use htrpc::types::HttpMethod::{self, *};
use htrpc::{BodyReader, ReadBody, RpcRequest, RpcServerBuilder};
use mio::sim::{self, Side};
use serde::{Deserialize, Serialize};

/// The value this text stands for, if any.
fn parse(t: &Ty, text: &str) -> Option<V> {
    Some(match t {
        Ty::Bool => V::Bool(text.parse().ok()?),
        Ty::I8 => V::I8(text.parse().ok()?),
        Ty::I16 => V::I16(text.parse().ok()?),
        Ty::I32 => V::I32(text.parse().ok()?),
        Ty::I64 => V::I64(text.parse().ok()?),
        Ty::U8 => V::U8(text.parse().ok()?),
        Ty::U16 => V::U16(text.parse().ok()?),
        Ty::U32 => V::U32(text.parse().ok()?),
        Ty::U64 => V::U64(text.parse().ok()?),
        Ty::F32 => V::F32(text.parse().ok()?),
        Ty::F64 => V::F64(text.parse().ok()?),
        Ty::Str => s(text),
        Ty::Bytes => V::Bytes(text.as_bytes().to_vec()),
        Ty::Const(n) if *n == text => V::Const(n),
        Ty::Const(_) => return None,
        Ty::Unit if text.is_empty() => V::Unit,
        Ty::Unit => return None,
        Ty::Opt(t) => some(parse(t, text)?),
        Ty::New(t) => new(parse(t, text)?),
    })
}
fn hexval(b: Option<&u8>) -> Option<u8> {
    (*b? as char).to_digit(16).map(|d| d as u8)
}
/// Percent-decodes; escapes which are none are left alone.
fn unescape(b: &[u8], plus: bool) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match (b[i], hexval(b.get(i + 1)), hexval(b.get(i + 2))) {
            (b'%', Some(x), Some(y)) => {
                out.push(x * 16 + y);
                i += 3;
            }
            (b'+', _, _) if plus => {
                out.push(b' ');
                i += 1;
            }
            (c, _, _) => {
                out.push(c);
                i += 1;
            }
        }
    }
    out
}
/// The parameters of a query.
fn params(q: &str) -> Vec<(String, String)> {
    let text = |b: &[u8]| String::from_utf8_lossy(&unescape(b, true)).into_owned();
    q.split('&')
        .filter(|p| !p.is_empty())
        .map(|p| match p.find('=') {
            None => (text(p.as_bytes()), String::new()),
            Some(i) => (text(&p.as_bytes()[..i]), text(&p.as_bytes()[i + 1..])),
        })
        .collect()
}
/// Something the handler may get for a declared field: the field is absent, or one of the values
/// is its value. `None`: the request must be rejected.
#[derive(Debug, Clone, PartialEq)]
enum Want {
    Value(V),
    /// Declared once, given several times: rejecting is fine, and so is any one of them.
    OneOf(Vec<V>),
    Reject,
}
fn want(t: &Ty, given: &[Option<String>]) -> Want {
    match given {
        [] => match t {
            Ty::Opt(t) => Want::Value(V::None((**t).clone())),
            _ => Want::Reject,
        },
        [text] => match text.as_ref().and_then(|x| parse(t, x)) {
            Some(v) => Want::Value(v),
            None => Want::Reject,
        },
        many => Want::OneOf(many.iter().filter_map(|x| x.as_ref().and_then(|x| parse(t, x))).collect()),
    }
}
fn wants(fields: &[(&'static str, Ty)], given: &[(String, Option<String>)], same: fn(&str, &str) -> bool) -> Vec<(&'static str, Want)> {
    fields
        .iter()
        .map(|(n, t)| {
            let g: Vec<Option<String>> = given.iter().filter(|(k, _)| same(k, n)).map(|(_, v)| v.clone()).collect();
            (*n, want(t, &g))
        })
        .collect()
}
/// What the server has to do.
struct Spec {
    path: Option<Vec<Option<V>>>,
    query: Option<Vec<(&'static str, Want)>>,
    header: Option<Vec<(&'static str, Want)>>,
}
fn server(method: HttpMethod, e: &[Option<&str>], ty: ReqTy) -> Sim {
    exec::fresh();
    define(0, method, ep(e));
    set_req(0, ty);
    let mut b = RpcServerBuilder::new(addr(PORT));
    b.register(
        Handler::now(0, |r: Req<0>| {
            GOT.with(|g| g.borrow_mut().push(r));
            Resp::<0>::status(200, b"fine")
        }),
        Dp::<0>::new(),
    )
    .expect("register");
    GOT.with(|g| g.borrow_mut().clear());
    let mut sim = Sim::new();
    start_server(&mut sim, PORT, b);
    sim.run();
    sim
}
thread_local! {
    static GOT: std::cell::RefCell<Vec<Req<0>>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn ask(sim: &mut Sim, bytes: &[u8], head: bool) -> Result<(u16, Vec<Req<0>>), String> {
    let c = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
    sim::raw_send(c, Side::Client, bytes);
    if sim.run() == Outcome::StepLimit {
        return Err("the server does not come to rest".into());
    }
    let answer = sim::with_conn(c, |c| c.pipes[Side::Server as usize].log.clone());
    let msgs = http::parse_all(&answer, &[head])?;
    sim::raw_close(c, Side::Client);
    sim.run();
    let got = GOT.with(|g| std::mem::take(&mut *g.borrow_mut()));
    match msgs.len() {
        1 => Ok((msgs[0].status(), got)),
        n => Err(format!("{} responses", n)),
    }
}
/// NaN equals itself here.
fn same(a: &V, b: &V) -> bool {
    a == b || format!("{:?}", a) == format!("{:?}", b)
}
fn judge(spec: &Spec, status: u16, got: &[Req<0>], what: &str) -> Result<(), String> {
    let fields = |w: &Option<Vec<(&'static str, Want)>>| w.clone().unwrap_or_default();
    let all: Vec<Want> = fields(&spec.query).into_iter().chain(fields(&spec.header)).map(|(_, w)| w).collect();
    let bad_path = spec.path.as_ref().map_or(false, |p| p.iter().any(|v| v.is_none()));
    let must_reject = bad_path || all.iter().any(|w| *w == Want::Reject || *w == Want::OneOf(vec![]));
    let may_reject = must_reject || all.iter().any(|w| matches!(w, Want::OneOf(_)));
    let fail = |m: String| Err(format!("{}: {}", short(what), m));
    match (status, got.len()) {
        (400, 0) if may_reject => return Ok(()),
        (200, 1) if !must_reject => {}
        (s, n) => return fail(format!("status {}, handler runs: {} {:?}", s, n, got)),
    }
    let r = &got[0];
    let path_ok = match (&spec.path, &r.path) {
        (None, None) => true,
        (Some(p), Some(Path::Tuple(v))) => p.len() == v.len() && p.iter().zip(v).all(|(a, b)| same(a.as_ref().unwrap(), b)),
        _ => false,
    };
    let agree = |w: &Option<Vec<(&'static str, Want)>>, f: &Option<Fields>| match (w, f) {
        (None, None) => true,
        (Some(w), Some(Fields::Struct(f))) => {
            w.len() == f.len()
                && w.iter().zip(f).all(|((n, w), (m, v))| {
                    n == m
                        && match w {
                            Want::Value(x) => same(x, v),
                            Want::OneOf(l) => l.iter().any(|x| same(x, v)),
                            Want::Reject => false,
                        }
                })
        }
        _ => false,
    };
    if !path_ok || !agree(&spec.query, &r.query) || !agree(&spec.header, &r.header) {
        return fail(format!("the handler got {:?}", r));
    }
    Ok(())
}
type F = Vec<(&'static str, Ty)>;
/// How a request announces its body.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Framed {
    Length,
    Chunked,
    /// Not at all: there is none.
    Not,
}
/// One request with the given path segments, query and header lines.
fn request(
    method: HttpMethod,
    tys: (Option<Vec<Ty>>, Option<F>, Option<F>),
    segments: &[&str],
    query: Option<&str>,
    headers: &[(&str, &[u8])],
    body: &[u8],
) -> Result<(), String> {
    request_framed(method, tys, segments, query, headers, body, Framed::Length)
}
fn request_framed(
    method: HttpMethod,
    tys: (Option<Vec<Ty>>, Option<F>, Option<F>),
    segments: &[&str],
    query: Option<&str>,
    headers: &[(&str, &[u8])],
    body: &[u8],
    framed: Framed,
) -> Result<(), String> {
    let mut e: Vec<Option<&str>> = vec![Some("p")];
    e.extend(segments.iter().map(|_| None));
    let ty = ReqTy {
        path: tys.0.clone().map(PathTy::Tuple),
        query: tys.1.clone().map(FieldsTy::strukt),
        header: tys.2.clone().map(FieldsTy::strukt),
    };
    let mut sim = server(method, &e, ty);
    let mut m = format!("{} /p", method).into_bytes();
    for x in segments {
        m.extend(b"/");
        m.extend(x.as_bytes());
    }
    if let Some(q) = query {
        m.extend(format!("?{}", q).as_bytes());
    }
    m.extend(b" HTTP/1.1\r\n");
    for (k, v) in headers {
        m.extend(k.as_bytes());
        m.extend(b": ");
        m.extend(*v);
        m.extend(b"\r\n");
    }
    match framed {
        Framed::Length => {
            m.extend(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
            m.extend(body);
        }
        Framed::Chunked => {
            m.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            for c in body.chunks(3) {
                m.extend(format!("{:x}\r\n", c.len()).as_bytes());
                m.extend(c);
                m.extend(b"\r\n");
            }
            m.extend(b"0\r\n\r\n");
        }
        Framed::Not => m.extend(b"\r\n"),
    }
    let spec = Spec {
        path: tys.0.map(|t| {
            t.iter()
                .zip(segments)
                .map(|(t, x)| {
                    // an escape which is none is an error in a path
                    let mut rest = *x;
                    while let Some(i) = rest.find('%') {
                        hexval(rest.as_bytes().get(i + 1))?;
                        hexval(rest.as_bytes().get(i + 2))?;
                        rest = &rest[i + 3..];
                    }
                    String::from_utf8(unescape(x.as_bytes(), false)).ok().and_then(|x| parse(t, &x))
                })
                .collect()
        }),
        query: tys.1.map(|t| {
            let g: Vec<(String, Option<String>)> = params(query.unwrap_or("")).into_iter().map(|(k, v)| (k, Some(v))).collect();
            wants(&t, &g, |a, b| a == b)
        }),
        header: tys.2.map(|t| {
            let mut g: Vec<(String, Option<String>)> = headers
                .iter()
                .map(|(k, v)| {
                    let v = std::str::from_utf8(v).ok().map(|v| v.trim_matches(|c| c == ' ' || c == '\t').to_string());
                    (k.to_string(), v)
                })
                .collect();
            match framed {
                Framed::Length => g.push(("Content-Length".into(), Some(body.len().to_string()))),
                Framed::Chunked => g.push(("Transfer-Encoding".into(), Some("chunked".into()))),
                Framed::Not => {}
            }
            wants(&t, &g, |a, b| a.eq_ignore_ascii_case(b))
        }),
    };
    let (status, got) = ask(&mut sim, &m, method == Head)?;
    judge(&spec, status, &got, &String::from_utf8_lossy(&m))
}

/// Texts around the edges of every type.
fn texts(tier: Tier) -> Vec<String> {
    let alphabet: Vec<char> = "01-+.ea_ ".chars().collect();
    let mut v = vec![String::new()];
    for n in 1..=if tier == Tier::Quick { 3 } else { 4 } {
        v.extend(combos(&alphabet, n));
    }
    for bits in [8u32, 16, 32, 64] {
        for top in [(1i128 << bits) - 1, 1i128 << bits, (1i128 << (bits - 1)) - 1, 1i128 << (bits - 1), -(1i128 << (bits - 1)), -(1i128 << (bits - 1)) - 1] {
            for d in [-1, 0, 1] {
                v.push((top + d).to_string());
            }
        }
    }
    for w in [
        "true", "false", "True", "TRUE", "t", "yes", "no", "on", "off", "ture", "true ", " true", "truex", "falsee", "true\u{0}", "null", "None",
        "nan", "NaN", "inf", "-inf", "infinity", "1e400", "-1e400", "1e-400", "1e38", "1e39", "3.4028236e38", "0x10", "0b1", "1_000", "1,0", "1.0", "1.",
        ".1", "1e", "e1", "--1", "+-1", "+", "٣", "１", "1\u{a0}", "\u{2212}1", "00", "000000000000000000000000000001", "-0", "+0", "0.0", "99999999999999999999999",
        "1\n", "\t1", "1;", "1&", "1=", "é", "日本", "%", "%31", "%zz", "a/b",
    ] {
        v.push(w.to_string());
    }
    v
}
fn enc(text: &str, path: bool) -> String {
    let mut out = String::new();
    for b in text.bytes() {
        if b.is_ascii_alphanumeric() || b == b'-' || b == b'_' || (b == b'.' && !path) {
            out.push(b as char)
        } else {
            out.push_str(&format!("%{:02X}", b))
        }
    }
    out
}
const ALL: &[Ty] = &[Ty::Bool, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::F32, Ty::F64, Ty::Str];

fn value_case(text: &str) -> Result<(), String> {
    let dots = text == "." || text == "..";
    for t in ALL {
        for t in [t.clone(), opt(t.clone()), Ty::New(Box::new(t.clone()))] {
            let q = format!("a={}", enc(text, false));
            request(Get, (None, Some(vec![("a", t.clone())]), None), &[], Some(&q), &[], b"")?;
            let ascii = text.bytes().all(|b| b >= b' ' && b != 0x7f);
            if ascii {
                request(Post, (None, None, Some(vec![("x-a", t.clone())])), &[], None, &[("X-A", text.as_bytes())], b"body")?;
            }
            // a dot segment is not a segment
            if !dots && !matches!(t, Ty::Opt(_)) {
                request(Get, (Some(vec![Ty::Str, t.clone()]), None, None), &["x", &enc(text, true)], None, &[], b"")?;
            }
        }
    }
    Ok(())
}
/// A query or header structure which is a map of `t`.
fn map_case(method: HttpMethod, t: &Ty, given: &[(String, String)], in_header: bool) -> Result<(), String> {
    let ty = ReqTy {
        query: (!in_header).then(|| FieldsTy::Map(t.clone())),
        header: in_header.then(|| FieldsTy::Map(t.clone())),
        ..ReqTy::default()
    };
    let mut sim = server(method, &[Some("p")], ty);
    let mut m = format!("{} /p", method);
    if !in_header {
        let q: Vec<String> = given.iter().map(|(k, v)| format!("{}={}", enc(k, false), enc(v, false))).collect();
        m.push_str(&format!("?{}", q.join("&")));
    }
    m.push_str(" HTTP/1.1\r\n");
    if in_header {
        for (k, v) in given {
            m.push_str(&format!("{}: {}\r\n", k, v));
        }
    }
    m.push_str("\r\n");
    let (status, got) = ask(&mut sim, m.as_bytes(), method == Head)?;
    let name = |k: &str| if in_header { k.to_ascii_lowercase() } else { k.to_string() };
    let mut want: Vec<(String, Vec<Option<V>>)> = Vec::new();
    for (k, v) in given {
        let (k, v) = (name(k), parse(t, v));
        match want.iter_mut().find(|w| w.0 == k) {
            Some(w) => w.1.push(v),
            None => want.push((k, vec![v])),
        }
    }
    let bad = want.iter().any(|w| w.1.iter().any(|v| v.is_none()));
    let many = want.iter().any(|w| w.1.len() > 1);
    let fail = || Err(format!("{}: status {}, handler runs: {:?}", short(&m), status, got));
    match (status, &got[..]) {
        (400, []) if bad || many => Ok(()),
        (200, [r]) if !bad => {
            let f = if in_header { &r.header } else { &r.query };
            match f {
                Some(Fields::Map(_, f)) => {
                    let one = |k: &str| f.iter().filter(|(n, _)| name(n) == k).map(|x| &x.1).collect::<Vec<_>>();
                    let ok = f.iter().all(|(n, _)| want.iter().any(|w| w.0 == name(n)))
                        && want.iter().all(|w| match &one(&w.0)[..] {
                            [v] => w.1.iter().any(|x| same(x.as_ref().unwrap(), v)),
                            _ => false,
                        });
                    if ok {
                        Ok(())
                    } else {
                        fail()
                    }
                }
                _ => fail(),
            }
        }
        _ => fail(),
    }
}
/// Pieces of a query string.
const PIECES: &[&str] = &[
    "a=1", "a=256", "a=x", "a", "a=", "o=true", "o=false", "o=maybe", "o", "b=5", "A=2", "a%20=2", "%61=3", "a%00=4", "=5", "", "=", "==", "a==1", "aa=1",
    "a[]=1", "path=x", "query=x", "header=x", "x-a=9", "b=a%3D1%26o%3Dtrue", "b=%ff%fe", "%ff=1", "b=%zz", "%=1", "%E3%81%82=%E3%81%84", "b=c=d", "b;a=7", "b=+", "+a=1",
    "a=%31", "a=1+", "z=\"'<>`{}|^[]", "o=%74rue", "status=500", "content-length=0", "body=x",
];
/// Header lines.
const LINES: &[(&str, &[u8])] = &[
    ("X-A", b"1"), ("x-a", b"2"), ("X-A", b"256"), ("X-A", b"\xff"), ("X-A", b""), ("X-O", b"true"), ("x-o", b"maybe"), ("X-O", b""),
    ("X-B", b"5"), ("X-B", b"\xff\xfe"), ("X-B", b""), ("X-Aa", b"1"), ("X_A", b"1"), ("X-", b"1"), ("A", b"3"), ("path", b"x"), ("query", b"x"), ("header", b"x"), ("status", b"500"),
    ("Content-Type", b"application/x-www-form-urlencoded"), ("Host", b"foo"), ("Accept", b"*/*"), ("Cookie", b"X-A=9; x-o=true"), ("Expect", b"x"), ("X-HTTP-Method-Override", b"DELETE"),
    ("X-A", b"\t7 "), ("x-O", b"false"), ("!#$%&'*+-.^_`|~", b"token"), ("X-B", b"a\tb:c,d;\"e\""), ("Connection", b"close"), ("Upgrade", b"h2c"),
];
/// Derived types with defaults, renames and nested options.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct DerivedQ {
    id: u8,
    #[serde(default)]
    def: i16,
    #[serde(rename = "re named")]
    renamed: Option<String>,
    opt: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct DerivedR {
    path: (String, i8),
    query: DerivedQ,
}
impl RpcRequest for DerivedR {
    fn body(&mut self) -> Vec<u8> {
        Vec::new()
    }
    fn read_body(self, body: BodyReader) -> ReadBody<Self> {
        Box::new(futures::finished((body, self)))
    }
}
fn derived(pieces: &[&str]) -> Result<(), String> {
    let q = pieces.join("&");
    exec::fresh();
    define(0, Get, ep(&[Some("d"), None, None]));
    let mut b = RpcServerBuilder::new(addr(PORT));
    b.register(Handler::now(0, |_: DerivedR| Resp::<0>::status(200, b"fine")), Pr::<0, DerivedR, Resp<0>>::new())
        .expect("register");
    let mut sim = Sim::new();
    start_server(&mut sim, PORT, b);
    sim.run();
    let (status, _) = ask(&mut sim, format!("GET /d/s%20/-5?{} HTTP/1.1\r\n\r\n", q).as_bytes(), false)?;
    let ps = params(&q);
    let get = |n: &str| -> Vec<String> { ps.iter().filter(|(k, _)| k == n).map(|(_, v)| v.clone()).collect() };
    let names = ["id", "def", "re named", "opt"];
    let many = names.iter().any(|n| get(n).len() > 1);
    let one = |n: &str| get(n).into_iter().next();
    let value = (|| {
        Some(DerivedR {
            path: ("s ".into(), -5),
            query: DerivedQ {
                id: one("id")?.parse().ok()?,
                def: match one("def") {
                    None => 0,
                    Some(x) => x.parse().ok()?,
                },
                renamed: one("re named"),
                opt: match one("opt") {
                    None => None,
                    Some(x) => Some(x.parse().ok()?),
                },
            },
        })
    })();
    match (status, log(), value) {
        _ if many => Ok(()),
        (400, l, None) if l.is_empty() => Ok(()),
        (200, l, Some(ref v)) if l == [(0, format!("{:?}", v))] => Ok(()),
        (st, l, v) => Err(format!("status {}, handler runs {:?} instead of {:?}", st, l, v)),
    }
}

pub fn c18(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut out = Vec::new();
    out.push(Family::list("values of every type", 0, texts(tier), |t| value_case(t)));
    out.push(Family::list("units and byte strings", 0, texts(tier), |text| {
        let q = format!("a={}", enc(text, false));
        for t in [Ty::Unit, Ty::Bytes] {
            for t in [t.clone(), opt(t.clone()), Ty::New(Box::new(t.clone()))] {
                request(Get, (None, Some(vec![("a", t.clone()), ("b", opt(Ty::U8))]), None), &[], Some(&q), &[], b"")?;
                request(Get, (None, Some(vec![("b", Ty::U8), ("a", t.clone())]), None), &[], Some(&format!("b=1&{}", q)), &[], b"")?;
                if t == Ty::Bytes && text.bytes().all(|b| b >= b' ' && b != 0x7f) {
                    request(Get, (None, None, Some(vec![("x-a", t.clone())])), &[], None, &[("X-A", text.as_bytes())], b"")?;
                }
            }
        }
        Ok(())
    }));
    // every method, with any of the arguments wrong, missing or both, and any kind of body
    let mut cases = Vec::new();
    for m in METHODS {
        for wrong in 0..81usize {
            cases.push((*m, wrong));
        }
    }
    out.push(Family::list("methods and bodies", 0, cases, |(m, wrong)| {
        let w = |i: u32| wrong / 3usize.pow(i) % 3;
        let tys = || {
            (
                Some(vec![Ty::Str, Ty::U8]),
                Some(vec![("s", opt(Ty::Str)), ("q", Ty::I16), ("o", opt(Ty::Bool))]),
                Some(vec![("x-s", opt(Ty::Str)), ("x-h", Ty::U32)]),
            )
        };
        let seg = ["255", "256", "x"][w(0)];
        let mut q = vec!["other=1"];
        q.extend([Some("q=-32768"), Some("q=40000"), None][w(1)]);
        q.push("s=");
        q.extend([Some("o=true"), Some("o=1"), None][w(2)]);
        let mut h: Vec<(&str, &[u8])> = vec![("X-Other", b"1")];
        h.extend([Some(("X-H", &b"4294967295"[..])), Some(("X-H", b"4294967296")), None][w(3)]);
        for (body, framed) in [
            (&b""[..], Framed::Not),
            (b"", Framed::Length),
            (b"q=1&o=true\r\nX-H: 1\r\n\r\n", Framed::Length),
            (b"GET /p/a/1?q=1 HTTP/1.1\r\nX-H: 1\r\n\r\n", Framed::Chunked),
            (b"", Framed::Chunked),
        ] {
            request_framed(*m, tys(), &["a%2Fb", seg], Some(&q.join("&")), &h, body, framed)?;
        }
        Ok(())
    }));
    // any number of arguments, one of which is wrong or missing
    let mut cases = Vec::new();
    for n in 1..=if quick { 12 } else { 24usize } {
        for bad in 0..=n {
            for how in 0..3usize {
                if bad < n || how == 0 {
                    cases.push((n, bad, how));
                }
            }
        }
    }
    out.push(Family::list("numbers of arguments", 0, cases, |(n, bad, how)| {
        let names: Vec<&'static str> = (0..*n).map(|i| leak(&format!("n{}", i))).collect();
        let orders: Vec<Vec<usize>> = vec![
            (0..*n).collect(),
            (0..*n).rev().collect(),
            (0..*n).map(|i| (i + n / 2) % n).collect(),
            (0..*n).filter(|i| i % 2 == 1).chain((0..*n).filter(|i| i % 2 == 0)).collect(),
        ];
        let t = |i: usize| match i % 3 {
            0 => Ty::U8,
            1 => opt(Ty::U8),
            _ => Ty::I64,
        };
        let decl = || names.iter().enumerate().map(|(i, n)| (*n, t(i))).collect::<Vec<_>>();
        for o in orders {
            for extra in [0usize, 1, 5] {
                let mut given: Vec<(String, String)> = Vec::new();
                for (k, i) in o.iter().enumerate() {
                    for e in 0..extra.min(if k % 2 == 0 { extra } else { 0 }).min(if *n > 6 { 1 } else { 5 }) {
                        given.push((format!("e{}-{}", k, e), "x".into()));
                    }
                    match (i == bad, how) {
                        (false, _) => given.push((names[*i].into(), (i + 1).to_string())),
                        (true, 0) => given.push((names[*i].into(), "y".into())),
                        (true, 1) => given.push((names[*i].into(), String::new())),
                        (true, _) => {}
                    }
                }
                let q: Vec<String> = given.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
                request(Get, (None, Some(decl()), None), &[], Some(&q.join("&")), &[], b"")?;
                let h: Vec<(&str, &[u8])> = given.iter().map(|(k, v)| (&k[..], v.as_bytes())).collect();
                if h.len() < 31 {
                    request(Post, (None, None, Some(decl())), &[], None, &h, b"body")?;
                }
            }
        }
        // as many path arguments
        let seg: Vec<String> = (0..*n).map(|i| if i != *bad { (i + 1).to_string() } else { ["y", "", "300"][*how].to_string() }).collect();
        let seg: Vec<&str> = seg.iter().map(|x| &x[..]).collect();
        request(Get, (Some(seg.iter().map(|_| Ty::U8).collect()), None, None), &seg, None, &[], b"")
    }));
    // any number of things which are not declared
    let counts: Vec<usize> = if quick { (0..40).chain([50, 64, 100, 127, 128, 129, 255, 256, 257, 300]).collect() } else { (0..400).collect() };
    out.push(Family::list("numbers of other arguments", 0, counts, |n| {
        for at in [0, n / 2, *n] {
            for v in ["1", "256", ""] {
                let mut q: Vec<String> = (0..*n).map(|i| format!("x{}={}", i, i)).collect();
                q.insert(at, format!("a={}", v));
                request(Get, (None, Some(vec![("a", Ty::U8), ("b", opt(Ty::U8))]), None), &[], Some(&q.join("&")), &[], b"")?;
                request(Get, (None, Some(vec![("a", opt(Ty::U8))]), None), &[], Some(&q.join("&")), &[], b"")?;
                if *n < 30 {
                    let hs: Vec<(String, String)> = (0..*n).map(|i| (format!("x{}", i), i.to_string())).collect();
                    let mut h: Vec<(&str, &[u8])> = hs.iter().map(|(k, v)| (&k[..], v.as_bytes())).collect();
                    h.insert(at, ("A", v.as_bytes()));
                    request(Get, (None, None, Some(vec![("a", Ty::U8), ("b", opt(Ty::U8))])), &[], None, &h, b"")?;
                }
            }
        }
        Ok(())
    }));
    // long ones
    let lens: Vec<usize> = super::args::lengths().into_iter().chain([4000, 4095, 4096, 4097, 6000, 7000, 7500]).collect();
    out.push(Family::list("long other arguments", 0, lens, |n| {
        let texts = ["v".repeat(*n), "a=1;".repeat(n / 4 + 1), "%31".repeat(n / 3 + 1), "0".repeat(*n)];
        for (before, after) in [(true, false), (false, true), (true, true)] {
            if before && after && *n > 3500 {
                continue;
            }
            for v in ["1", "256", "x"] {
                for long in &texts {
                    let decls = || [vec![("a", Ty::U8), ("b", opt(Ty::U8))], vec![("b", opt(Ty::Str)), ("a", opt(Ty::U8))], vec![]];
                    for other in [format!("x={}", long), format!("{}=1", long), long.clone()] {
                        // a name which is one of the declared ones is not another
                        if other.starts_with("a=") || other.starts_with("%31") && *n < 3 {
                            continue;
                        }
                        let mut q = vec![format!("a={}", v)];
                        if before {
                            q.insert(0, other.clone());
                        }
                        if after {
                            q.push(other.clone());
                        }
                        for d in decls() {
                            request(Get, (None, Some(d), None), &[], Some(&q.join("&")), &[], b"")?;
                        }
                    }
                    let name = "N".repeat(*n);
                    for other in [("x-other", long.as_bytes()), (&name[..], b"1")] {
                        let mut h: Vec<(&str, &[u8])> = vec![("A", v.as_bytes())];
                        if before {
                            h.insert(0, other);
                        }
                        if after {
                            h.push(other);
                        }
                        for d in decls() {
                            request(Get, (None, None, Some(d)), &[], None, &h, b"")?;
                        }
                        request(Post, (None, None, None), &[], None, &h, b"body")?;
                    }
                }
            }
        }
        Ok(())
    }));
    // maps of everything which is given
    let vals = ["", "0", "1", "255", "256", "-1", "true", "x", "1.5", " 1", "1 ", "+1", "é", "a&b=c"];
    let mut cases: Vec<Vec<(String, String)>> = vec![vec![]];
    for names in [vec!["a"], vec!["a", "b"], vec!["b", "a"], vec!["a", "a"], vec!["a", "A"], vec!["", "a"], vec!["a", "b", "c"]] {
        let few: Vec<&str> = if names.len() < 3 { vals.to_vec() } else { vals.iter().cloned().step_by(if quick { 3 } else { 1 }).collect() };
        for t in tuples(&few, names.len()) {
            cases.push(names.iter().zip(t).map(|(n, v)| (n.to_string(), v.to_string())).collect());
        }
    }
    out.push(Family::list("maps", 0, cases, |given| {
        for t in [Ty::Str, Ty::U8, Ty::I64, Ty::Bool, Ty::F32, opt(Ty::U16)] {
            for m in [Get, Post, Head] {
                map_case(m, &t, given, false)?;
                let fit = |(k, v): &(String, String)| !k.is_empty() && v.trim() == v && v.is_ascii();
                if given.iter().all(fit) {
                    map_case(m, &t, given, true)?;
                }
            }
        }
        Ok(())
    }));
    // any sequence of parameters
    let mut qs: Vec<Vec<&'static str>> = vec![vec![]];
    for n in 1..=2 {
        qs.extend(tuples(PIECES, n));
    }
    let few: Vec<&'static str> = PIECES.iter().enumerate().filter(|(i, _)| !quick || i % 2 == 0).map(|(_, p)| *p).collect();
    qs.extend(tuples(&few, 3));
    if !quick {
        let fewer: Vec<&'static str> = PIECES.iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, p)| *p).collect();
        qs.extend(tuples(&fewer, 4));
    }
    let all = qs.clone();
    out.push(Family::list("query parameters", 0, all, |ps| {
        let q = ps.join("&");
        let decl = || Some(vec![("a", Ty::U8), ("o", opt(Ty::Bool))]);
        request(Get, (None, decl(), None), &[], Some(&q), &[], b"")?;
        // the same with a path and headers, and if nothing is declared
        request(Post, (Some(vec![Ty::Str]), decl(), Some(vec![("x-a", Ty::U8)])), &["v%20w"], Some(&q), &[("X-A", b"1")], b"a=1&o=true")?;
        request(Get, (Some(vec![Ty::I8]), None, None), &["-1"], Some(&q), &[], b"")
    }));
    out.push(Family::list("other query structures", 0, qs, |ps| {
        let q = ps.join("&");
        for decl in [
            vec![],
            vec![("o", opt(Ty::Bool))],
            vec![("b", Ty::Str)],
            vec![("b", opt(Ty::Str)), ("a", opt(Ty::U8)), ("", opt(Ty::Str))],
            vec![("A", opt(Ty::I64)), ("a ", opt(Ty::F64)), ("あ", opt(Ty::Str))],
        ] {
            request(Head, (None, Some(decl), None), &[], Some(&q), &[], b"")?;
        }
        Ok(())
    }));
    // any sequence of header lines
    let mut hs: Vec<Vec<usize>> = vec![vec![]];
    let idx: Vec<usize> = (0..LINES.len()).collect();
    hs.extend(tuples(&idx, 1));
    hs.extend(tuples(&idx, 2));
    let few: Vec<usize> = idx.iter().cloned().filter(|i| !quick || i % 2 == 0).collect();
    hs.extend(tuples(&few, 3));
    if !quick {
        let few: Vec<usize> = idx.iter().cloned().filter(|i| i % 2 == 0).collect();
        hs.extend(tuples(&few, 4));
    }
    out.push(Family::list("header lines", 0, hs, |ls| {
        let hs: Vec<(&str, &[u8])> = ls.iter().map(|i| LINES[*i]).collect();
        let decl = || Some(vec![("x-a", Ty::U8), ("X-O", opt(Ty::Bool))]);
        request(Get, (None, None, decl()), &[], None, &hs, b"")?;
        request(Put, (Some(vec![Ty::Str]), Some(vec![("q", Ty::Str)]), decl()), &["x"], Some("q=1"), &hs, b"X-A: 1\r\n")?;
        request(Delete, (Some(vec![Ty::U64]), Some(vec![("x-a", opt(Ty::Str))]), None), &["1"], None, &hs, b"")?;
        request(Get, (None, None, Some(vec![("X-B", opt(Ty::Str)), ("Content-Length", Ty::U64)])), &[], None, &hs, b"four")?;
        request(Get, (None, None, Some(vec![])), &[], None, &hs, b"")
    }));
    // names which are nearly those of declared arguments
    let mut near: Vec<(&'static str, String)> = Vec::new();
    for d in ["x-a", "a", "X-Long.Name_1", "^b~`|", "0-9"] {
        for (i, c) in d.char_indices() {
            for b in 0x21..0x7fu8 {
                let mut w = d.to_string();
                w.replace_range(i..i + c.len_utf8(), &(b as char).to_string());
                near.push((d, w));
                let mut w = d.to_string();
                w.insert(i, b as char);
                near.push((d, w));
            }
            let mut w = d.to_string();
            w.remove(i);
            near.push((d, w));
        }
        for b in 0x21..0x7fu8 {
            near.push((d, format!("{}{}", d, b as char)));
        }
        for n in [2, 64, 200, 2000] {
            near.push((d, d.repeat(n / d.len() + 1)));
            near.push((d, format!("{}{}", d, "x".repeat(n))));
            near.push((d, format!("{}{}", "x".repeat(n), d)));
        }
    }
    out.push(Family::list("similar names", 0, near, |(d, w)| {
        let token = !w.is_empty() && w.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b));
        for t in [Ty::U8, opt(Ty::U8)] {
            if token {
                let decl = || (None, None, Some(vec![(*d, t.clone()), ("z", opt(Ty::Str))]));
                request(Get, decl(), &[], None, &[(w, b"9")], b"")?;
                request(Get, decl(), &[], None, &[(w, b"9"), (d, b"1"), ("Z", b"z")], b"")?;
                request(Get, decl(), &[], None, &[("Z", b"z"), (d, b"1"), (w, b"x")], b"")?;
            }
            let decl = || (None, Some(vec![(*d, t.clone()), ("z", opt(Ty::Str))]), None);
            let (a, b) = (enc(w, false), enc(d, false));
            request(Get, decl(), &[], Some(&format!("{}=9", a)), &[], b"")?;
            request(Get, decl(), &[], Some(&format!("{}=9&{}=1&z=z", a, b)), &[], b"")?;
            request(Get, decl(), &[], Some(&format!("z=z&{}=1&{}=x", b, a)), &[], b"")?;
        }
        Ok(())
    }));
    // header fields of a single value, and byte strings
    let mut vals: Vec<Vec<u8>> = Vec::new();
    const NAME: &str = "text/a+b; c=1";
    for i in 0..=NAME.len() {
        vals.push(NAME.as_bytes()[..i].to_vec());
        vals.push(NAME.as_bytes()[i..].to_vec());
        for b in (0x20..=0xffu8).filter(|b| *b != 0x7f) {
            let mut v = NAME.as_bytes().to_vec();
            v.insert(i, b);
            vals.push(v.clone());
            if i < NAME.len() {
                v.remove(i + 1);
                vals.push(v);
            }
        }
    }
    out.push(Family::list("constant fields", 0, vals, |v| {
        for t in [Ty::Const(NAME), opt(Ty::Const(NAME))] {
            let decl = || (None, None, Some(vec![("x-c", t.clone()), ("z", opt(Ty::Str))]));
            request(Get, decl(), &[], None, &[("X-C", v)], b"")?;
            request(Get, decl(), &[], None, &[("Z", b"z"), ("x-c", v), ("Y", v)], b"")?;
            request(Get, decl(), &[], None, &[("Y", NAME.as_bytes())], b"")?;
        }
        Ok(())
    }));
    // every subset of the declared arguments
    let mut subsets = Vec::new();
    for m in 0..256usize {
        subsets.push(m);
    }
    out.push(Family::list("missing arguments", 0, subsets, |m| {
        let has = |i: usize| m >> i & 1 == 1;
        let q: Vec<&str> = [(0, "a=1"), (1, "b=x"), (2, "c=true"), (3, "d=2.5")].iter().filter(|(i, _)| has(*i)).map(|x| x.1).collect();
        let h: Vec<(&str, &[u8])> = [(4, ("A", &b"1"[..])), (5, ("B", b"x")), (6, ("C", b"true")), (7, ("D", b"2.5"))]
            .iter()
            .filter(|(i, _)| has(*i))
            .map(|x| x.1)
            .collect();
        for o in 0..16 {
            let t = |i: usize, t: Ty| if o >> i & 1 == 1 { opt(t) } else { t };
            let f = || vec![("a", t(0, Ty::U8)), ("b", t(1, Ty::Str)), ("c", t(2, Ty::Bool)), ("d", t(3, Ty::F32))];
            request(Get, (Some(vec![Ty::U8]), Some(f()), Some(f())), &["9"], Some(&q.join("&")), &h, b"")?;
            if q.is_empty() {
                request(Get, (None, Some(f()), Some(f())), &[], None, &h, b"")?;
            }
        }
        Ok(())
    }));
    // several path arguments of different types
    let segs = ["0", "1", "255", "256", "-1", "true", "x", "", "1.5", "%31", "%", "%f", "%ff", "+1", "1%20"];
    let mut cases = Vec::new();
    for a in segs {
        for b in segs {
            for c in if quick { vec!["1", "x", "%ff", "-1"] } else { segs.to_vec() } {
                cases.push((a, b, c));
            }
        }
    }
    out.push(Family::list("path arguments", 0, cases, |(a, b, c)| {
        for t in [
            vec![Ty::U8, Ty::I8, Ty::Bool],
            vec![Ty::Str, Ty::U8, Ty::Str],
            vec![Ty::F64, Ty::Str, Ty::I64],
            vec![Ty::Bool, Ty::F32, Ty::U64],
        ] {
            request(Get, (Some(t), None, None), &[a, b, c], None, &[], b"")?;
        }
        Ok(())
    }));
    let ps = ["id=1", "id=256", "id", "def=-3", "def=x", "re%20named=a+b", "re+named=", "renamed=x", "opt=true", "opt=", "Id=2", "other", "id=%32", "def=40000"];
    let mut qs: Vec<Vec<&'static str>> = vec![vec![]];
    for n in 1..=if quick { 3 } else { 4 } {
        qs.extend(tuples(&ps[..], n));
    }
    out.push(Family::list("derived types", 0, qs, |p| derived(p)));
    out
}
