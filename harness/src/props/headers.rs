//! C03: header fields of requests and responses.
use super::args::*;
use crate::app::*;
use crate::dynty::*;
use crate::explore::{short, Family};
use crate::http;
use crate::Tier;
use htrpc::types::HttpMethod::{self, *};

/// What the other side must see: maps get lower-case names and everything on the wire.
fn received(f: &Fields, body_len: usize) -> Fields {
    match f {
        Fields::Struct(_) => f.clone(),
        Fields::Map(t, m) => {
            let mut out: Vec<(String, V)> = m
                .iter()
                .filter(|(_, v)| !matches!(v, V::None(_)))
                .map(|(k, v)| (k.to_ascii_lowercase(), v.clone()))
                .collect();
            let len = body_len.to_string();
            out.push(("content-length".into(), cast(t, &len)));
            out.sort_by(|a, b| a.0.cmp(&b.0));
            Fields::Map(t.clone(), out)
        }
    }
}
fn cast(t: &Ty, s: &str) -> V {
    match t {
        Ty::Opt(t) => some(cast(t, s)),
        Ty::U64 => V::U64(s.parse().unwrap()),
        Ty::Bytes => V::Bytes(s.as_bytes().to_vec()),
        _ => V::Str(s.to_string()),
    }
}
/// The lines which must be on the wire: name and, if known, value.
fn lines(f: &Fields) -> Vec<(String, Option<Vec<u8>>)> {
    fn val(v: &V) -> Option<Option<Vec<u8>>> {
        let text = |s: String| Some(s.into_bytes());
        Some(match v {
            V::Bool(b) => text(b.to_string()),
            V::I8(x) => text(x.to_string()),
            V::I16(x) => text(x.to_string()),
            V::I32(x) => text(x.to_string()),
            V::I64(x) => text(x.to_string()),
            V::U8(x) => text(x.to_string()),
            V::U16(x) => text(x.to_string()),
            V::U32(x) => text(x.to_string()),
            V::U64(x) => text(x.to_string()),
            V::F32(_) | V::F64(_) => None,
            V::Str(s) => text(s.clone()),
            V::Bytes(b) => Some(b.clone()),
            V::Const(n) => text(n.to_string()),
            V::Unit => None,
            V::None(_) => return None,
            V::Some(v) => return val(v),
            V::New(v) => return val(v),
        })
    }
    let it: Vec<(String, &V)> = match f {
        Fields::Struct(v) => v.iter().map(|(k, v)| (k.to_string(), v)).collect(),
        Fields::Map(_, v) => v.iter().map(|(k, v)| (k.clone(), v)).collect(),
    };
    it.into_iter().filter_map(|(k, v)| val(v).map(|x| (k, x))).collect()
}
/// The bytes must be exactly one message with these lines (and a content length).
fn check_wire(what: &str, bytes: &[u8], no_body: bool, start: &str, want: &Fields, body: &[u8]) -> Result<(), String> {
    let all = http::parse_all(bytes, &[no_body])?;
    if all.len() != 1 {
        return Err(format!("{}: {} messages on the wire instead of 1", what, all.len()));
    }
    let m = &all[0];
    if m.start != start {
        return Err(format!("{}: start line {:?} instead of {:?}", what, short(&m.start), start));
    }
    if m.body != body {
        return Err(format!("{}: body {:?}", what, short(&String::from_utf8_lossy(&m.body))));
    }
    let mut want: Vec<(String, Option<Vec<u8>>)> = lines(want)
        .into_iter()
        .map(|(k, v)| (k.to_ascii_lowercase(), v))
        .collect();
    for (k, v) in &m.headers {
        let k = k.to_ascii_lowercase();
        if k == "content-length" {
            continue;
        }
        match want.iter().position(|(n, x)| *n == k && x.as_ref().map_or(true, |x| x == v)) {
            Some(i) => {
                want.remove(i);
            }
            None => return Err(format!("{}: header {:?}: {:?} was not given", what, k, short(&String::from_utf8_lossy(v)))),
        }
    }
    if let Some((k, v)) = want.first() {
        return Err(format!("{}: header {:?}: {:?} is not on the wire", what, k, v));
    }
    Ok(())
}

fn request_case(
    method: HttpMethod,
    path: Option<Path>,
    query: Option<Fields>,
    f: &Fields,
    body: &[u8],
    expect: Expect,
) -> Result<(), String> {
    let segs: Vec<Option<&str>> = match &path {
        None => vec![Some("h")],
        Some(_) => vec![Some("h"), None],
    };
    let mut target = String::from("/h");
    if path.is_some() {
        target.push_str("/p");
    }
    if query.is_some() {
        target.push_str("?q=1");
    }
    let req = Req::<0> {
        path,
        query,
        header: Some(f.clone()),
        body: body.to_vec(),
    };
    let mut want = req.clone();
    want.header = Some(received(f, body.len()));
    let ty = req.ty();
    let x = exchange(method, ep(&segs), req, |_| Resp::<0>::status(200, b"fine"), |_| set_req(0, ty));
    let refused = x.log.is_empty();
    judge_call(
        x.result.map(|r| r.map(code).map_err(|e| e.to_string())),
        &x.log,
        x.server_ended,
        &x.answered,
        &format!("{:?}", want),
        expect,
    )
    .map_err(|e| format!("request: {}", e))?;
    if refused {
        if !x.sent.is_empty() {
            return Err(format!(
                "request: not refused by the client but sent as {:?}",
                short(&String::from_utf8_lossy(&x.sent))
            ));
        }
        return Ok(());
    }
    check_wire("request", &x.sent, false, &format!("{} {} HTTP/1.1", method, target), f, body)
}
fn response_case(kind: RespKind, ty: RespTy, line: &str, f: &Fields, body: &[u8], expect: Expect) -> Result<(), String> {
    let resp = Resp::<0> {
        kind: kind.clone(),
        header: Some(f.clone()),
        body: body.to_vec(),
    };
    let want = Resp::<0> {
        kind: match kind {
            RespKind::Newtype(n, _) => RespKind::Newtype(n, None),
            k => k,
        },
        header: Some(received(f, body.len())),
        body: body.to_vec(),
    };
    let x = exchange(
        Get,
        ep(&[Some("h")]),
        Req::<0>::default(),
        move |_| resp.clone(),
        |_| set_resp(0, ty),
    );
    if x.server_ended {
        return Err("the server ended".into());
    }
    if x.log.len() != 1 {
        return Err(format!("the handler ran {} times", x.log.len()));
    }
    match x.result {
        None => Err("response: the call does not settle".into()),
        Some(Ok(r)) => {
            if format!("{:?}", r) != format!("{:?}", want) {
                return Err(format!("response: got {:?} instead of {:?}", r, want));
            }
            check_wire("response", &x.answered, false, line, f, body)
        }
        Some(Err(e)) => {
            if expect == Expect::Delivered {
                return Err(format!("response: refused: {}", short(&e.to_string())));
            }
            if !x.answered.is_empty() {
                return Err(format!(
                    "response: not refused by the server but sent as {:?}",
                    short(&String::from_utf8_lossy(&x.answered))
                ));
            }
            Ok(())
        }
    }
}
fn ok_name(n: &str) -> bool {
    !n.is_empty()
        && n.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
        && !n.eq_ignore_ascii_case("content-length")
        && !n.eq_ignore_ascii_case("transfer-encoding")
}
fn ok_value(v: &[u8]) -> bool {
    v.iter().all(|b| (0x20..0x7f).contains(b)) && v.first() != Some(&b' ') && v.last() != Some(&b' ')
}
fn expect_of(f: &Fields) -> Expect {
    if lines(f)
        .iter()
        .all(|(k, v)| ok_name(k) && v.as_ref().map_or(true, |v| ok_value(v)))
    {
        Expect::Delivered
    } else {
        Expect::DeliveredOrRefused
    }
}
fn ty_of(f: &Fields) -> FieldsTy {
    match f {
        Fields::Struct(v) => FieldsTy::strukt(v.iter().map(|(n, v)| (*n, v.ty())).collect()),
        Fields::Map(t, _) => FieldsTy::Map(t.clone()),
    }
}
const OK: &str = "HTTP/1.1 200 OK";
fn status_case(f: &Fields, body: &[u8]) -> Result<(), String> {
    response_case(RespKind::Status(200), RespTy::Status(Some(ty_of(f))), OK, f, body, expect_of(f))
}
/// Both directions, the simplest form.
fn both1(f: Fields) -> Result<(), String> {
    request_case(Get, None, None, &f, b"", expect_of(&f))?;
    status_case(&f, b"body")
}
/// Both directions, all forms.
fn both(f: Fields) -> Result<(), String> {
    let x = expect_of(&f);
    let p = || Some(Path::Tuple(vec![s("p")]));
    let q = || Some(Fields::Struct(vec![("q", V::U8(1))]));
    request_case(Get, None, None, &f, b"", x)?;
    request_case(Post, None, q(), &f, b"\r\n\r\nGET / HTTP/1.1\r\n\r\n", x)?;
    request_case(Put, p(), None, &f, b"b", x)?;
    request_case(Delete, p(), q(), &f, b"", x)?;
    status_case(&f, b"")?;
    status_case(&f, b"HTTP/1.1 200 OK\r\n\r\n")?;
    let t = || Some(ty_of(&f));
    response_case(RespKind::OptStatus(Some(201)), RespTy::OptStatus(t()), "HTTP/1.1 201 Created", &f, b"x", x)?;
    response_case(
        RespKind::Struct("Ok"),
        RespTy::enums(vec![("NotFound", Variant::Unit), ("Ok", Variant::Struct(t()))]),
        OK,
        &f,
        b"xy",
        x,
    )?;
    response_case(
        RespKind::Newtype("Ok", Some(200)),
        RespTy::enums(vec![("Ok", Variant::Newtype(t()))]),
        OK,
        &f,
        b"xyz",
        x,
    )
}
fn st(v: Vec<V>) -> Fields {
    Fields::Struct(v.into_iter().zip(["x-a", "x-b", "x-c", "x-d"]).map(|(v, n)| (n, v)).collect())
}
fn hostile() -> Vec<String> {
    let mut v: Vec<String> = [
        "a\r\nx-b: injected",
        "a\nx-b: injected",
        "a\rx-b: injected",
        "\r\n\r\nGET /h HTTP/1.1\r\n\r\n",
        "\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n",
        "a\r\n b",
        "a\r\nContent-Length: 0",
        "a\r\nTransfer-Encoding: chunked",
        "\r\n",
        "\n",
        "\r",
        "\n\n",
        "a\r\n",
        "\r\na",
        " a",
        "a ",
        "\ta",
        "a\t",
        "a\tb",
        "a  b",
        "a,b",
        "a: b",
        ":",
        "\u{0}",
        "a\u{0}b",
        "\u{7f}",
        "\u{b}",
        "\u{c}",
        "\u{85}",
        "\u{a0}a\u{a0}",
        "\u{2028}",
        "\u{feff}a",
        "chunked",
        "100-continue",
        "close",
        "gzip",
        "\"quoted; x=y\"",
        "=?utf-8?q?x?=",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.extend(words());
    v
}
fn names() -> Vec<&'static str> {
    let mut v = vec![
        "a", "A", "x-a", "X-A", "X-Long-Name_1", "_", "-", "1", "Host", "host", "content-type", "Content-Type", "Connection",
        "connection", "Expect", "Upgrade", "Cookie", "content-length", "Content-Length", "CONTENT-LENGTH",
        "transfer-encoding", "Transfer-Encoding", "te", "trailer", "status", "header", "body", "path", "query",
        "content-lengthx", "xcontent-length", "content_length", "date", "server", "!#$%&'*+-.^_`|~",
    ];
    // the names which frame a message, in all sorts of cases
    for name in ["content-length", "transfer-encoding", "connection", "host", "expect", "trailer", "upgrade", "content-type"] {
        v.push(leak(name));
        v.push(leak(&name.to_uppercase()));
        for i in 0..name.len() {
            let one = |up: bool| -> String {
                name.char_indices()
                    .map(|(k, c)| if (k == i) == up { c.to_ascii_uppercase() } else { c })
                    .collect()
            };
            v.push(leak(&one(true)));
            v.push(leak(&one(false)));
        }
    }
    v.extend(words().iter().map(|w| leak(w)));
    v.extend(hostile().iter().map(|w| leak(w)));
    for c in single_chars() {
        v.push(leak(&c));
        v.push(leak(&format!("a{}b", c)));
    }
    v.sort();
    v.dedup();
    v
}

pub fn c03(tier: Tier) -> Vec<Family> {
    let mut out = Vec::new();
    out.push(combinations());
    out.push(orders());
    let mut ones = single_chars();
    ones.extend(hostile());
    ones.extend(single_chars().iter().map(|c| format!("a{}b", c)));
    out.push(Family::list("one string", 0, ones.clone(), |w| {
        both(st(vec![s(w)]))?;
        both(st(vec![V::U8(7), some(s(w)), V::None(Ty::Str), s("last")]))
    }));
    let n = special_chars().len();
    let len = tier.pick(3u32, 4);
    let word = move |i: usize| -> String { (0..len).map(|k| special_chars()[i / n.pow(k) % n]).collect() };
    out.push(Family::new(
        "character combinations",
        n.pow(len),
        0,
        move |i| format!("{:?}", word(i)),
        move |i| both1(st(vec![s(&word(i)), s("b")])),
    ));
    let mut cases = Vec::new();
    for a in hostile() {
        for b in hostile() {
            cases.push((a.clone(), b));
        }
    }
    out.push(Family::list("two strings", 0, cases, |(a, b)| both1(st(vec![s(a), s(b)]))));
    out.push(Family::list("field names", 0, names(), |n| {
        both(Fields::Struct(vec![(n, s("v"))]))?;
        both(Fields::Struct(vec![("z-first", some(V::I8(-1))), (n, s("v w")), ("z-last", s("l"))]))
    }));
    out.push(Family::list("map names", 0, names(), |n| {
        both(Fields::map(&[(n, "v")]))?;
        both(Fields::map(&[("z-0", "1"), (n, "v"), ("z-1", "")]))
    }));
    let mut cases = Vec::new();
    for n in ["x-a", "A", "Content-Type", "set-cookie", "e", "0", "connection", "expect", "host"] {
        for w in &ones {
            cases.push((n, w.clone()));
        }
    }
    out.push(Family::list("map values", 0, cases, |(n, w)| both1(Fields::map(&[(n, w), ("z", "end")]))));
    // maps of up to three entries
    let ks = ["a", "B", "x-a", "cookie", "a\r\n", "content-length", "x y", ""];
    let vs = ["", "1", "a, b", "\r\nz: 1", " s"];
    let mut maps: Vec<Fields> = vec![Fields::map(&[])];
    for i in 0..ks.len() {
        for v in vs {
            maps.push(Fields::map(&[(ks[i], v)]));
            for j in i + 1..ks.len() {
                for w in vs {
                    maps.push(Fields::map(&[(ks[i], v), (ks[j], w)]));
                    for k in j + 1..ks.len() {
                        for x in vs {
                            maps.push(Fields::map(&[(ks[i], v), (ks[j], w), (ks[k], x)]));
                        }
                    }
                }
            }
        }
    }
    out.push(Family::list("maps", 0, maps, |m| both1(m.clone())));
    out.push(Family::list("scalars", 0, scalars(), |v| {
        let v = || v.clone();
        both(st(vec![v()]))?;
        both(st(vec![some(v()), V::None(v().ty()), new(v()), some(new(v()))]))
    }));
    // byte strings, and fields which have only one value
    let mut bytes: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..=255u8 {
        bytes.push(vec![a]);
        bytes.push(vec![b'a', a]);
        bytes.push(vec![a, b'b']);
    }
    let some_bytes: &[u8] = b"a 0,\t\r\n\0\x7f\x80\xa0\xbf\xc3\xe3\x81\x82\xf0\x9f\x98\xed\xff";
    for n in [2, 3] {
        bytes.extend(super::sequences::tuples(some_bytes, n));
    }
    out.push(Family::list("byte strings", 0, bytes, |b| {
        both1(st(vec![V::Bytes(b.clone()), some(V::Bytes(b.clone())), V::None(Ty::Bytes), V::U8(1)]))?;
        both1(Fields::Map(Ty::Bytes, vec![("k".into(), V::Bytes(b.clone())), ("l".into(), V::Bytes(b"x".to_vec()))]))
    }));
    out.push(Family::list("long with special characters", 0, edged(&special_chars()), |w| {
        both1(st(vec![s(w), some(s("x"))]))?;
        both1(Fields::map(&[("x", w), ("y", w)]))?;
        both1(st(vec![V::Bytes(w.clone().into_bytes()), some(V::Bytes(w.clone().into_bytes())), V::U8(1)]))
    }));
    out.push(Family::list("constants", 0, names(), |n| {
        both(st(vec![V::Const(n), some(V::Const(n)), s("x")]))
    }));
    out.push(Family::list("newtype wrappers", 0, words(), |w| {
        for i in 1..4 {
            with_wrap(Wrap { whole: i & 1 != 0, path: false, fields: i & 2 != 0 }, || {
                both(st(vec![s(w), some(V::I8(-1))]))?;
                both(Fields::map(&[("a", w), ("b", "c")]))
            })?;
        }
        Ok(())
    }));
    out.push(Family::list("number maps", 0, vec![0u64, 1, 255, 65536, u64::MAX], |v| {
        both(Fields::Map(Ty::U64, vec![("a".into(), V::U64(*v)), ("b".into(), V::U64(7))]))?;
        both(Fields::Map(
            opt(Ty::U64),
            vec![("a".into(), some(V::U64(*v))), ("b".into(), V::None(Ty::U64)), ("c".into(), some(V::U64(1)))],
        ))
    }));
    // names which differ in case between definition and wire are equal; presence patterns
    out.push(Family::new(
        "optionals",
        3usize.pow(4) * 4,
        0,
        |i| format!("presence pattern {}", i),
        |i| {
            let vals: [[V; 2]; 4] = [
                [s(""), s("x, y")],
                [V::I64(i64::MIN), V::I64(0)],
                [V::F32(0.1), V::F32(f32::NAN)],
                [V::Bool(true), V::Bool(false)],
            ];
            let kind = i / 81;
            let o = |d: usize| {
                let set = &vals[(kind + d) % 4];
                match (i / 3usize.pow(d as u32)) % 3 {
                    0 => V::None(set[0].ty()),
                    k => some(set[k - 1].clone()),
                }
            };
            both(Fields::Struct(vec![("X-Upper", o(0)), ("x-lower", o(1)), ("miXed", o(2)), ("q", o(3))]))
        },
    ));
    out.push(Family::list("methods", 0, METHODS.to_vec(), |m| {
        let f = st(vec![s("a, b"), some(V::U64(3))]);
        request_case(*m, None, None, &f, b"bb", Expect::Delivered)
    }));
    out.push(Family::new(
        "many fields",
        32,
        0,
        |n| format!("{} fields", n),
        |n| {
            both(Fields::Struct((0..n).map(|i| (leak(&format!("f{}", i)), s(&format!("v{}", i)))).collect()))?;
            both(Fields::map(
                &(0..n).map(|i| (leak(&format!("f{}", i)) as &str, leak(&format!("w {}", i)) as &str)).collect::<Vec<_>>(),
            ))
        },
    ));
    out.push(Family::list("long names", 0, lengths(), |n| {
        let name = leak(&"n".repeat(*n));
        both(Fields::Struct(vec![("z-first", V::U8(1)), (name, s("v")), ("z-last", some(s("w")))]))?;
        both(Fields::map(&[(name, "v"), ("z-z", "w")]))
    }));
    out.push(Family::list(
        "long values",
        0,
        vec![255usize, 511, 900, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 7000, 7800],
        |n| {
            for c in ["a", "é", ",", "a b"] {
                both(st(vec![s(&c.repeat(n / c.len())), V::U8(1)]))?;
            }
            Ok(())
        },
    ));
    out
}
