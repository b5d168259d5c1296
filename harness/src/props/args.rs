//! C01, C02: path and query arguments.
use crate::app::*;
use crate::dynty::*;
use crate::explore::Family;
use crate::Tier;
use htrpc::types::HttpMethod::{self, *};
use htrpc::RpcRequest;
use htrpc::{BodyReader, FutureExt, ReadBody};
use futures::Future;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;

/// What a call with given arguments may do.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Expect {
    /// The handler gets exactly the request.
    Delivered,
    /// The handler gets exactly the request, or the call fails and no handler runs.
    DeliveredOrRefused,
}

/// One call of any type; the handler must see a request with the same `Debug` output.
pub fn call_typed<Q>(method: HttpMethod, segments: &[Option<&str>], request: Q, expect: Expect) -> Result<(), String>
where
    Q: RpcRequest + Debug,
{
    let want = format!("{:?}", request);
    let x = exchange(method, ep(segments), request, |_| Resp::<0>::status(200, b"fine"), |_| {});
    judge_call(
        x.result.map(|r| r.map(code).map_err(|e| e.to_string())),
        &x.log,
        x.server_ended,
        &x.answered,
        &want,
        expect,
    )
}
pub fn code<const N: usize>(r: Resp<N>) -> u16 {
    match r.kind {
        RespKind::Status(c) => c,
        _ => 0,
    }
}
/// A call whose optional map entries without a value are not sent.
fn call_want(method: HttpMethod, segments: &[Option<&str>], request: Req<0>, want: Req<0>) -> Result<(), String> {
    let ty = request.ty();
    let x = exchange(method, ep(segments), request, |_| Resp::<0>::status(200, b"fine"), |_| set_req(0, ty));
    judge_call(
        x.result.map(|r| r.map(code).map_err(|e| e.to_string())),
        &x.log,
        x.server_ended,
        &x.answered,
        &format!("{:?}", want),
        Expect::Delivered,
    )
}
/// One call; the handler must see an equal request.
pub fn call_case(method: HttpMethod, segments: &[Option<&str>], request: Req<0>, expect: Expect) -> Result<(), String> {
    let want = format!("{:?}", request);
    let ty = request.ty();
    let x = exchange(
        method,
        ep(segments),
        request,
        |_| Resp::<0>::status(200, b"fine"),
        |_| set_req(0, ty),
    );
    judge_call(
        x.result.map(|r| r.map(code).map_err(|e| e.to_string())),
        &x.log,
        x.server_ended,
        &x.answered,
        &want,
        expect,
    )
}
/// The same by either kind of client.
pub fn call_by(client: Client, method: HttpMethod, segments: &[Option<&str>], request: Req<0>, expect: Expect) -> Result<(), String> {
    let want = format!("{:?}", request);
    let ty = request.ty();
    let x = exchange_by(client, method, ep(segments), request, |_| Resp::<0>::status(200, b"fine"), |_| set_req(0, ty));
    judge_call(
        x.result.map(|r| r.map(code).map_err(|e| e.to_string())),
        &x.log,
        x.server_ended,
        &x.answered,
        &want,
        expect,
    )
}
/// A request with some of path, query, header and body; `v` selects among a few sets of values.
pub fn some_request(parts: usize, v: usize) -> Req<0> {
    let text = ["plain", "a b/%2F?&=+#é;", "x\"y'<>[]", "%"][v % 4];
    let number = [0u64, u64::MAX, 7, 65536][v % 4];
    let ascii = ["h", "a=b; c, d", "%20+", "GET / HTTP/1.1"][v % 4];
    Req {
        path: (parts & 1 != 0).then(|| Path::Tuple(vec![s(text), V::U64(number), V::Bool(v % 2 == 0)])),
        query: (parts & 2 != 0).then(|| {
            Fields::Struct(vec![
                ("q", s(text)),
                ("absent", V::None(Ty::Str)),
                ("n", some(V::I64(-(number as i64 / 2)))),
                ("é=", s(ascii)),
            ])
        }),
        header: (parts & 4 != 0).then(|| {
            Fields::Struct(vec![
                ("x-h", s(ascii)),
                ("X-None", V::None(Ty::U8)),
                ("x-n", some(V::U64(number))),
                ("x-b", V::Bool(v % 2 == 1)),
            ])
        }),
        body: if parts & 8 != 0 { b"q=other&x-h: other\r\n\r\n".to_vec() } else { vec![] },
    }
}
fn some_segments(parts: usize) -> &'static [Option<&'static str>] {
    if parts & 1 != 0 {
        &[Some("v"), None, Some("w x"), None, None]
    } else {
        &[Some("v"), Some("w x")]
    }
}
/// Every method with every combination of the parts of a request, by both kinds of client.
pub fn combinations() -> Family {
    let mut cases = Vec::new();
    for m in METHODS {
        for parts in 0..16usize {
            cases.push((*m, parts));
        }
    }
    Family::list("combinations of parts", 0, cases, |(m, parts)| {
        for c in [Client::Plain, Client::Pooled] {
            for v in 0..4 {
                call_by(c, *m, some_segments(*parts), some_request(*parts, v), Expect::Delivered)?;
            }
        }
        Ok(())
    })
}
/// The fields of the request structure in every order: what cannot be sent is refused.
pub fn orders() -> Family {
    let mut cases = Vec::new();
    for m in [Get, Post, Head] {
        for o in ORDERS {
            for parts in 0..16usize {
                cases.push((m, *o, parts));
            }
        }
    }
    Family::list("orders of fields", 0, cases, |(m, o, parts)| {
        for v in 0..4 {
            let r = some_request(*parts, v);
            // the order of those which there are
            let there: Vec<usize> = o.iter().cloned().filter(|i| parts >> i & 1 == 1).collect();
            let usual = there.windows(2).all(|w| w[0] < w[1]);
            let e = if usual { Expect::Delivered } else { Expect::DeliveredOrRefused };
            let call = || with_order(*o, || call_by(Client::Plain, *m, some_segments(*parts), r, e));
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(call)) {
                Ok(r) => r?,
                // the client refuses a header before the path by a panic
                Err(_) if !usual && log().is_empty() => {}
                Err(e) => std::panic::resume_unwind(e),
            }
        }
        Ok(())
    })
}
pub fn judge_call(
    result: Option<Result<u16, String>>,
    log: &[(usize, String)],
    server_ended: bool,
    answered: &[u8],
    want: &str,
    expect: Expect,
) -> Result<(), String> {
    if server_ended {
        return Err("the server ended".into());
    }
    for (_, l) in log {
        if l != want {
            return Err(format!("the handler got {} instead of {}", l, want));
        }
    }
    if log.len() > 1 {
        return Err(format!("the handler ran {} times", log.len()));
    }
    match result {
        None => Err("the call does not settle".into()),
        Some(Ok(200)) => {
            if log.len() == 1 {
                Ok(())
            } else {
                Err("the call succeeded although no handler ran".into())
            }
        }
        Some(other) => {
            if !log.is_empty() {
                return Err(format!("the handler ran but the call gave {:?}", other));
            }
            if expect == Expect::Delivered {
                return Err(format!("refused: {:?}", other));
            }
            if !answered.is_empty() {
                return Err(format!(
                    "not refused by the sender: the call gave {:?} after the answer {:?}",
                    other,
                    String::from_utf8_lossy(answered)
                ));
            }
            Ok(())
        }
    }
}

/// Characters worth combining.
pub fn special_chars() -> Vec<char> {
    let mut v: Vec<char> = "aZ09._-~!$&'()*+,;=:@/?#[]%\"<>\\^`{|} ".chars().collect();
    v.extend(['\0', '\t', '\n', '\r', '\u{1b}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}']);
    v.extend(['é', 'ÿ', 'Ā', 'ß', 'あ', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{ffff}', '😀', '\u{10ffff}']);
    v
}
/// Single characters: all of Latin-1 and a selection of the rest.
pub fn single_chars() -> Vec<String> {
    let mut v: Vec<String> = (0u32..0x180)
        .filter_map(char::from_u32)
        .map(|c| c.to_string())
        .collect();
    for c in special_chars() {
        let s = c.to_string();
        if !v.contains(&s) {
            v.push(s)
        }
    }
    for c in ['\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{10000}', '\u{300}', '\u{200b}', 'ﬁ'] {
        v.push(c.to_string())
    }
    v
}
/// Words with traps for URL handling.
pub fn words() -> Vec<String> {
    [
        "", ".", "..", "...", "a", "0", " ", "/", "//", "a/b", "a//b", "/a", "a/", "%", "%2", "%2f",
        "%2F", "%25", "%zz", "%2e", "%2E%2E", ".%2e", "a%20b", "a b", "a+b", "+", "a&b=c", "&", "=",
        "?", "a?b", "#", "a#b", ";", ":", "http:", "http://x/y", "//x", "\\", "a\\..\\b", "..\\", "~",
        "é", "日本語", "a😀b", "\u{0}", "\n", "\t", "\r", "\r\n", "a\nb", "a\tb", " a ", "a ", " a",
        "\u{7f}", "\u{80}", "\u{feff}a", "true", "false", "ture", "-1", "1e5", "NaN", "inf", "null",
        "None", "\"", "'", "<x>", "[1,2]", "{\"a\":1}", "*", "..a", "a..", ".a", "a.", "x=y&z=w",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}
pub fn ordinary(s: &str) -> bool {
    !s.is_empty() && s != "." && s != ".." && !s.chars().any(|c| c.is_control())
}
fn expect(args: &[&String]) -> Expect {
    if args.iter().all(|s| ordinary(s)) {
        Expect::Delivered
    } else {
        Expect::DeliveredOrRefused
    }
}
pub fn combos(alphabet: &[char], len: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..len {
        v = v
            .iter()
            .flat_map(|s| {
                alphabet.iter().map(move |c| {
                    let mut s = s.clone();
                    s.push(*c);
                    s
                })
            })
            .collect();
    }
    v
}
pub const METHODS: &[HttpMethod] = &[
    Get, Post, Put, Delete, Patch, Head, Options, Trace, Connect, Acl, BaselineControl, Bind, Checkin,
    Checkout, Copy, Label, Link, Lock, Merge, Mkactivity, Mkcalendar, Mkcol, Mkredirectref,
    Mkworkspace, Move, Orderpatch, Pri, Propfind, Proppatch, Rebind, Report, Search, Unbind,
    Uncheckout, Unlink, Unlock, Update, Updateredirectref, VersionControl,
];

/// Lengths of names: all small ones and those around powers of two.
pub fn lengths() -> Vec<usize> {
    let mut v: Vec<usize> = (1..=70).collect();
    v.extend([100, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000]);
    v
}

/// Numbers of things: all small ones and those around round limits.
pub fn counts(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    v.extend([50, 60, 63, 64, 65, 66, 80, 99, 100, 101, 102, 127, 128, 129, 150, 199, 200, 201, 254, 255, 256, 257, 300, 400, 480]);
    v.retain(|n| *n <= max);
    v
}
/// Long texts with each of the characters at an end or in the middle.
pub fn edged(chars: &[char]) -> Vec<String> {
    let mut v = Vec::new();
    for n in [15, 31, 40, 63, 100, 127, 255, 300, 1000] {
        for c in chars {
            let mut text: Vec<char> = "abcdefghij".chars().cycle().take(n).collect();
            for at in [0, n / 2, n] {
                text.insert(at, *c);
                v.push(text.iter().collect());
                text.remove(at);
            }
            v.push(format!("{}{}{}", c, text.iter().collect::<String>(), c));
        }
    }
    v
}

pub type Ep = &'static [Option<&'static str>];

fn path_case(e: Ep, args: Vec<V>, x: Expect) -> Result<(), String> {
    call_case(
        Get,
        e,
        Req {
            path: Some(Path::Tuple(args)),
            ..Req::default()
        },
        x,
    )
}

fn path_case_of(segs: &[Option<&str>], args: Vec<V>, x: Expect) -> Result<(), String> {
    call_case(
        Get,
        segs,
        Req {
            path: Some(Path::Tuple(args)),
            ..Req::default()
        },
        x,
    )
}

macro_rules! ints {
    ($v:ident, $t:ty) => {{
        let mut v: Vec<$t> = vec![<$t>::MIN, <$t>::MIN + 1, 0, 1, 2, 9, 10, 11, 99, 100, 101, 127, <$t>::MAX / 2, <$t>::MAX - 1, <$t>::MAX];
        for i in 0..(<$t>::BITS - 1) {
            let p: $t = 1 << i;
            v.extend([p, p - 1, p.wrapping_neg(), p.wrapping_neg().wrapping_sub(1)]);
        }
        v.into_iter().map(V::$v)
    }};
}
macro_rules! floats {
    ($v:ident, $t:ty) => {
        vec![
            0.0 as $t, -0.0, 1.0, -1.0, 0.1, -0.1, 0.3, 1.5, 1e5, 1e-5, 1e15, 1e16, 1e17, 1e21, 1e22, 123456789.125,
            <$t>::MIN, <$t>::MAX, <$t>::MIN_POSITIVE, <$t>::EPSILON, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN,
            <$t>::MIN_POSITIVE / 2.0, <$t>::from_bits(1), <$t>::from_bits(2), 1.0 / 3.0, 2.0 / 3.0, 16777217.0,
            9007199254740993.0f64 as $t, 3.4028236e38f64 as $t, std::f64::consts::PI as $t, 0.30000000000000004f64 as $t,
            5e-324f64 as $t, 1e-7, 1e-45f64 as $t, 8388608.5, 0.1f32 as $t,
        ]
        .into_iter()
        .map(V::$v)
    };
}
/// Values of every scalar type, extremes and powers of two.
pub fn scalars() -> Vec<V> {
    let mut v = vec![V::Bool(true), V::Bool(false)];
    v.extend((i8::MIN..=i8::MAX).map(V::I8));
    v.extend((u8::MIN..=u8::MAX).map(V::U8));
    v.extend(ints!(I16, i16));
    v.extend(ints!(U16, u16));
    v.extend(ints!(I32, i32));
    v.extend(ints!(U32, u32));
    v.extend(ints!(I64, i64));
    v.extend(ints!(U64, u64));
    v.extend(floats!(F32, f32));
    v.extend(floats!(F64, f64));
    v
}

/// A request type with derived code, to compare with the shapes of `dynty`.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Derived {
    path: DPath,
    query: DQuery,
    header: DHeader,
    #[serde(skip)]
    body: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct DPath(String, bool, i64, DNew);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct DNew(f32);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct DQuery {
    a: String,
    b: Option<bool>,
    #[serde(default)]
    c: u8,
    d: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct DHeader {
    #[serde(rename = "x-a")]
    a: String,
    #[serde(rename = "x-b")]
    b: Option<f64>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct DerivedMaps {
    query: BTreeMap<String, String>,
    #[serde(skip)]
    body: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct DerivedKeys<K: Ord, V> {
    query: BTreeMap<K, V>,
    #[serde(skip)]
    body: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct DNewKey(i32);
impl<K, V> RpcRequest for DerivedKeys<K, V>
where
    K: Ord + Serialize + for<'de> Deserialize<'de> + Send + 'static,
    V: Serialize + for<'de> Deserialize<'de> + Send + 'static,
{
    fn body(&mut self) -> Vec<u8> {
        self.body.clone()
    }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        Box::new(body.read_all_bytes().map_err(htrpc::Error::from).map(move |(r, b)| {
            self.body = b;
            (r, self)
        }))
    }
}
impl RpcRequest for Derived {
    fn body(&mut self) -> Vec<u8> {
        self.body.clone()
    }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        Box::new(body.read_all_bytes().map_err(htrpc::Error::from).map(move |(r, b)| {
            self.body = b;
            (r, self)
        }))
    }
}
impl RpcRequest for DerivedMaps {
    fn body(&mut self) -> Vec<u8> {
        self.body.clone()
    }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        Box::new(body.read_all_bytes().map_err(htrpc::Error::from).map(move |(r, b)| {
            self.body = b;
            (r, self)
        }))
    }
}
/// Calls with derived types, all fields given by a word.
pub fn derived_family() -> Family {
    let mut cases = Vec::new();
    for w in words() {
        for i in 0..8 {
            cases.push((w.clone(), i));
        }
    }
    Family::list("derived types", 0, cases, |(w, i)| {
        let i = *i;
        call_typed(
            METHODS[i * 4],
            &[Some("d"), None, None, Some("e"), None, None],
            Derived {
                path: DPath(w.clone(), i % 2 == 0, i64::MIN + i as i64, DNew(1.0 / (i as f32 + 3.0))),
                query: DQuery {
                    a: w.clone(),
                    b: if i & 1 != 0 { Some(i & 2 != 0) } else { None },
                    c: 250 + i as u8 % 6,
                    d: if i & 4 != 0 { Some(w.clone()) } else { None },
                },
                header: DHeader {
                    a: "value".into(),
                    b: if i & 2 != 0 { Some(0.1 * i as f64) } else { None },
                },
                body: w.clone().into_bytes(),
            },
            expect(&[w]),
        )?;
        call_typed(
            Get,
            &[Some("m")],
            DerivedMaps {
                query: [(w.clone(), w.clone()), (format!("k{}", i), String::new())].into_iter().collect(),
                body: vec![0; i],
            },
            Expect::Delivered,
        )
    })
}

pub fn c01(tier: Tier) -> Vec<Family> {
    let mut out = Vec::new();
    out.push(combinations());
    out.push(orders());
    let mut ones = single_chars();
    ones.extend(words());
    const E1: &[Ep] = &[
        &[None],
        &[Some("a"), None],
        &[None, Some("a")],
        &[Some("a"), None, Some("b")],
        &[Some("a"), Some("b"), None],
    ];
    let mut cases: Vec<(Ep, String)> = Vec::new();
    for e in E1 {
        for s in &ones {
            cases.push((e, s.clone()));
        }
    }
    out.push(Family::list("one string", 0, cases, |(e, x)| {
        path_case(e, vec![s(x)], expect(&[x]))
    }));

    let mut cases: Vec<(Ep, String)> = Vec::new();
    for s in combos(&special_chars(), 2) {
        cases.push((&[Some("a"), None, Some("b")], s));
    }
    for s in combos(&special_chars(), 3) {
        cases.push((&[None], s.clone()));
    }
    out.push(Family::list("character combinations", 0, cases, |(e, x)| {
        path_case(e, vec![s(x)], expect(&[x]))
    }));
    if tier == Tier::Thorough {
        let al = special_chars();
        let n = al.len();
        let al2 = al.clone();
        let word = move |i: usize| -> String { (0..4u32).map(|k| al2[i / n.pow(k) % n]).collect() };
        let w2 = word.clone();
        out.push(Family::new(
            "four characters",
            n.pow(4),
            0,
            move |i| format!("{:?}", w2(i)),
            move |i| {
                let x = word(i);
                path_case(&[None, Some("b")], vec![s(&x)], expect(&[&x]))
            },
        ));
    }

    const E2: &[Ep] = &[
        &[None, None],
        &[Some("a"), None, Some("b"), None],
        &[None, Some("b"), None],
        &[None, None, Some("c")],
    ];
    let mut cases: Vec<(Ep, String, String)> = Vec::new();
    for e in E2 {
        for a in words() {
            for b in words() {
                cases.push((e, a.clone(), b));
            }
        }
    }
    out.push(Family::list("two strings", 0, cases, |(e, a, b)| {
        path_case(e, vec![s(a), s(b)], expect(&[a, b]))
    }));
    let mut three = vec![
        "", ".", "..", "a", "/", "%2f", "é", " ", "\n", "b%", "a/../b", "?x=y#z", "...", "\\", "%", "%00", "\u{0}", "&",
        "a;b", "+", ":", "日", "😀", "~",
    ];
    if tier == Tier::Thorough {
        three = words().iter().map(|w| leak(w)).collect();
    }
    let mut cases: Vec<(Ep, [&'static str; 3])> = Vec::new();
    const E3: &[Ep] = &[&[None, None, None], &[None, Some("x"), None, None]];
    for e in E3 {
        for a in &three {
            for b in &three {
                for c in &three {
                    cases.push((e, [a, b, c]));
                }
            }
        }
    }
    out.push(Family::list("three strings", 0, cases, |(e, [a, b, c])| {
        let x = if [a, b, c].iter().all(|s| ordinary(s)) {
            Expect::Delivered
        } else {
            Expect::DeliveredOrRefused
        };
        path_case(e, vec![s(a), s(b), s(c)], x)
    }));
    out.push(Family::list("scalars", 0, scalars(), |v| {
        let d = Expect::Delivered;
        path_case(&[None], vec![v.clone()], d)?;
        path_case(&[Some("a"), None, Some("b"), None], vec![v.clone(), s("s")], d)?;
        path_case(&[None, Some("b"), None], vec![s("s/t"), v.clone()], d)?;
        path_case(&[None, None], vec![new(v.clone()), v.clone()], d)?;
        call_case(
            Get,
            &[None, None, Some("z")],
            Req {
                path: Some(Path::TupleStruct(vec![v.clone(), new(v.clone())])),
                ..Req::default()
            },
            d,
        )
    }));
    let n = scalars().len();
    out.push(Family::new(
        "scalar pairs",
        n * 23,
        0,
        move |i| format!("scalars {} and {}", i % n, (i / n * 61 + 7 * i) % n),
        move |i| {
            let v = scalars();
            path_case(
                &[None, Some("a"), None],
                vec![v[i % n].clone(), v[(i / n * 61 + 7 * i) % n].clone()],
                Expect::Delivered,
            )
        },
    ));

    // every method, a few shapes
    out.push(Family::list("methods", 0, METHODS.to_vec(), |m| {
        for x in ["a", "a b/%é", "?x#y"] {
            call_case(
                *m,
                &[Some("v"), None, None],
                Req {
                    path: Some(Path::Tuple(vec![s(x), V::U16(42)])),
                    ..Req::default()
                },
                Expect::Delivered,
            )?;
        }
        Ok(())
    }));
    // constants that need escaping, entry points without variables, other fields beside the path
    let consts = vec![
        "a", "A", "a b", "é", "日本語", "%", "%41", "a/b", "a?b", "a#b", "a+b", "~", "a:b", "a;b=c", "a@b", "'", "\"",
        "*", "-", "_", "a.b", "...", "[", "|", "\\", "😀", "a%2Fb", "{x}",
    ];
    out.push(Family::list("constants", 0, consts, |c| {
        let x = Expect::Delivered;
        let p = |v: Vec<V>| Req {
            path: Some(Path::Tuple(v)),
            ..Req::default()
        };
        for w in ["v", "a/b %é"] {
            call_case(Get, &[Some(c), None], p(vec![s(w)]), x)?;
            call_case(Get, &[None, Some(c)], p(vec![s(w)]), x)?;
            call_case(Get, &[Some(c), None, Some(c), None, Some(c)], p(vec![s(w), V::U8(3)]), x)?;
        }
        for segs in [vec![Some(*c)], vec![Some(*c), Some(*c)], vec![Some("z"), Some(*c), Some("z")]] {
            for path in [None, Some(Path::Unit), Some(Path::UnitStruct)] {
                call_case(
                    Get,
                    &segs,
                    Req {
                        path,
                        ..Req::default()
                    },
                    x,
                )?;
            }
        }
        Ok(())
    }));
    // constants of any text: what cannot be sent is refused
    let mut consts = words();
    consts.extend(single_chars());
    out.push(Family::list("unusual constants", 0, consts, |c| {
        let x = Expect::DeliveredOrRefused;
        let segs: Vec<Vec<Option<&str>>> = vec![
            vec![Some(c)],
            vec![Some(c), Some("z")],
            vec![Some("z"), Some(c)],
            vec![Some("z"), Some(c), Some("z")],
            vec![Some(c), Some(c)],
        ];
        for segs in &segs {
            for path in [None, Some(Path::Unit), Some(Path::UnitStruct), Some(Path::Tuple(vec![]))] {
                for query in [None, Some(Fields::Struct(vec![("q", s("1"))]))] {
                    for header in [None, Some(Fields::Struct(vec![("x-h", s("1"))]))] {
                        call_case(
                            Get,
                            segs,
                            Req {
                                path: path.clone(),
                                query: query.clone(),
                                header,
                                ..Req::default()
                            },
                            x,
                        )?;
                    }
                }
            }
        }
        for segs in [vec![Some(&**c), None], vec![None, Some(c)], vec![None, Some(c), None], vec![Some("z"), Some(c), None, Some(c)]] {
            let n = segs.iter().filter(|s| s.is_none()).count();
            let args = [s("v"), V::U8(7)];
            path_case_of(&segs, args[..n].to_vec(), x)?;
        }
        Ok(())
    }));
    out.push(Family::list("no variables", 0, vec![0usize, 1, 2, 3, 8], |n| {
        let all: [Option<&str>; 8] = [Some("a"), Some("b"), Some("c"), Some("a"), Some("a"), Some("b"), Some("x"), Some("y")];
        for path in [None, Some(Path::Unit), Some(Path::UnitStruct)] {
            call_case(
                Get,
                &all[..*n],
                Req {
                    path,
                    ..Req::default()
                },
                Expect::Delivered,
            )?;
        }
        Ok(())
    }));
    // many arguments
    let mut cases = Vec::new();
    for n in counts(480) {
        for form in 0..5 {
            cases.push((n, form));
        }
    }
    out.push(Family::list("many arguments", 0, cases, |&(n, form)| {
        let segs: Vec<Option<&str>> = match form {
            0 => (0..n * 2).map(|i| if i % 2 == 0 { Some("k") } else { None }).collect(),
            1 => vec![None; n],
            2 => (0..n * 2).map(|i| if i % 2 == 1 { Some("k") } else { None }).collect(),
            // one variable at the end of many constants or before them
            3 => (0..n + 1).map(|i| if i < n { Some("k") } else { None }).collect(),
            _ => (0..n + 1).map(|i| if i > 0 { Some("k") } else { None }).collect(),
        };
        let vars = segs.iter().filter(|s| s.is_none()).count();
        if vars == 0 {
            return Ok(());
        }
        let v: Vec<V> = (0..vars).map(|i| if i % 3 == 2 { V::U64(i as u64) } else { s(&format!("v/{}", i)) }).collect();
        for path in [Path::Tuple(v.clone()), Path::TupleStruct(v)] {
            call_case(Get, &segs, Req { path: Some(path), ..Req::default() }, Expect::Delivered)?;
        }
        Ok(())
    }));
    out.push(Family::list("long with special characters", 0, edged(&special_chars()), |w| {
        path_case(&[None], vec![s(w)], expect(&[w]))?;
        path_case(&[None, Some("k"), None], vec![V::U8(1), s(w)], expect(&[w]))
    }));
    // long arguments which still fit
    out.push(Family::list(
        "long arguments",
        0,
        vec![255usize, 256, 511, 900, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 7000, 7900],
        |n| {
            for c in ["a", "é", "/", " "] {
                let unit = if c == "a" { 1 } else { 3 * c.len() };
                path_case(&[Some("p"), None], vec![s(&c.repeat(n / unit))], Expect::Delivered)?;
            }
            Ok(())
        },
    ));
    let mut cases = Vec::new();
    for a in ones {
        for k in 0..4 {
            cases.push((k, a.clone()));
        }
    }
    out.push(Family::list("beside query and header", 0, cases, |(k, w)| {
        let q = Fields::Struct(vec![("a", s("q")), ("b", some(V::U8(1)))]);
        let h = Fields::Struct(vec![("x-h", s("h"))]);
        let (query, header) = match k {
            0 => (Some(q), None),
            1 => (None, Some(h)),
            2 => (Some(q), Some(h)),
            _ => (Some(Fields::map(&[])), None),
        };
        call_case(
            Post,
            &[Some("a"), None, None],
            Req {
                path: Some(Path::Tuple(vec![s(w), V::I32(7)])),
                query,
                header,
                body: b"body".to_vec(),
            },
            expect(&[w]),
        )
    }));
    out.push(Family::list("newtype wrappers", 0, words(), |w| {
        for i in 1..8 {
            with_wrap(Wrap { whole: i & 1 != 0, path: i & 2 != 0, fields: i & 4 != 0 }, || {
                for path in [Path::Tuple(vec![s(w), V::U8(3)]), Path::TupleStruct(vec![s(w), V::U8(3)])] {
                    for query in [None, Some(Fields::Struct(vec![("a", s("q"))]))] {
                        let r = Req { path: Some(path.clone()), query, header: None, body: vec![1] };
                        call_case(Put, &[Some("a"), None, None], r, expect(&[w]))?;
                    }
                }
                call_case(Get, &[Some("a"), Some("b")], Req { path: Some(Path::Unit), ..Req::default() }, Expect::Delivered)
            })?;
        }
        Ok(())
    }));
    out.push(derived_family());
    out
}

/// All request forms carrying this query.
fn query_case(q: Fields) -> Result<(), String> {
    let x = Expect::Delivered;
    let header = || Some(Fields::Struct(vec![("x-h", s("h"))]));
    let query = || Some(q.clone());
    let p = |v: Vec<V>| Some(Path::Tuple(v));
    let body = Vec::new;
    call_case(Get, &[Some("a")], Req { path: None, query: query(), header: None, body: body() }, x)?;
    call_case(Get, &[], Req { path: None, query: query(), header: None, body: body() }, x)?;
    call_case(Put, &[Some("a"), None], Req { path: p(vec![s("p?q&r")]), query: query(), header: None, body: b"B".to_vec() }, x)?;
    call_case(Get, &[Some("a")], Req { path: None, query: query(), header: header(), body: body() }, x)?;
    call_case(Get, &[None, None], Req { path: p(vec![V::U8(1), s("z")]), query: query(), header: header(), body: body() }, x)
}
fn query_case1(q: Fields) -> Result<(), String> {
    let x = Expect::Delivered;
    call_case(Get, &[Some("a")], Req { path: None, query: Some(q.clone()), header: None, body: vec![] }, x)?;
    call_case(Get, &[Some("a"), None], Req { path: Some(Path::Tuple(vec![V::U8(5)])), query: Some(q), header: None, body: vec![] }, x)
}
fn st(v: Vec<V>) -> Fields {
    Fields::Struct(v.into_iter().zip(["a", "b", "c", "d"]).map(|(v, n)| (n, v)).collect())
}

pub fn c02(tier: Tier) -> Vec<Family> {
    let mut out = Vec::new();
    out.push(combinations());
    out.push(orders());
    let mut ones = single_chars();
    ones.extend(words());
    out.push(Family::list("one string", 0, ones.clone(), |x| {
        query_case(st(vec![s(x)]))?;
        query_case(st(vec![s(x), V::U8(3)]))?;
        query_case(st(vec![some(s(x)), some(s(x))]))
    }));
    let n = special_chars().len();
    let len = tier.pick(3u32, 4);
    let word = move |i: usize| -> String { (0..len).map(|k| special_chars()[i / n.pow(k) % n]).collect() };
    out.push(Family::new(
        "character combinations",
        n.pow(len),
        0,
        move |i| format!("{:?}", word(i)),
        move |i| query_case1(st(vec![s(&word(i))])),
    ));
    let mut cases = Vec::new();
    for a in words() {
        for b in words() {
            cases.push((a.clone(), b));
        }
    }
    out.push(Family::list("two strings", 0, cases.clone(), |(a, b)| {
        query_case1(st(vec![s(a), s(b)]))?;
        query_case1(st(vec![some(s(a)), V::None(Ty::Str), some(s(b))]))
    }));
    out.push(Family::list("map entry", 0, cases, |(a, b)| query_case1(Fields::map(&[(a, b)]))));
    let mut keys = single_chars();
    keys.extend(combos(&special_chars(), 2));
    out.push(Family::list("map keys", 0, keys, |k| {
        query_case1(Fields::map(&[(k, k), (&format!("{}{}", k, k), "")]))
    }));
    // maps of up to three entries over a small alphabet
    let ks = ["", "a", "b", "a=", "&", "a b", "é", "%41", "A", "+"];
    let vs = ["", "1", "a=b&c=d", "%26", "é+ "];
    let mut maps: Vec<Fields> = vec![Fields::map(&[])];
    for i in 0..ks.len() {
        for v in vs {
            maps.push(Fields::map(&[(ks[i], v)]));
            for j in i + 1..ks.len() {
                for w in vs {
                    maps.push(Fields::map(&[(ks[i], v), (ks[j], w)]));
                    for k in j + 1..ks.len() {
                        for x in vs {
                            maps.push(Fields::map(&[(ks[i], v), (ks[j], w), (ks[k], x)]));
                        }
                    }
                }
            }
        }
    }
    out.push(Family::list("maps", 0, maps, |m| query_case(m.clone())));
    out.push(Family::list("unusual names", 0, words(), |w| {
        for e in [V::None(Ty::Str), some(s(w))] {
            query_case(Fields::Struct(vec![
                ("a b", s(w)),
                ("c&d=e", s("2")),
                ("%41+é", s(w)),
                ("", s("4")),
                ("x#?/", e),
            ]))?;
        }
        Ok(())
    }));
    // struct field names
    out.push(Family::list("field names", 0, words(), |w| {
        let n = leak(w);
        query_case(Fields::Struct(vec![(n, s("1"))]))?;
        query_case(Fields::Struct(vec![("zz", V::None(Ty::U8)), (n, V::I16(-5)), ("yy", s(w))]))
    }));
    out.push(Family::list("scalars", 0, scalars(), |v| {
        let v = || v.clone();
        query_case(st(vec![v()]))?;
        query_case(st(vec![some(v()), V::None(v().ty()), v()]))?;
        query_case(st(vec![V::None(Ty::Str), new(v()), some(new(v()))]))?;
        query_case(Fields::Map(v().ty(), vec![("".into(), v()), ("k k".into(), v())]))
    }));
    // presence patterns of optionals
    out.push(Family::new(
        "optionals",
        3usize.pow(4) * 4,
        0,
        |i| format!("presence pattern {}", i),
        |i| {
            let vals: [[V; 2]; 4] = [
                [s(""), s("x&b=1")],
                [V::I64(i64::MIN), V::I64(0)],
                [V::F32(0.1), V::F32(f32::NAN)],
                [V::Bool(true), V::Bool(false)],
            ];
            let kind = i / 81;
            let o = |d: usize| {
                let set = &vals[(kind + d) % 4];
                match (i / 3usize.pow(d as u32)) % 3 {
                    0 => V::None(set[0].ty()),
                    k => some(set[k - 1].clone()),
                }
            };
            query_case(st(vec![o(0), o(1), o(2), o(3)]))
        },
    ));
    out.push(Family::list("methods", 0, METHODS.to_vec(), |m| {
        call_case(
            *m,
            &[Some("v")],
            Req {
                query: Some(st(vec![s("é &="), some(V::U64(3))])),
                body: b"x".to_vec(),
                ..Req::default()
            },
            Expect::Delivered,
        )
    }));
    out.push(Family::list("empty query", 0, vec![()], |_| query_case(Fields::Struct(vec![]))));
    out.push(Family::list("long with special characters", 0, edged(&special_chars()), |w| {
        query_case1(st(vec![s(w), some(s("x"))]))?;
        query_case1(Fields::map(&[(w, "x"), ("y", w)]))
    }));
    let mut cases = Vec::new();
    for present in 0..16usize {
        for ty in [Ty::Str, Ty::U64, Ty::Bool] {
            cases.push((present, ty));
        }
    }
    out.push(Family::list("maps of optionals", 0, cases, |(present, ty)| {
        let keys = ["", "a", "b=&", "é"];
        let value = |i: usize| match ty {
            Ty::Str => s(["", "x", "a&b", "%"][i]),
            Ty::U64 => V::U64(u64::MAX >> i),
            _ => V::Bool(i % 2 == 0),
        };
        let entry = |i: usize| if present >> i & 1 == 1 { some(value(i)) } else { V::None(ty.clone()) };
        let all: Vec<(String, V)> = (0..4).map(|i| (keys[i].to_string(), entry(i))).collect();
        let some: Vec<(String, V)> = all.iter().filter(|(_, v)| !matches!(v, V::None(_))).cloned().collect();
        for (segs, path) in [(&[Some("a")] as Ep, None), (&[Some("a"), None], Some(Path::Tuple(vec![s("p")])))] {
            for header in [None, Some(Fields::Struct(vec![("x-h", s("h"))]))] {
                let r = |m: &Vec<(String, V)>| Req {
                    path: path.clone(),
                    query: Some(Fields::Map(opt(ty.clone()), m.clone())),
                    header: header.clone(),
                    body: vec![],
                };
                call_want(Get, segs, r(&all), r(&some))?;
            }
        }
        Ok(())
    }));
    out.push(Family::list("keys which are not texts", 0, (0..12usize).collect(), |i| {
        let k = *i as u64;
        call_typed(
            Get,
            &[Some("m")],
            DerivedKeys {
                query: (0..k).map(|i| (i * i * i * 1_000_003 % 257, Some(format!("{}&", i)))).collect(),
                body: vec![0; *i],
            },
            Expect::Delivered,
        )?;
        call_typed(
            Get,
            &[Some("m")],
            DerivedKeys {
                query: (0..k).map(|i| (DNewKey(i as i32 - 5), i as f64 / 8.0)).collect(),
                body: vec![0; *i],
            },
            Expect::Delivered,
        )?;
        call_typed(
            Get,
            &[Some("m")],
            DerivedKeys {
                query: (0..k.min(2)).map(|i| (i == 0, i as i8 - 1)).collect(),
                body: vec![0; *i],
            },
            Expect::Delivered,
        )
    }));
    out.push(Family::list(
        "many parameters",
        0,
        counts(480),
        |n| {
            let n = *n;
            query_case(Fields::Struct((0..n).map(|i| (leak(&format!("p{}", i)), s(&format!("&{}=", i)))).collect()))?;
            query_case(Fields::map(
                &(0..n).map(|i| (leak(&format!("p{}", i)) as &str, leak(&format!("%{}", i)) as &str)).collect::<Vec<_>>(),
            ))
        },
    ));
    out.push(Family::list("long names", 0, lengths(), |n| {
        for c in ["a", "é", "&", "-"] {
            let unit = if c == "é" || c == "&" { 3 * c.len() } else { 1 };
            let name = leak(&c.repeat((n / unit).max(1)));
            query_case(Fields::Struct(vec![("first", V::U8(1)), (name, s("v")), ("last", some(s("w")))]))?;
            query_case(Fields::map(&[(name, "v"), ("zz", "w")]))?;
        }
        Ok(())
    }));
    out.push(Family::list(
        "long values",
        0,
        vec![255usize, 511, 900, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 7000, 7800],
        |n| {
            for c in ["a", "é", "&", " "] {
                let unit = match c {
                    "a" | " " => 1,
                    c => 3 * c.len(),
                };
                query_case(st(vec![s(&c.repeat(n / unit)), V::U8(1)]))?;
            }
            Ok(())
        },
    ));
    out.push(Family::list("newtype wrappers", 0, words(), |w| {
        for i in 1..8 {
            with_wrap(Wrap { whole: i & 1 != 0, path: i & 2 != 0, fields: i & 4 != 0 }, || {
                query_case(st(vec![s(w), V::None(Ty::U8), some(V::I8(-1))]))?;
                query_case(Fields::map(&[(w, w), ("b", "c")]))
            })?;
        }
        Ok(())
    }));
    out.push(derived_family());
    out
}
