//! C16: the adapters `htrpc::json`, `htrpc::json_pretty` and `htrpc::msgpack`.
use super::args::*;
use crate::app::*;
use crate::exec::{self, Sim};
use crate::explore::{short, Family};
use crate::http;
use crate::Tier;
use futures;
use htrpc::types::HttpMethod::*;
use htrpc::{BodyReader, ReadBody, RpcClient, RpcRequest, RpcResponse, RpcServerBuilder};
use mio::sim::{self, Side};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::{Arc, Mutex};

pub trait Value: Serialize + DeserializeOwned + Clone + PartialEq + Debug + Send + Sync + 'static {}
impl<T: Serialize + DeserializeOwned + Clone + PartialEq + Debug + Send + Sync + 'static> Value for T {}

macro_rules! request {
    ($($t:ident),*) => {$(
        impl<T: Value> RpcRequest for $t<T> {
            fn body(&mut self) -> Vec<u8> {
                Vec::new()
            }
            fn read_body(self, body: BodyReader) -> ReadBody<Self> {
                Box::new(futures::finished((body, self)))
            }
        }
        impl<T: Value> Carrier<T> for $t<T> {
            fn value(&self) -> T {
                self.get().clone()
            }
            fn from(v: T) -> Self {
                $t::with(v)
            }
        }
    )*}
}
/// A message which contains one adapted value.
pub trait Carrier<T>: Sized + Send + 'static {
    fn value(&self) -> T;
    fn from(v: T) -> Self;
}
macro_rules! shapes {
    ($m:ident, $($with:tt)*) => {
        mod $m {
            use super::*;
            #[derive(Debug, Serialize, Deserialize)]
            #[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
            pub struct First<T>{ path: FirstP<T> }
            #[derive(Debug, Serialize, Deserialize)]
            #[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
            struct FirstP<T>(#[serde($($with)*)] T, u8);
            impl<T> First<T> {
                fn get(&self) -> &T { &self.path.0 }
                fn with(v: T) -> Self { First { path: FirstP(v, 7) } }
            }
            #[derive(Debug, Serialize, Deserialize)]
            #[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
            pub struct Second<T>{ path: SecondP<T> }
            #[derive(Debug, Serialize, Deserialize)]
            #[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
            struct SecondP<T>(String, #[serde($($with)*)] T);
            impl<T> Second<T> {
                fn get(&self) -> &T { &self.path.1 }
                fn with(v: T) -> Self { Second { path: SecondP("s".into(), v) } }
            }
            #[derive(Debug, Serialize, Deserialize)]
            #[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
            pub struct Query<T>{ query: QueryQ<T> }
            #[derive(Debug, Serialize, Deserialize)]
            #[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
            struct QueryQ<T>{ before: Option<u8>, #[serde($($with)*)] v: T, after: bool }
            impl<T> Query<T> {
                fn get(&self) -> &T { &self.query.v }
                fn with(v: T) -> Self { Query { query: QueryQ { before: Some(1), v, after: true } } }
            }
            #[derive(Debug, Serialize, Deserialize)]
            #[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
            pub struct Header<T>{ header: HeaderH<T> }
            #[derive(Debug, Serialize, Deserialize)]
            #[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
            struct HeaderH<T>{ #[serde(rename = "X-Before")] before: i8, #[serde($($with)*, rename = "X-V")] v: T, #[serde(rename = "x-after")] after: Option<bool> }
            impl<T> Header<T> {
                fn get(&self) -> &T { &self.header.v }
                fn with(v: T) -> Self { Header { header: HeaderH { before: -1, v, after: Some(false) } } }
            }
            request!(First, Second, Query, Header);
            #[derive(Debug, Serialize, Deserialize)]
            #[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
            pub struct Answer<T>{ status: u16, header: HeaderH<T> }
            impl<T: Value> Carrier<T> for Answer<T> {
                fn value(&self) -> T { self.header.v.clone() }
                fn from(v: T) -> Self { Answer { status: 200, header: Header::with(v).header } }
            }
            impl<T: Value> RpcResponse for Answer<T> {
                fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { Box::new(b"b".to_vec()) }
                fn set_body(&mut self, _: Vec<u8>) {}
            }
        }
    };
}
shapes!(json, with = "htrpc::json");
shapes!(pretty, with = "htrpc::json_pretty");
shapes!(msgpack, with = "htrpc::msgpack");
// written out separately
shapes!(halves, serialize_with = "htrpc::json_pretty::serialize", deserialize_with = "htrpc::json::deserialize");
mod plain {
    pub fn serialize<T: serde::Serialize, S: serde::Serializer>(v: T, s: S) -> Result<S::Ok, S::Error> {
        v.serialize(s)
    }
    pub fn deserialize<'de, T: serde::Deserialize<'de>, D: serde::Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        T::deserialize(d)
    }
}
shapes!(text, with = "plain");

#[derive(Debug, Clone, Copy, PartialEq)]
enum Place {
    First,
    Second,
    Query,
    Header,
    Answer,
}
const PLACES: &[Place] = &[Place::First, Place::Second, Place::Query, Place::Header, Place::Answer];
/// Is the place bound to carry this text?
fn carries(p: Place, text: &str) -> bool {
    match p {
        Place::First | Place::Second => ordinary(text),
        Place::Query => true,
        Place::Header | Place::Answer => !text.is_empty() && text.trim() == text && text.bytes().all(|b| (b' '..=b'~').contains(&b)),
    }
}
#[derive(Debug)]
pub struct Ok200 {
    status: u16,
}
impl Serialize for Ok200 {
    fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        #[derive(Serialize)]
        struct R {
            status: u16,
        }
        R { status: self.status }.serialize(z)
    }
}
impl<'de> Deserialize<'de> for Ok200 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        #[derive(Deserialize)]
        struct R {
            status: u16,
        }
        Ok(Ok200 {
            status: R::deserialize(d)?.status,
        })
    }
}
impl RpcResponse for Ok200 {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(Vec::new())
    }
    fn set_body(&mut self, _: Vec<u8>) {}
}
#[derive(Debug, PartialEq)]
enum Sent<T> {
    /// The other side got this.
    Got(T),
    /// The sender refused to send it: nothing on the wire.
    Refused,
    /// Sent, and rejected by the receiver (400, or an error of the call).
    Rejected,
}
const EP: &[Option<&str>] = &[Some("j"), None, None];
/// `C` is sent, `S` is received.
fn request<A, B, C, S>(v: A) -> Result<Sent<B>, String>
where
    C: Carrier<A> + RpcRequest + Debug,
    S: Carrier<B> + RpcRequest + Debug,
    B: Value,
    A: Value,
{
    exec::fresh();
    define(0, Get, ep(EP));
    define(1, Get, ep(EP));
    request_at::<A, B, C, S>(v)
}
fn request_at<A, B, C, S>(v: A) -> Result<Sent<B>, String>
where
    C: Carrier<A> + RpcRequest + Debug,
    S: Carrier<B> + RpcRequest + Debug,
    B: Value,
    A: Value,
{
    let got: Arc<Mutex<Vec<B>>> = Arc::default();
    let g = Arc::clone(&got);
    let mut b = RpcServerBuilder::new(addr(PORT));
    b.register(
        Handler::now(0, move |r: S| {
            g.lock().unwrap().push(r.value());
            Ok200 { status: 200 }
        }),
        Pr::<0, S, Ok200>::new(),
    )
    .expect("register");
    let mut sim = Sim::new();
    let server = start_server(&mut sim, PORT, b);
    sim.run();
    let call = sim.run_fut("call", RpcClient::new(addr(PORT)).call::<Pr<1, C, Ok200>>(C::from(v)));
    sim.run();
    if server.is_done() {
        return Err("the server ended".into());
    }
    let mut got = got.lock().unwrap();
    let sent = sim::conn_count() > 0 && sim::with_conn(0, |c| !c.pipes[Side::Client as usize].log.is_empty());
    match (call.take(), got.len()) {
        (Some(Err(_)), 0) if !sent => Ok(Sent::Refused),
        (Some(Ok(Ok200 { status: 200 })), 1) => Ok(Sent::Got(got.remove(0))),
        (Some(Ok(Ok200 { status: 400 })), 0) => Ok(Sent::Rejected),
        (r, n) => Err(format!("{} handler runs, the call ended with {:?}", n, r.map(|r| r.map_err(|e| short(&e.to_string()))))),
    }
}
/// The other way round.
fn response<A, B, S, C>(v: A) -> Result<Sent<B>, String>
where
    S: Carrier<A> + RpcResponse + Debug,
    C: Carrier<B> + RpcResponse + Debug,
    B: Value,
    A: Value,
{
    exec::fresh();
    define(0, Get, ep(&[Some("r")]));
    define(1, Get, ep(&[Some("r")]));
    let mut b = RpcServerBuilder::new(addr(PORT));
    b.register(
        Handler::now(0, move |_: crate::dynty::Req<0>| S::from(v.clone())),
        Pr::<0, crate::dynty::Req<0>, S>::new(),
    )
    .expect("register");
    let mut sim = Sim::new();
    let server = start_server(&mut sim, PORT, b);
    sim.run();
    let call = sim.run_fut(
        "call",
        RpcClient::new(addr(PORT)).call::<Pr<1, crate::dynty::Req<1>, C>>(Default::default()),
    );
    sim.run();
    if server.is_done() {
        return Err("the server ended".into());
    }
    let answered = sim::with_conn(0, |c| c.pipes[Side::Server as usize].log.clone());
    if !answered.is_empty() {
        http::parse_all(&answered, &[false])?;
    }
    match call.take() {
        Some(Ok(c)) => Ok(Sent::Got(c.value())),
        Some(Err(_)) if answered.is_empty() => Ok(Sent::Refused),
        Some(Err(_)) => Ok(Sent::Rejected),
        None => Err("the call does not end".into()),
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Adapter {
    Json,
    Pretty,
    Halves,
}
fn send(a: Adapter, p: Place, v: Any) -> Result<Sent<Any>, String> {
        macro_rules! m {
            ($m:ident) => {
                match p {
                    Place::First => request::<_, _, $m::First<Any>, $m::First<Any>>(v),
                    Place::Second => request::<_, _, $m::Second<Any>, $m::Second<Any>>(v),
                    Place::Query => {
                        let e = ep(&[Some("q")]);
                        exec::fresh();
                        define(0, Get, e);
                        define(1, Get, e);
                        request_at::<_, _, $m::Query<Any>, $m::Query<Any>>(v)
                    }
                    Place::Header => {
                        let e = ep(&[Some("q")]);
                        exec::fresh();
                        define(0, Get, e);
                        define(1, Get, e);
                        request_at::<_, _, $m::Header<Any>, $m::Header<Any>>(v)
                    }
                    Place::Answer => response::<_, _, $m::Answer<Any>, $m::Answer<Any>>(v),
                }
            };
        }
        match a {
            Adapter::Json => m!(json),
            Adapter::Pretty => m!(pretty),
            Adapter::Halves => m!(halves),
        }
}
/// Sent with the adapter, received as a plain string; and the reverse.
fn as_text(p: Place, v: Any, pretty: bool) -> Result<Sent<String>, String> {
    macro_rules! m {
        ($m:ident) => {
            match p {
                Place::First => request::<_, _, $m::First<Any>, text::First<String>>(v),
                Place::Second => request::<_, _, $m::Second<Any>, text::Second<String>>(v),
                Place::Query => one::<_, _, $m::Query<Any>, text::Query<String>>(v),
                Place::Header => one::<_, _, $m::Header<Any>, text::Header<String>>(v),
                Place::Answer => response::<_, _, $m::Answer<Any>, text::Answer<String>>(v),
            }
        };
    }
    if pretty {
        m!(pretty)
    } else {
        m!(json)
    }
}
fn from_text(p: Place, v: String, pretty: bool) -> Result<Sent<Any>, String> {
    macro_rules! m {
        ($m:ident) => {
            match p {
                Place::First => request::<_, _, text::First<String>, $m::First<Any>>(v),
                Place::Second => request::<_, _, text::Second<String>, $m::Second<Any>>(v),
                Place::Query => one::<_, _, text::Query<String>, $m::Query<Any>>(v),
                Place::Header => one::<_, _, text::Header<String>, $m::Header<Any>>(v),
                Place::Answer => response::<_, _, text::Answer<String>, $m::Answer<Any>>(v),
            }
        };
    }
    if pretty {
        m!(pretty)
    } else {
        m!(json)
    }
}
fn one<A, B, C, S>(v: A) -> Result<Sent<B>, String>
where
    C: Carrier<A> + RpcRequest + Debug,
    S: Carrier<B> + RpcRequest + Debug,
    B: Value,
    A: Value,
{
    exec::fresh();
    define(0, Get, ep(&[Some("q")]));
    define(1, Get, ep(&[Some("q")]));
    request_at::<A, B, C, S>(v)
}

/// One value through every place, with every JSON adapter.
fn roundtrip(v: &Any) -> Result<(), String> {
    expect_type(v.kind());
    let compact = serde_json::to_string(v).map_err(|e| e.to_string());
    let pretty = serde_json::to_string_pretty(v).map_err(|e| e.to_string());
    for p in PLACES {
        for a in [Adapter::Json, Adapter::Pretty, Adapter::Halves] {
            let text = if a == Adapter::Json { &compact } else { &pretty };
            match (send(a, *p, v.clone())?, text) {
                (Sent::Got(ref g), Ok(_)) if g == v => {}
                (Sent::Refused, Ok(t)) if !carries(*p, t) => {}
                // what the format cannot express
                (Sent::Refused, Err(_)) => {}
                (other, _) => return Err(format!("{:?} at {:?}: {} instead of {:?}", a, p, short(&format!("{:?}", other)), v)),
            }
        }
        for pr in [false, true] {
            let text = if pr { &pretty } else { &compact };
            let t = match text {
                Err(_) => continue,
                Ok(t) => t,
            };
            match as_text(*p, v.clone(), pr)? {
                Sent::Got(ref s) => {
                    let got: Result<serde_json::Value, _> = serde_json::from_str(s);
                    let want: serde_json::Value = serde_json::from_str(t).map_err(|e| e.to_string())?;
                    if got.ok().as_ref() != Some(&want) {
                        return Err(format!("{:?}, pretty {}: carried as {:?} instead of {:?}", p, pr, short(s), short(t)));
                    }
                }
                Sent::Refused if !carries(*p, t) => {}
                other => return Err(format!("{:?}, pretty {}: {:?} as a string", p, pr, other)),
            }
        }
    }
    Ok(())
}
/// A text received for a field of type `T`.
fn received(kind: Kind, text: &str) -> Result<(), String> {
    expect_type(kind);
    let want: Option<Any> = serde_json::from_str(text).ok();
    for p in PLACES {
        if !carries(*p, text) {
            continue;
        }
        for pretty in [false, true] {
            match (from_text(*p, text.to_string(), pretty)?, &want) {
                (Sent::Got(ref v), Some(ref w)) if v == w => {}
                (Sent::Rejected, None) => {}
                (other, want) => {
                    return Err(format!(
                        "{} at {:?} as {:?}: {:?} instead of {:?}",
                        text,
                        p,
                        kind,
                        other,
                        want
                    ))
                }
            }
        }
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum E {
    A,
    B(u8),
    C(i8, String),
    D { x: Option<bool>, y: Vec<E> },
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Unit;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct New(Vec<String>);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Small {
    a: u8,
    b: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Deep {
    n: i64,
    s: String,
    o: Option<Box<Deep>>,
    m: BTreeMap<String, E>,
    t: (u64, f32, char),
    u: Unit,
    l: Vec<New>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "k", content = "c")]
enum Tagged {
    #[serde(rename = "über \"x\"")]
    X(String),
    Y { a: i16 },
}
/// A value of one of these types. What is read is of the type which was announced with `expect_type`.
macro_rules! any {
    ($($n:ident($t:ty),)*) => {
        #[derive(Clone, PartialEq)]
        pub enum Any {
            $($n($t),)*
        }
        #[derive(Debug, Clone, Copy, PartialEq)]
        pub enum Kind {
            $($n,)*
        }
        impl Debug for Any {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                match self {
                    $(Any::$n(v) => write!(f, "{}: {:?}", stringify!($t), v),)*
                }
            }
        }
        impl Any {
            fn kind(&self) -> Kind {
                match self {
                    $(Any::$n(_) => Kind::$n,)*
                }
            }
        }
        impl Serialize for Any {
            fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
                match self {
                    $(Any::$n(v) => v.serialize(z),)*
                }
            }
        }
        impl<'de> Deserialize<'de> for Any {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                match EXPECTED.with(|e| e.get()) {
                    $(Kind::$n => <$t>::deserialize(d).map(Any::$n),)*
                }
            }
        }
    };
}
any! {
    Bool(bool),
    U8(u8),
    I8(i8),
    U16(u16),
    I16(i16),
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    U128(u128),
    I128(i128),
    F64(f64),
    F32(f32),
    Char(char),
    Str(String),
    OptStr(Option<String>),
    OptU8(Option<u8>),
    Bytes(Vec<u8>),
    Opts(Vec<Option<bool>>),
    Strs(Vec<String>),
    Tup((u8, String, bool)),
    Pair((u8, bool)),
    Arr([i16; 3]),
    Map(BTreeMap<String, i32>),
    Nums(BTreeMap<u8, bool>),
    BadMap(BTreeMap<(u8, u8), bool>),
    Nothing(()),
    UnitS(Unit),
    NewS(New),
    En(E),
    OptEn(Option<E>),
    Ens(Vec<E>),
    Res(Result<u8, String>),
    Tag(Tagged),
    SmallS(Small),
    DeepS(Deep),
    Json(serde_json::Value),
    Dur(std::time::Duration),
    Ip(std::net::IpAddr),
}
thread_local! {
    static EXPECTED: std::cell::Cell<Kind> = const { std::cell::Cell::new(Kind::Bool) };
}
fn expect_type(k: Kind) {
    EXPECTED.with(|e| e.set(k));
}
fn all<T>(values: Vec<T>, f: fn(T) -> Any) -> Vec<Any> {
    values.into_iter().map(f).collect()
}
/// Floats which JSON libraries agree on: exactly a short decimal.
fn floats() -> Vec<f64> {
    vec![0.0, 1.0, -1.0, 0.5, -2.25, 0.1, 1.5, 1e5, 1e15, 1e16, 1e21, 1e-5, 123456789.125]
}
fn strings() -> Vec<String> {
    let mut v = words();
    v.extend(single_chars());
    // what a change of white space, escapes or structure would touch
    v.extend(combos(&['a', ' ', '\n', '"', '\\', '{', ',', ':'], 2));
    v.extend(combos(&['a', ' ', '\n', '"'], 3));
    v.extend(["a  b", "a: b", "a, b", "{\n  \"a\": 1\n}", "[\n    1,\n    2\n]", "null", "\"", "\\\"", "\\n", "\\u0041", "//x", "/*x*/"].map(String::from));
    v
}
fn values() -> Vec<Any> {
    let mut c = Vec::new();
    c.extend(all(vec![true, false], Any::Bool));
    c.extend(all((0..=255u8).collect(), Any::U8));
    c.extend(all((-128..=127i8).collect(), Any::I8));
    c.extend(all(vec![0u16, 1, 255, 256, u16::MAX], Any::U16));
    c.extend(all(vec![i16::MIN, -1, 0, i16::MAX], Any::I16));
    c.extend(all(vec![0u32, 1, u32::MAX], Any::U32));
    c.extend(all(vec![i32::MIN, -1, 0, i32::MAX], Any::I32));
    c.extend(all(vec![0u64, 1, 1 << 53, (1 << 53) + 1, u64::MAX - 1, u64::MAX, 1 << 63], Any::U64));
    c.extend(all(vec![i64::MIN, i64::MIN + 1, -1, 0, (1 << 53) + 1, i64::MAX], Any::I64));
    c.extend(all(vec![0u128, 1 << 64, u128::MAX], Any::U128));
    c.extend(all(vec![i128::MIN, -1, i128::MAX], Any::I128));
    c.extend(all(floats(), Any::F64));
    c.extend(all(vec![0.0f32, -0.0, 0.1, 1.5, -2.25, 16777216.0, f32::MIN, f32::MAX, f32::MIN_POSITIVE, f32::EPSILON, 1.0 / 3.0], Any::F32));
    c.extend(all(special_chars(), Any::Char));
    c.extend(all(strings(), Any::Str));
    c.extend(all(strings().into_iter().map(Some).collect::<Vec<_>>(), Any::OptStr));
    c.extend(all(vec![None, Some(0u8), Some(255)], Any::OptU8));
    c.extend(all(vec![vec![], vec![0u8], vec![1, 2, 3], (0..=255).collect()], Any::Bytes));
    c.extend(all(vec![vec![], vec![None], vec![Some(true), None, Some(false)]], Any::Opts));
    c.extend(all(strings().into_iter().map(|s| vec![s.clone(), "x".into(), s]).collect::<Vec<_>>(), Any::Strs));
    c.extend(all(vec![(0u8, "a".to_string(), true), (1, "\"".into(), false)], Any::Tup));
    c.extend(all(vec![[0i16, -1, 5]], Any::Arr));
    c.extend(all(strings().into_iter().map(|s| vec![(s, 1i32)].into_iter().collect::<BTreeMap<_, _>>()).collect::<Vec<_>>(), Any::Map));
    c.extend(all(vec![BTreeMap::<u8, bool>::new(), vec![(0, true), (200, false)].into_iter().collect()], Any::Nums));
    c.extend(all(vec![vec![((1u8, 2u8), true)].into_iter().collect::<BTreeMap<_, _>>()], Any::BadMap));
    c.extend(all(vec![()], Any::Nothing));
    c.extend(all(vec![Unit], Any::UnitS));
    c.extend(all(vec![New(vec![]), New(vec!["a".into(), "".into()])], Any::NewS));
    let es = vec![
        E::A,
        E::B(0),
        E::B(255),
        E::C(-1, "\n".into()),
        E::D { x: None, y: vec![] },
        E::D {
            x: Some(true),
            y: vec![E::A, E::D { x: Some(false), y: vec![E::B(1)] }],
        },
    ];
    c.extend(all(es.clone(), Any::En));
    c.extend(all(es.iter().cloned().map(Some).chain([None]).collect::<Vec<_>>(), Any::OptEn));
    c.extend(all(vec![es.clone()], Any::Ens));
    c.extend(all(vec![Ok::<u8, String>(1), Err("e".into())], Any::Res));
    c.extend(all(strings().into_iter().map(Tagged::X).chain([Tagged::Y { a: -5 }]).collect::<Vec<_>>(), Any::Tag));
    c.extend(all(vec![Small { a: 1, b: None }, Small { a: 2, b: Some("".into()) }], Any::SmallS));
    let deep = |o| Deep {
        n: -9,
        s: "sé\u{0}\"".into(),
        o,
        m: es.iter().enumerate().map(|(i, e)| (format!("k{}", i), e.clone())).collect(),
        t: (u64::MAX, 0.25, '😀'),
        u: Unit,
        l: vec![New(vec!["q".into()]), New(vec![])],
    };
    let d = deep(Some(Box::new(deep(None))));
    c.extend(all(vec![deep(None), d.clone(), deep(Some(Box::new(d)))], Any::DeepS));
    c.extend(all(vec![
        serde_json::json!(null),
        serde_json::json!({"a": [1, -2, 3.5, "x", null, {"b": {}}], "": [], "é": true}),
        serde_json::json!([[[[]]]]),
    ], Any::Json));
    c.extend(all(vec![std::time::Duration::new(5, 999_999_999), std::time::Duration::new(0, 0)], Any::Dur));
    c.extend(all(vec![std::net::IpAddr::from([127, 0, 0, 1]), std::net::IpAddr::from([0u16, 0, 0, 0, 0, 0, 0, 1])], Any::Ip));
    c
}

// MessagePack

#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct Packed {
    before: u8,
    #[serde(with = "htrpc::msgpack")]
    v: Any,
    after: String,
}
fn packed(v: &Any) -> Result<(), String> {
    expect_type(v.kind());
    let p = Packed {
        before: 1,
        v: v.clone(),
        after: "x".into(),
    };
    let check = |how: &str, r: Result<Packed, String>| match r {
        Ok(ref g) if *g == p => Ok(()),
        r => Err(format!("{}: {:?} instead of {:?}", how, r, p)),
    };
    let text = serde_json::to_string(&p).map_err(|e| format!("not serialized: {}", e))?;
    check("JSON", serde_json::from_str(&text).map_err(|e| e.to_string()))?;
    let val = serde_json::to_value(&p).map_err(|e| format!("not serialized: {}", e))?;
    check("JSON value", serde_json::from_value(val.clone()).map_err(|e| e.to_string()))?;
    let bin = serdeconv::to_msgpack_vec(&p).map_err(|e| e.to_string())?;
    check("MessagePack", serdeconv::from_msgpack_slice(&bin).map_err(|e| e.to_string()))?;
    // the field is a sequence of the bytes of exactly one MessagePack value
    let bytes: Vec<u8> = serde_json::from_value(val["v"].clone()).map_err(|e| e.to_string())?;
    match item(&bytes) {
        Some((_, n)) if n == bytes.len() => {}
        other => return Err(format!("not one MessagePack value: {:?}: {:?}", bytes, other)),
    }
    // every strict prefix, and every extension by a byte, is not valid
    for i in 0..bytes.len() {
        if let Ok(v) = unpack::<Any>(&bytes[..i]) {
            return Err(format!("the first {} of {} bytes accepted as {:?}", i, bytes.len(), v));
        }
    }
    for b in [0u8, 1, 0x7f, 0x80, 0x90, 0xa0, 0xc0, 0xc1, 0xc3, 0xff] {
        let mut x = bytes.clone();
        x.push(b);
        if let Ok(v) = unpack::<Any>(&x) {
            return Err(format!("{} followed by {} accepted as {:?}", hex(&bytes), b, v));
        }
    }
    // through places which carry text only: refused or intact
    macro_rules! place {
        ($f:ident, $s:ident) => {
            match $f::<_, _, msgpack::$s<Any>, msgpack::$s<Any>>(v.clone())? {
                Sent::Got(ref g) if g == v => {}
                Sent::Refused => {}
                other => return Err(format!("{}: {:?} instead of {:?}", stringify!($s), other, v)),
            }
        };
    }
    place!(request, First);
    place!(request, Second);
    place!(one, Query);
    place!(one, Header);
    place!(response, Answer);
    Ok(())
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{:02x}", b)).collect::<Vec<_>>().join(" ")
}
fn unpack<T: Value>(bytes: &[u8]) -> Result<T, String> {
    use serde::de::value::SeqDeserializer;
    type De<'a> = SeqDeserializer<std::vec::IntoIter<u8>, serde::de::value::Error>;
    let d: De = SeqDeserializer::new(bytes.to_vec().into_iter());
    htrpc::msgpack::deserialize(d).map_err(|e| e.to_string())
}
#[derive(Debug, Clone, PartialEq)]
enum M {
    Nil,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(Vec<u8>),
    Bin(Vec<u8>),
    Arr(Vec<M>),
    Map(Vec<(M, M)>),
    Ext,
}
/// Reads one MessagePack value, independently of any library.
fn item(b: &[u8]) -> Option<(M, usize)> {
    let t = *b.first()?;
    let be = |n: usize| -> Option<u64> { Some(b.get(1..1 + n)?.iter().fold(0u64, |a, x| a << 8 | *x as u64)) };
    let bytes = |from: usize, n: usize| -> Option<(Vec<u8>, usize)> { Some((b.get(from..from.checked_add(n)?)?.to_vec(), from + n)) };
    let items = |from: usize, n: usize| -> Option<(Vec<M>, usize)> {
        let mut at = from;
        let mut v = Vec::new();
        for _ in 0..n {
            let (m, k) = item(b.get(at..)?)?;
            v.push(m);
            at += k;
        }
        Some((v, at))
    };
    let pairs = |v: Vec<M>| {
        let mut it = v.into_iter();
        let mut out = Vec::new();
        while let (Some(k), Some(v)) = (it.next(), it.next()) {
            out.push((k, v))
        }
        M::Map(out)
    };
    Some(match t {
        0..=0x7f => (M::Int(t as i128), 1),
        0x80..=0x8f => {
            let (v, n) = items(1, 2 * (t & 15) as usize)?;
            (pairs(v), n)
        }
        0x90..=0x9f => {
            let (v, n) = items(1, (t & 15) as usize)?;
            (M::Arr(v), n)
        }
        0xa0..=0xbf => {
            let (v, n) = bytes(1, (t & 31) as usize)?;
            (M::Str(v), n)
        }
        0xc0 => (M::Nil, 1),
        0xc1 => return None,
        0xc2 | 0xc3 => (M::Bool(t == 0xc3), 1),
        0xc4..=0xc6 => {
            let k = 1 << (t - 0xc4);
            let (v, n) = bytes(1 + k, be(k)? as usize)?;
            (M::Bin(v), n)
        }
        0xc7..=0xc9 => {
            let k = 1 << (t - 0xc7);
            let (_, n) = bytes(1 + k, be(k)? as usize + 1)?;
            (M::Ext, n)
        }
        0xca => (M::Float(f32::from_bits(be(4)? as u32) as f64), 5),
        0xcb => (M::Float(f64::from_bits(be(8)?)), 9),
        0xcc..=0xcf => {
            let k = 1 << (t - 0xcc);
            (M::Int(be(k)? as i128), 1 + k)
        }
        0xd0..=0xd3 => {
            let k = 1usize << (t - 0xd0);
            let x = be(k)?;
            let sh = 64 - 8 * k as u32;
            (M::Int((((x << sh) as i64) >> sh) as i128), 1 + k)
        }
        0xd4..=0xd8 => {
            let (_, n) = bytes(1, (1usize << (t - 0xd4)) + 1)?;
            (M::Ext, n)
        }
        0xd9..=0xdb => {
            let k = 1 << (t - 0xd9);
            let (v, n) = bytes(1 + k, be(k)? as usize)?;
            (M::Str(v), n)
        }
        0xdc | 0xdd => {
            let k = 2 << (t - 0xdc);
            let (v, n) = items(1 + k, be(k)? as usize)?;
            (M::Arr(v), n)
        }
        0xde | 0xdf => {
            let k = 2 << (t - 0xde);
            let (v, n) = items(1 + k, 2 * be(k)? as usize)?;
            (pairs(v), n)
        }
        0xe0..=0xff => (M::Int(t as i8 as i128), 1),
    })
}
/// Does the value say the same as the MessagePack value?
trait Agrees: Value {
    fn agrees(&self, m: &M) -> bool;
}
macro_rules! int_agrees {
    ($($t:ty)*) => {$(
        impl Agrees for $t {
            fn agrees(&self, m: &M) -> bool {
                *m == M::Int(*self as i128)
            }
        }
    )*}
}
int_agrees!(u8 i8 u16 i32 u64 i64);
impl Agrees for bool {
    fn agrees(&self, m: &M) -> bool {
        *m == M::Bool(*self)
    }
}
impl Agrees for String {
    fn agrees(&self, m: &M) -> bool {
        match m {
            M::Str(b) | M::Bin(b) => b == self.as_bytes(),
            _ => false,
        }
    }
}
impl Agrees for f64 {
    fn agrees(&self, m: &M) -> bool {
        match *m {
            M::Float(f) => f == *self || f.is_nan() && self.is_nan(),
            M::Int(i) => i as f64 == *self,
            _ => false,
        }
    }
}
impl Agrees for () {
    fn agrees(&self, m: &M) -> bool {
        *m == M::Nil || *m == M::Arr(vec![])
    }
}
impl<T: Agrees> Agrees for Option<T> {
    fn agrees(&self, m: &M) -> bool {
        match self {
            None => *m == M::Nil,
            Some(v) => v.agrees(m),
        }
    }
}
impl<T: Agrees> Agrees for Vec<T> {
    fn agrees(&self, m: &M) -> bool {
        match m {
            M::Arr(a) => a.len() == self.len() && a.iter().zip(self).all(|(m, v)| v.agrees(m)),
            M::Bin(a) => a.len() == self.len() && a.iter().zip(self).all(|(m, v)| v.agrees(&M::Int(*m as i128))),
            _ => false,
        }
    }
}
impl<T: Agrees, U: Agrees> Agrees for (T, U) {
    fn agrees(&self, m: &M) -> bool {
        match m {
            M::Arr(a) => a.len() == 2 && self.0.agrees(&a[0]) && self.1.agrees(&a[1]),
            M::Bin(a) => a.len() == 2 && self.0.agrees(&M::Int(a[0] as i128)) && self.1.agrees(&M::Int(a[1] as i128)),
            _ => false,
        }
    }
}
impl Agrees for BTreeMap<u8, bool> {
    fn agrees(&self, m: &M) -> bool {
        match m {
            M::Map(p) => {
                // later entries of equal keys win
                self.keys().all(|k| p.iter().any(|(m, _)| k.agrees(m)))
                    && p.iter().all(|(k, _)| self.keys().any(|x| x.agrees(k)))
                    && self.iter().all(|(k, v)| p.iter().rev().find(|(m, _)| k.agrees(m)).map_or(false, |(_, m)| v.agrees(m)))
            }
            _ => false,
        }
    }
}
fn unpacked<T: Agrees>(bytes: &[u8]) -> Result<(), String> {
    if let Ok(v) = unpack::<T>(bytes) {
        match item(bytes) {
            Some((ref m, n)) if n == bytes.len() && v.agrees(m) => {}
            other => return Err(format!("{} accepted as {:?}; it is {:?}", hex(bytes), v, other)),
        }
    }
    Ok(())
}
fn unpacked_all(bytes: &[u8]) -> Result<(), String> {
    unpacked::<u8>(bytes)?;
    unpacked::<i8>(bytes)?;
    unpacked::<u16>(bytes)?;
    unpacked::<i32>(bytes)?;
    unpacked::<u64>(bytes)?;
    unpacked::<i64>(bytes)?;
    unpacked::<bool>(bytes)?;
    unpacked::<String>(bytes)?;
    unpacked::<f64>(bytes)?;
    unpacked::<()>(bytes)?;
    unpacked::<Option<u8>>(bytes)?;
    unpacked::<Option<bool>>(bytes)?;
    unpacked::<Vec<u8>>(bytes)?;
    unpacked::<Vec<bool>>(bytes)?;
    unpacked::<Vec<Option<String>>>(bytes)?;
    unpacked::<(u8, bool)>(bytes)?;
    unpacked::<(u8, i8)>(bytes)?;
    unpacked::<BTreeMap<u8, bool>>(bytes)
}

/// A long value through every place, with every JSON adapter, if its text fits into a head as it is.
fn sized_roundtrip(v: &Any) -> Result<(), String> {
    let fits = |t: String| t.bytes().map(|b| if b.is_ascii_alphanumeric() { 1 } else { 3 }).sum::<usize>() < 7800;
    let pretty = serde_json::to_string_pretty(v).map(|t| fits(t.replace("\n", "0000"))).unwrap_or(false);
    let compact = serde_json::to_string(v).map(fits).unwrap_or(false);
    expect_type(v.kind());
    for p in PLACES {
        for (a, ok) in [(Adapter::Json, compact), (Adapter::Pretty, pretty), (Adapter::Halves, pretty)] {
            if !ok {
                continue;
            }
            let text = if a == Adapter::Json { serde_json::to_string(v) } else { serde_json::to_string_pretty(v) }.expect("JSON");
            match send(a, *p, v.clone())? {
                Sent::Got(ref g) if g == v => {}
                Sent::Refused if !carries(*p, &text) => {}
                other => return Err(format!("{:?} at {:?}: {} instead of the value sent", a, p, short(&format!("{:?}", other)))),
            }
        }
    }
    Ok(())
}
/// Values of any size through MessagePack, within JSON, MessagePack and as plain sequences of bytes.
fn sized_packed(v: &Any) -> Result<(), String> {
    expect_type(v.kind());
    let p = Packed {
        before: 1,
        v: v.clone(),
        after: "x".into(),
    };
    let check = |how: &str, r: Result<Packed, String>| match r {
        Ok(ref g) if *g == p => Ok(()),
        Ok(_) => Err(format!("{}: another value", how)),
        Err(e) => Err(format!("{}: {}", how, e)),
    };
    let text = serde_json::to_string(&p).map_err(|e| format!("not serialized: {}", e))?;
    check("JSON", serde_json::from_str(&text).map_err(|e| e.to_string()))?;
    let bin = serdeconv::to_msgpack_vec(&p).map_err(|e| e.to_string())?;
    check("MessagePack", serdeconv::from_msgpack_slice(&bin).map_err(|e| e.to_string()))?;
    let val: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let bytes: Vec<u8> = serde_json::from_value(val["v"].clone()).map_err(|e| e.to_string())?;
    match item(&bytes) {
        Some((_, n)) if n == bytes.len() => {}
        _ => return Err(format!("{} bytes are not one MessagePack value", bytes.len())),
    }
    match unpack::<Any>(&bytes) {
        Ok(ref g) if g == v => {}
        other => return Err(format!("{} bytes: {}", bytes.len(), short(&format!("{:?}", other)))),
    }
    let n = bytes.len();
    for i in [n - 1, n / 2, n.min(3) - 1, n.min(5) - 1] {
        if unpack::<Any>(&bytes[..i]).is_ok() {
            return Err(format!("the first {} of {} bytes accepted", i, n));
        }
    }
    let mut x = bytes;
    x.push(0xc0);
    if unpack::<Any>(&x).is_ok() {
        return Err(format!("{} bytes followed by one more accepted", n));
    }
    Ok(())
}

/// Floats of which the shortest decimal has 16 or 17 digits, or a large exponent.
fn long_floats() -> Vec<f64> {
    vec![9007199254740991.0, 6.934698245112694e276, 8.383658838626809e-78, -7.803913958627244e173, -2.693554001703998e265, -6.801672438380202e47]
}

pub fn c16(tier: Tier) -> Vec<Family> {
    let mut out = Vec::new();
    let quick = tier == Tier::Quick;
    out.push(Family::list("JSON values", 0, values(), roundtrip));
    // adjacently tagged structures are beyond the MessagePack library
    let c: Vec<Any> = values().into_iter().filter(|v| !matches!(v, Any::Tag(Tagged::Y { .. }))).collect();
    out.push(Family::list("MessagePack values", 0, c, packed));
    let mut v = long_floats();
    v.extend([f64::MIN, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, 5e-324, 0.1 + 0.2, 1.0 / 3.0]);
    out.push(Family::list("MessagePack floats", 0, all(v, Any::F64), packed));
    out.push(Family::list("JSON floats with many digits", 0, all(long_floats(), Any::F64), roundtrip));
    // any text
    let tokens = ["1", "-", "0", ".5", "e", "\"", "a", "[", "]", "{", "}", ":", ",", "true", "null", " ", "\\", "256", "\"b\"", "\"A\""];
    let mut texts: Vec<String> = vec![String::new()];
    let mut level = texts.clone();
    for _ in 0..if quick { 3 } else { 4 } {
        level = level.iter().flat_map(|s| tokens.iter().map(move |t| format!("{}{}", s, t))).collect();
        texts.extend(level.clone());
    }
    for n in 1..=5 {
        texts.push("[".repeat(n) + &"]".repeat(n));
    }
    texts.push("[".repeat(300) + &"]".repeat(300));
    for t in [
        r#"{"a":1}"#, r#"{"a":1,"b":null}"#, r#"{"a":1,"b":"x","c":3}"#, r#"{"a":1,"a":2}"#, r#"{"b":"x"}"#, r#"{"a":"1"}"#, r#"{"a":256}"#,
        r#"[1,"x"]"#, r#"{"B":1}"#, r#"{"B":300}"#, r#"{"C":[1,"x"]}"#, r#"{"C":[1]}"#, r#"{"D":{"x":true,"y":["A"]}}"#, r#"{"D":{"y":[]}}"#,
        r#"{"A":null}"#, r#""\u0041""#, r#""\ud83d\ude00""#, r#""\ud83d""#, "1e2", "1.0", "-0", "18446744073709551616", "NaN", "Infinity",
        "'a'", "[1,]", "[1 2]", "tru", "nul", "1a", "01", "+1", "0x1", "\u{feff}1", "1\u{0}", "\t1\n", "\"\n\"", "\"\u{7f}\"", "é",
    ] {
        texts.push(t.to_string());
    }
    out.push(Family::list("JSON texts", 0, texts, |t| {
        use self::Kind::*;
        for k in [U8, I64, Bool, Str, OptU8, Bytes, Pair, Map, En, SmallS, Nothing, F64, OptEn, Tag] {
            received(k, t)?;
        }
        Ok(())
    }));
    // valid texts with any character before, after or within them
    let mut bases = vec!["1", "-1", "true", "null", "\"a\"", "[1]", "{\"a\":1}", "0.5", "\"A\""];
    if !quick {
        bases.extend(["[1,true]", "{\"B\":1}", "[]", "\"\"", "1e2", "{\"k\":\"Y\",\"c\":{\"a\":1}}"]);
    }
    let mut chars: Vec<char> = (0..=0xffu8).map(|c| c as char).collect();
    chars.extend(special_chars());
    chars.extend(['\u{2028}', '\u{3000}', '\u{feff}', '\u{200b}', '\u{ff11}', '\u{661}', '\u{10ffff}']);
    chars.sort();
    chars.dedup();
    let mut cases = Vec::new();
    for t in &bases {
        for c in &chars {
            cases.push((*t, *c));
        }
    }
    out.push(Family::list("JSON texts and a character", 0, cases, |(t, c)| {
        use self::Kind::*;
        let mid = t.len() / 2;
        for x in [format!("{}{}", t, c), format!("{}{}", c, t), format!("{}{}{}", c, t, c), format!("{}{}{}", &t[..mid], c, &t[mid..])] {
            for k in [U8, I64, Bool, Str, OptU8, Bytes, Map, En, SmallS, F64] {
                received(k, &x)?;
            }
        }
        Ok(())
    }));
    // sizes: what a head of 8096 bytes has room for
    let mut sizes = super::args::lengths();
    sizes.extend([3500, 4000, 4094, 4095, 4096, 4097, 4098, 5000, 6000, 7000, 7500]);
    let mut cases = Vec::new();
    for n in &sizes {
        cases.push(Any::Str("x".repeat(*n)));
        cases.push(Any::OptStr(Some("0".repeat(*n))));
        if *n > 70 {
            cases.push(Any::En(E::C(1, "y".repeat(*n))));
            cases.push(Any::SmallS(Small { a: 1, b: Some("z".repeat(*n)) }));
        }
    }
    for n in super::args::counts(1000).into_iter().chain([513, 600]) {
        cases.push(Any::Bytes(vec![1; n]));
        if n <= 300 {
            cases.push(Any::Opts((0..n).map(|i| if i % 2 == 0 { Some(true) } else { None }).collect()));
        }
        if n <= 200 {
            cases.push(Any::Strs((0..n).map(|i| format!("s{}", i)).collect()));
            cases.push(Any::Map((0..n).map(|i| (format!("k{}", i), i as i32)).collect()));
        }
    }
    out.push(Family::list("sizes of JSON values", 0, cases, sized_roundtrip));
    let mut cases = Vec::new();
    let mut sizes: Vec<usize> = (0..=20).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    sizes.extend([5, 6, 10, 20, 31, 32, 33, 100, 1000, 10_000, 50_000, 70_000, 100_000, 200_000, 1_000_000]);
    sizes.sort();
    sizes.dedup();
    if quick {
        sizes.retain(|n| *n <= 300_000);
    }
    for n in sizes {
        cases.push(Any::Str("x".repeat(n)));
        cases.push(Any::Bytes(vec![7; n]));
        cases.push(Any::Bytes(vec![200; n]));
        if n <= 70_000 {
            cases.push(Any::Strs(vec![String::new(); n]));
            cases.push(Any::Map((0..n).map(|i| (format!("{}", i), i as i32)).collect()));
        }
    }
    out.push(Family::list("sizes of MessagePack values", 0, cases, sized_packed));
    // any bytes
    let n = if quick { 2 } else { 3 };
    out.push(Family::new(
        "MessagePack bytes",
        256,
        0,
        |i| format!("{:02x} ..", i),
        move |i| {
            let i = i as u8;
            if i == 0 {
                unpacked_all(&[])?;
            }
            unpacked_all(&[i])?;
            for j in 0..=255 {
                unpacked_all(&[i, j])?;
                if n == 3 {
                    for k in 0..=255 {
                        unpacked_all(&[i, j, k])?;
                    }
                }
            }
            Ok(())
        },
    ));
    // longer ones over the bytes which matter
    let bytes = [0u8, 1, 0x7f, 0x80, 0x81, 0x90, 0x91, 0x92, 0xa0, 0xa1, 0xc0, 0xc1, 0xc3, 0xc4, 0xca, 0xcc, 0xcd, 0xd0, 0xd4, 0xd9, 0xdc, 0xde, 0xff, b'a'];
    out.push(Family::new(
        "longer MessagePack bytes",
        bytes.len() * bytes.len(),
        0,
        move |i| format!("{:02x} {:02x} ..", bytes[i / bytes.len()], bytes[i % bytes.len()]),
        move |i| {
            let (a, b) = (bytes[i / bytes.len()], bytes[i % bytes.len()]);
            for c in bytes {
                for d in bytes {
                    unpacked_all(&[a, b, c, d])?;
                    if !quick {
                        for e in bytes {
                            unpacked_all(&[a, b, c, d, e])?;
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    out
}
