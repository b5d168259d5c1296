//! C15: problem documents.
use super::args::*;
use super::responses::STATUSES;
use super::sequences::{tuples, Delivery};
use crate::app::*;
use crate::dynty::*;
use crate::exec::{self, Handle, Outcome, Sim};
use crate::explore::{short, Family};
use crate::http::{self, Msg};
use crate::net::Net;
use crate::Tier;
use htrpc::pool::RpcClientPool;
use htrpc::rfc7807::{AboutBlankProblem, Problem, ProblemResponse, TrackableProblem};
use htrpc::types::HttpMethod::{self, *};
use htrpc::types::HttpStatus;
use htrpc::{Error, ErrorKind, RpcClient, RpcResponse, RpcServerBuilder};
use mio::sim::{self, Side};
use serde::de::{EnumAccess, VariantAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::Value;
use std::fmt;
use trackable::error::ErrorKindExt;
use trackable::Trackable;

const TRACKABLE: &str = "https://docs.rs/htrpc/0.0.2/htrpc/rfc7807/struct.TrackableProblem.html";

/// A problem, written down independently of htrpc.
#[derive(Debug, Clone, PartialEq)]
struct Spec {
    blank: bool,
    title: String,
    status: u16,
    detail: Option<String>,
    instance: Option<String>,
    history: Option<Vec<String>>,
}
impl Spec {
    fn blank(status: u16, title: &str) -> Spec {
        Spec {
            blank: true,
            title: title.into(),
            status,
            detail: None,
            instance: None,
            history: None,
        }
    }
    fn trackable(status: u16, title: &str) -> Spec {
        Spec {
            blank: false,
            ..Spec::blank(status, title)
        }
    }
    fn problem(&self) -> Problem {
        if self.blank {
            AboutBlankProblem {
                title: self.title.clone(),
                status: self.status,
            }
            .into()
        } else {
            TrackableProblem {
                title: self.title.clone(),
                status: self.status,
                detail: self.detail.clone(),
                instance: self.instance.as_ref().map(|u| u.parse().expect("a URL")),
                history: self.history.clone(),
            }
            .into()
        }
    }
    /// Of which document is this the content?
    fn of(doc: &Value) -> Result<Spec, String> {
        let text = |n: &str| match doc.get(n) {
            None | Some(Value::Null) => Ok(None),
            Some(Value::String(s)) => Ok(Some(s.clone())),
            Some(v) => Err(format!("member {} is {}", n, v)),
        };
        Ok(Spec {
            blank: match text("type")?.as_deref() {
                // the default type according to the RFC
                None | Some("about:blank") => true,
                Some(TRACKABLE) => false,
                Some(t) => return Err(format!("the type is {:?}", t)),
            },
            title: text("title")?.ok_or("no title")?,
            status: match doc.get("status").and_then(|s| s.as_u64()) {
                Some(s) if s < 65536 => s as u16,
                _ => return Err(format!("status member {:?}", doc.get("status"))),
            },
            detail: text("detail")?,
            instance: text("instance")?,
            history: match doc.get("history") {
                None | Some(Value::Null) => None,
                Some(Value::Array(v)) => Some(
                    v.iter()
                        .map(|v| v.as_str().map(|s| s.to_string()).ok_or("history member"))
                        .collect::<Result<_, _>>()?,
                ),
                Some(v) => return Err(format!("history {}", v)),
            },
        })
    }
    /// The same, read off the problem's public fields.
    fn from(p: &Problem) -> Spec {
        match *p {
            Problem::AboutBlank(ref p) => Spec::blank(p.status, &p.title),
            Problem::Trackable(ref p) => Spec {
                blank: false,
                title: p.title.clone(),
                status: p.status,
                detail: p.detail.clone(),
                instance: p.instance.as_ref().map(|u| u.to_string()),
                history: p.history.clone(),
            },
        }
    }
}
/// Reads the problem document off a response; `None`: the response to a HEAD request.
fn document(m: &Msg, head: bool) -> Result<Option<Spec>, String> {
    let ct = m.header("content-type").unwrap_or_default();
    if m.count("content-type") != 1 || ct.split(';').next().unwrap().trim().to_lowercase() != "application/problem+json" {
        return Err(format!("content type {:?} of {:?}", ct, m.start));
    }
    if head {
        return Ok(None);
    }
    let doc: Value = serde_json::from_slice(&m.body)
        .map_err(|e| format!("the body {:?} is not JSON: {}", short(&String::from_utf8_lossy(&m.body)), e))?;
    let spec = Spec::of(&doc)?;
    if spec.status != m.status() {
        return Err(format!("the document of {:?} has status {}", m.start, spec.status));
    }
    Ok(Some(spec))
}
fn status_of(code: u16) -> HttpStatus {
    match code {
        100 => HttpStatus::Continue,
        101 => HttpStatus::SwitchingProtocols,
        102 => HttpStatus::Processing,
        200 => HttpStatus::Ok,
        201 => HttpStatus::Created,
        202 => HttpStatus::Accepted,
        203 => HttpStatus::NonAuthoritativeInformation,
        204 => HttpStatus::NoContent,
        205 => HttpStatus::ResetContent,
        206 => HttpStatus::PartialContent,
        207 => HttpStatus::MultiStatus,
        208 => HttpStatus::AlreadyReported,
        226 => HttpStatus::ImUsed,
        300 => HttpStatus::MultipleChoices,
        301 => HttpStatus::MovedPermanently,
        302 => HttpStatus::Found,
        303 => HttpStatus::SeeOther,
        304 => HttpStatus::NotModified,
        305 => HttpStatus::UseProxy,
        307 => HttpStatus::TemporaryRedirect,
        308 => HttpStatus::PermanentRedirect,
        400 => HttpStatus::BadRequest,
        401 => HttpStatus::Unauthorized,
        402 => HttpStatus::PaymentRequired,
        403 => HttpStatus::Forbidden,
        404 => HttpStatus::NotFound,
        405 => HttpStatus::MethodNotAllowed,
        406 => HttpStatus::NotAcceptable,
        407 => HttpStatus::ProxyAuthenticationRequired,
        408 => HttpStatus::RequestTimeout,
        409 => HttpStatus::Conflict,
        410 => HttpStatus::Gone,
        411 => HttpStatus::LengthRequired,
        412 => HttpStatus::PreconditionFailed,
        413 => HttpStatus::PayloadTooLarge,
        414 => HttpStatus::UriTooLong,
        415 => HttpStatus::UnsupportedMediaType,
        416 => HttpStatus::RangeNotSatisfiable,
        417 => HttpStatus::ExceptionFailed,
        418 => HttpStatus::ImATeapot,
        421 => HttpStatus::MisdirectedRequest,
        422 => HttpStatus::UnprocessableEntity,
        423 => HttpStatus::Locked,
        424 => HttpStatus::FailedDependency,
        426 => HttpStatus::UpgradeRequired,
        451 => HttpStatus::UnavailableForLegalReasons,
        500 => HttpStatus::InternalServerError,
        501 => HttpStatus::NotImplemented,
        502 => HttpStatus::BadGateway,
        503 => HttpStatus::ServiceUnavailable,
        504 => HttpStatus::GatewayTimeout,
        505 => HttpStatus::HttpVersionNotSupported,
        506 => HttpStatus::VariantAlsoNegotiates,
        507 => HttpStatus::InsufficientStorage,
        508 => HttpStatus::LoopDetected,
        509 => HttpStatus::BandwidthLimitExceeded,
        510 => HttpStatus::NotExtended,
        _ => panic!("unknown status {}", code),
    }
}
fn reason(status: u16) -> &'static str {
    status_of(status).reason_phrase()
}
/// What every rejection by the server itself must be.
fn rejection(m: &Msg, head: bool, status: u16) -> Result<Option<Spec>, String> {
    if m.status() != status {
        return Err(format!("{:?} instead of {}", m.start, status));
    }
    let spec = document(m, head)?;
    if let Some(ref s) = spec {
        if s.title.is_empty() {
            return Err("empty title".into());
        }
        if s.blank && s.title != reason(status) {
            return Err(format!("about:blank with title {:?}", s.title));
        }
        if status != 400 && !s.blank {
            return Err(format!("{} is not about:blank", status));
        }
        if status == 400 && s.blank {
            return Err("the cause of the rejection is not told".into());
        }
    }
    Ok(spec)
}

/// Rejected requests: start line and fields, and the status they get.
#[derive(Debug, Clone, Copy)]
struct Rejected {
    method: &'static str,
    target: &'static str,
    fields: &'static str,
    status: u16,
}
const fn r(method: &'static str, target: &'static str, fields: &'static str, status: u16) -> Rejected {
    Rejected {
        method,
        target,
        fields,
        status,
    }
}
/// Procedures: `POST /p/{u8}?n=i16&o=[bool]` with header `x-h: u32`, `GET /g`, `HEAD /h/{bool}`, `GET /`.
const REJECTED: &[Rejected] = &[
    r("POST", "/q", "", 404),
    r("POST", "/p", "", 404),
    r("POST", "/p/1/2?n=1", "x-h: 1\r\n", 404),
    r("POST", "/p/1/", "", 404),
    r("GET", "/p/1/?n=%22%00%0a", "", 404),
    r("GET", "/\u{3042}", "", 404),
    r("GET", "/%ff%fe\"{}", "", 404),
    r("HEAD", "/nope", "", 404),
    r("PUT", "/p/1?n=1", "x-h: 1\r\n", 405),
    r("GET", "/p/x", "", 405),
    r("HEAD", "/p/300", "", 405),
    r("HEAD", "/g", "", 405),
    r("POST", "/g", "", 405),
    r("DELETE", "/", "", 405),
    r("GET", "/h/true", "", 405),
    r("UPDATEREDIRECTREF", "/g", "", 405),
    r("POST", "/p/1", "x-h: 1\r\n", 400),
    r("POST", "/p/1?n=1", "", 400),
    r("POST", "/p/1?o=true", "x-h: 1\r\n", 400),
    r("POST", "/p/256?n=1", "x-h: 1\r\n", 400),
    r("POST", "/p/?n=1", "x-h: 1\r\n", 400),
    r("POST", "/p/%22%5C%0A?n=1", "x-h: 1\r\n", 400),
    r("POST", "/p/%E3%81%82%F0%9F%98%80?n=1", "x-h: 1\r\n", 400),
    r("POST", "/p/%ff?n=1", "x-h: 1\r\n", 400),
    r("POST", "/p/1?n=%22%5C%0A%00%1b", "x-h: 1\r\n", 400),
    r("POST", "/p/1?n=32768", "x-h: 1\r\n", 400),
    r("POST", "/p/1?n=", "x-h: 1\r\n", 400),
    r("POST", "/p/1?n=%ff", "x-h: 1\r\n", 400),
    r("POST", "/p/1?n=1&o=maybe", "x-h: 1\r\n", 400),
    r("POST", "/p/1?n=1", "x-h: \"\\\t{}\r\n", 400),
    r("POST", "/p/1?n=1", "x-h: \u{3042}\r\n", 400),
    r("POST", "/p/1?n=1", "x-h:\r\n", 400),
    r("HEAD", "/h/x", "", 400),
    r("HEAD", "/h/%22", "", 400),
];
const FRAMES: &[(&str, &str)] = &[
    ("", ""),
    ("Content-Length: 0\r\n", ""),
    ("Content-Length: 5\r\n", "hello"),
    ("content-type: text/plain\r\ncontent-length: 3\r\n", "\r\n\r"),
    ("Transfer-Encoding: chunked\r\n", "3\r\nabc\r\n0\r\n\r\n"),
    ("Accept: text/html\r\nContent-Type: application/json\r\nContent-Length: 2\r\n", "{}"),
];
fn bytes(q: &Rejected, frame: &(&str, &str)) -> Vec<u8> {
    format!("{} {} HTTP/1.1\r\n{}{}\r\n{}", q.method, q.target, q.fields, frame.0, frame.1).into_bytes()
}
fn server() -> (Sim, Handle<Result<(), Error>>) {
    exec::fresh();
    define(0, Post, ep(&[Some("p"), None]));
    define(1, Get, ep(&[Some("g")]));
    define(2, Head, ep(&[Some("h"), None]));
    define(3, Get, ep(&[Some("")]));
    set_req(
        0,
        ReqTy {
            path: Some(PathTy::Tuple(vec![Ty::U8])),
            query: Some(FieldsTy::strukt(vec![("n", Ty::I16), ("o", opt(Ty::Bool))])),
            header: Some(FieldsTy::strukt(vec![("x-h", Ty::U32)])),
        },
    );
    set_req(
        2,
        ReqTy {
            path: Some(PathTy::Tuple(vec![Ty::Bool])),
            ..ReqTy::default()
        },
    );
    let mut b = RpcServerBuilder::new(addr(PORT));
    b.set_logger(crate::app::logger());
    macro_rules! register {
        ($($n:tt)*) => {$(
            b.register(Handler::now($n, |_| Resp::<$n>::status(200, b"fine")), Dp::<$n>::new()).expect("register");
        )*}
    }
    register!(0 1 2 3);
    let mut sim = Sim::new();
    let h = start_server(&mut sim, PORT, b);
    sim.run();
    (sim, h)
}
const GOOD: &[&[u8]] = &[
    b"GET /g HTTP/1.1\r\n\r\n",
    b"POST /p/7?n=-1 HTTP/1.1\r\nX-H: 7\r\nContent-Length: 4\r\n\r\n{}{}",
    b"HEAD /h/true HTTP/1.1\r\n\r\n",
];
/// One request of a conversation.
#[derive(Debug, Clone, Copy)]
enum Item {
    Good(usize),
    Bad(usize, usize),
    /// A request one part of which has this size.
    Long(usize, Part, usize),
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Part {
    Query,
    Header,
    Headers,
    Body,
    /// The wrong value itself; or the unknown path.
    Wrong,
}
const WRONG: &[(&str, &str, &str, u16)] = &[
    ("POST /p/", "?n=1 HTTP/1.1\r\nx-h: 1\r\n", "", 400),
    ("POST /p/1?n=", " HTTP/1.1\r\nx-h: 1\r\n", "", 400),
    ("POST /p/1?n=1&o=", " HTTP/1.1\r\nx-h: 1\r\n", "", 400),
    ("POST /p/1?n=1 HTTP/1.1\r\nx-h: ", "\r\n", "", 400),
    ("HEAD /h/", " HTTP/1.1\r\n", "", 400),
    ("POST /", " HTTP/1.1\r\nContent-Length: 2\r\n", "{}", 404),
    ("HEAD /", " HTTP/1.1\r\n", "", 404),
    ("PUT /p/", " HTTP/1.1\r\nContent-Length: 2\r\n", "{}", 405),
    ("GET /h/", " HTTP/1.1\r\n", "", 405),
];
impl Item {
    fn bytes(self) -> Vec<u8> {
        match self {
            Item::Good(i) => GOOD[i].to_vec(),
            Item::Bad(i, f) => bytes(&REJECTED[i], &FRAMES[f]),
            Item::Long(i, Part::Wrong, n) => {
                let (a, b, c, _) = WRONG[i];
                format!("{}{}{}\r\n{}", a, "x".repeat(n), b, c).into_bytes()
            }
            Item::Long(i, part, n) => {
                let q = &REJECTED[i];
                let mut target = q.target.to_string();
                let mut fields = q.fields.to_string();
                let mut body = String::new();
                match part {
                    Part::Query => {
                        target.push_str(if target.contains('?') { "&zz=" } else { "?zz=" });
                        target.push_str(&"x".repeat(n))
                    }
                    Part::Header => fields.push_str(&format!("X-Pad: {}\r\n", "x".repeat(n))),
                    Part::Headers => fields.extend((0..n).map(|i| format!("X-Pad{}: {}\r\n", i, i))),
                    _ => {
                        fields.push_str(&format!("Content-Length: {}\r\n", n));
                        body = "GET /g HTTP/1.1\r\n\r\n".chars().cycle().take(n).collect();
                    }
                }
                format!("{} {} HTTP/1.1\r\n{}\r\n{}", q.method, target, fields, body).into_bytes()
            }
        }
    }
    fn status(self) -> u16 {
        match self {
            Item::Good(_) => 200,
            Item::Long(i, Part::Wrong, _) => WRONG[i].3,
            Item::Bad(i, _) | Item::Long(i, _, _) => REJECTED[i].status,
        }
    }
    fn head(self) -> bool {
        self.bytes().starts_with(b"HEAD")
    }
}
fn converse(items: &[Item], delivery: &Delivery, net: Net) -> Result<(), String> {
    let (mut sim, server) = server();
    net.install();
    let c = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
    let stream: Vec<u8> = items.iter().flat_map(|i| i.bytes()).collect();
    let n = match delivery {
        Delivery::ByteByByte => 1,
        Delivery::Pieces(n) => *n,
        _ => stream.len().max(1),
    };
    for p in stream.chunks(n) {
        sim::raw_send(c, Side::Client, p);
        if sim.run() == Outcome::StepLimit {
            return Err("the server does not come to rest".into());
        }
    }
    let heads: Vec<bool> = items.iter().map(|i| i.head()).collect();
    let answer = sim::with_conn(c, |c| c.pipes[Side::Server as usize].log.clone());
    let msgs = http::parse_all(&answer, &heads)?;
    if msgs.len() != items.len() {
        return Err(format!("{} responses to {} requests", msgs.len(), items.len()));
    }
    for (m, i) in msgs.iter().zip(items) {
        match *i {
            Item::Good(_) => {
                if m.status() != 200 {
                    return Err(format!("{:?} to {:?}", m.start, i));
                }
            }
            _ => {
                rejection(m, i.head(), i.status()).map_err(|e| format!("{:?}: {}", i, e))?;
            }
        }
    }
    let runs = items.iter().filter(|i| matches!(i, Item::Good(_))).count();
    if log_len() != runs {
        return Err(format!("{} handler runs for {} accepted requests", log_len(), runs));
    }
    if server.is_done() {
        return Err("the server ended".into());
    }
    Ok(())
}

/// An enum with one variant per status, each containing a problem.
#[derive(Debug)]
pub struct InEnum(&'static str, ProblemResponse);
impl Serialize for InEnum {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        z.serialize_newtype_variant("E", self.0.len() as u32, self.0, &self.1)
    }
}
impl<'de> Deserialize<'de> for InEnum {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis;
        impl<'de> Visitor<'de> for Vis {
            type Value = InEnum;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("an enum")
            }
            fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<InEnum, A::Error> {
                let (n, v) = a.variant::<String>()?;
                Ok(InEnum(leak(&n), v.newtype_variant()?))
            }
        }
        d.deserialize_enum("E", &[], Vis)
    }
}
impl RpcResponse for InEnum {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        self.1.body()
    }
    fn set_body(&mut self, body: Vec<u8>) {
        self.1.set_body(body)
    }
}
/// Derived, the way users write it.
#[derive(Debug, Serialize, Deserialize)]
enum Derived {
    Ok,
    BadRequest(ProblemResponse),
    NotFound(ProblemResponse),
    MethodNotAllowed(ProblemResponse),
    InternalServerError(ProblemResponse),
}
impl Derived {
    fn inner(&mut self) -> Option<&mut ProblemResponse> {
        match self {
            Derived::Ok => None,
            Derived::BadRequest(p) | Derived::NotFound(p) | Derived::MethodNotAllowed(p) | Derived::InternalServerError(p) => Some(p),
        }
    }
}
impl RpcResponse for Derived {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        match self.inner() {
            None => Box::new(b"fine".to_vec()),
            Some(p) => p.body(),
        }
    }
    fn set_body(&mut self, body: Vec<u8>) {
        if let Some(p) = self.inner() {
            p.set_body(body)
        }
    }
}
fn make(spec: &Spec, replaced: bool) -> ProblemResponse {
    if replaced {
        let other = Spec {
            history: Some(vec!["other".into()]),
            ..Spec::trackable(if spec.status == 418 { 422 } else { 418 }, "another problem")
        };
        let mut r = other.problem().into_response();
        r.set_problem(spec.problem());
        r
    } else {
        spec.problem().into_response()
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Form {
    Plain,
    Replaced,
    InEnum,
}
fn wire(answered: &[u8], head: bool, spec: &Spec) -> Result<(), String> {
    let msgs = http::parse_all(answered, &[head])?;
    if msgs.len() != 1 {
        return Err(format!("{} responses", msgs.len()));
    }
    if msgs[0].status() != spec.status {
        return Err(format!("{:?} for a problem with status {}", msgs[0].start, spec.status));
    }
    match document(&msgs[0], head)? {
        None => {}
        Some(ref d) if d == spec => {}
        Some(d) => return Err(format!("the document says {:?} instead of {:?}", d, spec)),
    }
    Ok(())
}
/// Returns the problem from a handler and compares what is sent and what the caller gets.
fn returned(client: Client, method: HttpMethod, form: Form, spec: &Spec) -> Result<(), String> {
    let head = method == Head;
    let s = spec.clone();
    let (answered, got) = if form == Form::InEnum {
        let name = STATUSES.iter().find(|x| x.0 == s.status).expect("known").1;
        let x = exchange_by(client, method, ep(&[Some("r")]), Req::<0>::default(), move |_| InEnum(name, make(&s, false)), |_| {});
        let got = match x.result {
            Some(Ok(InEnum(n, _))) if n != name => return Err(format!("variant {} instead of {}", n, name)),
            Some(r) => Some(r.map(|r| r.1)),
            None => None,
        };
        (x.answered, got)
    } else {
        let x = exchange_by(
            client,
            method,
            ep(&[Some("r")]),
            Req::<0>::default(),
            move |_| make(&s, form == Form::Replaced),
            |_| {},
        );
        (x.answered, x.result)
    };
    wire(&answered, head, spec)?;
    match got {
        Some(Ok(_)) if head => Ok(()),
        Some(Ok(ref p)) if Spec::from(p.problem()) == *spec => {
            let (a, b) = (format!("{:?}", p.problem()), format!("{:?}", spec.problem()));
            if a != b {
                return Err(format!("the caller got {} instead of {}", a, b));
            }
            Ok(())
        }
        other => Err(format!("the caller got {} instead of {:?}", short(&format!("{:?}", other.map(|r| r.map_err(|e| e.to_string())))), spec)),
    }
}
/// Calls of a procedure the server does not know in this form; the caller decodes the rejection.
fn rejected_call<S: RpcResponse + fmt::Debug + Send + 'static>(
    client: Client,
    method: HttpMethod,
    e: &[Option<&str>],
    req: Req<5>,
    status: u16,
    spec: impl Fn(&mut S) -> Result<Spec, String>,
) -> Result<(), String> {
    let (mut sim, server) = server();
    define(5, method, ep(e));
    let call = match client {
        Client::Plain => sim.run_fut("call", RpcClient::new(addr(PORT)).call::<Pr<5, Req<5>, S>>(req)),
        Client::Pooled => {
            let pool = RpcClientPool::new();
            let h = pool.handle();
            sim.spawn("pool", pool);
            sim.run_fut("call", h.client(addr(PORT)).call::<Pr<5, Req<5>, S>>(req))
        }
    };
    sim.run();
    let answered = sim::with_conn(0, |c| c.pipes[Side::Server as usize].log.clone());
    let head = method == Head;
    let msgs = http::parse_all(&answered, &[head])?;
    if msgs.len() != 1 {
        return Err(format!("{} responses", msgs.len()));
    }
    let want = rejection(&msgs[0], head, status)?;
    if log_len() != 0 || server.is_done() {
        return Err("a handler ran or the server ended".into());
    }
    match (call.take(), want) {
        (Some(Ok(_)), None) => Ok(()),
        (Some(Ok(ref mut s)), Some(ref want)) => match spec(s) {
            Ok(ref got) if got == want => Ok(()),
            got => Err(format!("the caller got {:?} instead of {:?}", got, want)),
        },
        (other, _) => Err(format!("the call ended with {:?}", other.map(|r| r.map_err(|e| short(&e.to_string()))))),
    }
}
/// Errors as handlers have them, and what a problem made of them has to tell.
fn errors() -> Vec<(Error, Vec<String>)> {
    let mut out: Vec<(Error, Vec<String>)> = Vec::new();
    for kind in [ErrorKind::Invalid, ErrorKind::Other] {
        out.push((kind.error().into(), vec![]));
        for text in words() {
            out.push((kind.cause(text.clone()).into(), vec![]));
        }
    }
    let mut tracked = Vec::new();
    for (e, _) in &out {
        for n in 1..4 {
            for msg in ["", "plain", "\"\\\n\u{0}\u{3042}"] {
                let mut e = e.clone();
                for _ in 0..n {
                    e = trackable::track!(e, "{}", msg);
                }
                let h: Vec<String> = e.history().map_or(vec![], |h| h.events().iter().map(|e| e.to_string()).collect());
                tracked.push((e, h));
            }
        }
    }
    out.extend(tracked);
    out
}

/// An error of an application: with any text, cause and history.
#[derive(Debug, Clone)]
struct AppError(String, Option<Cause>, Option<trackable::History<AppEvent>>);
#[derive(Debug, Clone)]
struct AppEvent(String);
impl From<trackable::Location> for AppEvent {
    fn from(l: trackable::Location) -> AppEvent {
        AppEvent(l.to_string())
    }
}
impl fmt::Display for AppEvent {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
#[derive(Debug, Clone)]
struct Cause(String, Option<Box<Cause>>);
impl fmt::Display for Cause {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Cause {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|c| &**c as _)
    }
}
impl fmt::Display for AppError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for AppError {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|c| c as _)
    }
}
impl Trackable for AppError {
    type Event = AppEvent;
    fn history(&self) -> Option<&trackable::History<AppEvent>> {
        self.2.as_ref()
    }
    fn history_mut(&mut self) -> Option<&mut trackable::History<AppEvent>> {
        self.2.as_mut()
    }
}
/// Histories: none, and up to three texts out of a few, and many.
fn histories() -> Vec<Option<Vec<String>>> {
    let few = ["", "a", " ", "\"\n"];
    let mut v = vec![None];
    for n in 0..=3 {
        v.extend(tuples(&few, n).into_iter().map(|h| Some(h.iter().map(|s| s.to_string()).collect())));
    }
    for n in [10, 63, 64, 65, 100, 255, 256, 257, 1000] {
        v.push(Some(vec![String::new(); n]));
        v.push(Some((0..n).map(|i| format!("at {}", i)).collect()));
    }
    v
}
/// What becomes of an application's error.
fn app_error(title: &str, cause: &Option<Cause>, history: &Option<Vec<String>>) -> Result<(), String> {
    let e = AppError(
        title.into(),
        cause.clone(),
        history.clone().map(|h| {
            let mut x = trackable::History::new();
            for e in h {
                x.add(AppEvent(e));
            }
            x
        }),
    );
    let want = Spec {
        detail: cause.as_ref().map(|c| c.0.clone()),
        history: history.clone(),
        ..Spec::trackable(503, title)
    };
    let status = status_of(503);
    let p = Problem::trackable(status, e.clone());
    if Spec::from(&p) != want {
        return Err(format!("trackable problem {:?} instead of {:?}", p, want));
    }
    wire_of(move || Problem::trackable(status, e.clone()).into_response(), want)
}

pub fn c15(tier: Tier) -> Vec<Family> {
    let mut out = Vec::new();
    let quick = tier == Tier::Quick;
    let mut cases = Vec::new();
    for q in 0..REJECTED.len() {
        for f in 0..FRAMES.len() {
            cases.push((q, f));
        }
    }
    out.push(Family::list("rejections", 0, cases.clone(), |(q, f)| {
        for d in [Delivery::AtOnce, Delivery::ByteByByte, Delivery::Pieces(7)] {
            converse(&[Item::Bad(*q, *f)], &d, Net::default())?;
        }
        Ok(())
    }));
    // methods: nothing but HEAD is special
    let mut ms = Vec::new();
    for m in METHODS {
        for t in ["/nope", "/p/1", "/g", "/", "/h/true", "/p/x"] {
            ms.push((*m, t));
        }
    }
    out.push(Family::list("methods", 0, ms, |(m, t)| {
        let known = match *t {
            "/nope" => return methods(*m, t, 404),
            "/p/1" | "/p/x" => Post,
            "/h/true" => Head,
            _ => Get,
        };
        match (*m == known, *t) {
            (false, _) => methods(*m, t, 405),
            (true, "/p/1") | (true, "/p/x") => methods(*m, t, 400),
            _ => Ok(()),
        }
    }));
    // conversations
    let mut items: Vec<Item> = (0..GOOD.len()).map(Item::Good).collect();
    for q in [0, 7, 8, 11, 16, 18, 21, 32] {
        for f in if quick { vec![0, 2, 4] } else { vec![0, 1, 2, 3, 4, 5] } {
            items.push(Item::Bad(q, f));
        }
    }
    let mut convs = tuples(&items, 2);
    if !quick {
        let few: Vec<Item> = items.iter().cloned().filter(|i| !matches!(i, Item::Bad(_, f) if *f != 2 && *f != 4)).collect();
        convs.extend(tuples(&few, 3));
        let fewer: Vec<Item> = few.iter().cloned().filter(|i| !matches!(i, Item::Bad(_, f) if *f != 4)).collect();
        convs.extend(tuples(&fewer, 4));
    } else {
        let few: Vec<Item> = items.iter().cloned().filter(|i| !matches!(i, Item::Bad(_, f) if *f != 2)).collect();
        convs.extend(tuples(&few, 3));
    }
    out.push(Family::list("conversations", 0, convs, |items| {
        for d in [Delivery::AtOnce, Delivery::Pieces(11)] {
            converse(items, &d, Net::default())?;
        }
        Ok(())
    }));
    // splits and would-blocks
    // of any size
    let mut sizes = super::args::lengths();
    sizes.extend([4000, 5000, 6500, 7500]);
    let mut longs = Vec::new();
    for n in &sizes {
        for i in 0..WRONG.len() {
            longs.push(Item::Long(i, Part::Wrong, *n));
        }
        for i in 0..REJECTED.len() {
            for part in [Part::Query, Part::Header, Part::Headers, Part::Body] {
                if part != Part::Headers || *n <= 25 {
                    longs.push(Item::Long(i, part, *n));
                }
            }
        }
    }
    for n in [8192, 65_535, 65_536, 200_000] {
        longs.extend((0..REJECTED.len()).map(|i| Item::Long(i, Part::Body, n)));
    }
    out.push(Family::list("sizes of rejected requests", 0, longs, |item| {
        converse(&[*item, Item::Good(1)], &Delivery::AtOnce, Net::default())?;
        converse(&[Item::Good(2), *item], &Delivery::Pieces(1000), Net::default())
    }));
    let picks: Vec<usize> = if quick { vec![1, 7, 8, 11, 18, 21, 32] } else { (0..REJECTED.len()).collect() };
    out.push(Family::list("rejections under any fragmentation", if quick { 1 } else { 2 }, picks, |q| {
        let net = Net {
            choices: true,
            ..Net::default()
        };
        converse(&[Item::Bad(*q, 2), Item::Good(1)], &Delivery::AtOnce, net)
    }));
    // callers decode them
    let mut calls: Vec<(HttpMethod, Vec<Option<&'static str>>, Req<5>, u16)> = Vec::new();
    let q = |n: &str, h: Option<V>| Req::<5> {
        path: Some(Path::Tuple(vec![s(n)])),
        query: h.clone().map(|v| Fields::Struct(vec![("n", v)])),
        header: h.map(|v| Fields::Struct(vec![("x-h", v)])),
        body: b"body".to_vec(),
    };
    for m in [Get, Post, Put, Head, Delete] {
        calls.push((m, vec![Some("nope")], Req::default(), 404));
        calls.push((m, vec![Some("p"), None, Some("x")], q("1", None), 404));
        if m != Post {
            calls.push((m, vec![Some("p"), None], q("1", None), 405));
        }
        if m != Get {
            calls.push((m, vec![Some("g")], Req::default(), 405));
        }
    }
    calls.push((Head, vec![Some("h"), None], q("x", None), 400));
    for w in words() {
        if ordinary(&w) {
            calls.push((Post, vec![Some("p"), None], q(&w, Some(s("1"))), 400));
        }
        if !w.bytes().any(|b| b < b' ' || b > 126) && w.trim() == w && !["-1", "0"].contains(&w.as_str()) {
            calls.push((Post, vec![Some("p"), None], q("1", Some(s(&w))), 400));
        }
    }
    calls.retain(|c| !matches!(&c.2.path, Some(Path::Tuple(v)) if v[0] == s("0") && c.3 == 400));
    out.push(Family::list("rejections decoded by callers", 0, calls, |(m, e, req, status)| {
        for c in [Client::Plain, Client::Pooled] {
            rejected_call::<ProblemResponse>(c, *m, e, req.clone(), *status, |r| Ok(Spec::from(r.problem())))?;
            rejected_call::<InEnum>(c, *m, e, req.clone(), *status, |r| Ok(Spec::from(r.1.problem())))?;
            rejected_call::<Derived>(c, *m, e, req.clone(), *status, |r| {
                match (&*r, *status) {
                    (Derived::BadRequest(_), 400) | (Derived::NotFound(_), 404) | (Derived::MethodNotAllowed(_), 405) => {}
                    _ => return Err(format!("{:?}", r)),
                }
                Ok(Spec::from(r.inner().unwrap().problem()))
            })?;
        }
        Ok(())
    }));
    // problems returned by handlers
    let mut cases = Vec::new();
    for st in STATUSES {
        for m in [Get, Post, Head, Put] {
            cases.push((st.0, m));
        }
    }
    out.push(Family::list("returned problems", 0, cases, |(status, m)| {
        let hs = Status(*status).spec();
        for c in [Client::Plain, Client::Pooled] {
            for f in [Form::Plain, Form::Replaced, Form::InEnum] {
                for spec in &hs {
                    returned(c, *m, f, spec)?;
                }
            }
        }
        Ok(())
    }));
    out.push(Family::list("constructors", 0, STATUSES.to_vec(), |st| {
        let status = status_of(st.0);
        let p = Problem::about_blank(status);
        if Spec::from(&p) != Spec::blank(st.0, status.reason_phrase()) {
            return Err(format!("about:blank problem {:?}", p));
        }
        wire_of(move || Problem::about_blank(status).into_response(), Spec::blank(st.0, status.reason_phrase()))?;
        for (e, h) in errors() {
            let want = Spec {
                history: e.history().map(|_| h.clone()),
                detail: std::error::Error::source(&e).map(|c| c.to_string()),
                ..Spec::trackable(st.0, &e.to_string())
            };
            let p = Problem::trackable(status, e.clone());
            if Spec::from(&p) != want {
                return Err(format!("trackable problem {:?} instead of {:?}", p, want));
            }
            if st.0 == 404 || st.0 == 400 {
                wire_of(move || Problem::trackable(status, e.clone()).into_response(), want)?;
            }
        }
        Ok(())
    }));
    let causes: Vec<Option<Cause>> = vec![
        None,
        Some(Cause("".into(), None)),
        Some(Cause(" ".into(), None)),
        Some(Cause("cause".into(), None)),
        Some(Cause("\"\\\n\u{0}".into(), Some(Box::new(Cause("its cause".into(), None))))),
        Some(Cause("".into(), Some(Box::new(Cause("its cause".into(), None))))),
    ];
    let mut cases = Vec::new();
    for t in ["", "title", "\"\n"] {
        for c in &causes {
            for h in histories() {
                cases.push((t, c.clone(), h));
            }
        }
    }
    out.push(Family::list("errors of applications", 0, cases, |(t, c, h)| app_error(t, c, h)));
    // long texts in every part of an error
    let mut cases = Vec::new();
    for n in super::args::lengths().into_iter().chain([4095, 4096, 4097, 5000, 8096, 10_000, 65_535, 65_536, 65_537, 100_000, 200_000]) {
        for t in ["x", "\u{3042}", "a\n"] {
            cases.push(t.repeat(n));
        }
    }
    out.push(Family::list("long errors of applications", 0, cases, |t| {
        let s = "short".to_string();
        for (a, b, c) in [(t, &s, &s), (&s, t, &s), (&s, &s, t), (t, t, t)] {
            app_error(a, &Some(Cause(b.clone(), None)), &Some(vec!["first".into(), c.clone(), "last".into()]))?;
        }
        for kind in [ErrorKind::Invalid, ErrorKind::Other] {
            let e: Error = kind.cause(t.clone()).into();
            let e = trackable::track!(e, "{}", t);
            let status = status_of(400);
            let want = Spec {
                history: e.history().map(|h| h.events().iter().map(|e| e.to_string()).collect()),
                detail: std::error::Error::source(&e).map(|c| c.to_string()),
                ..Spec::trackable(400, &e.to_string())
            };
            wire_of(move || Problem::trackable(status, e.clone()).into_response(), want)?;
        }
        Ok(())
    }));
    let mut cases = Vec::new();
    for t in ["", "title"] {
        for d in [None, Some(""), Some("detail")] {
            for i in [None, Some("about:blank"), Some("http://example.com/x?y=z")] {
                for h in histories() {
                    cases.push((t, d, i, h));
                }
            }
        }
    }
    out.push(Family::list("combinations of members", 0, cases, |(t, d, i, h)| {
        let spec = Spec {
            detail: d.map(|d| d.into()),
            instance: i.map(|i| i.into()),
            history: h.clone(),
            ..Spec::trackable(409, t)
        };
        for f in [Form::Plain, Form::Replaced, Form::InEnum] {
            returned(Client::Plain, Get, f, &spec)?;
        }
        Ok(())
    }));
    // texts
    let alphabet: Vec<char> = vec!['a', '"', '\\', '/', '\n', '\r', '\0', '\u{7f}', '\u{2028}', 'é', '😀', '{', ',', ' ', 'u'];
    let mut texts = words();
    texts.extend(combos(&alphabet, 1));
    texts.extend(combos(&alphabet, 2));
    texts.extend(combos(&alphabet, 3));
    if !quick {
        texts.extend(combos(&alphabet, 4));
    }
    for n in super::args::lengths().into_iter().chain([4095, 4096, 4097, 5000, 8095, 8096, 8097, 16_384, 65_535, 65_536, 65_537, 200_000]) {
        for t in ["x", "é", "\"", "\u{1}", "long "] {
            texts.push(t.repeat(n));
        }
    }
    out.push(Family::list("texts", 0, texts, |t| {
        texts_case(t)
    }));
    out.push(Family::new(
        "every character",
        0x110000 / 256,
        0,
        |i| format!("U+{:04X}..", i * 256),
        |i| {
            let t: String = (i * 256..i * 256 + 256).filter_map(|c| char::from_u32(c as u32)).collect();
            texts_case(&t)
        },
    ));
    let urls = [
        "http://example.com/", "http://example.com/a%20b?c=d&e#f", "urn:uuid:0-1", "about:blank", "mailto:a@b", "data:,x%22y",
        "http://u:p@[::1]:8080/%E3%81%82?x=%22%5C", "file:///a/b", "tag:x,2000:y", "http://xn--r8jz45g.jp/",
    ];
    let mut insts = Vec::new();
    for u in urls {
        for h in [None, Some(vec![]), Some(vec!["".to_string()]), Some(vec!["a".into(), "b\"\n".into(), "a".into()])] {
            for d in [None, Some("".to_string()), Some("null".into())] {
                insts.push((u, h.clone(), d));
            }
        }
    }
    out.push(Family::list("instances", 0, insts, |(u, h, d)| {
        let spec = Spec {
            detail: d.clone(),
            instance: Some(u.to_string()),
            history: h.clone(),
            ..Spec::trackable(503, "t")
        };
        for f in [Form::Plain, Form::Replaced, Form::InEnum] {
            returned(Client::Plain, Get, f, &spec)?;
        }
        Ok(())
    }));
    out
}
fn methods(m: HttpMethod, target: &str, status: u16) -> Result<(), String> {
    let (mut sim, _server) = server();
    let c = sim::raw_connect(addr(PORT)).ok_or("not listening")?;
    for f in FRAMES {
        let start = sim::with_conn(c, |c| c.pipes[Side::Server as usize].log.len());
        sim::raw_send(c, Side::Client, format!("{} {} HTTP/1.1\r\n{}\r\n{}", m, target, f.0, f.1).as_bytes());
        sim.run();
        let answer = sim::with_conn(c, |c| c.pipes[Side::Server as usize].log[start..].to_vec());
        let msgs = http::parse_all(&answer, &[m == Head])?;
        if msgs.len() != 1 {
            return Err(format!("{} responses", msgs.len()));
        }
        rejection(&msgs[0], m == Head, status)?;
    }
    Ok(())
}
struct Status(u16);
impl Status {
    fn spec(&self) -> Vec<Spec> {
        vec![
            Spec::blank(self.0, reason(self.0)),
            Spec::blank(self.0, ""),
            Spec::trackable(self.0, "title"),
            Spec {
                detail: Some("detail".into()),
                instance: Some("http://example.com/x?y=z".into()),
                history: Some(vec!["one".into(), "two".into()]),
                ..Spec::trackable(self.0, "\"title\"")
            },
        ]
    }
}
fn wire_of(make: impl Fn() -> ProblemResponse + Send + Sync + 'static, want: Spec) -> Result<(), String> {
    let x = exchange(Get, ep(&[Some("r")]), Req::<0>::default(), move |_| make(), |_| {});
    wire(&x.answered, false, &want)?;
    match x.result {
        Some(Ok(ref p)) if Spec::from(p.problem()) == want => Ok(()),
        other => Err(format!("the caller got {}", short(&format!("{:?}", other.map(|r| r.map_err(|e| e.to_string())))))),
    }
}
fn texts_case(t: &str) -> Result<(), String> {
    for f in [Form::Plain, Form::InEnum] {
        returned(Client::Plain, Get, f, &Spec::blank(404, t))?;
        returned(Client::Plain, Get, f, &Spec::trackable(404, t))?;
        let spec = Spec {
            detail: Some(t.to_string()),
            history: Some(vec![t.to_string(), "x".into(), t.to_string()]),
            ..Spec::trackable(400, "")
        };
        returned(Client::Plain, Get, f, &spec)?;
    }
    Ok(())
}
