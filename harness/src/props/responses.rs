//! C04: statuses, headers and bodies of responses.
use super::args::*;
use crate::app::*;
use crate::dynty::*;
use crate::exec::{self, Sim};
use crate::explore::{short, Family};
use crate::http;
use crate::Tier;
use htrpc::types::HttpMethod::{self, *};
use htrpc::{RpcClient, RpcResponse};
use mio::sim::{self, Side};
use serde::{Deserialize, Serialize};

/// The statuses htrpc knows, by code and variant name.
pub const STATUSES: &[(u16, &str)] = &[
    (100, "Continue"), (101, "SwitchingProtocols"), (102, "Processing"),
    (200, "Ok"), (201, "Created"), (202, "Accepted"), (203, "NonAuthoritativeInformation"), (204, "NoContent"),
    (205, "ResetContent"), (206, "PartialContent"), (207, "MultiStatus"), (208, "AlreadyReported"), (226, "ImUsed"),
    (300, "MultipleChoices"), (301, "MovedPermanently"), (302, "Found"), (303, "SeeOther"), (304, "NotModified"),
    (305, "UseProxy"), (307, "TemporaryRedirect"), (308, "PermanentRedirect"),
    (400, "BadRequest"), (401, "Unauthorized"), (402, "PaymentRequired"), (403, "Forbidden"), (404, "NotFound"),
    (405, "MethodNotAllowed"), (406, "NotAcceptable"), (407, "ProxyAuthenticationRequired"), (408, "RequestTimeout"),
    (409, "Conflict"), (410, "Gone"), (411, "LengthRequired"), (412, "PreconditionFailed"), (413, "PayloadTooLarge"),
    (414, "UriTooLong"), (415, "UnsupportedMediaType"), (416, "RangeNotSatisfiable"), (417, "ExceptionFailed"),
    (418, "ImATeapot"), (421, "MisdirectedRequest"), (422, "UnprocessableEntity"), (423, "Locked"),
    (424, "FailedDependency"), (426, "UpgradeRequired"), (451, "UnavailableForLegalReasons"),
    (500, "InternalServerError"), (501, "NotImplemented"), (502, "BadGateway"), (503, "ServiceUnavailable"),
    (504, "GatewayTimeout"), (505, "HttpVersionNotSupported"), (506, "VariantAlsoNegotiates"),
    (507, "InsufficientStorage"), (508, "LoopDetected"), (509, "BandwidthLimitExceeded"), (510, "NotExtended"),
];

/// How a response is written down.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Form {
    Status,
    OptStatus,
    Unit,
    Struct,
    Newtype,
}
pub const FORMS: &[Form] = &[Form::Status, Form::OptStatus, Form::Unit, Form::Struct, Form::Newtype];

fn hty(h: &Option<Fields>) -> Option<FieldsTy> {
    h.as_ref().map(|f| match f {
        Fields::Struct(v) => FieldsTy::strukt(v.iter().map(|(n, v)| (*n, v.ty())).collect()),
        Fields::Map(t, _) => FieldsTy::Map(t.clone()),
    })
}
/// The response, its type, and what the caller must get.
pub fn build(form: Form, code: u16, name: &'static str, header: Option<Fields>, body: &[u8]) -> (Resp<0>, RespTy, Resp<0>) {
    let header = if form == Form::Unit { None } else { header };
    let t = hty(&header);
    // enums: some other variants around
    let others = |v: Variant| {
        let mut l = vec![(name, v)];
        for (n, o) in [("Ok", Variant::Unit), ("NotFound", Variant::Struct(None)), ("InternalServerError", Variant::Newtype(None))] {
            if n != name {
                l.push((n, o));
            }
        }
        RespTy::enums(l)
    };
    let (kind, ty) = match form {
        Form::Status => (RespKind::Status(code), RespTy::Status(t)),
        Form::OptStatus => (RespKind::OptStatus(Some(code)), RespTy::OptStatus(t)),
        Form::Unit => (RespKind::Unit(name), others(Variant::Unit)),
        Form::Struct => (RespKind::Struct(name), others(Variant::Struct(t))),
        Form::Newtype => (RespKind::Newtype(name, Some(code)), others(Variant::Newtype(t))),
    };
    let want = Resp {
        kind: match kind {
            RespKind::Newtype(n, _) => RespKind::Newtype(n, None),
            ref k => k.clone(),
        },
        header: header.clone(),
        body: body.to_vec(),
    };
    let resp = Resp {
        kind,
        header,
        body: body.to_vec(),
    };
    (resp, ty, want)
}

fn roundtrip(
    client: Client,
    method: HttpMethod,
    form: Form,
    status: (u16, &'static str),
    header: Option<Fields>,
    body: &[u8],
) -> Result<(), String> {
    let (resp, ty, mut want) = build(form, status.0, status.1, header, body);
    if method == Head {
        want.body.clear();
    }
    let x = exchange_by(
        client,
        method,
        ep(&[Some("r")]),
        Req::<0>::default(),
        move |_| resp.clone(),
        |_| set_resp(0, ty),
    );
    if x.server_ended {
        return Err("the server ended".into());
    }
    if x.log.len() != 1 {
        return Err(format!("the handler ran {} times", x.log.len()));
    }
    let all = http::parse_all(&x.answered, &[method == Head])?;
    if all.len() != 1 || all[0].status() != status.0 {
        return Err(format!("on the wire: {:?}", short(&String::from_utf8_lossy(&x.answered))));
    }
    match x.result {
        None => Err("the call does not settle".into()),
        Some(Err(e)) => Err(format!("the call failed: {}", short(&e.to_string()))),
        Some(Ok(r)) => {
            if format!("{:?}", r) != format!("{:?}", want) {
                Err(format!("the caller got {:?} instead of {:?}", r, want))
            } else {
                Ok(())
            }
        }
    }
}
fn headers() -> Vec<Option<Fields>> {
    vec![
        None,
        Some(Fields::Struct(vec![("x-a", s("v")), ("X-B", some(V::I32(-5))), ("x-c", V::None(Ty::Bool))])),
        Some(Fields::Struct(vec![])),
    ]
}
fn bodies() -> Vec<Vec<u8>> {
    vec![
        vec![],
        b"x".to_vec(),
        b"\r\n\r\nHTTP/1.1 500 Internal Server Error\r\nContent-Length: 0\r\n\r\n".to_vec(),
        (0..=255).collect(),
        vec![b'z'; 5000],
    ]
}

/// One call to a server played by the harness, which answers with the given bytes and closes.
pub fn raw_answer(ty: RespTy, answer: &[u8], close: bool) -> (Option<Result<Resp<0>, String>>, usize) {
    exec::fresh();
    set_resp(0, ty);
    define(0, Get, ep(&[Some("r")]));
    sim::raw_listen(addr(PORT));
    let mut s = Sim::new();
    let mut client = RpcClient::new(addr(PORT));
    let call = s.run_fut("call", client.call::<Dp<0>>(Req::default()));
    s.run();
    if let Some(c) = sim::raw_accept(addr(PORT)) {
        sim::raw_recv(c, Side::Server);
        sim::raw_send(c, Side::Server, answer);
        if close {
            sim::raw_close(c, Side::Server);
        }
        s.run();
    }
    (call.take().map(|r| r.map_err(|e| e.to_string())), sim::conn_count())
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum DerivedEnum {
    Ok { header: DH },
    Created { header: DH },
    NotFound,
    Conflict(DInner),
    ImATeapot,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct DH {
    #[serde(rename = "x-len")]
    len: u32,
    #[serde(rename = "X-Opt")]
    opt: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct DInner {
    status: Option<u16>,
    header: DH,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct DerivedStruct {
    status: u16,
    header: DH,
    #[serde(skip)]
    body: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq)]
struct WithBody(DerivedEnum, Vec<u8>);
impl Serialize for WithBody {
    fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(z)
    }
}
impl<'de> Deserialize<'de> for WithBody {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(WithBody(DerivedEnum::deserialize(d)?, Vec::new()))
    }
}
impl RpcResponse for WithBody {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(std::mem::take(&mut self.1))
    }
    fn set_body(&mut self, body: Vec<u8>) {
        self.1 = body
    }
}
impl RpcResponse for DerivedStruct {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(std::mem::take(&mut self.body))
    }
    fn set_body(&mut self, body: Vec<u8>) {
        self.body = body
    }
}
fn typed<S: RpcResponse + Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static>(resp: S, want: S) -> Result<(), String> {
    let r = resp.clone();
    let x = exchange(Post, ep(&[Some("r")]), Req::<0>::default(), move |_| r.clone(), |_| {});
    match x.result {
        Some(Ok(ref r)) if *r == want => Ok(()),
        other => Err(format!(
            "the caller got {:?} instead of {:?}",
            other.map(|r| r.map_err(|e| short(&e.to_string()))),
            want
        )),
    }
}

/// Structures whose status field has another type.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Code(u16);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct OptCode(Option<u16>);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct StatusOf<T> {
    status: T,
    #[serde(skip)]
    body: Vec<u8>,
}
impl<T: Serialize + for<'de> Deserialize<'de>> RpcResponse for StatusOf<T> {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(std::mem::take(&mut self.body))
    }
    fn set_body(&mut self, body: Vec<u8>) {
        self.body = body
    }
}
fn status_of<T>(status: T) -> Result<(), String>
where
    T: Serialize + for<'de> Deserialize<'de> + Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static,
{
    let r = StatusOf { status, body: b"body".to_vec() };
    typed(r.clone(), r)
}

pub fn c04(tier: Tier) -> Vec<Family> {
    let mut out = Vec::new();
    let mut cases = Vec::new();
    for st in STATUSES {
        for f in FORMS {
            for m in [Get, Post, Head, Options] {
                cases.push((*st, *f, m));
            }
        }
    }
    out.push(Family::list("statuses and forms", 0, cases, |(st, f, m)| {
        for c in [Client::Plain, Client::Pooled] {
            for h in headers() {
                for b in bodies() {
                    roundtrip(c, *m, *f, *st, h.clone(), &b)?;
                }
            }
        }
        Ok(())
    }));
    let mut cases = Vec::new();
    for m in METHODS {
        for f in FORMS {
            cases.push((*m, *f));
        }
    }
    out.push(Family::list("methods", 0, cases, |(m, f)| {
        for st in STATUSES {
            roundtrip(Client::Plain, *m, *f, *st, headers().remove(1), b"some body")?;
        }
        Ok(())
    }));
    let mut cases = Vec::new();
    for st in STATUSES {
        for f in FORMS {
            cases.push((*st, *f));
        }
    }
    out.push(Family::list("newtype wrappers", 0, cases, |(st, f)| {
        for i in 1..4 {
            with_wrap(Wrap { whole: i & 1 != 0, path: false, fields: i & 2 != 0 }, || {
                for h in headers() {
                    roundtrip(Client::Plain, Get, *f, *st, h, b"body")?;
                }
                Ok::<(), String>(())
            })?;
        }
        Ok(())
    }));
    // any code a handler may put into a status field
    out.push(Family::new(
        "status field values",
        65536,
        0,
        |i| format!("status {}", i),
        |i| {
            let code = i as u16;
            let known = STATUSES.iter().any(|s| s.0 == code);
            for f in [Form::Status, Form::OptStatus] {
                let (resp, ty, want) = build(f, code, "Ok", None, b"b");
                let x = exchange(Get, ep(&[Some("r")]), Req::<0>::default(), move |_| resp.clone(), |_| set_resp(0, ty));
                match x.result {
                    Some(Ok(ref r)) if *r == want => {}
                    Some(Err(_)) if !known => {}
                    other => return Err(format!("{:?}", other.map(|r| r.map_err(|e| short(&e.to_string()))))),
                }
                if x.server_ended {
                    return Err("the server ended".into());
                }
            }
            Ok(())
        },
    ));
    // variant names htrpc does not know
    let mut names: Vec<&'static str> = vec!["", "ok", "OK", "Okay", "200", "Unknown", "Ok ", "ExpectationFailed", "IamATeapot", "Status"];
    names.extend(STATUSES.iter().map(|s| leak(&s.1.to_lowercase())));
    names.extend(STATUSES.iter().map(|s| leak(&s.1[1..])));
    out.push(Family::list("unknown variants", 0, names, |n| {
        for f in [Form::Unit, Form::Struct] {
            let (resp, ty, _) = build(f, 200, n, None, b"b");
            let x = exchange(Get, ep(&[Some("r")]), Req::<0>::default(), move |_| resp.clone(), |_| set_resp(0, ty));
            match x.result {
                Some(Err(_)) => {}
                other => return Err(format!("{:?}", other.map(|r| r.map_err(|e| short(&e.to_string()))))),
            }
        }
        Ok(())
    }));
    // every pair of a returned status and an expected variant
    out.push(Family::new(
        "other variants",
        STATUSES.len() * STATUSES.len(),
        0,
        |i| format!("{:?} declared {:?}", STATUSES[i % STATUSES.len()], STATUSES[i / STATUSES.len()]),
        |i| {
            let (got, decl) = (STATUSES[i % STATUSES.len()], STATUSES[i / STATUSES.len()]);
            for v in [Variant::Unit, Variant::Struct(None), Variant::Newtype(None)] {
                let ty = RespTy::enums(vec![(decl.1, v.clone())]);
                let want = match v {
                    Variant::Unit => RespKind::Unit(decl.1),
                    Variant::Struct(_) => RespKind::Struct(decl.1),
                    Variant::Newtype(_) => RespKind::Newtype(decl.1, None),
                };
                let x = exchange(
                    Get,
                    ep(&[Some("r")]),
                    Req::<0>::default(),
                    move |_| Resp::<0>::status(got.0, b"b"),
                    |_| set_resp(0, ty),
                );
                match x.result {
                    Some(Ok(ref r)) if got == decl && r.kind == want && r.body == b"b" => {}
                    Some(Err(_)) if got != decl => {}
                    other => return Err(format!("{:?}", other.map(|r| r.map_err(|e| short(&e.to_string()))))),
                }
            }
            Ok(())
        },
    ));
    // every code a server may send
    out.push(Family::new(
        "status codes on the wire",
        1000,
        0,
        |i| format!("HTTP/1.1 {:03}", i),
        |i| {
            let code = i as u16;
            let all: Vec<(&'static str, Variant)> = STATUSES.iter().map(|s| (s.1, Variant::Unit)).collect();
            for reason in ["OK", "", "Not Found", "x y z"] {
                let a = format!("HTTP/1.1 {:03} {}\r\ncontent-length: 2\r\n\r\nhi", code, reason);
                match raw_answer(RespTy::Status(None), a.as_bytes(), false).0 {
                    Some(Ok(r)) if r.kind == RespKind::Status(code) && r.body == b"hi" => {}
                    Some(Err(_)) if code < 100 => {}
                    other => return Err(format!("status field: {:?}", other)),
                }
                let known = STATUSES.iter().find(|s| s.0 == code);
                match (raw_answer(RespTy::enums(all.clone()), a.as_bytes(), false).0, known) {
                    (Some(Ok(r)), Some(k)) if r.kind == RespKind::Unit(k.1) && r.body == b"hi" => {}
                    (Some(Err(_)), None) => {}
                    (other, _) => return Err(format!("enum: {:?}", other)),
                }
            }
            Ok(())
        },
    ));
    out.push(Family::list("types of statuses", 0, STATUSES.to_vec(), |(c, _)| {
        status_of(*c)?;
        status_of(*c as i16)?;
        status_of(*c as i32)?;
        status_of(*c as u32)?;
        status_of(*c as i64)?;
        status_of(*c as u64)?;
        status_of(Code(*c))?;
        status_of(Some(*c))?;
        status_of(Some(Code(*c)))?;
        status_of(OptCode(Some(*c)))?;
        match u8::try_from(*c) {
            Ok(c) => status_of(c),
            Err(_) => Ok(()),
        }
    }));
    // a header field which is declared before the status
    out.push(Family::list("orders of fields", 0, STATUSES.to_vec(), |(c, n)| {
        for h in headers() {
            let (resp, ty, want) = build(Form::Status, *c, n, h.clone(), b"b");
            let x = with_order([1, 0, 2], || {
                exchange(Get, ep(&[Some("r")]), Req::<0>::default(), move |_| resp.clone(), |_| set_resp(0, ty))
            });
            match x.result {
                Some(Ok(ref r)) if format!("{:?}", r) == format!("{:?}", want) => {}
                Some(Err(_)) if h.is_some() => {}
                other => return Err(format!("{:?}", other.map(|r| r.map_err(|e| short(&e.to_string()))))),
            }
        }
        Ok(())
    }));
    // derived types
    let mut cases = Vec::new();
    for len in [0u32, 1, u32::MAX] {
        for opt in [None, Some("o, p".to_string())] {
            for body in bodies() {
                cases.push((len, opt.clone(), body));
            }
        }
    }
    out.push(Family::list("derived types", 0, cases, |(len, opt, body)| {
        let h = || DH { len: *len, opt: opt.clone() };
        for (e, w) in [
            (DerivedEnum::Ok { header: h() }, DerivedEnum::Ok { header: h() }),
            (DerivedEnum::Created { header: h() }, DerivedEnum::Created { header: h() }),
            (DerivedEnum::NotFound, DerivedEnum::NotFound),
            (DerivedEnum::ImATeapot, DerivedEnum::ImATeapot),
            (
                DerivedEnum::Conflict(DInner { status: Some(409), header: h() }),
                DerivedEnum::Conflict(DInner { status: None, header: h() }),
            ),
        ] {
            typed(WithBody(e, body.clone()), WithBody(w, body.clone()))?;
        }
        for st in STATUSES {
            let d = DerivedStruct { status: st.0, header: h(), body: body.clone() };
            typed(d.clone(), d)?;
        }
        Ok(())
    }));
    // bodies of every length around the buffer sizes
    let lens: Vec<usize> = if tier == Tier::Quick {
        (0..80).chain((900..1100).step_by(7)).chain([2047, 2048, 2049, 4096, 8000, 8095, 8096, 8097, 20000, 65536]).collect()
    } else {
        (0..9000).chain([16384, 65535, 65536, 65537, 1_000_000]).collect()
    };
    out.push(Family::list("body lengths", 0, lens, |n| {
        let b: Vec<u8> = (0..*n).map(|i| (i * 7 + i / 256) as u8).collect();
        for m in [Get, Head] {
            roundtrip(Client::Plain, m, Form::Status, (200, "Ok"), None, &b)?;
            roundtrip(Client::Pooled, m, Form::Struct, (201, "Created"), headers().remove(1), &b)?;
        }
        Ok(())
    }));
    out
}
