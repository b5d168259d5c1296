// The procedures of the conformance traces; shared by the simulated and the real side.
use futures::Future;
use htrpc::types::{EntryPoint, HttpMethod, NeverFail};
use htrpc::{BodyReader, Error, FutureExt, HandleRpc, Procedure, ReadBody, RpcRequest, RpcResponse, RpcServerBuilder};
use serde::{Deserialize, Serialize};

/// `POST /echo/{}?q=..` with a body.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Req {
    pub path: (String,),
    pub query: Query,
    #[serde(skip)]
    pub body: Vec<u8>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Query {
    pub q: u32,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Head {
    #[serde(rename = "X-Path")]
    pub path: String,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Res {
    pub status: u16,
    pub header: Head,
    #[serde(skip)]
    pub body: Vec<u8>,
}
impl RpcRequest for Req {
    fn body(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.body)
    }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        Box::new(body.read_all_bytes().map_err(Error::from).map(move |(r, b)| {
            self.body = b;
            (r, self)
        }))
    }
}
impl RpcResponse for Res {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(std::mem::take(&mut self.body))
    }
    fn set_body(&mut self, b: Vec<u8>) {
        self.body = b
    }
}
macro_rules! proc_ {
    ($n:ident, $m:ident) => {
        pub struct $n;
        impl Procedure for $n {
            type Request = Req;
            type Response = Res;
            fn method() -> HttpMethod {
                HttpMethod::$m
            }
            fn entry_point() -> EntryPoint {
                static S: &[htrpc::types::PathSegment] =
                    &[htrpc::types::PathSegment::Val("echo"), htrpc::types::PathSegment::Var];
                EntryPoint::new(S)
            }
        }
        impl HandleRpc<$n> for Echo {
            type Future = futures::Finished<Res, NeverFail>;
            fn handle_rpc(self, r: Req) -> Self::Future {
                let mut body = format!("{}:", r.query.q).into_bytes();
                body.extend(r.body);
                futures::finished(Res { status: 200, header: Head { path: r.path.0 }, body })
            }
        }
    };
}
#[derive(Clone)]
pub struct Echo;
proc_!(Post, Post);
proc_!(Get, Get);
proc_!(HeadP, Head);

pub fn register(b: &mut RpcServerBuilder) {
    b.register(Echo, Post).unwrap();
    b.register(Echo, Get).unwrap();
    b.register(Echo, HeadP).unwrap();
}
pub fn request(n: usize, body: usize) -> Req {
    Req {
        path: (format!("p {}/{}", n, body),),
        query: Query { q: n as u32 },
        body: (0..body).map(|i| b'a' + (i % 26) as u8).collect(),
    }
}
pub fn show(r: Result<Res, Error>) -> String {
    match r {
        Ok(r) => format!("ok {} {:?} {}:{}", r.status, r.header.path, r.body.len(), String::from_utf8_lossy(&r.body[..r.body.len().min(40)])),
        Err(_) => "error".to_string(),
    }
}

/// What a trace does. Connections are numbered in the order in which they are made or accepted.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Op {
    /// A raw connection to the htrpc server.
    Connect,
    /// Call number k (they are numbered in order) to the peer at `peer`, by the pool or not.
    Call { pooled: bool, peer: usize, body: usize, method: String },
    /// The next connection made to the hand-played server `peer`.
    Accept { peer: usize },
    Send { conn: usize, bytes: String },
    /// `n` bytes `x`.
    Fill { conn: usize, n: usize },
    Half { conn: usize },
    Close { conn: usize },
    Reset { conn: usize },
    /// The peer does not listen any more.
    Unlisten { peer: usize },
    /// From now on the played side of the connection does not read until `Read`.
    Hold { conn: usize },
    Read { conn: usize },
}
/// What can be seen after it: per connection the received bytes and whether it is closed, per call the result.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
pub struct Seen {
    pub conns: Vec<(String, bool)>,
    pub calls: Vec<Option<String>>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Trace {
    pub name: String,
    pub steps: Vec<(Op, Seen)>,
}
