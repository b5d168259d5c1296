use crate::explore::Family;
use crate::Tier;

pub mod adapters;
pub mod args;
pub mod bodies;
pub mod client;
pub mod headers;
pub mod hostile;
pub mod isolation;
pub mod once;
pub mod pool;
pub mod problems;
pub mod responses;
pub mod routing;
pub mod sequences;
pub mod sizes;
pub mod validation;

pub struct Prop {
    pub id: &'static str,
    pub families: fn(Tier) -> Vec<Family>,
    pub assumptions: &'static [&'static str],
}
pub const COMMON: &[&str] = &[
    "a poll of one fiber is atomic; fibers interact only through channels and sockets",
    "fibers 0.1.13 (vendored, introspection added), miasht, handy_async, futures, serde and url behave as the pinned versions",
    "the simulated mio offers the behaviours of edge/oneshot epoll sockets",
];
/// Every property has an executable of its own which contains nothing but its families.
const fn is(name: &str) -> bool {
    let (a, b) = (env!("CARGO_BIN_NAME").as_bytes(), name.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn find(id: &str) -> Option<Prop> {
    macro_rules! p {
        ($id:expr, $f:path) => {{
            const IS: bool = is($id);
            if IS && id == $id {
                return Some(Prop {
                    id: $id,
                    families: $f,
                    assumptions: COMMON,
                });
            }
        }};
    }
    p!("C01", args::c01);
    p!("C02", args::c02);
    p!("C03", headers::c03);
    p!("C04", responses::c04);
    p!("C05", bodies::c05);
    p!("C06", routing::c06);
    p!("C07", hostile::c07);
    p!("C08", sequences::c08);
    p!("C09", isolation::c09);
    p!("C10", client::c10);
    p!("C11", pool::c11);
    p!("C12", pool::c12);
    p!("C13", pool::c13);
    p!("C14", pool::c14);
    p!("C15", problems::c15);
    p!("C16", adapters::c16);
    p!("C17", routing::c17);
    p!("C18", validation::c18);
    p!("C19", sizes::c19);
    p!("C20", once::c20);
    None
}
