//! C06, C17: dispatch over sets of procedures, against a reference matcher.
use crate::app::*;
use crate::dynty::*;
use crate::exec::{self, Handle, Outcome, Sim};
use crate::explore::{short, Family};
use crate::http::{self, Parsed};
use crate::Tier;
use super::args::METHODS;
use htrpc::types::EntryPoint;
use htrpc::types::HttpMethod::{self, *};
use htrpc::{RpcClient, RpcServerBuilder};
use mio::sim::{self, Side};

/// Segments of an entry point; `None`: variable.
pub type Segs = Vec<Option<&'static str>>;

/// A procedure to be registered in the slot of the same number.
#[derive(Debug, Clone, PartialEq)]
pub struct Proc {
    pub method: HttpMethod,
    pub segs: Segs,
}

pub const SLOTS: usize = 44;
macro_rules! by_slot {
    ($slot:expr, $f:ident, $($x:expr),*) => {
        match $slot {
            0 => $f::<0>($($x),*),
            1 => $f::<1>($($x),*),
            2 => $f::<2>($($x),*),
            3 => $f::<3>($($x),*),
            4 => $f::<4>($($x),*),
            5 => $f::<5>($($x),*),
            6 => $f::<6>($($x),*),
            7 => $f::<7>($($x),*),
            8 => $f::<8>($($x),*),
            9 => $f::<9>($($x),*),
            10 => $f::<10>($($x),*),
            11 => $f::<11>($($x),*),
            12 => $f::<12>($($x),*),
            13 => $f::<13>($($x),*),
            14 => $f::<14>($($x),*),
            15 => $f::<15>($($x),*),
            16 => $f::<16>($($x),*),
            17 => $f::<17>($($x),*),
            18 => $f::<18>($($x),*),
            19 => $f::<19>($($x),*),
            20 => $f::<20>($($x),*),
            21 => $f::<21>($($x),*),
            22 => $f::<22>($($x),*),
            23 => $f::<23>($($x),*),
            24 => $f::<24>($($x),*),
            25 => $f::<25>($($x),*),
            26 => $f::<26>($($x),*),
            27 => $f::<27>($($x),*),
            28 => $f::<28>($($x),*),
            29 => $f::<29>($($x),*),
            30 => $f::<30>($($x),*),
            31 => $f::<31>($($x),*),
            32 => $f::<32>($($x),*),
            33 => $f::<33>($($x),*),
            34 => $f::<34>($($x),*),
            35 => $f::<35>($($x),*),
            36 => $f::<36>($($x),*),
            37 => $f::<37>($($x),*),
            38 => $f::<38>($($x),*),
            39 => $f::<39>($($x),*),
            40 => $f::<40>($($x),*),
            41 => $f::<41>($($x),*),
            42 => $f::<42>($($x),*),
            43 => $f::<43>($($x),*),
            n => panic!("no slot {}", n),
        }
    };
}

/// Registers the procedure of a slot; its variables are strings.
fn register(b: &mut RpcServerBuilder, slot: usize) -> Result<(), htrpc::Error> {
    fn reg<const N: usize>(b: &mut RpcServerBuilder) -> Result<(), htrpc::Error> {
        b.register(Handler::now(N, |_| Resp::<N>::status(200, format!("slot {}", N).as_bytes())), Dp::<N>::new())
    }
    by_slot!(slot, reg, b)
}
fn call(sim: &mut Sim, slot: usize, args: &[&str]) -> Handle<Result<(u16, Vec<u8>), String>> {
    fn go<const N: usize>(sim: &mut Sim, args: &[&str]) -> Handle<Result<(u16, Vec<u8>), String>> {
        use futures::Future;
        let mut c = RpcClient::new(addr(PORT));
        let req = Req::<N> {
            path: Some(Path::Tuple(args.iter().map(|a| s(a)).collect())),
            ..Req::default()
        };
        sim.run_fut(
            "call",
            c.call::<Dp<N>>(req).map_err(|e| e.to_string()).map(|r| match r.kind {
                RespKind::Status(c) => (c, r.body),
                _ => (0, r.body),
            }),
        )
    }
    by_slot!(slot, go, sim, args)
}
fn debug_req(args: &[String]) -> String {
    format!(
        "{:?}",
        Req::<0> {
            path: Some(Path::Tuple(args.iter().map(|a| s(a)).collect())),
            ..Req::default()
        }
    )
}

/// A server with these procedures, registered in the given order. The registrations which are
/// refused are returned.
pub fn serve(procs: &[Proc], order: &[usize]) -> (Sim, Handle<Result<(), htrpc::Error>>, Vec<usize>) {
    let entry_points: Vec<EntryPoint> = procs.iter().map(|p| ep(&p.segs)).collect();
    serve_at(procs, &entry_points, order)
}
fn serve_at(procs: &[Proc], entry_points: &[EntryPoint], order: &[usize]) -> (Sim, Handle<Result<(), htrpc::Error>>, Vec<usize>) {
    exec::fresh();
    for (i, p) in procs.iter().enumerate() {
        define(i, p.method, entry_points[i]);
        let n = p.segs.iter().filter(|s| s.is_none()).count();
        set_req(
            i,
            ReqTy {
                path: Some(PathTy::Tuple(vec![Ty::Str; n])),
                query: None,
                header: None,
            },
        );
    }
    let mut b = RpcServerBuilder::new(addr(PORT));
    let mut refused = Vec::new();
    for i in order {
        if register(&mut b, *i).is_err() {
            refused.push(*i);
        }
    }
    let mut sim = Sim::new();
    let h = start_server(&mut sim, PORT, b);
    sim.run();
    (sim, h, refused)
}

fn decode(seg: &str) -> Option<String> {
    let b = seg.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = seg.get(i + 1..i + 3)?;
            if !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                return None;
            }
            out.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}

#[derive(Debug, Clone, PartialEq)]
pub enum Want {
    /// This slot, with these arguments.
    Run(usize, Vec<String>),
    Status(u16),
}
/// The reference: which of the procedures a request selects.
pub fn reference(procs: &[Proc], method: HttpMethod, segments: &[&str]) -> Want {
    let decoded: Vec<Option<String>> = segments.iter().map(|s| decode(s)).collect();
    let matches = |p: &Proc| -> bool {
        let root: Segs = vec![Some("")];
        let segs = if p.segs.is_empty() { &root } else { &p.segs };
        segs.len() == decoded.len()
            && segs.iter().zip(&decoded).all(|(s, d)| match *s {
                None => true,
                Some(c) => d.as_ref().map_or(false, |d| d == c),
            })
    };
    let hits: Vec<usize> = (0..procs.len()).filter(|i| matches(&procs[*i])).collect();
    if hits.is_empty() {
        return Want::Status(404);
    }
    // constants sort before variables, segment by segment
    let best = hits
        .iter()
        .cloned()
        .filter(|i| procs[*i].method == method)
        .min_by_key(|i| procs[*i].segs.iter().map(|s| s.is_none()).collect::<Vec<_>>());
    match best {
        None => Want::Status(405),
        Some(i) => {
            let mut args = Vec::new();
            for (s, d) in procs[i].segs.iter().zip(&decoded) {
                if s.is_none() {
                    match d {
                        Some(d) => args.push(d.clone()),
                        None => return Want::Status(400),
                    }
                }
            }
            Want::Run(i, args)
        }
    }
}

/// Sends one request on a connection of its own; the answer and the handler runs.
fn ask(sim: &mut Sim, method: HttpMethod, target: &str) -> Result<(u16, Vec<u8>, Vec<(usize, String)>), String> {
    let c = sim::raw_connect(addr(PORT)).ok_or("the server does not listen")?;
    let before = log_len();
    sim::raw_send(c, Side::Client, format!("{} {} HTTP/1.1\r\nHost: h\r\n\r\n", method, target).as_bytes());
    if sim.run() == Outcome::StepLimit {
        return Err("the server does not come to rest".into());
    }
    let bytes = sim::raw_recv(c, Side::Client);
    sim::raw_close(c, Side::Client);
    let runs = log_from(before);
    match http::parse(&bytes, method == Head) {
        Parsed::Complete(m, n) if n == bytes.len() => Ok((m.status(), m.body, runs)),
        other => Err(format!("{} {}: answered by {}", method, target, short(&format!("{:?}", other)))),
    }
}
fn judge(what: &str, procs: &[Proc], method: HttpMethod, want: &Want, got: (u16, Vec<u8>, Vec<(usize, String)>)) -> Result<(), String> {
    let ok = match *want {
        Want::Run(slot, ref args) => {
            got.0 == 200
                && (method == Head || got.1 == format!("slot {}", slot).into_bytes())
                && got.2 == vec![(slot, debug_req(args))]
        }
        Want::Status(c) => got.0 == c && got.2.is_empty(),
    };
    if ok {
        Ok(())
    } else {
        Err(format!(
            "{}: want {:?}, got status {} and runs {} (procedures {:?})",
            what,
            want,
            got.0,
            short(&format!("{:?}", got.2)),
            procs
        ))
    }
}
fn target(segments: &[&str]) -> String {
    format!("/{}", segments.join("/"))
}

/// All requests over the given segments and methods against one set of procedures.
fn all_requests(procs: &[Proc], order: &[usize], alphabet: &[&str], depth: usize, methods: &[HttpMethod]) -> Result<(), String> {
    let (mut sim, server, refused) = serve(procs, order);
    if !refused.is_empty() {
        return Err(format!("registrations {:?} of {:?} refused", refused, procs));
    }
    let mut paths: Vec<Vec<&str>> = alphabet.iter().map(|s| vec![*s]).collect();
    let mut last = paths.clone();
    for _ in 1..depth {
        let mut next = Vec::new();
        for p in &last {
            for s in alphabet {
                let mut q = p.clone();
                q.push(*s);
                next.push(q);
            }
        }
        paths.extend(next.iter().cloned());
        last = next;
    }
    all_paths(&mut sim, procs, &paths, methods)?;
    if server.is_done() {
        return Err("the server ended".into());
    }
    Ok(())
}

/// Requests for all paths with all methods.
fn all_paths(sim: &mut Sim, procs: &[Proc], paths: &[Vec<&str>], methods: &[HttpMethod]) -> Result<(), String> {
    for p in paths {
        for m in methods {
            let want = reference(procs, *m, p);
            let got = ask(sim, *m, &target(p))?;
            judge(&format!("{} {}", m, target(p)), procs, *m, &want, got)?;
        }
    }
    Ok(())
}
const WORDS: &[&str] = &["", "a", "aa", "ab", "b", "ba", "z", "A", ":a", "*"];
/// Sets of constants at one position of otherwise equal entry points.
fn constant_sets(k: usize, words: &[&'static str]) -> Vec<Vec<Proc>> {
    let mut out = Vec::new();
    for around in 0..5 {
        for ix in subsets(words.len(), k) {
            out.push(
                ix.iter()
                    .map(|i| {
                        let w = Some(words[*i]);
                        Proc {
                            method: Get,
                            segs: match around {
                                0 => vec![w],
                                1 => vec![Some("p"), w],
                                2 => vec![w, Some("q")],
                                3 => vec![None, w],
                                _ => vec![w, None],
                            },
                        }
                    })
                    .collect(),
            );
        }
    }
    out
}
fn constant_requests(set: &[Proc], order: &[usize]) -> Result<(), String> {
    let (mut sim, server, refused) = serve(set, order);
    if !refused.is_empty() {
        return Err(format!("registrations {:?} of {:?} refused", refused, set));
    }
    let mut paths: Vec<Vec<&str>> = Vec::new();
    for w in WORDS.iter().chain(&["aaa", "c"]) {
        paths.push(vec![w]);
        for v in ["p", "q", "a", ""] {
            paths.push(vec![v, w]);
            paths.push(vec![w, v]);
        }
    }
    all_paths(&mut sim, set, &paths, &[Get])?;
    paths.reverse();
    all_paths(&mut sim, set, &paths, &[Post, Get])?;
    if server.is_done() {
        return Err("the server ended".into());
    }
    Ok(())
}
/// All entry points up to the given length.
pub fn entry_points(constants: &[&'static str], depth: usize) -> Vec<Segs> {
    let mut alphabet: Vec<Option<&'static str>> = constants.iter().map(|c| Some(*c)).collect();
    alphabet.push(None);
    let mut out: Vec<Segs> = vec![vec![]];
    let mut last: Vec<Segs> = vec![vec![]];
    for _ in 0..depth {
        let mut next = Vec::new();
        for p in &last {
            for s in &alphabet {
                let mut q = p.clone();
                q.push(*s);
                next.push(q);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
fn root_like(s: &Segs) -> bool {
    s.is_empty() || *s == vec![Some("")]
}
/// The same method and the same entry point; `[]` and `[""]` name the same path.
pub fn conflict(a: &Proc, b: &Proc) -> bool {
    a.method == b.method && (a.segs == b.segs || (root_like(&a.segs) && root_like(&b.segs)))
}
fn no_conflicts(set: &[Proc]) -> bool {
    (0..set.len()).all(|i| (0..i).all(|j| !conflict(&set[i], &set[j])))
}
/// All subsets of `k` elements, as index lists.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for last in (k - 1)..n {
        for mut s in subsets(last, k - 1) {
            s.push(last);
            out.push(s);
        }
    }
    out
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for p in permutations(n - 1) {
        for at in 0..n {
            let mut q = p.clone();
            q.insert(at, n - 1);
            out.push(q);
        }
    }
    out
}
fn cross(eps: &[Segs], methods: &[HttpMethod]) -> Vec<Proc> {
    let mut out = Vec::new();
    for e in eps {
        for m in methods {
            out.push(Proc {
                method: *m,
                segs: e.clone(),
            });
        }
    }
    out
}
fn sets(universe: &[Proc], k: usize) -> Vec<Vec<Proc>> {
    subsets(universe.len(), k)
        .into_iter()
        .map(|ix| ix.iter().map(|i| universe[*i].clone()).collect::<Vec<_>>())
        .filter(|s| no_conflicts(s))
        .collect()
}

pub const ALL_METHODS: &[HttpMethod] = &[Get, Post, Put, Delete, Head, Options, Connect, Trace, Patch];

pub fn c06(tier: Tier) -> Vec<Family> {
    let deep = tier == Tier::Thorough;
    let mut out = Vec::new();
    let requests: &'static [&'static str] = &["a", "b", "c", ""];
    let run = |depth: usize| {
        move |set: &Vec<Proc>| {
            let order: Vec<usize> = (0..set.len()).collect();
            all_requests(set, &order, requests, depth, &[Get, Post, Put])
        }
    };
    // every one and two procedures of up to three segments
    let u3 = cross(&entry_points(&["a", "b"], 3), &[Get, Post]);
    out.push(Family::list("no procedure", 0, vec![Vec::<Proc>::new()], run(3)));
    out.push(Family::list("one procedure", 0, sets(&u3, 1), run(4)));
    let two: Vec<_> = if deep {
        sets(&u3, 2)
    } else {
        // the first one's method can be fixed: renaming methods changes nothing
        sets(&u3, 2).into_iter().filter(|s| s[0].method == Get).collect()
    };
    out.push(Family::list("two procedures", 0, two, run(3)));
    // three procedures of up to two segments, and of exactly three segments
    let u2 = cross(&entry_points(&["a", "b"], 2), &[Get, Post]);
    out.push(Family::list(
        "three procedures",
        0,
        sets(&u2, 3).into_iter().filter(|s| deep || s[0].method == Get).collect(),
        run(2),
    ));
    let e3: Vec<Segs> = entry_points(&["a"], 3).into_iter().filter(|e| e.len() == 3).collect();
    out.push(Family::list("three long procedures", 0, sets(&cross(&e3, &[Get, Post]), 3), |set| {
        let order: Vec<usize> = (0..set.len()).collect();
        all_requests(set, &order, &["a", "c"], 3, &[Get, Post])
    }));
    out.push(Family::list(
        "four procedures",
        0,
        sets(&cross(&entry_points(&["a"], 2), &[Get, Post]), 4),
        |set| {
            let order: Vec<usize> = (0..set.len()).collect();
            all_requests(set, &order, &["a", "c", ""], 2, &[Get, Post, Put])
        },
    ));
    if deep {
        out.push(Family::list(
            "four long procedures",
            0,
            sets(&cross(&e3, &[Get, Post]), 4),
            |set| {
                let order: Vec<usize> = (0..set.len()).collect();
                all_requests(set, &order, &["a", "c"], 3, &[Get, Post])
            },
        ));
        let e4: Vec<Segs> = entry_points(&["a"], 4).into_iter().filter(|e| e.len() == 4).collect();
        out.push(Family::list("three longer procedures", 0, sets(&cross(&e4, &[Get, Post]), 3), |set| {
            let order: Vec<usize> = (0..set.len()).collect();
            all_requests(set, &order, &["a", "c"], 4, &[Get, Post])
        }));
        out.push(Family::list("four procedures of two constants", 0, sets(&u2, 4), |set| {
            let order: Vec<usize> = (0..set.len()).collect();
            all_requests(set, &order, &["a", "b", "c"], 2, &[Get, Post])
        }));
    }
    // subsets of all entry points of one constant, up to eight procedures
    let e2 = entry_points(&["a"], 2);
    let full: Vec<Vec<Proc>> = (1usize..1 << e2.len())
        .map(|bits| {
            (0..e2.len())
                .filter(|i| bits >> i & 1 == 1)
                .enumerate()
                .map(|(k, i)| Proc {
                    method: [Get, Post, Get, Put, Get, Post, Get, Put][k],
                    segs: e2[i].clone(),
                })
                .collect()
        })
        .collect();
    out.push(Family::list("many procedures", 0, full, run(3)));
    // several constants at one position
    let mut cs = constant_sets(3, WORDS);
    cs.extend(constant_sets(4, if deep { WORDS } else { &WORDS[..6] }));
    cs.extend(constant_sets(5, if deep { WORDS } else { &WORDS[..6] }));
    cs.extend(constant_sets(WORDS.len(), WORDS));
    out.push(Family::list("sets of constants", 0, cs, |set| {
        let order: Vec<usize> = (0..set.len()).collect();
        constant_requests(set, &order)?;
        let order: Vec<usize> = (0..set.len()).rev().collect();
        constant_requests(set, &order)
    }));
    // several methods of one entry point
    let ms = subsets(ALL_METHODS.len(), 3);
    out.push(Family::list("sets of methods", 0, ms, |ix| {
        let procs: Vec<Proc> = ix
            .iter()
            .enumerate()
            .flat_map(|(k, i)| {
                let p = |segs: Segs| Proc { method: ALL_METHODS[*i], segs };
                let mut v = vec![p(vec![Some("a"), Some("b")]), p(vec![None])];
                if k < 2 {
                    v.push(p(vec![Some("a"), None]));
                }
                if k < 1 {
                    v.push(p(vec![None, Some("b")]));
                }
                v
            })
            .collect();
        let order: Vec<usize> = (0..procs.len()).collect();
        let (mut sim, _s, refused) = serve(&procs, &order);
        if !refused.is_empty() {
            return Err(format!("registrations {:?} of {:?} refused", refused, procs));
        }
        let paths = vec![vec!["a", "b"], vec!["a", "c"], vec!["c", "b"], vec!["c"], vec!["c", "c"], vec!["a", "b", "c"]];
        all_paths(&mut sim, &procs, &paths, super::args::METHODS)
    }));
    // up to as many procedures as there are slots
    let mut cases = Vec::new();
    for n in 5..=SLOTS {
        for around in 0..5usize {
            cases.push((n, around));
        }
    }
    out.push(Family::list("numbers of procedures", 0, cases, |(n, around)| {
        let name = |i: usize| leak(&format!("n{}", i));
        let procs: Vec<Proc> = (0..*n)
            .map(|i| Proc {
                method: Get,
                segs: match around {
                    0 => vec![Some(name(i))],
                    1 => vec![Some("p"), Some(name(i))],
                    2 => vec![None; i],
                    3 => vec![Some("p"); i + 1],
                    _ => vec![Some("p"), Some(name(i / 2)), if i % 2 == 0 { None } else { Some("x") }],
                },
            })
            .collect();
        let order: Vec<usize> = (0..*n).map(|i| i * 7 % n).collect();
        let order: Vec<usize> = if n % 7 == 0 { (0..*n).rev().collect() } else { order };
        let (mut sim, _s, refused) = serve(&procs, &order);
        if !refused.is_empty() {
            return Err(format!("registrations {:?} of {:?} refused", refused, procs));
        }
        let mut paths: Vec<Vec<&str>> = Vec::new();
        for i in 0..n + 2 {
            paths.push(vec![name(i)]);
            paths.push(vec!["p", name(i)]);
            paths.push(vec!["v"; i + 1]);
            paths.push(vec!["p"; i + 1]);
            paths.push(vec!["p", name(i), "x"]);
            paths.push(vec!["p", name(i), "y"]);
        }
        all_paths(&mut sim, &procs, &paths, &[Get, Post])
    }));
    // constants and what is nearly the same
    let mut cases = Vec::new();
    for n in near_lengths(deep) {
        for around in 0..6usize {
            cases.push((n, around));
        }
    }
    out.push(Family::list("near misses", 0, cases, |(n, around)| {
        let word = leak(&"abcdefghijKLMnopq-rstuvwxyz_0123456789.".chars().cycle().take(*n).collect::<String>());
        let mut near: Vec<String> = vec![word.into(), word.to_uppercase(), word.to_lowercase(), format!("{}x", word), format!("x{}", word)];
        near.push(format!("{}%20", word));
        near.push(format!("{}{}", word, word));
        near.push(format!("{}.", word));
        for i in 0..*n {
            if *n > 12 && i > 3 && i + 4 < *n && i != n / 2 {
                continue;
            }
            let (a, c, b) = (&word[..i], &word[i..i + 1], &word[i + 1..]);
            near.push(format!("{}{}{}", a, if c.to_uppercase() == c { c.to_lowercase() } else { c.to_uppercase() }, b));
            near.push(format!("{}{}", a, b));
            near.push(format!("{}!{}", a, b));
            near.push(format!("{}%{:02X}{}", a, c.as_bytes()[0], b));
            near.push(format!("{}{}{}{}", a, c, c, b));
            near.push(a.to_string());
            near.push(b.to_string());
        }
        let mut procs = vec![Proc {
            method: Get,
            segs: match around {
                0 | 1 => vec![Some(word)],
                2 | 3 => vec![Some(word), None, Some(word)],
                _ => vec![None, Some(word)],
            },
        }];
        if around % 2 == 1 {
            procs.push(Proc { method: Get, segs: vec![None; procs[0].segs.len()] });
            procs.push(Proc { method: Post, segs: procs[0].segs.clone() });
        }
        let order: Vec<usize> = (0..procs.len()).collect();
        let (mut sim, _s, _) = serve(&procs, &order);
        let mut paths: Vec<Vec<&str>> = Vec::new();
        for w in &near {
            match around {
                0 | 1 => paths.extend([vec![w.as_str()], vec![w, ""], vec!["", w]]),
                2 | 3 => paths.extend([vec![w, "v", word], vec![word, "v", w], vec![word, w, word], vec![w, w, w]]),
                _ => paths.extend([vec!["v", w.as_str()], vec![w, word], vec![w, w]]),
            }
        }
        paths.retain(|p| p.iter().all(|s| *s != "." && *s != ".."));
        all_paths(&mut sim, &procs, &paths, &[Get, Post])
    }));
    out.push(methods_of_one(deep));
    // every method against every method
    let mut cases = Vec::new();
    for a in METHODS {
        for b in METHODS {
            cases.push((*a, *b));
        }
    }
    out.push(Family::list("methods", 0, cases, |(a, b)| {
        let mut procs = vec![Proc {
            method: *a,
            segs: vec![Some("a")],
        }];
        if a != b {
            procs.push(Proc {
                method: *b,
                segs: vec![Some("a")],
            });
        }
        procs.push(Proc {
            method: *b,
            segs: vec![None, Some("z")],
        });
        let order: Vec<usize> = (0..procs.len()).collect();
        all_requests(&procs, &order, &["a", "z"], 2, ALL_METHODS)
    }));
    // entry points which are written with the macro
    let written = written();
    let n = written.len();
    out.push(Family::list("written entry points", 0, (0..n).collect(), move |i| {
        let (entry_point, segs) = written[*i].clone();
        let procs = vec![Proc { method: Get, segs }];
        let (mut sim, _server, refused) = serve_at(&procs, &[entry_point], &[0]);
        if !refused.is_empty() {
            return Err("refused".into());
        }
        let words: Vec<&str> = vec!["a", "_", "", "*", ":a", "%7Ba%7D", "%2541", "a%2Fb", "z", "q"];
        let mut paths: Vec<Vec<&str>> = Vec::new();
        for a in &words {
            paths.push(vec![*a]);
            for b in &words {
                paths.push(vec![*a, *b]);
                paths.push(vec![*a, *b, "z"]);
                paths.push(vec![*a, "z", *b]);
            }
        }
        paths.push(vec!["a"; 12]);
        paths.push(vec!["a", "_", "c", "*", "e", "q", "", "h", "i", "j", "k", "l"]);
        paths.push(vec!["a", "_", "c", "q", "e", "q", "q", "h", "i", "j", "k", "l"]);
        all_paths(&mut sim, &procs, &paths, &[Get, Post])
    }));
    // constants and requests with special characters, escaped in various ways
    let mut words: Vec<String> = vec![
        "a", "A", "a b", "a+b", "é", "日本", "%", "%2f", "a/b", "/", "?", "#", "a?b", "\"", "<x>", "{", "}", "|", "^", "`", "[", "]", "'", "~", ";",
        "a;b", "=", "&", ":", "@", "!", "$", "(", ")", "*", ",", "-", "_", "a.b", "...", "\u{1}", "\u{7f}", "😀", "%41", "%25",
    ]
    .into_iter()
    .map(|s| s.to_string())
    .collect();
    for b in 0x21..0x7fu8 {
        let w = (b as char).to_string();
        if !words.contains(&w) && w != "." {
            words.push(w)
        }
    }
    let words: Vec<&'static str> = words.iter().map(|w| leak(w)).collect();
    out.push(Family::list("constants", 0, words.clone(), move |w| {
        let w = *w;
        let procs = vec![
            Proc {
                method: Get,
                segs: vec![Some(w)],
            },
            Proc {
                method: Get,
                segs: vec![Some("p"), Some(w), None],
            },
            Proc {
                method: Get,
                segs: vec![None, None],
            },
        ];
        let (mut sim, _server, refused) = serve(&procs, &[0, 1, 2]);
        if !refused.is_empty() {
            return Err("refused".into());
        }
        for other in &words {
            let mut forms: Vec<String> = Vec::new();
            // everything escaped, in both cases
            forms.push(other.bytes().map(|b| format!("%{:02X}", b)).collect());
            forms.push(other.bytes().map(|b| format!("%{:02x}", b)).collect());
            // as little as possible escaped
            forms.push(
                other
                    .bytes()
                    .map(|b| {
                        if b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@".contains(&b) {
                            (b as char).to_string()
                        } else {
                            format!("%{:02X}", b)
                        }
                    })
                    .collect(),
            );
            forms.dedup();
            for f in &forms {
                for segs in [vec![f.as_str()], vec!["p", f.as_str(), "q"], vec!["p", f.as_str()], vec!["%70", f.as_str(), f.as_str()]] {
                    let want = reference(&procs, Get, &segs);
                    let got = ask(&mut sim, Get, &target(&segs))?;
                    judge(&format!("GET {}", target(&segs)), &procs, Get, &want, got)?;
                }
            }
        }
        Ok(())
    }));
    // escapes which are not valid, against constants and variables
    let bad: Vec<&'static str> = vec![
        "%", "%4", "%zz", "%4g", "%g4", "a%", "%ff", "%c3", "%c3%28", "%80", "%e3%81", "%F0%9F", "%a%41", "%%41", "%41%", "%+1", "%-1", "% 1",
    ];
    out.push(Family::list("invalid escapes", 0, bad, |w| {
        let w = *w;
        if w.contains(' ') {
            return Ok(());
        }
        for segs in [vec![None], vec![Some("a")], vec![Some(w)]] {
            for second in [None, Some(vec![Some("b")]), Some(vec![None])] {
                let mut procs = vec![Proc {
                    method: Get,
                    segs: segs.clone(),
                }];
                if let Some(s) = second {
                    procs.push(Proc {
                        method: Post,
                        segs: s,
                    });
                }
                let order: Vec<usize> = (0..procs.len()).collect();
                let (mut sim, _server, _) = serve(&procs, &order);
                for m in [Get, Post] {
                    let want = reference(&procs, m, &[w]);
                    let got = ask(&mut sim, m, &target(&[w]))?;
                    judge(&format!("{} {}", m, target(&[w])), &procs, m, &want, got)?;
                }
            }
        }
        Ok(())
    }));
    // queries and fragments play no part
    let suffixes = ["?", "?a", "?a=b", "?/a/b", "?x=/b", "??", "?a&b=%zz", "?%2fb", "#", "#a", "#/b", "?x#y"];
    out.push(Family::list("queries", 0, sets(&cross(&entry_points(&["a", "b"], 2), &[Get]), 2), move |set| {
        let (mut sim, _s, _) = serve(set, &[0, 1]);
        for p in [vec!["a"], vec!["b"], vec![""], vec!["a", "b"], vec!["a", ""], vec!["c", "d"]] {
            for x in &suffixes {
                let want = reference(set, Get, &p);
                let t = format!("{}{}", target(&p), x);
                let got = ask(&mut sim, Get, &t)?;
                judge(&format!("GET {}", t), set, Get, &want, got)?;
            }
        }
        Ok(())
    }));
    // calls of typed clients reach the procedure which their own path selects
    let u = cross(&entry_points(&["a", "b"], 2), &[Get, Post]);
    out.push(Family::list("client calls", 0, sets(&u, 2), |set| {
        let (mut sim, _s, _) = serve(set, &[0, 1]);
        for (slot, p) in set.iter().enumerate() {
            for vals in [["a", "b"], ["b", "a"], ["v", "w"], ["", "a"]] {
                let n = p.segs.iter().filter(|s| s.is_none()).count();
                let args = &vals[..n];
                let mut it = args.iter();
                let mut segs: Vec<&str> = p.segs.iter().map(|s| s.unwrap_or_else(|| it.next().unwrap())).collect();
                if segs.is_empty() {
                    segs.push("");
                }
                let before = log_len();
                let h = call(&mut sim, slot, args);
                sim.run();
                let want = reference(set, p.method, &segs);
                match (h.take(), &want) {
                    (Some(Ok((st, body))), w) => judge(&format!("call of slot {} with {:?}", slot, args), set, p.method, w, (st, body, log_from(before)))?,
                    (Some(Err(_)), _) if log_len() == before && args.contains(&"") => {}
                    (other, _) => return Err(format!("call of slot {} with {:?}: {:?} (procedures {:?})", slot, args, other, set)),
                }
            }
        }
        Ok(())
    }));
    // very long paths
    let lens: Vec<usize> = vec![10, 100, 500, 1000, 3000, 3900];
    out.push(Family::list("long paths", 0, lens, |n| {
        let procs = vec![
            Proc {
                method: Get,
                segs: vec![None; *n],
            },
            Proc {
                method: Get,
                segs: vec![Some("a"); n - 1],
            },
        ];
        let (mut sim, _s, _) = serve(&procs, &[0, 1]);
        for k in [n - 1, *n, n + 1] {
            let segs = vec!["a"; k];
            let want = reference(&procs, Get, &segs);
            let got = ask(&mut sim, Get, &target(&segs))?;
            judge(&format!("GET of {} segments", k), &[], Get, &want, got)?;
        }
        Ok(())
    }));
    out
}

macro_rules! segment {
    (_) => {
        None
    };
    ($s:expr) => {
        Some($s)
    };
}
macro_rules! write_one {
    ($v:ident, $($s:tt),*) => { $v.push((htrpc_entry_point![$($s),*], vec![$(segment!($s)),*])) };
}
macro_rules! write_row {
    ($v:ident, $a:tt, [$($b:tt)*]) => {
        write_one!($v, $a);
        $(
            write_one!($v, $a, $b);
            write_one!($v, $a, $b, "z");
            write_one!($v, $a, "z", $b);
        )*
    };
}
macro_rules! write_table {
    ($v:ident, [$($a:tt)*], $bs:tt) => { $( write_row!($v, $a, $bs); )* };
}
/// Entry points which are written with the macro, and their segments.
fn written() -> Vec<(EntryPoint, Segs)> {
    let mut v: Vec<(EntryPoint, Segs)> = vec![(htrpc_entry_point![], vec![])];
    write_table!(v, [_ "a" "_" "" "*" ":a" "{a}" "%41" "a/b"], [_ "a" "_" "" "*" ":a" "{a}" "%41" "a/b"]);
    write_one!(v, "a", "_", "c", _, "e", "q", "", "h", "i", "j", "k", "l");
    write_one!(v, "a", "_", "c", "*", "e", "q", _, "h", "i", "j", "k", "l");
    write_one!(v, _, _, _, _, _, _, _, _, _, _, _, _);
    v
}
fn near_lengths(deep: bool) -> Vec<usize> {
    if deep {
        (1..=70).chain([100, 127, 128, 129, 255, 256, 257, 500, 1000]).collect()
    } else {
        (1..=20).chain([31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500]).collect()
    }
}
/// Any number of methods of one entry point, some of which are registered again.
fn methods_of_one(deep: bool) -> Family {
    let mut cases = Vec::new();
    for n in 1..=METHODS.len() {
        for first in (0..METHODS.len()).step_by(if deep { 1 } else { 6 }) {
            for segs in [vec![], vec![Some("a")], vec![None], vec![Some("a"), None]] {
                cases.push((n, first, segs));
            }
        }
    }
    Family::list("methods of one entry point", 0, cases, |(n, first, segs)| {
        let p = |i: usize| Proc {
            method: METHODS[(first + i) % METHODS.len()],
            segs: segs.clone(),
        };
        let mut seq: Vec<Proc> = (0..*n).map(p).collect();
        // again, spread over all of them
        for k in 0..4.min(SLOTS - n) {
            seq.push(p(k * n / 4));
        }
        let alphabet: &[&str] = if segs.len() == 2 { &["a"] } else { &["a", ""] };
        registration(&seq, alphabet, segs.len(), METHODS)
    })
}

/// Registers a sequence with conflicts; what is accepted must be the first of each.
fn registration(seq: &[Proc], alphabet: &[&str], depth: usize, methods: &[HttpMethod]) -> Result<(), String> {
    let order: Vec<usize> = (0..seq.len()).collect();
    let mut want_refused = Vec::new();
    let mut kept: Vec<Proc> = Vec::new();
    for (i, p) in seq.iter().enumerate() {
        let clash = (0..i).any(|j| !want_refused.contains(&j) && conflict(&seq[j], p));
        if clash {
            want_refused.push(i);
        } else {
            kept.push(p.clone());
        }
    }
    let (mut sim, server, refused) = serve(seq, &order);
    if refused != want_refused {
        return Err(format!("registering {:?}: refused {:?}, want {:?}", seq, refused, want_refused));
    }
    let kept_slots: Vec<usize> = (0..seq.len()).filter(|i| !want_refused.contains(i)).collect();
    let mut paths: Vec<Vec<&str>> = alphabet.iter().map(|s| vec![*s]).collect();
    if depth > 1 {
        for a in alphabet {
            for b in alphabet {
                paths.push(vec![*a, *b]);
            }
        }
    }
    for p in &paths {
        for m in methods {
            let want = match reference(&kept, *m, p) {
                Want::Run(k, a) => Want::Run(kept_slots[k], a),
                w => w,
            };
            let got = ask(&mut sim, *m, &target(p))?;
            judge(&format!("{} {}", m, target(p)), seq, *m, &want, got)?;
        }
    }
    if server.is_done() {
        return Err("the server ended".into());
    }
    Ok(())
}

pub fn c17(tier: Tier) -> Vec<Family> {
    let deep = tier == Tier::Thorough;
    let mut out = Vec::new();
    let u = cross(&entry_points(&["a"], 2), &[Get, Post]);
    let n = u.len();
    // every sequence of two and three registrations, conflicts included
    let u2 = u.clone();
    out.push(Family::new(
        "two registrations",
        n * n,
        0,
        {
            let u = u.clone();
            move |i| format!("{:?}", [&u[i % n], &u[i / n]])
        },
        move |i| registration(&[u2[i % n].clone(), u2[i / n].clone()], &["a", "c", ""], 2, &[Get, Post, Put]),
    ));
    let u3 = u.clone();
    out.push(Family::new(
        "three registrations",
        n * n * n,
        0,
        {
            let u = u.clone();
            move |i| format!("{:?}", [&u[i % n], &u[i / n % n], &u[i / n / n]])
        },
        move |i| {
            registration(
                &[u3[i % n].clone(), u3[i / n % n].clone(), u3[i / n / n].clone()],
                &["a", "c", ""],
                2,
                &[Get, Post],
            )
        },
    ));
    let short: Vec<Vec<Option<&'static str>>> = vec![vec![], vec![Some("a")], vec![None], vec![Some("a"), None], vec![None, None]];
    let v4 = cross(&short, &[Get, Post, Put]);
    let n4 = v4.len();
    let w4 = v4.clone();
    let pick = move |u: &[Proc], i: usize| -> Vec<Proc> { (0..4u32).map(|k| u[i / n4.pow(k) % n4].clone()).collect() };
    out.push(Family::new(
        "four registrations",
        n4.pow(4),
        0,
        move |i| format!("{:?}", pick(&w4, i)),
        move |i| registration(&pick(&v4, i), &["a", "c"], if deep { 2 } else { 1 }, &[Get, Put]),
    ));
    // larger segments universe, pairs
    let big = cross(&entry_points(&["a", "b", ""], 3), &[Get]);
    let nb = big.len();
    let big2 = big.clone();
    out.push(Family::new(
        "pairs of longer entry points",
        nb * nb,
        0,
        move |i| format!("{:?}", [&big[i % nb], &big[i / nb]]),
        move |i| {
            registration(
                &[big2[i % nb].clone(), big2[i / nb].clone()],
                &["a", "b"],
                if deep { 2 } else { 1 },
                &[Get],
            )
        },
    ));
    out.push(methods_of_one(deep));
    // all methods pairwise on one entry point
    let mut cases = Vec::new();
    for a in METHODS {
        for b in METHODS {
            for segs in [vec![], vec![Some("a")], vec![None], vec![Some("a"), None]] {
                cases.push((*a, *b, segs));
            }
        }
    }
    out.push(Family::list("methods", 0, cases, |(a, b, segs)| {
        let p = |m| Proc {
            method: m,
            segs: segs.clone(),
        };
        registration(&[p(*a), p(*b), p(*a)], &["a", ""], 2, ALL_METHODS)
    }));
    // constants which are nearly the same
    let words: Vec<&'static str> = vec!["a", "A", "a ", " a", "%61", "a%", "á", "a\u{301}", "aa", "", "ä"];
    let mut cases = Vec::new();
    for a in &words {
        for b in &words {
            cases.push((*a, *b));
        }
    }
    out.push(Family::list("similar constants", 0, cases, |(a, b)| {
        let p = |w| Proc {
            method: Get,
            segs: vec![Some(w)],
        };
        let seq = [p(*a), p(*b)];
        registration(&seq, &["a", "A", "%61", "%41", "a%20", "%20a", "%2561", "a%25", "%C3%A1", "a%CC%81", "aa", "", "%C3%A4"], 1, &[Get])
    }));
    // every order of several constants
    let mut cases: Vec<(Vec<Proc>, Vec<usize>)> = Vec::new();
    for (k, words) in [(3usize, if deep { WORDS } else { &WORDS[..7] }), (4, if deep { &WORDS[..7] } else { &WORDS[..5] }), (5, &WORDS[..if deep { 6 } else { 5 }])] {
        for s in constant_sets(k, words) {
            for p in permutations(k) {
                cases.push((s.clone(), p));
            }
        }
    }
    out.push(Family::list("orders of constants", 0, cases, |(set, order)| constant_requests(set, order)));
    // many registrations, any of which is repeated
    let mut cases = Vec::new();
    for n in 1..=SLOTS / 2 {
        for rot in 0..n {
            cases.push((n, rot));
        }
    }
    out.push(Family::list("numbers of registrations", 0, cases, |(n, rot)| {
        let p = |i: usize| Proc {
            method: ALL_METHODS[i % 5],
            segs: match i % 4 {
                0 => vec![Some(leak(&format!("n{}", i / 8)))],
                1 => vec![None; i / 8 + 1],
                2 => vec![Some("a"), Some(leak(&format!("n{}", i / 8)))],
                _ => vec![Some(leak(&format!("n{}", i / 8))), None],
            },
        };
        // all, and then all again in another order
        let seq: Vec<Proc> = (0..*n).chain((0..*n).map(|i| (i + rot) % n)).map(p).collect();
        registration(&seq, &["n0", "n1", "n2", "a", "x"], 2, &ALL_METHODS[..6])
    }));
    // every order of every set without conflicts
    let sets_of = |u: &[Proc], k: usize| sets(u, k);
    let mut cases: Vec<(Vec<Proc>, Vec<usize>)> = Vec::new();
    let u2 = cross(&entry_points(&["a"], 2), &[Get, Post]);
    for s in sets_of(&u2, 3) {
        for p in permutations(3) {
            cases.push((s.clone(), p));
        }
    }
    let get_only = cross(&entry_points(&["a", "b"], 2), &[Get]);
    for k in [3usize, 4] {
        for s in sets_of(&get_only, k).into_iter() {
            if k == 4 && !deep && s.iter().any(|p| p.segs.iter().any(|x| *x == Some("b"))) {
                continue;
            }
            for p in permutations(k) {
                cases.push((s.clone(), p));
            }
        }
    }
    if deep {
        for s in sets_of(&u2, 4) {
            for p in permutations(4) {
                cases.push((s.clone(), p));
            }
        }
        let e2 = cross(&entry_points(&["a"], 2), &[Get]);
        for s in sets_of(&e2, 6) {
            for p in permutations(6) {
                cases.push((s.clone(), p));
            }
        }
    }
    out.push(Family::list("orders", 0, cases, |(set, order)| {
        all_requests(set, order, &["a", "b", ""], 2, &[Get, Post])
    }));
    out
}
