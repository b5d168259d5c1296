//! An independent, strict HTTP/1.1 message reader for the oracles.

#[derive(Debug, Clone, PartialEq)]
pub struct Msg {
    pub start: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
}
impl Msg {
    pub fn header(&self, name: &str) -> Option<String> {
        self.headers
            .iter()
            .find(|h| h.0.eq_ignore_ascii_case(name))
            .map(|h| String::from_utf8_lossy(&h.1).into_owned())
    }
    pub fn count(&self, name: &str) -> usize {
        self.headers
            .iter()
            .filter(|h| h.0.eq_ignore_ascii_case(name))
            .count()
    }
    /// Status code of a response.
    pub fn status(&self) -> u16 {
        self.start
            .split(' ')
            .nth(1)
            .and_then(|s| s.parse().ok())
            .unwrap_or(0)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Parsed {
    Complete(Msg, usize),
    Incomplete,
    Bad(String),
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

/// Reads one message off the front of `bytes`; `no_body` for responses to HEAD.
pub fn parse(bytes: &[u8], no_body: bool) -> Parsed {
    let end = match find(bytes, b"\r\n\r\n") {
        None => return Parsed::Incomplete,
        Some(e) => e,
    };
    let head = &bytes[..end];
    let mut lines = Vec::new();
    let mut rest = head;
    while let Some(p) = find(rest, b"\r\n") {
        lines.push(&rest[..p]);
        rest = &rest[p + 2..];
    }
    lines.push(rest);
    let start = match std::str::from_utf8(lines[0]) {
        Ok(s) => s.to_string(),
        Err(_) => return Parsed::Bad("start line is not UTF-8".into()),
    };
    let mut headers = Vec::new();
    for l in &lines[1..] {
        let c = match l.iter().position(|b| *b == b':') {
            None => return Parsed::Bad(format!("header line without colon: {:?}", String::from_utf8_lossy(l))),
            Some(c) => c,
        };
        let name = String::from_utf8_lossy(&l[..c]).into_owned();
        if name.is_empty()
            || !name
                .bytes()
                .all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
        {
            return Parsed::Bad(format!("bad header name {:?}", name));
        }
        let mut v = &l[c + 1..];
        while v.first().map_or(false, |b| *b == b' ' || *b == b'\t') {
            v = &v[1..];
        }
        while v.last().map_or(false, |b| *b == b' ' || *b == b'\t') {
            v = &v[..v.len() - 1];
        }
        headers.push((name, v.to_vec()));
    }
    let m = Msg {
        start,
        headers,
        body: Vec::new(),
    };
    if m.count("content-length") > 1 {
        return Parsed::Bad("several content-length headers".into());
    }
    let len = match m.header("content-length") {
        None => 0,
        Some(s) => match s.parse::<usize>() {
            Err(_) => return Parsed::Bad(format!("bad content-length {:?}", s)),
            Ok(n) => n,
        },
    };
    let len = if no_body { 0 } else { len };
    let from = end + 4;
    if bytes.len() < from + len {
        return Parsed::Incomplete;
    }
    let mut m = m;
    m.body = bytes[from..from + len].to_vec();
    Parsed::Complete(m, from + len)
}

/// Splits a stream of responses to requests of the given kinds (`true`: HEAD). All bytes must be used.
pub fn parse_all(bytes: &[u8], heads: &[bool]) -> Result<Vec<Msg>, String> {
    let mut out = Vec::new();
    let mut rest = bytes;
    let mut i = 0;
    while !rest.is_empty() {
        match parse(rest, heads.get(i).cloned().unwrap_or(false)) {
            Parsed::Complete(m, n) => {
                out.push(m);
                rest = &rest[n..];
            }
            Parsed::Incomplete => {
                return Err(format!(
                    "incomplete message after {} complete ones: {:?}",
                    out.len(),
                    crate::explore::short(&String::from_utf8_lossy(rest))
                ))
            }
            Parsed::Bad(e) => {
                return Err(format!(
                    "malformed message after {} complete ones: {}: {:?}",
                    out.len(),
                    e,
                    crate::explore::short(&String::from_utf8_lossy(rest))
                ))
            }
        }
        i += 1;
    }
    Ok(out)
}
