//! Environments: how reads and writes of the simulated sockets are split, blocked and cut.
use crate::explore;
use mio::sim::{ConnectAns, Env, IoAns, Side};
use std::collections::HashMap;
use std::io::ErrorKind;
use std::net::SocketAddr;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Cut {
    Eof,
    Err(ErrorKind),
}

#[derive(Debug, Clone, Default)]
pub struct Net {
    /// Largest transfer per call, by side: reads and writes (0: no limit).
    pub read_chunk: [usize; 2],
    pub write_chunk: [usize; 2],
    /// A would-block between any two transfers.
    pub block: bool,
    /// Reads by `side` stop at this offset of the stream, and block once.
    pub read_splits: Vec<(Side, u64)>,
    pub write_splits: Vec<(Side, u64)>,
    /// The stream read (written) by `side` ends at this offset.
    pub read_cut: Option<(Side, u64, Cut)>,
    pub write_cut: Option<(Side, u64, ErrorKind)>,
    /// Splits and would-blocks at every transfer are choices.
    pub choices: bool,
    /// Faults (end of stream, reset) at every transfer are choices.
    pub faults: bool,
    /// Only this connection is affected (the others behave plainly).
    pub only: Option<usize>,
    /// Answers to connection attempts in order; further ones get the plain answer.
    pub connects: Vec<ConnectAns>,
    /// Answers to accepts in order.
    pub accepts: Vec<Option<ErrorKind>>,
    pub read_at: HashMap<(usize, Side), u64>,
    pub written: HashMap<(usize, Side), u64>,
}
impl Net {
    pub fn install(self) {
        mio::sim::set_env(Box::new(self))
    }
    fn affects(&self, conn: usize) -> bool {
        self.only.map_or(true, |c| c == conn)
    }
}
fn limit(max: usize, chunk: usize) -> usize {
    if chunk == 0 {
        max
    } else {
        max.min(chunk)
    }
}
impl Env for Net {
    fn on_connect(&mut self, addr: SocketAddr, listening: bool) -> ConnectAns {
        if !self.connects.is_empty() {
            return self.connects.remove(0);
        }
        let _ = addr;
        if listening {
            ConnectAns::Later
        } else {
            ConnectAns::ErrLater(ErrorKind::ConnectionRefused)
        }
    }
    fn on_accept(&mut self, _addr: SocketAddr) -> Option<ErrorKind> {
        if self.accepts.is_empty() {
            None
        } else {
            self.accepts.remove(0)
        }
    }
    fn on_read(&mut self, conn: usize, side: Side, avail: usize, buf: usize) -> IoAns {
        let max = avail.min(buf);
        if !self.affects(conn) {
            return IoAns::Upto(max);
        }
        let at = *self.read_at.get(&(conn, side)).unwrap_or(&0);
        let mut n = limit(max, self.read_chunk[side as usize]);
        let mut block = self.block;
        if let Some((s, off, cut)) = self.read_cut {
            if s == side {
                if at >= off {
                    return match cut {
                        Cut::Eof => IoAns::Eof,
                        Cut::Err(k) => IoAns::Err(k),
                    };
                }
                n = n.min((off - at) as usize);
            }
        }
        for (s, off) in &self.read_splits {
            if *s == side && *off > at && *off <= at + n as u64 {
                n = (*off - at) as usize;
                block = true;
            }
        }
        if self.choices {
            let k = if n > 2 { 4 } else if n > 1 { 3 } else { 2 };
            match explore::choose(k, &|| format!("read c{} {:?} {} bytes: all|block|1|n-1", conn, side, n)) {
                0 => {}
                1 => return IoAns::WouldBlock,
                2 => {
                    n = 1;
                    block = true
                }
                _ => {
                    n -= 1;
                    block = true
                }
            }
        }
        if self.faults {
            match explore::choose(3, &|| format!("read c{} {:?}: ok|eof|reset", conn, side)) {
                0 => {}
                1 => return IoAns::Eof,
                _ => return IoAns::Err(ErrorKind::ConnectionReset),
            }
        }
        self.read_at.insert((conn, side), at + n as u64);
        if block {
            IoAns::UptoThenBlock(n)
        } else {
            IoAns::Upto(n)
        }
    }
    fn on_write(&mut self, conn: usize, side: Side, max: usize) -> IoAns {
        if !self.affects(conn) {
            return IoAns::Upto(max);
        }
        let at = *self.written.get(&(conn, side)).unwrap_or(&0);
        let mut n = limit(max, self.write_chunk[side as usize]);
        let mut block = self.block;
        if let Some((s, off, k)) = self.write_cut {
            if s == side {
                if at >= off {
                    return IoAns::Err(k);
                }
                n = n.min((off - at) as usize);
            }
        }
        for (s, off) in &self.write_splits {
            if *s == side && *off > at && *off <= at + n as u64 {
                n = (*off - at) as usize;
                block = true;
            }
        }
        if self.choices {
            let k = if n > 2 { 4 } else if n > 1 { 3 } else { 2 };
            match explore::choose(k, &|| format!("write c{} {:?} {} bytes: all|block|1|n-1", conn, side, n)) {
                0 => {}
                1 => return IoAns::WouldBlock,
                2 => {
                    n = 1;
                    block = true
                }
                _ => {
                    n -= 1;
                    block = true
                }
            }
        }
        if self.faults {
            match explore::choose(2, &|| format!("write c{} {:?}: ok|broken", conn, side)) {
                0 => {}
                _ => return IoAns::Err(ErrorKind::BrokenPipe),
            }
        }
        self.written.insert((conn, side), at + n as u64);
        if block {
            IoAns::UptoThenBlock(n)
        } else {
            IoAns::Upto(n)
        }
    }
}
