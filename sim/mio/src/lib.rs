//! A closed-world replacement of the part of mio 0.6 which fibers 0.1 uses.
//!
//! All sockets live in a thread-local `World`. Nothing here blocks, sleeps or looks at a clock;
//! every answer the operating system could vary is asked from the `sim::Env` of the thread.
//! Event semantics are those of edge|oneshot registrations in epoll: (re)registering arms a token, and a
//! `poll` reports each armed token whose readiness meets its interest, and disarms it.
use std::io;
use std::ops;

pub mod sim;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Token(pub usize);

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Ready(u8);
impl Ready {
    pub fn empty() -> Ready {
        Ready(0)
    }
    pub fn readable() -> Ready {
        Ready(1)
    }
    pub fn writable() -> Ready {
        Ready(2)
    }
    pub fn is_empty(&self) -> bool {
        self.0 == 0
    }
    pub fn is_readable(&self) -> bool {
        self.0 & 1 != 0
    }
    pub fn is_writable(&self) -> bool {
        self.0 & 2 != 0
    }
}
impl ops::BitOr for Ready {
    type Output = Ready;
    fn bitor(self, o: Ready) -> Ready {
        Ready(self.0 | o.0)
    }
}
impl ops::BitAnd for Ready {
    type Output = Ready;
    fn bitand(self, o: Ready) -> Ready {
        Ready(self.0 & o.0)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct PollOpt(u8);
impl PollOpt {
    pub fn edge() -> PollOpt {
        PollOpt(1)
    }
    pub fn level() -> PollOpt {
        PollOpt(2)
    }
    pub fn oneshot() -> PollOpt {
        PollOpt(4)
    }
}
impl ops::BitOr for PollOpt {
    type Output = PollOpt;
    fn bitor(self, o: PollOpt) -> PollOpt {
        PollOpt(self.0 | o.0)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Event {
    token: Token,
    readiness: Ready,
}
impl Event {
    pub fn token(&self) -> Token {
        self.token
    }
    pub fn readiness(&self) -> Ready {
        self.readiness
    }
}

#[derive(Debug)]
pub struct Events(Vec<Event>);
impl Events {
    pub fn with_capacity(capacity: usize) -> Events {
        Events(Vec::with_capacity(capacity.min(16)))
    }
    pub fn iter(&self) -> std::iter::Cloned<std::slice::Iter<'_, Event>> {
        self.0.iter().cloned()
    }
}

pub trait Evented {
    fn register(&self, poll: &Poll, token: Token, interest: Ready, opts: PollOpt) -> io::Result<()>;
    fn reregister(&self, poll: &Poll, token: Token, interest: Ready, opts: PollOpt)
        -> io::Result<()>;
    fn deregister(&self, poll: &Poll) -> io::Result<()>;
}

#[derive(Debug)]
pub struct Poll(());
impl Poll {
    pub fn new() -> io::Result<Poll> {
        Ok(Poll(()))
    }
    pub fn poll(
        &self,
        events: &mut Events,
        _timeout: Option<std::time::Duration>,
    ) -> io::Result<usize> {
        events.0 = sim::take_events()
            .into_iter()
            .map(|(t, r)| Event {
                token: Token(t),
                readiness: Ready(r),
            })
            .collect();
        Ok(events.0.len())
    }
    pub fn register<E: ?Sized + Evented>(
        &self,
        e: &E,
        token: Token,
        interest: Ready,
        opts: PollOpt,
    ) -> io::Result<()> {
        e.register(self, token, interest, opts)
    }
    pub fn reregister<E: ?Sized + Evented>(
        &self,
        e: &E,
        token: Token,
        interest: Ready,
        opts: PollOpt,
    ) -> io::Result<()> {
        e.reregister(self, token, interest, opts)
    }
    pub fn deregister<E: ?Sized + Evented>(&self, e: &E) -> io::Result<()> {
        e.deregister(self)
    }
}

pub fn would_block() -> io::Error {
    io::ErrorKind::WouldBlock.into()
}

pub mod net {
    use super::*;
    use crate::sim::Source;
    use std::io::{Read, Write};
    use std::net::SocketAddr;

    macro_rules! evented {
        ($t:ty, $src:expr) => {
            impl Evented for $t {
                fn register(&self, _: &Poll, t: Token, i: Ready, _: PollOpt) -> io::Result<()> {
                    sim::arm(self.epoch, $src(self.id), t.0, i.0);
                    Ok(())
                }
                fn reregister(&self, _: &Poll, t: Token, i: Ready, _: PollOpt) -> io::Result<()> {
                    sim::arm(self.epoch, $src(self.id), t.0, i.0);
                    Ok(())
                }
                fn deregister(&self, _: &Poll) -> io::Result<()> {
                    sim::disarm(self.epoch, $src(self.id));
                    Ok(())
                }
            }
        };
    }

    #[derive(Debug)]
    pub struct TcpStream {
        epoch: u64,
        id: usize,
    }
    evented!(TcpStream, Source::Sock);
    impl TcpStream {
        pub fn connect(addr: &SocketAddr) -> io::Result<TcpStream> {
            let (epoch, id) = sim::connect(*addr)?;
            Ok(TcpStream { epoch, id })
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            sim::peer_addr(self.epoch, self.id)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            sim::local_addr(self.epoch, self.id)
        }
        pub fn take_error(&self) -> io::Result<Option<io::Error>> {
            Ok(sim::take_error(self.epoch, self.id))
        }
        pub fn nodelay(&self) -> io::Result<bool> {
            Ok(true)
        }
        pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
        pub fn shutdown(&self, how: std::net::Shutdown) -> io::Result<()> {
            sim::shutdown(self.epoch, self.id, how)
        }
    }
    impl Read for TcpStream {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            sim::read(self.epoch, self.id, buf)
        }
    }
    impl Write for TcpStream {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            sim::write(self.epoch, self.id, buf)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    impl Drop for TcpStream {
        fn drop(&mut self) {
            sim::drop_sock(self.epoch, self.id)
        }
    }

    #[derive(Debug)]
    pub struct TcpListener {
        epoch: u64,
        id: usize,
    }
    evented!(TcpListener, Source::Listener);
    impl TcpListener {
        pub fn bind(addr: &SocketAddr) -> io::Result<TcpListener> {
            let (epoch, id) = sim::bind(*addr)?;
            Ok(TcpListener { epoch, id })
        }
        pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
            let (id, addr) = sim::accept(self.epoch, self.id)?;
            Ok((
                TcpStream {
                    epoch: self.epoch,
                    id,
                },
                addr,
            ))
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            sim::listener_addr(self.epoch, self.id)
        }
        pub fn take_error(&self) -> io::Result<Option<io::Error>> {
            Ok(None)
        }
    }
    impl Drop for TcpListener {
        fn drop(&mut self) {
            sim::drop_listener(self.epoch, self.id)
        }
    }

    /// Present only so that fibers compiles; no property involves UDP.
    #[derive(Debug)]
    pub struct UdpSocket(());
    impl UdpSocket {
        pub fn bind(_: &SocketAddr) -> io::Result<UdpSocket> {
            Err(io::ErrorKind::Unsupported.into())
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Err(io::ErrorKind::Unsupported.into())
        }
        pub fn take_error(&self) -> io::Result<Option<io::Error>> {
            Ok(None)
        }
        pub fn send_to(&self, _: &[u8], _: &SocketAddr) -> io::Result<usize> {
            Err(io::ErrorKind::Unsupported.into())
        }
        pub fn recv_from(&self, _: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
            Err(io::ErrorKind::Unsupported.into())
        }
    }
    impl Evented for UdpSocket {
        fn register(&self, _: &Poll, _: Token, _: Ready, _: PollOpt) -> io::Result<()> {
            Ok(())
        }
        fn reregister(&self, _: &Poll, _: Token, _: Ready, _: PollOpt) -> io::Result<()> {
            Ok(())
        }
        fn deregister(&self, _: &Poll) -> io::Result<()> {
            Ok(())
        }
    }
}
