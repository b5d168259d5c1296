//! The controlled executor: one fibers scheduler per fiber, one poller, harness-played peers,
//! virtual time. Which of the enabled parties moves next is a choice point.
use crate::{clock, explore};
use fibers::fiber::Scheduler;
use fibers::io::poll::Poller;
use fibers::Spawn;
use futures::Future;
use mio::sim;
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use std::time::Duration;

type BoxFut = Box<dyn Future<Item = (), Error = ()> + Send>;

thread_local! {
    static SPAWNED: RefCell<Vec<(String, BoxFut)>> = const { RefCell::new(Vec::new()) };
}

/// Called around each execution.
pub fn begin() {
    fibers::fiber::reset_current_context();
    clock::start();
    sim::reset(Box::new(sim::PlainEnv));
    SPAWNED.with(|s| s.borrow_mut().clear());
    crate::app::reset();
}
/// Starts over with an empty network and log within an execution.
pub fn fresh() {
    sim::reset(Box::new(sim::PlainEnv));
    SPAWNED.with(|s| s.borrow_mut().clear());
    crate::app::reset();
}
pub fn end() {
    fibers::fiber::reset_current_context();
    SPAWNED.with(|s| s.borrow_mut().clear());
    sim::reset(Box::new(sim::PlainEnv));
    crate::app::reset();
    clock::stop();
}

/// The `Spawn` given to servers: every connection becomes a fiber of its own.
#[derive(Clone)]
pub struct SimSpawn(pub &'static str);
impl Spawn for SimSpawn {
    fn spawn_boxed(&self, fiber: BoxFut) {
        SPAWNED.with(|s| s.borrow_mut().push((self.0.to_string(), fiber)))
    }
}

/// A party played by the harness.
pub trait Actor {
    fn enabled(&mut self) -> bool;
    fn step(&mut self);
    fn name(&self) -> String {
        "actor".into()
    }
}

struct Fib {
    name: String,
    sched: Option<Scheduler>,
    /// (activity stamp, runs at that stamp which nobody and somebody has caused)
    idle: (u64, u32, u32),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Outcome {
    /// Nothing can move any more (no timer pending either, unless beyond the horizon).
    Quiescent,
    /// Too many steps.
    StepLimit,
}

pub struct Sim {
    poller: Poller,
    fibs: Vec<Fib>,
    actors: Vec<Option<Box<dyn Actor>>>,
    cursor: usize,
    pub steps: u64,
    pub step_limit: u64,
    /// Explore scheduling choices.
    pub explore: bool,
    /// Let time jump ahead although something else could move (timer races), as a deviation.
    pub race_timers: bool,
    /// Let actors move although fibers could, as a deviation (otherwise only when idle).
    pub race_actors: bool,
    /// Time does not advance beyond this.
    pub horizon: Duration,
    stamp: u64,
    /// The fibers which may be unfinished, in order.
    live: Vec<usize>,
}

pub struct Handle<T>(Arc<Mutex<Option<T>>>, pub usize);
impl<T> Handle<T> {
    pub fn take(&self) -> Option<T> {
        self.0.lock().unwrap().take()
    }
    pub fn is_done(&self) -> bool {
        self.0.lock().unwrap().is_some()
    }
}

enum Move {
    Fiber(usize),
    Poll,
    Actor(usize),
    Time,
}

impl Sim {
    pub fn new() -> Sim {
        Sim {
            poller: Poller::new().expect("poller"),
            fibs: Vec::new(),
            actors: Vec::new(),
            cursor: 0,
            steps: 0,
            step_limit: 200_000,
            explore: false,
            race_timers: false,
            race_actors: true,
            horizon: Duration::from_secs(1_000_000),
            stamp: 0,
            live: Vec::new(),
        }
    }
    pub fn spawn<F>(&mut self, name: &str, f: F) -> usize
    where
        F: Future<Item = (), Error = ()> + Send + 'static,
    {
        let sched = Scheduler::new(self.poller.handle());
        sched.handle().spawn_boxed(Box::new(f));
        self.fibs.push(Fib {
            name: name.to_string(),
            sched: Some(sched),
            idle: (0, 0, 0),
        });
        self.live.push(self.fibs.len() - 1);
        self.fibs.len() - 1
    }
    /// Spawns a future and keeps its result.
    pub fn run_fut<F>(&mut self, name: &str, f: F) -> Handle<Result<F::Item, F::Error>>
    where
        F: Future + Send + 'static,
        F::Item: Send + 'static,
        F::Error: Send + 'static,
    {
        let cell = Arc::new(Mutex::new(None));
        let c2 = Arc::clone(&cell);
        let id = self.spawn(
            name,
            f.then(move |r| {
                *c2.lock().unwrap() = Some(r);
                crate::app::tick();
                Ok(())
            }),
        );
        Handle(cell, id)
    }
    /// Drops a fiber, like a cancelled or abandoned future.
    pub fn kill(&mut self, fiber: usize) {
        self.fibs[fiber].sched = None;
        crate::app::tick();
    }
    pub fn is_alive(&self, fiber: usize) -> bool {
        self.fibs[fiber]
            .sched
            .as_ref()
            .map_or(false, |s| s.fiber_count() > 0 || s.run_queue_len() > 0)
    }
    pub fn add_actor(&mut self, a: Box<dyn Actor>) -> usize {
        self.actors.push(Some(a));
        self.actors.len() - 1
    }
    fn collect_spawned(&mut self) {
        let s = SPAWNED.with(|s| std::mem::take(&mut *s.borrow_mut()));
        for (name, f) in s {
            let name = format!("{}{}", name, self.fibs.len());
            let sched = Scheduler::new(self.poller.handle());
            sched.handle().spawn_boxed(f);
            self.fibs.push(Fib {
                name,
                sched: Some(sched),
                idle: (0, 0, 0),
            });
            self.live.push(self.fibs.len() - 1);
        }
    }
    fn activity(&self) -> u64 {
        sim::activity() + self.stamp + crate::app::ticks()
    }
    fn enabled(&mut self) -> Vec<Move> {
        let act = self.activity();
        let mut out = Vec::new();
        let fibs = &self.fibs;
        self.live.retain(|i| fibs[*i].sched.is_some());
        // the fibers from the cursor on, the poller, and the fibers before the cursor
        let n = self.live.len();
        // Whoever has run so often although nothing happened is waiting actively; but every other fiber
        // can have woken it up a few times.
        let patience = 40 + 4 * self.fibs.len() as u32;
        let from = self.live.iter().position(|i| *i >= self.cursor).unwrap_or(n);
        for k in 0..=n {
            let at = (from + k) % (n + 1);
            if at == n {
                if self.poller.has_request() || sim::has_events() || self.timer_due() {
                    out.push(Move::Poll);
                }
            } else {
                let i = self.live[at];
                let f = &mut self.fibs[i];
                if let Some(s) = f.sched.as_mut() {
                    let quiet = f.idle.0 == act;
                    if s.has_work() && !(quiet && (f.idle.2 >= patience || (f.idle.1 >= 40 && !s.is_woken()))) {
                        out.push(Move::Fiber(i));
                    }
                }
            }
        }
        for (i, a) in self.actors.iter_mut().enumerate() {
            if let Some(a) = a {
                if a.enabled() {
                    out.push(Move::Actor(i));
                }
            }
        }
        out
    }
    fn instant_offset(t: std::time::Instant) -> Duration {
        // virtual monotonic time: now() is the offset from the start of the execution
        let now = std::time::Instant::now();
        if t > now {
            clock::now() + (t - now)
        } else {
            clock::now()
        }
    }
    fn timer_due(&mut self) -> bool {
        self.poller
            .next_expiry()
            .map_or(false, |t| t <= std::time::Instant::now())
    }
    fn next_timer(&mut self) -> Option<Duration> {
        let t = self.poller.next_expiry()?;
        if t <= std::time::Instant::now() {
            return None;
        }
        let at = Self::instant_offset(t);
        if at <= self.horizon {
            Some(at)
        } else {
            None
        }
    }
    fn do_move(&mut self, m: &Move) {
        match *m {
            Move::Fiber(i) => {
                let act = self.activity();
                let f = &mut self.fibs[i];
                let s = f.sched.as_mut().expect("alive");
                let woken = s.has_work() && s.is_woken();
                f.idle = match f.idle {
                    (a, _, _) if a != act => (act, 0, 0),
                    (_, n, k) if woken => (act, n, k + 1),
                    (_, n, k) => (act, n + 1, k),
                };
                s.run_once(false);
                if s.fiber_count() == 0 && !s.has_work() {
                    f.sched = None;
                    self.stamp += 1;
                }
                self.cursor = i + 1;
            }
            Move::Poll => {
                if self.poller.has_request() {
                    self.stamp += 1;
                }
                self.poller
                    .poll(Some(Duration::from_millis(0)))
                    .expect("poll");
                if !self.explore {
                    while self.poller.has_request() || sim::has_events() {
                        self.stamp += 1;
                        self.poller
                            .poll(Some(Duration::from_millis(0)))
                            .expect("poll");
                    }
                }
                self.cursor = 0;
            }
            Move::Actor(i) => {
                self.stamp += 1;
                if let Some(a) = self.actors[i].as_mut() {
                    a.step()
                }
                self.cursor = 0;
            }
            Move::Time => {
                if let Some(at) = self.next_timer() {
                    let d = at - clock::now();
                    clock::advance(d);
                    self.stamp += 1;
                }
                self.cursor = 0;
            }
        }
    }
    fn describe(&self, m: &Move) -> String {
        match *m {
            Move::Fiber(i) => self.fibs[i].name.clone(),
            Move::Poll => "poll".into(),
            Move::Actor(i) => self.actors[i]
                .as_ref()
                .map_or("-".into(), |a| format!("{}", a.name())),
            Move::Time => "time".into(),
        }
    }
    fn record(&self) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        sim::state_hash().hash(&mut h);
        clock::now().hash(&mut h);
        crate::app::log_hash().hash(&mut h);
        for i in &self.live {
            i.hash(&mut h);
            self.fibs[*i].sched.as_ref().map(|s| s.run_queue_len()).hash(&mut h);
        }
        explore::record_state(h.finish());
    }
    /// Makes one move; false if nothing can move.
    pub fn step(&mut self) -> bool {
        self.collect_spawned();
        let mut moves = self.enabled();
        if moves.is_empty() {
            if self.next_timer().is_none() {
                return false;
            }
            moves.push(Move::Time);
        } else if self.explore && self.race_timers && self.next_timer().is_some() {
            moves.push(Move::Time);
        }
        let mut ix = 0;
        if self.explore && moves.len() > 1 {
            let n = if self.race_actors {
                moves.len()
            } else {
                let k = moves
                    .iter()
                    .filter(|m| !matches!(m, Move::Actor(_)))
                    .count();
                if k == 0 {
                    moves.len()
                } else {
                    k
                }
            };
            let names = || {
                let l: Vec<String> = moves.iter().map(|m| self.describe(m)).collect();
                l.join("|")
            };
            ix = explore::choose(n, &names);
        }
        let m = moves.swap_remove(ix);
        explore::note(|| format!("step {} [{:?}]: {}", self.steps, clock::now(), self.describe(&m)));
        self.do_move(&m);
        self.steps += 1;
        self.record();
        true
    }
    /// Runs until nothing can move.
    pub fn run(&mut self) -> Outcome {
        self.run_while(|_| true)
    }
    /// Runs until nothing can move or `cond` becomes false.
    pub fn run_while(&mut self, mut cond: impl FnMut(&mut Sim) -> bool) -> Outcome {
        while cond(self) {
            if self.steps >= self.step_limit {
                return Outcome::StepLimit;
            }
            if !self.step() {
                self.collect_spawned();
                if self.enabled().is_empty() {
                    break;
                }
            }
        }
        Outcome::Quiescent
    }
    /// Runs until nothing can move before time `t`, then sets the clock to `t`.
    pub fn run_to(&mut self, t: Duration) -> Outcome {
        let old = self.horizon;
        self.horizon = t;
        let o = self.run();
        self.horizon = old;
        if clock::now() < t {
            clock::advance(t - clock::now());
        }
        o
    }
}
impl Drop for Sim {
    fn drop(&mut self) {
        for f in &mut self.fibs {
            f.sched = None;
        }
    }
}
