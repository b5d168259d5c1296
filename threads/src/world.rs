//! Real threads under a controlled scheduler.
//!
//! Every piece of application code which htrpc runs (a lane's thread inside a handler, a serializer, a
//! body, ...) stops at gates; the controller lets one lane pass a gate at a time, so an execution is
//! determined by the sequence of lanes which it picked.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// How long a lane which must go on by itself may take (only reached on violations).
const PATIENCE: Duration = Duration::from_secs(20);

thread_local! {
    static LANE: RefCell<Option<(Arc<World>, usize)>> = const { RefCell::new(None) };
}
/// Makes the current thread the one of lane `i`.
pub fn enter(world: &Arc<World>, i: usize) {
    world.state.lock().unwrap().lanes[i].tid = unsafe { libc::syscall(libc::SYS_gettid) };
    LANE.with(|l| *l.borrow_mut() = Some((Arc::clone(world), i)));
}
pub fn gate(kind: Gate) {
    let lane = LANE.with(|l| l.borrow().clone());
    if let Some((w, i)) = lane {
        w.gate(i, kind);
    }
}
/// Reports a violation which was seen by application code.
pub fn report(message: String) {
    let lane = LANE.with(|l| l.borrow().clone());
    if let Some((w, _)) = lane {
        let mut s = w.state.lock().unwrap();
        s.violation.get_or_insert(message);
        w.changed.notify_all();
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Gate {
    /// The call has not begun yet.
    Start,
    /// Just after the beginning and just before the end of cloning the handler.
    CloneBegin,
    CloneEnd,
    Deserialize,
    ReadBody,
    Handle,
    /// A poll of the future which the handler has returned.
    Poll,
    Serialize,
    Body,
    /// The bytes of the body are looked at.
    Bytes,
    SetBody,
    /// The logger of the server.
    Log,
    /// The definition of the procedure is looked at.
    Definition,
}

#[derive(Default)]
struct Lane {
    tid: i64,
    at: Option<Gate>,
    done: Option<String>,
    cloning: bool,
    /// It was told to go on and its thread has not woken up yet.
    waking: bool,
    path: Vec<Gate>,
}
pub struct State {
    lanes: Vec<Lane>,
    /// The gates at which lanes stop; elsewhere they go on.
    gates: Vec<Gate>,
    free: bool,
    pub violation: Option<String>,
}
pub struct World {
    state: Mutex<State>,
    changed: Condvar,
}
pub struct Outcome {
    /// The number of alternatives at each step.
    pub widths: Vec<usize>,
    pub trace: Vec<String>,
    pub states: Vec<Vec<Option<Gate>>>,
    pub results: Result<Vec<String>, String>,
    /// The violation was seen by the application's code (it does not depend on time).
    pub certain: bool,
}
impl World {
    pub fn new(lanes: usize) -> Arc<World> {
        Arc::new(World {
            state: Mutex::new(State {
                lanes: (0..lanes).map(|_| Lane::default()).collect(),
                gates: Vec::new(),
                free: true,
                violation: None,
            }),
            changed: Condvar::new(),
        })
    }
    fn gate(&self, i: usize, kind: Gate) {
        let mut s = self.state.lock().unwrap();
        match kind {
            Gate::CloneBegin => s.lanes[i].cloning = true,
            Gate::CloneEnd => {}
            _ => s.lanes[i].cloning = false,
        }
        s.lanes[i].path.push(kind);
        if s.free || !s.gates.contains(&kind) {
            if kind == Gate::CloneEnd {
                s.lanes[i].cloning = false;
            }
            return;
        }
        s.lanes[i].at = Some(kind);
        self.changed.notify_all();
        while !s.free && s.lanes[i].at.is_some() {
            s = self.changed.wait(s).unwrap();
        }
        s.lanes[i].at = None;
        s.lanes[i].waking = false;
        if kind == Gate::CloneEnd {
            s.lanes[i].cloning = false;
        }
    }
    pub fn finished(&self, i: usize, result: String) {
        let mut s = self.state.lock().unwrap();
        s.lanes[i].done = Some(result);
        self.changed.notify_all();
    }
    /// Prepares an execution.
    pub fn prepare(&self, gates: &[Gate], lanes: usize) {
        let mut s = self.state.lock().unwrap();
        for (i, l) in s.lanes.iter_mut().enumerate() {
            *l = Lane { tid: l.tid, at: if i < lanes { Some(Gate::Start) } else { None }, ..Lane::default() };
        }
        s.gates = gates.to_vec();
        s.free = false;
        s.violation = None;
    }
    /// Lets everything go on.
    pub fn release(&self) {
        self.state.lock().unwrap().free = true;
        self.changed.notify_all();
    }
    /// Whether the thread waits for a lock.
    fn waits(tid: i64) -> bool {
        let s = std::fs::read_to_string(format!("/proc/self/task/{}/syscall", tid)).unwrap_or_default();
        s.split(' ').next() == Some("202")
    }
    /// Runs the lanes by the given choices, and then always picks the first one.
    pub fn run(&self, choices: &[usize], lanes: usize, start: &dyn Fn(usize)) -> Outcome {
        let mut out = Outcome { widths: Vec::new(), trace: Vec::new(), states: Vec::new(), results: Ok(Vec::new()), certain: false };
        let fail = |mut out: Outcome, m: String| {
            out.results = Err(m);
            out
        };
        loop {
            // Until nobody can go on by itself.
            let since = Instant::now();
            let mut waited = 0;
            let mut s = self.state.lock().unwrap();
            loop {
                if let Some(m) = s.violation.clone() {
                    out.certain = true;
                    return fail(out, m);
                }
                let going: Vec<usize> =
                    (0..lanes).filter(|i| s.lanes[*i].at.is_none() && s.lanes[*i].done.is_none()).collect();
                if going.is_empty() {
                    break;
                }
                if (0..lanes).any(|i| s.lanes[i].at.is_some() && s.lanes[i].cloning) {
                    // The others may have to wait for the end of the cloning.
                    let waking = going.iter().any(|i| s.lanes[*i].waking);
                    let tids: Vec<i64> = going.iter().map(|i| s.lanes[*i].tid).collect();
                    drop(s);
                    std::thread::sleep(Duration::from_micros(100));
                    let blocked = !waking && tids.iter().all(|t| Self::waits(*t));
                    s = self.state.lock().unwrap();
                    waited = if blocked { waited + 1 } else { 0 };
                    if waited >= 8 || since.elapsed() > Duration::from_millis(500) {
                        break;
                    }
                } else if since.elapsed() > PATIENCE {
                    let m = format!(
                        "lanes {:?} do not go on, while {:?} are in the code of the application",
                        going,
                        (0..lanes).filter_map(|i| s.lanes[i].at.map(|g| (i, g))).collect::<Vec<_>>()
                    );
                    return fail(out, m);
                }
                s = self.changed.wait_timeout(s, Duration::from_micros(300)).unwrap().0;
            }
            let enabled: Vec<usize> = (0..lanes).filter(|i| s.lanes[*i].at.is_some()).collect();
            out.states.push((0..lanes).map(|i| s.lanes[i].at).collect());
            if enabled.is_empty() {
                out.results = Ok(s.lanes.iter().take(lanes).map(|l| l.done.clone().unwrap_or_default()).collect());
                for (i, l) in s.lanes.iter().take(lanes).enumerate() {
                    out.trace.push(format!("lane {}: {:?} -> {:?}", i, l.path, l.done));
                }
                return out;
            }
            let k = choices.get(out.widths.len()).copied().unwrap_or(0).min(enabled.len() - 1);
            out.widths.push(enabled.len());
            let lane = enabled[k];
            let begin = s.lanes[lane].at == Some(Gate::Start);
            out.trace.push(format!("lane {} passes {:?} ({} stop)", lane, s.lanes[lane].at, enabled.len()));
            s.lanes[lane].at = None;
            s.lanes[lane].waking = !begin;
            if s.lanes[lane].path.last() == Some(&Gate::CloneEnd) {
                s.lanes[lane].cloning = false;
            }
            drop(s);
            self.changed.notify_all();
            if begin {
                start(lane);
            }
        }
    }
}
