//! The explorer: stateless search over choice sequences, bounded by deviations from the default.
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// One recorded choice.
#[derive(Debug, Clone, Copy)]
pub struct Choice {
    pub n: u16,
    pub taken: u16,
    /// Costs a deviation when not 0.
    pub costly: bool,
}

#[derive(Default)]
struct Cur {
    prefix: Vec<u16>,
    trace: Vec<Choice>,
    devs: usize,
    bound: usize,
    states: Vec<u64>,
    steps: u64,
    note: Vec<String>,
    verbose: bool,
    diverged: bool,
}
thread_local! {
    static CUR: RefCell<Cur> = RefCell::new(Cur::default());
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn choose_impl(n: usize, costly: bool, what: &dyn Fn() -> String) -> usize {
    if n <= 1 {
        return 0;
    }
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        let i = c.trace.len();
        let mut taken = 0;
        if i < c.prefix.len() {
            taken = c.prefix[i] as usize;
            if taken >= n {
                c.diverged = true;
                taken = 0;
            }
        }
        if costly && taken != 0 {
            c.devs += 1;
        }
        if c.verbose {
            let s = format!("  choice #{} {} -> {}/{}", i, what(), taken, n);
            c.note.push(s);
        }
        c.trace.push(Choice {
            n: n.min(u16::MAX as usize) as u16,
            taken: taken as u16,
            costly,
        });
        taken
    })
}
/// A choice in which everything but 0 is a deviation.
pub fn choose(n: usize, what: &dyn Fn() -> String) -> usize {
    choose_impl(n, true, what)
}
/// A choice explored completely, without cost.
pub fn choose_free(n: usize, what: &dyn Fn() -> String) -> usize {
    choose_impl(n, false, what)
}
/// Whether a further deviation is allowed in this execution (only used to save work).
pub fn may_deviate() -> bool {
    CUR.with(|c| {
        let c = c.borrow();
        c.trace.len() < c.prefix.len() || c.devs < c.bound
    })
}
pub fn record_state(h: u64) {
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        c.states.push(h);
        c.steps += 1;
    })
}
pub fn verbose() -> bool {
    CUR.with(|c| c.borrow().verbose)
}
pub fn note(f: impl FnOnce() -> String) {
    CUR.with(|c| {
        if c.borrow().verbose {
            let s = f();
            c.borrow_mut().note.push(s)
        }
    })
}

pub type RunFn = Arc<dyn Fn(usize) -> Result<(), String> + Send + Sync>;

/// A finite family of cases, each explored with `bound` deviations.
#[derive(Clone)]
pub struct Family {
    pub name: String,
    pub count: usize,
    pub bound: usize,
    pub describe: Arc<dyn Fn(usize) -> String + Send + Sync>,
    pub run: RunFn,
}
impl Family {
    pub fn new(
        name: &str,
        count: usize,
        bound: usize,
        describe: impl Fn(usize) -> String + Send + Sync + 'static,
        run: impl Fn(usize) -> Result<(), String> + Send + Sync + 'static,
    ) -> Family {
        Family {
            name: name.to_string(),
            count,
            bound,
            describe: Arc::new(describe),
            run: Arc::new(run),
        }
    }
    /// A family over a list of cases.
    pub fn list<T: Send + Sync + std::fmt::Debug + 'static>(
        name: &str,
        bound: usize,
        cases: Vec<T>,
        run: impl Fn(&T) -> Result<(), String> + Send + Sync + 'static,
    ) -> Family {
        let cases = Arc::new(cases);
        let c2 = Arc::clone(&cases);
        Family::new(
            name,
            cases.len(),
            bound,
            move |i| short(&format!("{:?}", c2[i])),
            move |i| run(&cases[i]),
        )
    }
}
pub fn short(s: &str) -> String {
    if s.len() <= 400 {
        s.to_string()
    } else {
        let mut i = 300;
        while !s.is_char_boundary(i) {
            i += 1;
        }
        format!("{}... ({} bytes)", &s[..i], s.len())
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub family: String,
    pub index: usize,
    pub case: String,
    pub choices: Vec<u16>,
    pub message: String,
}

#[derive(Debug, Default, Clone)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub choice_points: u64,
    pub max_deviations: usize,
    pub per_family: Vec<(String, usize, usize, u64)>,
    pub complete: bool,
    pub samples: Vec<String>,
}

struct Job {
    family: usize,
    index: usize,
    prefix: Vec<u16>,
    devs: usize,
}

pub struct RunResult {
    pub trace: Vec<Choice>,
    pub states: Vec<u64>,
    pub steps: u64,
    pub notes: Vec<String>,
    pub result: Result<(), String>,
    pub diverged: bool,
}

/// Runs one execution of one case.
pub fn run_one(f: &Family, index: usize, prefix: &[u16], verbose: bool) -> RunResult {
    CUR.with(|c| {
        *c.borrow_mut() = Cur {
            prefix: prefix.to_vec(),
            bound: f.bound,
            verbose,
            ..Cur::default()
        }
    });
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    crate::exec::begin();
    let run = Arc::clone(&f.run);
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| run(index)));
    crate::exec::end();
    let result = match r {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "unknown panic".into());
            Err(format!("panic: {}", m))
        }
    };
    CUR.with(|c| {
        let c = std::mem::take(&mut *c.borrow_mut());
        RunResult {
            trace: c.trace,
            states: c.states,
            steps: c.steps,
            notes: c.note,
            result,
            diverged: c.diverged,
        }
    })
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let m = format!("{}", info).replace('\n', " ");
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if p.is_none() {
                    *p = Some(m.clone());
                }
            }
        });
        if std::thread::current().name().map_or(true, |n| !n.starts_with("mc-")) {
            eprintln!("{}", m);
        }
    }));
}

struct Shared {
    queue: Mutex<(Vec<Job>, usize, usize)>, // jobs, next (family,index) cursor encoded below, busy workers
    cv: Condvar,
    stop: AtomicBool,
    cursor: AtomicUsize,
    execs: AtomicU64,
    waiting: AtomicUsize,
}

pub struct Slot {
    pub started_ms: AtomicU64,
    pub what: Mutex<Option<(usize, usize, Vec<u16>)>>,
}

/// Explores all families. Returns the statistics and the violations found (at most one per
/// signature; exploration of a family stops at its first unknown violation).
pub fn explore(
    families: &[Family],
    deadline: Duration,
    hang_after: Duration,
    is_known: &(dyn Fn(&Violation) -> Option<String> + Sync),
    on_hang: &(dyn Fn(Violation) + Sync),
) -> (Stats, Vec<Violation>, Vec<String>) {
    let nthreads = std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()));
    let t0 = Instant::now();
    let offsets: Vec<usize> = families
        .iter()
        .scan(0, |a, f| {
            let o = *a;
            *a += f.count;
            Some(o)
        })
        .collect();
    let total: usize = families.iter().map(|f| f.count).sum();
    let shared = Shared {
        queue: Mutex::new((Vec::new(), 0, 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        cursor: AtomicUsize::new(0),
        execs: AtomicU64::new(0),
        waiting: AtomicUsize::new(0),
    };
    let timed_out = AtomicBool::new(false);
    let violations: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
    let known: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let slots: Vec<Slot> = (0..nthreads)
        .map(|_| Slot {
            started_ms: AtomicU64::new(0),
            what: Mutex::new(None),
        })
        .collect();
    let done = AtomicBool::new(false);
    let mut stats = Stats {
        complete: true,
        ..Stats::default()
    };
    let mut per_family = vec![0u64; families.len()];
    let mut all_states: HashSet<u64> = HashSet::new();
    std::thread::scope(|scope| {
        // watchdog
        let slots_ref = &slots;
        let done_ref = &done;
        scope.spawn(move || {
            while !done_ref.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                if let Some((slot, message)) = crate::crash::crashed() {
                    if let Some((f, i, p)) = slots_ref[slot].what.lock().unwrap().clone() {
                        on_hang(Violation {
                            family: families[f].name.clone(),
                            index: i,
                            case: (families[f].describe)(i),
                            choices: p,
                            message,
                        });
                    }
                }
                let now = t0.elapsed().as_millis() as u64 + 1;
                for s in slots_ref {
                    let st = s.started_ms.load(Ordering::SeqCst);
                    if st != 0 && now.saturating_sub(st) > hang_after.as_millis() as u64 {
                        if let Some((f, i, p)) = s.what.lock().unwrap().clone() {
                            on_hang(Violation {
                                family: families[f].name.clone(),
                                index: i,
                                case: (families[f].describe)(i),
                                choices: p,
                                message: format!(
                                    "execution does not terminate (no progress for {:?})",
                                    hang_after
                                ),
                            });
                        }
                    }
                }
            }
        });
        let mut handles = Vec::new();
        for t in 0..nthreads {
            let shared = &shared;
            let offsets = &offsets;
            let violations = &violations;
            let known = &known;
            let timed_out = &timed_out;
            let slot = &slots[t];
            let h = std::thread::Builder::new()
                .name(format!("mc-{}", t))
                .stack_size(512 << 20)
                .spawn_scoped(scope, move || {
                    crate::crash::set_slot(t);
                    let mut local: Vec<Job> = Vec::new();
                    let mut states: HashSet<u64> = HashSet::new();
                    let mut st = Stats::default();
                    let mut fam = vec![0u64; families.len()];
                    let mut counter = 0u64;
                    loop {
                        if shared.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let job = match local.pop() {
                            Some(j) => j,
                            None => {
                                let i = shared.cursor.fetch_add(1, Ordering::SeqCst);
                                if i < total {
                                    let f = offsets.partition_point(|o| *o <= i) - 1;
                                    // skip empty families
                                    Job {
                                        family: f,
                                        index: i - offsets[f],
                                        prefix: Vec::new(),
                                        devs: 0,
                                    }
                                } else {
                                    // take donated work or finish
                                    shared.waiting.fetch_add(1, Ordering::SeqCst);
                                    let mut q = shared.queue.lock().unwrap();
                                    q.1 += 1;
                                    let j = loop {
                                        if shared.stop.load(Ordering::Relaxed) {
                                            break None;
                                        }
                                        if let Some(j) = q.0.pop() {
                                            break Some(j);
                                        }
                                        if q.1 == nthreads {
                                            shared.cv.notify_all();
                                            break None;
                                        }
                                        q = shared
                                            .cv
                                            .wait_timeout(q, Duration::from_millis(100))
                                            .unwrap()
                                            .0;
                                    };
                                    shared.waiting.fetch_sub(1, Ordering::SeqCst);
                                    match j {
                                        Some(j) => {
                                            q.1 -= 1;
                                            j
                                        }
                                        None => break,
                                    }
                                }
                            }
                        };
                        let f = &families[job.family];
                        *slot.what.lock().unwrap() =
                            Some((job.family, job.index, job.prefix.clone()));
                        slot.started_ms
                            .store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        let r = run_one(f, job.index, &job.prefix, false);
                        slot.started_ms.store(0, Ordering::SeqCst);
                        st.executions += 1;
                        fam[job.family] += 1;
                        st.transitions += r.steps;
                        st.choice_points += r.trace.len() as u64;
                        if st.samples.is_empty() || (job.devs > 0 && st.samples.len() < 2) {
                            st.samples.push(format!(
                                "{} case {}: {}; choices {:?}; {} steps",
                                f.name,
                                job.index,
                                (f.describe)(job.index),
                                r.trace.iter().map(|c| c.taken).collect::<Vec<_>>(),
                                r.steps
                            ));
                        }
                        st.max_deviations = st.max_deviations.max(job.devs);
                        for s in &r.states {
                            if states.len() < 3_000_000 {
                                states.insert(*s);
                            }
                        }
                        if let Err(message) = r.result {
                            let mut choices: Vec<u16> = r.trace.iter().map(|c| c.taken).collect();
                            while choices.last() == Some(&0) {
                                choices.pop();
                            }
                            let v = Violation {
                                family: f.name.clone(),
                                index: job.index,
                                case: (f.describe)(job.index),
                                choices,
                                message,
                            };
                            if let Some(k) = is_known(&v) {
                                let mut known = known.lock().unwrap();
                                if !known.contains(&k) {
                                    known.push(k);
                                }
                            } else {
                                violations.lock().unwrap().push(v);
                                if std::env::var_os("MC_KEEP_GOING").is_none() {
                                    shared.stop.store(true, Ordering::SeqCst);
                                    shared.cv.notify_all();
                                    break;
                                }
                            }
                        }
                        // children
                        let base = job.prefix.len();
                        for p in base..r.trace.len() {
                            let c = r.trace[p];
                            let devs = job.devs + c.costly as usize;
                            if devs > f.bound {
                                continue;
                            }
                            for a in 1..c.n {
                                let mut prefix: Vec<u16> =
                                    r.trace[..p].iter().map(|c| c.taken).collect();
                                prefix.push(a);
                                local.push(Job {
                                    family: job.family,
                                    index: job.index,
                                    prefix,
                                    devs,
                                });
                            }
                        }
                        if local.len() > 1 && shared.waiting.load(Ordering::Relaxed) > 0 {
                            let mut q = shared.queue.lock().unwrap();
                            let k = local.len() / 2;
                            q.0.extend(local.drain(..k));
                            shared.cv.notify_all();
                        }
                        counter += 1;
                        if counter % 64 == 0 {
                            shared.execs.fetch_add(64, Ordering::Relaxed);
                            if t0.elapsed() > deadline {
                                timed_out.store(true, Ordering::SeqCst);
                                shared.stop.store(true, Ordering::SeqCst);
                                shared.cv.notify_all();
                            }
                        }
                    }
                    (st, fam, states)
                })
                .expect("spawn");
            handles.push(h);
        }
        for h in handles {
            let (st, fam, states) = h.join().expect("worker");
            stats.executions += st.executions;
            stats.transitions += st.transitions;
            stats.choice_points += st.choice_points;
            stats.max_deviations = stats.max_deviations.max(st.max_deviations);
            if stats.samples.len() < 6 {
                stats.samples.extend(st.samples);
            }
            for (a, b) in per_family.iter_mut().zip(fam) {
                *a += b;
            }
            all_states.extend(states);
        }
        done.store(true, Ordering::SeqCst);
    });
    stats.samples.truncate(6);
    stats.states = all_states.len() as u64;
    stats.per_family = families
        .iter()
        .zip(per_family)
        .map(|(f, n)| (f.name.clone(), f.count, f.bound, n))
        .collect();
    stats.complete = !timed_out.load(Ordering::SeqCst);
    (
        stats,
        violations.into_inner().unwrap(),
        known.into_inner().unwrap(),
    )
}
