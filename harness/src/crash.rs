//! Deaths of the process (aborts, stack overflows, running out of memory) are reported as
//! violations of the execution which caused them: the thread stops, and the watchdog reports it.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(0) };
}
static CRASHED: AtomicUsize = AtomicUsize::new(0);
static SIGNAL: AtomicUsize = AtomicUsize::new(0);

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
struct Limit {
    soft: u64,
    hard: u64,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn pause() -> i32;
    fn getrlimit(what: i32, limit: *mut Limit) -> i32;
    fn setrlimit(what: i32, limit: *const Limit) -> i32;
    fn _exit(code: i32) -> !;
}
const SA_ONSTACK: i32 = 0x0800_0000;
const RLIMIT_AS: i32 = 9;
const MEMORY: u64 = 28 << 30;

fn limit_memory(on: bool) {
    unsafe {
        let mut l = Limit { soft: 0, hard: 0 };
        if getrlimit(RLIMIT_AS, &mut l) == 0 {
            l.soft = if on { MEMORY.min(l.hard) } else { l.hard };
            setrlimit(RLIMIT_AS, &l);
        }
    }
}
extern "C" fn on_signal(sig: i32) {
    let slot = SLOT.try_with(|s| s.get()).unwrap_or(0);
    if slot == 0 {
        // not in an execution: an error of the machinery
        unsafe { _exit(70) }
    }
    limit_memory(false);
    SIGNAL.store(sig as usize, Ordering::SeqCst);
    let _ = CRASHED.compare_exchange(0, slot, Ordering::SeqCst, Ordering::SeqCst);
    loop {
        unsafe { pause() };
    }
}
pub fn install() {
    // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
    for sig in [4, 6, 7, 8, 11] {
        let a = SigAction {
            handler: on_signal as extern "C" fn(i32) as usize,
            mask: [0; 16],
            flags: SA_ONSTACK,
            restorer: 0,
        };
        unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
    }
    limit_memory(true);
}
/// Worker `slot` (from 0) runs on this thread.
pub fn set_slot(slot: usize) {
    SLOT.with(|s| s.set(slot + 1))
}
/// The worker which has crashed, and how.
pub fn crashed() -> Option<(usize, String)> {
    match CRASHED.load(Ordering::SeqCst) {
        0 => None,
        s => Some((s - 1, format!("the process would die of signal {}", SIGNAL.load(Ordering::SeqCst)))),
    }
}
