//! Virtual time. The executable defines `clock_gettime`, so that `Instant::now` and
//! `SystemTime::now` inside htrpc and fibers read the clock of the current execution; threads
//! which do not run an execution see the real one.
use std::cell::Cell;
use std::time::Duration;

thread_local! {
    static VIRTUAL: Cell<Option<u64>> = const { Cell::new(None) };
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn syscall(num: i64, ...) -> i64;
}
const SYS_CLOCK_GETTIME: i64 = 228;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    let v = VIRTUAL.try_with(|v| v.get()).unwrap_or(None);
    match v {
        None => syscall(SYS_CLOCK_GETTIME, id as i64, ts) as i32,
        Some(ns) => {
            // CLOCK_REALTIME (0) and the monotonic clocks differ by a constant.
            let base: i64 = if id == 0 { 1_600_000_000 } else { 1_000_000 };
            (*ts).sec = base + (ns / 1_000_000_000) as i64;
            (*ts).nsec = (ns % 1_000_000_000) as i64;
            0
        }
    }
}

pub fn start() {
    VIRTUAL.with(|v| v.set(Some(0)))
}
pub fn stop() {
    VIRTUAL.with(|v| v.set(None))
}
/// Time since the start of the execution.
pub fn now() -> Duration {
    Duration::from_nanos(VIRTUAL.with(|v| v.get()).unwrap_or(0))
}
pub fn advance(d: Duration) {
    VIRTUAL.with(|v| v.set(Some(v.get().unwrap_or(0) + d.as_nanos() as u64)))
}
