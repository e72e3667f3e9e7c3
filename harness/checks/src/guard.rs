//! Deterministic work bound: bytes allocated by the current thread during one case. A case that
//! allocates far more than any case of the generators' domain does is cut off with exit code 77
//! (the parent confirms it in a fresh process). Plus a CPU-time watchdog (exit code 78).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

pub const EXIT_ALLOC: i32 = 77;
pub const EXIT_CPU: i32 = 78;
/// cumulative bytes per case
pub static LIMIT: AtomicU64 = AtomicU64::new(4 << 30);
pub static PEAK: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static USED: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn account(n: usize) {
    let _ = ACTIVE.try_with(|a| {
        if a.get() {
            let _ = USED.try_with(|u| {
                let v = u.get() + n as u64;
                u.set(v);
                if v > LIMIT.load(Ordering::Relaxed) {
                    unsafe { libc::_exit(EXIT_ALLOC) }
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n);
        unsafe { System.realloc(p, l, n) }
    }
}

pub fn begin() {
    USED.with(|u| u.set(0));
    ACTIVE.with(|a| a.set(true));
}
pub fn end() {
    ACTIVE.with(|a| a.set(false));
    let v = USED.with(Cell::get);
    PEAK.fetch_max(v, Ordering::Relaxed);
}

/// Runs oracle code without counting its allocations.
pub fn uncounted<R>(f: impl FnOnce() -> R) -> R {
    let was = ACTIVE.with(|a| a.replace(false));
    let r = f();
    ACTIVE.with(|a| a.set(was));
    r
}

/// CPU seconds of a thread of this process.
fn thread_cpu(tid: usize) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ut: f64 = f.get(11)?.parse().ok()?;
    let st: f64 = f.get(12)?.parse().ok()?;
    Some((ut + st) / 100.0)
}

/// Ends the process with exit code 78 when one case has used more than `limit` CPU seconds.
pub fn watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut last = [(0u64, 0f64); crate::fw::SHARDS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for (i, l) in last.iter_mut().enumerate() {
                let slot = crate::fw::SLOTS[i].load(Ordering::Relaxed);
                let tid = crate::fw::TIDS[i].load(Ordering::Relaxed);
                if slot == 0 || tid == 0 {
                    continue;
                }
                let Some(cpu) = thread_cpu(tid) else { continue };
                if l.0 != slot {
                    *l = (slot, cpu);
                } else if cpu - l.1 > limit {
                    unsafe { libc::_exit(EXIT_CPU) }
                }
            }
        }
    });
}
