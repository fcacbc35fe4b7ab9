//! Allocation meter: counts live bytes of the current thread while armed, and stops the process (exit 42, after
//! writing an event to the trace) when one request or the live total goes beyond the armed limit.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI32, Ordering};

pub struct Meter;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(0) };
}
pub static TRACE_FD: AtomicI32 = AtomicI32::new(-1);

extern "C" {
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
pub fn emergency(line: &[u8], code: i32) -> ! {
    unsafe {
        let fd = TRACE_FD.load(Ordering::SeqCst);
        if fd >= 0 {
            write(fd, line.as_ptr(), line.len());
        }
        _exit(code)
    }
}
fn add(n: usize) {
    let _ = LIMIT.try_with(|l| {
        let lim = l.get();
        if lim > 0 {
            let v = LIVE.with(|x| {
                let v = x.get() + n as i64;
                x.set(v);
                v
            });
            PEAK.with(|p| if v > p.get() { p.set(v) });
            if n as u128 > lim as u128 || v > lim {
                l.set(0);
                emergency(b"{\"e\":\"Died\",\"why\":\"allocation out of proportion\"}\n", 42);
            }
        }
    });
}
fn sub(n: usize) {
    let _ = LIMIT.try_with(|l| {
        if l.get() > 0 {
            LIVE.with(|x| x.set(x.get() - n as i64));
        }
    });
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
}
/// Runs `f` with the meter armed; returns the peak of live bytes allocated inside.
pub fn metered<T>(limit: i64, f: impl FnOnce() -> T) -> (T, u64) {
    LIVE.with(|x| x.set(0));
    PEAK.with(|x| x.set(0));
    LIMIT.with(|x| x.set(limit));
    let r = f();
    LIMIT.with(|x| x.set(0));
    (r, PEAK.with(|x| x.get()).max(0) as u64)
}
