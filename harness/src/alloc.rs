//! Counting allocator: live and peak bytes of the current thread's case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
/// Bytes a case may hold at a time, 0 = unlimited. No case of any check comes near the default.
pub static LIMIT: AtomicUsize = AtomicUsize::new(2 << 30);

fn note(delta: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + delta;
        l.set(v);
        if delta > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v);
                }
            });
            let lim = LIMIT.load(Ordering::Relaxed);
            if lim != 0 && v > lim as isize {
                let _ = BUSY.try_with(|b| {
                    if !b.get() {
                        b.set(true);
                        let slot = crate::report::watch::CUR.try_with(|c| c.borrow().clone()).ok().flatten();
                        if let Some(s) = slot {
                            let part = s.part.lock().map(|p| p.clone()).unwrap_or_default();
                            crate::report::watch::fatal(
                                &part,
                                s.case.load(Ordering::SeqCst),
                                "memory out of proportion",
                                serde_json::json!({"bytes_live_or_requested": v, "limit": lim, "part": part}),
                            );
                        }
                        b.set(false);
                    }
                });
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}

pub fn reset() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
}
pub fn peak() -> usize {
    PEAK.with(|p| p.get().max(0) as usize)
}
pub fn mark() -> isize {
    let l = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l));
    l
}
/// Peak above the mark
pub fn peak_since(mark: isize) -> usize {
    (PEAK.with(|p| p.get()) - mark).max(0) as usize
}
