//! A counting allocator: remembers, per thread, the largest single request and the peak of
//! live bytes since it was last reset, so that "does not allocate more than the device is
//! long" can be observed. Very large requests are served by untouched mappings, so that a
//! library asking for too much is reported instead of taking the sandbox down.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LARGEST: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

const HUGE: usize = 1 << 30;

pub struct Counting;

fn note(n: usize) {
    let _ = LARGEST.try_with(|l| l.set(l.get().max(n as u64)));
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}

unsafe fn huge(n: usize) -> *mut u8 {
    let p = libc::mmap(
        std::ptr::null_mut(),
        n,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        std::ptr::null_mut()
    } else {
        p as *mut u8
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() >= HUGE {
            return huge(l.size());
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() >= HUGE {
            return huge(l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|v| v.set(v.get() - l.size() as i64));
        if l.size() >= HUGE {
            libc::munmap(p as *mut libc::c_void, l.size());
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() >= HUGE || n >= HUGE {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        note(n);
        let _ = LIVE.try_with(|v| v.set(v.get() - l.size() as i64));
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

/// Runs `f`; returns its result, the largest single request and the peak of additional live
/// bytes on this thread while it ran.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    LARGEST.with(|l| l.set(0));
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let largest = LARGEST.with(|l| l.get());
    let peak = PEAK.with(|p| p.get()) - base;
    (r, largest, peak.max(0) as u64)
}
