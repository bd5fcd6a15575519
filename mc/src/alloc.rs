//! Counting allocator: per-thread live/peak byte counts, and a cheap global live estimate that the
//! watchdog uses to stop a case whose memory grows without bound.
//!
//! With `--cfg mc_strict` (an AddressSanitizer build) it also checks the layout given to every
//! deallocation, gives out addresses that have the asked alignment and not the next larger one, and
//! moves every block that is reallocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Counting;

static GLOBAL: AtomicI64 = AtomicI64::new(0);
const FLUSH: i64 = 1 << 20;

thread_local! {
    static DELTA: Cell<i64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

#[inline]
fn add(n: i64) {
    let _ = DELTA.try_with(|d| {
        let v = d.get() + n;
        if v.abs() > FLUSH {
            GLOBAL.fetch_add(v, Ordering::Relaxed);
            d.set(0);
        } else {
            d.set(v);
        }
    });
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}

#[cfg(not(mc_strict))]
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        add(new as i64 - l.size() as i64);
        System.realloc(p, l, new)
    }
}

#[cfg(mc_strict)]
mod strict {
    use super::*;
    extern "C" {
        fn __asan_poison_memory_region(p: *const u8, n: usize);
        fn __asan_unpoison_memory_region(p: *const u8, n: usize);
    }
    const MAGIC: u64 = 0x5AFE_B10C_0F5A_FE00;

    fn fatal(what: &str, a: [u64; 4]) -> ! {
        // No allocation here.
        let mut buf = [0u8; 400];
        let mut w = std::io::Cursor::new(&mut buf[..]);
        use std::io::Write;
        let _ = writeln!(w, "MEMORY: {what}: size {} align {} at the allocation, size {} align {} at the deallocation", a[0], a[1], a[2], a[3]);
        let n = w.position() as usize;
        let _ = std::io::stderr().write_all(&buf[..n]);
        std::process::abort()
    }
    /// Distance from the start of the underlying block: aligned, but not to twice the alignment.
    fn head(l: Layout) -> usize {
        let a = l.align();
        let mut h = a;
        while h < 32 {
            h += 2 * a;
        }
        h
    }
    fn under(l: Layout) -> Option<(Layout, usize)> {
        let h = head(l);
        let n = l.size().checked_add(h)?;
        Layout::from_size_align(n, (2 * l.align()).max(16)).ok().map(|u| (u, h))
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if l.size() == 0 {
                fatal("allocation of zero bytes", [0, l.align() as u64, 0, 0]);
            }
            let Some((u, h)) = under(l) else { return std::ptr::null_mut() };
            let b = System.alloc(u);
            if b.is_null() {
                return b;
            }
            add(l.size() as i64);
            let p = b.add(h);
            p.sub(8).cast::<u64>().write_unaligned(MAGIC ^ l.size() as u64);
            p.sub(16).cast::<u64>().write_unaligned(l.size() as u64);
            p.sub(24).cast::<u64>().write_unaligned(l.align() as u64);
            __asan_poison_memory_region(b, h);
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            // A block of another layout may have another start: look at the words just before.
            __asan_unpoison_memory_region(p.sub(24), 24);
            let magic = p.sub(8).cast::<u64>().read_unaligned();
            let size = p.sub(16).cast::<u64>().read_unaligned();
            let align = p.sub(24).cast::<u64>().read_unaligned();
            let a = [size, align, l.size() as u64, l.align() as u64];
            if magic != MAGIC ^ size {
                fatal("deallocation of something that is not an allocated block, or was overwritten", a);
            }
            if size != l.size() as u64 || align != l.align() as u64 {
                fatal("deallocation with another layout", a);
            }
            add(-(l.size() as i64));
            let (u, h) = under(l).unwrap();
            __asan_unpoison_memory_region(p.sub(h), h);
            p.sub(8).cast::<u64>().write_unaligned(0);
            System.dealloc(p.sub(h), u)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        }
        // realloc: the default, which always moves the block.
    }
}

thread_local! {
    static SHARED: Cell<bool> = const { Cell::new(false) };
}
/// Blocks of the running case may be allocated and freed on different threads: no leak accounting.
pub fn shared() {
    SHARED.with(|s| s.set(true));
}
/// Bytes that `f` leaves allocated on this thread, unless it shares blocks with other threads.
pub fn left_by<T>(f: impl FnOnce() -> T) -> (T, Option<i64>) {
    SHARED.with(|s| s.set(false));
    let l = LIVE.with(|l| l.get());
    let r = f();
    let d = LIVE.with(|l| l.get()) - l;
    (r, if SHARED.with(|s| s.get()) { None } else { Some(d) })
}
/// Runs `f` without counting what it allocates.
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    let l = LIVE.with(|l| l.get());
    let r = f();
    LIVE.with(|c| c.set(l));
    r
}

pub fn global_live() -> i64 {
    GLOBAL.load(Ordering::Relaxed)
}
/// Starts a peak measurement on this thread and returns the live byte count at that point.
pub fn peak_start() -> i64 {
    let l = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l));
    l
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
