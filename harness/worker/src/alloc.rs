//! Global allocator. While armed (around a gemm call) every allocation lies in its own mapping,
//! flush against an unmapped page, filled with NaN patterns, with canaries in the slack; the
//! layout is checked on release, live bytes are counted, and a chosen allocation can fail.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};

pub struct Guarded;

pub static ARMED: AtomicBool = AtomicBool::new(false);
pub static COUNT: AtomicUsize = AtomicUsize::new(0);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static FAIL_AT: AtomicI64 = AtomicI64::new(-1);
pub static FAILED: AtomicUsize = AtomicUsize::new(0);
/// first problem seen: 1 canary above, 2 canary below, 3 layout mismatch, 4 table full
pub static TROUBLE: AtomicUsize = AtomicUsize::new(0);

/// fill of fresh memory: all ones is a NaN of every float type
pub static POISON: AtomicUsize = AtomicUsize::new(0xFF);

const SLOTS: usize = 4096;
const PAGE: usize = 4096;

#[derive(Clone, Copy)]
struct Slot { ptr: usize, size: usize, align: usize, base: usize, len: usize }
static LOCK: AtomicBool = AtomicBool::new(false);
static mut TABLE: [Slot; SLOTS] = [Slot { ptr: 0, size: 0, align: 0, base: 0, len: 0 }; SLOTS];
static USED: AtomicUsize = AtomicUsize::new(0);

fn locked<R>(f: impl FnOnce(&mut [Slot; SLOTS]) -> R) -> R {
    while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() { std::hint::spin_loop() }
    let r = unsafe { f(&mut *std::ptr::addr_of_mut!(TABLE)) };
    LOCK.store(false, SeqCst);
    r
}

unsafe fn guarded_alloc(l: Layout) -> *mut u8 {
    let n = COUNT.fetch_add(1, SeqCst) as i64;
    if FAIL_AT.load(SeqCst) == n { FAILED.fetch_add(1, SeqCst); return std::ptr::null_mut() }
    let align = l.align().max(1);
    let body = (l.size() + align + PAGE - 1) / PAGE * PAGE;
    let len = body + 2 * PAGE;
    let base = libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if base == libc::MAP_FAILED { return std::ptr::null_mut() }
    let base = base as usize;
    if libc::mprotect((base + PAGE) as *mut _, body, libc::PROT_READ | libc::PROT_WRITE) != 0 { return std::ptr::null_mut() }
    let end = base + PAGE + body;
    let ptr = (end - l.size()) & !(align - 1);
    libc::memset((base + PAGE) as *mut _, 0xA5, ptr - base - PAGE);
    libc::memset(ptr as *mut _, POISON.load(SeqCst) as i32, l.size());
    libc::memset((ptr + l.size()) as *mut _, 0xA5, end - ptr - l.size());
    let ok = locked(|t| {
        let used = USED.load(SeqCst);
        for s in t.iter_mut() {
            if s.ptr == 0 {
                *s = Slot { ptr, size: l.size(), align: l.align(), base, len };
                USED.store(used + 1, SeqCst);
                return true;
            }
        }
        false
    });
    if !ok { TROUBLE.store(4, SeqCst); return std::ptr::null_mut() }
    let live = LIVE.fetch_add(l.size() as i64, SeqCst) + l.size() as i64;
    PEAK.fetch_max(live, SeqCst);
    ptr as *mut u8
}

unsafe fn check(s: &Slot) {
    let end = s.base + s.len - PAGE;
    for x in s.ptr + s.size..end { if *(x as *const u8) != 0xA5 { TROUBLE.store(1, SeqCst); break } }
    for x in s.base + PAGE..s.ptr { if *(x as *const u8) != 0xA5 { TROUBLE.store(2, SeqCst); break } }
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED.load(SeqCst) { guarded_alloc(l) } else { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ARMED.load(SeqCst) {
            let p = guarded_alloc(l);
            if !p.is_null() { libc::memset(p as *mut _, 0, l.size()); }
            p
        } else { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if USED.load(SeqCst) > 0 {
            let s = locked(|t| {
                for s in t.iter_mut() {
                    if s.ptr == p as usize {
                        let c = *s;
                        s.ptr = 0;
                        USED.fetch_sub(1, SeqCst);
                        return Some(c);
                    }
                }
                None
            });
            if let Some(s) = s {
                check(&s);
                if s.size != l.size() || s.align != l.align() { TROUBLE.store(3, SeqCst) }
                LIVE.fetch_sub(s.size as i64, SeqCst);
                libc::munmap(s.base as *mut _, s.len);
                return;
            }
        }
        System.dealloc(p, l)
    }
}

/// Look over everything still live.
pub fn check_live() { locked(|t| for s in t.iter() { if s.ptr != 0 { unsafe { check(s) } } }) }

/// Is this address in (or just around) a guarded allocation?
pub fn owns(addr: usize) -> bool {
    // called from the fault handler: no locking
    unsafe { (*std::ptr::addr_of!(TABLE)).iter().any(|s| s.ptr != 0 && addr >= s.base && addr < s.base + s.len) }
}
