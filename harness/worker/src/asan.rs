//! AddressSanitizer builds: the bytes of a region that belong to no element are marked as out of
//! bounds while the call runs, and reports are collected.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

extern "C" {
    fn __asan_poison_memory_region(p: *const u8, n: usize);
    fn __asan_unpoison_memory_region(p: *const u8, n: usize);
    fn __asan_set_error_report_callback(f: extern "C" fn(*const std::ffi::c_char));
}

pub static READS: AtomicUsize = AtomicUsize::new(0);
pub static WRITES: AtomicUsize = AtomicUsize::new(0);
pub static FIRST: Mutex<String> = Mutex::new(String::new());

extern "C" fn on_report(s: *const std::ffi::c_char) {
    let s = unsafe { std::ffi::CStr::from_ptr(s) }.to_string_lossy();
    let w = s.contains("WRITE of size");
    if w { WRITES.fetch_add(1, SeqCst) } else { READS.fetch_add(1, SeqCst) };
    if let Ok(mut f) = FIRST.lock() {
        if f.is_empty() || (w && !f.starts_with("WRITE")) {
            let l = |p: &str| s.lines().find(|l| l.contains(p)).unwrap_or("").trim().to_string();
            let what = l("of size");
            let frame = s.lines().find(|l| l.contains("matrixmultiply")).unwrap_or("").trim().to_string();
            *f = format!("{what} ({}) {frame}", l("ERROR: AddressSanitizer").split(" on ").next().unwrap_or(""));
        }
    }
}

pub fn install() { unsafe { __asan_set_error_report_callback(on_report) } }
pub fn reset() {
    READS.store(0, SeqCst);
    WRITES.store(0, SeqCst);
    if let Ok(mut f) = FIRST.lock() { f.clear() }
}

/// Mark [p, p+n) as out of bounds as far as the granules allow; false where the first bytes of a
/// granule would have to be.
pub unsafe fn poison(p: *const u8, n: usize) {
    let e = (p as usize + n) & !7;
    if e > p as usize { __asan_poison_memory_region(p, e - p as usize) }
}
pub unsafe fn unpoison(p: *const u8, n: usize) { __asan_unpoison_memory_region(p, n) }
