//! Memory for one matrix: only the pages its elements touch are accessible.
use mmcase::{offset_range, Lay};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub const PAGE: usize = 4096;

/// (r, c, rs, cs)
pub type View = (usize, usize, i64, i64);

pub struct Region {
    base: *mut u8,
    len: usize,
    /// address of element (0, 0)
    pub origin: *mut u8,
    pub esz: usize,
    /// accessible runs: (byte offset from base, length)
    pub runs: Vec<(usize, usize)>,
    slot: usize,
}

// registry for the fault handler: (base, len, kind)
pub static REG: [(AtomicUsize, AtomicUsize, AtomicUsize); 64] =
    [const { (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)) }; 64];

fn register(base: usize, len: usize, kind: u8) -> usize {
    for (i, r) in REG.iter().enumerate() {
        if r.0.compare_exchange(0, base, SeqCst, SeqCst).is_ok() {
            r.1.store(len, SeqCst);
            r.2.store(kind as usize, SeqCst);
            return i;
        }
    }
    usize::MAX
}

pub fn each_elem(v: &View, mut f: impl FnMut(i64)) {
    for i in 0..v.0 { for j in 0..v.1 { f(v.2 * i as i64 + v.3 * j as i64) } }
}

impl Region {
    /// None when there are no elements.
    pub fn new(kind: u8, views: &[View], lay: &Lay, esz: usize, rsz: usize) -> Result<Option<Region>, String> {
        let mut lo = i64::MAX;
        let mut hi = i64::MIN;
        for v in views {
            if let Some((a, b)) = offset_range(v.0, v.1, v.2, v.3) { lo = lo.min(a); hi = hi.max(b) }
        }
        if lo > hi { return Ok(None) }
        let span = (hi as i128 - lo as i128 + 1) * esz as i128;
        if span > 1 << 45 { return Err("span too large".into()) }
        let span = span as usize;
        let slack = lay.mis as usize * rsz;
        let data = (span + slack + PAGE - 1) / PAGE * PAGE;
        let len = data + 2 * PAGE;
        let base = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        if base == libc::MAP_FAILED { return Err("mmap failed".into()) }
        let base = base as *mut u8;
        // byte offset from base of the lowest element
        let low = if lay.end { PAGE + data - slack - span } else { PAGE + slack };
        let origin = unsafe { base.offset(low as isize - lo as isize * esz as isize) };
        let o0 = low as i64 - lo * esz as i64;
        // touched pages
        let mut runs: Vec<(usize, usize)> = vec![];
        let npages = data / PAGE + 2;
        let dense = |v: &View| (v.0 * v.1) as u64 * esz as u64 * 4 >= span as u64 && (v.0 <= 1 || (v.2.unsigned_abs() as usize).saturating_mul(esz) <= PAGE) && (v.1 <= 1 || (v.3.unsigned_abs() as usize).saturating_mul(esz) <= PAGE) && (v.0 * v.1) > 4096;
        if npages <= 4 || views.iter().any(dense) {
            runs.push((low / PAGE * PAGE, (low + span + PAGE - 1) / PAGE * PAGE - low / PAGE * PAGE));
        } else if npages <= 1 << 22 {
            let mut bits = vec![0u64; npages / 64 + 1];
            for v in views {
                each_elem(v, |off| {
                    let x = (o0 + off * esz as i64) as usize;
                    let (p, q) = (x / PAGE, (x + esz - 1) / PAGE);
                    bits[p / 64] |= 1 << (p % 64);
                    bits[q / 64] |= 1 << (q % 64);
                });
            }
            let mut p = 0;
            while p < npages {
                if bits[p / 64] == 0 { p = (p / 64 + 1) * 64; continue }
                if bits[p / 64] >> (p % 64) & 1 == 1 {
                    let s = p;
                    while p < npages && bits[p / 64] >> (p % 64) & 1 == 1 { p += 1 }
                    runs.push((s * PAGE, (p - s) * PAGE));
                } else { p += 1 }
            }
        } else {
            let mut set = std::collections::BTreeSet::new();
            for v in views {
                each_elem(v, |off| {
                    let x = (o0 + off * esz as i64) as usize;
                    set.insert(x / PAGE);
                    set.insert((x + esz - 1) / PAGE);
                });
            }
            for p in set {
                match runs.last_mut() {
                    Some(r) if r.0 + r.1 == p * PAGE => r.1 += PAGE,
                    _ => runs.push((p * PAGE, PAGE)),
                }
            }
        }
        let r = Region { base, len, origin, esz, runs, slot: register(base as usize, len, kind) };
        if r.runs.len() > 30000 { return Err("too many runs".into()) }
        r.protect(libc::PROT_READ | libc::PROT_WRITE)?;
        Ok(Some(r))
    }

    pub fn protect(&self, prot: i32) -> Result<(), String> {
        for &(o, l) in &self.runs {
            if unsafe { libc::mprotect(self.base.add(o) as *mut _, l, prot) } != 0 { return Err("mprotect failed".into()) }
        }
        Ok(())
    }

    pub fn at(&self, off: i64) -> *mut u8 { unsafe { self.origin.offset(off as isize * self.esz as isize) } }

    /// Fill all accessible memory with a pattern that would show up if it were used.
    pub fn fill(&self, gap: u8, is32: bool, seed: u64) {
        for &(o, l) in &self.runs {
            let p = unsafe { self.base.add(o) };
            match gap {
                0 => if is32 {
                    let s = unsafe { std::slice::from_raw_parts_mut(p as *mut u32, l / 4) };
                    s.fill(0x7fa0_1234);
                } else {
                    let s = unsafe { std::slice::from_raw_parts_mut(p as *mut u64, l / 8) };
                    s.fill(0x7ff4_0000_1234_5678);
                },
                1 => if is32 {
                    let s = unsafe { std::slice::from_raw_parts_mut(p as *mut u32, l / 4) };
                    for (i, x) in s.iter_mut().enumerate() { *x = ((mmcase::mix(seed ^ i as u64) as u32 % 4096) as f32 + 0.37).to_bits() }
                } else {
                    let s = unsafe { std::slice::from_raw_parts_mut(p as *mut u64, l / 8) };
                    for (i, x) in s.iter_mut().enumerate() { *x = ((mmcase::mix(seed ^ i as u64) as u32 % 4096) as f64 + 0.37).to_bits() }
                },
                _ => unsafe { std::ptr::write_bytes(p, 0xFF, l) },
            }
        }
    }

    /// Mark everything that is no element of the views as out of bounds (or back).
    #[cfg(mm_asan)]
    pub fn mark(&self, views: &[View], on: bool) {
        for &(o, l) in &self.runs { unsafe { crate::asan::unpoison(self.base.add(o), l) } }
        if !on { return }
        // byte ranges of the elements, sorted
        let mut el: Vec<usize> = vec![];
        for v in views { each_elem(v, |off| el.push(self.at(off) as usize)) }
        el.sort_unstable();
        el.dedup();
        let mut i = 0;
        for &(o, l) in &self.runs {
            let (s, e) = (self.base as usize + o, self.base as usize + o + l);
            let mut at = s;
            while i < el.len() && el[i] < e {
                if el[i] > at { unsafe { crate::asan::poison(at as *const u8, el[i] - at) } }
                at = at.max(el[i] + self.esz);
                i += 1;
            }
            if at < e { unsafe { crate::asan::poison(at as *const u8, e - at) } }
        }
    }

    pub fn snapshot(&self) -> Vec<Vec<u8>> {
        self.runs.iter().map(|&(o, l)| unsafe { std::slice::from_raw_parts(self.base.add(o), l).to_vec() }).collect()
    }

    pub fn restore(&self, snap: &[Vec<u8>]) {
        for (&(o, l), s) in self.runs.iter().zip(snap) { unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.base.add(o), l) } }
    }

    /// byte of the snapshot at this address
    pub fn snap_slice<'s>(&self, snap: &'s [Vec<u8>], off: i64, n: usize) -> &'s [u8] {
        let x = self.at(off) as usize - self.base as usize;
        let i = match self.runs.binary_search_by(|r| r.0.cmp(&x)) { Ok(i) => i, Err(i) => i - 1 };
        let s = x - self.runs[i].0;
        &snap[i][s..s + n]
    }

    /// First difference from the snapshot: byte distance from the origin.
    pub fn diff(&self, snap: &[Vec<u8>]) -> Option<(i64, u8, u8)> {
        for (&(o, l), s) in self.runs.iter().zip(snap) {
            let now = unsafe { std::slice::from_raw_parts(self.base.add(o), l) };
            if now != &s[..] {
                let i = now.iter().zip(s).position(|(a, b)| a != b).unwrap();
                return Some((self.base as i64 + (o + i) as i64 - self.origin as i64, s[i], now[i]));
            }
        }
        None
    }
}

impl Drop for Region {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base as *mut _, self.len); }
        if self.slot != usize::MAX { REG[self.slot].0.store(0, SeqCst) }
    }
}
