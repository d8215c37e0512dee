//! Guidance for the search: edge counters and comparisons of the instrumented crate.
//! The crate is compiled with LLVM's sancov pass (harness/covwrap.sh); these are its callbacks.
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

const MODULES: usize = 256;
static RANGES: [(AtomicUsize, AtomicUsize); MODULES] = [const { (AtomicUsize::new(0), AtomicUsize::new(0)) }; MODULES];
static NRANGES: AtomicUsize = AtomicUsize::new(0);

/// One comparison in the code; the first few distinct operand pairs it saw since the last look.
const PAIRS: usize = 4;
struct Site { pc: AtomicUsize, n: AtomicU32, pairs: [(AtomicU64, AtomicU64); PAIRS] }
const SITES: usize = 8192;
static TABLE: [Site; SITES] = [const { Site { pc: AtomicUsize::new(0), n: AtomicU32::new(0), pairs: [const { (AtomicU64::new(0), AtomicU64::new(0)) }; PAIRS] } }; SITES];
/// how close the two sides of each comparison came
const PROFILE: usize = 1 << 18;
static NEAR: [AtomicU8; PROFILE] = [const { AtomicU8::new(0) }; PROFILE];

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let (s, e) = (start as usize, stop as usize);
    for i in 0..NRANGES.load(Relaxed) { if RANGES[i].0.load(Relaxed) == s { return } }
    let i = NRANGES.load(Relaxed);
    if i < MODULES { RANGES[i].0.store(s, Relaxed); RANGES[i].1.store(e, Relaxed); NRANGES.store(i + 1, Relaxed) }
}

extern "C" fn cmp(a: u64, b: u64, pc: usize) {
    // the same in every process
    let pc = pc.wrapping_sub(cmp as *const () as usize);
    let h = pc.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40;
    let d = (a.wrapping_sub(b) as i64).unsigned_abs();
    let near = 64 - d.leading_zeros();
    let agree = (a ^ b).count_ones();
    NEAR[(h * 131 + near as usize) & (PROFILE - 1)].store(1, Relaxed);
    NEAR[(h * 131 + 65 + agree as usize) & (PROFILE - 1)].store(1, Relaxed);
    let s = &TABLE[h & (SITES - 1)];
    let n = s.n.load(Relaxed) as usize;
    if n >= PAIRS { return }
    s.pc.store(pc, Relaxed);
    for i in 0..n { if s.pairs[i].0.load(Relaxed) == a && s.pairs[i].1.load(Relaxed) == b { return } }
    s.pairs[n].0.store(a, Relaxed);
    s.pairs[n].1.store(b, Relaxed);
    s.n.store(n as u32 + 1, Relaxed);
}
extern "C" fn cmp4(a: u32, b: u32, pc: usize) { cmp(a as i32 as i64 as u64, b as i32 as i64 as u64, pc) }
extern "C" fn cmp2(a: u16, b: u16, pc: usize) { cmp(a as u64, b as u64, pc) }
extern "C" fn cmp1(a: u8, b: u8, pc: usize) { cmp(a as u64, b as u64, pc) }
extern "C" fn switch(v: u64, cases: *const u64, pc: usize) {
    unsafe {
        let n = *cases as usize;
        for i in 0..n.min(16) { cmp(v, *cases.add(2 + i), pc.wrapping_add(i)) }
    }
}

macro_rules! hook {
    ($($name:ident => $to:ident),*) => { $(
        #[no_mangle]
        #[unsafe(naked)]
        pub unsafe extern "C" fn $name() { core::arch::naked_asm!("mov rdx, qword ptr [rsp]", "jmp {f}", f = sym $to) }
    )* }
}
hook!(__sanitizer_cov_trace_cmp8 => cmp, __sanitizer_cov_trace_const_cmp8 => cmp, __sanitizer_cov_trace_cmp4 => cmp4, __sanitizer_cov_trace_const_cmp4 => cmp4,
    __sanitizer_cov_trace_cmp2 => cmp2, __sanitizer_cov_trace_const_cmp2 => cmp2, __sanitizer_cov_trace_cmp1 => cmp1, __sanitizer_cov_trace_const_cmp1 => cmp1,
    __sanitizer_cov_trace_switch => switch);

/// What this process has reached: edges in classes of how often, and nearness of comparisons.
#[derive(Default)]
pub struct Seen { edges: Vec<u8>, near: Vec<u8>, pub total: usize }

impl Seen {
    /// Look at what happened since the last look: (new features, operand pairs).
    pub fn look(&mut self) -> (usize, usize, Vec<(u32, i64, i64)>) {
        let mut new = 0;
        let mut at = 0;
        for i in 0..NRANGES.load(Relaxed) {
            let (s, e) = (RANGES[i].0.load(Relaxed), RANGES[i].1.load(Relaxed));
            for p in s..e {
                if self.edges.len() <= at { self.edges.push(0) }
                let n = unsafe { std::ptr::replace(p as *mut u8, 0) };
                let class = match n { 0 => 0u8, 1 => 1, 2 => 2, 3 => 4, 4..=7 => 8, 8..=15 => 16, 16..=31 => 32, 32..=127 => 64, _ => 128 };
                if self.edges[at] & class != class { self.edges[at] |= class; new += 1 }
                at += 1;
            }
        }
        if self.near.is_empty() { self.near.resize(PROFILE, 0) }
        let mut close = 0;
        for (s, n) in self.near.iter_mut().zip(&NEAR) {
            if n.load(Relaxed) != 0 { n.store(0, Relaxed); if *s == 0 { *s = 1; close += 1 } }
        }
        self.total += new + close;
        let mut pairs = vec![];
        for (x, s) in TABLE.iter().enumerate() {
            let n = s.n.load(Relaxed) as usize;
            for i in 0..n.min(PAIRS) {
                let (a, b) = (s.pairs[i].0.load(Relaxed) as i64, s.pairs[i].1.load(Relaxed) as i64);
                // addresses are of no use
                if a != b && a.unsigned_abs() < 1 << 42 && b.unsigned_abs() < 1 << 42 { pairs.push((x as u32, a, b)) }
            }
            s.n.store(0, Relaxed);
        }
        (new, close, pairs)
    }
}
