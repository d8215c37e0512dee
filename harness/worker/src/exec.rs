//! Prepare, perform and judge one gemm call.
use crate::alloc;
use crate::regions::{each_elem, Region};
use mmcase::*;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Debug)]
pub struct Fail { pub cat: &'static str, pub msg: String }
pub fn fail<T>(cat: &'static str, msg: impl Into<String>) -> Result<T, Fail> { Err(Fail { cat, msg: msg.into() }) }

#[derive(Default, Clone, Copy)]
pub struct Info { pub hash: u64, pub shash: u64, pub peak: i64, pub live: i64, pub count: usize }

pub struct Prep {
    pub c: Case,
    la: Vec<f64>, lb: Vec<f64>, lc: Vec<f64>,
    ra: Option<Region>, rb: Option<Region>, rc: Option<Region>,
    snap: Vec<Vec<u8>>,
    /// hash of the result with its power-of-two unit divided out
    pub shash: std::sync::atomic::AtomicU64,
}
unsafe impl Send for Prep {}
unsafe impl Sync for Prep {}

fn put(p: *mut u8, is32: bool, v: f64) {
    unsafe { if is32 { *(p as *mut f32) = v as f32 } else { *(p as *mut f64) = v } }
}
pub fn get(p: *const u8, is32: bool) -> f64 {
    unsafe { if is32 { *(p as *const f32) as f64 } else { *(p as *const f64) } }
}
fn bits(p: *const u8, is32: bool) -> u64 {
    let b = unsafe { if is32 { *(p as *const u32) as u64 } else { *(p as *const u64) } };
    if get(p, is32).is_nan() { 0x7ff8_dead } else { b }
}

pub fn env_fail<T>(r: Result<T, String>) -> Result<T, Fail> { r.map_err(|m| Fail { cat: "env", msg: m }) }

impl Prep {
    pub fn new(c: &Case) -> Result<Prep, Fail> {
        let (esz, rsz) = (c.ty.esz(), c.ty.rsz());
        let is32 = c.ty.is32();
        let nc = c.ty.comps();
        let vals = Values::new(c);
        let empty_out = c.m == 0 || c.n == 0;
        // what may not be read is not even mapped
        let have_a = !empty_out && c.k > 0;
        let va = (c.m, c.k, c.a.rs, c.a.cs);
        let vb = (c.k, c.n, c.b.rs, c.b.cs);
        let vc = (c.m, c.n, c.c.rs, c.c.cs);
        let e = exps(c);
        let (la, lb) = if empty_out { (vec![], vec![]) } else { (vals.logical(0), vals.logical(1)) };
        let lc = if empty_out { vec![] } else { vals.logical(2) };
        let store = |r: &Region, v: &(usize, usize, i64, i64), l: &[f64], ex: i32| {
            let mut idx = 0;
            each_elem(v, |off| {
                let p = r.at(off);
                for q in 0..nc {
                    let x = l[idx + q];
                    put(unsafe { p.add(q * rsz) }, is32, if ex == 0 || !x.is_finite() { x } else { scale2(x, ex) });
                }
                idx += nc;
            });
        };
        let mut ra = None;
        let mut rb = None;
        if have_a {
            let views: &[_] = if c.alias { &[va, vb] } else { &[va] };
            let r = env_fail(Region::new(b'A', views, &c.a, esz, rsz))?.unwrap();
            r.fill(c.gap, is32, c.seed);
            store(&r, &va, &la, e[0]);
            if c.alias { store(&r, &vb, &lb, e[0]) }
            env_fail(r.protect(libc::PROT_READ))?;
            ra = Some(r);
            if !c.alias {
                let r = env_fail(Region::new(b'B', &[vb], &c.b, esz, rsz))?.unwrap();
                r.fill(c.gap, is32, c.seed ^ 1);
                store(&r, &vb, &lb, e[1]);
                env_fail(r.protect(libc::PROT_READ))?;
                rb = Some(r);
            }
        }
        let rc = if empty_out { None } else { env_fail(Region::new(b'C', &[vc], &c.c, esz, rsz))? };
        let mut snap = vec![];
        if let Some(r) = &rc {
            r.fill(c.gap, is32, c.seed ^ 2);
            if c.cinit == 3 {
                let mut t = 0u64;
                each_elem(&vc, |off| for q in 0..nc {
                    t += 1;
                    let p = unsafe { r.at(off).add(q * rsz) };
                    unsafe { match (t % 3, is32) {
                        (0, true) => *(p as *mut u32) = 0x7fa0_1234,
                        (1, true) => *(p as *mut u32) = 0xffff_ffff,
                        (_, true) => *(p as *mut u32) = 0x7f7f_ffff,
                        (0, false) => *(p as *mut u64) = 0x7ff4_0000_0000_1234,
                        (1, false) => *(p as *mut u64) = !0,
                        (_, false) => *(p as *mut u64) = 0x7fef_ffff_ffff_ffff,
                    } }
                });
            } else {
                store(r, &vc, &lc, e[2]);
            }
            snap = r.snapshot();
        }
        Ok(Prep { c: c.clone(), la, lb, lc, ra, rb, rc, snap, shash: Default::default() })
    }

    pub fn pointers(&self) -> (*const u8, *const u8, *mut u8) {
        let dangling = self.c.ty.rsz() as *mut u8;
        let a = self.ra.as_ref().map_or(dangling, |r| r.origin);
        let b = if self.c.alias { a } else { self.rb.as_ref().map_or(dangling, |r| r.origin) };
        (a, b, self.rc.as_ref().map_or(dangling, |r| r.origin))
    }

    /// The byte-exact watch of sanitizer builds.
    #[cfg(mm_asan)]
    fn mark(&self, on: bool) {
        let c = &self.c;
        let va = (c.m, c.k, c.a.rs, c.a.cs);
        let vb = (c.k, c.n, c.b.rs, c.b.cs);
        let both = [va, vb];
        if let Some(r) = &self.ra { r.mark(&both[..if c.alias { 2 } else { 1 }], on) }
        if let Some(r) = &self.rb { r.mark(&[vb], on) }
        if let Some(r) = &self.rc { r.mark(&[(c.m, c.n, c.c.rs, c.c.cs)], on) }
    }

    /// Run `f` with every byte that is no element of A, B or C out of bounds, where the build can.
    pub fn watched<R>(&self, f: impl FnOnce() -> R) -> Result<R, Fail> {
        #[cfg(mm_asan)]
        { crate::asan::reset(); self.mark(true); }
        let r = f();
        #[cfg(mm_asan)]
        {
            self.mark(false);
            let (rd, wr) = (crate::asan::READS.load(SeqCst), crate::asan::WRITES.load(SeqCst));
            if rd + wr > 0 {
                let m = crate::asan::FIRST.lock().map(|s| s.clone()).unwrap_or_default();
                return fail(if wr > 0 { "write:asan" } else { "read:asan" }, format!("{rd} reads and {wr} writes out of bounds; {m}"));
            }
        }
        Ok(r)
    }

    /// C and everything around it is as it was before the call.
    pub fn untouched(&self) -> bool { self.rc.as_ref().map_or(true, |r| r.diff(&self.snap).is_none()) }

    /// Put C back.
    pub fn rewind(&self) { if let Some(r) = &self.rc { r.restore(&self.snap) } }
    /// C's memory as it is now.
    pub fn result(&self) -> Vec<Vec<u8>> { self.rc.as_ref().map_or(vec![], |r| r.snapshot()) }
    /// How C differs from an earlier result (NaNs are all the same).
    pub fn drift(&self, was: &[Vec<u8>]) -> Option<String> {
        let r = self.rc.as_ref()?;
        r.diff(was)?;
        let c = &self.c;
        let (nc, rsz, is32) = (c.ty.comps(), c.ty.rsz(), c.ty.is32());
        let mut m = None;
        for i in 0..c.m { for j in 0..c.n {
            let off = c.c.rs * i as i64 + c.c.cs * j as i64;
            let old = r.snap_slice(was, off, c.ty.esz());
            for q in 0..nc {
                let (x, y) = (bits(unsafe { r.at(off).add(q * rsz) }, is32), bits(unsafe { old.as_ptr().add(q * rsz) }, is32));
                if x != y && m.is_none() { m = Some(format!("C[{i},{j}] became {x:#x} instead of {y:#x}")) }
            }
        } }
        m
    }

    /// Check C and everything around it; gives the hash of C's elements.
    pub fn judge(&self) -> Result<u64, Fail> {
        let (la, lb) = (&self.la[..], &self.lb[..]);
        let c = &self.c;
        let r = match &self.rc { None => return Ok(0), Some(r) => r };
        let (nc, rsz, is32, esz) = (c.ty.comps(), c.ty.rsz(), c.ty.is32(), c.ty.esz());
        let mut hash = 0xcbf2_9ce4_8422_2325u64;
        let mut err: Option<Fail> = None;
        let rs = c.c.rs;
        let cs = c.c.cs;
        let restore = |off: i64| {
            let s = r.snap_slice(&self.snap, off, esz);
            unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), r.at(off), esz) }
        };
        let unit = exps(c)[0] + exps(c)[1] + c.eal;
        let mut shash = hash;
        let mut rowhash = |off: i64| for q in 0..nc {
            let p = unsafe { r.at(off).add(q * rsz) };
            let b = bits(p, is32);
            hash = (hash ^ b).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23) ^ b;
            let b = if unit == 0 { get(p, is32) } else { scale2(get(p, is32), -unit) }.to_bits();
            shash = (shash ^ b).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23) ^ b;
        };
        if c.mode == Mode::Exact && c.cinit == 0 && c.macs() > 300_000_000 {
            let mut got = Vec::with_capacity(c.m * c.n * nc);
            each_elem(&(c.m, c.n, rs, cs), |off| {
                for q in 0..nc { got.push(scale2(get(unsafe { r.at(off).add(q * rsz) }, is32), -unit)) }
                rowhash(off);
            });
            if let Err(m) = freivalds(c, la, lb, &self.lc, &got) { return fail("value", m) }
            each_elem(&(c.m, c.n, rs, cs), restore);
        } else {
            model_rows(c, la, lb, &self.lc, |i, want| {
                let mut g = [0.0f64; 2];
                for j in 0..c.n {
                    let off = rs * i as i64 + cs * j as i64;
                    let p = r.at(off);
                    for q in 0..nc { g[q] = get(unsafe { p.add(q * rsz) }, is32) }
                    if let Some(m) = check_elem(&want[j * nc..(j + 1) * nc], &g[..nc]) {
                        let same = r.snap_slice(&self.snap, off, esz) == unsafe { std::slice::from_raw_parts(p, esz) };
                        err = Some(Fail {
                            cat: if same { "unwritten" } else { "value" },
                            msg: format!("C[{i},{j}] {}{m}", if same { "still holds its old value: " } else { "" }),
                        });
                        return false;
                    }
                    rowhash(off);
                    restore(off);
                }
                true
            });
        }
        self.shash.store(shash, SeqCst);
        if let Some(e) = err { return Err(e) }
        if let Some((d, was, now)) = r.diff(&self.snap) {
            return fail("outside", format!("byte {d} from C's origin, not part of any element, changed from {was:#x} to {now:#x}"));
        }
        Ok(hash)
    }
}

pub unsafe fn raw_call(c: &Case, a: *const u8, b: *const u8, cp: *mut u8) {
    let (al, be) = alpha_beta(c);
    let (m, k, n) = (c.m, c.k, c.n);
    let (rsa, csa, rsb, csb, rsc, csc) = (c.a.rs as isize, c.a.cs as isize, c.b.rs as isize, c.b.cs as isize, c.c.rs as isize, c.c.cs as isize);
    match c.ty {
        Ty::S => matrixmultiply::sgemm(m, k, n, al[0] as f32, a as *const f32, rsa, csa, b as *const f32, rsb, csb, be[0] as f32, cp as *mut f32, rsc, csc),
        Ty::D => matrixmultiply::dgemm(m, k, n, al[0], a as *const f64, rsa, csa, b as *const f64, rsb, csb, be[0], cp as *mut f64, rsc, csc),
        #[cfg(feature = "cgemm")]
        Ty::C => matrixmultiply::cgemm(
            matrixmultiply::CGemmOption::Standard, matrixmultiply::CGemmOption::Standard,
            m, k, n, [al[0] as f32, al[1] as f32], a as *const [f32; 2], rsa, csa, b as *const [f32; 2], rsb, csb,
            [be[0] as f32, be[1] as f32], cp as *mut [f32; 2], rsc, csc),
        #[cfg(feature = "cgemm")]
        Ty::Z => matrixmultiply::zgemm(
            matrixmultiply::CGemmOption::Standard, matrixmultiply::CGemmOption::Standard,
            m, k, n, al, a as *const [f64; 2], rsa, csa, b as *const [f64; 2], rsb, csb,
            be, cp as *mut [f64; 2], rsc, csc),
        #[cfg(not(feature = "cgemm"))]
        _ => unreachable!("complex case in a build without cgemm"),
    }
}

#[cfg(target_arch = "x86_64")]
fn fp_state() -> (u32, u16) {
    let mut mx = 0u32;
    let mut cw = 0u16;
    unsafe {
        core::arch::asm!("stmxcsr [{}]", in(reg) &mut mx);
        core::arch::asm!("fnstcw [{}]", in(reg) &mut cw);
    }
    (mx & !0x3f, cw)
}

pub fn catching(f: impl FnOnce()) -> Result<(), Fail> {
    let fp = fp_state();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let fp2 = fp_state();
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let at = crate::LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default();
        return fail("panic", format!("{m} at {at}"));
    }
    if fp != fp2 { return fail("fpstate", format!("MXCSR/x87 control changed from {fp:x?} to {fp2:x?}")) }
    Ok(())
}

/// Arm the allocator around `f` and report what it saw.
pub fn armed(f: impl FnOnce() -> Result<(), Fail>) -> Result<Info, Fail> {
    let live0 = alloc::LIVE.load(SeqCst);
    alloc::PEAK.store(live0, SeqCst);
    alloc::COUNT.store(0, SeqCst);
    alloc::TROUBLE.store(0, SeqCst);
    alloc::ARMED.store(!cfg!(feature = "plain"), SeqCst);
    let r = f();
    alloc::ARMED.store(false, SeqCst);
    alloc::check_live();
    r?;
    match alloc::TROUBLE.load(SeqCst) {
        0 => {}
        1 | 2 => return fail("heap", "bytes next to a heap allocation made by the call were overwritten"),
        3 => return fail("layout", "an allocation was released with another layout than it was made with"),
        _ => return fail("env", "allocation table full"),
    }
    Ok(Info {
        hash: 0,
        shash: 0,
        peak: alloc::PEAK.load(SeqCst) - live0,
        live: alloc::LIVE.load(SeqCst) - live0,
        count: alloc::COUNT.load(SeqCst),
    })
}

pub fn run(c: &Case) -> Result<Info, Fail> {
    let p = Prep::new(c)?;
    let (pa, pb, pc) = p.pointers();
    alloc::POISON.store([0xFF, 0x47, 0x00][c.gap as usize % 3], SeqCst);
    let mut info = p.watched(|| armed(|| catching(|| unsafe { raw_call(c, pa, pb, pc) })))??;
    info.hash = p.judge()?;
    info.shash = p.shash.load(SeqCst);
    Ok(info)
}
