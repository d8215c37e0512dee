//! Performs gemm calls under Miri on buffers described by a binary file (see driver/src/miri.rs).
//! All data comes from the file and all results go to a file, so that the interpreter spends its
//! time in the calls. Buffers are allocations of exactly the bytes the operands span; bytes not
//! covered by a run stay uninitialised. A and B are reached through shared references only.
//! Usage: mirirun IN OUT
use std::alloc::{alloc, dealloc, GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::mem::{align_of, MaybeUninit};

/// Counts what is allocated.
struct Count;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let now = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(now, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static COUNT: Count = Count;

struct In { d: Vec<u8>, at: usize }
impl In {
    fn int(&mut self) -> i64 {
        let p = self.at;
        self.at += 8;
        let mut b = [0u8; 8];
        b.copy_from_slice(&self.d[p..p + 8]);
        i64::from_le_bytes(b)
    }
}

struct Buf { p: *mut u8, lay: Layout, out: Vec<(usize, usize)> }
unsafe impl Sync for Buf {}
impl Drop for Buf { fn drop(&mut self) { if self.lay.size() > 0 { unsafe { dealloc(self.p, self.lay) } } } }

impl Buf {
    fn read(f: &mut In) -> Buf {
        let (size, a64) = (f.int() as usize, f.int());
        let align = if a64 == 0 { align_of::<f32>() } else { align_of::<f64>() };
        let lay = Layout::from_size_align(size, align).unwrap();
        let p = if size == 0 { align as *mut u8 } else { unsafe { alloc(lay) } };
        let n = f.int();
        for _ in 0..n {
            let (off, len) = (f.int() as usize, f.int() as usize);
            assert!(off + len <= size && f.at + len <= f.d.len());
            unsafe { std::ptr::copy_nonoverlapping(f.d.as_ptr().add(f.at), p.add(off), len) }
            f.at += len;
        }
        let n = f.int();
        let out = (0..n).map(|_| (f.int() as usize, f.int() as usize)).collect();
        Buf { p, lay, out }
    }
    fn shared(&self, off: i64) -> *const u8 {
        if self.lay.size() == 0 { return self.p }
        let s: &[MaybeUninit<u8>] = unsafe { std::slice::from_raw_parts(self.p as *const MaybeUninit<u8>, self.lay.size()) };
        unsafe { s.as_ptr().add(off as usize) as *const u8 }
    }
}

struct Call { ty: i64, m: usize, k: usize, n: usize, s: [isize; 6], al: [f64; 2], be: [f64; 2], buf: [usize; 3], off: [i64; 3] }

impl Call {
    fn read(f: &mut In) -> Call {
        let ty = f.int();
        let (m, k, n) = (f.int() as usize, f.int() as usize, f.int() as usize);
        let mut s = [0isize; 6];
        for x in s.iter_mut() { *x = f.int().clamp(isize::MIN as i64, isize::MAX as i64) as isize }
        let mut g = || f64::from_bits(f.int() as u64);
        let (al, be) = ([g(), g()], [g(), g()]);
        let mut buf = [0; 3];
        let mut off = [0; 3];
        for x in 0..3 { buf[x] = f.int() as usize; off[x] = f.int() }
        Call { ty, m, k, n, s, al, be, buf, off }
    }
    unsafe fn go(&self, b: &[Buf]) {
        let pa = b[self.buf[0]].shared(self.off[0]);
        let pb = b[self.buf[1]].shared(self.off[1]);
        let cb = &b[self.buf[2]];
        let pc = if cb.lay.size() == 0 { cb.p } else { cb.p.add(self.off[2] as usize) };
        let (m, k, n) = (self.m, self.k, self.n);
        let [rsa, csa, rsb, csb, rsc, csc] = self.s;
        let (al, be) = (self.al, self.be);
        match self.ty {
            0 => matrixmultiply::sgemm(m, k, n, al[0] as f32, pa as *const f32, rsa, csa, pb as *const f32, rsb, csb, be[0] as f32, pc as *mut f32, rsc, csc),
            1 => matrixmultiply::dgemm(m, k, n, al[0], pa as *const f64, rsa, csa, pb as *const f64, rsb, csb, be[0], pc as *mut f64, rsc, csc),
            #[cfg(feature = "cgemm")]
            2 => matrixmultiply::cgemm(
                matrixmultiply::CGemmOption::Standard, matrixmultiply::CGemmOption::Standard,
                m, k, n, [al[0] as f32, al[1] as f32], pa as *const [f32; 2], rsa, csa, pb as *const [f32; 2], rsb, csb,
                [be[0] as f32, be[1] as f32], pc as *mut [f32; 2], rsc, csc),
            #[cfg(feature = "cgemm")]
            3 => matrixmultiply::zgemm(
                matrixmultiply::CGemmOption::Standard, matrixmultiply::CGemmOption::Standard,
                m, k, n, al, pa as *const [f64; 2], rsa, csa, pb as *const [f64; 2], rsb, csb,
                be, pc as *mut [f64; 2], rsc, csc),
            _ => unreachable!("type not in this build"),
        }
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut f = In { d: std::fs::read(args.next().expect("in")).expect("read"), at: 0 };
    let mut out = std::fs::File::create(args.next().expect("out")).expect("create");
    let ops = f.int();
    for i in 0..ops {
        println!("start {i}");
        let bufs: Vec<Buf> = { let n = f.int(); (0..n).map(|_| Buf::read(&mut f)).collect() };
        let calls: Vec<Call> = { let n = f.int(); (0..n).map(|_| Call::read(&mut f)).collect() };
        let before = LIVE.load(Relaxed);
        PEAK.store(before, Relaxed);
        if calls.len() == 1 {
            unsafe { calls[0].go(&bufs) }
        } else {
            let gate = std::sync::Barrier::new(calls.len());
            std::thread::scope(|s| for c in &calls {
                let (g, b) = (&gate, &bufs[..]);
                s.spawn(move || { g.wait(); unsafe { c.go(b) } });
            });
        }
        let peak = PEAK.load(Relaxed) - before;
        for b in &bufs {
            for &(off, len) in &b.out {
                // writing an uninitialised byte is an error Miri reports
                out.write_all(unsafe { std::slice::from_raw_parts(b.p.add(off), len) }).expect("write");
            }
        }
        println!("ok {i} {peak}");
    }
    println!("end");
}
