//! Calls interpreted by Miri: uninitialised memory, exact allocations, provenance, data races,
//! other architectures. Data is prepared and results are judged here, natively.
use crate::builds::{scrub, target_root, verif};
use crate::checks::{busy, valid_c, Plan, Tier};
use crate::engine::*;
use crate::gen::{self, Prof};
use mmcase::*;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Cfg { pub name: &'static str, pub target: &'static str, pub features: &'static str, pub rustflags: &'static str, pub blocks: usize, pub threads: &'static str }

const X: &str = "x86_64-unknown-linux-gnu";
const AVX: &str = "-Ctarget-feature=+avx,+avx2,+fma";
pub const CFGS: [Cfg; 28] = [
    Cfg { name: "x86", target: X, features: "std,cgemm", rustflags: "", blocks: 0, threads: "" },
    Cfg { name: "x86-fma", target: X, features: "std,cgemm", rustflags: AVX, blocks: 0, threads: "" },
    Cfg { name: "x86-nostd", target: X, features: "cgemm", rustflags: "", blocks: 0, threads: "" },
    Cfg { name: "x86-nostd-fma", target: X, features: "cgemm", rustflags: AVX, blocks: 0, threads: "" },
    Cfg { name: "x86-small", target: X, features: "std,cgemm,constconf", rustflags: "", blocks: 1, threads: "" },
    Cfg { name: "x86-small-fma", target: X, features: "std,cgemm,constconf", rustflags: AVX, blocks: 1, threads: "" },
    Cfg { name: "x86-thr", target: X, features: "threading,cgemm,constconf", rustflags: "", blocks: 1, threads: "2" },
    Cfg { name: "x86-pool", target: X, features: "threading,cgemm", rustflags: "-Zmir-opt-level=3 -Zinline-mir=yes -Cdebug-assertions=no -Coverflow-checks=no", blocks: 0, threads: "2" },
    Cfg { name: "x86-thr4", target: X, features: "threading,cgemm,constconf", rustflags: "", blocks: 1, threads: "4" },
    Cfg { name: "x86-thr-fma", target: X, features: "threading,cgemm,constconf", rustflags: AVX, blocks: 1, threads: "3" },
    Cfg { name: "aarch64", target: "aarch64-unknown-linux-gnu", features: "std,cgemm", rustflags: "", blocks: 0, threads: "" },
    Cfg { name: "aarch64-small", target: "aarch64-unknown-linux-gnu", features: "std,cgemm,constconf", rustflags: "", blocks: 1, threads: "" },
    Cfg { name: "aarch64-nostd", target: "aarch64-unknown-linux-gnu", features: "cgemm", rustflags: "", blocks: 0, threads: "" },
    Cfg { name: "aarch64-thr", target: "aarch64-unknown-linux-gnu", features: "threading,cgemm,constconf", rustflags: "", blocks: 1, threads: "2" },
    Cfg { name: "i686", target: "i686-unknown-linux-gnu", features: "std,cgemm", rustflags: "", blocks: 0, threads: "" },
    Cfg { name: "i686-small", target: "i686-unknown-linux-gnu", features: "std,cgemm,constconf", rustflags: AVX, blocks: 1, threads: "" },
    Cfg { name: "armv7", target: "armv7-unknown-linux-gnueabihf", features: "std,cgemm,constconf", rustflags: "", blocks: 1, threads: "" },
    // blocks distinct for every type, dealt out in four ways
    Cfg { name: "aarch64-deal0", target: "aarch64-unknown-linux-gnu", features: "std,cgemm,constconf", rustflags: "", blocks: 2, threads: "" },
    Cfg { name: "aarch64-deal1", target: "aarch64-unknown-linux-gnu", features: "std,cgemm,constconf", rustflags: "", blocks: 3, threads: "" },
    Cfg { name: "aarch64-deal2", target: "aarch64-unknown-linux-gnu", features: "std,cgemm,constconf", rustflags: "", blocks: 4, threads: "" },
    Cfg { name: "aarch64-deal3", target: "aarch64-unknown-linux-gnu", features: "std,cgemm,constconf", rustflags: "", blocks: 5, threads: "" },
    Cfg { name: "s390x", target: "s390x-unknown-linux-gnu", features: "std,cgemm,constconf", rustflags: "", blocks: 1, threads: "" },
    // 32 bits, big-endian
    Cfg { name: "mips", target: "mips-unknown-linux-gnu", features: "std,cgemm,constconf", rustflags: "", blocks: 1, threads: "" },
    // the rest in the thorough tier
    Cfg { name: "gnux32", target: "x86_64-unknown-linux-gnux32", features: "std,cgemm,constconf", rustflags: AVX, blocks: 1, threads: "" },
    Cfg { name: "powerpc64", target: "powerpc64-unknown-linux-gnu", features: "threading,cgemm,constconf", rustflags: "", blocks: 1, threads: "2" },
    Cfg { name: "riscv64", target: "riscv64gc-unknown-linux-gnu", features: "std,cgemm", rustflags: "", blocks: 0, threads: "" },
    Cfg { name: "windows", target: "x86_64-pc-windows-gnu", features: "threading,cgemm,constconf", rustflags: AVX, blocks: 1, threads: "2" },
    Cfg { name: "darwin", target: "aarch64-apple-darwin", features: "threading,cgemm,constconf", rustflags: "", blocks: 1, threads: "2" },
];

const DEAL: [[i64; 3]; 4] = [[16, 330, 1000], [90, 410, 1100], [170, 500, 1200], [250, 590, 1300]];

impl Cfg {
    fn blocks_of(&self, t: usize) -> Option<[i64; 3]> {
        match self.blocks { 0 => None, 1 => Some([8, 12, 20]), d => Some(DEAL[(t + d - 2) % 4]) }
    }
    /// usize of 32 bits: strides that leave the address space are nobody's promise
    fn narrow(&self) -> bool { ["i686", "armv7", "mips", "gnux32"].contains(&self.name) || self.name == "i686-small" }
}

/// Bring an input into the domain of the configuration.
fn fit(c: &Cfg, mut i: Input) -> Input {
    if c.narrow() {
        const LIM: i64 = 1 << 24;
        for x in i.cases.iter_mut() {
            let (m, k, n) = (x.m, x.k, x.n);
            // (a stride that only meets index 0 may be anything a 32-bit stride can be)
            for (l, r, q) in [(&mut x.a, m, k), (&mut x.b, k, n), (&mut x.c, m, n)] { for (s, len) in [(&mut l.rs, r), (&mut l.cs, q)] { if s.saturating_abs() > LIM && len > 1 { *s = s.signum() * (LIM + 3) } } }
        }
    }
    // C is written even where nothing is multiplied: keep that affordable for an interpreter
    for x in i.cases.iter_mut() {
        if x.m * x.n > 1500 { if x.m > 60 { x.m = 60 } if x.m * x.n > 1500 { x.n = (1500 / x.m).max(1) } gen::fix(x) }
    }
    i
}

fn cfg(name: &str) -> &'static Cfg { CFGS.iter().find(|c| c.name == name).unwrap() }

impl Cfg { fn big_endian(&self) -> bool { ["s390x", "mips", "powerpc64"].contains(&self.name) } }

// ---- encoding --------------------------------------------------------------------------------

struct Mem { bytes: Vec<u8>, init: Vec<bool>, lo: i64, esz: usize, out: Vec<(usize, usize)> }

impl Mem {
    fn new(lo: i64, hi: i64, esz: usize) -> Mem {
        let n = if hi < lo { 0 } else { (hi - lo + 1) as usize * esz };
        Mem { bytes: vec![0; n], init: vec![false; n], lo, esz, out: vec![] }
    }
    fn of(views: &[(usize, usize, i64, i64)], esz: usize) -> Mem {
        let mut r: Option<(i64, i64)> = None;
        for v in views {
            if let Some((a, b)) = offset_range(v.0, v.1, v.2, v.3) { r = Some(match r { None => (a, b), Some((c, d)) => (a.min(c), b.max(d)) }) }
        }
        match r { Some((a, b)) => Mem::new(a, b, esz), None => Mem::new(0, -1, esz) }
    }
    fn at(&self, o: i64) -> usize { (o - self.lo) as usize * self.esz }
    fn put(&mut self, p: usize, is32: bool, be: bool, v: f64) {
        let b: Vec<u8> = match (is32, be) {
            (true, false) => (v as f32).to_le_bytes().to_vec(), (true, true) => (v as f32).to_be_bytes().to_vec(),
            (false, false) => v.to_le_bytes().to_vec(), (false, true) => v.to_be_bytes().to_vec(),
        };
        self.bytes[p..p + b.len()].copy_from_slice(&b);
        for x in &mut self.init[p..p + b.len()] { *x = true }
    }
    fn store(&mut self, v: (usize, usize, i64, i64), l: &[f64], nc: usize, is32: bool, be: bool, ex: i32, step: i64, first: i64) {
        let rsz = if is32 { 4 } else { 8 };
        for i in 0..v.0 { for j in 0..v.1 { for q in 0..nc {
            let x = l[(i * v.1 + j) * nc + q];
            let x = if ex == 0 || !x.is_finite() { x } else { scale2(x, ex) };
            let p = self.at((v.2 * i as i64 + v.3 * j as i64) * step + first) + q * rsz;
            self.put(p, is32, be, x);
        } } }
    }
    fn runs(mask: &[bool]) -> Vec<(usize, usize)> {
        let mut r: Vec<(usize, usize)> = vec![];
        for (i, &b) in mask.iter().enumerate() {
            if b { match r.last_mut() { Some(x) if x.0 + x.1 == i => x.1 += 1, _ => r.push((i, 1)) } }
        }
        r
    }
    fn elements(&mut self, v: (usize, usize, i64, i64), step: i64, t: i64) {
        let mut mask = vec![false; self.bytes.len()];
        for x in 0..t { for i in 0..v.0 { for j in 0..v.1 {
            let p = self.at((v.2 * i as i64 + v.3 * j as i64) * step + x);
            for b in &mut mask[p..p + self.esz] { *b = true }
        } } }
        self.out = Mem::runs(&mask);
    }
}

const FILL: u8 = 0x5A;

struct Logical { a: Vec<f64>, b: Vec<f64>, c: Vec<f64> }
pub struct Op { bytes: Vec<u8>, judges: Vec<(Case, Logical, usize, i64, i64)>, mems: Vec<Mem> }

fn int(o: &mut Vec<u8>, x: i64) { o.extend_from_slice(&x.to_le_bytes()) }

/// Operations: "run" (one call), "conc" (all cases at once), "share" (nums[0] threads on one buffer).
fn encode(i: &Input, be: bool) -> Op {
    let mut mems: Vec<Mem> = vec![];
    let mut calls: Vec<(Case, [usize; 3], [i64; 3])> = vec![];
    let mut judges = vec![];
    let share = if i.op == "share" { i.nums[0].max(1) } else { 1 };
    for c in &i.cases {
        let (nc, esz, is32) = (c.ty.comps(), c.ty.esz(), c.ty.is32());
        let vals = Values::new(c);
        let empty = c.m == 0 || c.n == 0;
        let z = |x: usize| if empty { 0 } else { x };
        let (va, vb, vc) = ((z(c.m), c.k, c.a.rs, c.a.cs), (c.k, z(c.n), c.b.rs, c.b.cs), (c.m, c.n, c.c.rs, c.c.cs));
        let e = exps(c);
        let l = if empty { Logical { a: vec![], b: vec![], c: vec![] } } else { Logical { a: vals.logical(0), b: vals.logical(1), c: vals.logical(2) } };
        let ia = mems.len();
        let mut a = Mem::of(&[va, vb][..if c.alias { 2 } else { 1 }], esz);
        a.store(va, &l.a, nc, is32, be, e[0], 1, 0);
        let ib = if c.alias {
            a.store(vb, &l.b, nc, is32, be, e[0], 1, 0);
            mems.push(a);
            ia
        } else {
            mems.push(a);
            let mut b = Mem::of(&[vb], esz);
            b.store(vb, &l.b, nc, is32, be, e[1], 1, 0);
            mems.push(b);
            ia + 1
        };
        let ic = mems.len();
        let mut m = match offset_range(c.m, c.n, c.c.rs.wrapping_mul(share), c.c.cs.wrapping_mul(share)) { None => Mem::new(0, -1, esz), Some((lo, hi)) => Mem::new(lo, hi + share - 1, esz) };
        if c.gap == 1 { for x in m.bytes.iter_mut() { *x = FILL } for x in m.init.iter_mut() { *x = true } }
        for x in 0..share {
            if c.cinit == 0 { m.store(vc, &l.c, nc, is32, be, e[2], share, x) }
            else if !empty && c.gap == 1 {
                // C itself uninitialised although the gaps are filled
                for i in 0..c.m { for j in 0..c.n { let p = m.at((c.c.rs * i as i64 + c.c.cs * j as i64) * share + x); for b in &mut m.init[p..p + esz] { *b = false } } }
            }
        }
        if !empty { if c.gap == 1 { m.out = vec![(0, m.bytes.len())] } else { m.elements(vc, share, share) } }
        mems.push(m);
        let off = |m: &Mem| if m.bytes.is_empty() { 0 } else { m.at(0) as i64 };
        for x in 0..share {
            let o = [off(&mems[ia]), off(&mems[ib]), if mems[ic].bytes.is_empty() { 0 } else { mems[ic].at(x) as i64 }];
            calls.push((c.clone(), [ia, ib, ic], o));
        }
        for x in 0..share { judges.push((c.clone(), Logical { a: l.a.clone(), b: l.b.clone(), c: l.c.clone() }, ic, share, x)) }
    }
    let mut o = vec![];
    int(&mut o, mems.len() as i64);
    for m in &mems {
        let owner = judges.first().map_or(Ty::S, |j: &(Case, Logical, usize, i64, i64)| j.0.ty);
        let _ = owner;
        int(&mut o, m.bytes.len() as i64);
        int(&mut o, 0);
        let tpos = o.len() - 8;
        let r = Mem::runs(&m.init);
        int(&mut o, r.len() as i64);
        for (p, n) in r { int(&mut o, p as i64); int(&mut o, n as i64); o.extend_from_slice(&m.bytes[p..p + n]) }
        int(&mut o, m.out.len() as i64);
        for &(p, n) in &m.out { int(&mut o, p as i64); int(&mut o, n as i64) }
        // alignment class: by the case that uses it
        let idx = mems.iter().position(|x| std::ptr::eq(x, m)).unwrap();
        let a64 = calls.iter().find(|c| c.1.contains(&idx)).map_or(false, |c| !c.0.ty.is32());
        o[tpos..tpos + 8].copy_from_slice(&(a64 as i64).to_le_bytes());
    }
    int(&mut o, calls.len() as i64);
    for (c, b, off) in &calls {
        int(&mut o, match c.ty { Ty::S => 0, Ty::D => 1, Ty::C => 2, Ty::Z => 3 });
        for x in [c.m, c.k, c.n] { int(&mut o, x as i64) }
        for x in [c.a.rs, c.a.cs, c.b.rs, c.b.cs, c.c.rs.wrapping_mul(share), c.c.cs.wrapping_mul(share)] { int(&mut o, x) }
        let (al, bt) = alpha_beta(c);
        for x in al.iter().chain(bt.iter()) { int(&mut o, x.to_bits() as i64) }
        for x in 0..3 { int(&mut o, b[x] as i64); int(&mut o, off[x]) }
    }
    Op { bytes: o, judges, mems }
}

impl Op {
    fn out_len(&self) -> usize { self.mems.iter().flat_map(|m| m.out.iter()).map(|x| x.1).sum() }

    fn judge(&self, out: &[u8], big: bool) -> Result<(), (String, String)> {
        // results back into the memories
        let mut at = 0;
        let mut after: Vec<Vec<u8>> = vec![];
        for m in &self.mems {
            let mut b = m.bytes.clone();
            for &(p, n) in &m.out { b[p..p + n].copy_from_slice(&out[at..at + n]); at += n }
            after.push(b);
        }
        let mut own: Vec<Vec<bool>> = self.mems.iter().map(|m| vec![false; m.bytes.len()]).collect();
        for (c, l, ic, step, first) in &self.judges {
            if c.m == 0 || c.n == 0 { continue }
            let (nc, rsz, esz, is32) = (c.ty.comps(), c.ty.rsz(), c.ty.esz(), c.ty.is32());
            let m = &self.mems[*ic];
            let b = &after[*ic];
            let mut err = None;
            model_rows(c, &l.a, &l.b, &l.c, |i, want| {
                for j in 0..c.n {
                    let p = m.at((c.c.rs * i as i64 + c.c.cs * j as i64) * step + first);
                    for x in &mut own[*ic][p..p + esz] { *x = true }
                    let g: Vec<f64> = (0..nc).map(|q| {
                        let s = &b[p + q * rsz..p + (q + 1) * rsz];
                        match (is32, big) {
                            (true, false) => f32::from_le_bytes(s.try_into().unwrap()) as f64, (true, true) => f32::from_be_bytes(s.try_into().unwrap()) as f64,
                            (false, false) => f64::from_le_bytes(s.try_into().unwrap()), (false, true) => f64::from_be_bytes(s.try_into().unwrap()),
                        }
                    }).collect();
                    if let Some(e) = check_elem(&want[j * nc..(j + 1) * nc], &g) { err = Some(format!("C[{i},{j}] of call {first}: {e}")); return false }
                }
                true
            });
            if let Some(e) = err { return Err(("value".into(), e)) }
        }
        for (c, _, ic, ..) in &self.judges {
            if c.gap != 1 { continue }
            if let Some(p) = (0..after[*ic].len()).find(|&p| !own[*ic][p] && after[*ic][p] != FILL) { return Err(("outside".into(), format!("byte {p} of C's span, no element, changed"))) }
        }
        Ok(())
    }
}

// ---- running ---------------------------------------------------------------------------------

/// Ok: the most memory the calls had allocated
pub enum Out { Ok(i64), Fail(String, String), Env(String), NotRun }

fn command(c: &Cfg, seed: u64, files: &[String]) -> Command {
    let mut k = Command::new("cargo");
    scrub(&mut k);
    k.args(["+nightly", "miri", "run", "--offline", "--quiet", "--no-default-features", "--target", c.target, "--features", c.features]);
    k.arg("--manifest-path").arg(verif().join("harness/mirirun/Cargo.toml"));
    let key: String = format!("{}-{}-{}-{}", c.target, c.features.replace(',', "_"), c.blocks, !c.rustflags.is_empty());
    k.arg("--target-dir").arg(target_root().join("miri").join(key));
    k.arg("--").args(files);
    if c.target != X { k.env("XDG_CACHE_HOME", target_root().join("miri-cache").join(c.target)); }
    if !c.rustflags.is_empty() { k.env("RUSTFLAGS", c.rustflags); }
    for (i, t) in ["S", "D", "C", "Z"].iter().enumerate() {
        if let Some(b) = c.blocks_of(i) { for (x, w) in b.iter().zip(["MC", "KC", "NC"]) { k.env(format!("MATMUL_{t}GEMM_{w}"), x.to_string()); } }
    }
    if !c.threads.is_empty() { k.env("MATMUL_NUM_THREADS", c.threads); }
    k.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-seed={} -Zmiri-preemption-rate=0.05", seed % 100_000));
    if c.name == "x86-pool" { k.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-seed={} -Zmiri-preemption-rate=0.01", seed % 100_000)); }
    k.env("CARGO_TERM_COLOR", "never");
    k.stdin(Stdio::null());
    k
}

static SERIAL: AtomicUsize = AtomicUsize::new(0);

/// (stdout, stderr, ended normally)
fn run_to_end(mut k: Command, limit: Duration) -> Result<(String, String, bool), String> {
    let dir = target_root().join("tmp");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let id = format!("{}-{}", std::process::id(), SERIAL.fetch_add(1, SeqCst));
    let (po, pe) = (dir.join(format!("mo-{id}")), dir.join(format!("me-{id}")));
    let fo = std::fs::File::create(&po).map_err(|e| e.to_string())?;
    let fe = std::fs::File::create(&pe).map_err(|e| e.to_string())?;
    use std::os::unix::process::CommandExt;
    unsafe { k.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); libc::setpgid(0, 0); Ok(()) }); }
    let mut ch = k.stdout(Stdio::from(fo)).stderr(Stdio::from(fe)).spawn().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    let mut done = None;
    while t0.elapsed() < limit {
        match ch.try_wait() { Ok(Some(s)) => { done = Some(s); break } _ => std::thread::sleep(Duration::from_millis(15)) }
    }
    if done.is_none() { unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL); } let _ = ch.wait(); }
    let rd = |p: &std::path::Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    let r = (rd(&po), rd(&pe), done.is_some());
    let _ = std::fs::remove_file(&po);
    let _ = std::fs::remove_file(&pe);
    Ok(r)
}

fn tail(s: &str) -> String {
    let l: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    let from = l.iter().position(|l| l.starts_with("error") || l.contains("panicked at")).unwrap_or(l.len().saturating_sub(6));
    l[from..].iter().take(7).map(|l| l.trim()).collect::<Vec<_>>().join(" / ")
}

/// Ok(Ok): builds and starts; Ok(Err): matrixmultiply does not compile.
pub fn prepare(c: &Cfg) -> Result<Result<(), String>, String> {
    let dir = target_root().join("tmp");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let id = format!("{}-{}", std::process::id(), SERIAL.fetch_add(1, SeqCst));
    let (fi, fo) = (dir.join(format!("mi-{id}")), dir.join(format!("mr-{id}")));
    std::fs::write(&fi, 0i64.to_le_bytes()).map_err(|e| e.to_string())?;
    let k = command(c, 1, &[fi.display().to_string(), fo.display().to_string()]);
    let r = run_to_end(k, Duration::from_secs(400));
    let _ = std::fs::remove_file(&fi);
    let _ = std::fs::remove_file(&fo);
    let (o, e, _) = r?;
    if o.contains("end") { return Ok(Ok(())) }
    if e.contains("could not compile `matrixmultiply`") { return Ok(Err(tail(&e))) }
    Err(format!("miri {}: {}", c.name, tail(&e)))
}

pub fn run_ops(c: &Cfg, ops: &[&Input], seed: u64, limit: Duration) -> Vec<Out> {
    let mut res: Vec<Out> = ops.iter().map(|_| Out::NotRun).collect();
    let enc: Vec<Op> = ops.iter().map(|i| encode(i, c.big_endian())).collect();
    let dir = target_root().join("tmp");
    let id = format!("{}-{}", std::process::id(), SERIAL.fetch_add(1, SeqCst));
    let (fi, fo) = (dir.join(format!("mi-{id}")), dir.join(format!("mr-{id}")));
    let mut b = vec![];
    int(&mut b, enc.len() as i64);
    for e in &enc { b.extend_from_slice(&e.bytes) }
    if let Err(e) = std::fs::create_dir_all(&dir).and_then(|_| std::fs::write(&fi, &b)) { if let Some(r) = res.first_mut() { *r = Out::Env(e.to_string()) } return res }
    let t0 = Instant::now();
    let r = run_to_end(command(c, seed, &[fi.display().to_string(), fo.display().to_string()]), limit);
    if std::env::var_os("MM_DEBUG").is_some() { eprintln!("{} {} ops {:.1} s: {}", c.name, ops.len(), t0.elapsed().as_secs_f64(), ops.iter().map(|o| o.brief()).collect::<Vec<_>>().join(" || ")) }
    let out = std::fs::read(&fo).unwrap_or_default();
    let _ = std::fs::remove_file(&fi);
    let _ = std::fs::remove_file(&fo);
    let (so, se, ended) = match r { Ok(x) => x, Err(e) => { if let Some(r) = res.first_mut() { *r = Out::Env(e) } return res } };
    let peaks: Vec<i64> = so.lines().filter(|l| l.starts_with("ok ")).map(|l| l.split(' ').nth(2).and_then(|x| x.parse().ok()).unwrap_or(-1)).collect();
    let oks = peaks.len();
    let mut at = 0;
    for i in 0..oks.min(enc.len()) {
        let n = enc[i].out_len();
        if at + n > out.len() { res[i] = Out::Env("result file too short".into()); return res }
        res[i] = match enc[i].judge(&out[at..at + n], c.big_endian()) { Ok(()) => Out::Ok(peaks[i]), Err((cat, m)) => Out::Fail(cat, m) };
        at += n;
    }
    if oks < enc.len() {
        let started = so.lines().filter(|l| l.starts_with("start ")).count();
        res[oks] = if !ended { if started > oks { Out::Env("out of time".into()) } else { Out::NotRun } }
            else if se.contains("Undefined Behavior") || se.contains("deadlock") || se.contains("panicked at") || se.contains("memory allocation of") || se.contains("abnormal termination") {
                let cat = if se.contains("Data race") { "race" } else if se.contains("Undefined Behavior") { "ub" } else if se.contains("deadlock") { "deadlock" } else { "panic" };
                Out::Fail(cat.into(), tail(&se))
            } else { Out::Env(tail(&se)) };
    }
    res
}

/// One input under one configuration, as a verdict.
pub fn check_one(c: &Cfg, i: &Input, seed: u64, secs: u64) -> Verdict {
    match run_ops(c, &[i], seed, Duration::from_secs(secs)).remove(0) {
        Out::Ok(_) => Verdict::Pass { nontrivial: i.cases.iter().any(busy) },
        Out::Fail(a, b) => bad(a, format!("miri {}: {b}", c.name)),
        Out::Env(m) => Verdict::Env(m),
        Out::NotRun => Verdict::Env("not run".into()),
    }
}

fn shrink(c: &Cfg, inp: Input, cat: String, msg: String, seed: u64, keep: fn(&Input) -> bool) -> Found {
    let t0 = Instant::now();
    let budget = Duration::from_secs(90);
    let mut best = (inp, cat, msg);
    loop {
        if t0.elapsed() > budget { break }
        let mut cand: Vec<Input> = vec![];
        if best.0.cases.len() > 2 { for x in 0..best.0.cases.len() { let mut i = best.0.clone(); i.cases.remove(x); cand.push(i) } }
        for x in 0..best.0.cases.len() { for s in gen::simpler(&best.0.cases[x]) { let mut i = best.0.clone(); i.cases[x] = s; let i = fit(c, i); if valid_c(&i) && keep(&i) { cand.push(i) } } }
        let mut hit = None;
        for group in cand.chunks(8) {
            if t0.elapsed() > budget { break }
            let vs: Vec<Verdict> = std::thread::scope(|s| { let h: Vec<_> = group.iter().map(|i| s.spawn(move || check_one(c, i, seed, 40))).collect(); h.into_iter().map(|h| h.join().unwrap()).collect() });
            for (i, v) in group.iter().zip(vs) { if let Verdict::Fail { cat, msg } = v { if hit.is_none() { hit = Some((i.clone(), cat, msg)) } } }
            if hit.is_some() { break }
        }
        match hit { Some(h) => best = h, None => break }
    }
    let mut again = 0;
    for s in 0..3 { if let Verdict::Fail { .. } = check_one(c, &best.0, seed + s, 60) { again += 1 } }
    Found { group: format!("miri {}", c.name), input: best.0, cat: best.1, msg: best.2, reproduced: format!("{again}/3 with three scheduler seeds") }
}

pub struct Job { pub cfg: &'static str, pub make: Make, pub batches: usize, pub per: usize, pub keep: fn(&Input) -> bool }

fn anykeep(_: &Input) -> bool { true }

/// Run all jobs; `secs` bounds the whole.
pub fn search(s: &Search, t: &Tier, jobs: &[Job], secs: u64, threads: usize) {
    let secs = if t.thorough { secs * 8 } else { secs };
    // builds first
    let names: Vec<&'static str> = { let mut v: Vec<_> = jobs.iter().map(|j| j.cfg).collect(); v.sort(); v.dedup(); v };
    let usable: std::sync::Mutex<Vec<&'static str>> = Default::default();
    let next = AtomicUsize::new(0);
    // one target's sysroot is made once: keep configurations of one target together
    let mut targets: Vec<&'static str> = names.iter().map(|n| cfg(n).target).collect();
    targets.sort();
    targets.dedup();
    std::thread::scope(|sc| for _ in 0..targets.len().max(1) {
        sc.spawn(|| loop {
            let x = next.fetch_add(1, SeqCst);
            if x >= targets.len() { break }
            let mine: Vec<_> = names.iter().filter(|n| cfg(n).target == targets[x]).collect();
            for (i, group) in [&mine[..mine.len().min(1)], &mine[mine.len().min(1)..]].iter().enumerate() {
                let _ = i;
                std::thread::scope(|s2| for n in group.iter() {
                    let n: &'static str = n;
                    let usable = &usable;
                    s2.spawn(move || match prepare(cfg(n)) {
                        Ok(Ok(())) => usable.lock().unwrap().push(n),
                        Ok(Err(e)) => {
                            if !s.stop.swap(true, SeqCst) {
                                s.found.lock().unwrap().push(Found { group: format!("miri {n}"), input: Input { op: "build".into(), nums: vec![], strs: vec![], cases: vec![] }, cat: "build".into(), msg: format!("does not compile for {}: {e}", cfg(n).target), reproduced: "1/1".into() })
                            }
                        }
                        Err(e) => { s.env(e) }
                    });
                });
            }
        });
    });
    let usable = usable.into_inner().unwrap();
    let deadline = Instant::now() + Duration::from_secs(secs);
    let mut list: Vec<(&Job, usize)> = vec![];
    for j in jobs.iter().filter(|j| usable.contains(&j.cfg)) { for b in 0..if t.thorough { j.batches * 10 } else { j.batches } { list.push((j, b)) } }
    list.sort_by_key(|x| x.1);
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| for _ in 0..threads {
        sc.spawn(|| loop {
            let x = next.fetch_add(1, SeqCst);
            if x >= list.len() || s.stop.load(SeqCst) { break }
            if Instant::now() > deadline { s.stats.lock().unwrap().cut_short = true; break }
            let (j, b) = list[x];
            let c = cfg(j.cfg);
            let seed = mix(s.seed) ^ hash_str(s.property) ^ hash_str(j.cfg).rotate_left(9) ^ (b as u64) << 44;
            let mut rn = runner(seed);
            let strat = (j.make)();
            let inputs: Vec<Input> = (0..j.per).filter_map(|_| strat.new_tree(&mut rn).ok().map(|t| fit(c, t.current()))).collect();
            let mut from = 0;
            while from < inputs.len() {
                if s.stop.load(SeqCst) { return }
                let refs: Vec<&Input> = inputs[from..].iter().collect();
                let left = deadline.saturating_duration_since(Instant::now()).max(Duration::from_secs(1)) + Duration::from_secs(15);
                let out = run_ops(c, &refs, seed, left);
                let mut ran = 0;
                for (i, o) in refs.iter().zip(out) {
                    match o {
                        Out::Ok(_) => { s.record(&format!("miri {}", c.name), i, i.cases.iter().any(busy)); ran += 1 }
                        Out::NotRun => {}
                        Out::Env(m) => {
                            ran += 1;
                            if m == "out of time" { s.stats.lock().unwrap().cut_short = true; return }
                            s.env(format!("miri {}: {m} on {}", c.name, i.brief()));
                        }
                        Out::Fail(cat, msg) => {
                            s.record(&format!("miri {}", c.name), i, true);
                            if s.stop.swap(true, SeqCst) { return }
                            let f = shrink(c, (*i).clone(), cat, format!("miri {}: {msg}", c.name), seed, j.keep);
                            s.found.lock().unwrap().push(f);
                            return;
                        }
                    }
                }
                if ran == 0 { break }
                from += ran;
            }
        });
    });
}

pub fn replay(group: &str, i: &Input) -> Verdict {
    let Some(c) = CFGS.iter().find(|c| format!("miri {}", c.name) == group) else { return Verdict::Env("no such configuration".into()) };
    match prepare(c) { Ok(Ok(())) => {} Ok(Err(e)) => return bad("build", e), Err(e) => return Verdict::Env(e) }
    if i.op == "build" { return Verdict::Pass { nontrivial: true } }
    if i.op == "workspace" { return judge_workspace(c, i, run_ops(c, &[i], 1, Duration::from_secs(200)).remove(0)) }
    let mut v = Verdict::Env(String::new());
    for seed in 1..=8 {
        v = check_one(c, i, seed, 120);
        if let Verdict::Fail { .. } = v { break }
    }
    v
}

// ---- what is run -----------------------------------------------------------------------------

fn small() -> Prof {
    let mut p = Prof::base(true);
    p.shapes = [6, 6, 0, 0, 0, 0, 1, 0];
    p.cap = 2200;
    p.modes = [4, 1, 1];
    p.ab = [4, 5, 0, 1];
    p.c = [4, 5, 0];
    p
}

fn make(p: Prof) -> Make { std::sync::Arc::new(move || gen::case(&p).prop_map(|c| Input::one("run", c)).boxed()) }

/// few: dims that cross the small blocks of the "blocks" configurations
fn blocky() -> Prof { let mut p = small(); p.shapes = [4, 6, 0, 0, 2, 0, 0, 0]; p.cap = 5000; p }

pub fn memory_subset(s: &Search, t: &Tier) {
    let j = |cfg: &'static str, p: Prof| Job { cfg, make: make(p), batches: 8, per: 12, keep: anykeep };
    search(s, t, &[j("x86", small()), j("x86-fma", small()), j("x86-small-fma", blocky()), j("x86-small", blocky()), j("x86-nostd-fma", small()), j("x86-nostd", small())], 30, 8);
}

pub fn beta_zero_subset(s: &Search, t: &Tier) {
    let mut p = small();
    p.beta_zero = true;
    p.shapes = [6, 6, 0, 0, 0, 0, 2, 0];
    p.modes = [1, 0, 0];
    let mk: Make = std::sync::Arc::new(move || gen::case(&p).prop_map(|mut c| { if c.cinit == 0 { c.cinit = 1 } Input::one("run", c) }).boxed());
    let j = |cfg: &'static str| Job { cfg, make: mk.clone(), batches: 8, per: 12, keep: |i| i.cases.iter().all(|c| c.beta_is_zero() && c.cinit != 0) };
    search(s, t, &[j("x86"), j("x86-fma"), j("x86-nostd"), j("x86-nostd-fma"), j("x86-small-fma")], 30, 8);
}

pub fn empty_subset(s: &Search, t: &Tier) {
    let mut p = small();
    p.shapes = [0, 0, 0, 0, 0, 0, 1, 0];
    let mk: Make = std::sync::Arc::new(move || gen::case(&p).prop_map(|mut c| { c.m = c.m.min(70); c.n = c.n.min(70); if c.m * c.n > 700 { c.n = 9 } Input::one("run", c) }).boxed());
    let j = |cfg: &'static str| Job { cfg, make: mk.clone(), batches: 6, per: 25, keep: |i| i.cases.iter().all(|c| c.m == 0 || c.k == 0 || c.n == 0) };
    search(s, t, &[j("x86"), j("x86-fma"), j("x86-nostd")], 20, 8);
}

fn conc_make(big: bool) -> Make {
    let mut p = small();
    p.cap = 300;
    p.modes = [1, 0, 0];
    p.alias = 0;
    std::sync::Arc::new(move || {
        // one call large enough for the pool
        let large = (0usize..4, 0usize..3, 1usize..=4, gen::case(&p)).prop_map(|(ty, shape, d, mut c)| {
            c.ty = [Ty::S, Ty::D, Ty::C, Ty::Z][ty];
            (c.m, c.n) = match shape { 0 => (96 + d, d), 1 => (100, d), _ => (48 + d, d) };
            c.k = 32768 / (c.m + c.n) + 1 + d;
            c.a = Lay { rs: c.k as i64, cs: 1, end: false, mis: 0 };
            c.b = Lay { rs: 1, cs: c.k as i64, end: false, mis: 0 };
            c.c = Lay { rs: 1, cs: c.m as i64 + 1, end: false, mis: 0 };
            gen::fix(&mut c);
            c
        });
        let two = proptest::collection::vec(gen::case(&p), 2..=4).prop_map(|cases| Input { op: "conc".into(), nums: vec![], strs: vec![], cases });
        let shared = (gen::case(&p), 2i64..=3).prop_map(|(c, t)| Input { op: "share".into(), nums: vec![t], strs: vec![], cases: vec![c] });
        if big {
            let one = large.prop_map(|c| Input { op: "run".into(), nums: vec![], strs: vec![], cases: vec![c] });
            one.boxed()
        } else { prop_oneof![2 => two, 1 => shared].boxed() }
    })
}

pub fn races(s: &Search, t: &Tier) {
    let keep: fn(&Input) -> bool = |i| i.op != "conc" || i.cases.len() >= 2;
    let mut jobs = vec![];
    for c in ["x86-thr", "x86-thr4", "x86-thr-fma"] {
        if t.thorough { jobs.push(Job { cfg: c, make: conc_make(true), batches: 2, per: 1, keep }) }
        jobs.push(Job { cfg: c, make: conc_make(false), batches: 14, per: 3, keep });
    }
    jobs.push(Job { cfg: "x86-pool", make: conc_make(true), batches: 12, per: 1, keep });
    jobs.push(Job { cfg: "x86-small", make: conc_make(false), batches: 10, per: 3, keep });
    search(s, t, &jobs, 60, 8);
}

/// C14 on AArch64: each block size of each type, seen in the workspace of a call that exceeds only
/// this block.
pub fn workspace(s: &Search, t: &Tier) {
    let deals: Vec<&'static str> = ["aarch64-deal0", "aarch64-deal1", "aarch64-deal2", "aarch64-deal3"].into_iter().enumerate().filter(|(i, _)| t.thorough || *i as u64 == t.seed % 4).map(|x| x.1).collect();
    for name in deals {
        if s.stop.load(SeqCst) { return }
        let c = cfg(name);
        match prepare(c) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => { found_one(s, name, Input { op: "build".into(), nums: vec![], strs: vec![], cases: vec![] }, "build", format!("does not compile for {}: {e}", c.target)); return }
            Err(e) => { s.env(e); return }
        }
        let inputs: Vec<Input> = (0..4).flat_map(|ty| (0..3).map(move |w| (ty, w))).map(|(ty, w)| workspace_input(c, ty, w)).collect();
        let groups: Vec<&[Input]> = inputs.chunks(3).collect();
        std::thread::scope(|sc| for g in groups {
            sc.spawn(move || {
                let refs: Vec<&Input> = g.iter().collect();
                for (i, o) in g.iter().zip(run_ops(c, &refs, s.seed, Duration::from_secs(200))) {
                    match judge_workspace(c, i, o) {
                        Verdict::Pass { nontrivial } => s.record(&format!("miri {name}"), i, nontrivial),
                        Verdict::Env(m) => s.env(format!("miri {name}: {m}")),
                        Verdict::Fail { cat, msg } => { s.record(&format!("miri {name}"), i, true); found_one(s, name, i.clone(), &cat, msg) }
                    }
                }
            });
        });
    }
}

fn found_one(s: &Search, name: &str, input: Input, cat: &str, msg: String) {
    if s.stop.swap(true, SeqCst) { return }
    s.found.lock().unwrap().push(Found { group: format!("miri {name}"), input, cat: cat.into(), msg, reproduced: "1/1".into() })
}

fn workspace_input(c: &Cfg, ty: usize, w: usize) -> Input {
    let b = c.blocks_of(ty).unwrap();
    let (m, k, n) = match w { 0 => (b[0] + 21, 3, 8), 1 => (8, b[1] + 21, 8), _ => (8, 3, b[2] + 21) };
    let s = format!("ty={} m={m} k={k} n={n} alpha=1,0,0 beta=0,0,0 a={k},1,0,0 b={n},1,0,0 c={n},1,0,0 mode=e seed=3", ["s", "d", "c", "z"][ty]);
    Input { op: "workspace".into(), nums: vec![ty as i64, w as i64], strs: vec![], cases: vec![Case::parse(&s).unwrap()] }
}

fn judge_workspace(c: &Cfg, i: &Input, o: Out) -> Verdict {
    let (ty, w) = (i.nums[0] as usize, i.nums[1] as usize);
    let b = c.blocks_of(ty).unwrap();
    let cs = &i.cases[0];
    match o {
        Out::Ok(peak) => {
            let (m, k, n) = ((cs.m as i64).min(b[0]), (cs.k as i64).min(b[1]), (cs.n as i64).min(b[2]));
            let esz = cs.ty.esz() as i64;
            let (lo, hi) = (esz * k * (m + n), esz * k * (m + n + 16) + 256);
            if peak < lo || peak > hi { return bad("blocks", format!("miri {}: {}GEMM with MC={} KC={} NC={} in effect uses {lo}..{hi} bytes of workspace for a {}x{}x{} call, but it used {peak}", c.name, ["S", "D", "C", "Z"][ty], b[0], b[1], b[2], cs.m, cs.k, cs.n)) }
            let _ = w;
            Verdict::Pass { nontrivial: true }
        }
        Out::Fail(a, m) => bad(a, format!("miri {}: {m}", c.name)),
        Out::Env(m) => Verdict::Env(m),
        Out::NotRun => Verdict::Env("not run".into()),
    }
}

/// C18
pub fn plan(t: &Tier) -> Plan {
    let _ = t;
    Plan {
        variants: vec![],
        groups: Box::new(|_| vec![]),
        rule: "proptest-generated calls interpreted by Miri for AArch64 (NEON kernels; default and tiny blocks, no_std, threads), i686 (with and without AVX/FMA), ARMv7 and big-endian s390x; exact allocations, uninitialised gaps, reads through shared references only; results judged natively by the model; non-trivial: no empty dimension, alpha nonzero, at least 8 multiply-adds".into(),
        level: "exploration",
        assumptions: vec!["Miri interprets the NEON intrinsics as the hardware executes them"],
        extra: Some(Box::new(|s, t| {
            let zero = { let mut p = small(); p.beta_zero = true; p };
            let tiny = { let mut p = small(); p.shapes = [6, 0, 0, 0, 0, 0, 1, 0]; p.cap = 90; p };
            let tiny_zero = { let mut p = tiny.clone(); p.beta_zero = true; p };
            let jn = |cfg: &'static str, p: Prof, batches: usize, per: usize| Job { cfg, make: make(p), batches, per, keep: anykeep };
            let j = |cfg: &'static str, p: Prof, batches: usize| jn(cfg, p, batches, 10);
            let mut v = vec![
                j("aarch64", small(), 20), j("aarch64", zero.clone(), 6), j("aarch64-small", blocky(), 14), j("aarch64-nostd", small(), 6),
                j("i686", small(), 8), j("i686-small", blocky(), 6), j("armv7", blocky(), 6), j("s390x", blocky(), 6), j("mips", blocky(), 6),
            ];
            for c in ["aarch64", "i686", "armv7", "s390x", "mips"] { v.push(jn(c, tiny_zero.clone(), 3, 40)); v.push(jn(c, tiny.clone(), 2, 40)) }
            if t.thorough { for c in ["gnux32", "powerpc64", "riscv64", "windows", "darwin"] { v.push(j(c, blocky(), 4)); v.push(jn(c, tiny_zero.clone(), 2, 40)); v.push(jn(c, tiny.clone(), 2, 40)) } }
            v.push(Job { cfg: "aarch64-thr", make: conc_make(false), batches: 6, per: 3, keep: |i| i.op != "conc" || i.cases.len() >= 2 });
            if t.thorough { v.push(Job { cfg: "aarch64-thr", make: conc_make(true), batches: 1, per: 1, keep: anykeep }) }
            search(s, t, &v, 110, 8);
        })),
        must_build: false,
        threads: 8,
    }
}
