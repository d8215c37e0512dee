//! Shared description of one gemm call ("case"): text form, data, layout
//! arithmetic and the independent reference model.  Pure, no dependencies and
//! no use of matrixmultiply: everything is a function of the case alone.

#![allow(clippy::too_many_arguments)]

use std::fmt::Write as _;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty { S, D, C, Z }

impl Ty {
    pub fn comps(self) -> usize { match self { Ty::S | Ty::D => 1, _ => 2 } }
    pub fn is32(self) -> bool { matches!(self, Ty::S | Ty::C) }
    pub fn rsz(self) -> usize { if self.is32() { 4 } else { 8 } }
    pub fn esz(self) -> usize { self.rsz() * self.comps() }
    pub fn prec(self) -> u32 { if self.is32() { 24 } else { 53 } }
    /// exponent of the smallest subnormal
    pub fn emin(self) -> i32 { if self.is32() { -149 } else { -1074 } }
    pub fn emax(self) -> i32 { if self.is32() { 127 } else { 1023 } }
    pub fn ch(self) -> char { match self { Ty::S => 's', Ty::D => 'd', Ty::C => 'c', Ty::Z => 'z' } }
    pub fn from_ch(c: char) -> Option<Ty> {
        Some(match c { 's' => Ty::S, 'd' => Ty::D, 'c' => Ty::C, 'z' => Ty::Z, _ => return None })
    }
}

/// Where a matrix lies in memory relative to the guard pages around it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Lay {
    pub rs: i64,
    pub cs: i64,
    /// false: lowest element flush with the lower guard page; true: highest with the upper.
    pub end: bool,
    /// distance from the guard page, in real scalars (0..=15): alignment.
    pub mis: u8,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    /// small integers times powers of two: every intermediate is exact
    Exact,
    /// arbitrary floats: componentwise error bound
    Float,
    /// exact plus injected NaN / infinities
    Special,
}

/// Injected special value: matrix (0 A, 1 B, 2 C), row, col, component, kind (0 NaN, 1 +Inf, 2 -Inf)
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Inj { pub mat: u8, pub i: usize, pub j: usize, pub comp: u8, pub kind: u8 }

/// A scalar: small integers for re/im; `nz` bits: 1 = re is -0.0 when zero, 2 = im is -0.0 when zero
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Sc { pub re: i32, pub im: i32, pub nz: u8 }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub ty: Ty,
    pub m: usize, pub k: usize, pub n: usize,
    pub alpha: Sc, pub beta: Sc,
    pub a: Lay, pub b: Lay, pub c: Lay,
    /// B is a view of the same memory as A (same base pointer)
    pub alias: bool,
    pub mode: Mode,
    pub seed: u64,
    /// zeros: 0 none added, 1 half, 2 nine of ten; and of either sign: 3 half the runs of 4 slots,
    /// 4 of 16, 5 of 256, 6 half of all matrices, 7 all but one slot in 61.
    /// In Float mode, for complex types: which parts are much smaller than the others, two bits
    /// each for A, B, C (1 imaginary, 2 real, 3 one or the other by slot), one for alpha, one for beta.
    pub dens: u8,
    /// 0: largest exact magnitude, 1: magnitude <= 3
    pub mag: u8,
    /// exponents: of A, of B, of alpha, and of beta (C follows)
    pub ea: i32, pub eb: i32, pub eal: i32, pub ebe: i32,
    /// gap filler: 0 signalling NaN, 1 finite junk, 2 all ones
    pub gap: u8,
    /// C before the call: 0 data, 1 NaN, 2 Inf, 3 signalling NaN / all-ones mix (only sound with beta = 0)
    pub cinit: u8,
    pub inj: Vec<Inj>,
}

impl Case {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let l = |l: &Lay| format!("{},{},{},{}", l.rs, l.cs, l.end as u8, l.mis);
        let sc = |x: &Sc| format!("{},{},{}", x.re, x.im, x.nz);
        let mode = match self.mode { Mode::Exact => 'e', Mode::Float => 'f', Mode::Special => 's' };
        write!(s, "ty={} m={} k={} n={} alpha={} beta={} a={} b={} c={} alias={} mode={} seed={} dens={} mag={} exp={},{},{},{} gap={} cinit={} inj=",
            self.ty.ch(), self.m, self.k, self.n, sc(&self.alpha), sc(&self.beta), l(&self.a), l(&self.b), l(&self.c),
            self.alias as u8, mode, self.seed, self.dens, self.mag, self.ea, self.eb, self.eal, self.ebe, self.gap, self.cinit).unwrap();
        for (x, inj) in self.inj.iter().enumerate() {
            if x > 0 { s.push(';') }
            write!(s, "{},{},{},{},{}", inj.mat, inj.i, inj.j, inj.comp, inj.kind).unwrap();
        }
        s
    }

    pub fn parse(s: &str) -> Result<Case, String> {
        let mut c = Case {
            ty: Ty::S, m: 0, k: 0, n: 0, alpha: Sc { re: 1, im: 0, nz: 0 }, beta: Sc { re: 0, im: 0, nz: 0 },
            a: Lay { rs: 1, cs: 1, end: false, mis: 0 }, b: Lay { rs: 1, cs: 1, end: false, mis: 0 },
            c: Lay { rs: 1, cs: 1, end: false, mis: 0 },
            alias: false, mode: Mode::Exact, seed: 0, dens: 0, mag: 0, ea: 0, eb: 0, eal: 0, ebe: 0, gap: 0, cinit: 0,
            inj: vec![],
        };
        fn nums(v: &str) -> Result<Vec<i64>, String> {
            v.split(',').map(|x| x.parse::<i64>().map_err(|e| format!("{x:?}: {e}"))).collect()
        }
        fn lay(v: &str) -> Result<Lay, String> {
            let x = nums(v)?;
            if x.len() != 4 { return Err(format!("layout {v:?}")) }
            Ok(Lay { rs: x[0], cs: x[1], end: x[2] != 0, mis: x[3] as u8 })
        }
        fn sc(v: &str) -> Result<Sc, String> {
            let x = nums(v)?;
            if x.len() != 3 { return Err(format!("scalar {v:?}")) }
            Ok(Sc { re: x[0] as i32, im: x[1] as i32, nz: x[2] as u8 })
        }
        for tok in s.split_whitespace() {
            let (key, v) = tok.split_once('=').ok_or_else(|| format!("bad token {tok:?}"))?;
            let n = || v.parse::<u64>().map_err(|e| format!("{tok}: {e}"));
            match key {
                "ty" => c.ty = v.chars().next().and_then(Ty::from_ch).ok_or("ty")?,
                "m" => c.m = n()? as usize,
                "k" => c.k = n()? as usize,
                "n" => c.n = n()? as usize,
                "alpha" => c.alpha = sc(v)?,
                "beta" => c.beta = sc(v)?,
                "a" => c.a = lay(v)?,
                "b" => c.b = lay(v)?,
                "c" => c.c = lay(v)?,
                "alias" => c.alias = v == "1",
                "mode" => c.mode = match v { "e" => Mode::Exact, "f" => Mode::Float, "s" => Mode::Special, _ => return Err("mode".into()) },
                "seed" => c.seed = n()?,
                "dens" => c.dens = n()? as u8,
                "mag" => c.mag = n()? as u8,
                "exp" => { let x = nums(v)?; if x.len() != 4 { return Err("exp".into()) } c.ea = x[0] as i32; c.eb = x[1] as i32; c.eal = x[2] as i32; c.ebe = x[3] as i32; }
                "gap" => c.gap = n()? as u8,
                "cinit" => c.cinit = n()? as u8,
                "inj" => if !v.is_empty() {
                    for p in v.split(';') {
                        let x = nums(p)?;
                        if x.len() != 5 { return Err("inj".into()) }
                        c.inj.push(Inj { mat: x[0] as u8, i: x[1] as usize, j: x[2] as usize, comp: x[3] as u8, kind: x[4] as u8 });
                    }
                },
                _ => return Err(format!("unknown key {key}")),
            }
        }
        Ok(c)
    }

    pub fn macs(&self) -> u64 { if self.m == 0 || self.k == 0 || self.n == 0 { 0 } else { (self.m as u64).saturating_mul(self.k as u64).saturating_mul(self.n as u64) } }

    pub fn beta_is_zero(&self) -> bool { self.beta.re == 0 && (self.beta.im == 0 || self.ty.comps() == 1) }
    pub fn alpha_is_zero(&self) -> bool { self.alpha.re == 0 && (self.alpha.im == 0 || self.ty.comps() == 1) }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn pow2(e: i32) -> f64 {
    // exact for -1074..=1023
    if e >= -1022 { f64::from_bits(((e + 1023) as u64) << 52) } else { f64::from_bits(1u64 << (e + 1074)) }
}

/// x * 2^e computed exactly when the result is representable
pub fn scale2(x: f64, e: i32) -> f64 {
    let mut e = e;
    let mut x = x;
    while e > 1000 { x *= pow2(1000); e -= 1000; }
    while e < -1000 { x *= pow2(-1000); e += 1000; }
    x * pow2(e)
}

/// inclusive range of element offsets of an R x C matrix; None if empty
pub fn offset_range(r: usize, c: usize, rs: i64, cs: i64) -> Option<(i64, i64)> {
    if r == 0 || c == 0 { return None }
    let x = rs.saturating_mul(r as i64 - 1);
    let y = cs.saturating_mul(c as i64 - 1);
    Some((x.min(0).saturating_add(y.min(0)), x.max(0).saturating_add(y.max(0))))
}

/// The exact-mode magnitudes: (|entries of A and B|, |entries of C|)
pub fn magnitudes(c: &Case) -> (i64, i64) {
    let p = c.ty.prec();
    let cf = c.ty.comps() as i64;
    let sa = if cf == 1 { c.alpha.re.abs() as i64 } else { (c.alpha.re.abs() + c.alpha.im.abs()) as i64 }.max(1) * cf.min(2);
    let sb = if cf == 1 { c.beta.re.abs() as i64 } else { (c.beta.re.abs() + c.beta.im.abs()) as i64 }.max(1);
    let total: i64 = 1i64 << (p - 1);
    let rc = ((total / 8) / (sb * cf)).min(if c.ty.is32() { 1 << 12 } else { 1 << 24 });
    let rc = if c.mag == 1 { rc.min(3) } else { rc };
    let room = total - total / 8;
    let q = room / (sa * (c.k as i64).max(1));
    let mut r = (q as f64).sqrt() as i64;
    while r * r > q { r -= 1; }
    let r = r.min(if c.ty.is32() { 1 << 11 } else { 1 << 22 }).max(1);
    let r = if c.mag == 1 { r.min(3) } else { r };
    (r, rc)
}

#[inline]
fn int_value(seed: u64, slot: i64, comp: usize, r: i64, dens: u8) -> f64 {
    if seed == 0 { return 1.0 }
    let h = mix(seed ^ mix(slot as u64 ^ ((comp as u64) << 62)));
    if dens == 1 && h >> 63 == 0 { return 0.0 }
    if dens == 2 && (h >> 32) % 10 != 0 { return 0.0 }
    if dens >= 3 {
        let run = |s: u32| mix(seed ^ 0xd1ce ^ mix((slot >> s) as u64)) >> 63 == 0;
        let zero = match dens { 3 => run(2), 4 => run(4), 5 => run(8), 6 => mix(seed) >> 63 == 0, _ => mix(seed ^ slot as u64) % 61 != 0 };
        if zero { return if h >> 62 & 1 == 0 { 0.0 } else { -0.0 } }
    }
    let h2 = (h & 0xffff_ffff) as i64;
    (h2 % (2 * r + 1) - r) as f64
}

#[inline]
fn float_value(seed: u64, slot: i64, comp: usize, is32: bool, spread: i32) -> f64 {
    let h = mix(seed ^ mix(slot as u64 ^ ((comp as u64) << 62)));
    let e = ((h >> 56) as i32 % (2 * spread + 1)) - spread;
    let neg = h & 1 == 1;
    let frac = 1.0 + ((h >> 1) & ((1 << 52) - 1)) as f64 / (1u64 << 52) as f64;
    let mut x = frac * pow2(e);
    if is32 { x = x as f32 as f64 }
    if neg { -x } else { x }
}

/// How much smaller the small parts of graded data are.
pub fn grade(ty: Ty) -> f64 { pow2(if ty.is32() { -12 } else { -30 }) }

/// Unscaled alpha and beta.
pub fn scalars(c: &Case) -> ([f64; 2], [f64; 2]) {
    let mut a = scalar_values(c.alpha, c.ty, c.mode, c.seed);
    let mut b = scalar_values(c.beta, c.ty, c.mode, c.seed ^ 0x55);
    if c.mode == Mode::Float && c.ty.comps() == 2 {
        if c.dens & 64 != 0 { a[(c.seed >> 9 & 1) as usize] *= grade(c.ty) }
        if c.dens & 128 != 0 { b[(c.seed >> 10 & 1) as usize] *= grade(c.ty) }
    }
    (a, b)
}

/// Unscaled scalar (without 2^eal)
pub fn scalar_values(s: Sc, ty: Ty, mode: Mode, seed: u64) -> [f64; 2] {
    let f = |x: i32, z: bool, salt: u64| -> f64 {
        if x == 0 { return if z { -0.0 } else { 0.0 } }
        if mode == Mode::Float && x.abs() > 1 {
            let h = mix(seed ^ salt);
            let v = x as f64 * (1.0 + (h & 0xfffff) as f64 / (1u64 << 22) as f64);
            return if ty.is32() { v as f32 as f64 } else { v }
        }
        x as f64
    };
    [f(s.re, s.nz & 1 != 0, 11), if ty.comps() == 2 { f(s.im, s.nz & 2 != 0, 12) } else { 0.0 }]
}

pub const SPECIAL: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];

/// Values as seen by the slots of one matrix. `slot` is the element offset from the base pointer.
/// Values are *unscaled* in Exact/Special mode (integers); real value = v * 2^exp(mat).
pub struct Values<'c> { c: &'c Case, ra: i64, rc: i64, injslots: Vec<(u8, i64, u8, u8)> }

impl<'c> Values<'c> {
    pub fn new(c: &'c Case) -> Self {
        let (ra, rc) = magnitudes(c);
        let mut injslots = vec![];
        if c.mode == Mode::Special {
            for x in &c.inj {
                let (r, cc, l) = match x.mat { 0 => (c.m, c.k, c.a), 1 => (c.k, c.n, c.b), _ => (c.m, c.n, c.c) };
                if r == 0 || cc == 0 { continue }
                let (i, j) = (x.i % r, x.j % cc);
                let mat = if c.alias && x.mat == 1 { 0 } else { x.mat };
                injslots.push((mat, l.rs * i as i64 + l.cs * j as i64, x.comp % c.ty.comps() as u8, x.kind % 3));
            }
        }
        Values { c, ra, rc, injslots }
    }

    pub fn get(&self, mat: u8, slot: i64, comp: usize) -> f64 {
        let c = self.c;
        let mat = if c.alias && mat == 1 { 0 } else { mat };
        for &(im, s, cp, kind) in &self.injslots {
            if im == mat && s == slot && cp as usize == comp { return SPECIAL[kind as usize] }
        }
        let seed = if c.seed == 0 { 0 } else { mix(c.seed ^ (mat as u64 + 1) << 40) | 1 };
        if mat == 2 {
            match c.cinit {
                0 => {}
                1 => return f64::NAN,
                2 => return if slot & 1 == 0 { f64::INFINITY } else { f64::NEG_INFINITY },
                _ => return f64::NAN,
            }
        }
        match c.mode {
            Mode::Float => {
                let x = float_value(seed, slot, comp, c.ty.is32(), 6);
                if c.dens == 0 || c.ty.comps() == 1 { return x }
                let small = match c.dens >> (2 * mat) & 3 { 0 => false, 1 => comp == 1, 2 => comp == 0, _ => mix(seed ^ slot as u64) & 1 == comp as u64 };
                if small { x * grade(c.ty) } else { x }
            }
            _ => int_value(seed, slot, comp, if mat == 2 { self.rc } else { self.ra }, c.dens),
        }
    }

    /// logical matrix, row major, comps interleaved
    pub fn logical(&self, mat: u8) -> Vec<f64> {
        let c = self.c;
        let (r, cc, l) = match mat { 0 => (c.m, c.k, c.a), 1 => (c.k, c.n, c.b), _ => (c.m, c.n, c.c) };
        let nc = c.ty.comps();
        let mut v = Vec::with_capacity(r * cc * nc);
        for i in 0..r {
            for j in 0..cc {
                let slot = l.rs * i as i64 + l.cs * j as i64;
                for p in 0..nc { v.push(self.get(mat, slot, p)) }
            }
        }
        v
    }
}

/// exponent applied to matrix entries (0 A, 1 B, 2 C)
pub fn exps(c: &Case) -> [i32; 3] {
    if c.mode == Mode::Float { return [c.ea, c.eb, c.ea + c.eb + c.eal - c.ebe] }
    let eb = if c.alias { c.ea } else { c.eb };
    [c.ea, eb, c.ea + eb + c.eal - c.ebe]
}

/// The real scalar arguments.
pub fn alpha_beta(c: &Case) -> ([f64; 2], [f64; 2]) {
    let (a, b) = scalars(c);
    let s = |x: f64, e: i32| if x == 0.0 { x } else { scale2(x, e) };
    ([s(a[0], c.eal), s(a[1], c.eal)], [s(b[0], c.ebe), s(b[1], c.ebe)])
}

/// Whether the exponents of an exact case keep everything in range (generator precondition).
pub fn exact_in_range(c: &Case) -> bool {
    let e = exps(c);
    let (lo, hi) = (c.ty.emin(), c.ty.emax() - c.ty.prec() as i32);
    let p = c.ty.prec() as i32 / 2 + 1;
    let ab = e[0] + e[1];
    [e[0], e[1]].iter().all(|&x| x >= lo && x + p <= hi + c.ty.prec() as i32)
        && e[2] >= lo && e[2] <= hi
        && ab >= lo && ab <= hi
        && ab + c.eal >= lo && ab + c.eal <= hi
        && c.eal >= lo + 8 && c.eal <= c.ty.emax() - 8
        && c.ebe >= lo + 8 && c.ebe <= c.ty.emax() - 8
}

/// What one component of one element of C must be.
#[derive(Clone, Copy, Debug)]
pub enum Want {
    /// exactly this number (zero of either sign)
    Num(f64),
    /// within this distance
    Near(f64, f64),
    /// NaN
    Nan,
    /// this infinity
    Inf(f64),
    /// complex element touched by a special value: the pair must hold a non-finite component
    NonFinite,
    /// not specified (alpha = 0 with special inputs)
    Any,
}

fn two_sum(a: f64, b: f64) -> (f64, f64) { let s = a + b; let bb = s - a; (s, (a - (s - bb)) + (b - bb)) }
fn two_prod(a: f64, b: f64) -> (f64, f64) { let p = a * b; (p, a.mul_add(b, -p)) }

#[derive(Clone, Copy)]
struct Dd(f64, f64);
impl Dd {
    fn add_prod(self, a: f64, b: f64) -> Dd {
        let (p, e) = two_prod(a, b);
        let (s, t) = two_sum(self.0, p);
        let lo = self.1 + t + e;
        let (h, l) = two_sum(s, lo);
        Dd(h, l)
    }
    fn scale(self, a: f64) -> Dd {
        let (p, e) = two_prod(self.0, a);
        let lo = self.1 * a + e;
        let (h, l) = two_sum(p, lo);
        Dd(h, l)
    }
    fn add(self, o: Dd) -> Dd {
        let (s, t) = two_sum(self.0, o.0);
        let (h, l) = two_sum(s, t + self.1 + o.1);
        Dd(h, l)
    }
}

/// The reference model: what C must hold after the call, handed out row by row, components
/// interleaved. `a`, `b`, `cc` are the logical matrices from `Values::logical`.
/// Stops early when the callback returns false.
pub fn model_rows(c: &Case, a: &[f64], b: &[f64], cc: &[f64], mut emit: impl FnMut(usize, &[Want]) -> bool) {
    let (m, k, n) = (c.m, c.k, c.n);
    let nc = c.ty.comps();
    let mut want: Vec<Want> = Vec::with_capacity(n * nc);
    match c.mode {
        Mode::Exact | Mode::Special => {
            let al = scalar_values(c.alpha, c.ty, Mode::Exact, 0);
            let be = scalar_values(c.beta, c.ty, Mode::Exact, 0);
            let unit = exps(c)[0] + exps(c)[1] + c.eal;
            let bz = c.beta_is_zero();
            let special = c.mode == Mode::Special;
            // finite parts; specials enter as 0 and are tracked apart
            let clean = |v: &[f64]| -> Vec<f64> { v.iter().map(|x| if x.is_finite() { *x } else { 0.0 }).collect() };
            let (af, bf);
            let (ar, br): (&[f64], &[f64]) = if special { af = clean(a); bf = clean(b); (&af, &bf) } else { (a, b) };
            let mut row = vec![0.0f64; n * nc];
            let a_bad: Vec<bool> = if special { (0..m).map(|i| a[i * k * nc..(i + 1) * k * nc].iter().any(|x| !x.is_finite())).collect() } else { vec![false; m] };
            let b_bad: Vec<bool> = if special { (0..n).map(|j| (0..k).any(|l| (0..nc).any(|p| !b[(l * n + j) * nc + p].is_finite()))).collect() } else { vec![false; n] };
            for i in 0..m {
                want.clear();
                for x in row.iter_mut() { *x = 0.0 }
                for l in 0..k {
                    if nc == 1 {
                        let x = ar[i * k + l];
                        let brow = &br[l * n..(l + 1) * n];
                        for (r, y) in row.iter_mut().zip(brow) { *r += x * y }
                    } else {
                        let (p, q) = (ar[(i * k + l) * 2], ar[(i * k + l) * 2 + 1]);
                        let brow = &br[l * n * 2..(l + 1) * n * 2];
                        for (r, y) in row.chunks_exact_mut(2).zip(brow.chunks_exact(2)) {
                            r[0] += p * y[0] - q * y[1];
                            r[1] += p * y[1] + q * y[0];
                        }
                    }
                }
                for j in 0..n {
                    let cidx = (i * n + j) * nc;
                    let c_bad = !bz && (0..nc).any(|p| !cc[cidx + p].is_finite());
                    let ab_bad = k > 0 && (a_bad[i] || b_bad[j]);
                    if ab_bad || c_bad {
                        if ab_bad && c.alpha_is_zero() { for _ in 0..nc { want.push(Want::Any) } continue }
                        if nc == 2 { for _ in 0..2 { want.push(Want::NonFinite) } continue }
                        // real: IEEE classification, order independent
                        let mut sum = 0.0f64;
                        for l in 0..k {
                            let t = a[i * k + l] * b[l * n + j];
                            if !t.is_finite() { sum += t }
                        }
                        let mut t = if sum == 0.0 { 0.0 } else { al[0] * sum };
                        if !bz {
                            let u = be[0] * cc[cidx];
                            if !u.is_finite() { t += u }
                        }
                        want.push(if t.is_nan() { Want::Nan } else { Want::Inf(t) });
                        continue;
                    }
                    let ab = &row[j * nc..(j + 1) * nc];
                    if nc == 1 {
                        let mut v = if k == 0 { 0.0 } else { al[0] * ab[0] };
                        if !bz { v += be[0] * cc[cidx] }
                        want.push(Want::Num(scale2(v, unit)));
                    } else {
                        let mut re = al[0] * ab[0] - al[1] * ab[1];
                        let mut im = al[0] * ab[1] + al[1] * ab[0];
                        if !bz {
                            re += be[0] * cc[cidx] - be[1] * cc[cidx + 1];
                            im += be[0] * cc[cidx + 1] + be[1] * cc[cidx];
                        }
                        want.push(Want::Num(scale2(re, unit)));
                        want.push(Want::Num(scale2(im, unit)));
                    }
                }
                if !emit(i, &want) { return }
            }
        }
        Mode::Float => {
            // values here are scaled by alpha_beta() and the exponents; keep everything unscaled and scale at the end
            let (al, be) = scalars(c);
            let bz = c.beta_is_zero();
            let unit = exps(c)[0] + exps(c)[1] + c.eal;
            let u = pow2(-(c.ty.prec() as i32));
            let terms = (k * nc) as f64;
            let gam = (terms + 2.0 * (k / 8 + 1) as f64 + 24.0) * u * 1.05;
            let tiny = pow2((c.ty.emin() - unit).max(-1074)) * (terms + 8.0) * 4.0;
            // of a large product, some rows
            let every = (c.macs() / 60_000_000 + 1) as usize;
            for i in 0..m {
                want.clear();
                if every > 1 && i > 0 && i + 1 < m && mix(c.seed ^ i as u64) % every as u64 != 0 {
                    for _ in 0..n * nc { want.push(Want::Any) }
                    if !emit(i, &want) { return }
                    continue;
                }
                for j in 0..n {
                    let cidx = (i * n + j) * nc;
                    if nc == 1 {
                        let mut s = Dd(0.0, 0.0);
                        let mut sabs = 0.0;
                        for l in 0..k {
                            let (x, y) = (a[i * k + l], b[l * n + j]);
                            s = s.add_prod(x, y);
                            sabs += (x * y).abs();
                        }
                        s = s.scale(al[0]);
                        sabs *= al[0].abs();
                        if !bz { s = s.add_prod(be[0], cc[cidx]); sabs += (be[0] * cc[cidx]).abs() }
                        want.push(Want::Near(scale2(s.0 + s.1, unit), scale2(gam * sabs + tiny, unit)));
                    } else {
                        let (mut re, mut im) = (Dd(0.0, 0.0), Dd(0.0, 0.0));
                        let (mut sre, mut sim) = (0.0, 0.0);
                        for l in 0..k {
                            let (p, q) = (a[(i * k + l) * 2], a[(i * k + l) * 2 + 1]);
                            let (x, y) = (b[(l * n + j) * 2], b[(l * n + j) * 2 + 1]);
                            re = re.add_prod(p, x).add_prod(-q, y);
                            im = im.add_prod(p, y).add_prod(q, x);
                            sre += (p * x).abs() + (q * y).abs();
                            sim += (p * y).abs() + (q * x).abs();
                        }
                        let (r0, i0) = (re, im);
                        let mut re = r0.scale(al[0]).add(i0.scale(-al[1]));
                        let mut im = i0.scale(al[0]).add(r0.scale(al[1]));
                        let mut sr = al[0].abs() * sre + al[1].abs() * sim;
                        let mut si = al[0].abs() * sim + al[1].abs() * sre;
                        if !bz {
                            let (p, q) = (cc[cidx], cc[cidx + 1]);
                            re = re.add_prod(be[0], p).add_prod(-be[1], q);
                            im = im.add_prod(be[0], q).add_prod(be[1], p);
                            sr += (be[0] * p).abs() + (be[1] * q).abs();
                            si += (be[0] * q).abs() + (be[1] * p).abs();
                        }
                        want.push(Want::Near(scale2(re.0 + re.1, unit), scale2(gam * sr + tiny, unit)));
                        want.push(Want::Near(scale2(im.0 + im.1, unit), scale2(gam * si + tiny, unit)));
                    }
                }
                if !emit(i, &want) { return }
            }
        }
    }
}

/// Freivalds check of an exact case for sizes where the reference model is too slow: every row
/// of C times a random vector, in integers modulo 2^64. `got` is the unscaled result, row major.
pub fn freivalds(c: &Case, a: &[f64], b: &[f64], cc: &[f64], got: &[f64]) -> Result<(), String> {
    assert!(c.mode == Mode::Exact);
    let (m, k, n) = (c.m, c.k, c.n);
    let nc = c.ty.comps();
    let al = scalar_values(c.alpha, c.ty, Mode::Exact, 0).map(|x| x as i64);
    let be = scalar_values(c.beta, c.ty, Mode::Exact, 0).map(|x| x as i64);
    let bz = c.beta_is_zero();
    let x: Vec<i64> = (0..n).map(|j| mix(c.seed ^ 0xf7e1 ^ ((j as u64) << 20)) as i64).collect();
    // rows times x, componentwise
    let dot = |v: &[f64]| -> [i64; 2] {
        let mut s = [0i64; 2];
        for (j, y) in v.chunks_exact(nc).enumerate() {
            for p in 0..nc { s[p] = s[p].wrapping_add((y[p] as i64).wrapping_mul(x[j])) }
        }
        s
    };
    let cmul = |p: [i64; 2], q: [i64; 2]| [
        p[0].wrapping_mul(q[0]).wrapping_sub(p[1].wrapping_mul(q[1])),
        p[0].wrapping_mul(q[1]).wrapping_add(p[1].wrapping_mul(q[0]))];
    let bx: Vec<[i64; 2]> = (0..k).map(|l| dot(&b[l * n * nc..(l + 1) * n * nc])).collect();
    for i in 0..m {
        let mut s = [0i64; 2];
        for l in 0..k {
            let e = &a[(i * k + l) * nc..];
            let p = cmul([e[0] as i64, if nc == 2 { e[1] as i64 } else { 0 }], bx[l]);
            s = [s[0].wrapping_add(p[0]), s[1].wrapping_add(p[1])];
        }
        let mut w = cmul(al, s);
        if !bz {
            let q = cmul(be, dot(&cc[i * n * nc..(i + 1) * n * nc]));
            w = [w[0].wrapping_add(q[0]), w[1].wrapping_add(q[1])];
        }
        let grow = &got[i * n * nc..(i + 1) * n * nc];
        if let Some(j) = grow.iter().position(|x| !x.is_finite() || x.fract() != 0.0) {
            return Err(format!("row {i} component {j}: not an integer: {}", grow[j]));
        }
        let g = dot(grow);
        if g != w { return Err(format!("row {i}: a random combination of its elements is wrong")) }
    }
    Ok(())
}

/// Compare one element's components. Returns a description on mismatch.
pub fn check_elem(want: &[Want], got: &[f64]) -> Option<String> {
    for (w, &g) in want.iter().zip(got) {
        let ok = match *w {
            Want::Num(x) => g == x,
            Want::Near(x, d) => (g - x).abs() <= d,
            Want::Nan => g.is_nan(),
            Want::Inf(x) => g == x,
            Want::NonFinite => got.iter().any(|x| !x.is_finite()),
            Want::Any => true,
        };
        if !ok { return Some(format!("want {want:?} got {got:?}")) }
    }
    None
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn text_roundtrip() {
        let s = "ty=z m=3 k=4 n=5 alpha=2,-1,0 beta=0,0,3 a=4,1,0,1 b=-5,1,1,2 c=1,3,0,0 alias=0 mode=s seed=9 dens=1 mag=0 exp=1,-2,0,3 gap=1 cinit=0 inj=0,1,2,0,1;2,0,0,1,0";
        let c = Case::parse(s).unwrap();
        assert_eq!(c.to_text(), s);
    }
}
