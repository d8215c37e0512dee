//! proptest strategies for gemm cases.
use mmcase::*;
use proptest::prelude::*;
use proptest::sample::select;

/// What a check wants its cases to look like.
#[derive(Clone, Debug)]
pub struct Prof {
    pub types: Vec<Ty>,
    /// weights of the shape classes: tiny, edge, block, long, medium, threads, zero, large
    pub shapes: [u32; 8],
    pub cap: u64,
    /// weights: exact, float, special
    pub modes: [u32; 3],
    /// weights of the layout classes of A and B: plain, general, extreme (huge, page gaps), degenerate (zero, overlapping)
    pub ab: [u32; 4],
    /// of C: plain, general, extreme
    pub c: [u32; 3],
    /// percent of cases with B a view of A
    pub alias: u32,
    /// only beta = 0 (in all its representations), C holding garbage
    pub beta_zero: bool,
    /// no garbage in C even with beta = 0
    pub keep_c: bool,
    /// percent of exact cases with scaled operands; extreme: up to the ends of the exponent range
    pub scaled: u32,
    pub extreme: bool,
    /// beta must not be zero / alpha must not be zero
    pub live: bool,
}

impl Prof {
    pub fn base(cgemm: bool) -> Prof {
        Prof {
            types: if cgemm { vec![Ty::S, Ty::D, Ty::C, Ty::Z] } else { vec![Ty::S, Ty::D] },
            shapes: [4, 5, 4, 1, 3, 0, 1, 0],
            cap: 3_000_000,
            modes: [7, 3, 0],
            ab: [5, 3, 1, 1],
            c: [5, 3, 1],
            alias: 3,
            beta_zero: false,
            keep_c: false,
            scaled: 15,
            extreme: false,
            live: false,
        }
    }
}

const EDGES: [usize; 44] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 23, 24, 25, 27, 28, 29, 31, 32, 33, 39, 40, 41, 47, 48, 49, 55, 56, 57, 63, 64, 65, 66, 71, 72, 73];

type Dims = (usize, usize, usize);

fn near(base: usize, jmax: usize) -> impl Strategy<Value = usize> {
    (1..=jmax, -9i64..=9).prop_map(move |(j, d)| ((base * j) as i64 + d).max(1) as usize)
}

fn logu(lo: f64, hi: f64) -> impl Strategy<Value = usize> {
    (0u32..=10000).prop_map(move |x| (lo * (hi / lo).powf(x as f64 / 10000.0)) as usize)
}

fn dims(w: [u32; 8]) -> BoxedStrategy<Dims> {
    let tiny = (0usize..=20, 0usize..=20, 0usize..=20).boxed();
    let e = || select(&EDGES[..]);
    let edge = (e(), e(), e()).boxed();
    let dm = prop_oneof![3 => 1usize..=12, 2 => near(64, 5), 2 => near(32, 9)];
    let dk = prop_oneof![3 => 1usize..=12, 3 => near(256, 4), 1 => near(64, 4)];
    let dn = prop_oneof![4 => 1usize..=12, 2 => near(512, 3), 1 => near(1024, 2), 1 => near(64, 4)];
    let block = (dm, dk, dn).boxed();
    let long = (0usize..3, prop_oneof![3 => logu(100.0, 5000.0), 1 => logu(5000.0, 150000.0), 1 => near(65536, 2)], 1usize..=6, 1usize..=6)
        .prop_map(|(ax, l, x, y)| match ax { 0 => (l, x, y), 1 => (x, l, y), _ => (x, y, l) }).boxed();
    let medium = (1usize..=150, 1usize..=150, 1usize..=150).boxed();
    let thr = (
        prop_oneof![3 => 1usize..=64, 3 => near(48, 8), 3 => near(96, 4), 2 => 1usize..=400],
        prop_oneof![2 => 1usize..=64, 2 => near(64, 6), 1 => near(1024, 2)],
        0usize..=3, -3i64..=40, 0usize..=200,
    ).prop_map(|(m, n, kind, d, j)| {
        let unit = 32768usize * if kind & 1 == 0 { 1 } else { 2 };
        let k = (unit + m + n - 1) / (m + n);
        let k = if kind < 2 { (k as i64 + d).max(1) as usize } else { k + k * j / 100 };
        (m, k, n)
    }).boxed();
    let zsmall = (0usize..=60, 0usize..=60, 0usize..=60, 1u8..=7, prop_oneof![3 => Just(1usize), 1 => 2usize..=40])
        .prop_map(|(m, k, n, z, f)| (if z & 1 != 0 { 0 } else { m * f }, if z & 2 != 0 { 0 } else { k * f }, if z & 4 != 0 { 0 } else { n * f }));
    let zlong = (0usize..4, prop_oneof![2 => logu(1000.0, 150000.0), 1 => near(65536, 3), 1 => near(32768, 5)], 0usize..=7)
        .prop_map(|(ax, l, x)| match ax { 0 | 1 => (l, 0, x), _ => (x, 0, l) });
    let zhuge = (0usize..2, select(&[(1usize << 31) + 1, 1 << 32, (1 << 32) + 5, 1 << 40][..])).prop_map(|(ax, l)| if ax == 0 { (0, l, 0) } else { (0, 0, l) });
    let zero = prop_oneof![24 => zsmall, 3 => zlong, 1 => zhuge].boxed();
    let l = || prop_oneof![3 => 100usize..=700, 2 => select(&[256usize, 320, 384, 500, 512, 513, 514, 576, 640, 704, 768, 800][..])];
    let large = prop_oneof![3 => (l(), l(), l()), 1 => l().prop_map(|x| (x, x, x))].boxed();
    let all = [tiny, edge, block, long, medium, thr, zero, large];
    let v: Vec<(u32, BoxedStrategy<Dims>)> = all.into_iter().zip(w).filter(|x| x.1 > 0).map(|(s, w)| (w, s)).collect();
    proptest::strategy::Union::new_weighted(v).boxed()
}

#[derive(Clone, Debug)]
struct RawLay { class: u32, kind: u8, p: u8, q: u8, flags: u8, mis: u8 }

fn lay(classes: &[u32]) -> BoxedStrategy<RawLay> {
    let v: Vec<(u32, BoxedStrategy<u32>)> = classes.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, w)| (*w, Just(i as u32).boxed())).collect();
    let mis = prop_oneof![3 => Just(0u8), 2 => 1u8..=15];
    (proptest::strategy::Union::new_weighted(v), 0u8..=11, 0u8..=30, 0u8..=30, any::<u8>(), mis)
        .prop_map(|(class, kind, p, q, flags, mis)| RawLay { class, kind, p, q, flags, mis }).boxed()
}

const WEIRD: [i64; 16] = [0, 1, -1, 7, 1 << 20, -(1 << 20), (1 << 31) + 3, -(1 << 33), 1 << 40, -(1 << 40), i64::MAX, i64::MIN, (1 << 62) + 1, -(1 << 62) - 5, (1 << 60) + 7, -(1 << 59)];

fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a } else { gcd(b, a % b) } }

/// Strides for an r x c matrix.
fn strides(l: &RawLay, r: usize, c: usize, esz: usize) -> (i64, i64) {
    let (ri, ci) = (r.max(1) as i64, c.max(1) as i64);
    let (p, q) = (l.p as i64, l.q as i64);
    let plain = |k: u8| if k & 1 == 0 { (ci, 1) } else { (1, ri) };
    let pe = 4096 / esz as i64;
    let (mut rs, mut cs) = match l.class {
        0 => plain(l.kind),
        1 => match l.kind % 8 {
            0 => (ci + p, 1),
            1 => (1, ri + p),
            2 => ((2 + p % 5) * ci + q, 2 + p % 5),
            3 => (2 + p % 5, (2 + p % 5) * ri + q),
            4 | 5 => {
                // interleaved rows and columns
                let rs = ci + p % 7;
                let mut cs = ri + q % 7;
                while gcd(rs, cs) != 1 { cs += 1 }
                (rs, cs)
            }
            6 => ((2 + p % 3) * ci, 2 + p % 3),
            _ => (2 + p % 3, (2 + p % 3) * ri),
        },
        2 => {
            let elems = ri * ci;
            let big = (1i64 << 31) + p * 4099 + 1;
            match l.kind % 6 {
                // one page gap or more between rows / columns
                0 if ci < pe && ri <= 2000 => (pe * (1 + p % 2) + q % 4, 1),
                1 if ri < pe && ci <= 2000 => (1, pe * (1 + p % 2) + q % 4),
                2 if elems <= 2000 => { let cs = pe + p % 4; (cs * ci + q, cs) }
                3 if ri <= 64 && ci <= 20000 => (big, 1),
                4 if ci <= 64 && ri <= 20000 => (1, big),
                5 if elems <= 600 => if l.flags & 16 == 0 { (big * ci + 1, big) } else { (big, big * ri + 3) },
                _ => plain(l.kind),
            }
        }
        _ => match l.kind % 8 {
            0 => (0, 1),
            1 => (1, 0),
            2 => (0, 0),
            3 => (1, 1),
            4 => (p % 4, q % 6),
            5 => (q % 3, 1),
            6 => (1, p % 3),
            _ => (p % 7 - 3, q % 7 - 3),
        },
    };
    if l.class > 0 || l.kind >= 8 {
        if l.flags & 1 != 0 && l.flags & 4 != 0 { rs = -rs }
        if l.flags & 2 != 0 && l.flags & 8 != 0 { cs = -cs }
    }
    // the stride of a dimension with at most one index is arbitrary
    if l.flags & 32 != 0 {
        if r <= 1 || c == 0 { rs = WEIRD[l.q as usize % 16] }
        if c <= 1 || r == 0 { cs = WEIRD[l.p as usize % 16] }
    }
    (rs, cs)
}

fn alpha(live: bool) -> BoxedStrategy<Sc> {
    let w0 = if live { 0 } else { 2 };
    let one = Just(Sc { re: 1, im: 0, nz: 0 });
    let some = (-3i32..=3, prop_oneof![2 => Just(0i32), 2 => -3i32..=3], 0u8..=3).prop_map(|(re, im, nz)| Sc { re, im, nz });
    let zero = (0u8..=3).prop_map(|nz| Sc { re: 0, im: 0, nz });
    if w0 == 0 {
        return prop_oneof![5 => one, 1 => Just(Sc { re: -1, im: 0, nz: 0 }), 6 => some.prop_map(|s| if s.re == 0 { Sc { re: 2, ..s } } else { s })].boxed();
    }
    prop_oneof![5 => one, 1 => Just(Sc { re: -1, im: 0, nz: 0 }), 6 => some, 1 => zero].boxed()
}

fn beta(zero_only: bool) -> BoxedStrategy<Sc> {
    let zero = (0u8..=3).prop_map(|nz| Sc { re: 0, im: 0, nz });
    if zero_only { return zero.boxed() }
    let one = Just(Sc { re: 1, im: 0, nz: 0 });
    let some = (-3i32..=3, prop_oneof![2 => Just(0i32), 2 => -3i32..=3], 0u8..=3).prop_map(|(re, im, nz)| Sc { re, im, nz });
    prop_oneof![3 => zero, 3 => one, 1 => Just(Sc { re: -1, im: 0, nz: 0 }), 5 => some].boxed()
}

fn inj() -> impl Strategy<Value = Vec<Inj>> {
    proptest::collection::vec((0u8..=2, any::<u32>(), any::<u32>(), 0u8..=1, 0u8..=2).prop_map(|(mat, i, j, comp, kind)| Inj { mat, i: i as usize, j: j as usize, comp, kind }), 1..=4)
}

fn weighted<T: Clone + std::fmt::Debug + 'static>(v: Vec<(u32, T)>) -> BoxedStrategy<T> {
    proptest::strategy::Union::new_weighted(v.into_iter().filter(|x| x.0 > 0).map(|(w, x)| (w, Just(x).boxed())).collect()).boxed()
}

pub fn cap_dims(d: Dims, cap: u64, elems: usize) -> Dims {
    let (mut m, mut k, mut n) = d;
    loop {
        let macs = m as u128 * k as u128 * n as u128;
        let big = (m * k).max(k * n).max(m * n);
        if macs <= cap as u128 && big <= elems { return (m, k, n) }
        if m >= k && m >= n { m = m * 2 / 3 } else if k >= n { k = k * 2 / 3 } else { n = n * 2 / 3 }
    }
}

pub fn case(p: &Prof) -> BoxedStrategy<Case> {
    let p = p.clone();
    let ty = select(p.types.clone());
    let mode = weighted(vec![(p.modes[0], Mode::Exact), (p.modes[1], Mode::Float), (p.modes[2], Mode::Special)]);
    let scal = (alpha(p.live), beta(p.beta_zero));
    let lays = (lay(&p.ab), lay(&p.ab), lay(&p.c));
    let er = if p.extreme { 1.0f64 } else { 0.0 };
    let misc = (any::<u64>(), prop_oneof![8 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 4 => 3u8..=7], prop_oneof![3 => Just(0u8), 1 => Just(1u8)],
        0u8..=2, 0u8..=3, 0u32..100, 0u32..100);
    let ex = (-1000i32..=1000, -1000i32..=1000, -1000i32..=1000, -1000i32..=1000);
    (ty, dims(p.shapes), scal, mode, lays, misc, ex, inj()).prop_map(move |(ty, d, (al, be), mode, (a, b, c), (seed, dens, mag, gap, cinit, al_pct, sc_pct), ex, inj)| {
        let alias = al_pct < p.alias && mode != Mode::Special;
        let (mut m, mut k, mut n) = d;
        if alias && seed & 1 == 0 { n = m }
        (m, k, n) = cap_dims((m, k, n), p.cap, 400_000);
        if alias && seed & 1 == 0 { n = n.min(m); m = n }
        let esz = ty.esz();
        let end = |l: &RawLay| l.flags & 64 != 0;
        let (rsa, csa) = strides(&a, m, k, esz);
        let (mut rsb, mut csb) = strides(&b, k, n, esz);
        if alias && seed & 1 == 0 { rsb = csa; csb = rsa }
        let (rsc, csc) = strides(&c, m, n, esz);
        let mut cs = Case {
            ty, m, k, n, alpha: al, beta: be,
            a: Lay { rs: rsa, cs: csa, end: end(&a), mis: a.mis },
            b: Lay { rs: rsb, cs: csb, end: end(&b), mis: b.mis },
            c: Lay { rs: rsc, cs: csc, end: end(&c), mis: c.mis },
            alias, mode, seed, dens: if mode != Mode::Float { dens } else if dens == 0 { 0 } else { mix(seed) as u8 }, mag: if mode == Mode::Special { 1 } else { mag },
            ea: 0, eb: 0, eal: 0, ebe: 0, gap,
            cinit: 0,
            inj: if mode == Mode::Special { inj } else { vec![] },
        };
        if cs.beta_is_zero() && !p.keep_c { cs.cinit = cinit }
        if sc_pct < p.scaled { set_exps(&mut cs, ex, er > 0.0) }
        fix(&mut cs);
        cs
    }).boxed()
}

/// Exponents: raw values in -1000..=1000 mapped into what the type allows.
fn set_exps(c: &mut Case, ex: (i32, i32, i32, i32), extreme: bool) {
    if c.mode == Mode::Float {
        let s = |x: i32| x * 6 / 1000;
        (c.ea, c.eb, c.eal, c.ebe) = (s(ex.0), s(ex.1), s(ex.2), s(ex.3));
        return;
    }
    let lim = if extreme { if c.ty.is32() { 150 } else { 1080 } } else { 20 };
    let s = |x: i32, f: i32| (x as i64 * (lim / f) as i64 / 1000) as i32;
    (c.ea, c.eb, c.eal, c.ebe) = (s(ex.0, 1), s(ex.1, 1), s(ex.2, 2), s(ex.3, 2));
    // pull towards zero until everything stays exact
    for _ in 0..400 {
        if exact_in_range(c) { return }
        for x in [&mut c.ea, &mut c.eb, &mut c.eal, &mut c.ebe] { *x = if *x > 0 { (*x * 19 / 20).min(*x - 1) } else if *x < 0 { (*x * 19 / 20).max(*x + 1) } else { 0 } }
    }
    (c.ea, c.eb, c.eal, c.ebe) = (0, 0, 0, 0);
}

/// Re-establish what the rest of the harness relies on (also after shrinking).
pub fn fix(c: &mut Case) {
    if !c.beta_is_zero() { c.cinit = 0 }
    if c.ty.comps() == 1 { c.alpha.im = 0; c.beta.im = 0 }
    if c.alpha_is_zero() { c.eal = 0 }
    if c.beta_is_zero() { c.ebe = 0 }
    if c.mode != Mode::Special { c.inj.clear() }
    if c.mode != Mode::Float && !exact_in_range(c) { c.ea = 0; c.eb = 0; c.eal = 0; c.ebe = 0 }
    if c.alias && c.mode != Mode::Float { c.eb = c.ea }
    if c.alias && c.mode == Mode::Float { c.eb = c.ea }
    if c.mode != Mode::Float && !exact_in_range(c) { c.ea = 0; c.eb = 0; c.eal = 0; c.ebe = 0 }
}

/// Are C's elements at distinct addresses?
pub fn injective(r: usize, c: usize, rs: i64, cs: i64) -> bool {
    if r == 0 || c == 0 { return true }
    if r == 1 { return c == 1 || cs != 0 }
    if c == 1 { return rs != 0 }
    if rs == 0 || cs == 0 { return false }
    // i*rs = j*cs for some 0 < i < r, 0 < |j| < c
    let (x, y) = (rs.saturating_abs(), cs.saturating_abs());
    let g = gcd(x, y);
    !((y / g) < r as i64 && (x / g) < c as i64)
}

/// Every operand's extent is one the worker can map (and holds few enough elements).
pub fn spans_ok(c: &Case) -> bool {
    [(c.m, c.k, c.a), (c.k, c.n, c.b), (c.m, c.n, c.c)].iter().all(|(r, q, l)| {
        let e = |n: usize, s: i64| (n.saturating_sub(1) as i128) * (s.unsigned_abs() as i128);
        *r == 0 || *q == 0 || (e(*r, l.rs) + e(*q, l.cs) + 1) * c.ty.esz() as i128 <= 1 << 43 && r.saturating_mul(*q) <= 400_000 && (e(*r, l.rs).max(e(*q, l.cs)) < 1 << 30 || r * q <= 20_000)
    }) && c.macs() <= 8_000_000
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15); mix(self.0) }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
}

pub fn field(c: &Case, i: usize) -> i64 { [c.m as i64, c.k as i64, c.n as i64, c.a.rs, c.a.cs, c.b.rs, c.b.cs, c.c.rs, c.c.cs][i] }
fn set_field(c: &mut Case, i: usize, v: i64) {
    match i {
        0 => c.m = v.clamp(0, 1 << 20) as usize,
        1 => c.k = v.clamp(0, 1 << 20) as usize,
        2 => c.n = v.clamp(0, 1 << 20) as usize,
        _ => { let v = if v.saturating_abs() > 1 << 40 && v.saturating_abs() < 1 << 58 { v.clamp(-(1 << 40), 1 << 40) } else { v }; *[&mut c.a.rs, &mut c.a.cs, &mut c.b.rs, &mut c.b.cs, &mut c.c.rs, &mut c.c.cs].into_iter().nth(i - 3).unwrap() = v }
    }
}

/// A variation of a case: fields moved so that comparisons the code made (`pairs`) come out
/// otherwise, arithmetic, and parts of a freshly generated case.
pub fn mutate(base: &Case, fresh: &Case, pairs: &[(u32, i64, i64)], r: &mut Rng, cap: u64) -> Case {
    let mut x = base.clone();
    let mut pinned = [false; 3];
    for _ in 0..1 + r.below(3) {
        let any = |r: &mut Rng| if r.below(3) < 2 { r.below(3) as usize } else { r.below(9) as usize };
        let mut put = |x: &mut Case, i: usize, v: i64| { set_field(x, i, v); if i < 3 { pinned[i] = true } };
        match r.below(12) {
            0..=4 if !pairs.is_empty() => {
                let (_, mut v, mut t) = r.pick(pairs);
                if r.below(2) == 0 { (v, t) = (t, v) }
                let t = t.wrapping_add(r.pick(&[0, 0, 1, -1]));
                let direct: Vec<usize> = (0..9).filter(|&i| field(&x, i) == v || field(&x, i) == -v).collect();
                match r.below(6) {
                    0..=2 if !direct.is_empty() => { let i = r.pick(&direct); put(&mut x, i, t) }
                    3 => { let i = any(r); let f = field(&x, i); put(&mut x, i, f.wrapping_add(t.wrapping_sub(v))) }
                    4 => { let (i, j) = (any(r), any(r)); let f = field(&x, j); if f != 0 { put(&mut x, i, t / f + (t % f != 0 && r.below(2) == 0) as i64) } }
                    _ => { let i = any(r); put(&mut x, i, t) }
                }
            }
            0..=5 => { let i = any(r); let f = field(&x, i); let d = r.pick(&[1, -1, 2, -2, 4, -4, 7, 8, -8, 16]); put(&mut x, i, f.wrapping_add(d)) }
            6 => { let (i, j) = (any(r), any(r)); let f = field(&x, j); put(&mut x, i, f) }
            7 => { let i = any(r); let v = (1i64 << r.below(18)) * r.pick(&[1, 1, 1, 3, 5]) + r.pick(&[-1, 0, 0, 1]); put(&mut x, i, v) }
            8 => { let i = any(r); let f = field(&x, i); put(&mut x, i, if i >= 3 && r.below(2) == 0 { -f } else { f.wrapping_mul(2) }) }
            9 => match r.below(3) { 0 => x.a = fresh.a, 1 => x.b = fresh.b, _ => x.c = fresh.c },
            10 => match r.below(3) { 0 => { x.alpha = fresh.alpha; x.eal = fresh.eal } 1 => { x.beta = fresh.beta; x.ebe = fresh.ebe } _ => { x.ty = fresh.ty } },
            _ => {
                x.seed = fresh.seed;
                if r.below(2) == 0 {
                    (x.mode, x.dens, x.mag, x.gap) = (fresh.mode, fresh.dens, fresh.mag, fresh.gap);
                    x.inj = fresh.inj.clone();
                    (x.ea, x.eb, x.eal, x.ebe) = (fresh.ea, fresh.eb, fresh.eal, fresh.ebe);
                }
            }
        }
    }
    tidy(base, &mut x, pinned, r.below(2) == 0, cap);
    x
}

/// The case with one field (m, k, n, or a stride) set; where that is too large, with one or the
/// other of the rest kept.
pub fn with_field(base: &Case, i: usize, v: i64, cap: u64, kept: [bool; 3]) -> Vec<Case> {
    let mut x = base.clone();
    set_field(&mut x, i, v);
    let fits = affordable(&x, cap);
    let mut out = vec![];
    for keep in 0..3 {
        if keep == i || fits && !out.is_empty() { continue }
        let mut y = x.clone();
        let mut pinned = kept;
        if i < 3 { pinned[i] = true }
        if !(0..3).any(|x| x != i && kept[x]) { pinned[keep] = true } else if !out.is_empty() { break }
        tidy(base, &mut y, pinned, true, cap);
        out.push(y);
    }
    out
}

fn affordable(x: &Case, cap: u64) -> bool { x.macs() <= cap && x.m.saturating_mul(x.k).max(x.k.saturating_mul(x.n)).max(x.m.saturating_mul(x.n)) as u64 <= (cap * 3).clamp(8000, 400_000) }

fn tidy(base: &Case, x: &mut Case, pinned: [bool; 3], row: bool, cap: u64) {
    // keep it affordable, at the cost of what was not just chosen
    for _ in 0..200 {
        if affordable(x, cap) { break }
        let mut i = (0..3).filter(|&i| !pinned[i]).max_by_key(|&i| field(x, i)).unwrap_or(0);
        if field(x, i) <= 4 { i = (0..3).max_by_key(|&i| field(x, i)).unwrap() }
        let f = field(x, i);
        set_field(x, i, f * 2 / 3);
    }
    // leading dimensions follow the sizes
    for (s, (r0, c0), (r1, c1)) in [(3usize, (base.m, base.k), (x.m, x.k)), (5, (base.k, base.n), (x.k, x.n)), (7, (base.m, base.n), (x.m, x.n))] {
        let (rs, cs) = (field(x, s), field(x, s + 1));
        if rs == field(base, s) && cs == field(base, s + 1) && (r0, c0) != (r1, c1) {
            if cs.saturating_abs() == 1 && rs.saturating_abs() >= c0 as i64 { set_field(x, s, rs.signum() * (rs.abs() - c0 as i64 + c1 as i64)) }
            else if rs.saturating_abs() == 1 && cs.saturating_abs() >= r0 as i64 { set_field(x, s + 1, cs.signum() * (cs.abs() - r0 as i64 + r1 as i64)) }
        }
    }
    if !injective(x.m, x.n, x.c.rs, x.c.cs) { (x.c.rs, x.c.cs) = if row { (x.n.max(1) as i64, 1) } else { (1, x.m.max(1) as i64) } }
    for (l, rr, cc) in [(&mut x.a, x.m, x.k), (&mut x.b, x.k, x.n)] {
        let e = |n: usize, s: i64| n.saturating_sub(1) as i128 * s.unsigned_abs() as i128;
        if e(rr, l.rs) + e(cc, l.cs) > 1 << 24 && rr.saturating_mul(cc) > 2000 { (l.rs, l.cs) = (cc.max(1) as i64, 1) }
    }
    { let e = |n: usize, s: i64| n.saturating_sub(1) as i128 * s.unsigned_abs() as i128; if e(x.m, x.c.rs) + e(x.n, x.c.cs) > 1 << 24 && x.m.saturating_mul(x.n) > 2000 { (x.c.rs, x.c.cs) = (x.n.max(1) as i64, 1) } }
    fix(x);
}

/// Simpler variants of a case, simplest first.
pub fn simpler(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    let mut push = |f: &dyn Fn(&mut Case)| {
        let mut x = c.clone();
        f(&mut x);
        fix(&mut x);
        if x != *c && injective(x.m, x.n, x.c.rs, x.c.cs) { v.push(x) }
    };
    push(&|x| x.alias = false);
    for s in 0..3 {
        for d in [4usize, 2] { push(&move |x| { let y = [&mut x.m, &mut x.k, &mut x.n]; let y = y.into_iter().nth(s).unwrap(); *y /= d }) }
        push(&move |x| { let y = [&mut x.m, &mut x.k, &mut x.n].into_iter().nth(s).unwrap(); *y = *y * 3 / 4 });
        push(&move |x| { let y = [&mut x.m, &mut x.k, &mut x.n].into_iter().nth(s).unwrap(); *y = *y * 15 / 16 });
        push(&move |x| { let y = [&mut x.m, &mut x.k, &mut x.n].into_iter().nth(s).unwrap(); *y = y.saturating_sub(1) });
    }
    push(&|x| { x.ea = 0; x.eb = 0; x.eal = 0; x.ebe = 0 });
    push(&|x| x.inj.truncate(1));
    push(&|x| { if x.inj.len() > 1 { x.inj.remove(0); } });
    push(&|x| x.alpha = Sc { re: 1, im: 0, nz: 0 });
    push(&|x| x.beta = Sc { re: 0, im: 0, nz: 0 });
    push(&|x| x.beta = Sc { re: 1, im: 0, nz: 0 });
    push(&|x| x.beta.nz = 0);
    push(&|x| x.cinit = 0);
    push(&|x| { x.mode = Mode::Exact });
    push(&|x| x.seed = 0);
    push(&|x| x.seed = 1);
    push(&|x| x.dens = 0);
    push(&|x| x.mag = 1);
    push(&|x| x.gap = 0);
    for s in 0..3 {
        push(&move |x| {
            let (r, cc) = [(x.m, x.k), (x.k, x.n), (x.m, x.n)][s];
            let _ = r;
            let l = [&mut x.a, &mut x.b, &mut x.c].into_iter().nth(s).unwrap();
            l.rs = cc.max(1) as i64; l.cs = 1;
        });
        push(&move |x| {
            let (r, _) = [(x.m, x.k), (x.k, x.n), (x.m, x.n)][s];
            let l = [&mut x.a, &mut x.b, &mut x.c].into_iter().nth(s).unwrap();
            l.cs = r.max(1) as i64; l.rs = 1;
        });
        push(&move |x| { let l = [&mut x.a, &mut x.b, &mut x.c].into_iter().nth(s).unwrap(); l.rs = l.rs.saturating_abs() });
        push(&move |x| { let l = [&mut x.a, &mut x.b, &mut x.c].into_iter().nth(s).unwrap(); l.cs = l.cs.saturating_abs() });
        push(&move |x| { let l = [&mut x.a, &mut x.b, &mut x.c].into_iter().nth(s).unwrap(); l.mis = 0 });
        push(&move |x| { let l = [&mut x.a, &mut x.b, &mut x.c].into_iter().nth(s).unwrap(); l.end = true });
    }
    v
}

/// Short classification of a case for the coverage summary.
pub fn labels(c: &Case) -> Vec<String> {
    let mut v = vec![format!("type {}", c.ty.ch())];
    let l = |x: &Lay, r: usize, cc: usize| -> &'static str {
        if r <= 1 || cc <= 1 { return "vector" }
        if x.rs == 0 || x.cs == 0 { return "zero stride" }
        if x.rs.saturating_abs().max(x.cs.saturating_abs()) > 1 << 30 { return "huge stride" }
        if !injective(r, cc, x.rs, x.cs) { return "overlapping" }
        if x.rs < 0 || x.cs < 0 { return "negative stride" }
        if x.rs == 1 { return "column-major" }
        if x.cs == 1 { return "row-major" }
        "strided"
    };
    v.push(format!("A {}", l(&c.a, c.m, c.k)));
    v.push(format!("B {}", l(&c.b, c.k, c.n)));
    v.push(format!("C {}", l(&c.c, c.m, c.n)));
    if c.alias { v.push("B aliases A".into()) }
    v.push(format!("mode {:?}", c.mode));
    v.push(if c.m == 0 || c.k == 0 || c.n == 0 { "empty".into() }
        else if c.macs() < 10_000 { "macs <1e4".into() } else if c.macs() < 1_000_000 { "macs <1e6".into() } else { "macs >=1e6".into() });
    if c.k > 256 { v.push("k > 256".into()) }
    if c.n > if c.ty.comps() == 2 { 512 } else { 1024 } { v.push("n > NC".into()) }
    if c.m > 64 { v.push("m > 64".into()) }
    v.push(if c.beta_is_zero() { "beta 0".into() } else if c.beta.re == 1 && c.beta.im == 0 { "beta 1".into() } else { "beta other".into() });
    if c.mode == Mode::Float && c.ty.comps() == 2 && c.dens != 0 { v.push("graded parts".into()) }
    if c.ea != 0 || c.eb != 0 || c.eal != 0 || c.ebe != 0 { v.push("scaled".into()) }
    v
}
