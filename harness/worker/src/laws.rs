//! Algebraic relations between independent executions.
use crate::exec::{fail, Fail};
use mmcase::*;

struct L { ty: Ty, seed: u64, ctr: u64 }

type V = Vec<f64>;

impl L {
    fn rnd(&mut self) -> u64 { self.ctr += 1; mix(self.seed ^ mix(self.ctr)) }

    /// A layout for an r x c matrix: (row stride, col stride, base index, buffer length)
    fn lay(&mut self, r: usize, c: usize) -> (isize, isize, usize, usize) {
        let h = self.rnd();
        let (ri, ci) = (r.max(1) as isize, c.max(1) as isize);
        let pad = (h >> 8) as isize % 4;
        let (mut rs, mut cs) = match h % 6 {
            0 => (ci, 1),
            1 => (1, ri),
            2 => (ci + pad, 1),
            3 => (1, ri + pad),
            4 => (ci * 2 + pad, 2),
            _ => (3, ri * 3 + pad),
        };
        if h >> 20 & 7 == 0 { rs = -rs }
        if h >> 24 & 7 == 0 { cs = -cs }
        let lo = (rs * (ri - 1)).min(0) + (cs * (ci - 1)).min(0);
        let hi = (rs * (ri - 1)).max(0) + (cs * (ci - 1)).max(0);
        (rs, cs, (-lo) as usize, (hi - lo + 1) as usize)
    }

    fn gemm(&mut self, m: usize, k: usize, n: usize, al: [f64; 2], a: &V, b: &V, be: [f64; 2], c: &V) -> V {
        let nc = self.ty.comps();
        let (la, lb, lc) = (self.lay(m, k), self.lay(k, n), self.lay(m, n));
        macro_rules! go {
            ($e:ty, $r:ty, $call:expr, $mk:expr, $un:expr) => {{
                let place = |v: &V, r: usize, c: usize, l: (isize, isize, usize, usize)| -> Vec<$e> {
                    let mut buf: Vec<$e> = vec![$mk(&[777.0, -555.0][..]); l.3];
                    for i in 0..r { for j in 0..c {
                        let at = (l.2 as isize + l.0 * i as isize + l.1 * j as isize) as usize;
                        buf[at] = $mk(&v[(i * c + j) * nc..]);
                    } }
                    buf
                };
                let av = place(a, m, k, la);
                let bv = place(b, k, n, lb);
                let mut cv = place(c, m, n, lc);
                unsafe { $call(av.as_ptr().add(la.2), bv.as_ptr().add(lb.2), cv.as_mut_ptr().add(lc.2)) };
                let mut out = Vec::with_capacity(m * n * nc);
                for i in 0..m { for j in 0..n {
                    let at = (lc.2 as isize + lc.0 * i as isize + lc.1 * j as isize) as usize;
                    $un(&mut out, &cv[at]);
                } }
                out
            }};
        }
        #[cfg(feature = "cgemm")]
        use matrixmultiply::CGemmOption::Standard;
        match self.ty {
            Ty::S => go!(f32, f32,
                |pa, pb, pc| matrixmultiply::sgemm(m, k, n, al[0] as f32, pa, la.0, la.1, pb, lb.0, lb.1, be[0] as f32, pc, lc.0, lc.1),
                |v: &[f64]| v[0] as f32, |o: &mut V, x: &f32| o.push(*x as f64)),
            Ty::D => go!(f64, f64,
                |pa, pb, pc| matrixmultiply::dgemm(m, k, n, al[0], pa, la.0, la.1, pb, lb.0, lb.1, be[0], pc, lc.0, lc.1),
                |v: &[f64]| v[0], |o: &mut V, x: &f64| o.push(*x)),
            #[cfg(feature = "cgemm")]
            Ty::C => go!([f32; 2], f32,
                |pa, pb, pc| matrixmultiply::cgemm(Standard, Standard, m, k, n, [al[0] as f32, al[1] as f32], pa, la.0, la.1, pb, lb.0, lb.1, [be[0] as f32, be[1] as f32], pc, lc.0, lc.1),
                |v: &[f64]| [v[0] as f32, v[1] as f32], |o: &mut V, x: &[f32; 2]| { o.push(x[0] as f64); o.push(x[1] as f64) }),
            #[cfg(feature = "cgemm")]
            Ty::Z => go!([f64; 2], f64,
                |pa, pb, pc| matrixmultiply::zgemm(Standard, Standard, m, k, n, al, pa, la.0, la.1, pb, lb.0, lb.1, be, pc, lc.0, lc.1),
                |v: &[f64]| [v[0], v[1]], |o: &mut V, x: &[f64; 2]| { o.push(x[0]); o.push(x[1]) }),
            #[cfg(not(feature = "cgemm"))]
            _ => unreachable!(),
        }
    }

    fn ints(&mut self, len: usize, r: i64) -> V { (0..len * self.ty.comps()).map(|_| (self.rnd() % (2 * r as u64 + 1)) as f64 - r as f64).collect() }
    fn floats(&mut self, len: usize) -> V { self.wide(len, 5, false) }
    /// finite floats with exponents in +-spread; full: any finite bit pattern
    fn wide(&mut self, len: usize, spread: i32, full: bool) -> V {
        let is32 = self.ty.is32();
        (0..len * self.ty.comps()).map(|_| {
            let h = self.rnd();
            if full {
                if is32 { let x = f32::from_bits(h as u32); return if x.is_finite() { x as f64 } else { 1.5 } }
                let x = f64::from_bits(h); return if x.is_finite() { x } else { 1.5 };
            }
            let e = (h >> 52) as i32 % (2 * spread + 1) - spread;
            let f = scale2(1.0 + (h & 0xf_ffff_ffff) as f64 / (1u64 << 36) as f64, e);
            let f = if is32 { f as f32 as f64 } else { f };
            if h >> 40 & 1 == 1 { -f } else { f }
        }).collect()
    }
    fn data(&mut self, mode: Mode, len: usize, r: i64) -> V { if mode == Mode::Exact { self.ints(len, r) } else { self.floats(len) } }

    /// componentwise |a||b| sums (an upper bound for the real and imaginary parts)
    fn absprod(&self, m: usize, k: usize, n: usize, a: &V, b: &V) -> V {
        let nc = self.ty.comps();
        let ab = |v: &V, i: usize| if nc == 1 { v[i].abs() } else { v[2 * i].abs() + v[2 * i + 1].abs() };
        let mut out = vec![0.0; m * n];
        for i in 0..m { for l in 0..k { let x = ab(a, i * k + l); for j in 0..n { out[i * n + j] += x * ab(b, l * n + j) } } }
        out
    }
    fn abs(&self, v: &V) -> V { let nc = self.ty.comps(); v.chunks(nc).map(|x| x.iter().map(|y| y.abs()).sum()).collect() }
}

fn compare(law: &str, l: &L, x: &V, y: &V, tol: Option<&V>) -> Result<(), Fail> {
    let nc = l.ty.comps();
    if x.len() != y.len() { return fail("law", format!("{law}: lengths")) }
    for i in 0..x.len() {
        let ok = match tol { None => x[i] == y[i], Some(t) => (x[i] - y[i]).abs() <= t[i / nc] };
        if !ok { return fail("law", format!("{law}: element {} component {}: {} against {} (tolerance {})", i / nc, i % nc, x[i], y[i], tol.map_or(0.0, |t| t[i / nc]))) }
    }
    Ok(())
}

fn transpose(v: &V, r: usize, c: usize, nc: usize) -> V {
    let mut o = Vec::with_capacity(v.len());
    for j in 0..c { for i in 0..r { o.extend_from_slice(&v[(i * c + j) * nc..(i * c + j) * nc + nc]) } }
    o
}
/// rows r0..r1, cols c0..c1 of an r x c matrix
fn sub(v: &V, c: usize, nc: usize, r0: usize, r1: usize, c0: usize, c1: usize) -> V {
    let mut o = vec![];
    for i in r0..r1 { o.extend_from_slice(&v[(i * c + c0) * nc..(i * c + c1) * nc]) }
    o
}
fn add(x: &V, y: &V) -> V { x.iter().zip(y).map(|(a, b)| a + b).collect() }
fn cscale(v: &V, s: [f64; 2], nc: usize) -> V {
    if nc == 1 { v.iter().map(|x| x * s[0]).collect() }
    else { v.chunks(2).flat_map(|x| [x[0] * s[0] - x[1] * s[1], x[0] * s[1] + x[1] * s[0]]).collect() }
}

pub fn law(name: &str, c: &Case) -> Result<(), Fail> {
    let (m, k, n) = (c.m, c.k, c.n);
    let nc = c.ty.comps();
    let mut l = L { ty: c.ty, seed: mix(c.seed), ctr: 0 };
    let r: i64 = 7;
    let mode = if c.mode == Mode::Exact { Mode::Exact } else { Mode::Float };
    let exact = mode == Mode::Exact;
    let al = { let a = scalar_values(c.alpha, c.ty, Mode::Exact, 0); [a[0], a[1]] };
    let be = { let b = scalar_values(c.beta, c.ty, Mode::Exact, 0); [b[0], b[1]] };
    let na = al[0].abs() + al[1].abs();
    let nb = be[0].abs() + be[1].abs();
    let u = pow2(-(c.ty.prec() as i32));
    let gam = ((k * nc) as f64 + 2.0 * (k / 8 + 1) as f64 + 48.0) * u * 2.5;
    let zero = [0.0, 0.0];
    let one = [1.0, 0.0];
    let zeros = |len: usize| vec![0.0; len * nc];
    // tolerance for alpha*A*B + beta*C, computed twice
    let tol = |l: &L, a: &V, b: &V, cc: &V| -> V {
        let p = l.absprod(m, k, n, a, b);
        let q = l.abs(cc);
        p.iter().zip(&q).map(|(p, q)| gam * (p * na + q * nb) + pow2(-1060).max(pow2(c.ty.emin() + 4))).collect()
    };
    match name {
        "select-right" | "select-left" => {
            let left = name == "select-left";
            let full = c.seed % 3 == 0;
            // the dense operand and the selector
            let (dr, dc) = if left { (k, n) } else { (m, k) };
            let spread = if c.ty.is32() { 90 } else { 900 };
            let dense = l.wide(dr * dc, spread, full);
            let (sr, sc) = if left { (m, k) } else { (k, n) };
            let mut sel = zeros(sr * sc);
            let lines = if left { m } else { n };
            let mut picks = vec![];
            for t in 0..lines {
                let p = if k == 0 { 0 } else { (l.rnd() % k as u64) as usize };
                let h = l.rnd();
                let v = if full { 1.0 } else { pow2((h >> 8) as i32 % 21 - 10) } * if h & 1 == 1 { -1.0 } else { 1.0 };
                let z = if nc == 2 && h & 2 != 0 { [0.0, v] } else { [v, 0.0] };
                if k > 0 {
                    let at = if left { t * sc + p } else { p * sc + t };
                    for q in 0..nc { sel[at * nc + q] = z[q] }
                }
                picks.push((p, z));
            }
            let (a, b) = if left { (&sel, &dense) } else { (&dense, &sel) };
            let (bb, c0) = if c.seed & 8 != 0 { (one, zeros(m * n)) } else { (zero, l.ints(m * n, 5)) };
            let got = l.gemm(m, k, n, one, a, b, bb, &c0);
            let mut want = zeros(m * n);
            if k > 0 {
                for i in 0..m { for j in 0..n {
                    let (p, z) = picks[if left { i } else { j }];
                    let at = if left { p * n + j } else { i * k + p };
                    let w = cscale(&dense[at * nc..at * nc + nc].to_vec(), z, nc);
                    want[(i * n + j) * nc..(i * n + j) * nc + nc].copy_from_slice(&w);
                } }
            }
            compare(name, &l, &got, &want, None)
        }
        "transpose" => {
            let (a, b, cc) = (l.data(mode, m * k, r), l.data(mode, k * n, r), l.data(mode, m * n, r));
            let x = l.gemm(m, k, n, al, &a, &b, be, &cc);
            let y = l.gemm(n, k, m, al, &transpose(&b, k, n, nc), &transpose(&a, m, k, nc), be, &transpose(&cc, m, n, nc));
            let t = tol(&l, &a, &b, &cc);
            compare(name, &l, &x, &transpose(&y, n, m, nc), if exact { None } else { Some(&t) })
        }
        "ksplit" => {
            let (a, b, cc) = (l.data(mode, m * k, r), l.data(mode, k * n, r), l.data(mode, m * n, r));
            let x = l.gemm(m, k, n, al, &a, &b, be, &cc);
            let s = if k == 0 { 0 } else { (l.rnd() % (k as u64 + 1)) as usize };
            let y = l.gemm(m, s, n, al, &sub(&a, k, nc, 0, m, 0, s), &sub(&b, n, nc, 0, s, 0, n), be, &cc);
            let y = l.gemm(m, k - s, n, al, &sub(&a, k, nc, 0, m, s, k), &sub(&b, n, nc, s, k, 0, n), one, &y);
            let t = tol(&l, &a, &b, &cc);
            compare(name, &l, &x, &y, if exact { None } else { Some(&t) })
        }
        "mnblock" => {
            let (a, b, cc) = (l.data(mode, m * k, r), l.data(mode, k * n, r), l.data(mode, m * n, r));
            let x = l.gemm(m, k, n, al, &a, &b, be, &cc);
            let (s, t) = ((l.rnd() % (m as u64 + 1)) as usize, (l.rnd() % (n as u64 + 1)) as usize);
            let mut y = zeros(m * n);
            for (r0, r1) in [(0, s), (s, m)] { for (c0, c1) in [(0, t), (t, n)] {
                let p = l.gemm(r1 - r0, k, c1 - c0, al, &sub(&a, k, nc, r0, r1, 0, k), &sub(&b, n, nc, 0, k, c0, c1), be, &sub(&cc, n, nc, r0, r1, c0, c1));
                for i in r0..r1 { for j in c0..c1 { for q in 0..nc { y[(i * n + j) * nc + q] = p[((i - r0) * (c1 - c0) + j - c0) * nc + q] } } }
            } }
            let t = tol(&l, &a, &b, &cc);
            compare(name, &l, &x, &y, if exact { None } else { Some(&t) })
        }
        "alpha-pow2" => {
            // scaling alpha by a power of two scales every bit of the result (beta = 0)
            let (a, b) = (l.floats(m * k), l.floats(k * n));
            let junk = l.ints(m * n, 9);
            let base = { let f = l.wide(1, 1, false); [f[0], if nc == 2 { f[1] } else { 0.0 }] };
            let e = (l.rnd() % 9) as i32 - 4;
            let s = if l.rnd() & 1 == 1 { -pow2(e) } else { pow2(e) };
            let seed = l.ctr;
            let x = l.gemm(m, k, n, base, &a, &b, zero, &junk);
            l.ctr = seed; // same layouts: the very same arithmetic
            let y = l.gemm(m, k, n, [base[0] * s, base[1] * s], &a, &b, zero, &junk);
            compare(name, &l, &cscale(&x, [s, 0.0], nc), &y, None)
        }
        "additive" => {
            let (a1, a2, b, c1, c2) = (l.ints(m * k, r), l.ints(m * k, r), l.ints(k * n, r), l.ints(m * n, r), l.ints(m * n, r));
            let x = l.gemm(m, k, n, al, &a1, &b, be, &c1);
            let y = l.gemm(m, k, n, al, &a2, &b, be, &c2);
            let z = l.gemm(m, k, n, al, &add(&a1, &a2), &b, be, &add(&c1, &c2));
            compare("additive-A", &l, &add(&x, &y), &z, None)?;
            let b2 = l.ints(k * n, r);
            let x = l.gemm(m, k, n, al, &a1, &b, zero, &c1);
            let y = l.gemm(m, k, n, al, &a1, &b2, be, &c2);
            let z = l.gemm(m, k, n, al, &a1, &add(&b, &b2), be, &c2);
            compare("additive-B", &l, &add(&x, &y), &z, None)
        }
        "scalar" => {
            let (a, b, cc) = (l.ints(m * k, r), l.ints(k * n, r), l.ints(m * n, r));
            let x = l.gemm(m, k, n, al, &a, &b, be, &cc);
            let y = l.gemm(m, k, n, one, &cscale(&a, al, nc), &b, one, &cscale(&cc, be, nc));
            compare("scalar-A", &l, &x, &y, None)?;
            let y = l.gemm(m, k, n, one, &a, &cscale(&b, al, nc), be, &cc);
            compare("scalar-B", &l, &x, &y, None)?;
            let y = add(&cscale(&l.gemm(m, k, n, one, &a, &b, zero, &cc), al, nc), &cscale(&cc, be, nc));
            compare("scalar-out", &l, &x, &y, None)
        }
        "assoc" => {
            let (m, k, n) = (m.min(64), k.min(64), n.min(64));
            let p = 1 + (l.rnd() % 40) as usize;
            let (a, b, d) = (l.ints(m * k, 2), l.ints(k * n, 2), l.ints(n * p, 2));
            let ab = l.gemm(m, k, n, one, &a, &b, zero, &zeros(m * n));
            let x = l.gemm(m, n, p, one, &ab, &d, zero, &zeros(m * p));
            let bd = l.gemm(k, n, p, one, &b, &d, zero, &zeros(k * p));
            let y = l.gemm(m, k, p, one, &a, &bd, zero, &zeros(m * p));
            compare(name, &l, &x, &y, None)
        }
        "complex-parts" => {
            if nc == 1 { return law("transpose", c) }
            // parts of very different size: each part of the result has its own error bound
            let t = grade(c.ty);
            let h = l.rnd();
            let pair = |x: u64| if exact { [1.0, 1.0] } else { match x & 3 { 0 => [1.0, 1.0], 1 => [1.0, t], 2 => [t, 1.0], _ => [1.0, 1.0] } };
            let graded = |v: V, x: u64| -> V { let g = pair(x); v.chunks(2).flat_map(|y| [y[0] * g[0], y[1] * g[1]]).collect() };
            let a = graded(l.data(mode, m * k, r), h);
            let b = graded(l.data(mode, k * n, r), h >> 2);
            let cc = graded(l.data(mode, m * n, r), h >> 4);
            let (ga, gb) = (pair(h >> 6), pair(h >> 8));
            let (al, be) = if h >> 12 & 3 == 0 { (one, zero) } else { ([al[0] * ga[0], al[1] * ga[1]], [be[0] * gb[0], be[1] * gb[1]]) };
            let x = l.gemm(m, k, n, al, &a, &b, be, &cc);
            let part = |v: &V, q: usize| -> V { v.iter().skip(q).step_by(2).copied().collect() };
            let mut rl = L { ty: if c.ty == Ty::C { Ty::S } else { Ty::D }, seed: l.seed ^ 99, ctr: 0 };
            let (ar, ai, br, bi, cr, ci) = (part(&a, 0), part(&a, 1), part(&b, 0), part(&b, 1), part(&cc, 0), part(&cc, 1));
            let is32 = c.ty.is32();
            let comb = |p: f64, u: &V, q: f64, v: &V| -> V { u.iter().zip(v).map(|(x, y)| { let s = p * x + q * y; if is32 { s as f32 as f64 } else { s } }).collect() };
            let mut four = |s: V, w: [f64; 4]| -> V {
                // w: factors of ar*br, ai*bi, ar*bi, ai*br
                let mut s = s;
                for (f, (p, q)) in w.into_iter().zip([(&ar, &br), (&ai, &bi), (&ar, &bi), (&ai, &br)]) { if f != 0.0 { s = rl.gemm(m, k, n, [f, 0.0], p, q, one, &s) } }
                s
            };
            let re = four(comb(be[0], &cr, -be[1], &ci), [al[0], -al[0], -al[1], -al[1]]);
            let im = four(comb(be[0], &ci, be[1], &cr), [al[1], -al[1], al[0], al[0]]);
            let tiny = pow2(-1060).max(pow2(c.ty.emin() + 4)) * (k as f64 + 4.0);
            for i in 0..m { for j in 0..n {
                let at = i * n + j;
                let (mut pr, mut pi) = (0.0, 0.0);
                for q in 0..k {
                    let (u, v, p, w) = (ar[i * k + q].abs(), ai[i * k + q].abs(), br[q * n + j].abs(), bi[q * n + j].abs());
                    pr += u * p + v * w;
                    pi += u * w + v * p;
                }
                let (er, ei) = (al[0].abs() * pr + al[1].abs() * pi, al[0].abs() * pi + al[1].abs() * pr);
                let (er, ei) = (er + (be[0] * cr[at]).abs() + (be[1] * ci[at]).abs(), ei + (be[0] * ci[at]).abs() + (be[1] * cr[at]).abs());
                for (q, (w, e)) in [(re[at], er), (im[at], ei)].into_iter().enumerate() {
                    let tol = if exact { 0.0 } else { gam * e + tiny };
                    if !((x[2 * at + q] - w).abs() <= tol) { return fail("law", format!("{name}: element {at} component {q}: {} against {w} (tolerance {tol})", x[2 * at + q])) }
                }
            } }
            Ok(())
        }
        "conj" => {
            let conj = |v: &V| -> V { if nc == 1 { v.iter().map(|x| -x).collect() } else { v.chunks(2).flat_map(|x| [x[0], -x[1]]).collect() } };
            let (a, b, cc) = (l.data(mode, m * k, r), l.data(mode, k * n, r), l.data(mode, m * n, r));
            let x = l.gemm(m, k, n, al, &a, &b, be, &cc);
            let t = tol(&l, &a, &b, &cc);
            let y = if nc == 2 {
                conj(&l.gemm(m, k, n, [al[0], -al[1]], &conj(&a), &conj(&b), [be[0], -be[1]], &conj(&cc)))
            } else {
                // real: (-A)(-B)
                l.gemm(m, k, n, al, &conj(&a), &conj(&b), be, &cc)
            };
            compare(name, &l, &x, &y, if exact { None } else { Some(&t) })
        }
        "kpad" => {
            // extra zero columns of A (with anything finite in B) change nothing
            let (a, b, cc) = (l.ints(m * k, r), l.ints(k * n, r), l.ints(m * n, r));
            let x = l.gemm(m, k, n, al, &a, &b, be, &cc);
            let extra = 1 + (l.rnd() % 20) as usize;
            let k2 = k + extra;
            let mut a2 = vec![];
            for i in 0..m { a2.extend_from_slice(&a[i * k * nc..(i + 1) * k * nc]); a2.extend(vec![0.0; extra * nc]) }
            let mut b2 = b.clone();
            b2.extend(l.ints(extra * n, 100));
            let y = l.gemm(m, k2, n, al, &a2, &b2, be, &cc);
            compare(name, &l, &x, &y, None)
        }
        _ => fail("env", format!("unknown law {name}")),
    }
}
