//! Concurrent calls.
use crate::exec::*;
use mmcase::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

struct P(*const u8, *const u8, *mut u8);
unsafe impl Send for P {}
unsafe impl Sync for P {}

/// Start all calls at once, each thread repeating its own `reps` times where repeating is
/// harmless (beta = 0).
fn together(calls: &[(&Case, P)], reps: usize) -> Result<(), Fail> {
    let gate = AtomicUsize::new(0);
    let n = calls.len();
    let rs: Vec<Result<(), Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = calls.iter().map(|(c, p)| {
            let gate = &gate;
            s.spawn(move || {
                gate.fetch_add(1, SeqCst);
                while gate.load(SeqCst) < n { std::hint::spin_loop() }
                let reps = if c.beta_is_zero() { reps } else { 1 };
                for _ in 0..reps { catching(|| unsafe { raw_call(c, p.0, p.1, p.2) })? }
                Ok(())
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("panic", "thread died"))).collect()
    });
    rs.into_iter().collect()
}

/// Independent cases in parallel, each thread making its own call `reps` times: every third round
/// all start at the same moment, between those they run free. Every round must give the same bits,
/// and those must be right.
pub fn separate(cases: &[Case], reps: usize) -> Result<u64, Fail> {
    let preps: Vec<Prep> = cases.iter().map(Prep::new).collect::<Result<_, _>>()?;
    let n = cases.len();
    let (gate, stop) = (AtomicUsize::new(0), AtomicUsize::new(0));
    armed(|| {
        let rs: Vec<Result<(), Fail>> = std::thread::scope(|s| {
            let hs: Vec<_> = preps.iter().map(|p| {
                let (gate, stop, p) = (&gate, &stop, Shared(p));
                s.spawn(move || {
                    let p = { let q = p; q.0 };
                    let mut first = vec![];
                    let mut meetings = 0;
                    for r in 0..reps {
                        if r > 0 { p.rewind() }
                        if r % 3 == 0 {
                            meetings += 1;
                            gate.fetch_add(1, SeqCst);
                            while gate.load(SeqCst) < n * meetings && stop.load(SeqCst) == 0 { std::hint::spin_loop() }
                        }
                        let q = p.pointers();
                        let done = catching(|| unsafe { raw_call(&p.c, q.0, q.1, q.2) });
                        if done.is_err() { stop.store(1, SeqCst); return done }
                        if reps == 1 { break }
                        if r == 0 { first = p.result() }
                        else if let Some(m) = p.drift(&first) {
                            stop.store(1, SeqCst);
                            return fail("drift", format!("round {} of a call made by {n} threads at once: {m}", r + 1))
                        }
                    }
                    Ok(())
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("panic", "thread died"))).collect()
        });
        rs.into_iter().collect()
    })?;
    let mut h = 0u64;
    for (i, p) in preps.iter().enumerate() {
        let x = p.judge().map_err(|f| Fail { cat: f.cat, msg: format!("call {i} of {}: {}", cases.len(), f.msg) })?;
        h = mix(h ^ x);
    }
    Ok(h)
}

struct Shared<'a>(&'a Prep);
unsafe impl Send for Shared<'_> {}

/// One A and B shared by all; `t` threads write interleaved elements of one buffer: thread x owns
/// the C whose origin is shifted by x elements and whose strides are multiplied by t.
pub fn interleaved(c: &Case, t: usize, reps: usize) -> Result<u64, Fail> {
    let ab = Prep::new(c)?;
    let (pa, pb, _) = ab.pointers();
    // the shared buffer holds t matrices: a (t*m) x n view with the same geometry
    let (esz, rsz, is32) = (c.ty.esz(), c.ty.rsz(), c.ty.is32());
    let nc = c.ty.comps();
    if c.m == 0 || c.n == 0 { return Ok(0) }
    let (rs, cs) = (c.c.rs.wrapping_mul(t as i64), c.c.cs.wrapping_mul(t as i64));
    let views: Vec<_> = (0..t).map(|_| (c.m, c.n, rs, cs)).collect();
    let (lo, hi) = offset_range(c.m, c.n, rs, cs).unwrap();
    let len = (hi - lo + t as i64) as usize;
    let mut buf: Vec<u64> = vec![0; (len * esz + 7) / 8 + 1];
    let base = buf.as_mut_ptr() as *mut u8;
    let fillv = 0x7ffa_1234_7ffa_1234u64;
    for x in buf.iter_mut() { *x = fillv }
    let vals = Values::new(c);
    let lc = vals.logical(2);
    let e = exps(c)[2];
    let at = |x: usize, i: usize, j: usize| unsafe { base.offset(((rs * i as i64 + cs * j as i64 - lo) as isize + x as isize) * esz as isize) };
    for x in 0..views.len() { for i in 0..c.m { for j in 0..c.n { for q in 0..nc {
        let v = scale2(lc[(i * c.n + j) * nc + q], e);
        unsafe { let p = at(x, i, j).add(q * rsz); if is32 { *(p as *mut f32) = v as f32 } else { *(p as *mut f64) = v } }
    } } } }
    let mut cs2 = c.clone();
    cs2.c.rs = rs;
    cs2.c.cs = cs;
    let calls: Vec<(&Case, P)> = (0..t).map(|x| (&cs2, P(pa, pb, at(x, 0, 0)))).collect();
    armed(|| together(&calls, reps))?;
    let (la, lb) = (vals.logical(0), vals.logical(1));
    let mut err = None;
    let mut owned = vec![false; len];
    let mut h = 0u64;
    model_rows(c, &la, &lb, &lc, |i, want| {
        for j in 0..c.n { for x in 0..t {
            let p = at(x, i, j);
            owned[((rs * i as i64 + cs * j as i64 - lo) as usize) + x] = true;
            let g: Vec<f64> = (0..nc).map(|q| get(unsafe { p.add(q * rsz) }, is32)).collect();
            h = mix(h ^ g[0].to_bits());
            if let Some(m) = check_elem(&want[j * nc..(j + 1) * nc], &g) {
                err = Some(Fail { cat: "value", msg: format!("thread {x} of {t}: C[{i},{j}] {m}") });
                return false;
            }
        } }
        true
    });
    if let Some(f) = err { return Err(f) }
    let fb = fillv.to_ne_bytes();
    for (o, &own) in owned.iter().enumerate() {
        if own { continue }
        for b in o * esz..(o + 1) * esz {
            if unsafe { *base.add(b) } != fb[b % 8] { return fail("outside", format!("byte {b} between the threads' elements changed")) }
        }
    }
    Ok(h)
}
