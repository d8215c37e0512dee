//! One plan per property.
use crate::builds::{Built, Variant};
use crate::engine::*;
use crate::gen::{self, Prof};
use crate::pool::{Reply, Spawn};
use mmcase::*;
use proptest::prelude::*;
use proptest::sample::select;
use std::sync::Arc;

pub struct Plan {
    pub variants: Vec<Variant>,
    pub groups: Box<dyn Fn(&[Built]) -> Vec<Group>>,
    pub rule: String,
    pub level: &'static str,
    pub assumptions: Vec<&'static str>,
    /// runs besides the groups (Miri, builds that must fail)
    pub extra: Option<Box<dyn Fn(&Search, &Tier) + Sync>>,
    /// a variant that does not build is a violation
    pub must_build: bool,
    pub threads: usize,
}

#[derive(Clone, Debug)]
pub struct Tier { pub thorough: bool, pub seed: u64 }
impl Tier {
    /// case counts: quick, and how much more in the thorough tier
    pub fn n(&self, quick: usize) -> usize { if self.thorough { quick * 12 } else { quick } }
}

// ---- building blocks -------------------------------------------------------------------------

const CG: &[&str] = &["std", "cgemm"];
const CGT: &[&str] = &["std", "cgemm", "threading"];

pub fn v_release() -> Variant { Variant::new("r-auto", "release", CG) }
pub fn v_dev() -> Variant { Variant::new("d-auto", "dev", CG) }
pub fn v_checked(k: &str) -> Variant { Variant::new(&format!("k-{}", if k.is_empty() { "auto" } else { k }), "checked", CG).kernel(k) }
pub fn v_kernel(k: &str) -> Variant { Variant::new(&format!("r-{k}"), "release", CG).kernel(k) }
pub fn v_thr() -> Variant { Variant::new("r-thr", "release", CGT) }
pub fn v_nostd() -> Variant { Variant::new("r-nostd", "release", &["cgemm"]) }
pub fn v_nostd_fma() -> Variant { Variant::new("r-nostd-fma", "release", &["cgemm"]).flags("-Ctarget-feature=+avx,+avx2,+fma") }
pub fn v_small() -> Variant {
    let mut v = Variant::new("k-small", "checked", &["std", "cgemm", "threading", "constconf"]);
    for t in ["S", "D", "C", "Z"] { v = v.var(&format!("MATMUL_{t}GEMM_MC"), "16").var(&format!("MATMUL_{t}GEMM_KC"), "24").var(&format!("MATMUL_{t}GEMM_NC"), "40") }
    v
}

pub fn spawn(b: &Built) -> Spawn { Spawn { bin: b.bin.clone(), env: vec![], name: b.v.name.clone() } }
pub fn spawn_env(b: &Built, k: &str, v: &str) -> Spawn { Spawn { bin: b.bin.clone(), env: vec![(k.into(), v.as_bytes().to_vec())], name: format!("{} {k}={v}", b.v.name) } }

pub fn all_types(b: &Built) -> Vec<Ty> { if b.v.has_cgemm() { vec![Ty::S, Ty::D, Ty::C, Ty::Z] } else { vec![Ty::S, Ty::D] } }

fn make_case(p: Prof, op: &'static str) -> Make { Arc::new(move || gen::case(&p).prop_map(move |c| Input::one(op, c)).boxed()) }

pub fn valid_c(i: &Input) -> bool { i.cases.iter().all(|c| gen::injective(c.m, c.n, c.c.rs, c.c.cs)) }

fn generic_valid() -> Valid { Arc::new(valid_c) }

/// Neither empty nor alpha = 0 nor all ones.
pub fn busy(c: &Case) -> bool { c.m > 0 && c.n > 0 && c.k > 0 && !c.alpha_is_zero() && c.seed != 0 && c.macs() >= 8 }

/// Simply run it; the worker's own judgement decides.
fn check_run(filter: fn(&str) -> bool, nontrivial: fn(&Case) -> bool) -> Check {
    Arc::new(move |x, i| {
        let c = &i.cases[0];
        match x.run(0, c) {
            Reply::Ok(_) => Verdict::Pass { nontrivial: nontrivial(c) },
            r => match not_ok(r, &x.spawns[0].name) {
                Verdict::Fail { cat, .. } if !filter(&cat) => Verdict::Pass { nontrivial: false },
                v => v,
            },
        }
    })
}

fn anycat(_: &str) -> bool { true }

fn group(name: &str, spawns: Vec<Spawn>, make: Make, n: usize, shards: usize, check: Check) -> Group {
    Group { name: name.into(), spawns, make, n, shards, check, valid: generic_valid(), guide: None }
}

/// In builds that report coverage the search follows it.
fn guided(b: &Built, cap: u64, mut g: Group) -> Group {
    if b.v.cov { g.guide = Some(cap); g.shards = 6 }
    g
}

/// Debug builds are slow: smaller cases.
fn cap_for(b: &Built, cap: u64) -> u64 { match b.v.profile { "dev" => cap / 15, _ if b.v.name.starts_with("cov-o0") => cap.min(20_000), _ => cap } }

/// The case counts of the variants of a kernel-sensitive property. The first number is for the
/// default release build.
fn spread(b: &Built) -> f64 {
    match b.v.name.as_str() { "r-auto" => 1.0, "d-auto" => 0.3, n if n.starts_with("k-") => 0.5, n if n.starts_with("r-nostd") => 0.35, "r-thr" => 0.4, n if n.starts_with("asan") => 0.3, n if n.starts_with("cov-o0") => 2.0, n if n.starts_with("cov") => 0.4, _ => 0.6 }
}

fn run_groups(bs: &[Built], t: &Tier, prof: &Prof, n: usize, filter: fn(&str) -> bool, nontrivial: fn(&Case) -> bool) -> Vec<Group> {
    let mut v = vec![];
    for b in bs {
        let mut p = prof.clone();
        p.types.retain(|x| all_types(b).contains(x));
        p.cap = cap_for(b, p.cap);
        let sp = if b.v.has_threading() {
            let th = ["1", "2", "3", "4"][(t.seed as usize + v.len()) % 4];
            spawn_env(b, "MATMUL_NUM_THREADS", if b.v.name == "r-thr" || b.v.cov { "4" } else { th })
        } else if b.v.sanitizer == Some("address") { spawn_env(b, "ASAN_OPTIONS", ASAN) } else { spawn(b) };
        let n = (t.n(n) as f64 * spread(b)) as usize;
        let cap = p.cap;
        v.push(guided(b, cap, group(&b.v.name, vec![sp], make_case(p, "run"), n, 8, check_run(filter, nontrivial))));
    }
    v
}

/// Variants this machine can execute.
fn runnable(vs: Vec<Variant>) -> Vec<Variant> {
    let avx = std::is_x86_feature_detected!("avx");
    let fma = std::is_x86_feature_detected!("fma") && std::is_x86_feature_detected!("avx2");
    vs.into_iter().filter(|v| {
        let wants = |s: &str| v.rustflags.contains(s) || v.env.iter().any(|(k, x)| k == "MMTEST_FEATURE" && s.ends_with(x.as_str()));
        (fma || !wants("+fma") && !wants("+avx2")) && (avx || !wants("+avx"))
    }).collect()
}

/// `only`: leave the stores or the loads alone (two accesses to one place are reported once).
fn with_asan(mut vs: Vec<Variant>, only: &str) -> Vec<Variant> {
    for k in ["", "sse2"] {
        let mut v = Variant::new(&format!("asan-{only}{}{k}", if k.is_empty() { "" } else { "-" }), "release", CG).kernel(k).asan();
        v.rustflags = format!("-Cllvm-args=-asan-instrument-{}=0", if only == "writes" { "reads" } else { "writes" });
        vs.push(v);
    }
    vs
}

fn kernels() -> Vec<Variant> { runnable(vec![v_release(), v_kernel("fma"), v_kernel("avx"), v_kernel("sse2"), v_kernel("none"), v_thr(), v_checked(""), v_dev(), v_nostd(), v_nostd_fma(), v_small()]) }

/// Builds that report their edges and comparisons.
fn covs() -> Vec<Variant> { runnable(vec![Variant::new("cov-auto", "release", CGT).cov(), Variant::new("cov-o0-auto", "release", CGT).cov(), Variant::new("cov-sse2", "release", CG).kernel("sse2").cov(), Variant::new("cov-none", "release", CG).kernel("none").cov()]) }
fn with_cov(mut vs: Vec<Variant>) -> Vec<Variant> { vs.extend(covs()); vs }

const ASAN: &str = "handle_segv=1:detect_leaks=0:allow_user_segv_handler=0:halt_on_error=0:suppress_equal_pcs=0:allocator_may_return_null=1";

// ---- C01 .. C07, C17 -------------------------------------------------------------------------

fn c01(t: &Tier) -> Plan {
    let t = t.clone();
    let mut vs = kernels();
    vs.push(v_checked("none"));
    vs.extend(covs());
    vs.extend(runnable(vec![Variant::new("cov-avx", "release", CG).kernel("avx").cov()]));
    Plan {
        variants: vs,
        groups: Box::new(move |bs| {
            let mut p = Prof::base(true);
            p.shapes = [5, 6, 5, 2, 4, 1, 0, 0];
            p.ab = [6, 3, 0, 0];
            p.c = [6, 3, 0];
            let mut g = run_groups(bs, &t, &p, 9000, anycat, busy);
            // few, but large: all blocking loops at once
            let mut p = Prof::base(true);
            p.shapes = [0, 0, 4, 4, 0, 2, 0, 6];
            p.modes = [2, 1, 0];
            p.cap = 520_000_000;
            p.ab = [5, 2, 0, 0];
            p.c = [5, 2, 0];
            for b in bs.iter().filter(|b| b.v.profile == "release" && !b.v.name.contains("nostd") && !b.v.cov) {
                let sp = if b.v.has_threading() { spawn_env(b, "MATMUL_NUM_THREADS", "3") } else { spawn(b) };
                g.push(group(&format!("{} large", b.v.name), vec![sp], make_case(p.clone(), "run"), t.n(60), 4, check_run(anycat, busy)));
            }
            // sizes nobody can wait for, up to the first access
            for b in bs.iter().filter(|b| !b.v.cov) { g.push(reach_group(b, threaded(b), (t.n(500) as f64 * spread(b)) as usize, None)) }
            g
        }),
        rule: "proptest-generated calls over seventeen builds (kernel families, release/debug/checked, threads, no_std, small blocks, coverage-instrumented for the guided search); exact-integer data compared exactly with an independent model (Freivalds in integers mod 2^64 above 3e8 multiply-adds), float data against a double-double model with a componentwise bound; and calls of any size up to 2^64 run to their first access of an operand; non-trivial: no empty dimension, alpha nonzero, at least 8 multiply-adds, data not all ones".into(),
        level: "exploration",
        assumptions: vec!["the reference model in harness/mmcase is right", "bound: (terms + 2*(k/8+1) + 24) * unit roundoff * 1.05"],
        extra: None, must_build: false, threads: 8,
    }
}

fn c02(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: with_cov(kernels()),
        groups: Box::new(move |bs| {
            let mut p = Prof::base(true);
            p.shapes = [5, 6, 3, 1, 2, 0, 0, 0];
            p.cap = 1_000_000;
            p.ab = [2, 5, 3, 4];
            p.c = [3, 6, 3];
            p.alias = 12;
            run_groups(bs, &t, &p, 18000, anycat, |c| busy(c) && gen::labels(c).iter().any(|l| l.contains("stride") || l.contains("overlap") || l.contains("alias") || l.contains("vector")))
        }),
        rule: "proptest-generated calls with stride classes drawn per operand (negative, zero, overlapping, interleaved, page-gapped, beyond 2^31, arbitrary strides of unit dimensions, B a view of A); the logical matrices are derived from the same slots, so the oracle is the layout-independent model; non-trivial: not empty, and at least one operand neither plain row- nor column-major".into(),
        level: "exploration",
        assumptions: vec!["the address space of a process bounds the strides of longer dimensions (2^43 bytes)"],
        extra: None, must_build: false, threads: 8,
    }
}

fn c03(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: with_cov(with_asan(kernels(), "writes")),
        groups: Box::new(move |bs| {
            let mut p = Prof::base(true);
            p.shapes = [6, 7, 2, 1, 2, 1, 1, 0];
            p.cap = 800_000;
            p.c = [3, 6, 3];
            p.ab = [5, 3, 1, 1];
            run_groups(bs, &t, &p, 20000, |c| c == "outside" || c == "unwritten" || c.starts_with("write:") || c == "heap", |c| c.m > 0 && c.n > 0)
        }),
        rule: "every operand lies in its own mapping whose untouched pages are inaccessible; A and B are read-only during the call, C starts or ends at a page boundary, all bytes between and around C's elements are filled and compared afterwards, every element must have its new value; two AddressSanitizer builds in which only stores are instrumented see writes that are undone before the call returns; coverage-guided search; non-trivial: C not empty".into(),
        level: "exploration",
        assumptions: vec!["a write outside C that is undone before the call returns is seen only on inaccessible or read-only pages"],
        extra: None, must_build: false, threads: 8,
    }
}

fn c04(t: &Tier) -> Plan {
    let t = t.clone();
    let vs = with_cov(with_asan(kernels(), "reads"));
    Plan {
        variants: vs,
        groups: Box::new(move |bs| {
            let mut p = Prof::base(true);
            p.shapes = [6, 7, 2, 1, 2, 0, 1, 0];
            p.cap = 300_000;
            p.c = [3, 4, 3];
            p.ab = [4, 4, 4, 1];
            p.modes = [1, 0, 0];
            let mut g = vec![];
            for b in bs {
                let mut p = p.clone();
                p.cap = cap_for(b, p.cap);
                let asan = b.v.sanitizer.is_some();
                let n = (t.n(3500) as f64 * spread(b)) as usize;
                let sp = if asan { spawn_env(b, "ASAN_OPTIONS", ASAN) }
                    else if b.v.has_threading() { spawn_env(b, "MATMUL_NUM_THREADS", "2") } else { spawn(b) };
                let check: Check = Arc::new(|x, i| {
                    // three times with different bytes in the gaps and in fresh heap memory: they must not matter
                    let mut hashes = vec![];
                    let mut soft = vec![];
                    for gap in 0..3u8 {
                        let mut c = i.cases[0].clone();
                        c.gap = gap;
                        match x.run(0, &c) {
                            r @ Reply::Ok(_) => hashes.push(r.get("hash").unwrap_or("").to_string()),
                            Reply::Fail(cat, m) if cat == "value" || cat == "unwritten" || cat == "outside" => soft.push(format!("{cat} {m}")),
                            Reply::Fail(cat, m) if cat.starts_with("read:") || cat.starts_with("write:") || cat == "heap" || cat.starts_with("exec:") || cat == "layout" => return bad(cat, m),
                            Reply::Fail(cat, _) if cat == "panic" || cat == "fpstate" => return Verdict::Pass { nontrivial: false },
                            r => return not_ok(r, &x.spawns[0].name),
                        }
                    }
                    hashes.dedup();
                    soft.dedup();
                    if hashes.len() > 1 || soft.len() > 1 || !hashes.is_empty() && !soft.is_empty() {
                        return bad("gap", format!("the result depends on bytes that are no element of any operand: hashes {hashes:?} failures {soft:?}"));
                    }
                    Verdict::Pass { nontrivial: i.cases[0].m > 0 && i.cases[0].n > 0 && i.cases[0].k > 0 && soft.is_empty() }
                });
                let cap = p.cap;
                g.push(guided(b, cap, group(&b.v.name, vec![sp], make_case(p, "gaps"), n, 8, check)));
            }
            g
        }),
        rule: "every operand ends or starts at an inaccessible page (all alignments that are multiples of the real scalar), untouched pages inside are inaccessible too, each call runs three times with different filler in gaps and fresh heap memory and must give the same bits; heap allocations of the call lie against guard pages; two AddressSanitizer builds that instrument loads; coverage-guided search; a Miri subset with uninitialised gaps; non-trivial: no empty dimension".into(),
        level: "exploration",
        assumptions: vec!["over-reads that stay inside a touched page are seen through their influence on the result, or by Miri"],
        extra: Some(Box::new(|s, t| crate::miri::memory_subset(s, t))), must_build: false, threads: 8,
    }
}

fn c05(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: with_cov(kernels()),
        groups: Box::new(move |bs| {
            let mut p = Prof::base(true);
            p.shapes = [5, 6, 4, 1, 2, 1, 1, 0];
            p.cap = 800_000;
            p.beta_zero = true;
            p.keep_c = true;
            p.c = [4, 5, 1];
            let check: Check = Arc::new(|x, i| {
                let mut h: Option<String> = None;
                for ci in [3u8, 1, 0, 2] {
                    let mut c = i.cases[0].clone();
                    c.cinit = ci;
                    match x.run(0, &c) {
                        r @ Reply::Ok(_) => {
                            let g = r.get("hash").unwrap_or("").to_string();
                            if h.as_ref().map_or(false, |h| *h != g) { return bad("depends", format!("{}: the result differs with C's old contents (class {ci})", x.spawns[0].name)) }
                            h = Some(g);
                        }
                        r => return not_ok(r, &format!("{} (C initially class {ci})", x.spawns[0].name)),
                    }
                }
                let c = &i.cases[0];
                Verdict::Pass { nontrivial: c.m > 0 && c.n > 0 }
            });
            let mut g = vec![];
            for b in bs {
                let mut p = p.clone();
                p.cap = cap_for(b, p.cap);
                let sp = if b.v.has_threading() { spawn_env(b, "MATMUL_NUM_THREADS", "4") } else { spawn(b) };
                let cap = p.cap;
                let mut gr = group(&b.v.name, vec![sp], make_case(p, "betazero"), (t.n(2800) as f64 * spread(b)) as usize, 8, check.clone());
                gr.valid = Arc::new(|i| valid_c(i) && i.cases[0].beta_is_zero());
                g.push(guided(b, cap, gr));
            }
            g
        }),
        rule: "calls with beta = 0 in every signed-zero form, each run with four different old contents of C (signalling NaN and all-ones and largest finite, NaN, infinities, data): all must give the model's result with identical bits; uninitialised C under Miri; non-trivial: C not empty".into(),
        level: "exploration",
        assumptions: vec![],
        extra: Some(Box::new(|s, t| crate::miri::beta_zero_subset(s, t))), must_build: false, threads: 8,
    }
}

fn c06(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: with_cov(vec![v_release(), v_kernel("sse2"), v_kernel("none"), v_thr(), v_checked(""), v_dev(), v_nostd(), v_small()]),
        groups: Box::new(move |bs| {
            let mut p = Prof::base(true);
            p.shapes = [0, 0, 0, 0, 0, 0, 1, 0];
            p.c = [4, 5, 3];
            p.ab = [2, 3, 3, 3];
            let mut g = run_groups(bs, &t, &p, 22000, anycat, |c| c.k == 0 && c.m > 0 && c.n > 0 || c.m == 0 || c.n == 0);
            for x in g.iter_mut() { x.valid = Arc::new(|i| valid_c(i) && i.cases.iter().all(|c| c.m == 0 || c.k == 0 || c.n == 0)) }
            g
        }),
        rule: "calls with at least one dimension zero and the others up to 2400, some up to 200000, or 2^40 where no operand has an element; pointers of operands that may not be touched are dangling, strides of empty dimensions arbitrary; k = 0 must give beta*C exactly (0 for beta = 0 over garbage); every case is non-trivial".into(),
        level: "exploration",
        assumptions: vec!["strides up to 2^40 in magnitude"],
        extra: Some(Box::new(|s, t| crate::miri::empty_subset(s, t))), must_build: false, threads: 8,
    }
}

fn c07(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: with_cov(kernels()),
        groups: Box::new(move |bs| {
            let mut p = Prof::base(true);
            p.shapes = [6, 7, 4, 1, 2, 1, 0, 0];
            p.cap = 800_000;
            p.modes = [0, 0, 1];
            p.live = true;
            p.keep_c = true;
            p.c = [4, 4, 0];
            p.ab = [4, 4, 0, 1];
            let mut g = run_groups(bs, &t, &p, 25000, anycat, |c| busy(c) && !c.inj.is_empty());
            for x in g.iter_mut() { x.valid = Arc::new(|i| valid_c(i) && i.cases.iter().all(|c| !c.alpha_is_zero())) }
            g
        }),
        rule: "exact-integer calls with one to four NaN/+Inf/-Inf injected at random positions of A, B and C; real types are compared with the IEEE classification of the sum, complex elements must hold a non-finite part, all other elements must be exactly the finite result; non-trivial: no empty dimension, alpha nonzero".into(),
        level: "exploration",
        assumptions: vec!["complex: which part becomes NaN or infinite is not prescribed", "alpha = 0 with special values is not prescribed"],
        extra: None, must_build: false, threads: 8,
    }
}

fn c17(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: with_cov(kernels()),
        groups: Box::new(move |bs| {
            let mut p = Prof::base(true);
            p.shapes = [6, 6, 3, 1, 2, 0, 0, 0];
            p.cap = 500_000;
            p.modes = [1, 0, 0];
            p.scaled = 100;
            p.extreme = true;
            p.c = [4, 3, 0];
            p.ab = [4, 3, 0, 0];
            let mut g = run_groups(bs, &t, &p, 20000, anycat, |c| busy(c) && (c.ea != 0 || c.eb != 0 || c.eal != 0));
            // float data, scaled by powers of two: bits must follow
            let mut p = p.clone();
            p.scaled = 0;
            p.modes = [0, 1, 0];
            p.cap = 200_000;
            let check: Check = Arc::new(|x, i| {
                let c0 = &i.cases[0];
                let mut c1 = c0.clone();
                (c1.ea, c1.eb, c1.eal, c1.ebe) = (i.nums[0] as i32, i.nums[1] as i32, i.nums[2] as i32, i.nums[3] as i32);
                gen::fix(&mut c1);
                let l0 = format!("runs {}", c0.to_text());
                let l1 = format!("runs {}", c1.to_text());
                let (a, b) = (x.call(0, &l0), x.call(0, &l1));
                match (&a, &b) {
                    (Reply::Ok(_), Reply::Ok(_)) => if a.get("shash") == b.get("shash") { Verdict::Pass { nontrivial: busy(c0) } }
                        else { bad("scaling", format!("{}: scaling by powers of two changed significant bits", x.spawns[0].name)) },
                    (Reply::Ok(_), _) => not_ok(b, &x.spawns[0].name),
                    _ => not_ok(a, &x.spawns[0].name),
                }
            });
            for b in bs {
                let mut p = p.clone();
                p.cap = cap_for(b, p.cap);
                let make: Make = Arc::new(move || (gen::case(&p), -1000i64..=1000, -1000i64..=1000, -1000i64..=1000, -1000i64..=1000).prop_map(|(mut c, e0, e1, e2, e3)| {
                    // entries have exponents within +-6, sums grow by k: stay clear of both ends
                    if c.ty.is32() { c.dens = 0 }
                    let lim = if c.ty.is32() { 12 } else { 120 };
                    let s = |x: i64| x * lim / 1000;
                    Input { op: "scale".into(), nums: vec![s(e0), s(e1), s(e2), s(e3)], strs: vec![], cases: vec![c] }
                }).boxed());
                let sp = if b.v.has_threading() { spawn_env(b, "MATMUL_NUM_THREADS", "2") } else { spawn(b) };
                let mut gr = group(&format!("{} scale", b.v.name), vec![sp], make, (t.n(2500) as f64 * spread(b)) as usize, 8, check.clone());
                gr.valid = Arc::new(|i| valid_c(i) && i.cases.iter().all(|c| c.mode == Mode::Float && (!c.ty.is32() || c.dens == 0 && i.nums.iter().all(|x| x.abs() <= 12))));
                g.push(guided(b, cap_for(b, 200_000), gr));
            }
            g
        }),
        rule: "exact-integer calls with independent power-of-two scales of A, B, C, alpha, beta up to the ends of the exponent range (subnormal inputs, products and results included) compared exactly; and float calls run unscaled and scaled whose results must agree in every significant bit; MXCSR and x87 control words compared around every call; non-trivial: not empty, alpha nonzero, some scale nonzero".into(),
        level: "exploration",
        assumptions: vec!["beta = 0 or C scaled along with the product"],
        extra: None, must_build: false, threads: 8,
    }
}

// ---- C08 -------------------------------------------------------------------------------------

fn c08(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: vec![v_release(), v_thr(), Variant::new("r-thr-sse2", "release", CGT).kernel("sse2"), v_kernel("sse2"), Variant::new("k-thr", "checked", CGT), v_small(),
            { let mut v = v_small(); v.name = "k-small-nt".into(); v.features.retain(|f| f != "threading"); v }],
        groups: Box::new(move |bs| {
            let find = |n: &str| bs.iter().find(|b| b.v.name == n);
            let mut p = Prof::base(true);
            p.shapes = [0, 0, 2, 1, 1, 10, 0, 1];
            p.cap = 6_000_000;
            p.c = [5, 3, 0];
            p.ab = [5, 3, 0, 0];
            let check: Check = Arc::new(|x, i| {
                let c = &i.cases[0];
                let mut first: Option<String> = None;
                for w in 0..x.spawns.len() {
                    let r = x.call(w, &format!("runn {}", c.to_text()));
                    let who = x.spawns[w].name.clone();
                    match &r {
                        Reply::Ok(_) => {
                            let h = r.get("hash").unwrap_or("").to_string();
                            match &first { None => first = Some(h), Some(f) if *f != h => return bad("threads", format!("{who}: bits differ from {}", x.spawns[0].name)), _ => {} }
                        }
                        _ => return not_ok(r, &who),
                    }
                }
                Verdict::Pass { nontrivial: busy(c) && (c.m + c.n) * c.k >= 32768 }
            });
            let mut g = vec![];
            let sets: [(&str, &str, usize); 4] = [("r-auto", "r-thr", 1300), ("r-sse2", "r-thr-sse2", 500), ("r-auto", "k-thr", 400), ("k-small-nt", "k-small", 700)];
            for (base, thr, n) in sets {
                let (Some(b0), Some(b1)) = (find(base), find(thr)) else { continue };
                let mut sp = vec![];
                if base != "r-auto" || thr != "k-thr" { sp.push(spawn(b0)) }
                for th in ["1", "2", "3", "4", "7"] { if th != "7" || t.thorough { sp.push(spawn_env(b1, "MATMUL_NUM_THREADS", th)) } }
                g.push(group(&format!("{base} = {thr} x1..4"), sp, make_case(p.clone(), "same"), t.n(n), 6, check.clone()));
            }
            g
        }),
        rule: "each call runs in a build without threading and in threaded builds with MATMUL_NUM_THREADS 1, 2, 3, 4; every result must be correct and all must have identical bits (float data: any change of summation order shows); sizes concentrate on the threading thresholds, the m and n splits and odd remainders; non-trivial: large enough for two threads".into(),
        level: "exploration",
        assumptions: vec!["NaN payloads are not compared"],
        extra: None, must_build: false, threads: 6,
    }
}

// ---- C09 -------------------------------------------------------------------------------------

fn conc_inputs(p: Prof, reps: i64) -> Make {
    Arc::new(move || {
        let p2 = p.clone();
        let rounds = move |cases: &[Case], want: i64| -> i64 {
            let work: u64 = cases.iter().map(|c| c.macs() + 2000).max().unwrap_or(1);
            want.min((if reps > 2 { 12_000_000 } else { 400_000 } / work) as i64).max(reps)
        };
        let sep = (proptest::collection::vec(gen::case(&p), 2..=7), prop_oneof![2 => Just(reps), 1 => Just(40)]).prop_map(move |(cases, want)| Input { op: "conc".into(), nums: vec![rounds(&cases, want)], strs: vec![], cases });
        // the same shape for all, with other data: their workspaces are alike
        let team = (gen::case(&p), 2usize..=7, prop_oneof![1 => Just(reps), 1 => Just(12), 2 => Just(100)]).prop_map(move |(c, t, want)| {
            let cases: Vec<Case> = (0..t).map(|x| { let mut c = c.clone(); c.seed ^= mmcase::mix(x as u64); c }).collect();
            Input { op: "conc".into(), nums: vec![rounds(&cases, want)], strs: vec![], cases }
        });
        let mut q = p2;
        q.c = [5, 3, 0];
        q.keep_c = true;
        let il = (gen::case(&q), 2i64..=6).prop_map(move |(mut c, t)| { c.alias = false; Input { op: "conci".into(), nums: vec![t, reps], strs: vec![], cases: vec![c] } });
        prop_oneof![2 => sep, 2 => team, 1 => il].boxed()
    })
}

pub fn conc_line(i: &Input) -> String {
    if i.op == "conci" { format!("conci {} {} {}", i.nums[0], i.nums[1], i.cases[0].to_text()) }
    else { format!("conc {} {}", i.nums[0], i.cases.iter().map(|c| c.to_text()).collect::<Vec<_>>().join(" | ")) }
}

fn c09(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: vec![v_release(), v_thr(), v_small(), Variant::new("r-thr-none", "release", CGT).kernel("none"), v_nostd(), Variant::new("tsan", "release", CGT).tsan(), Variant::new("tsan-nostd", "release", &["cgemm"]).tsan(),
            { let mut v = v_small(); v.name = "tsan-small".into(); v.profile = "release"; v.tsan() }],
        groups: Box::new(move |bs| {
            let mut p = Prof::base(true);
            p.shapes = [2, 3, 1, 0, 2, 6, 0, 0];
            p.cap = 2_000_000;
            p.c = [5, 3, 0];
            p.ab = [5, 3, 0, 0];
            let mut g = vec![];
            for b in bs {
                let san = b.v.sanitizer.is_some();
                let small = b.v.name.contains("small");
                let mut p = p.clone();
                if san { p.cap = 500_000; p.modes = [1, 0, 0] }
                if small { p.shapes = [2, 3, 0, 0, 4, 2, 0, 0]; p.cap = 200_000 }
                // first = how often a fresh process is used: the first calls of a process race too
                let check: Check = Arc::new(move |x, i| {
                    let h = hash_str(&i.to_text());
                    if h % 3 == 0 { x.fresh_all() }
                    let w = (h as usize / 3) % x.spawns.len();
                    let r = x.call(w, &conc_line(i));
                    match r {
                        Reply::Ok(_) => Verdict::Pass { nontrivial: i.cases.iter().filter(|c| busy(c)).count() >= if i.op == "conc" { 2 } else { 1 } },
                        r => not_ok(r, &x.spawns[w].name),
                    }
                });
                let mut sp = vec![];
                let ths: &[&str] = if b.v.has_threading() { &["", "2", "4", "3", "1"] } else { &[""] };
                for th in ths {
                    let mut s = spawn(b);
                    if !th.is_empty() { s.env.push(("MATMUL_NUM_THREADS".into(), th.as_bytes().to_vec())); s.name = format!("{} MATMUL_NUM_THREADS={th}", b.v.name) }
                    if san { s.env.push(("TSAN_OPTIONS".into(), b"halt_on_error=1:exitcode=66:report_signal_unsafe=0".to_vec())) }
                    sp.push(s);
                }
                let n = match b.v.name.as_str() { "r-thr" => 1500, "r-auto" => 500, "k-small" => 1200, "tsan" => 350, "tsan-small" => 450, "tsan-nostd" => 200, _ => 400 };
                let mut gr = group(&b.v.name, sp, conc_inputs(p, if san { 2 } else { 3 }), t.n(n), 4, check);
                gr.valid = Arc::new(|i| valid_c(i) && (i.op != "conc" || i.cases.len() >= 2));
                g.push(gr);
            }
            g
        }),
        rule: "two to seven threads released together, each making its own call (or all sharing A and B and writing interleaved elements of one buffer), in fresh and in used processes, with the internal pool off and at 2, 3, 4 threads; every result judged by the model; the same under ThreadSanitizer (std instrumented) and, few and small, under Miri's race detector with random schedules; non-trivial: at least two non-empty calls".into(),
        level: "exploration",
        assumptions: vec!["schedules are those the OS, ThreadSanitizer and Miri's seeded scheduler produce"],
        extra: Some(Box::new(|s, t| crate::miri::races(s, t))), must_build: false, threads: 4,
    }
}

// ---- C10 -------------------------------------------------------------------------------------

fn c10(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: vec![v_release(), v_thr(), v_checked(""), v_kernel("sse2"), v_kernel("none"), v_nostd(), v_small()],
        groups: Box::new(move |bs| {
            let mut p = Prof::base(true);
            p.shapes = [6, 6, 2, 0, 3, 1, 1, 0];
            p.cap = 400_000;
            p.modes = [2, 4, 3];
            p.c = [5, 3, 0];
            p.ab = [5, 3, 0, 1];
            let check: Check = Arc::new(|x, i| {
                // one process runs the whole history; each call again in a process of its own (or
                // after the reverse history)
                let line = |c: &Case, thread: bool, end: bool| format!("{} {}", if end { "runx" } else if thread { "runt" } else { "run" }, c.to_text());
                let key = |r: &Reply| -> Option<String> {
                    match r { Reply::Ok(_) => Some(format!("ok {}", r.get("hash").unwrap_or(""))), Reply::Fail(c, m) if !c.contains(':') => Some(format!("{c} {m}")), _ => None }
                };
                let n = i.cases.len();
                let mut fwd = vec![];
                x.fresh_all();
                for (j, c) in i.cases.iter().enumerate() {
                    let th = i.nums.get(j).copied().unwrap_or(0) & 1 == 1;
                    let r = x.call(0, &line(c, th, i.nums.get(j).copied().unwrap_or(0) >> 20 & 7 == 1));
                    match key(&r) { Some(k) => fwd.push(k), None => return not_ok(r, "history") }
                }
                let solo_all = i.nums.first().copied().unwrap_or(0) & 2 != 0;
                for j in (0..n).rev() {
                    if solo_all || j + 1 == n { x.fresh(1) }
                    let th = i.nums.get(j).copied().unwrap_or(0) & 4 != 0;
                    // and its operands elsewhere
                    let mut c = i.cases[j].clone();
                    let at = i.nums.get(j).copied().unwrap_or(0) >> 4 & 0x7fff;
                    if at != 0 {
                        for (l, s) in [&mut c.a, &mut c.b, &mut c.c].into_iter().zip(0..) { l.mis = (l.mis as i64 + (at >> (4 * s) & 15)) as u8 % 16; l.end ^= at >> (12 + s) & 1 == 1 }
                    }
                    let r = x.call(1, &line(&c, th, i.nums.get(j).copied().unwrap_or(0) >> 20 & 7 == 2));
                    match key(&r) {
                        Some(k) if k == fwd[j] => {}
                        Some(k) => return bad("history", format!("{}: call {j} of the history gives {} but {} {}", x.spawns[0].name, fwd[j], k, format!("{}{}", if solo_all { "in a process of its own" } else { "after the later calls" }, if at != 0 { ", operands at other addresses" } else { "" }))),
                        None => return not_ok(r, "repeat"),
                    }
                    // and again at once
                    if i.nums.get(j).copied().unwrap_or(0) & 8 != 0 {
                        let r = x.call(1, &line(&i.cases[j], false, false));
                        if key(&r).as_ref() != Some(&fwd[j]) { return bad("repeat", format!("{}: call {j} repeated gives another result", x.spawns[0].name)) }
                    }
                }
                Verdict::Pass { nontrivial: i.cases.iter().filter(|c| busy(c)).count() >= 2 }
            });
            // the same process, used for long: thousands of calls in between must not matter
            let long: Check = Arc::new(|x, i| {
                let c = &i.cases[0];
                let run = format!("run {}", c.to_text());
                x.fresh_all();
                let first = match x.call(0, &run) { r @ Reply::Ok(_) => r.get("hash").unwrap_or("").to_string(), Reply::Fail(..) => return Verdict::Pass { nontrivial: false }, r => return not_ok(r, "first") };
                for (j, d) in i.cases.iter().enumerate() {
                    let reps = i.nums.get(j).copied().unwrap_or(2).max(2);
                    match x.call(0, &format!("many {reps} {}", d.to_text())) {
                        Reply::Ok(_) => {}
                        Reply::Fail(cat, m) if cat == "drift" => return bad(cat, format!("{}: {m}", x.spawns[0].name)),
                        Reply::Fail(..) => return Verdict::Pass { nontrivial: false },
                        r => return not_ok(r, "many"),
                    }
                }
                match x.call(0, &run) {
                    r @ Reply::Ok(_) if r.get("hash") == Some(&first) => Verdict::Pass { nontrivial: busy(c) },
                    Reply::Ok(_) => bad("history", format!("{}: the first call repeated after a long history gives other bits", x.spawns[0].name)),
                    r => not_ok(r, &format!("{} (after a long history)", x.spawns[0].name)),
                }
            });
            let mut g = vec![];
            for b in bs {
                let p = p.clone();
                let p2 = p.clone();
                let make: Make = Arc::new(move || proptest::collection::vec((gen::case(&p), (prop_oneof![0i64..16, 0i64..1 << 19], 0i64..8).prop_map(|(x, y)| x | y << 20), 0u8..=11), 2..=12).prop_map(|v| {
                    let (mut cases, mut nums): (Vec<Case>, Vec<i64>) = (vec![], vec![]);
                    for (mut c, n, echo) in v {
                        // often much like the call before it: same memory, other contents or scalars or depth
                        if let (Some(last), true) = (cases.last(), echo >= 6) {
                            let d = c;
                            let d2 = d.clone();
                            c = last.clone();
                            match echo {
                                6 | 7 => c.seed = d.seed,
                                8 => { c.alpha = d.alpha; c.beta = d.beta }
                                9 => { c.k = d.k; c.seed = d.seed }
                                10 => { c.dens = d.dens; if c.mode == Mode::Exact && d.mode == Mode::Special { c.mode = d.mode; c.inj = d.inj } }
                                _ => c.ty = d.ty,
                            }
                            c.cinit = 0;
                            gen::fix(&mut c);
                            if !gen::spans_ok(&c) || !gen::injective(c.m, c.n, c.c.rs, c.c.cs) { c = d2 }
                        }
                        cases.push(c);
                        nums.push(n);
                    }
                    Input { op: "history".into(), nums, strs: vec![], cases }
                }).boxed());
                let sp = if b.v.has_threading() { spawn_env(b, "MATMUL_NUM_THREADS", "4") } else { spawn(b) };
                let mut gr = group(&b.v.name, vec![sp.clone(), sp.clone()], make, (t.n(1500) as f64 * spread(b)) as usize, 8, check.clone());
                gr.valid = Arc::new(|i| valid_c(i) && !i.cases.is_empty());
                g.push(gr);
                let thorough = t.thorough;
                let make: Make = Arc::new(move || {
                    let mut q = p2.clone();
                    q.shapes = [6, 6, 4, 1, 1, 1, 1, 0];
                    q.ab = [5, 3, 0, 0];
                    proptest::collection::vec((gen::case(&q), 0u32..=1000), 1..=4).prop_map(move |v| {
                        let (cases, nums) = v.into_iter().map(|(c, r)| {
                            // up to what 3e7 (1.5e8) multiply-adds or 70000 calls cost
                            let cost = c.macs() + 300 + 20 * ((c.m * c.k + c.k * c.n + c.m * c.n) as u64);
                            let most = (if thorough { 150_000_000 } else { 30_000_000 } / cost).clamp(3, 70_000) as f64;
                            (c, most.powf(0.5 + r as f64 / 2000.0).ceil() as i64)
                        }).unzip();
                        Input { op: "long".into(), nums, strs: vec![], cases }
                    }).boxed()
                });
                let mut gr = group(&format!("{} long", b.v.name), vec![sp], make, (t.n(160) as f64 * spread(b)) as usize, 4, long.clone());
                gr.valid = Arc::new(|i| valid_c(i) && !i.cases.is_empty());
                g.push(gr);
            }
            g
        }),
        rule: "histories of 2 to 12 calls of mixed types, shapes, special values and calling threads (new ones with small stacks, ones that are ending and have lost their thread-local values), half of them on the memory of the call before with other contents, scalars or depth; each call's result bits must equal those of the same call in a process of its own, or after the reverse history, or repeated at once; and long histories: one to four calls each repeated up to 70000 times in one process, every repetition bit-identical, and the first call of the process the same at its end; non-trivial: at least two non-empty calls".into(),
        level: "exploration",
        assumptions: vec!["NaN payloads are not compared"],
        extra: None, must_build: false, threads: 8,
    }
}

// ---- C11 -------------------------------------------------------------------------------------

/// Blocking parameters (mc, kc, nc) of a type in a variant.
fn blocks(b: &Built, ty: Ty) -> (i64, i64, i64) {
    if b.v.features.iter().any(|f| f == "constconf") { return (16, 24, 40) }
    if ty.comps() == 2 { (32, 256, 512) } else { (64, 256, 1024) }
}

fn c11(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: with_cov(vec![v_release(), v_thr(), v_kernel("sse2"), v_kernel("none"), v_checked(""), v_dev(), v_nostd(), v_small()]),
        groups: Box::new(move |bs| {
            let mut g = vec![];
            for b in bs {
                let thr = b.v.has_threading();
                let b2: Vec<(Ty, (i64, i64, i64))> = [Ty::S, Ty::D, Ty::C, Ty::Z].iter().map(|t| (*t, blocks(b, *t))).collect();
                let bound: Arc<dyn Fn(Ty) -> i64 + Send + Sync> = Arc::new(move |ty: Ty| -> i64 {
                    let (mc, kc, nc) = b2.iter().find(|x| x.0 == ty).unwrap().1;
                    let th = if thr { 4 } else { 1 };
                    (ty.esz() as i64 * kc * ((mc + 8) * th + nc + 8)) * 3 / 2 + 16384
                });
                let bound2 = bound.clone();
                let mut p = Prof::base(true);
                p.shapes = [2, 4, 4, 6, 2, 2, 1, 0];
                p.modes = [1, 0, 0];
                p.cap = cap_for(b, 3_000_000);
                p.ab = [5, 2, 0, 2];
                p.c = [5, 2, 0];
                let warm = "ty=s m=256 k=260 n=4 alpha=1,0,0 beta=0,0,0 a=260,1,0,0 b=4,1,0,0 c=4,1,0,0 mode=e seed=1";
                let check: Check = Arc::new(move |x, i| {
                    let c = &i.cases[0];
                    // the pool is made on first use: not the call's doing
                    let w = x.call(0, &format!("run {warm}"));
                    if !matches!(w, Reply::Ok(_)) && !matches!(w, Reply::Fail(..)) { return not_ok(w, "warm-up") }
                    let line = if thr { format!("leak 8 {}", c.to_text()) } else { format!("run {}", c.to_text()) };
                    let r = x.call(0, &line);
                    match &r {
                        Reply::Ok(_) => {
                            let leaked = if thr { r.num("late") } else { r.num("live") };
                            if leaked > 0 && (!thr || leaked >= 4 * 64) { return bad("leak", format!("{}: {leaked} bytes still allocated after the call", x.spawns[0].name)) }
                            if leaked < 0 { return bad("leak", format!("{}: released {} bytes it did not allocate in the call", x.spawns[0].name, -leaked)) }
                            if r.num("peak") > bound(c.ty) { return bad("bound", format!("{}: {} bytes of workspace, more than {} that the block sizes allow", x.spawns[0].name, r.num("peak"), bound(c.ty))) }
                            Verdict::Pass { nontrivial: r.num("peak") > 0 }
                        }
                        Reply::Fail(cat, _) if !matches!(cat.as_str(), "heap" | "layout") && !cat.ends_with(":W") => Verdict::Pass { nontrivial: false },
                        _ => not_ok(r, &x.spawns[0].name),
                    }
                });
                let sp = if thr { spawn_env(b, "MATMUL_NUM_THREADS", "4") } else { spawn(b) };
                let n = (t.n(5000) as f64 * spread(b) * if thr { 0.3 } else { 1.0 }) as usize;
                g.push(guided(b, cap_for(b, 3_000_000), group(&format!("{} workspace", b.v.name), vec![sp.clone()], make_case(p.clone(), "workspace"), n, 8, check)));
                if !b.v.name.starts_with("cov") { g.push(reach_group(b, sp.clone(), (t.n(800) as f64 * spread(b)) as usize, Some(bound2))) }
                // injected failure
                let mut p = p.clone();
                p.shapes = [3, 4, 2, 1, 1, if thr { 2 } else { 0 }, 1, 0];
                p.cap = cap_for(b, 300_000);
                let make: Make = Arc::new(move || (gen::case(&p), prop_oneof![6 => Just(0i64), 2 => 1i64..=3, 1 => 4i64..=400]).prop_map(|(c, n)| Input { op: "afail".into(), nums: vec![n], strs: vec![], cases: vec![c] }).boxed());
                let check: Check = Arc::new(|x, i| {
                    let r = x.call(0, &format!("afail {} {}", i.nums[0], i.cases[0].to_text()));
                    match r.get("outcome") {
                        Some(o) => Verdict::Pass { nontrivial: o != "nofailure" },
                        None => not_ok(r, &x.spawns[0].name),
                    }
                });
                g.push(group(&format!("{} failure", b.v.name), vec![sp], make, (t.n(900) as f64 * spread(b)) as usize, 8, check));
            }
            g
        }),
        rule: "calls under a replacement allocator: guard pages and canaries around every allocation of the call, layout compared on release, nothing live afterwards (threaded builds: no growth over repeated calls), peak below 1.5 times what the block sizes and thread count allow while dimensions go up to 150000; and calls in a child process in which the n-th allocation fails: abort, panic or a right result are accepted, a fault or a wrong result is not; calls of any size up to 2^64 run to their first access of an operand, with the same bound on the workspace; non-trivial: the call allocated (or an allocation was made to fail)".into(),
        level: "exploration",
        assumptions: vec!["the documented block sizes"],
        extra: None, must_build: false, threads: 8,
    }
}

fn threaded(b: &Built) -> Spawn { if b.v.has_threading() { spawn_env(b, "MATMUL_NUM_THREADS", "4") } else { spawn(b) } }

/// Calls of any size up to their first access to the operands: what is allocated by then is bounded
/// (if a bound is given), and nothing panics or overflows on the way.
fn reach_group(b: &Built, sp: Spawn, n: usize, bound: Option<Arc<dyn Fn(Ty) -> i64 + Send + Sync>>) -> Group {
    let types = all_types(b);
    let make: Make = Arc::new(move || {
        let huge = || prop_oneof![3 => (16u32..=62, 0usize..=40).prop_map(|(e, d)| (1usize << e) - 20 + d), 1 => (16u32..=62, any::<u64>()).prop_map(|(e, x)| (1usize << e) + (x as usize >> (64 - e)))];
        let some = || prop_oneof![2 => 1usize..=20, 2 => 20usize..=2000];
        let k = prop_oneof![1 => Just(0usize), 8 => some(), 8 => huge(), 1 => Just(usize::MAX), 1 => Just(isize::MAX as usize + 1)];
        let mn = prop_oneof![3 => (some(), some()), 3 => (huge(), some()), 3 => (some(), huge()), 2 => (huge(), huge())];
        (select(types.clone()), mn, k, 0u8..4, 0u8..2, -1i64..=1, -1i64..=1, -1i64..=1, -1i64..=1, (0u8..4, 0u8..4)).prop_map(|(ty, (m, n), k, _, col, ra, ca, rb, cb, (al, be))| {
            let (mut m, mut n) = (m, n);
            // C's elements have addresses of their own
            while m.saturating_mul(n) > 1 << 58 { if m > n { m = m / 2 + 1 } else { n = n / 2 + 1 } }
            let sc = |x: u8| format!("{},0,0", [0, 1, 2, -1][x as usize]);
            let c = format!("ty={} m={m} k={k} n={n} alpha={} beta={} a={ra},{ca},0,0 b={rb},{cb},0,0 c={} mode=e seed=1", match ty { Ty::S => "s", Ty::D => "d", Ty::C => "c", Ty::Z => "z" }, sc(al), sc(be), if col == 0 { format!("{n},1,0,0") } else { format!("1,{m},0,0") });
            Input::one("reach", Case::parse(&c).expect("case"))
        }).boxed()
    });
    let check: Check = Arc::new(move |x, i| {
        let c = &i.cases[0];
        let r = x.call(0, &format!("reach {}", c.to_text()));
        match r.get("outcome") {
            Some(o) => {
                if let Some(f) = &bound { if r.num("peak") > f(c.ty) { return bad("bound", format!("{}: {} bytes of workspace, more than {} that the block sizes allow", x.spawns[0].name, r.num("peak"), f(c.ty))) } }
                Verdict::Pass { nontrivial: o == "reached" && c.m.max(c.k).max(c.n) > 1 << 20 }
            }
            None => not_ok(r, &x.spawns[0].name),
        }
    });
    let mut g = group(&format!("{} any size", b.v.name), vec![sp], make, n, 8, check);
    g.valid = Arc::new(|i| valid_c(i) && i.cases.iter().all(|c| c.m > 0 && c.n > 0 && c.m.saturating_mul(c.n) <= 1 << 59));
    g
}

// ---- C12 -------------------------------------------------------------------------------------

fn c12(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: vec![v_release(), v_checked(""), v_dev(), v_nostd(), Variant::new("d-nostd", "dev", &["cgemm"]), Variant::new("r-nostd-avx", "release", &["cgemm"]).flags("-Ctarget-feature=+avx"), Variant::new("r-nostd-avx2", "release", &["cgemm"]).flags("-Ctarget-feature=+avx2"), Variant::new("r-nostd-onlyfma", "release", &["cgemm"]).flags("-Ctarget-feature=+fma"), Variant::new("r-nostd-sse41", "release", &["cgemm"]).flags("-Ctarget-feature=+sse4.1"), Variant::new("r-std-only", "release", &["std"]), v_small_nt()],
        groups: Box::new(move |bs| {
            let mut g = vec![];
            for b in bs {
                let std = b.v.features.iter().any(|f| f == "std");
                // without std, what was enabled at compile time counts, whatever the CPU can do
                let levels: &[&str] = if std { &["sse2", "avx", "fma", "avx2", "noxsave", "full"] } else {
                    match b.v.name.as_str() { "r-nostd-avx" => &["+avx-built"], "r-nostd-avx2" => &["+avx2-built"], "r-nostd-onlyfma" => &["+fma-built"], "r-nostd-sse41" => &["+sse41-built"], _ => &["sse2", "sse2-built"] }
                };
                for level in levels {
                    let mut p = Prof::base(b.v.has_cgemm());
                    p.shapes = [4, 5, 0, 1, 0, 0, 1, 0];
                    p.cap = if b.v.profile == "dev" { 700 } else { 4_000 };
                    p.modes = [3, 1, 0];
                    p.ab = [5, 3, 0, 1];
                    p.c = [5, 3, 0];
                    let lv = level.trim_end_matches("-built").to_string();
                    let check: Check = Arc::new(move |x, i| {
                        let c = &i.cases[0];
                        if c.macs() > 9_000 { return Verdict::Pass { nontrivial: false } }
                        let r = x.call(0, &format!("step {lv} {}", c.to_text()));
                        match &r {
                            Reply::Ok(_) => Verdict::Pass { nontrivial: r.num("exe") >= 300 },
                            // a wrong result on such a CPU is this property's business too
                            _ => not_ok(r, &x.spawns[0].name),
                        }
                    });
                    let sp = if level.ends_with("-built") { spawn(b) } else { spawn_env(b, "MM_CPUID", level) };
                    let n = if b.v.profile == "dev" { 25 } else { 70 };
                    let q = p.clone();
                    // every instruction traps: no long loops over C either
                    let make: Make = Arc::new(move || gen::case(&q).prop_map(|mut c| {
                        if c.m * c.n > 600 { c.m = c.m.min(40); c.n = c.n.min(600 / c.m.max(1)).max(1); gen::fix(&mut c) }
                        Input::one("step", c)
                    }).boxed());
                    g.push(group(&format!("{} on {level}", b.v.name), vec![sp.clone()], make.clone(), t.n(n), 2, check));
                    // larger calls without the monitor
                    if b.v.profile != "dev" {
                        p.shapes = [2, 4, 4, 1, 4, 0, 0, 0];
                        p.cap = 1_000_000;
                        g.push(group(&format!("{} on {level} (results)", b.v.name), vec![sp], make_case(p, "run"), t.n(400), 2, check_run(anycat, busy)));
                    }
                }
            }
            g
        }),
        rule: "CPUID is made to trap and answered as by an SSE2-only, AVX, AVX+FMA, AVX+AVX2 CPU, one whose operating system has not enabled the AVX registers, or the real CPU, so that run-time detection takes each path; the call is then single-stepped and every instruction of the executable decoded for the extension it needs, and results are judged by the model; no_std builds (baseline, and with SSE4.1, AVX, AVX2 or FMA enabled at compile time) may execute what was enabled, on the reduced and on the full CPU; non-trivial: at least 300 instructions observed".into(),
        level: "exploration",
        assumptions: vec!["CPUID faulting is available (x86-64 Linux on Intel); the instruction classifier covers VEX, EVEX, XOP and the SSE3..SSE4.2 opcodes", "only instructions of this executable count, not those of libc"],
        extra: None, must_build: false, threads: 8,
    }
}

fn v_small_nt() -> Variant { let mut v = v_small(); v.name = "k-small-nt".into(); v.features.retain(|f| f != "threading"); v }

// ---- C13 -------------------------------------------------------------------------------------

fn c13(t: &Tier) -> Plan {
    use proptest::strategy::ValueTree;
    let t = t.clone();
    let mut rn = runner(mix(t.seed) ^ 0xC13);
    let strat = (
        select(vec!["dev", "release", "checked"]),
        any::<[bool; 4]>(),
        select(vec!["", "", "", "fma", "avx", "sse2", "none"]),
        select(vec!["", "", "", "-Ctarget-feature=+avx", "-Ctarget-feature=+avx,+fma", "-Ctarget-feature=+avx,+avx2,+fma", "-Ctarget-cpu=native", "-Ctarget-feature=+sse3,+sse4.2", "-Copt-level=s", "-Cpanic=abort", "-Ccodegen-units=1 -Cdebuginfo=0"]),
    );
    let mk = |(p, f, k, fl): (&'static str, [bool; 4], &str, &str)| {
        let mut feats = vec![];
        for (on, name) in f.iter().zip(["std", "threading", "cgemm", "constconf"]) { if *on { feats.push(name) } }
        if feats.contains(&"threading") && !feats.contains(&"std") { feats.push("std") }
        feats.sort();
        let mut v = Variant::new("", p, &feats).kernel(k).flags(fl);
        v.name = format!("cfg-{p}-{}-{}-{:x}", if feats.is_empty() { "none".into() } else { feats.join("_") }, if k.is_empty() { "auto" } else { k }, hash_str(fl) as u16);
        v
    };
    // always: all feature subsets (release), with profile, kernel and flags drawn
    let mut vs: Vec<Variant> = vec![];
    let mut subsets: Vec<[bool; 4]> = (0..16).map(|x| [x & 1 != 0, x & 2 != 0, x & 4 != 0, x & 8 != 0]).filter(|f| !f[1] || f[0]).collect();
    let extra = if t.thorough { 60 } else { 6 };
    for _ in 0..extra { subsets.push(strat.new_tree(&mut rn).unwrap().current().1) }
    for f in subsets {
        let (p, _, k, fl) = strat.new_tree(&mut rn).unwrap().current();
        let v = mk((p, f, k, fl));
        if !vs.iter().any(|w| w.name == v.name) { vs.push(v) }
    }
    Plan {
        variants: vs,
        groups: Box::new(move |bs| {
            let mut p = Prof::base(true);
            p.shapes = [5, 6, 4, 1, 3, 1, 1, 0];
            p.cap = 1_000_000;
            let mut g = run_groups(bs, &t, &p, 0, anycat, busy);
            for x in g.iter_mut() { x.n = if t.thorough { 4000 } else { 500 }; x.shards = 1 }
            for b in bs { let mut x = reach_group(b, threaded(b), if t.thorough { 600 } else { 60 }, None); x.shards = 1; g.push(x) }
            // the same exact call everywhere, beside the default build's bits
            g
        }),
        rule: "all 12 feature subsets and further drawn ones, each with a generated profile (dev, release, optimised with debug assertions), forced kernel family and target-feature or codegen flags, are built from scratch and run generated calls against the model; a configuration that does not build is a violation; calls of any size up to their first access of an operand in debug builds; non-trivial: calls with no empty dimension and alpha nonzero".into(),
        level: "exploration",
        assumptions: vec!["x86-64 with the installed stable toolchain"],
        extra: None, must_build: true, threads: 8,
    }
}

// ---- C15 -------------------------------------------------------------------------------------

fn c15(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: vec![v_thr(), Variant::new("k-thr", "checked", CGT), Variant::new("d-thr", "dev", CGT)],
        groups: Box::new(move |bs| {
            let strat_maker = move || {
                // rebuilt per thread: strategies are not Send
                let num = prop_oneof![
                    4 => (0u64..=6).prop_map(|x| x.to_string()),
                    1 => any::<u64>().prop_map(|x| x.to_string()),
                    1 => (0u64..=5).prop_map(|x| format!("+{x}")),
                    1 => (0u64..=5).prop_map(|x| format!("-{x}")),
                    1 => (0u64..=5, 1usize..30).prop_map(|(x, z)| format!("{}{x}", "0".repeat(z))),
                    1 => (0u64..=5).prop_map(|x| format!(" {x}")),
                    1 => (0u64..=5).prop_map(|x| format!("{x} ")),
                    1 => (0u64..=5).prop_map(|x| format!("{x}.0")),
                    1 => select(vec!["18446744073709551616", "18446744073709551615", "99999999999999999999999999999999999999", "0x4", "four", "\u{ff14}", "4294967298", "65537", "256", "258", "auto", "1e0", "_4", "4_"]).prop_map(|s| s.to_string()),
                ].prop_map(|s| Some(s.into_bytes()));
                prop_oneof![
                    10 => num,
                    1 => Just(None),
                    1 => Just(Some(vec![])),
                    2 => proptest::collection::vec(1u8..=255, 1..12).prop_map(Some),
                ].boxed()
            };
            let strat_maker = Arc::new(strat_maker);
            let mut g = vec![];
            for b in bs {
                let mut p = Prof::base(true);
                p.shapes = [1, 1, 0, 0, 1, 8, 0, 1];
                p.cap = if b.v.profile == "dev" { 300_000 } else { 3_000_000 };
                p.modes = [1, 0, 0];
                p.ab = [1, 0, 0, 0];
                p.c = [1, 0, 0];
                let sm = strat_maker.clone();
                let make: Make = Arc::new(move || (sm(), proptest::collection::vec(gen::case(&p), 1..=2), 0i64..3).prop_map(|(v, cases, conc)| {
                    let nums = vec![v.is_some() as i64, conc];
                    Input { op: "env".into(), nums, strs: vec![v.unwrap_or_default()], cases }
                }).boxed());
                let bin = spawn(b);
                let profile = b.v.profile;
                let check: Check = Arc::new(move |x, i| {
                    let val = &i.strs[0];
                    if val.contains(&0) { return Verdict::Pass { nontrivial: false } }
                    let mut sp = bin.clone();
                    if i.nums[0] == 1 { sp.env.push(("MATMUL_NUM_THREADS".into(), val.clone())) }
                    let who = format!("MATMUL_NUM_THREADS={}", if i.nums[0] == 1 { format!("{:?}", String::from_utf8_lossy(val)) } else { "(unset)".into() });
                    // what the documentation promises
                    let text = std::str::from_utf8(val);
                    let (limit, exact) = if i.nums[0] == 0 || val.is_empty() || text.is_err() { (4, false) }
                        else { match text.unwrap().parse::<u128>() {
                            Ok(n) => (n.clamp(1, 4) as i64, true),
                            Err(_) if text.unwrap().trim_start_matches('+').bytes().all(|b| b.is_ascii_digit()) && text.unwrap().len() > 1 => (4, false), // a number beyond 128 bits
                            Err(_) => (1, true),
                        } };
                    // digits that overflow usize: "a number" to a reader, not to usize: either reading is accepted
                    let (limit, exact) = if exact && limit == 4 && text.map_or(false, |t| t.parse::<usize>().is_err()) { (4, false) } else { (limit, exact) };
                    let mut y = Ctx::new(&[sp]);
                    y.timeout = x.timeout;
                    let mut big = false;
                    for c in &i.cases {
                        let r = y.call(0, &format!("part {}", c.to_text()));
                        if !matches!(r, Reply::Ok(_)) { return not_ok(r, &who) }
                        let part = r.num("part");
                        if part > limit { return bad("threads", format!("{who}: {part} threads took part in a call, the limit is {limit}")) }
                        if limit == 1 && r.num("threads") > 1 { return bad("threads", format!("{who}: {} threads exist after the call", r.num("threads"))) }
                        big |= (c.m + c.n) * c.k >= 65536;
                    }
                    if i.nums[1] == 1 {
                        let l = format!("conc 1 {}", i.cases.iter().map(|c| c.to_text()).collect::<Vec<_>>().join(" | "));
                        let r = y.call(0, &l);
                        if !matches!(r, Reply::Ok(_)) { return not_ok(r, &who) }
                    }
                    if exact && limit >= 2 {
                        // a large call uses more than one thread
                        let n = if profile == "dev" { 160 } else { 320 };
                        let r = y.call(0, &format!("part ty=d m={n} k=400 n={n} alpha=1,0,0 beta=0,0,0 a=400,1,0,0 b={n},1,0,0 c={n},1,0,0 mode=e seed=1"));
                        if !matches!(r, Reply::Ok(_)) { return not_ok(r, &who) }
                        if r.num("part") < 2 { return bad("serial", format!("{who}: only one thread took part in a large call")) }
                        if r.num("part") > limit { return bad("threads", format!("{who}: {} threads took part in a call, the limit is {limit}", r.num("part"))) }
                    }
                    Verdict::Pass { nontrivial: big || i.nums[0] == 1 }
                });
                let n = if b.v.profile == "dev" { 150 } else { 900 };
                let mut gr = group(&b.v.name, vec![], make, t.n(n), 4, check);
                gr.valid = Arc::new(|i| valid_c(i) && !i.cases.is_empty());
                g.push(gr);
            }
            g
        }),
        rule: "a fresh process per generated value of the variable (numbers, signed, padded, huge, garbage, arbitrary bytes, empty, unset) makes generated calls around the threading thresholds; the threads whose run time advances during a call are counted against the limit and every result is judged by the model; non-trivial: the variable is set or a call is large enough to be split".into(),
        level: "exploration",
        assumptions: vec!["per-thread run time in /proc/self/task/*/schedstat", "numbers that overflow usize may count as 4 or as 1"],
        extra: None, must_build: false, threads: 4,
    }
}

// ---- C16 -------------------------------------------------------------------------------------

const LAWS: [&str; 12] = ["select-right", "select-left", "transpose", "ksplit", "mnblock", "alpha-pow2", "additive", "scalar", "assoc", "complex-parts", "conj", "kpad"];

fn c16(t: &Tier) -> Plan {
    let t = t.clone();
    Plan {
        variants: with_cov(kernels()),
        groups: Box::new(move |bs| {
            let mut g = vec![];
            for b in bs {
                let mut p = Prof::base(true);
                p.shapes = [5, 6, 4, 0, 3, 0, 0, 0];
                p.cap = cap_for(b, 800_000);
                p.ab = [1, 0, 0, 0];
                p.c = [1, 0, 0];
                p.alias = 0;
                p.scaled = 0;
                p.keep_c = true;
                let make: Make = Arc::new(move || (select(&LAWS[..]), gen::case(&p)).prop_map(|(l, mut c)| {
                    c.k = c.k.min(2000);
                    Input { op: format!("law {l}"), nums: vec![], strs: vec![], cases: vec![c] }
                }).boxed());
                let check: Check = Arc::new(|x, i| {
                    let c = &i.cases[0];
                    let r = x.call(0, &format!("{} {}", i.op, c.to_text()));
                    match r { Reply::Ok(_) => Verdict::Pass { nontrivial: c.m > 0 && c.n > 0 && c.k > 0 && c.macs() >= 8 }, r => not_ok(r, &x.spawns[0].name) }
                });
                let sp = if b.v.has_threading() { spawn_env(b, "MATMUL_NUM_THREADS", "4") } else { spawn(b) };
                let mut gr = group(&b.v.name, vec![sp], make, (t.n(25000) as f64 * if b.v.name.starts_with("cov-o0") { 0.5 } else { spread(b) }) as usize, 8, check);
                gr.valid = Arc::new(|i| valid_c(i) && i.cases.iter().all(|c| c.k <= 2000));
                g.push(guided(b, cap_for(b, 800_000), gr));
            }
            // few, but large
            for b in bs.iter().filter(|b| ["r-thr", "r-auto", "k-avx", "k-sse2", "k-none"].contains(&b.v.name.as_str())) {
                let mut p = Prof::base(true);
                p.shapes = [0, 0, 0, 0, 0, 0, 0, 1];
                p.cap = 520_000_000;
                p.modes = [1, 3, 0];
                p.ab = [1, 0, 0, 0];
                p.c = [1, 0, 0];
                p.alias = 0;
                p.scaled = 0;
                p.keep_c = true;
                let make: Make = Arc::new(move || (select(&["select-right", "select-left", "ksplit", "mnblock", "transpose", "conj"][..]), gen::case(&p)).prop_map(|(l, c)| Input { op: format!("law {l}"), nums: vec![], strs: vec![], cases: vec![c] }).boxed());
                let check: Check = Arc::new(|x, i| {
                    let c = &i.cases[0];
                    match x.call(0, &format!("{} {}", i.op, c.to_text())) { Reply::Ok(_) => Verdict::Pass { nontrivial: c.macs() >= 8 }, r => not_ok(r, &x.spawns[0].name) }
                });
                let sp = if b.v.has_threading() { spawn_env(b, "MATMUL_NUM_THREADS", "4") } else { spawn(b) };
                let mut gr = group(&format!("{} large", b.v.name), vec![sp], make, t.n(60), 4, check);
                gr.valid = Arc::new(|i| valid_c(i) && i.cases.iter().all(|c| c.k <= 2000));
                g.push(gr);
            }
            g
        }),
        rule: "twelve laws relating independent executions over generated sizes, layouts and data: selection by identity-like matrices on arbitrary finite bit patterns (bit-exact), transposition, splitting k with beta = 1, splitting m and n, powers of two in alpha (bit-exact), additivity in A, B and C, scalars moved between operands, associativity, complex against four real products, conjugation, padding k; exact on integers, within twice the rounding bound on floats; non-trivial: no empty dimension, at least 8 multiply-adds".into(),
        level: "exploration",
        assumptions: vec![],
        extra: None, must_build: false, threads: 8,
    }
}

pub fn plan(id: &str, t: &Tier) -> Option<Plan> {
    Some(match id {
        "C01" => c01(t), "C02" => c02(t), "C03" => c03(t), "C04" => c04(t), "C05" => c05(t), "C06" => c06(t),
        "C07" => c07(t), "C08" => c08(t), "C09" => c09(t), "C10" => c10(t), "C11" => c11(t), "C12" => c12(t),
        "C13" => c13(t), "C14" => crate::constconf::plan(t), "C15" => c15(t), "C16" => c16(t), "C17" => c17(t), "C18" => crate::miri::plan(t),
        _ => return None,
    })
}
