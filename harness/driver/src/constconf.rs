//! C14: the compile-time blocking parameters.
use crate::builds::*;
use crate::checks::*;
use crate::engine::*;
use crate::gen::{self, Prof};
use crate::pool::Reply;
use mmcase::*;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::ValueTree;

pub const TYPES: [&str; 4] = ["S", "D", "C", "Z"];
pub const WHAT: [&str; 3] = ["MC", "KC", "NC"];
const DEF: [[i64; 3]; 4] = [[64, 256, 1024], [64, 256, 1024], [32, 256, 512], [32, 256, 512]];

fn ty_of(i: usize) -> Ty { [Ty::S, Ty::D, Ty::C, Ty::Z][i] }

/// A setting of the twelve variables; None = unset.
#[derive(Clone, Debug)]
pub struct Setting(pub [[Option<String>; 3]; 4]);

impl Setting {
    fn value(&self, t: usize, p: usize) -> i64 { self.0[t][p].as_ref().and_then(|s| s.parse().ok()).unwrap_or(DEF[t][p]) }
    fn to_strs(&self) -> Vec<Vec<u8>> {
        let mut v = vec![];
        for t in 0..4 { for p in 0..3 { if let Some(x) = &self.0[t][p] { v.push(format!("MATMUL_{}GEMM_{}={x}", TYPES[t], WHAT[p]).into_bytes()) } } }
        v
    }
    fn variant(&self, name: String, feature: bool, kernel: i64) -> Variant {
        let mut v = Variant::kernel(Variant::new(&name, "release", if feature { &["std", "cgemm", "constconf"][..] } else { &["std", "cgemm"][..] }), KERNELS[kernel.rem_euclid(5) as usize]);
        for s in self.to_strs() { let s = String::from_utf8(s).unwrap(); let (k, x) = s.split_once('=').unwrap(); v = v.var(k, x) }
        v
    }
}

/// Values that keep MR <= MC <= KC <= NC <= 65536 for every kernel and a moderate workspace.
fn valid() -> BoxedStrategy<Setting> {
    let num = |lo: i64, hi: i64| prop_oneof![3 => lo..=hi, 1 => Just(lo), 1 => Just(hi), 1 => (lo..=hi).prop_map(move |x| (x / 8 * 8).max(lo))];
    let one = (num(8, 70), num(0, 90), num(0, 150), 0u8..10, any::<bool>()).prop_map(|(mc, dk, dn, kind, zeros)| {
        let f = |x: i64| Some(if zeros { format!("0{x}") } else { x.to_string() });
        let (kc, nc) = (mc + dk, mc + dk + dn);
        match kind {
            0 => [None, None, None],
            1 => [f(mc.min(32)), None, None],
            2 => [None, f(64 + dk), None],
            3 => [None, None, f(256 + dn)],
            4 => [f(mc), f(kc), None],
            5 => [f(mc), f(mc), f(mc)],
            6 => [f(mc), f(kc), f(kc)],
            7 => [f(mc.min(20)), f(24), f(65536 - dn)],
            _ => [f(mc), f(kc), f(nc)],
        }
    });
    [one.clone(), one.clone(), one.clone(), one].prop_map(Setting).boxed()
}

const JUNK: [&str; 20] = ["", " 64", "64 ", "abc", "12x", "x12", "-5", "-64", "0x40", "1e2", "64.0", "6 4", "1_00", "\u{ff16}\u{ff14}", "64;", "18446744073709551680", "36893488147419103296", "99999999999999999999999", "65537", "4294967360"];

/// One type broken in one way: (setting, type, may it parse)
fn invalid() -> BoxedStrategy<(Setting, usize, String)> {
    let how = prop_oneof![
        6 => (0usize..3, select(&JUNK[..])).prop_map(|(p, j)| { let mut x = [None, None, None]; x[p] = Some(j.to_string()); (x, format!("{} = {j}", WHAT[p])) }),
        1 => (0usize..3).prop_map(|p| { let mut x = [None, None, None]; x[p] = Some("0".to_string()); (x, format!("{} = 0", WHAT[p])) }),
        1 => (1i64..4).prop_map(|v| ([Some(v.to_string()), None, None], format!("MC = {v} below every MR"))),
        2 => (257i64..600).prop_map(|v| ([Some(v.to_string()), None, Some("2000".into())], format!("MC = {v} > KC = 256"))),
        2 => (1i64..32).prop_map(|v| ([None, Some(v.to_string()), None], format!("KC = {v} < MC"))),
        2 => (1025i64..3000).prop_map(|v| ([None, Some(v.to_string()), None], format!("KC = {v} > NC"))),
        2 => (1i64..256).prop_map(|v| ([None, None, Some(v.to_string())], format!("NC = {v} < KC = 256"))),
        2 => (65537i64..400_000).prop_map(|v| ([None, None, Some(v.to_string())], format!("NC = {v} > 65536"))),
        1 => (70_000i64..80_000).prop_map(|v| ([None, Some(v.to_string()), Some((v + 5).to_string())], format!("KC = {v}, NC = {} > 65536", v + 5))),
    ];
    (how, 0usize..4).prop_map(|((x, s), t)| {
        let mut a: [[Option<String>; 3]; 4] = Default::default();
        a[t] = x;
        (Setting(a), t, format!("{}GEMM {s}", TYPES[t]))
    }).boxed()
}

fn parse_setting(i: &Input) -> Setting {
    let mut s = Setting(Default::default());
    for x in &i.strs {
        let x = String::from_utf8_lossy(x).into_owned();
        for t in 0..4 { for p in 0..3 { if let Some(v) = x.strip_prefix(&format!("MATMUL_{}GEMM_{}=", TYPES[t], WHAT[p])) { s.0[t][p] = Some(v.into()) } } }
    }
    s
}

fn big_case(t: usize, mc: i64, kc: i64, nc: i64, over: [i64; 3]) -> Case {
    let (m, k, n) = ((mc + over[0]) as usize, (kc + over[1]) as usize, (nc + over[2]) as usize);
    let s = format!("ty={} m={m} k={k} n={n} alpha=1,0,0 beta=0,0,0 a={k},1,0,0 b={n},1,0,0 c={n},1,0,0 mode=e seed=3", ["s", "d", "c", "z"][t]);
    Case::parse(&s).unwrap()
}

/// The blocks as seen from outside: the workspace of a call larger than all of them.
fn check_blocks(x: &mut Ctx, who: &str, set: &Setting, feature: bool, over: [i64; 3]) -> Result<bool, Verdict> {
    let mut some = false;
    for t in 0..4 {
        let [mc, kc, nc] = if feature { [set.value(t, 0), set.value(t, 1), set.value(t, 2)] } else { DEF[t] };
        if mc * kc * nc > 60_000_000 { continue }
        let c = big_case(t, mc, kc, nc, over);
        let r = x.run(0, &c);
        if !matches!(r, Reply::Ok(_)) { return Err(not_ok(r, &format!("{who}: {} {}x{}x{}", TYPES[t], c.m, c.k, c.n))) }
        let esz = ty_of(t).esz() as i64;
        let (lo, hi) = (esz * kc * (mc + nc), esz * kc * (mc + nc + 16) + 8192);
        let peak = r.num("peak");
        if peak < lo || peak > hi {
            return Err(bad("blocks", format!("{who}: {}GEMM with MC={mc} KC={kc} NC={nc} in effect uses {lo}..{hi} bytes of workspace for a {}x{}x{} call, but it used {peak}", TYPES[t], c.m, c.k, c.n)));
        }
        some = true;
    }
    Ok(some)
}

const KERNELS: [&str; 5] = ["", "sse2", "none", "avx", "fma"];

fn build_one(set: &Setting, feature: bool, kernel: i64, tag: &str, jobs: usize) -> Result<Result<Built, String>, String> {
    build(&set.variant(format!("cc-{tag}"), feature, kernel), jobs)
}

/// Evaluate one input: nums = [kind, type, seed of the calls, how many calls, forced kernel]; kind 0 valid, 1 invalid, 2 valid but the feature is off
pub fn evaluate(i: &Input, tag: &str, jobs: usize) -> Verdict {
    let set = parse_setting(i);
    let (kind, ty, seed, ncalls) = (i.nums[0], i.nums[1] as usize, i.nums[2] as u64, i.nums[3]);
    let b = match build_one(&set, kind != 2, i.nums.get(4).copied().unwrap_or(0), tag, jobs) { Err(e) => return Verdict::Env(e), Ok(b) => b };
    let who: String = i.strs.iter().map(|s| String::from_utf8_lossy(s).into_owned()).collect::<Vec<_>>().join(" ");
    let r = match b {
        Err(e) => {
            if !e.contains("matrixmultiply") { Verdict::Env(e) }
            else if kind == 1 { Verdict::Pass { nontrivial: true } }
            else { bad("build", format!("{who}: a valid setting does not build: {}", e.lines().find(|l| l.starts_with("error")).unwrap_or(""))) }
        }
        Ok(b) => after_build(&set, &b, &who, kind, ty, seed, ncalls),
    };
    let _ = std::fs::remove_dir_all(target_root().join("w").join(format!("cc-{tag}")));
    r
}

fn after_build(set: &Setting, b: &Built, who: &str, kind: i64, ty: usize, seed: u64, ncalls: i64) -> Verdict {
    let mut x = Ctx::new(&[spawn(b)]);
    let mut rn = runner(mix(seed) ^ 0xC14);
    if kind == 1 {
        let mut p = Prof::base(true);
        p.types = vec![ty_of(ty)];
        p.shapes = [1, 1, 1, 0, 1, 0, 0, 0];
        p.cap = 400_000;
        let st = gen::case(&p);
        for _ in 0..ncalls.min(12) {
            let Ok(tree) = st.new_tree(&mut rn) else { continue };
            let c = tree.current();
            if c.m == 0 || c.n == 0 || c.k == 0 || c.alpha_is_zero() { continue }
            let r = x.call(0, &format!("refuse {}", c.to_text()));
            match r.get("outcome") {
                Some("panicked") => {}
                Some(_) => return bad("accepted", format!("{who}: the setting is invalid but the build succeeded and a call was carried out: {}", c.to_text())),
                None => return not_ok(r, &format!("{who}: {}", c.to_text())),
            }
        }
        // the other types are not concerned
        for t in (0..4).filter(|t| *t != ty) {
            let r = x.run(0, &big_case(t, 17, 19, 13, [0, 0, 0]));
            if !matches!(r, Reply::Ok(_)) { return not_ok(r, &format!("{who}: {}GEMM", TYPES[t])) }
        }
        return Verdict::Pass { nontrivial: true };
    }
    for over in [[0, 0, 0], [3, 1, 5], [40, 30, 20]] { if let Err(v) = check_blocks(&mut x, who, set, kind == 0, over) { return v } }
    // calls straddling the blocks
    let near = |v: i64| prop_oneof![2 => (1i64..=3, -3i64..=3).prop_map(move |(j, d)| v * j + d), 1 => 1i64..=9];
    for _ in 0..ncalls {
        let t = (rn.rng().next_u32() % 4) as usize;
        let v = [set.value(t, 0).min(300), set.value(t, 1).min(600), set.value(t, 2).min(2500)];
        let mut p = Prof::base(true);
        p.types = vec![ty_of(t)];
        p.cap = 3_000_000;
        p.c = [4, 3, 0];
        p.ab = [4, 3, 0, 0];
        p.alias = 0;
        let st = (near(v[0]), near(v[1]), near(v[2]), gen::case(&p));
        let Ok(tree) = st.new_tree(&mut rn) else { continue };
        let (m, k, n, mut c) = tree.current();
        let (m, k, n) = gen::cap_dims((m.max(1) as usize, k.max(1) as usize, n.max(1) as usize), 6_000_000, 400_000);
        // keep the layout class where the sizes allow, else plain
        c.m = m; c.k = k; c.n = n;
        let fit = |l: &mut Lay, r: usize, cc: usize| if l.rs.saturating_abs() > l.cs.saturating_abs() { l.rs = cc as i64 * l.cs.saturating_abs().clamp(1, 3) + 1; l.cs = l.cs.signum() * l.cs.saturating_abs().clamp(1, 3) } else { l.cs = r as i64 * l.rs.saturating_abs().clamp(1, 3) + 1; l.rs = l.rs.signum() * l.rs.saturating_abs().clamp(1, 3) };
        let (mut la, mut lb, mut lc) = (c.a, c.b, c.c);
        fit(&mut la, m, k);
        fit(&mut lb, k, n);
        fit(&mut lc, m, n);
        if lc.rs == 0 || lc.cs == 0 || !gen::injective(m, n, lc.rs, lc.cs) { lc = Lay { rs: n as i64, cs: 1, ..lc } }
        (c.a, c.b, c.c) = (la, lb, lc);
        gen::fix(&mut c);
        let r = x.run(0, &c);
        if !matches!(r, Reply::Ok(_)) { return not_ok(r, &format!("{who}: {}", c.to_text())) }
    }
    Verdict::Pass { nontrivial: true }
}

fn generate(t: &Tier) -> Vec<Input> {
    let mut rn = runner(mix(t.seed) ^ 0x14C);
    let mut v: Vec<Input> = vec![];
    let f = if t.thorough { 8 } else { 1 };
    // every kernel family gets its settings
    let can = |k: &str| match k { "avx" => std::is_x86_feature_detected!("avx"), "fma" => std::is_x86_feature_detected!("fma") && std::is_x86_feature_detected!("avx2"), _ => true };
    let ks: Vec<i64> = (0..5).filter(|k| can(KERNELS[*k as usize])).collect();
    let kern = |i: u64| ks[((i + t.seed) % ks.len() as u64) as usize];
    let calls = if t.thorough { 1500 } else { 300 };
    for i in 0..9 * f {
        let s = valid().new_tree(&mut rn).unwrap().current();
        v.push(Input { op: "setting".into(), nums: vec![if i % 9 == 8 { 2 } else { 0 }, 0, (t.seed as i64) * 1000 + i as i64, calls, kern(i as u64)], strs: s.to_strs(), cases: vec![] });
    }
    // all set, all different: any mix-up of types or parameters shows
    for i in 0..5 * f as i64 {
        let mut a: [[Option<String>; 3]; 4] = Default::default();
        for t in 0..4 {
            let b = 9 + t as i64 * 11 + rn.rng().next_u32() as i64 % 9;
            let k = b + 30 + rn.rng().next_u32() as i64 % 50;
            a[t] = [Some(b.to_string()), Some(k.to_string()), Some((k + 20 + rn.rng().next_u32() as i64 % 90).to_string())];
        }
        v.push(Input { op: "setting".into(), nums: vec![0, 0, (t.seed as i64) * 1000 + 500 + i, calls, kern(i as u64)], strs: Setting(a).to_strs(), cases: vec![] });
    }
    for i in 0..16 * f {
        let (s, ty, _) = invalid().new_tree(&mut rn).unwrap().current();
        v.push(Input { op: "setting".into(), nums: vec![1, ty as i64, (t.seed as i64) * 1000 + 800 + i as i64, 12, kern(i as u64)], strs: s.to_strs(), cases: vec![] });
    }
    v
}

pub fn replay(i: &Input) -> Verdict { evaluate(i, "replay", 8) }

pub fn plan(t: &Tier) -> Plan {
    let _ = t;
    Plan {
        variants: vec![],
        groups: Box::new(|_| vec![]),
        rule: "generated settings of the twelve variables: valid ones (all, some or none set, distinct values per type, block boundaries and the 65536 limit) are built and must show exactly the workspace their blocks imply for calls larger than all blocks, and right results for 300 calls whose sizes straddle the blocks; invalid ones (no number, overflowing, out of range, inconsistent) must fail the build or make the call panic with C unchanged, without affecting the other types; also with the feature off, when the variables must be ignored; every setting is non-trivial".into(),
        level: "exploration",
        assumptions: vec!["workspace of a call larger than the blocks = element size * KC * (MC + NC), up to 16 columns of rounding and 8 KiB"],
        extra: Some(Box::new(|s, t| {
            crate::miri::workspace(s, t);
            let inputs = generate(t);
            let next = std::sync::atomic::AtomicUsize::new(0);
            use std::sync::atomic::Ordering::SeqCst;
            std::thread::scope(|sc| for w in 0..8 {
                let (next, inputs) = (&next, &inputs);
                sc.spawn(move || loop {
                    let n = next.fetch_add(1, SeqCst);
                    if n >= inputs.len() || s.stop.load(SeqCst) { break }
                    if std::time::Instant::now() > s.deadline { s.stats.lock().unwrap().cut_short = true; break }
                    let i = &inputs[n];
                    let kind = ["valid setting", "invalid setting", "feature off"][i.nums[0] as usize];
                    match evaluate(i, &format!("{w}"), 2) {
                        Verdict::Pass { nontrivial } => s.record(kind, i, nontrivial),
                        Verdict::Env(m) => s.env(m),
                        Verdict::Fail { cat, msg } => {
                            s.record(kind, i, true);
                            if s.stop.swap(true, SeqCst) { return }
                            s.found.lock().unwrap().push(minimise(i.clone(), cat, msg, kind));
                            return;
                        }
                    }
                });
            });
        })),
        must_build: false,
        threads: 8,
    }
}

/// Drop variables one at a time while it still fails.
fn minimise(inp: Input, cat: String, msg: String, kind: &str) -> Found {
    let t0 = std::time::Instant::now();
    let mut best = (inp, cat, msg);
    let mut x = 0;
    while best.0.strs.len() > 1 && x < best.0.strs.len() && t0.elapsed().as_secs() < 120 {
        let mut i = best.0.clone();
        i.strs.remove(x);
        let set = parse_setting(&i);
        // stays a valid setting
        let ok = i.nums[0] == 1 || (0..4).all(|t| { let v = [set.value(t, 0), set.value(t, 1), set.value(t, 2)]; v[0] >= 8 && v[0] <= v[1] && v[1] <= v[2] && v[2] <= 65536 });
        if i.nums[0] != 1 && ok { if let Verdict::Fail { cat, msg } = evaluate(&i, "min", 8) { best = (i, cat, msg); continue } }
        x += 1;
    }
    let again = matches!(evaluate(&best.0, "min", 8), Verdict::Fail { .. });
    Found { group: format!("constconf {kind}"), input: best.0, cat: best.1, msg: best.2, reproduced: format!("{}/1 in a fresh build", again as u8) }
}

