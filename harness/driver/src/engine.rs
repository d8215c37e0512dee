//! Generated-input search: jobs on threads, shrinking, confirmation, evidence.
use crate::builds::verif;
use crate::gen;
use crate::pool::{Reply, Spawn, Worker};
use mmcase::{mix, Case};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::prelude::Rng as _;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub struct Input { pub op: String, pub nums: Vec<i64>, pub strs: Vec<Vec<u8>>, pub cases: Vec<Case> }

impl Input {
    pub fn one(op: &str, c: Case) -> Input { Input { op: op.into(), nums: vec![], strs: vec![], cases: vec![c] } }
    pub fn to_text(&self) -> String {
        let mut s = format!("op {}\n", self.op);
        if !self.nums.is_empty() { s += &format!("nums {}\n", self.nums.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
        for x in &self.strs { s += &format!("str {} {}\n", x.iter().map(|b| format!("{b:02x}")).collect::<String>(), String::from_utf8_lossy(x).escape_debug()) }
        for c in &self.cases { s += &format!("case {}\n", c.to_text()) }
        s
    }
    pub fn parse(t: &str) -> Result<Input, String> {
        let mut i = Input { op: String::new(), nums: vec![], strs: vec![], cases: vec![] };
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "op" => i.op = v.into(),
                "nums" => i.nums = v.split(',').map(|x| x.parse().map_err(|e| format!("{e}"))).collect::<Result<_, _>>()?,
                "str" => { let h = v.split(' ').next().unwrap_or(""); i.strs.push((0..h.len() / 2).map(|x| u8::from_str_radix(&h[2 * x..2 * x + 2], 16).unwrap_or(0)).collect()) }
                "case" => i.cases.push(Case::parse(v)?),
                _ => {}
            }
        }
        Ok(i)
    }
    pub fn brief(&self) -> String {
        let mut s = self.op.clone();
        if !self.nums.is_empty() { s += &format!(" {:?}", self.nums) }
        for x in &self.strs { s += &format!(" {:?}", String::from_utf8_lossy(x)) }
        let n = self.cases.len();
        for (j, c) in self.cases.iter().enumerate() { if j < 3 { s += " | "; s += &c.to_text() } }
        if n > 3 { s += &format!(" | ... {} more", n - 3) }
        s
    }
}

#[derive(Clone, Debug)]
pub enum Verdict { Pass { nontrivial: bool }, Fail { cat: String, msg: String }, Env(String) }
pub fn bad(cat: impl Into<String>, msg: impl Into<String>) -> Verdict { Verdict::Fail { cat: cat.into(), msg: msg.into() } }

pub struct Ctx { pub spawns: Vec<Spawn>, workers: Vec<Option<Worker>>, pub timeout: u64 }

impl Ctx {
    pub fn new(spawns: &[Spawn]) -> Ctx { Ctx { spawns: spawns.to_vec(), workers: spawns.iter().map(|_| None).collect(), timeout: 60 } }
    pub fn fresh(&mut self, i: usize) { self.workers[i] = None }
    pub fn fresh_all(&mut self) { for w in self.workers.iter_mut() { *w = None } }
    pub fn call(&mut self, i: usize, line: &str) -> Reply {
        if self.workers[i].as_mut().map_or(true, |w| w.served > 20000) {
            match Worker::start(&self.spawns[i]) { Ok(w) => self.workers[i] = Some(w), Err(e) => return Reply::Env(e) }
        }
        let r = self.workers[i].as_mut().unwrap().call(line, self.timeout);
        if !matches!(r, Reply::Ok(_)) { self.workers[i] = None }
        r
    }
    pub fn run(&mut self, i: usize, c: &Case) -> Reply { let l = format!("run {}", c.to_text()); self.call(i, &l) }
}

/// A reply that is not ok, as a verdict.
pub fn not_ok(r: Reply, who: &str) -> Verdict {
    match r {
        Reply::Ok(_) => Verdict::Pass { nontrivial: true },
        Reply::Fail(c, m) => bad(c, format!("{who}: {m}")),
        Reply::Died(m) => bad("crash", format!("{who}: {m}")),
        Reply::Hang(s) => bad("hang", format!("{who}: no answer within {s} s")),
        Reply::Env(m) => Verdict::Env(format!("{who}: {m}")),
    }
}

pub type Check = Arc<dyn Fn(&mut Ctx, &Input) -> Verdict + Send + Sync>;
pub type Make = Arc<dyn Fn() -> BoxedStrategy<Input> + Send + Sync>;
pub type Valid = Arc<dyn Fn(&Input) -> bool + Send + Sync>;

#[derive(Clone)]
pub struct Group {
    pub name: String,
    pub spawns: Vec<Spawn>,
    pub make: Make,
    pub n: usize,
    pub shards: usize,
    pub check: Check,
    /// the input is one the property speaks about (kept while shrinking)
    pub valid: Valid,
    /// search guided by what the first process reports of its coverage; most multiply-adds of a case
    pub guide: Option<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub groups: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub env: u64,
    pub env_msgs: Vec<String>,
    pub cut_short: bool,
    pub notes: Vec<String>,
    /// guided groups: features seen, inputs kept
    pub guided: BTreeMap<String, (u64, u64)>,
}

pub struct Found { pub group: String, pub input: Input, pub cat: String, pub msg: String, pub reproduced: String }

pub struct Search { pub property: &'static str, pub seed: u64, pub deadline: Instant, pub stats: Mutex<Stats>, pub found: Mutex<Vec<Found>>, pub stop: AtomicBool }

pub fn runner(seed: u64) -> TestRunner {
    let mut s = [0u8; 32];
    for i in 0..4 { s[i * 8..i * 8 + 8].copy_from_slice(&mix(seed ^ i as u64).to_le_bytes()) }
    let cfg = Config { failure_persistence: None, max_shrink_iters: 1000, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}

pub fn hash_str(s: &str) -> u64 { s.bytes().fold(0x1234_5678, |h, b| mix(h ^ b as u64)) }

impl Search {
    pub fn new(property: &'static str, seed: u64, secs: u64) -> Search {
        Search { property, seed, deadline: Instant::now() + Duration::from_secs(secs), stats: Mutex::default(), found: Mutex::default(), stop: AtomicBool::new(false) }
    }

    /// Record one evaluated input.
    pub fn record(&self, group: &str, inp: &Input, nontrivial: bool) {
        let mut s = self.stats.lock().unwrap();
        s.evals += 1;
        *s.groups.entry(group.into()).or_default() += 1;
        if nontrivial { let h = hash_str(&inp.to_text()); s.distinct.insert(h); }
        for c in &inp.cases { for l in gen::labels(c) { *s.labels.entry(l).or_default() += 1 } }
        let n = s.evals;
        if s.samples.len() < 12 && (n % 397 == 5 || n <= 2) { let b = format!("[{group}] {}", inp.brief()); s.samples.push(b) }
    }

    pub fn env(&self, msg: String) {
        let mut s = self.stats.lock().unwrap();
        s.env += 1;
        if s.env_msgs.len() < 5 { s.env_msgs.push(msg) }
    }

    fn eval(&self, g: &Group, ctx: &mut Ctx, inp: &Input) -> Verdict {
        let mut v = (g.check)(ctx, inp);
        for t in 0..2 {
            let again = match &v { Verdict::Env(m) => m != "nocpuid", Verdict::Fail { cat, .. } => cat == "hang", _ => false };
            if !again { break }
            // an overloaded machine is not a violation: ask again in fresh processes, with patience
            ctx.fresh_all();
            std::thread::sleep(Duration::from_millis(300));
            let was = ctx.timeout;
            ctx.timeout = 90 + 60 * t;
            v = (g.check)(ctx, inp);
            ctx.timeout = was;
        }
        v
    }

    fn job(&self, g: &Group, shard: usize, n: usize) {
        let mut ctx = Ctx::new(&g.spawns);
        let mut rn = runner(mix(self.seed) ^ hash_str(self.property) ^ hash_str(&g.name).rotate_left(7) ^ (shard as u64) << 48);
        let strat = (g.make)();
        let mut guide = g.guide.map(|cap| Guided::new(cap, rn.rng().next_u64()));
        for it in 0..n {
            if self.stop.load(SeqCst) { return }
            if Instant::now() > self.deadline { self.stats.lock().unwrap().cut_short = true; return }
            let mut tree = match strat.new_tree(&mut rn) { Ok(t) => t, Err(e) => { self.env(format!("generator: {e}")); return } };
            let mut inp = tree.current();
            let mut derived = false;
            if let Some(gd) = guide.as_mut() { if let Some(i) = gd.derive(&inp, it < n / 10, &g.valid) { inp = i; derived = true } }
            match self.eval(g, &mut ctx, &inp) {
                Verdict::Pass { nontrivial } => {
                    self.record(&g.name, &inp, nontrivial);
                    if let Some(gd) = guide.as_mut() { gd.learn(&inp, ctx.call(0, "feat")) }
                }
                Verdict::Env(m) => { self.env(m.clone()); if m == "nocpuid" { return } }
                Verdict::Fail { cat, msg } => {
                    self.record(&g.name, &inp, true);
                    if self.stop.swap(true, SeqCst) { return }
                    let f = self.shrink(g, &mut ctx, if derived { None } else { Some(&mut *tree) }, inp, cat, msg);
                    self.found.lock().unwrap().push(f);
                    return;
                }
            }
        }
        if let Some(gd) = guide {
            let mut s = self.stats.lock().unwrap();
            let e = s.guided.entry(g.name.clone()).or_default();
            e.0 = e.0.max(gd.features);
            e.1 += gd.corpus.len() as u64;
        }
    }

    fn shrink(&self, g: &Group, ctx: &mut Ctx, tree: Option<&mut dyn ValueTree<Value = Input>>, inp: Input, cat: String, msg: String) -> Found {
        let t0 = Instant::now();
        let budget = Duration::from_secs(75);
        let mut best = (inp, cat, msg);
        let hang = best.1 == "hang";
        let was = ctx.timeout;
        if hang { ctx.timeout = 20 }
        let mut steps = 0;
        // proptest's own shrinking
        let try_one = |ctx: &mut Ctx, i: &Input, best: &mut (Input, String, String)| -> bool {
            if !(g.valid)(i) { return false }
            if let Verdict::Fail { cat, msg } = (g.check)(ctx, i) { *best = (i.clone(), cat, msg); true } else { false }
        };
        if let Some(tree) = tree.filter(|_| !hang) {
            if tree.simplify() {
                loop {
                    steps += 1;
                    if steps > 250 || t0.elapsed() > budget / 2 { break }
                    let cur = tree.current();
                    if try_one(ctx, &cur, &mut best) { if !tree.simplify() { break } } else if !tree.complicate() { break }
                }
            }
        }
        // then simplify the case itself
        let mut progress = true;
        while progress && t0.elapsed() < budget {
            progress = false;
            if best.0.cases.len() > 1 {
                for x in (0..best.0.cases.len()).rev() {
                    if t0.elapsed() > budget || best.0.cases.len() <= 1 || x >= best.0.cases.len() { break }
                    let mut i = best.0.clone();
                    i.cases.remove(x);
                    if try_one(ctx, &i, &mut best) { progress = true }
                }
            }
            for x in 0..best.0.cases.len() {
                let mut y = 0;
                loop {
                    let cand = gen::simpler(&best.0.cases[x]);
                    if y >= cand.len() || t0.elapsed() > budget { break }
                    let mut i = best.0.clone();
                    i.cases[x] = cand[y].clone();
                    if try_one(ctx, &i, &mut best) { progress = true } else { y += 1 }
                }
            }
        }
        ctx.timeout = was;
        // reproduce in fresh processes
        let mut again = 0;
        let tries = if hang { 1 } else { 5 };
        for _ in 0..tries {
            ctx.fresh_all();
            if let Verdict::Fail { .. } = (g.check)(ctx, &best.0) { again += 1 }
        }
        Found { group: g.name.clone(), input: best.0, cat: best.1, msg: best.2, reproduced: format!("{again}/{tries} in fresh processes") }
    }

    /// Run all groups over `threads` threads.
    pub fn run(&self, groups: &[Group], threads: usize) {
        let mut jobs = vec![];
        for g in groups {
            let sh = g.shards.max(1).min(g.n.max(1));
            for s in 0..sh { jobs.push((g, s, (g.n + sh - 1 - s) / sh)) }
        }
        // spread the groups: all first shards first
        jobs.sort_by_key(|j| j.1);
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= jobs.len() || self.stop.load(SeqCst) { break }
                    let (g, s, n) = jobs[i];
                    self.job(g, s, n);
                });
            }
        });
    }
}

/// The corpus of a guided search: inputs that reached something new, with the comparisons they
/// made (site, left, right), and inputs derived to turn single comparisons.
struct Guided { cap: u64, corpus: Vec<(Input, Vec<(u32, i64, i64)>)>, kept: [bool; 3], rng: gen::Rng, features: u64, tried: BTreeMap<(u32, i64), [u8; 2]>, at_site: BTreeMap<u32, u32>, hi: Queue, lo: Queue }

/// Inputs waiting per comparison; the least tried comparison goes first.
#[derive(Default)]
struct Queue { q: BTreeMap<u32, Vec<(Input, [bool; 3])>>, done: BTreeMap<u32, u32> }
impl Queue {
    fn add(&mut self, site: u32, v: impl Iterator<Item = (Input, [bool; 3])>) {
        let q = self.q.entry(site).or_default();
        q.extend(v);
        if q.len() > 60 { q.drain(..30); }
    }
    fn pop(&mut self) -> Option<(Input, [bool; 3])> {
        let (&s, q) = self.q.iter_mut().filter(|x| !x.1.is_empty()).min_by_key(|x| self.done.get(x.0).copied().unwrap_or(0))?;
        *self.done.entry(s).or_default() += 4;
        q.pop()
    }
}

impl Guided {
    fn new(cap: u64, seed: u64) -> Guided { Guided { cap, corpus: vec![], kept: [false; 3], rng: gen::Rng(seed), features: 0, tried: BTreeMap::new(), at_site: BTreeMap::new(), hi: Queue::default(), lo: Queue::default() } }

    fn derive(&mut self, fresh: &Input, early: bool, valid: &Valid) -> Option<Input> {
        self.kept = [false; 3];
        if fresh.cases.is_empty() || self.rng.below(8) == 0 { return None }
        let ok = |i: &Input| i.cases.iter().all(gen::spans_ok) && valid(i);
        let c = self.rng.below(16);
        if c < 8 { while let Some((i, k)) = self.hi.pop() { if ok(&i) { self.kept = k; return Some(i) } } }
        if early || self.corpus.is_empty() { return None }
        if c < 12 { while let Some((i, k)) = self.lo.pop() { if ok(&i) { self.kept = k; return Some(i) } } }
        for _ in 0..6 {
            let n = self.corpus.len();
            let at = if self.rng.below(2) == 0 { n - 1 - self.rng.below((n / 4 + 1) as u64) as usize } else { self.rng.below(n as u64) as usize };
            let (base, pairs) = &self.corpus[at];
            let mut i = base.clone();
            if i.cases.is_empty() { continue }
            let x = self.rng.below(i.cases.len() as u64) as usize;
            i.cases[x] = gen::mutate(&i.cases[x], &fresh.cases[x % fresh.cases.len()], pairs, &mut self.rng, self.cap);
            if self.rng.below(8) == 0 { i.op = fresh.op.clone(); i.nums = fresh.nums.clone() }
            if i != *base && ok(&i) { return Some(i) }
        }
        None
    }

    fn learn(&mut self, i: &Input, r: Reply) {
        let new = r.num("new").max(0) + r.num("near").max(0);
        self.features += new as u64;
        if new == 0 || i.cases.is_empty() { return }
        let pairs: Vec<(u32, i64, i64)> = r.get("pairs").unwrap_or("").split(',').filter_map(|p| {
            let mut f = p.split(':');
            Some((f.next()?.parse().ok()?, f.next()?.parse().ok()?, f.next()?.parse().ok()?))
        }).collect();
        let y = self.rng.below(i.cases.len() as u64) as usize;
        let c = &i.cases[y];
        for &(site, a, b) in &pairs {
            for (v, t) in [(a, b), (b, a)] {
                let n = self.at_site.entry(site).or_default();
                if *n >= 40 { break }
                let tr = self.tried.entry((site, t)).or_default();
                let kept = self.kept;
                let with = |f: usize, v: i64| {
                    let mut k = kept;
                    if f < 3 { k[f] = true }
                    gen::with_field(c, f, v, self.cap, kept).into_iter().map(move |c| { let mut j = i.clone(); j.cases[y] = c; (j, k) })
                };
                // a number that is neither a power of two nor near a size is worth a closer look
                if t > 16 && t & (t - 1) != 0 && t & (t + 1) != 0 && (0..9).all(|f| gen::field(c, f).wrapping_sub(t).saturating_abs() > 8) { let d = self.hi.done.entry(site).or_default(); *d = d.saturating_sub(3); let d = self.lo.done.entry(site).or_default(); *d = d.saturating_sub(3) }
                // the side that is a field of the input becomes the other side
                let direct: Vec<usize> = (0..9).filter(|&f| v.saturating_abs() > 2 && gen::field(c, f).saturating_abs() == v.saturating_abs()).collect();
                if !direct.is_empty() {
                    if tr[0] >= 3 { continue }
                    for d in [1, -1, 0] { for &f in direct.iter().take(3).rev() { self.hi.add(site, with(f, (t + d) * if gen::field(c, f) == v { 1 } else { -1 })) } }
                    // where several fields agree, all of them together
                    if direct.len() > 1 {
                        let (f, sg) = (direct[0], |f: usize| if gen::field(c, f) == v { 1 } else { -1 });
                        let set: Vec<(usize, i64)> = direct[1..].iter().map(|&f| (f, t * sg(f))).collect();
                        self.hi.add(site, with(f, t * sg(f)).map(|(mut i, k)| { for (f, v) in &set { i.cases[y] = gen::with_field(&i.cases[y], *f, *v, self.cap, k).swap_remove(0) } (i, k) }));
                    }
                    tr[0] += 1;
                } else {
                    if t == 0 || tr[1] >= 3 || v.saturating_abs() <= 2 && self.rng.below(4) != 0 { continue }
                    // or a sum or product with one
                    for f in 0..3 {
                        self.lo.add(site, with(f, gen::field(c, f) + t - v));
                        let g = gen::field(c, (f + 1 + self.rng.below(2) as usize) % 3);
                        if g > 0 && v % g == 0 && t / g > 0 { self.lo.add(site, with(f, t / g)) }
                        if v > 0 && t > 0 { self.lo.add(site, with(f, gen::field(c, f).saturating_mul(t) / v)) }
                    }
                    tr[1] += 1;
                }
                *n += 1;
            }
        }
        self.corpus.push((i.clone(), pairs));
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o + "\""
}

pub struct Report { pub property: String, pub tier: String, pub seed: u64, pub level: String, pub rule: String, pub assumptions: Vec<String>, pub wall: f64, pub known: Vec<String> }

pub fn write_evidence(s: &Search, r: &Report) -> std::io::Result<()> {
    let st = s.stats.lock().unwrap();
    let dir = verif().join("evidence");
    std::fs::create_dir_all(&dir)?;
    let list = |v: &[String]| v.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n      ");
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ");
    let out = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [\n      {}\n    ],\n    \"per_group\": {{{}}},\n    \"guided_features_and_inputs_kept\": {{{}}},\n    \"classes\": {{{}}},\n    \"inconclusive\": {},\n    \"inconclusive_reasons\": [{}],\n    \"cut_short_by_deadline\": {},\n    \"notes\": [{}],\n    \"known_findings_seen\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.1},\n  \"violations\": {}\n}}\n",
        js(&r.property), js(&r.tier), r.seed, js(&r.level), st.evals, st.distinct.len(), js(&r.rule), list(&st.samples), map(&st.groups), st.guided.iter().map(|(k, v)| format!("{}: [{}, {}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(", "), map(&st.labels),
        st.env, list(&st.env_msgs), st.cut_short, list(&st.notes), list(&r.known), list(&r.assumptions), r.wall, s.found.lock().unwrap().len());
    std::fs::write(dir.join(format!("{}.json", r.property)), out)
}

pub fn write_replay(property: &str, tier: &crate::checks::Tier, f: &Found, spawns: &[Spawn]) -> std::io::Result<std::path::PathBuf> {
    let dir = verif().join("evidence").join("replay");
    std::fs::create_dir_all(&dir)?;
    let p = dir.join(format!("{property}-{:08x}.txt", hash_str(&format!("{}{}", f.group, f.input.to_text())) as u32));
    let mut t = format!("# replay with: /verif/check.sh replay {}\nproperty {property}\nseed {}\ntier {}\ngroup {}\n", p.display(), tier.seed, if tier.thorough { "thorough" } else { "quick" }, f.group);
    t += &f.input.to_text();
    t += &format!("# violates: {}: {}\n# reproduced {}\n", f.cat, f.msg, f.reproduced);
    for s in spawns { t += &format!("# process {} = {} env {:?}\n", s.name, s.bin.display(), s.env.iter().map(|(k, v)| format!("{k}={}", String::from_utf8_lossy(v))).collect::<Vec<_>>()) }
    std::fs::write(&p, t)?;
    Ok(p)
}
