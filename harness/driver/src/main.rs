//! mm-driver <property> | replay <file>
mod builds;
mod checks;
mod constconf;
mod engine;
mod gen;
mod miri;
mod pool;

use checks::Tier;
use engine::*;
use std::process::ExitCode;
use std::time::Instant;

const IDS: [&str; 18] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"];

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |s| s == "thorough");
    let r = match args.first().map(|s| s.as_str()) {
        Some("setup") => Ok(0),
        Some("replay") if args.len() == 2 => replay(&args[1]),
        Some(id) if IDS.contains(&id) && args.len() == 1 => check(IDS[IDS.iter().position(|x| *x == id).unwrap()], Tier { thorough, seed }),
        _ => Err("usage: check.sh <property> | check.sh replay <file>".into()),
    };
    let _ = std::fs::remove_dir_all(builds::target_root().join("tmp"));
    match r { Ok(c) => ExitCode::from(c), Err(e) => { eprintln!("check: {e}"); ExitCode::from(2) } }
}

fn check(id: &'static str, t: Tier) -> Result<u8, String> {
    let t0 = Instant::now();
    let mut p = checks::plan(id, &t).ok_or("no plan")?;
    // for work on the machinery: only builds whose names begin so
    if let Ok(only) = std::env::var("MM_ONLY") { p.variants.retain(|v| v.name.starts_with(&only)); p.extra = None }
    let mut bs = vec![];
    let mut notes = vec![];
    let mut broken = vec![];
    if !p.variants.is_empty() {
        for (v, r) in p.variants.iter().zip(builds::build_all(&p.variants)?) {
            match r {
                Ok(b) => bs.push(b),
                Err(e) => {
                    let first = e.lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join(" / ");
                    if !e.contains("could not compile") || !e.contains("`matrixmultiply`") && !e.contains("`worker`") { return Err(format!("{}: {first}", v.name)) }
                    broken.push((v.clone(), first));
                }
            }
        }
    }
    eprintln!("{id}: {} builds in {:.0} s", bs.len(), t0.elapsed().as_secs_f64());
    let s = Search::new(id, t.seed, if t.thorough { 5400 } else { 240 });
    for (v, e) in &broken {
        eprintln!("{id}: {} did not build: {e}", v.name);
        notes.push(format!("{} did not build: {e}", v.name));
        if p.must_build {
            s.found.lock().unwrap().push(Found {
                group: v.name.clone(), cat: "build".into(), msg: format!("the configuration {v:?} does not build: {e}"), reproduced: "1/1".into(),
                input: Input { op: "build".into(), nums: vec![], strs: vec![], cases: vec![] },
            });
        }
    }
    if bs.is_empty() && !p.variants.is_empty() && !p.must_build { return Err(format!("nothing builds: {}", notes.join("; "))) }
    let groups = (p.groups)(&bs);
    let t1 = Instant::now();
    if s.found.lock().unwrap().is_empty() { s.run(&groups, p.threads) }
    let search = t1.elapsed().as_secs_f64();
    if s.found.lock().unwrap().is_empty() { if let Some(x) = &p.extra { x(&s, &t) } }
    {
        let mut st = s.stats.lock().unwrap();
        st.notes.extend(notes);
        st.notes.push(format!("builds: {}", bs.iter().map(|b| format!("{} {:.0}s", b.v.name, b.secs)).collect::<Vec<_>>().join(", ")));
        st.notes.push(format!("search {search:.0} s, then {:.0} s of further runs", t1.elapsed().as_secs_f64() - search));
    }
    let rep = Report {
        property: id.into(), tier: if t.thorough { "thorough" } else { "quick" }.into(), seed: t.seed, level: p.level.into(), rule: p.rule.clone(),
        assumptions: p.assumptions.iter().map(|s| s.to_string()).collect(), wall: t0.elapsed().as_secs_f64(), known: vec![],
    };
    write_evidence(&s, &rep).map_err(|e| e.to_string())?;
    let st = s.stats.lock().unwrap();
    eprintln!("{id}: {} evaluations, {} distinct non-trivial, {} inconclusive, {:.0} s{}", st.evals, st.distinct.len(), st.env, rep.wall, if st.cut_short { ", cut short" } else { "" });
    for m in &st.env_msgs { eprintln!("  inconclusive: {m}") }
    let found = s.found.lock().unwrap();
    if let Some(f) = found.first() {
        let sp = groups.iter().find(|g| g.name == f.group).map(|g| g.spawns.clone()).unwrap_or_default();
        let path = write_replay(id, &t, f, &sp).map_err(|e| e.to_string())?;
        println!("{}: {} ({})", f.cat, f.msg, f.reproduced);
        println!("input: {}", f.input.brief());
        println!("VIOLATION property={id} replay={}", path.display());
        return Ok(1);
    }
    if st.evals == 0 || st.env > st.evals / 5 { return Err(format!("{} of {} evaluations inconclusive: {:?}", st.env, st.evals + st.env, st.env_msgs)) }
    Ok(0)
}

fn replay(path: &str) -> Result<u8, String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' '))).map(|s| s.to_string());
    let id = field("property").ok_or("no property")?;
    let id = *IDS.iter().find(|x| **x == id).ok_or("unknown property")?;
    let group = field("group").ok_or("no group")?;
    let t = Tier { thorough: field("tier").map_or(false, |x| x == "thorough"), seed: field("seed").and_then(|s| s.parse().ok()).unwrap_or(1) };
    let inp = Input::parse(&text)?;
    println!("{id} {group}: {}", inp.brief());
    let v = if group.starts_with("miri ") { miri::replay(&group, &inp) }
    else if group.starts_with("constconf ") { constconf::replay(&inp) }
    else {
        let p = checks::plan(id, &t).ok_or("no plan")?;
        let mut bs = vec![];
        let mut v = None;
        for (w, r) in p.variants.iter().zip(builds::build_all(&p.variants)?) {
            match r { Ok(b) => bs.push(b), Err(e) if inp.op == "build" && w.name == group => v = Some(bad("build", e)), Err(_) => {} }
        }
        match (v, inp.op == "build") {
            (Some(v), _) => v,
            (None, true) => Verdict::Pass { nontrivial: true },
            (None, false) => {
                let gs = (p.groups)(&bs);
                let g = gs.iter().find(|g| g.name == group).ok_or(format!("no group {group:?}"))?;
                let mut v = Verdict::Env(String::new());
                for _ in 0..10 {
                    let mut c = Ctx::new(&g.spawns);
                    v = (g.check)(&mut c, &inp);
                    if let Verdict::Fail { .. } = v { break }
                }
                v
            }
        }
    };
    match v {
        Verdict::Fail { cat, msg } => { println!("{cat}: {msg}"); println!("VIOLATION property={id} replay={path}"); Ok(1) }
        Verdict::Pass { .. } => { println!("passes"); Ok(0) }
        Verdict::Env(m) => Err(m),
    }
}
