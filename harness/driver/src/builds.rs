//! Build variants of the worker (and of the Miri runner) from /repo's current tree.
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::Instant;

pub fn verif() -> PathBuf { PathBuf::from(std::env::var("MM_VERIF").unwrap_or_else(|_| "/verif".into())) }
pub fn target_root() -> PathBuf { verif().join("target") }

#[derive(Clone, Debug)]
pub struct Variant {
    pub name: String,
    /// dev, release or checked (optimised with debug assertions)
    pub profile: &'static str,
    pub features: Vec<String>,
    pub rustflags: String,
    /// environment of the build (MMTEST_FEATURE, MATMUL_*)
    pub env: Vec<(String, String)>,
    pub nightly_std: bool,
    pub sanitizer: Option<&'static str>,
    /// the crate reports its edges and comparisons
    pub cov: bool,
}

impl Variant {
    pub fn new(name: &str, profile: &'static str, features: &[&str]) -> Variant {
        Variant { name: name.into(), profile, features: features.iter().map(|s| s.to_string()).collect(), rustflags: String::new(), env: vec![], nightly_std: false, sanitizer: None, cov: false }
    }
    pub fn kernel(mut self, k: &str) -> Variant { if !k.is_empty() { self.env.push(("MMTEST_FEATURE".into(), k.into())) } self }
    pub fn var(mut self, k: &str, v: &str) -> Variant { self.env.push((k.into(), v.into())); self }
    pub fn flags(mut self, f: &str) -> Variant { self.rustflags = f.into(); self }
    pub fn asan(mut self) -> Variant { self.sanitizer = Some("address"); self.features.push("plain".into()); self }
    pub fn tsan(mut self) -> Variant { self.sanitizer = Some("thread"); self.nightly_std = true; self.features.push("plain".into()); self }
    pub fn cov(mut self) -> Variant { self.cov = true; self }
    pub fn has_cgemm(&self) -> bool { self.features.iter().any(|f| f == "cgemm") }
    pub fn has_threading(&self) -> bool { self.features.iter().any(|f| f == "threading") }
}

pub fn scrub(c: &mut Command) {
    for (k, _) in std::env::vars_os() {
        let s = k.to_string_lossy().into_owned();
        if s.starts_with("MATMUL_") || s.starts_with("MMTEST") || s.starts_with("MM_CPUID") || s.starts_with("CARGO_PROFILE") || s.starts_with("CARGO_BUILD")
            || ["RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUST_BACKTRACE", "MIRIFLAGS", "CARGO_INCREMENTAL"].contains(&s.as_str())
            || s.starts_with("CARGO_TARGET_X86") { c.env_remove(&k); }
    }
}

pub struct Built { pub v: Variant, pub bin: PathBuf, pub secs: f64 }

/// Ok(Ok) built; Ok(Err) did not compile, with the compiler's output; Err: could not run cargo.
pub fn build(v: &Variant, jobs: usize) -> Result<Result<Built, String>, String> {
    let t0 = Instant::now();
    let td = target_root().join("w").join(&v.name);
    let mut c = Command::new("cargo");
    scrub(&mut c);
    let nightly = v.sanitizer.is_some() || v.nightly_std;
    if nightly { c.arg("+nightly"); }
    c.args(["build", "--offline", "--quiet"]).arg("--manifest-path").arg(verif().join("harness/worker/Cargo.toml"));
    c.arg("--target-dir").arg(&td).arg("-j").arg(jobs.to_string());
    c.arg("--no-default-features");
    let mut dir = match v.profile { "release" => { c.arg("--release"); "release" } "checked" => { c.args(["--profile", "checked"]); "checked" } _ => "debug" }.to_string();
    if !v.features.is_empty() { c.arg("--features").arg(v.features.join(",")); }
    let mut rf = v.rustflags.clone();
    if let Some(s) = v.sanitizer { rf += &format!(" -Zsanitizer={s}"); }
    // reports are collected, not fatal, and the worker marks the gaps of its operands
    if v.sanitizer == Some("address") { rf += " -Zsanitizer-recover=address --cfg mm_asan"; }
    if v.cov { rf += " --cfg mm_cov"; c.env("RUSTC_WRAPPER", verif().join("harness/covwrap.sh")).env("MM_COV_FLAGS", if v.name.contains("-o0") { "-Copt-level=0" } else { "" }); }
    if nightly {
        c.args(["--target", "x86_64-unknown-linux-gnu"]);
        dir = format!("x86_64-unknown-linux-gnu/{dir}");
    }
    if v.nightly_std { c.arg("-Zbuild-std"); }
    if !rf.trim().is_empty() { c.env("RUSTFLAGS", rf.trim()); }
    for (k, x) in &v.env { c.env(k, x); }
    c.env("CARGO_TERM_COLOR", "never");
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let o = c.output().map_err(|e| format!("cargo: {e}"))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).into_owned();
        if o.status.code().is_none() { return Err(format!("cargo was killed: {e}")) }
        return Ok(Err(e));
    }
    Ok(Ok(Built { v: v.clone(), bin: td.join(dir).join("worker"), secs: t0.elapsed().as_secs_f64() }))
}

/// Build several at once.
pub fn build_all(vs: &[Variant]) -> Result<Vec<Result<Built, String>>, String> {
    let jobs = if vs.len() >= 4 { 2 } else { 4 };
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: std::sync::Mutex<Vec<Option<Result<Result<Built, String>, String>>>> = std::sync::Mutex::new((0..vs.len()).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..vs.len().min(8) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= vs.len() { break }
                let r = build(&vs[i], jobs);
                out.lock().unwrap()[i] = Some(r);
            });
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}
