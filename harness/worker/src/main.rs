//! Performs single gemm operations described on stdin, one per line, and judges them.
//! Reply: `ok key=value...` or `fail <category> <message>`.
mod alloc;
#[cfg(mm_asan)]
mod asan;
mod conc;
#[cfg(mm_cov)]
mod cov;
#[cfg(not(feature = "plain"))]
mod dispatch;
mod exec;
mod laws;
mod regions;

use exec::{fail, Fail, Info};
use mmcase::Case;
use std::io::{BufRead, Write};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;

#[cfg(not(feature = "plain"))]
#[global_allocator]
static GLOBAL: alloc::Guarded = alloc::Guarded;

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

#[cfg(not(feature = "plain"))]
mod faults {
    use super::*;
    struct Buf { b: [u8; 256], n: usize }
    impl std::fmt::Write for Buf {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for &x in s.as_bytes() { if self.n < self.b.len() { self.b[self.n] = x; self.n += 1 } }
            Ok(())
        }
    }
    extern "C" fn on_fault(sig: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
        unsafe {
            let uc = &mut *(uc as *mut libc::ucontext_t);
            if sig == libc::SIGSEGV && dispatch::emulate_cpuid(uc) { return }
            let addr = (*info).si_addr() as usize;
            if REACHING.load(SeqCst) && sig == libc::SIGSEGV && !alloc::owns(addr) && addr > 1 << 20 {
                let mut b = Buf { b: [0; 256], n: 0 };
                use std::fmt::Write as _;
                let _ = write!(b, "ok outcome=reached peak={} count={} live=0\n", alloc::PEAK.load(SeqCst) - REACH_BASE.load(SeqCst), alloc::COUNT.load(SeqCst));
                libc::write(1, b.b.as_ptr() as *const _, b.n);
                libc::_exit(0);
            }
            let g = &uc.uc_mcontext.gregs;
            let what = if g[libc::REG_ERR as usize] & 16 != 0 { "exec" } else if g[libc::REG_ERR as usize] & 2 != 0 { "write" } else { "read" };
            let mut b = Buf { b: [0; 256], n: 0 };
            use std::fmt::Write as _;
            let mut place = None;
            for r in regions::REG.iter() {
                let (s, l) = (r.0.load(SeqCst), r.1.load(SeqCst));
                if s != 0 && addr >= s && addr < s + l { place = Some((r.2.load(SeqCst) as u8 as char, addr - s)) }
            }
            let _ = match (sig, place) {
                (libc::SIGSEGV, Some((k, o))) => write!(b, "fail {what}:{k} access outside what may be touched, at byte {o} of the region of {k}\n"),
                (libc::SIGSEGV, None) if alloc::owns(addr) => write!(b, "fail {what}:W access just outside a heap allocation made by the call\n"),
                (libc::SIGSEGV, None) => write!(b, "fail {what}:? stray access at {addr:#x}\n"),
                (libc::SIGBUS, _) => write!(b, "fail {what}:? bus error\n"),
                (libc::SIGILL, _) => write!(b, "fail isa illegal instruction\n"),
                _ => write!(b, "fail signal {sig}\n"),
            };
            libc::write(1, b.b.as_ptr() as *const _, b.n);
            libc::_exit(9);
        }
    }
    pub fn install() {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_fault as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] { libc::sigaction(s, &sa, std::ptr::null_mut()); }
        }
    }
}

/// A call whose operands lie in inaccessible memory, in a process of its own: everything up to
/// the first access to them.
static REACHING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static REACH_BASE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
#[cfg(not(feature = "plain"))]
fn reach(s: &str) -> Result<String, Fail> {
    // (the thread pool is made on first use)
    exec::run(&case("ty=s m=256 k=260 n=4 alpha=1,0,0 beta=0,0,0 a=260,1,0,0 b=4,1,0,0 c=4,1,0,0 mode=e seed=1")?)?;
    let c = case(s)?;
    unsafe {
        let base = libc::mmap(std::ptr::null_mut(), 3 << 30, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if base == libc::MAP_FAILED { return fail("env", "mmap") }
        let at = |i: usize| (base as *mut u8).wrapping_add((i << 30) + (1 << 29));
        REACH_BASE.store(alloc::LIVE.load(SeqCst), SeqCst);
        REACHING.store(true, SeqCst);
        let i = exec::armed(|| exec::catching(|| exec::raw_call(&c, at(0), at(1), at(2))));
        REACHING.store(false, SeqCst);
        i.map(|i| format!("outcome=returned peak={} count={} live={}", i.peak, i.count, i.live))
    }
}

fn threads() -> usize { std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0) }

fn runtimes() -> Vec<(u64, u64)> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            let tid = e.file_name().to_string_lossy().parse().unwrap_or(0);
            let s = std::fs::read_to_string(e.path().join("schedstat")).unwrap_or_default();
            v.push((tid, s.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0)));
        }
    }
    v
}

fn case(s: &str) -> Result<Case, Fail> { Case::parse(s).map_err(|m| Fail { cat: "env", msg: format!("parse: {m}") }) }

fn show(i: &Info) -> String { format!("hash={:016x} peak={} live={} count={}", i.hash, i.peak, i.live, i.count) }

fn perform(line: &str) -> Result<String, Fail> {
    let (op, rest) = line.split_once(' ').unwrap_or((line, ""));
    match op {
        "ping" => Ok(format!("threads={}", threads())),
        // what was reached since the last time this was asked
        #[cfg(mm_cov)]
        "feat" => {
            static SEEN: Mutex<Option<cov::Seen>> = Mutex::new(None);
            let mut s = SEEN.lock().unwrap();
            let s = s.get_or_insert_with(Default::default);
            let (new, near, mut pairs) = s.look();
            pairs.sort_by_key(|p| mmcase::mix(p.0 as u64 ^ (p.1 ^ p.2.rotate_left(32)) as u64));
            pairs.truncate(if new + near == 0 { 0 } else { 600 });
            Ok(format!("new={new} near={near} total={} pairs={}", s.total, pairs.iter().map(|p| format!("{}:{}:{}", p.0, p.1, p.2)).collect::<Vec<_>>().join(",")))
        }
        // one call
        "run" => exec::run(&case(rest)?).map(|i| show(&i)),
        // one call; the result also hashed without its power-of-two unit
        "runs" => exec::run(&case(rest)?).map(|i| format!("{} shash={:016x}", show(&i), i.shash)),
        // a call that ought to be refused
        "refuse" => {
            let p = exec::Prep::new(&case(rest)?)?;
            let (a, b, cp) = p.pointers();
            match exec::armed(|| exec::catching(|| unsafe { exec::raw_call(&p.c, a, b, cp) })) {
                Ok(_) => { p.judge()?; Ok("outcome=computed".into()) }
                Err(f) if f.cat == "panic" => if p.untouched() { Ok("outcome=panicked".into()) } else { fail("touched", format!("panicked ({}) after writing", f.msg)) },
                Err(f) => Err(f),
            }
        }
        // one call, and the number of threads of the process after it
        "runn" => { let i = exec::run(&case(rest)?)?; Ok(format!("{} threads={}", show(&i), threads())) }
        // one call on a fresh thread with a small stack
        "runt" => {
            let c = case(rest)?;
            let h = std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
                let p = exec::Prep::new(&c)?;
                let (a, b, cp) = p.pointers();
                let mut i = exec::armed(|| exec::catching(|| unsafe { exec::raw_call(&c, a, b, cp) }))?;
                i.hash = p.judge()?;
                Ok(i)
            });
            let h = h.map_err(|e| Fail { cat: "env", msg: e.to_string() })?;
            h.join().unwrap_or_else(|_| fail("panic", "thread died")).map(|i: Info| show(&i))
        }
        // one call by a thread that is ending: after the thread-local values it used before are gone
        "runx" => {
            let c = case(rest)?;
            let slot = std::sync::Arc::new(std::sync::Mutex::new(None));
            let to = slot.clone();
            let h = std::thread::Builder::new().spawn(move || {
                LAST_ACT.with(|l| l.borrow_mut().0 = Some(Box::new({
                    let c = c.clone();
                    move || { let r = exec::run(&c); if let Ok(mut s) = to.lock() { *s = Some(r) } }
                })));
                exec::run(&c).map(|_| ())
            });
            let h = h.map_err(|e| Fail { cat: "env", msg: e.to_string() })?;
            h.join().unwrap_or_else(|_| fail("panic", "thread died"))?;
            let r = slot.lock().ok().and_then(|mut s| s.take());
            r.unwrap_or_else(|| fail("env", "the ending thread made no call")).map(|i| show(&i))
        }
        // how many threads took part in a call (the second of two)
        "part" => {
            let c = case(rest)?;
            exec::run(&c)?;
            let p = exec::Prep::new(&c)?;
            let (a, b, cp) = p.pointers();
            let before = runtimes();
            let mut calls = Ok(());
            exec::catching(|| for _ in 0..if c.beta_is_zero() { 3 } else { 1 } { unsafe { exec::raw_call(&c, a, b, cp) } }).unwrap_or_else(|e| calls = Err(e));
            let after = runtimes();
            calls?;
            let h = p.judge()?;
            let me = unsafe { libc::syscall(libc::SYS_gettid) } as u64;
            let part = 1 + after.iter().filter(|(t, r)| *t != me && before.iter().find(|b| b.0 == *t).map_or(0, |b| b.1) != *r).count();
            Ok(format!("hash={h:016x} part={part} threads={}", threads()))
        }
        // growth of live memory over repeated calls: leak <reps> <case>
        "leak" => {
            let (reps, rest) = rest.split_once(' ').unwrap_or(("2", ""));
            let reps: usize = reps.parse().unwrap_or(2);
            let c = case(rest)?;
            let mut lives = vec![];
            let mut peak = 0;
            for _ in 0..reps { let i = exec::run(&c)?; lives.push(i.live); peak = peak.max(i.peak) }
            let late: i64 = lives[reps / 2..].iter().sum();
            Ok(format!("first={} late={late} peak={peak}", lives[0]))
        }
        // the same call over and over, with the same memory: many <reps> <case>
        "many" => {
            let (reps, rest) = rest.split_once(' ').unwrap_or(("2", ""));
            let reps: usize = reps.parse().unwrap_or(2);
            let c = case(rest)?;
            let p = exec::Prep::new(&c)?;
            let (a, b, cp) = p.pointers();
            let mut first: Option<Vec<Vec<u8>>> = None;
            for i in 0..reps {
                if i > 0 && (!c.beta_is_zero() || i % 64 == 1) { p.rewind() }
                exec::catching(|| unsafe { exec::raw_call(&c, a, b, cp) })?;
                match &first {
                    None => first = Some(p.result()),
                    Some(f) => if let Some(m) = p.drift(f) { return fail("drift", format!("call {} of the same call over and over: {m}", i + 1)) },
                }
            }
            Ok(format!("hash={:016x}", p.judge()?))
        }
        // a call up to its first access to A, B or C
        #[cfg(not(feature = "plain"))]
        "reach" => {
            use std::process::{Command, Stdio};
            let me = std::env::current_exe().map_err(|e| Fail { cat: "env", msg: e.to_string() })?;
            let o = Command::new(me).arg("reach").arg(rest).stdin(Stdio::null()).stderr(Stdio::null()).output().map_err(|e| Fail { cat: "env", msg: e.to_string() })?;
            let t = String::from_utf8_lossy(&o.stdout).trim().to_string();
            if let Some(x) = t.strip_prefix("ok ") { return Ok(x.to_string()) }
            if let Some(x) = t.strip_prefix("fail ") {
                let (cat, msg) = x.split_once(' ').unwrap_or((x, ""));
                return Err(Fail { cat: if cat == "env" { "env" } else if cat == "panic" { "panic" } else { "reach" }, msg: format!("{cat}: {msg}") });
            }
            use std::os::unix::process::ExitStatusExt;
            if o.status.signal() == Some(libc::SIGKILL) { return fail("env", "child killed") }
            if o.status.signal() == Some(libc::SIGABRT) { return fail("reach", "the call aborted before it looked at its operands") }
            fail("reach", format!("the process died ({}) {t}", o.status))
        }
        // injected allocation failure, in a child: afail <nth> <case>
        #[cfg(not(feature = "plain"))]
        "afail" => {
            let (nth, rest) = rest.split_once(' ').unwrap_or(("0", ""));
            let nth: i64 = nth.parse().unwrap_or(0);
            afail(nth, &case(rest)?)
        }
        "law" => {
            let (name, rest) = rest.split_once(' ').unwrap_or((rest, ""));
            let c = case(rest)?;
            let r = std::panic::catch_unwind(|| laws::law(name, &c));
            match r { Ok(r) => r.map(|_| String::new()), Err(_) => fail("panic", LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default()) }
        }
        // conc <reps> case | case | ...
        "conc" => {
            let (reps, rest) = rest.split_once(' ').unwrap_or(("1", ""));
            let cs: Vec<Case> = rest.split('|').map(case).collect::<Result<_, _>>()?;
            let h = conc::separate(&cs, reps.parse().unwrap_or(1))?;
            Ok(format!("hash={h:016x} threads={}", threads()))
        }
        // conci <threads> <reps> case
        "conci" => {
            let mut it = rest.splitn(3, ' ');
            let t = it.next().and_then(|x| x.parse().ok()).unwrap_or(2);
            let reps = it.next().and_then(|x| x.parse().ok()).unwrap_or(1);
            let h = conc::interleaved(&case(it.next().unwrap_or(""))?, t, reps)?;
            Ok(format!("hash={h:016x} threads={}", threads()))
        }
        // step <level> <case>: every instruction of the call is looked at
        #[cfg(not(feature = "plain"))]
        "step" => {
            let (level, rest) = rest.split_once(' ').unwrap_or(("full", ""));
            let allowed = match dispatch::level_mask(level) { Some(m) => dispatch::allowed(m), None => return fail("env", "level") };
            let c = case(rest)?;
            let p = exec::Prep::new(&c)?;
            let (a, b, cp) = p.pointers();
            let mut seen = None;
            exec::catching(|| seen = Some(dispatch::monitor(allowed, || unsafe { exec::raw_call(&c, a, b, cp) })))?;
            let s = seen.unwrap()?;
            let h = p.judge()?;
            Ok(format!("hash={h:016x} steps={} exe={} isa={} cpuids={}", s.steps, s.in_exe, dispatch::names(s.seen), dispatch::cpuid_count()))
        }
        _ => fail("env", format!("unknown operation {op}")),
    }
}

#[cfg(not(feature = "plain"))]
fn afail(nth: i64, c: &Case) -> Result<String, Fail> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 { return fail("env", "pipe") }
        let pid = libc::fork();
        if pid < 0 { return fail("env", "fork") }
        if pid == 0 {
            // everything the child prints goes to the pipe
            libc::dup2(fds[1], 1);
            libc::dup2(fds[1], 2);
            libc::close(fds[0]);
            let _ = std::panic::take_hook();
            alloc::FAIL_AT.store(nth, SeqCst);
            let r = exec::run(c);
            alloc::FAIL_AT.store(-1, SeqCst);
            let hit = alloc::FAILED.load(SeqCst) > 0;
            match r {
                Ok(_) => libc::_exit(if hit { 11 } else { 10 }),
                Err(e) => { println!("fail {} {}", e.cat, e.msg); std::io::stdout().flush().ok(); libc::_exit(if e.cat == "env" { 13 } else if e.cat == "panic" { 14 } else { 12 }) }
            }
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 { break }
            if out.len() < 1 << 16 { out.extend_from_slice(&buf[..n as usize]) }
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let text = String::from_utf8_lossy(&out).replace('\n', " / ");
        if libc::WIFEXITED(st) {
            return match libc::WEXITSTATUS(st) {
                10 => Ok("outcome=nofailure".into()),
                11 => Ok("outcome=survived".into()),
                13 => fail("env", text),
                14 => Ok("outcome=panicked".into()),
                9 => fail("afail", format!("allocation {nth} failed and the call then faulted: {text}")),
                x => fail("afail", format!("allocation {nth} failed and the call went on to a wrong result (exit {x}): {text}")),
            };
        }
        if libc::WTERMSIG(st) == libc::SIGABRT { return Ok("outcome=aborted".into()) }
        if libc::WTERMSIG(st) == libc::SIGKILL { return fail("env", "child killed") }
        fail("afail", format!("allocation {nth} failed and the process died of signal {}: {text}", libc::WTERMSIG(st)))
    }
}

/// Acts when its thread ends.
struct LastAct(Option<Box<dyn FnOnce()>>);
impl Drop for LastAct { fn drop(&mut self) { if let Some(f) = self.0.take() { f() } } }
thread_local! { static LAST_ACT: std::cell::RefCell<LastAct> = const { std::cell::RefCell::new(LastAct(None)) } }

fn main() {
    #[cfg(mm_asan)]
    asan::install();
    #[cfg(not(feature = "plain"))]
    {
        faults::install();
        if let Ok(l) = std::env::var("MM_CPUID") {
            let m = dispatch::level_mask(&l).expect("MM_CPUID");
            if !dispatch::restrict(m) { println!("nocpuid"); return }
        }
    }
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut s) = LAST_PANIC.lock() { *s = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default() }
    }));
    #[cfg(not(feature = "plain"))]
    {
        let mut a = std::env::args();
        if a.nth(1).as_deref() == Some("reach") {
            match reach(&a.next().unwrap_or_default()) {
                Ok(s) => println!("ok {s}"),
                Err(f) => println!("fail {} {}", f.cat, f.msg.replace('\n', " ")),
            }
            return;
        }
    }
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let line = line.trim();
        if line.is_empty() { continue }
        let reply = match perform(line) {
            Ok(s) => format!("ok {s}"),
            Err(f) => format!("fail {} {}", f.cat, f.msg.replace('\n', " ")),
        };
        if writeln!(out, "{reply}").and_then(|_| out.flush()).is_err() { break }
    }
}
