//! A worker process.
use std::io::{BufRead, BufReader, Read, Seek, SeekFrom, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
    /// key=value pairs
    Ok(String),
    /// category, message
    Fail(String, String),
    /// the process ended by itself: description
    Died(String),
    Hang(u64),
    /// not the code's doing
    Env(String),
}

impl Reply {
    pub fn get(&self, key: &str) -> Option<&str> {
        match self { Reply::Ok(s) => s.split_whitespace().find_map(|t| t.split_once('=').filter(|x| x.0 == key).map(|x| x.1)), _ => None }
    }
    pub fn num(&self, key: &str) -> i64 { self.get(key).and_then(|x| x.parse().ok()).unwrap_or(-1) }
}

pub struct Worker {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: Receiver<String>,
    err: std::fs::File,
    pub served: usize,
}

#[derive(Clone, Debug)]
pub struct Spawn { pub bin: PathBuf, pub env: Vec<(String, Vec<u8>)>, pub name: String }

impl Worker {
    pub fn start(s: &Spawn) -> Result<Worker, String> { Self::start_cmd(&s.bin, &[], &s.env) }

    pub fn start_cmd(bin: &Path, args: &[String], env: &[(String, Vec<u8>)]) -> Result<Worker, String> {
        let mut c = Command::new(bin);
        crate::builds::scrub(&mut c);
        c.args(args);
        for (k, v) in env { use std::os::unix::ffi::OsStrExt; c.env(k, std::ffi::OsStr::from_bytes(v)); }
        let dir = crate::builds::target_root().join("tmp");
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let p = dir.join(format!("err-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        let err = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(&p).map_err(|e| e.to_string())?;
        let _ = std::fs::remove_file(&p);
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::from(err.try_clone().map_err(|e| e.to_string())?));
        unsafe { c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
        let mut child = c.spawn().map_err(|e| format!("spawn {}: {e}", bin.display()))?;
        let stdin = child.stdin.take();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() { break }
            }
        });
        Ok(Worker { child, stdin, rx, err, served: 0 })
    }

    fn stderr_text(&mut self) -> String {
        let mut s = vec![];
        let n = self.err.seek(SeekFrom::End(0)).unwrap_or(0);
        let _ = self.err.seek(SeekFrom::Start(n.saturating_sub(6000)));
        let _ = Read::by_ref(&mut self.err).take(6000).read_to_end(&mut s);
        String::from_utf8_lossy(&s).replace('\n', " / ")
    }

    fn died(&mut self) -> Reply {
        let st = self.child.wait();
        let e = self.stderr_text();
        match st {
            Ok(s) if s.signal() == Some(libc::SIGKILL) => Reply::Env("worker was killed".into()),
            Ok(s) => Reply::Died(match s.signal() { Some(x) => format!("killed by signal {x}: {e}"), None => format!("exit code {}: {e}", s.code().unwrap_or(-1)) }),
            Err(e) => Reply::Env(e.to_string()),
        }
    }

    /// Send one operation and wait for its reply.
    pub fn call(&mut self, line: &str, secs: u64) -> Reply {
        self.served += 1;
        let w = self.stdin.as_mut().map(|i| i.write_all(line.as_bytes()).and_then(|_| i.write_all(b"\n")).and_then(|_| i.flush()));
        if !matches!(w, Some(Ok(()))) {
            // it died before; a pending line explains why
            if let Ok(l) = self.rx.recv_timeout(Duration::from_secs(2)) { return parse(&l) }
            return self.died();
        }
        match self.rx.recv_timeout(Duration::from_secs(secs)) {
            Ok(l) => parse(&l),
            Err(RecvTimeoutError::Disconnected) => self.died(),
            Err(RecvTimeoutError::Timeout) => Reply::Hang(secs),
        }
    }
}

impl Drop for Worker {
    fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); }
}

fn parse(l: &str) -> Reply {
    if let Some(s) = l.strip_prefix("ok") { return Reply::Ok(s.trim().to_string()) }
    if let Some(s) = l.strip_prefix("fail ") {
        let (a, b) = s.split_once(' ').unwrap_or((s, ""));
        if a == "env" { return Reply::Env(b.into()) }
        return Reply::Fail(a.into(), b.into());
    }
    if l == "nocpuid" { return Reply::Env("nocpuid".into()) }
    Reply::Env(format!("unexpected reply {l:?}"))
}
