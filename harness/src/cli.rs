//! Runs the command line binary built from /repo's source.
use crate::run::{harness_error, root};
use std::ffi::OsString;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub fn binary() -> PathBuf {
    root().join("target/debug/json_typegen")
}
/// Unwinds out of a check whose case cannot be carried out.
pub struct Skip(pub &'static str);
pub enum Stdin {
    Null,
    Bytes(Vec<u8>),
    /// pieces, written one by one; then end of file
    Pieces(Vec<Vec<u8>>),
}
#[derive(Debug, Clone)]
pub struct Run {
    /// exit code; None = ended by a signal
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
    pub timed_out: bool,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn show(&self) -> String {
        let cut = |s: &str| s.chars().take(600).collect::<String>();
        format!("status {:?}{}\n--- stdout\n{}\n--- stderr\n{}", self.code, if self.timed_out { " (did not finish, killed)" } else { "" }, cut(&String::from_utf8_lossy(&self.out)), cut(&self.err))
    }
}
pub const LIMIT: Duration = Duration::from_secs(60);

pub fn run(args: &[OsString], stdin: Stdin, cwd: &Path) -> Run {
    run_with(binary().as_os_str(), args, stdin, cwd, Stdio::piped())
}
pub fn run_with(program: &std::ffi::OsStr, args: &[OsString], stdin: Stdin, cwd: &Path, stdout: Stdio) -> Run {
    // the system takes no longer argument
    if args.iter().any(|a| a.len() > 131_000) {
        std::panic::resume_unwind(Box::new(Skip("argument too long for the system")));
    }
    let mut c = Command::new(program);
    c.args(args).current_dir(cwd).stdout(stdout).stderr(Stdio::piped());
    for v in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "RUST_BACKTRACE"] {
        c.env_remove(v);
    }
    c.stdin(if matches!(stdin, Stdin::Null) { Stdio::null() } else { Stdio::piped() });
    let mut ch: Child = c.spawn().unwrap_or_else(|e| harness_error(&format!("{}: {e}", program.to_string_lossy())));
    let sin = ch.stdin.take();
    let sout = ch.stdout.take();
    let mut serr = ch.stderr.take().unwrap();
    let w = std::thread::spawn(move || {
        let Some(mut s) = sin else { return };
        match stdin {
            Stdin::Null => {}
            Stdin::Bytes(b) => {
                let _ = s.write_all(&b);
            }
            Stdin::Pieces(v) => {
                for (i, p) in v.iter().enumerate() {
                    if s.write_all(p).and_then(|_| s.flush()).is_err() {
                        return;
                    }
                    pause(i);
                }
            }
        }
    });
    let (tx, rx) = mpsc::channel();
    let o = std::thread::spawn(move || {
        let mut b = vec![];
        if let Some(mut s) = sout {
            let _ = s.read_to_end(&mut b);
        }
        let _ = tx.send(());
        b
    });
    let e = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = serr.read_to_end(&mut b);
        b
    });
    let t0 = Instant::now();
    let mut timed_out = false;
    let _ = rx.recv_timeout(LIMIT);
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if t0.elapsed() > LIMIT => {
                timed_out = true;
                let _ = ch.kill();
                break ch.wait().unwrap_or_else(|e| harness_error(&format!("wait: {e}")));
            }
            Ok(None) => std::thread::sleep(Duration::from_micros(300)),
            Err(e) => harness_error(&format!("wait: {e}")),
        }
    };
    let out = o.join().unwrap_or_default();
    let err = String::from_utf8_lossy(&e.join().unwrap_or_default()).into_owned();
    let _ = w.join();
    Run { code: if timed_out { None } else { status.code() }, out, err, timed_out }
}
/// A short break after some pieces, so that they arrive in separate reads.
pub fn pause(i: usize) {
    if i < 6 {
        std::thread::sleep(Duration::from_micros(150));
    } else {
        std::thread::yield_now();
    }
}
/// An empty directory of the calling thread.
pub fn dir() -> PathBuf {
    let t = format!("{:?}", std::thread::current().id());
    let d = crate::sut::scratch().join(format!("d{}", t.chars().filter(|c| c.is_ascii_digit()).collect::<String>()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap_or_else(|e| harness_error(&format!("{}: {e}", d.display())));
    d
}
/// Everything below `d`: relative path -> content (None for what is no regular file)
pub fn listing(d: &Path) -> std::collections::BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut m = std::collections::BTreeMap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(x) = todo.pop() {
        for e in std::fs::read_dir(&x).into_iter().flatten().flatten() {
            let p = e.path();
            let t = e.file_type().unwrap();
            if t.is_dir() {
                todo.push(p.clone());
            }
            m.insert(p.strip_prefix(d).unwrap().to_path_buf(), if t.is_file() { Some(std::fs::read(&p).unwrap_or_default()) } else { None });
        }
    }
    m
}
