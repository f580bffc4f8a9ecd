//! Calls that never return or end the process.
//!
//! A check runs in a child process. In it, a watchdog ends a case that keeps a thread computing for too long.
//! A child that dies of a signal is run again with every case written to a file before it is tried; the case
//! that was being tried is then confirmed and shrunk in processes of its own.
use crate::case::Case;
use crate::run::{harness_error, report, root, Prop};
use serde_json::Value;
use std::cell::RefCell;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

/// CPU seconds that one case may take; usual cases take milliseconds
const CPU_LIMIT: f64 = 40.0;
const MEMORY: u64 = 12 << 30;

struct Slot {
    case: Mutex<Option<(*const Case, f64)>>,
    clock: libc::clockid_t,
    file: Option<PathBuf>,
}
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}

static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
static LOG: OnceLock<Option<PathBuf>> = OnceLock::new();
thread_local! {
    static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
}
fn cpu(clock: libc::clockid_t) -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
fn slot() -> Arc<Slot> {
    SLOT.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| {
                let mut clock = 0;
                if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) } != 0 {
                    harness_error("no CPU clock");
                }
                let mut all = SLOTS.lock().unwrap();
                let file = LOG.get().cloned().flatten().map(|d| d.join(format!("case{}", all.len())));
                let s = Arc::new(Slot { case: Mutex::new(None), clock, file });
                all.push(s.clone());
                s
            })
            .clone()
    })
}
/// `f` is about `case`; calls within it do not count separately.
pub fn watch<T>(case: &Case, f: impl FnOnce() -> T) -> T {
    let s = slot();
    if s.case.lock().unwrap().is_some() {
        return f();
    }
    if let Some(p) = &s.file {
        let _ = std::fs::write(p, case.to_json().to_string());
    }
    *s.case.lock().unwrap() = Some((case, cpu(s.clock)));
    struct Clear(Arc<Slot>);
    impl Drop for Clear {
        fn drop(&mut self) {
            // the watchdog reads the case while it holds the lock
            *self.0.case.lock().unwrap() = None;
            if let Some(p) = &self.0.file {
                let _ = std::fs::remove_file(p);
            }
        }
    }
    let _c = Clear(s);
    f()
}
/// In the child: reports a case that does not come to an end.
fn watchdog(p: &Prop, replay: bool) {
    let (id, level) = (p.id, p.level);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for s in SLOTS.lock().unwrap().iter() {
            let c = s.case.lock().unwrap();
            let Some((case, since)) = *c else { continue };
            if cpu(s.clock) - since > CPU_LIMIT {
                let case = unsafe { (*case).clone() };
                let m = format!("does not come to an end ({CPU_LIMIT} s of computing)");
                if replay {
                    println!("VIOLATION property={id} replay=-\n  {m}");
                } else {
                    report(id, &case, &m);
                    evidence(id, level, "a case did not come to an end");
                }
                let _ = std::io::Write::flush(&mut std::io::stdout());
                crate::sut::cleanup();
                unsafe { libc::_exit(1) };
            }
        }
    });
}
fn evidence(id: &str, level: &str, why: &str) {
    let cov = serde_json::json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": format!("the run was cut short: {why}"), "samples": []});
    crate::run::write_evidence(id, level, cov, &[], 0.0, 1);
}
fn spawn(args: &[String], log: Option<&PathBuf>, quiet: bool) -> (Option<i32>, Option<i32>) {
    let mut c = Command::new(std::env::current_exe().unwrap_or_else(|e| harness_error(&e.to_string())));
    c.args(args).env("VERIF_CHILD", "1");
    if let Some(d) = log {
        c.env("VERIF_LOG", d);
    }
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    unsafe {
        c.pre_exec(|| {
            // no core files; a case that takes all memory ends in an abort
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            // (compilers started by the child lift the limit for themselves)
            let mut m = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_AS, &mut m);
            m.rlim_cur = MEMORY.min(m.rlim_max);
            libc::setrlimit(libc::RLIMIT_AS, &m);
            Ok(())
        });
    }
    let mut ch = c.spawn().unwrap_or_else(|e| harness_error(&format!("child: {e}")));
    let pid = ch.id();
    let s = ch.wait().unwrap_or_else(|e| harness_error(&format!("wait: {e}")));
    if s.signal().is_some() {
        crate::sut::cleanup_of(pid);
    }
    (s.code(), s.signal())
}
fn dies(id: &str, case: &Case, dir: &PathBuf) -> Option<i32> {
    let f = dir.join("candidate.json");
    std::fs::write(&f, case.to_json().to_string()).unwrap_or_else(|e| harness_error(&e.to_string()));
    spawn(&["replay".into(), id.into(), f.to_string_lossy().into()], None, true).1
}
/// Runs the command in a child process, and finds the case if the child dies of it.
pub fn parent(p: &Prop, args: &[String]) -> i32 {
    let (code, signal) = spawn(args, None, false);
    let Some(sig) = signal else { return code.unwrap_or(3) };
    if matches!(sig, libc::SIGINT | libc::SIGTERM | libc::SIGHUP) {
        harness_error(&format!("ended by signal {sig}"));
    }
    if args[0] == "replay" {
        println!("VIOLATION property={} replay={}\n  ends the process with signal {sig}", p.id, args[2]);
        return 1;
    }
    let dir = crate::sut::scratch();
    let _ = spawn(args, Some(&dir), true);
    let mut cases: Vec<Case> = vec![];
    for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with("case") {
            let t = std::fs::read_to_string(e.path()).unwrap_or_default();
            if let Ok(c) = serde_json::from_str::<Value>(&t).map_err(|e| e.to_string()).and_then(|v| Case::from_json(&v)) {
                cases.push(c);
            }
        }
    }
    cases.sort_by_key(|c| c.sample.size());
    let Some(mut case) = cases.into_iter().find(|c| dies(p.id, c, &dir).is_some()) else {
        crate::sut::cleanup();
        harness_error(&format!("the check ended by signal {sig}, and no case was found to cause it"));
    };
    let t0 = Instant::now();
    'outer: while t0.elapsed() < Duration::from_secs(60) {
        for c in case.shrinks() {
            if t0.elapsed() > Duration::from_secs(60) {
                break 'outer;
            }
            if dies(p.id, &c, &dir).is_some() {
                case = c;
                continue 'outer;
            }
        }
        break;
    }
    report(p.id, &case, &format!("ends the process with signal {sig}"));
    evidence(p.id, p.level, "a case ended the process");
    crate::sut::cleanup();
    1
}
/// Called in the child.
pub fn child(p: &Prop, replay: bool) {
    let _ = root();
    LOG.set(std::env::var_os("VERIF_LOG").map(PathBuf::from)).ok();
    watchdog(p, replay);
}
