//! Pools of helper processes (TypeScript compiler and zod in Node, jsonschema and models in Python).
use crate::run::{harness_error, root};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Mutex, OnceLock};

struct Proc {
    _child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}
pub struct Pool {
    cmd: Vec<String>,
    procs: Vec<Mutex<Option<Proc>>>,
}
impl Pool {
    fn new(cmd: Vec<String>) -> Pool {
        Pool { cmd, procs: (0..8).map(|_| Mutex::new(None)).collect() }
    }
    fn spawn(&self) -> Proc {
        let mut c = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| harness_error(&format!("{:?}: {e}", self.cmd)));
        let stdin = c.stdin.take().unwrap();
        let stdout = BufReader::new(c.stdout.take().unwrap());
        Proc { _child: c, stdin, stdout }
    }
    fn ask(&self, i: usize, req: &Value) -> Vec<Value> {
        let mut g = self.procs[i].lock().unwrap_or_else(|e| e.into_inner());
        let p = g.get_or_insert_with(|| self.spawn());
        let mut line = String::new();
        let r = writeln!(p.stdin, "{req}").and_then(|_| p.stdin.flush()).and_then(|_| p.stdout.read_line(&mut line));
        if r.is_err() || line.is_empty() {
            harness_error(&format!("helper {:?} died", self.cmd));
        }
        let v: Value = serde_json::from_str(&line).unwrap_or_else(|e| harness_error(&format!("helper output: {e}")));
        match v {
            Value::Array(a) => a,
            v => harness_error(&format!("helper {:?}: {}", self.cmd, v["error"].as_str().unwrap_or(&v.to_string()))),
        }
    }
    /// One case, on the process of this thread.
    pub fn one(&self, i: usize, case: Value) -> Value {
        self.ask(i % self.procs.len(), &json!({"cases": [case]})).into_iter().next().unwrap_or_else(|| harness_error("helper answered incompletely"))
    }
    /// Decides all cases, spread over the processes.
    pub fn call(&self, kind: &str, cases: &[Value]) -> Vec<Value> {
        if cases.is_empty() {
            return vec![];
        }
        let per = cases.len().div_ceil(self.procs.len()).clamp(1, 250);
        let chunks: Vec<&[Value]> = cases.chunks(per).collect();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out: Mutex<Vec<Option<Vec<Value>>>> = Mutex::new(vec![None; chunks.len()]);
        std::thread::scope(|s| {
            for t in 0..self.procs.len().min(chunks.len()) {
                let (chunks, next, out) = (&chunks, &next, &out);
                s.spawn(move || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= chunks.len() {
                        break;
                    }
                    let r = self.ask(t, &json!({"kind": kind, "cases": chunks[i]}));
                    if r.len() != chunks[i].len() {
                        harness_error("helper answered incompletely");
                    }
                    out.lock().unwrap()[i] = Some(r);
                });
            }
        });
        out.into_inner().unwrap().into_iter().flat_map(|x| x.unwrap()).collect()
    }
}
pub fn node() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| Pool::new(vec!["node".into(), root().join("node/worker.js").display().to_string()]))
}
pub fn python() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| Pool::new(vec!["python3-vt".into(), root().join("py/worker.py").display().to_string()]))
}
pub fn web() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| Pool::new(vec![root().join("target/debug/web_rig").display().to_string()]))
}
