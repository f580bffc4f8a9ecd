//! Compiles and runs batches of generated Rust code with the real compiler, serde and serde_json.
use crate::run::{harness_error, root};
use serde_json::Value;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct Module {
    /// items of the module; must define `root`
    pub code: String,
    /// the root type's path, or '=' and the body of the function that handles one text `s`
    pub root: String,
    pub edition: u32,
    /// files beside the source
    pub files: Vec<(String, String)>,
    /// JSON texts (without line breaks) to deserialise and serialise again
    pub ops: Vec<String>,
}
#[derive(Clone, Debug)]
pub enum Outcome {
    Compile(String),
    Ran(Vec<Result<String, String>>),
}

fn rt_name() -> String {
    std::env::var("VERIF_RT").unwrap_or("rt".into())
}
fn externs() -> &'static Vec<(String, String)> {
    static E: OnceLock<Vec<(String, String)>> = OnceLock::new();
    E.get_or_init(|| {
        let f = root().join(format!("target/{}.json", rt_name()));
        let t = std::fs::read_to_string(&f).unwrap_or_else(|e| harness_error(&format!("{}: {e}", f.display())));
        let mut m = BTreeMap::new();
        for l in t.lines() {
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let n = v["target"]["name"].as_str().unwrap_or("").to_string();
            if ["serde", "serde_derive", "serde_json", "rt", "json_typegen"].contains(&n.as_str()) {
                for p in v["filenames"].as_array().unwrap() {
                    let p = p.as_str().unwrap();
                    if p.ends_with(".rlib") || p.ends_with(".so") {
                        m.insert(n.clone(), p.to_string());
                    }
                }
            }
        }
        for n in ["serde", "serde_derive", "serde_json", "rt"] {
            if !m.contains_key(n) {
                harness_error(&format!("no artifact for {n} in rt.json"));
            }
        }
        m.into_iter().collect()
    })
}

pub fn available() -> bool {
    root().join(format!("target/{}.json", rt_name())).exists()
}

fn rustc(dir: &Path, edition: u32, extra: &[&str]) -> (bool, Vec<Value>, String) {
    let mut c = Command::new("rustc");
    c.current_dir(dir)
        .args(["--crate-name", "batch", "--edition", &edition.to_string(), "--crate-type", "bin"])
        .args(["-C", "debuginfo=0", "-C", "opt-level=0", "-C", "incremental=", "-C", "codegen-units=1", "-C", "panic=abort", "-C", "strip=symbols"])
        .args(["--cap-lints", "allow", "--error-format=json", "-o", "batch"])
        .args(extra)
        .arg("-L")
        .arg(format!("dependency={}", root().join("target/debug/deps").display()));
    for (n, p) in externs() {
        c.arg("--extern").arg(format!("{n}={p}"));
    }
    c.arg("main.rs");
    c.env("CARGO_MANIFEST_DIR", dir).env("RUST_MIN_STACK", "268435456");
    unsafe {
        use std::os::unix::process::CommandExt;
        c.pre_exec(|| {
            let mut m = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_AS, &mut m);
            m.rlim_cur = m.rlim_max;
            libc::setrlimit(libc::RLIMIT_AS, &m);
            Ok(())
        });
    }
    let o = c.output().unwrap_or_else(|e| harness_error(&format!("rustc: {e}")));
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let diags = err.lines().filter_map(|l| serde_json::from_str::<Value>(l).ok()).collect();
    (o.status.success(), diags, err)
}

fn culprit(v: &Value, out: &mut Vec<usize>) {
    fn span(s: &Value, out: &mut Vec<usize>) {
        if let Some(n) = s["file_name"].as_str().and_then(|f| f.strip_prefix('m')).and_then(|f| f.strip_suffix(".rs")) {
            if let Ok(n) = n.parse() {
                out.push(n);
            }
        }
        if s["expansion"].is_object() {
            span(&s["expansion"]["span"], out);
        }
    }
    for s in v["spans"].as_array().into_iter().flatten() {
        span(s, out);
    }
    if out.is_empty() {
        for c in v["children"].as_array().into_iter().flatten() {
            culprit(c, out);
        }
    }
}

/// Compiles the modules of one edition as one crate; modules with errors are taken out and the rest retried.
fn group(dir: &Path, edition: u32, mods: &[(usize, &Module)]) -> Vec<(usize, Outcome)> {
    let mut res: Vec<(usize, Outcome)> = vec![];
    let mut alive: Vec<usize> = (0..mods.len()).collect();
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap_or_else(|e| harness_error(&format!("{}: {e}", dir.display())));
    for (k, (_, m)) in mods.iter().enumerate() {
        for (n, t) in &m.files {
            std::fs::write(dir.join(n), t).unwrap();
        }
        let body = match m.root.strip_prefix('=') {
            Some(e) => e.to_string(),
            None => format!("::rt::de::<{}>(s)", m.root),
        };
        let code = format!(
            "{}\n#[doc(hidden)] pub(crate) fn __de(s: &::core::primitive::str) -> ::core::result::Result<::std::string::String, ::std::string::String> {{ {body} }}\n",
            m.code
        );
        std::fs::write(dir.join(format!("m{k}.rs")), code).unwrap();
    }
    loop {
        if alive.is_empty() {
            return res;
        }
        let mut main = String::new();
        for k in &alive {
            main += &format!("mod m{k};\n");
        }
        main += "fn main() { ::rt::main(&[\n";
        for k in &alive {
            main += &format!("({k}, m{k}::__de),\n");
        }
        main += "]) }\n";
        std::fs::write(dir.join("main.rs"), main).unwrap();
        let (ok, diags, raw) = rustc(dir, edition, &[]);
        if ok {
            break;
        }
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        let mut unknown = vec![];
        for d in &diags {
            if d["level"] != "error" {
                continue;
            }
            let mut c = vec![];
            culprit(d, &mut c);
            let msg = d["rendered"].as_str().or(d["message"].as_str()).unwrap_or("").to_string();
            if c.is_empty() {
                unknown.push(msg.clone());
            }
            for k in c.into_iter().take(1) {
                bad.entry(k).or_insert(msg.clone());
            }
        }
        if bad.is_empty() {
            if alive.len() == 1 {
                if unknown.is_empty() {
                    harness_error(&format!("rustc failed without an error message:\n{raw}"));
                }
                bad.insert(alive[0], unknown.join("\n"));
            } else {
                // cannot attribute: compile one by one
                for k in &alive {
                    let d = dir.join(format!("s{k}"));
                    res.extend(group(&d, edition, &[mods[*k]]));
                }
                return res;
            }
        }
        alive.retain(|k| !bad.contains_key(k));
        for (k, msg) in bad {
            res.push((mods[k].0, Outcome::Compile(msg)));
        }
    }
    let mut input = String::new();
    for k in &alive {
        for o in &mods[*k].1.ops {
            if o.contains('\n') {
                harness_error("line break in an operation");
            }
            input += &format!("{k}\t{o}\n");
        }
    }
    std::fs::write(dir.join("input"), input).unwrap();
    let o = Command::new(dir.join("batch")).arg(dir.join("input")).output().unwrap_or_else(|e| harness_error(&format!("batch: {e}")));
    if !o.status.success() {
        harness_error(&format!("compiled batch failed: {} {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    let mut outs: BTreeMap<usize, Vec<Result<String, String>>> = BTreeMap::new();
    for l in String::from_utf8_lossy(&o.stdout).split('\n').filter(|l| !l.is_empty()) {
        let mut p = l.splitn(3, '\t');
        let k: usize = p.next().unwrap().parse().unwrap_or_else(|_| harness_error("batch output"));
        let ok = p.next() == Some("ok");
        let t = p.next().unwrap_or("").to_string();
        outs.entry(k).or_default().push(if ok { Ok(t) } else { Err(t) });
    }
    for k in alive {
        let v = outs.remove(&k).unwrap_or_default();
        if v.len() != mods[k].1.ops.len() {
            harness_error("batch output is incomplete");
        }
        res.push((mods[k].0, Outcome::Ran(v)));
    }
    res
}

/// Compiles and runs all modules, in parallel.
pub fn run_all(mods: &[Module]) -> Vec<Outcome> {
    const MAX: usize = 40;
    let mut groups: Vec<(u32, Vec<(usize, &Module)>)> = vec![];
    for ed in [2021, 2024] {
        let v: Vec<(usize, &Module)> = mods.iter().enumerate().filter(|m| m.1.edition == ed).collect();
        let per = (v.len().div_ceil(4)).clamp(1, MAX);
        for c in v.chunks(per) {
            groups.push((ed, c.to_vec()));
        }
    }
    let base = crate::sut::scratch().join("rustc");
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![None; mods.len()]);
    let _ = externs();
    std::thread::scope(|s| {
        for t in 0..8 {
            let (groups, next, out, base) = (&groups, &next, &out, &base);
            s.spawn(move || loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= groups.len() {
                    break;
                }
                let dir: PathBuf = base.join(format!("t{t}"));
                let r = group(&dir, groups[i].0, &groups[i].1);
                let mut o = out.lock().unwrap();
                for (k, x) in r {
                    o[k] = Some(x);
                }
            });
        }
    });
    if std::env::var("VERIF_KEEP").is_err() { let _ = std::fs::remove_dir_all(&base); }
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap_or_else(|| harness_error("missing batch result"))).collect()
}
