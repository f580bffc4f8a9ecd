//! Drives a property with proptest: seeded generation on several threads, shrinking, replay files,
//! known findings, evidence.
use crate::case::Case;
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// What a check says about a case that did not fail.
#[derive(Default, Clone, Debug)]
pub struct Pass {
    pub tags: Vec<&'static str>,
    pub nontrivial: bool,
    /// outside the property's domain (after shrinking, or excluded): not counted
    pub skip: Option<&'static str>,
}
impl Pass {
    pub fn skip(why: &'static str) -> Result<Pass, String> {
        Ok(Pass { skip: Some(why), ..Default::default() })
    }
    pub fn of(tags: Vec<&'static str>, nontrivial: bool) -> Pass {
        Pass { tags, nontrivial, skip: None }
    }
}

pub type Gen = dyn Fn(&mut TestRng) -> Case + Send + Sync;

pub trait Checker {
    fn check(&mut self, case: &Case) -> Result<Pass, String>;
    /// Called with a whole batch when the property decides in batches; default: one by one.
    fn finish(&mut self) {}
}
impl<F: FnMut(&Case) -> Result<Pass, String>> Checker for F {
    fn check(&mut self, case: &Case) -> Result<Pass, String> {
        self(case)
    }
}

/// A way to decide many cases together (real compilers).
pub struct Batch {
    pub campaigns: Vec<(&'static str, u32, Arc<Gen>)>,
    pub size: usize,
    pub check: Arc<dyn Fn(&[Case]) -> Vec<Result<Pass, String>> + Send + Sync>,
    /// shrinking rounds; each round decides up to 64 candidates together
    pub rounds: u32,
}

pub struct Prop {
    pub batch: Option<Batch>,
    pub id: &'static str,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    /// label, cases (total over threads), generator
    pub campaigns: Vec<(&'static str, u32, Arc<Gen>)>,
    pub make: Arc<dyn Fn(usize) -> Box<dyn Checker> + Send + Sync>,
    pub max_shrink: u32,
    pub threads: usize,
}

struct Strat {
    gen: Arc<Gen>,
}
impl std::fmt::Debug for Strat {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("cases")
    }
}
impl Strategy for Strat {
    type Tree = Greedy;
    type Value = Case;
    fn new_tree(&self, r: &mut TestRunner) -> NewTree<Self> {
        Ok(Greedy { cur: (self.gen)(r.rng()), prev: None, cands: vec![], idx: 0, fresh: true })
    }
}

/// Greedy structural shrinking as a proptest value tree.
pub struct Greedy {
    cur: Case,
    prev: Option<Case>,
    cands: Vec<Case>,
    idx: usize,
    fresh: bool,
}
impl ValueTree for Greedy {
    type Value = Case;
    fn current(&self) -> Case {
        self.cur.clone()
    }
    fn simplify(&mut self) -> bool {
        // `cur` fails: its simpler variants are next
        let _ = self.fresh;
        self.cands = self.cur.shrinks();
        self.idx = 0;
        if self.cands.is_empty() {
            return false;
        }
        self.prev = Some(self.cur.clone());
        self.cur = self.cands[0].clone();
        self.idx = 1;
        true
    }
    fn complicate(&mut self) -> bool {
        // `cur` passes: try the next candidate, or restore
        if self.idx < self.cands.len() {
            self.cur = self.cands[self.idx].clone();
            self.idx += 1;
            true
        } else {
            if let Some(p) = self.prev.take() {
                self.cur = p;
            }
            self.cands.clear();
            false
        }
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    skipped: BTreeMap<String, u64>,
    tags: BTreeMap<&'static str, u64>,
    per_campaign: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub fn rng_for(label: &str, i: u64) -> TestRng {
    let mut s = [0u8; 32];
    for k in 0..4u64 {
        let h = hash_of(&(label, i, seed(), k, 0x5eed_u64));
        s[k as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// Errors of the machinery (not of the code under test) end the process with status 3.
pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {}", msg);
    std::process::exit(3);
}

fn guarded(ch: &mut dyn Checker, c: &Case) -> Result<Pass, String> {
    match crate::guard::watch(c, || catch_unwind(AssertUnwindSafe(|| ch.check(c)))) {
        Ok(r) => r,
        Err(p) => match p.downcast_ref::<crate::cli::Skip>() {
            Some(s) => Pass::skip(s.0),
            None => Err(format!("panic: {}", last_panic())),
        },
    }
}

pub fn known(id: &str) -> Vec<Value> {
    let t = std::fs::read_to_string(root().join("known_findings.json")).unwrap_or("[]".into());
    let v: Value = serde_json::from_str(&t).unwrap_or_else(|e| harness_error(&format!("known_findings.json: {e}")));
    v.as_array().cloned().unwrap_or_default().into_iter().filter(|x| x["property"] == id).collect()
}

pub fn report(id: &str, case: &Case, msg: &str) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let v = json!({"property": id, "case": case.to_json(), "message": msg, "seed": seed()});
    let path = dir.join(format!("{}-{:016x}.json", id, hash_of(&case)));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    println!("VIOLATION property={} replay={}", id, path.display());
    println!("  case: {}", case.to_json());
    println!("  {}", msg.replace('\n', "\n  "));
    path
}

/// Decides all cases, together where the property can.
fn eval_all(p: &Prop, cases: &[Case]) -> Vec<Result<Pass, String>> {
    if cases.is_empty() {
        return vec![];
    }
    if let Some(b) = &p.batch {
        return (b.check)(cases);
    }
    let mut ch = (p.make)(0);
    cases.iter().map(|c| guarded(&mut *ch, c)).collect()
}

/// Greedy shrinking with all candidates of a round decided together.
fn shrink_batch(b: &Batch, case: Case, msg: String) -> (Case, String) {
    let (mut case, mut msg) = (case, msg);
    let mut rounds = b.rounds;
    let t0 = Instant::now();
    'outer: loop {
        for chunk in case.shrinks().chunks(if case.sample.size() > 200 { 24 } else { 64 }) {
            if rounds == 0 || t0.elapsed().as_secs() > 120 {
                return (case, msg);
            }
            rounds -= 1;
            let r = (b.check)(chunk);
            if let Some(i) = r.iter().position(|r| r.is_err()) {
                msg = r[i].clone().unwrap_err();
                case = chunk[i].clone();
                continue 'outer;
            }
        }
        return (case, msg);
    }
}

/// Runs one replay file; exit status as for a check.
pub fn replay(p: &Prop, file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap_or_else(|e| harness_error(&format!("{file}: {e}")));
    let v: Value = serde_json::from_str(&t).unwrap_or_else(|e| harness_error(&format!("{file}: {e}")));
    let c = Case::from_json(if v["case"].is_object() { &v["case"] } else { &v }).unwrap_or_else(|e| harness_error(&e));
    match eval_all(&p, &[c]).remove(0) {
        Ok(x) => {
            println!("passes: {:?}", x);
            0
        }
        Err(m) => {
            println!("VIOLATION property={} replay={}", p.id, file);
            println!("  {}", m.replace('\n', "\n  "));
            1
        }
    }
}

pub fn run(p: Prop) -> i32 {
    let t0 = Instant::now();
    let mut violations = 0;
    let mut stats = Stats::default();
    let debug = std::env::var("VERIF_DEBUG").is_ok();

    // 1. known findings: report the listed ones that still fail
    // 2. saved regression inputs (fixed defects and shrunk past failures)
    let mut kf = 0;
    let findings: Vec<Value> = known(p.id).into_iter().filter(|f| f["status"] == "known" && f["case"].is_object()).collect();
    let corpus = std::fs::read_to_string(root().join("corpus").join(format!("{}.jsonl", p.id))).unwrap_or_default();
    let mut replayed = 0u64;
    let mut cases = vec![];
    for f in &findings {
        cases.push(Case::from_json(&f["case"]).unwrap_or_else(|e| harness_error(&e)));
    }
    for line in corpus.lines().filter(|l| !l.trim().is_empty()) {
        let v: Value = serde_json::from_str(line).unwrap_or_else(|e| harness_error(&format!("corpus: {e}")));
        cases.push(Case::from_json(&v).unwrap_or_else(|e| harness_error(&format!("corpus: {e}"))));
    }
    for (i, r) in eval_all(&p, &cases).into_iter().enumerate() {
        match (r, findings.get(i)) {
            (Err(_), Some(f)) => {
                kf += 1;
                println!("KNOWN-FINDING: property={} {}", p.id, f["what"].as_str().unwrap_or(""));
            }
            (Ok(_), Some(_)) => {}
            (r, None) => {
                replayed += 1;
                if let Err(m) = r {
                    violations += 1;
                    if violations <= 3 {
                        report(p.id, &cases[i], &m);
                    }
                }
            }
        }
    }

    // 3. generated search
    let only = std::env::var("VERIF_CAMPAIGN").ok();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let threads = p.threads.max(1);
    if violations == 0 {
        let all = Arc::new(Mutex::new(Stats::default()));
        let fails: Arc<Mutex<Vec<(usize, usize, Case, String)>>> = Arc::new(Mutex::new(vec![]));
        let stop = Arc::new(AtomicBool::new(false));
        let mut hs = vec![];
        for t in 0..threads {
            let camps: Vec<_> = p.campaigns.iter().map(|c| (c.0, c.1, c.2.clone())).collect();
            let make = p.make.clone();
            let (all, fails, stop, only) = (all.clone(), fails.clone(), stop.clone(), only.clone());
            let (id, max_shrink) = (p.id, p.max_shrink);
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let ch = RefCell::new(make(t));
                let st = RefCell::new(Stats::default());
                for (ci, (label, total, gen)) in camps.into_iter().enumerate() {
                    if only.as_deref().is_some_and(|o| o != label) {
                        continue;
                    }
                    let total = (total as f64 * scale) as u32;
                    let n = total / threads as u32 + u32::from((total % threads as u32) as usize > t);
                    if n == 0 || stop.load(Ordering::Relaxed) {
                        continue;
                    }
                    let cfg = Config {
                        cases: n,
                        failure_persistence: None,
                        max_shrink_iters: max_shrink,
                        max_shrink_time: 40_000,
                        verbose: 0,
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new_with_rng(cfg, rng_for(&format!("{id}/{label}"), t as u64));
                    let shrinking = std::cell::Cell::new(false);
                    let last = RefCell::new(None);
                    let r = runner.run(&Strat { gen }, |c| {
                        if stop.load(Ordering::Relaxed) && !shrinking.get() {
                            return Ok(());
                        }
                        let r = guarded(&mut **ch.borrow_mut(), &c);
                        match r {
                            Ok(x) => {
                                if !shrinking.get() {
                                    let mut s = st.borrow_mut();
                                    if let Some(w) = x.skip {
                                        *s.skipped.entry(w.into()).or_default() += 1;
                                    } else {
                                        s.evals += 1;
                                        *s.per_campaign.entry(label).or_default() += 1;
                                        for t in &x.tags {
                                            *s.tags.entry(t).or_default() += 1;
                                        }
                                        if x.nontrivial && s.distinct.insert(hash_of(&(label, &c))) && s.samples.len() < 3 && c.sample.size() < 60 {
                                            let mut v = c.to_json();
                                            v["campaign"] = json!(label);
                                            s.samples.push(v);
                                        }
                                    }
                                }
                                Ok(())
                            }
                            Err(m) => {
                                shrinking.set(true);
                                *last.borrow_mut() = Some((c.clone(), m.clone()));
                                Err(TestCaseError::fail(m))
                            }
                        }
                    });
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(..)) => {
                            stop.store(true, Ordering::Relaxed);
                            let (c, m) = last.borrow_mut().take().unwrap();
                            fails.lock().unwrap().push((ci, t, c, m));
                        }
                        Err(TestError::Abort(m)) => harness_error(&format!("aborted: {m}")),
                    }
                }
                ch.borrow_mut().finish();
                let s = st.into_inner();
                let mut a = all.lock().unwrap();
                a.evals += s.evals;
                for (k, v) in s.skipped {
                    *a.skipped.entry(k).or_default() += v;
                }
                for (k, v) in s.tags {
                    *a.tags.entry(k).or_default() += v;
                }
                for (k, v) in s.per_campaign {
                    *a.per_campaign.entry(k).or_default() += v;
                }
                a.distinct.extend(s.distinct);
                a.samples.extend(s.samples);
            });
            hs.push(h.unwrap());
        }
        for h in hs {
            if h.join().is_err() {
                harness_error("worker thread panicked outside a check");
            }
        }
        let mut f = fails.lock().unwrap().clone();
        f.sort_by_key(|x| (x.0, x.1));
        let mut seen = HashSet::new();
        for (_, _, c, m) in f.iter().take(if debug { 8 } else { 2 }) {
            if seen.insert(hash_of(c)) {
                violations += 1;
                report(p.id, c, m);
            }
        }
        stats = std::mem::take(&mut *all.lock().unwrap());
    }
    // 4. batches; what a screen suspects comes first
    let mut suspects: Vec<Case> = std::mem::take(&mut *SUSPECTS.lock().unwrap()).into_values().collect();
    let suspected = suspects.len();
    suspects.sort_by_key(|c| (c.sample.size(), hash_of(c)));
    if let (Some(b), 0) = (&p.batch, violations) {
        suspects.truncate(b.size);
        // the smallest first; large ones a few at a time
        let mut rest = &suspects[..];
        let t0 = Instant::now();
        while !rest.is_empty() && violations == 0 && t0.elapsed().as_secs() < 240 {
            let mut size = 0;
            let k = rest.iter().take_while(|c| { size += c.sample.size(); size < 6_000 }).count().max(8).min(rest.len());
            let (now, later) = rest.split_at(k);
            rest = later;
            for (c, r) in now.iter().zip((b.check)(now)) {
                if let Err(m) = r {
                    let (c, m) = shrink_batch(b, c.clone(), m);
                    violations += 1;
                    report(p.id, &c, &m);
                    if !debug || violations > 3 {
                        break;
                    }
                }
            }
        }
        for (label, total, gen) in &b.campaigns {
            if only.as_deref().is_some_and(|o| o != *label) || violations > 0 {
                continue;
            }
            let total = (*total as f64 * scale) as usize;
            let mut rng = rng_for(&format!("{}/{label}", p.id), 99);
            let mut done = 0;
            while done < total {
                let n = b.size.min(total - done);
                let cases: Vec<Case> = (0..n).map(|_| gen(&mut rng)).collect();
                done += n;
                let r = (b.check)(&cases);
                let mut fails: Vec<(usize, String)> = vec![];
                for (i, r) in r.into_iter().enumerate() {
                    let c = &cases[i];
                    match r {
                        Ok(x) => {
                            if let Some(w) = x.skip {
                                *stats.skipped.entry(w.into()).or_default() += 1;
                                continue;
                            }
                            stats.evals += 1;
                            *stats.per_campaign.entry(label).or_default() += 1;
                            for t in &x.tags {
                                *stats.tags.entry(t).or_default() += 1;
                            }
                            if x.nontrivial && stats.distinct.insert(hash_of(&(label, c))) && stats.samples.len() < 8 && c.sample.size() < 60 {
                                let mut v = c.to_json();
                                v["campaign"] = json!(label);
                                stats.samples.push(v);
                            }
                        }
                        Err(m) => fails.push((i, m)),
                    }
                }
                fails.sort_by_key(|f| cases[f.0].sample.size());
                for (i, m) in fails.into_iter().take(if debug { 4 } else { 1 }) {
                    let (c, m) = shrink_batch(b, cases[i].clone(), m);
                    violations += 1;
                    report(p.id, &c, &m);
                }
                if violations > 0 {
                    break;
                }
            }
        }
    }
    stats.samples.truncate(8);
    let mut cov = json!({
        "evaluations": stats.evals,
        "distinct_nontrivial": stats.distinct.len(),
        "rule": p.rule,
        "samples": stats.samples,
        "per_campaign": stats.per_campaign,
        "classes": stats.tags,
        "excluded": stats.skipped,
        "regression_inputs_replayed": replayed,
        "known_findings_reproduced": kf,
    });
    if p.batch.is_some() {
        cov["suspects_of_the_screen"] = json!({"found": suspected, "compiled": suspects.len()});
    }
    if let Some(extra) = EXTRA.lock().unwrap().take() {
        for (k, v) in extra.as_object().unwrap() {
            cov[k] = v.clone();
        }
    }
    write_evidence(p.id, p.level, cov, &p.assumptions, t0.elapsed().as_secs_f64(), violations);
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
        p.id,
        stats.evals,
        stats.distinct.len(),
        violations,
        t0.elapsed().as_secs_f64()
    );
    if debug {
        println!("{:?}\n{:?}", stats.tags, stats.skipped);
    }
    (violations > 0) as i32
}

/// Cases a screen found suspicious, by hash; the batch decides them.
static SUSPECTS: Mutex<BTreeMap<u64, Case>> = Mutex::new(BTreeMap::new());
pub fn suspect(c: &Case, why: &str) {
    if std::env::var("VERIF_DEBUG").is_ok() {
        eprintln!("suspect: {why}: {}", c.to_json());
    }
    let mut s = SUSPECTS.lock().unwrap();
    if s.len() < 20_000 {
        s.insert(hash_of(c), c.clone());
    }
}

pub static EXTRA: Mutex<Option<Value>> = Mutex::new(None);

pub fn write_evidence(id: &str, level: &str, cov: Value, assumptions: &[String], wall: f64, violations: usize) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let v = json!({
        "property": id,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": seed(),
        "level": level,
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&v).unwrap() + "\n") {
        harness_error(&format!("evidence: {e}"));
    }
}
