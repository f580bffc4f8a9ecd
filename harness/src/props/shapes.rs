//! Hints, unwrapping and map thresholds: C14, C15, C16.
use super::core::{self, shape_j};
use super::{kotlin, lang, n, rust};
use crate::case::Case;
use crate::compare::Kind;
use crate::gen::{self, Cfg, Keys, R};
use crate::json::J;
use crate::model::{self, M, T};
use crate::run::{Batch, Pass, Prop};
use crate::sut;
use proptest::test_runner::TestRng;
use std::sync::Arc;

fn showable(j: &J) -> bool {
    !j.has_dup_keys() && !j.keys().iter().any(|k| k.ends_with('?') || k.contains("__type__"))
}
fn ptrs(c: &Case) -> Option<Vec<(Vec<String>, String)>> {
    c.hints.iter().map(|h| Some((model::pointer(&h.0)?, h.1.clone()))).collect()
}
/// The model's shape of the merge of `nodes`; Err: a map hint addresses something that is not an object.
fn merged(nodes: &[&J], hints: &[(Vec<String>, String)], th: Option<usize>) -> Result<M, ()> {
    let h: Vec<(&[String], &str)> = hints.iter().map(|h| (h.0.as_slice(), h.1.as_str())).collect();
    let ts: Vec<T> = nodes.iter().map(|n| model::annotate(n, &h, th)).collect::<Result<_, _>>()?;
    Ok(model::shape(&ts.iter().collect::<Vec<_>>()))
}
fn unsettled(m: &M) -> bool {
    let mut u = false;
    m.walk(&mut |m| u |= matches!(m, M::Opaque(t) if t == model::UNSETTLED));
    u
}
fn judge_shape(c: &Case, want: Result<M, ()>) -> Result<M, String> {
    let got = shape_j(c);
    match (want, got) {
        (Err(()), Ok(g)) => Err(format!("a map hint addresses something that is not an object, but code is generated: {}", g.text())),
        (Err(()), Err(_)) => Ok(M::Bottom),
        (Ok(_), Err(e)) => Err(format!("rejected: {e}")),
        (Ok(m), Ok(g)) => {
            let (w, g) = (model::canon(&m.to_j()), model::canon(&g));
            if w != g {
                return Err(format!("inferred shape differs from the model\n want {}\n got  {}", w.text(), g.text()));
            }
            Ok(m)
        }
    }
}

// ---------------------------------------------------------------- acceptance in every output language
const ACCEPT_MODES: &[&str] = &["typescript", "typescript/typealias", "zod", "json_schema", "python", "kotlin/jackson", "kotlin/kotlinx", "rust"];
/// Near misses that are judged along with the acceptance.
const SOME: Option<&[Kind]> = Some(&[Kind::Type, Kind::Missing]);
/// The generated code, in the case's output mode, is valid and its root type accepts the sample; where no hint and no
/// unwrap is given, it rejects values of another type and missing keys.
fn accept(cases: &[Case]) -> Vec<Result<Pass, String>> {
    let mut res: Vec<Option<Result<Pass, String>>> = vec![None; cases.len()];
    for m in ACCEPT_MODES {
        let idx: Vec<usize> = (0..cases.len()).filter(|i| cases[*i].get("output_mode") == *m).collect();
        if idx.is_empty() {
            continue;
        }
        let sub: Vec<Case> = idx.iter().map(|i| cases[*i].clone()).collect();
        let r = match *m {
            "typescript" | "typescript/typealias" => lang::decide(&lang::TS, &sub, &lang::own, SOME),
            "zod" => lang::decide(&lang::ZOD, &sub, &lang::own, SOME),
            "json_schema" => lang::decide(&lang::SCHEMA, &sub, &lang::own, SOME),
            "python" => lang::decide(&lang::PYTHON, &sub, &lang::own, SOME),
            "rust" => rust::accept(&sub),
            _ => sub
                .iter()
                .map(|c| {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| kotlin::decide(c, SOME)))
                        .unwrap_or_else(|_| Err(format!("panic: {}", crate::run::last_panic())))
                })
                .collect(),
        };
        for (i, r) in idx.into_iter().zip(r) {
            res[i] = Some(r);
        }
    }
    res.into_iter().map(|r| r.unwrap_or_else(|| Pass::skip("shape mode"))).collect()
}
/// Replays and shrinking reach both kinds of cases here.
fn dispatch(cases: &[Case], shape: fn(&Case) -> Result<Pass, String>) -> Vec<Result<Pass, String>> {
    let mut res: Vec<Option<Result<Pass, String>>> = vec![None; cases.len()];
    let acc: Vec<usize> = (0..cases.len()).filter(|i| cases[*i].flag("_accept")).collect();
    for (i, r) in acc.iter().zip(accept(&acc.iter().map(|i| cases[*i].clone()).collect::<Vec<_>>())) {
        res[*i] = Some(r);
    }
    for (i, r) in res.iter_mut().enumerate() {
        if r.is_none() {
            *r = Some(
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| shape(&cases[i])))
                    .unwrap_or_else(|_| Err(format!("panic: {}", crate::run::last_panic()))),
            );
        }
    }
    res.into_iter().map(|r| r.unwrap()).collect()
}
fn sample(r: &mut R, accept: bool) -> J {
    let cfg = if accept {
        Cfg { keys: if r.pct(40) { Keys::Plain } else { Keys::All }, odd: 25, ..Default::default() }
    } else {
        Cfg { keys: if r.pct(60) { Keys::Plain } else { Keys::Shape }, root_container: false, odd: 30, ..Default::default() }
    };
    gen::sample(r, &cfg)
}
fn accept_mode(r: &mut R) -> &'static str {
    // Rust is the expensive one
    if r.pct(8) {
        "rust"
    } else {
        *r.pick(&ACCEPT_MODES[..7])
    }
}

// ---------------------------------------------------------------- C14
fn check_c14(c: &Case) -> Result<Pass, String> {
    if !showable(&c.sample) {
        return Pass::skip("outside domain");
    }
    let (Some(h), Some(u)) = (ptrs(c), model::pointer(c.get("unwrap"))) else { return Pass::skip("not a pointer") };
    let mut nodes = vec![];
    model::nodes(&c.sample, &u, &mut nodes);
    if nodes.is_empty() || c.get("unwrap") == "/" {
        return Pass::skip("nothing is addressed by unwrap");
    }
    let want = merged(&nodes, &h, lang::threshold(c));
    if want.as_ref().is_ok_and(unsettled) {
        return Pass::skip("differently hinted values meet at one place");
    }
    let err = want.is_err();
    let m = judge_shape(c, want)?;
    let mut t = vec![];
    let (mut map, mut opq) = (false, false);
    m.walk(&mut |m| match m {
        M::Map(_) => map = true,
        M::Opaque(_) => opq = true,
        _ => {}
    });
    for (b, l) in [(map, "map"), (opq, "opaque"), (err, "invalid-target"), (!map && !opq && !err, "no-effect")] {
        if b {
            t.push(l);
        }
    }
    if c.hints.iter().any(|h| h.0.contains("/-")) {
        t.push("wildcard");
    }
    if c.hints.iter().any(|h| h.0.contains('~')) {
        t.push("escaped");
    }
    if !u.is_empty() {
        t.push("unwrap");
    }
    let nt = map || opq || err;
    Ok(Pass::of(t, nt))
}
/// A pointer to a random node of the sample, some tokens replaced by the wildcard; also the node.
fn pointer_to<'a>(r: &mut R, j: &'a J, want_obj: bool) -> (String, &'a J) {
    let mut best = (String::new(), j);
    for _ in 0..6 {
        let mut p = String::new();
        let mut cur = j;
        let d = r.range(0, 4);
        for _ in 0..d {
            match cur {
                J::Obj(m) if !m.is_empty() => {
                    let i = r.below(m.len());
                    p.push('/');
                    p.push_str(&if r.pct(15) { "-".to_string() } else { model::escape_token(&m[i].0) });
                    cur = &m[i].1;
                }
                J::Arr(a) if !a.is_empty() => {
                    let i = r.below(a.len());
                    p.push('/');
                    p.push_str(&if r.pct(60) { "-".to_string() } else { i.to_string() });
                    cur = &a[i];
                }
                _ => break,
            }
        }
        best = (p, cur);
        if !want_obj || matches!(cur, J::Obj(_)) {
            break;
        }
    }
    best
}
/// Keys that need escaping in a pointer, or look like pointer syntax.
fn odd_keys(r: &mut R, j: &mut J) {
    const K: &[&str] = &["a/b", "/", "m~n", "~", "~1", "~0", "~01", "/a/", "-", "0", "1", "01", "", " ", "a~1b", "%20", "é/ø", "//"];
    let k: Vec<String> = (0..2).map(|_| r.pick(K).to_string()).collect();
    let old: Vec<String> = j.keys().into_iter().cloned().collect();
    if old.is_empty() {
        return;
    }
    let (a, b) = (r.pick(&old).clone(), r.pick(&old).clone());
    j.walk_mut(&mut |x| {
        if let J::Obj(m) = x {
            for e in m.iter_mut() {
                if e.0 == a {
                    e.0 = k[0].clone();
                } else if e.0 == b {
                    e.0 = k[1].clone();
                }
            }
            let mut seen: Vec<String> = vec![];
            m.retain(|e| {
                let new = !seen.contains(&e.0);
                seen.push(e.0.clone());
                new
            });
        }
    });
}
fn add_hints(r: &mut R, c: &mut Case, j: &J, opaque: &[&str]) {
    for _ in 0..*r.pick(&[1, 1, 1, 2, 2, 3]) {
        let map = r.pct(45);
        let obj = map && r.pct(90);
        let (mut p, _) = pointer_to(r, j, obj);
        if r.pct(8) {
            p = core::gen_pointer(r, j, true);
        }
        let t = if map { "map".to_string() } else { r.pick(opaque).to_string() };
        c.hints.push((p, t));
    }
}
fn gen_c14(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let mut j = sample(&mut r, false);
    if r.pct(25) {
        odd_keys(&mut r, &mut j);
    }
    let mut c = Case::new("Root", j.clone());
    let one = *r.pick(&["Foo", "foo::Bar<Baz>", "x", "Map", "MAP", ""]);
    let pool: Vec<&str> = if r.pct(80) { vec![one] } else { vec![one, "Other"] };
    if r.pct(10) {
        // hints are relative to what unwrap addresses
        let (p, node) = pointer_to(&mut r, &j, false);
        c = c.opt("unwrap", &p);
        let node = node.clone();
        add_hints(&mut r, &mut c, &node, &pool);
        return c;
    }
    add_hints(&mut r, &mut c, &j, &pool);
    if r.pct(8) {
        c = c.opt("infer_map_threshold", &r.below(5).to_string());
    }
    c
}
/// long and nested lists with index hints
fn gen_c14_lists(r: &mut TestRng) -> Case {
    let mut r = R(r);
    fn val(r: &mut R, d: usize) -> J {
        match r.below(if d == 0 { 4 } else { 9 }) {
            0 => J::Null,
            1 => J::Num("1".into()),
            2 => J::Str("x".into()),
            3 => J::Bool(true),
            4..=5 => {
                let n = *r.pick(&[1, 2, 2, 3, 11, 12, 13, 14]);
                let n = if d < 3 { n.min(3) } else { n };
                J::Arr((0..n).map(|_| val(r, d - 1)).collect())
            }
            _ => {
                let mut m = vec![];
                for k in ["a", "b", "0", "1", "-"] {
                    if r.pct(40) {
                        m.push((k.to_string(), val(r, d - 1)));
                    }
                }
                J::Obj(m)
            }
        }
    }
    let n = *r.pick(&[1, 2, 3, 11, 12, 13, 14, 15]);
    let e = val(&mut r, 2);
    let mixed = r.pct(40);
    let j = J::Arr((0..n).map(|_| if mixed { val(&mut r, 2) } else { e.clone() }).collect());
    let mut c = Case::new("Root", j.clone());
    add_hints(&mut r, &mut c, &j, &["Foo"]);
    c
}
/// large samples: indices of several digits, wildcards over many nodes
fn gen_c14_huge(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let cfg = Cfg { keys: Keys::Shape, ..Default::default() };
    let j = gen::huge(&mut r, &cfg);
    let mut c = Case::new("Root", j.clone());
    if r.pct(25) {
        // dozens of hints, each for one scalar
        for _ in 0..*r.pick(&[9, 17, 33, 40, 65, 100]) {
            let mut p = String::new();
            let mut cur = &j;
            loop {
                match cur {
                    J::Obj(m) if !m.is_empty() => {
                        let i = r.below(m.len());
                        p += &format!("/{}", model::escape_token(&m[i].0));
                        cur = &m[i].1;
                    }
                    J::Arr(a) if !a.is_empty() => {
                        let i = r.below(a.len());
                        p += &format!("/{i}");
                        cur = &a[i];
                    }
                    _ => break,
                }
            }
            if !p.is_empty() {
                c.hints.push((p, "Foo".into()));
            }
        }
        c.hints.sort();
        c.hints.dedup();
        r.shuffle(&mut c.hints);
        return c;
    }
    add_hints(&mut r, &mut c, &j, &["Foo"]);
    c
}
fn gen_c14_accept(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let m = accept_mode(&mut r);
    let mut j = sample(&mut r, true);
    model::fill_any_missing(&mut j, None);
    let mut c = Case::new(&gen::name(&mut r), j.clone()).with_mode(m).opt("_accept", "true");
    let opaque: &[&str] = match m {
        "rust" => &["::serde_json::Value"],
        "typescript" | "typescript/typealias" => &["unknown"],
        "zod" => &["z.unknown()"],
        _ => &[],
    };
    for _ in 0..r.range(1, 2) {
        let map = opaque.is_empty() || r.pct(70);
        let (p, node) = pointer_to(&mut r, &j, map);
        if map && !matches!(node, J::Obj(_)) {
            continue;
        }
        c.hints.push((p, if map { "map" } else { opaque[0] }.to_string()));
    }
    // hints that miss their target are judged elsewhere
    let h = ptrs(&c).unwrap();
    if merged(&[&j], &h, None).is_err() || h.iter().any(|h| h.1 != "map" && h.0.is_empty()) {
        c.hints.clear();
    }
    c
}
fn b_c14(c: &[Case]) -> Vec<Result<Pass, String>> {
    dispatch(c, check_c14)
}
fn prop(id: &'static str, rule: &str, assumptions: Vec<String>, check: fn(&Case) -> Result<Pass, String>, campaigns: Vec<(&'static str, u32, Arc<crate::run::Gen>)>, batch: Option<Batch>) -> Prop {
    Prop { id, level: "exploration", rule: rule.into(), assumptions, campaigns, make: core::simple(check), max_shrink: 20_000, threads: 8, batch }
}
const DUP: &str = "object keys are distinct; keys ending in '?' or containing __type__ are left out of the shape comparison because the shape printer cannot show them unambiguously";
const KF: &str = "in the acceptance campaign, samples with a missing field whose values are irreconcilable are left out (known finding)";
pub fn c14() -> Prop {
    prop(
        "C14",
        "samples with one to three hints whose pointers follow a random path (keys, escaped keys, indices, wildcards; some miss): shape output against the model with the hints applied to the values, an error exactly where a map hint addresses something that is not an object; and for the other output modes, code for hinted samples is valid and accepts the sample; non-trivial = the model's shape contains a map or opaque type or an error is expected; distinct by hash of the case",
        vec![DUP.into(), KF.into(), "values with different opaque hints, or hinted ones and irreconcilable others, meeting at one place are not judged".into(), "type_name hints are not judged (undocumented)".into()],
        check_c14,
        vec![("hints", n(400_000, 6_000_000), Arc::new(gen_c14)), ("lists", n(400_000, 6_000_000), Arc::new(gen_c14_lists)), ("huge", n(5_000, 100_000), Arc::new(gen_c14_huge))],
        Some(Batch { campaigns: vec![("accept", n(8_000, 200_000), Arc::new(gen_c14_accept))], size: 4000, check: Arc::new(b_c14), rounds: 100 }),
    )
}

// ---------------------------------------------------------------- C15
fn check_c15(c: &Case) -> Result<Pass, String> {
    if c.sample.has_dup_keys() || c.get("unwrap") == "/" {
        return Pass::skip("outside domain");
    }
    let (Some(h), Some(p)) = (ptrs(c), model::pointer(c.get("unwrap"))) else { return Pass::skip("not a pointer") };
    let mut nodes = vec![];
    model::nodes(&c.sample, &p, &mut nodes);
    if nodes.is_empty() {
        return match sut::generate(c) {
            Ok(o) => Err(format!("nothing is addressed by {:?}, but code is generated:\n{o}", c.get("unwrap"))),
            Err(_) => Ok(Pass::of(vec!["no-match"], !p.is_empty())),
        };
    }
    let want = merged(&nodes, &h, lang::threshold(c));
    let bad = want.is_err();
    let mut tags = vec![if bad { "invalid-target" } else if nodes.len() > 1 { "several" } else { "one" }];
    // the output for the node, or the list of nodes, alone
    let mut alone = c.clone();
    if nodes.len() == 1 {
        alone.sample = nodes[0].clone();
        alone.opts.remove("unwrap");
    } else {
        alone.sample = pruned(&c.sample, &p).unwrap();
        alone.opts.insert("unwrap".into(), "/-".repeat(p.iter().filter(|t| *t == "-").count()));
    }
    match (sut::generate(c), sut::generate(&alone)) {
        (Ok(a), Ok(b)) if a == b => {
            if bad {
                return Err("a map hint addresses something that is not an object, but code is generated".into());
            }
        }
        (Err(_), Err(_)) => {
            if !bad {
                return Err("rejected, although all hints fit".into());
            }
        }
        (a, b) => return Err(format!("unwrap {:?} differs from the addressed node(s) {} alone\n--- unwrapped\n{}\n--- alone\n{}", c.get("unwrap"), alone.sample.text(), show(&a), show(&b))),
    }
    if showable(&c.sample) && !want.as_ref().is_ok_and(unsettled) {
        judge_shape(c, want)?;
        tags.push("shape");
    }
    if !h.is_empty() {
        tags.push("hints");
    }
    Ok(Pass::of(tags, !p.is_empty()))
}
/// Only the addressed nodes: a list for each wildcard, nothing for the other steps.
fn pruned(j: &J, toks: &[String]) -> Option<J> {
    let Some(t) = toks.first() else { return Some(j.clone()) };
    let kids: Vec<J> = match j {
        J::Obj(m) => m.iter().filter(|x| t == "-" || x.0 == *t).filter_map(|x| pruned(&x.1, &toks[1..])).collect(),
        J::Arr(a) => a.iter().enumerate().filter(|(i, _)| t == "-" || *t == i.to_string()).filter_map(|(_, x)| pruned(x, &toks[1..])).collect(),
        _ => vec![],
    };
    if kids.is_empty() {
        None
    } else if t == "-" {
        Some(J::Arr(kids))
    } else {
        kids.into_iter().next()
    }
}
fn show(r: &Result<String, String>) -> String {
    match r {
        Ok(s) => s.clone(),
        Err(e) => format!("error: {e}"),
    }
}
fn gen_c15(r: &mut TestRng) -> Case {
    gen_c15_of(r, false)
}
fn gen_c15_huge(r: &mut TestRng) -> Case {
    gen_c15_of(r, true)
}
fn gen_c15_of(r: &mut TestRng, huge: bool) -> Case {
    let mut r = R(r);
    let cfg = Cfg { keys: if r.pct(50) { Keys::Plain } else { Keys::All }, root_container: false, odd: 25, ..Default::default() };
    let mut j = if huge { gen::huge(&mut r, &cfg) } else { gen::sample(&mut r, &cfg) };
    if r.pct(15) {
        odd_keys(&mut r, &mut j);
    }
    let mut c = Case::new(&gen::name(&mut r), j.clone()).with_mode(*r.pick(sut::MODES));
    let (mut p, _) = pointer_to(&mut r, &j, false);
    if p.is_empty() || r.pct(30) {
        let t = pointer_to(&mut r, &j, false);
        p = t.0;
    }
    if r.pct(10) {
        p = core::gen_pointer(&mut r, &j, true);
    }
    let toks = model::pointer(&p).unwrap_or_default();
    c = c.opt("unwrap", &p);
    let mut nodes = vec![];
    model::nodes(&j, &toks, &mut nodes);
    if r.pct(50) {
        // hints relative to an addressed node, or to the document, where they must have no effect
        let base = if nodes.is_empty() || r.pct(25) { j.clone() } else { nodes[r.below(nodes.len())].clone() };
        add_hints(&mut r, &mut c, &base, &["Foo"]);
    }
    if r.pct(15) {
        c = c.opt("infer_map_threshold", &r.below(5).to_string());
    }
    if r.pct(30) {
        c = c.opt("import_style", r.pick(sut::STYLES));
    }
    if r.pct(20) {
        c = c.opt("property_name_format", r.pick(sut::FORMATS));
    }
    for b in crate::case::BOOL_OPTS {
        if r.pct(10) {
            c = c.opt(b, "true");
        }
    }
    c
}
pub fn c15() -> Prop {
    prop(
        "C15",
        "samples with an unwrap pointer (random path with indices, escaped keys and wildcards; some miss) in every output mode, half of them with hints: one addressed node gives byte-identical output to that node alone, several the output of a document that holds nothing else (a list per wildcard), and the shape equals the model's merge of exactly the addressed nodes with the hints relative to them; no addressed node or a map hint on something that is not an object is an error; non-trivial = the pointer is not empty; distinct by hash of the case",
        vec![DUP.into(), "the pointer / means the root here, not the empty key".into(), "the fragment form and pointers without leading slash are not judged".into()],
        check_c15,
        vec![("samples", n(900_000, 10_000_000), Arc::new(gen_c15)), ("huge", n(5_000, 100_000), Arc::new(gen_c15_huge))],
        None,
    )
}

// ---------------------------------------------------------------- C16
fn check_c16(c: &Case) -> Result<Pass, String> {
    if !showable(&c.sample) {
        return Pass::skip("outside domain");
    }
    let m = judge_shape(c, merged(&[&c.sample], &[], lang::threshold(c)))?;
    let (mut map, mut obj, mut any) = (false, false, false);
    m.walk(&mut |m| match m {
        M::Map(_) => map = true,
        M::Obj(_) => obj = true,
        M::Any => any = true,
        _ => {}
    });
    let mut t = vec![];
    for (b, l) in [(map, "map"), (obj, "struct"), (any, "conflict"), (lang::threshold(c).is_none(), "unset")] {
        if b {
            t.push(l);
        }
    }
    Ok(Pass::of(t, map))
}
fn with_threshold(r: &mut R, c: Case, j: &J) -> Case {
    let mut sizes = vec![];
    j.walk(&mut |x| {
        if let J::Obj(m) = x {
            sizes.push(m.len() as i64)
        }
    });
    if r.pct(5) || sizes.is_empty() {
        return c;
    }
    let t = match r.below(8) {
        0 => r.below(8) as i64,
        1..=3 => *r.pick(&sizes),
        4..=6 => (*r.pick(&sizes) - 1).max(0),
        _ => *r.pick(&sizes) + 1,
    };
    c.opt("infer_map_threshold", &t.to_string())
}
/// objects of many sizes whose values often agree
fn big(r: &mut R, keys: Keys) -> J {
    let cfg = Cfg { keys, width: 6, odd: 25, ..Default::default() };
    let inner = gen::sample(r, &Cfg { depth: 2, width: 3, keys, odd: 25, root_container: false, ..Default::default() });
    let other = gen::sample(r, &Cfg { depth: 2, width: 3, keys, odd: 25, root_container: false, ..Default::default() });
    let mut m: Vec<(String, J)> = vec![];
    for _ in 0..r.range(1, 7) {
        let k = gen::key(r, &cfg);
        if !m.iter().any(|x| x.0 == k) {
            let v = match r.below(10) {
                0..=5 => inner.clone(),
                6..=7 => other.clone(),
                8 => J::Null,
                _ => J::Num("1".into()),
            };
            m.push((k, v));
        }
    }
    let o = J::Obj(m);
    match r.below(4) {
        0 => J::Arr(vec![o, inner]),
        1 => J::Obj(vec![("a".into(), o), ("b".into(), other)]),
        _ => o,
    }
}
fn gen_c16(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let j = if r.pct(50) { sample(&mut r, false) } else { big(&mut r, Keys::Shape) };
    let c = Case::new("Root", j.clone());
    with_threshold(&mut r, c, &j)
}
/// thresholds in the hundreds
fn gen_c16_huge(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let cfg = Cfg { keys: Keys::Shape, ..Default::default() };
    let j = gen::huge(&mut r, &cfg);
    let c = Case::new("Root", j.clone());
    with_threshold(&mut r, c, &j)
}
pub fn map_hints(r: &mut R, mut c: Case) -> Case {
    let j = c.sample.clone();
    for _ in 0..r.range(1, 2) {
        let (p, node) = pointer_to(r, &j, true);
        if matches!(node, J::Obj(_)) {
            c.hints.push((p, "map".into()));
        }
    }
    let h = ptrs(&c).unwrap();
    if merged(&[&j], &h, None).is_err() {
        c.hints.clear();
    }
    c
}
/// In some cases a map threshold or map hints.
pub fn maps(r: &mut R, c: Case) -> Case {
    match r.below(100) {
        0..=11 => {
            let j = c.sample.clone();
            let mut c = with_threshold(r, c, &j);
            let th = lang::threshold(&c);
            model::fill_any_missing(&mut c.sample, th);
            c
        }
        12..=17 => map_hints(r, c),
        _ => c,
    }
}
fn gen_c16_accept(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let m = accept_mode(&mut r);
    let keys = if r.pct(50) { Keys::All } else { Keys::Plain };
    let j = if r.pct(50) { sample(&mut r, true) } else { big(&mut r, keys) };
    let c = Case::new(&gen::name(&mut r), j.clone()).with_mode(m).opt("_accept", "true");
    let mut c = with_threshold(&mut r, c, &j);
    let th = lang::threshold(&c);
    model::fill_any_missing(&mut c.sample, th);
    c
}
fn b_c16(c: &[Case]) -> Vec<Result<Pass, String>> {
    dispatch(c, check_c16)
}
pub fn c16() -> Prop {
    prop(
        "C16",
        "samples with a threshold at, just below or just above the size of one of their objects: shape output against the model in which every object with more keys is a map; and in the other output modes the code is valid and accepts the sample; non-trivial = the model's shape contains a map; distinct by hash of the case",
        vec![DUP.into(), KF.into(), "type aliases and zod apply the threshold again to merged objects: only acceptance of the sample is judged there".into()],
        check_c16,
        vec![("shape", n(500_000, 6_000_000), Arc::new(gen_c16)), ("huge", n(5_000, 100_000), Arc::new(gen_c16_huge))],
        Some(Batch { campaigns: vec![("accept", n(8_000, 200_000), Arc::new(gen_c16_accept))], size: 4000, check: Arc::new(b_c16), rounds: 100 }),
    )
}
