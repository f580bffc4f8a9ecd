//! Generated Rust: C01, C02, C03.
use super::core::Ch;
use super::n;
use crate::case::Case;
use crate::compare::{self, Step};
use crate::decl::{self, Ty};
use crate::gen::{self, Cfg, Keys, R};
use crate::json::{self, J};
use crate::model::{self, M};
use crate::run::{hash_of, Batch, Pass, Prop};
use crate::rustc::{self, Module, Outcome};
use crate::sut;
use proptest::test_runner::TestRng;
use std::sync::Arc;

pub fn split_name(name: &str) -> (String, String) {
    if let Some(s) = name.strip_prefix("pub ") {
        return ("pub".into(), s.into());
    }
    if name.starts_with("pub(") {
        if let Some((a, b)) = name.split_once(") ") {
            return (format!("{a})"), b.into());
        }
    }
    ("pub".into(), name.into())
}

/// Some(reason) if the case lies outside the domain of C01/C02
fn outside(c: &Case) -> Option<&'static str> {
    if c.probe() {
        return None;
    }
    if c.sample.has_dup_keys() {
        return Some("duplicate keys");
    }
    if !c.flag("use_default_for_missing_fields") && super::lang::any_missing(c) {
        return Some("known finding: missing field with irreconcilable values");
    }
    None
}

fn module(c: &Case, ops: Vec<String>) -> Result<Module, String> {
    let code = sut::caught(&c.with_mode("rust"))?;
    let pre = if c.get("import_style") == "assume_existing" {
        "use serde_derive::{Serialize, Deserialize}; use std::collections::HashMap; use serde_json::Value;\n"
    } else {
        ""
    };
    Ok(Module {
        code: format!("{pre}{code}"),
        root: split_name(&c.name).1,
        edition: if hash_of(&c.sample) % 2 == 0 { 2021 } else { 2024 },
        files: vec![],
        ops,
    })
}

type Ops = (Vec<String>, Box<dyn Fn(&[Result<String, String>]) -> Result<(), String>>);

/// Runs `ops(case)` through the compiled type of every case.
fn decide(cases: &[Case], ops: &dyn Fn(&Case) -> Result<Option<Ops>, String>) -> Vec<Result<Pass, String>> {
    let mut res: Vec<Option<Result<Pass, String>>> = vec![None; cases.len()];
    let mut mods = vec![];
    let mut idx = vec![];
    for (i, c) in cases.iter().enumerate() {
        if let Some(w) = outside(c) {
            res[i] = Some(Pass::skip(w));
            continue;
        }
        match ops(c) {
            Err(m) => res[i] = Some(Err(m)),
            Ok(None) => res[i] = Some(Pass::skip("nothing to decide")),
            Ok(Some((o, f))) => match module(c, o) {
                Err(m) => res[i] = Some(Err(format!("valid sample rejected: {m}"))),
                Ok(m) => {
                    mods.push(m);
                    idx.push((i, f));
                }
            },
        }
    }
    for ((i, f), (o, m)) in idx.into_iter().zip(rustc::run_all(&mods).into_iter().zip(&mods)) {
        res[i] = Some(match o {
            Outcome::Compile(e) => Err(format!("generated code does not compile (edition {}):\n{e}\n--- code\n{}", m.edition, m.code)),
            Outcome::Ran(v) => match f(&v) {
                Ok(()) => {
                    let t = model::tags(&cases[i].sample);
                    let nt = model::nontrivial(&t);
                    Ok(Pass::of(t, nt))
                }
                Err(e) => Err(format!("{e}\n--- code\n{}", m.code)),
            },
        });
    }
    res.into_iter().map(|x| x.unwrap()).collect()
}

fn ops_c01(c: &Case) -> Result<Option<Ops>, String> {
    let m = model::shape_of(&c.sample, super::lang::threshold(c));
    let mut ch = Ch::new(c.nums.first().copied().unwrap_or(0));
    let kinds = if super::lang::known_types(c) { C01_KINDS } else { &[] };
    let ps = compare::probes(&c.sample, &m, &mut |n| ch.below(n), kinds, 8);
    let mut ops = vec![c.sample.text()];
    ops.extend(ps.iter().map(|p| p.json.text()));
    Ok(Some((
        ops,
        Box::new(move |r| {
            r[0].as_ref().map_err(|e| format!("the sample does not deserialise: {e}"))?;
            for (p, r) in ps.iter().zip(&r[1..]) {
                if r.is_ok() {
                    return Err(format!("a value that differs from the sample is accepted: {}\n{}", p.what, p.json.text()));
                }
            }
            Ok(())
        }),
    )))
}
/// The sample deserialises and nothing is lost.
pub fn accept(c: &[Case]) -> Vec<Result<Pass, String>> {
    decide(c, &|c| {
        let Some((o, f)) = ops_c02(c)? else { return Ok(None) };
        Ok(Some((
            o,
            Box::new(move |r: &[Result<String, String>]| {
                r[0].as_ref().map_err(|e| format!("the sample does not deserialise: {e}"))?;
                f(r)
            }),
        )))
    })
}
fn ops_c02(c: &Case) -> Result<Option<Ops>, String> {
    let s = c.sample.clone();
    Ok(Some((
        vec![c.sample.text()],
        Box::new(move |r| match &r[0] {
            // judged by C01
            Err(_) => Ok(()),
            Ok(t) => {
                let out = json::parse(t).map_err(|e| format!("serialised text is not JSON: {e}: {t}"))?;
                compare::kept(&s, &out, "").map_err(|e| format!("round trip: {e}\n in  {}\n out {t}", s.text()))
            }
        }),
    )))
}

pub fn gen_rust(r: &mut TestRng) -> Case {
    gen_rust_of(r, 0)
}
/// Sometimes large; for the screen only.
fn gen_rust_large(r: &mut TestRng) -> Case {
    gen_rust_of(r, 1)
}
fn gen_rust_of(r: &mut TestRng, large: u32) -> Case {
    let mut r = R(r);
    let plain = r.pct(15);
    let cfg = Cfg { keys: if plain { Keys::Plain } else { Keys::All }, odd: 30, root_container: !r.pct(5), big: 2, ..Default::default() };
    let mut j = if large > 0 && r.pct(large) { gen::large(&mut r, &cfg, 30) } else { gen::sample(&mut r, &cfg) };
    let th = if r.pct(8) { Some(r.below(4)) } else { None };
    model::fill_any_missing(&mut j, th);
    let mut c = Case::new(&gen::name_for(&mut r, &j), j).opt("output_mode", "rust");
    if r.pct(60) {
        c = c.opt("import_style", r.pick(sut::STYLES));
    }
    if r.pct(40) {
        c = c.opt("property_name_format", r.pick(sut::FORMATS));
    }
    if let Some(t) = th {
        c = c.opt("infer_map_threshold", &t.to_string());
    } else if r.pct(5) {
        c = super::shapes::map_hints(&mut r, c);
    }
    c.nums = vec![r.below(1 << 30) as i64];
    c
}
/// few objects, but many keys from the pools of reserved, colliding and odd spellings
pub fn gen_keys(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let cfg = Cfg { depth: 2, ..Default::default() };
    let format = if r.pct(40) { *r.pick(sut::FORMATS) } else { "" };
    let leaf = |r: &mut R| -> J {
        match r.below(9) {
            0..=1 => J::Num("1".into()),
            2 => J::Str("x".into()),
            3 => J::Null,
            4 => J::Arr(vec![]),
            5 => J::Arr(vec![J::Num("1".into())]),
            6 => J::Num("0.5".into()),
            7 => J::Arr(vec![J::Num("1".into()), J::Str("x".into())]),
            _ => J::Bool(true),
        }
    };
    fn obj(r: &mut R, cfg: &Cfg, format: &str, leaf: &dyn Fn(&mut R) -> J, d: usize) -> J {
        let n = r.range(1, 7);
        let mine: Vec<&str>;
        let own: Vec<String>;
        let pool: Option<&[&str]> = match r.below(if format.is_empty() { 5 } else { 7 }) {
            0 => Some(gen::KEYWORDS),
            5 | 6 => {
                own = (0..8).map(|_| gen::formatted(r, format)).collect();
                mine = own.iter().map(|x| x.as_str()).collect();
                Some(&mine)
            }
            1 if r.pct(50) => {
                let l = gen::learned();
                let at = r.below(l.len());
                mine = (0..12).map(|i| l[(at + i * 7) % l.len()].as_str()).collect();
                Some(&mine)
            }
            1 => Some(gen::TYPES),
            2 if r.pct(50) => {
                own = (0..8).map(|_| gen::words(r)).collect();
                mine = own.iter().map(|x| x.as_str()).collect();
                Some(&mine)
            }
            2 => Some(gen::CASES),
            _ => None,
        };
        let mut m: Vec<(String, J)> = vec![];
        for _ in 0..n {
            let k = match pool {
                Some(p) if r.pct(80) => r.pick(p).to_string(),
                _ => gen::key(r, cfg),
            };
            if m.iter().any(|x| x.0 == k) {
                continue;
            }
            let v = if d > 0 && r.pct(45) {
                let o = obj(r, cfg, format, leaf, d - 1);
                if r.pct(30) {
                    J::Arr(vec![o])
                } else {
                    o
                }
            } else {
                leaf(r)
            };
            m.push((k, v));
        }
        J::Obj(m)
    }
    let mut j = obj(&mut r, &cfg, format, &leaf, 2);
    if r.pct(20) {
        j = J::Arr(vec![j, obj(&mut r, &cfg, format, &leaf, 1)]);
    }
    model::fill_any_missing(&mut j, None);
    let mut c = Case::new(&gen::name_for(&mut r, &j), j).opt("output_mode", "rust");
    if r.pct(60) {
        c = c.opt("import_style", r.pick(sut::STYLES));
    }
    if !format.is_empty() {
        c = c.opt("property_name_format", format);
    }
    c.nums = vec![r.below(1 << 30) as i64];
    c
}

fn single(check: fn(&[Case]) -> Vec<Result<Pass, String>>) -> Arc<dyn Fn(usize) -> Box<dyn crate::run::Checker> + Send + Sync> {
    Arc::new(move |_| Box::new(move |c: &Case| check(std::slice::from_ref(c)).remove(0)))
}

fn batch_c01(c: &[Case]) -> Vec<Result<Pass, String>> {
    decide(c, &ops_c01)
}
fn batch_c02(c: &[Case]) -> Vec<Result<Pass, String>> {
    decide(c, &ops_c02)
}
pub fn c01() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: format!("generated code compiled by rustc (editions 2021 and 2024, serde, serde_json) and the sample deserialised; up to eight near misses (a value of another type, null, a missing key, a tuple of another length, each at one place) must fail; {SCREEN_RULE}. {}", model::NONTRIVIAL_RULE),
        assumptions: vec![
            "object keys are distinct and integers fit in i64".into(),
            "the root name is a Rust identifier that is not the name of a type the generated code uses".into(),
            "assume_existing is compiled with Serialize, Deserialize, HashMap and Value imported".into(),
        ],
        campaigns: vec![("screen", n(120_000, 3_000_000), Arc::new(gen_rust_large)), ("screen-keys", n(120_000, 3_000_000), Arc::new(gen_keys))],
        make: screen(|c| suspicious(c, false)),
        max_shrink: 400,
        threads: 8,
        batch: Some(Batch {
            campaigns: vec![("schema", n(1600, 30_000), Arc::new(gen_rust)), ("keys", n(1600, 30_000), Arc::new(gen_keys))],
            size: 320,
            check: Arc::new(batch_c01),
            rounds: 60,
        }),
    }
}
pub fn c02() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: format!("the sample is deserialised and serialised again with the compiled type and compared; {SCREEN_RULE}. {}", model::NONTRIVIAL_RULE),
        batch: Some(Batch {
            campaigns: vec![("schema", n(1600, 30_000), Arc::new(gen_rust)), ("keys", n(1600, 30_000), Arc::new(gen_keys))],
            size: 320,
            check: Arc::new(batch_c02),
            rounds: 60,
        }),
        campaigns: vec![("screen", n(120_000, 3_000_000), Arc::new(gen_rust_large)), ("screen-keys", n(120_000, 3_000_000), Arc::new(gen_keys))],
        make: screen(|c| suspicious(c, true)),
        ..c01()
    }
}
// ---------------------------------------------------------------- screen
/// Reads the generated code without compiling it. What looks wrong is only a suspect: the compiler decides
/// (see `run::SUSPECTS`), so nothing here can raise an alarm by itself.
fn suspicious(c: &Case, lossless: bool) -> Result<(), String> {
    let code = sut::caught(&c.with_mode("rust"))?;
    let d = decl::rust(&code)?;
    let root = split_name(&c.name).1;
    if d.get(&root).is_none() {
        return Err("the root is not declared".into());
    }
    let qualified = c.get("import_style") == "qualified_paths";
    for (n, b) in &d.items {
        let used: &[&str] = if qualified { &["String", "Vec", "Option", "bool", "i64", "f64"] } else { &["String", "Vec", "Option", "bool", "i64", "f64", "HashMap", "Value"] };
        if used.contains(&n.as_str()) || n == "gen" {
            return Err(format!("{n} is shadowed"));
        }
        let fields: Vec<&Ty> = match b {
            decl::Body::Obj(f) => {
                if let Some(f) = f.iter().find(|f| f.member == "gen" || f.member == "_") {
                    return Err(format!("field {}", f.member));
                }
                f.iter().map(|f| &f.ty).collect()
            }
            decl::Body::Alias(t) => vec![t],
        };
        if fields.iter().any(|t| long_tuple(t)) {
            return Err("a tuple of more than 12 elements".into());
        }
        let (mut seen, mut todo) = (vec![], vec![]);
        fields.iter().for_each(|t| inline(t, &mut todo));
        while let Some(x) = todo.pop() {
            if x == *n {
                return Err(format!("{n} contains itself"));
            }
            if seen.contains(&x) {
                continue;
            }
            match d.get(&x) {
                Some(decl::Body::Obj(f)) => f.iter().for_each(|f| inline(&f.ty, &mut todo)),
                Some(decl::Body::Alias(t)) => inline(t, &mut todo),
                None => {}
            }
            seen.push(x);
        }
    }
    let root = Ty::Ref(root);
    if let Err(e) = d.accepts(&root, &c.sample, "") {
        if lossless || !e.contains("has no member in") {
            return Err(e);
        }
    }
    if lossless || !super::lang::known_types(c) {
        return Ok(());
    }
    let m = model::shape_of(&c.sample, super::lang::threshold(c));
    let mut ch = Ch::new(c.nums.first().copied().unwrap_or(0));
    for p in compare::probes(&c.sample, &m, &mut |n| ch.below(n), C01_KINDS, 8) {
        if d.accepts(&root, &p.json, "").is_ok() {
            return Err(p.what);
        }
    }
    Ok(())
}
fn long_tuple(t: &Ty) -> bool {
    match t {
        Ty::Tup(v) => v.len() > 12 || v.iter().any(long_tuple),
        Ty::List(t) | Ty::Map(t) | Ty::Opt(t) => long_tuple(t),
        _ => false,
    }
}
/// types that are stored inside a value of `t` itself
fn inline(t: &Ty, out: &mut Vec<String>) {
    match t {
        Ty::Ref(r) => out.push(r.clone()),
        Ty::Opt(t) => inline(t, out),
        Ty::Tup(v) => v.iter().for_each(|t| inline(t, out)),
        _ => {}
    }
}
fn suspicious_options(c: &Case) -> Result<(), String> {
    declared(c)?;
    let code = sut::generate(&c.with_mode("rust"))?;
    let f = syn2::parse_file(&code).map_err(|e| e.to_string())?;
    for it in &f.items {
        let syn2::Item::Struct(s) = it else { continue };
        let has = |attrs: &[syn2::Attribute], what: &str| {
            attrs.iter().any(|a| {
                let mut found = false;
                if a.path().is_ident("serde") {
                    let _ = a.parse_nested_meta(|m| {
                        found |= m.path.is_ident(what);
                        if m.input.peek(syn2::Token![=]) {
                            let _: syn2::LitStr = m.value()?.parse()?;
                        }
                        Ok(())
                    });
                }
                found
            })
        };
        for (o, what) in [("deny_unknown_fields", "deny_unknown_fields"), ("use_default_for_missing_fields", "default")] {
            if c.flag(o) && !has(&s.attrs, what) {
                return Err(format!("{} has no {what}", s.ident));
            }
        }
        if c.flag("collect_additional") && s.fields.iter().filter(|f| has(&f.attrs, "flatten")).count() != 1 {
            return Err(format!("{} has no flatten", s.ident));
        }
    }
    let d = decl::rust(&code)?;
    d.accepts(&Ty::Ref(split_name(&c.name).1), &c.sample, "")
}
fn screen(suspect: fn(&Case) -> Result<(), String>) -> Arc<dyn Fn(usize) -> Box<dyn crate::run::Checker> + Send + Sync> {
    Arc::new(move |_| {
        Box::new(move |c: &Case| {
            if let Some(w) = outside(c) {
                return Pass::skip(w);
            }
            let mut t = model::tags(&c.sample);
            let nt = model::nontrivial(&t);
            if let Err(m) = suspect(c) {
                t.push("suspect");
                crate::run::suspect(c, &m);
            }
            Ok(Pass::of(t, nt))
        })
    })
}
const C01_KINDS: &[compare::Kind] =
    &[compare::Kind::Type, compare::Kind::Fraction, compare::Kind::Null, compare::Kind::Missing, compare::Kind::Arity];
const SCREEN_RULE: &str = "before that, a screen reads the code generated for many more cases with syn and interprets it; what it suspects is decided by the compiler";

// ---------------------------------------------------------------- C03
fn ops_c03(c: &Case) -> Result<Option<Ops>, String> {
    let m = model::shape_of(&c.sample, None);
    let mut places = vec![];
    compare::structs(&c.sample, &m, &mut vec![], &mut places);
    let mut ch = Ch::new(c.nums.first().copied().unwrap_or(0));
    let sample = c.sample.clone();
    let mut ops = vec![c.sample.text()];
    #[derive(Clone)]
    enum Want {
        Accept(&'static str),
        Reject,
        Keep(Vec<Step>, String, J),
        OptVec(Vec<(Vec<Step>, String)>, bool),
    }
    let mut wants: Vec<(J, Want)> = vec![(sample.clone(), Want::Accept("the sample"))];
    let fresh = ["zz_unknown", "Zz Unknown", "éz\"", "additional_fieldz", "aZ"];
    let pick = |ch: &mut Ch, f: &Vec<(String, M, bool)>, o: &J| -> Option<String> {
        let k = fresh[ch.below(fresh.len())].to_string();
        let J::Obj(o) = o else { return None };
        if f.iter().any(|x| x.0 == k) || o.iter().any(|x| x.0 == k) {
            None
        } else {
            Some(k)
        }
    };
    for (i, (p, f)) in places.iter().enumerate() {
        if i > 0 && ch.below(3) == 0 || i > 12 {
            continue;
        }
        let o = compare::at(&sample, p).unwrap().clone();
        if c.flag("deny_unknown_fields") {
            if let Some(k) = pick(&mut ch, f, &o) {
                let mut s = sample.clone();
                if let Some(J::Obj(m)) = compare::at_mut(&mut s, p) {
                    m.push((k, J::Num("1".into())));
                }
                wants.push((s, Want::Reject));
            }
        }
        if c.flag("use_default_for_missing_fields") {
            if let J::Obj(m) = &o {
                if !m.is_empty() {
                    let mut s = sample.clone();
                    if let Some(J::Obj(m)) = compare::at_mut(&mut s, p) {
                        if ch.below(2) == 0 {
                            m.remove(ch.below(m.len()));
                        } else {
                            let keep = ch.below(64) as u64;
                            let mut i = 0;
                            m.retain(|_| {
                                i += 1;
                                keep >> (i % 6) & 1 == 1
                            });
                        }
                    }
                    wants.push((s, Want::Accept("the sample with keys removed")));
                }
            }
        }
        if c.flag("collect_additional") {
            if let Some(k) = pick(&mut ch, f, &o) {
                let v = [J::Num("7".into()), J::Null, J::Str("x".into()), J::Arr(vec![J::Num("0.5".into())]), J::Obj(vec![("a".into(), J::Bool(true))])]
                    [ch.below(5)]
                .clone();
                let mut s = sample.clone();
                if let Some(J::Obj(m)) = compare::at_mut(&mut s, p) {
                    m.push((k.clone(), v.clone()));
                }
                wants.push((s, Want::Keep(p.clone(), k, v)));
            }
        }
    }
    // optional lists that are missing
    if !c.flag("use_default_for_missing_fields") {
        let mut v = vec![];
        for (p, f) in &places {
            let Some(J::Obj(o)) = compare::at(&sample, p) else { continue };
            for (k, m, opt) in f.iter() {
                if *opt && matches!(m, M::List(_)) && !o.iter().any(|x| x.0 == *k) {
                    v.push((p.clone(), k.clone()));
                }
            }
        }
        wants.push((sample.clone(), Want::OptVec(v, c.flag("allow_option_vec"))));
    }
    for w in wants.iter().skip(1) {
        ops.push(w.0.text());
    }
    let c2 = c.clone();
    Ok(Some((
        ops,
        Box::new(move |r| {
            declared(&c2)?;
            for ((j, w), r) in wants.iter().zip(r) {
                match (w, r) {
                    (Want::Accept(what), Err(e)) => return Err(format!("{what} does not deserialise: {e}\n json {}", j.text())),
                    (Want::Accept(_), Ok(_)) => {}
                    (Want::Reject, Ok(_)) => return Err(format!("deny_unknown_fields: an object with an unknown key is accepted\n json {}", j.text())),
                    (Want::Reject, Err(_)) => {}
                    (Want::Keep(_, k, _), Err(e)) => return Err(format!("collect_additional: additional key {k:?} is not accepted: {e}\n json {}", j.text())),
                    (Want::Keep(p, k, v), Ok(t)) => {
                        let out = json::parse(t).map_err(|e| format!("serialised text is not JSON: {e}"))?;
                        if c2.flag("use_default_for_missing_fields") {
                            // missing fields come back as their defaults
                            let mut q = p.clone();
                            q.push(Step::Key(k.clone()));
                            let Some(got) = compare::at(&out, &q) else {
                                return Err(format!("collect_additional: key {k:?} is lost\n in  {}\n out {t}", j.text()));
                            };
                            compare::kept(v, got, "additional value").map_err(|e| format!("collect_additional: {e}\n in  {}\n out {t}", j.text()))?;
                            continue;
                        }
                        compare::kept(j, &out, "").map_err(|e| format!("collect_additional: {e}\n in  {}\n out {t}", j.text()))?;
                    }
                    (Want::OptVec(..), Err(_)) => {}
                    (Want::OptVec(v, allow), Ok(t)) => {
                        let out = json::parse(t).map_err(|e| format!("serialised text is not JSON: {e}"))?;
                        for (p, k) in v {
                            let mut q = p.clone();
                            q.push(Step::Key(k.clone()));
                            let got = compare::at(&out, &q).cloned().unwrap_or(J::Null);
                            let is_list = got == J::Arr(vec![]);
                            if is_list == *allow {
                                return Err(format!("allow_option_vec {allow}: the missing list {k:?} comes back as {}\n json {}", got.text(), j.text()));
                            }
                        }
                    }
                }
            }
            Ok(())
        }),
    )))
}
/// derives and visibilities as they appear in the generated code
fn declared(c: &Case) -> Result<(), String> {
    use quote::ToTokens;
    let code = sut::generate(&c.with_mode("rust"))?;
    let f = syn2::parse_file(&code).map_err(|e| format!("generated code does not parse: {e}"))?;
    let norm = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    let qualified = c.get("import_style") == "qualified_paths";
    let derives = if c.opts.contains_key("derives") {
        c.get("derives").to_string()
    } else {
        "Default, Debug, Clone, PartialEq, serde_derive::Serialize, serde_derive::Deserialize".into()
    };
    let want: Vec<String> = derives
        .split(',')
        .map(|d| if qualified { norm(d) } else { norm(d.rsplit("::").next().unwrap()) })
        .collect();
    let (vis, name) = split_name(&c.name);
    let fvis = if c.opts.contains_key("field_visibility") { c.get("field_visibility").to_string() } else { "pub".into() };
    for it in &f.items {
        match it {
            syn2::Item::Struct(s) => {
                if norm(&s.vis.to_token_stream().to_string()) != norm(&vis) {
                    return Err(format!("struct {} has visibility `{}`, not `{vis}`", s.ident, s.vis.to_token_stream()));
                }
                let mut got = vec![];
                for a in &s.attrs {
                    if let syn2::Meta::List(l) = &a.meta {
                        if l.path.is_ident("derive") {
                            got.extend(l.tokens.to_string().split(',').map(|x| norm(x)));
                        }
                    }
                }
                if got != want {
                    return Err(format!("struct {} derives {got:?}, not {want:?}", s.ident));
                }
                for fl in &s.fields {
                    if norm(&fl.vis.to_token_stream().to_string()) != norm(&fvis) {
                        return Err(format!("field {:?} of {} has visibility `{}`, not `{fvis}`", fl.ident, s.ident, fl.vis.to_token_stream()));
                    }
                }
            }
            syn2::Item::Type(t) if t.ident == name => {
                if norm(&t.vis.to_token_stream().to_string()) != norm(&vis) {
                    return Err(format!("type {} has visibility `{}`, not `{vis}`", t.ident, t.vis.to_token_stream()));
                }
            }
            _ => {}
        }
    }
    Ok(())
}
fn batch_c03(c: &[Case]) -> Vec<Result<Pass, String>> {
    decide(c, &ops_c03)
}
fn gen_c03(r: &mut TestRng) -> Case {
    gen_c03_of(r, 0)
}
fn gen_c03_large(r: &mut TestRng) -> Case {
    gen_c03_of(r, 1)
}
fn gen_c03_of(r: &mut TestRng, large: u32) -> Case {
    let mut c = if R(r).pct(70) { gen_rust_of(r, large) } else { gen_keys(r) };
    c.opts.remove("infer_map_threshold");
    c.hints.clear();
    let mut r = R(r);
    match r.below(6) {
        0 => c = c.opt("deny_unknown_fields", "true"),
        1 => c = c.opt("use_default_for_missing_fields", "true"),
        2 => c = c.opt("collect_additional", "true"),
        3 => c = c.opt("deny_unknown_fields", "true").opt("use_default_for_missing_fields", "true"),
        4 => c = c.opt("collect_additional", "true").opt("use_default_for_missing_fields", "true"),
        _ => {}
    }
    if r.pct(50) {
        c = c.opt("allow_option_vec", if r.pct(80) { "true" } else { "false" });
    }
    if r.pct(40) {
        c = c.opt("field_visibility", r.pick(&["", "pub", "pub(crate)", "pub(super)", "pub(in crate)"]));
    }
    if r.pct(40) {
        let n = c.name.clone();
        c.name = format!("{} {n}", r.pick(&["pub", "pub(crate)", "pub(super)", "pub(in crate)"]));
    }
    if r.pct(40) {
        let ds: &[&str] = if c.flag("use_default_for_missing_fields") {
            &["Default, serde_derive::Serialize, serde_derive::Deserialize", "serde_derive::Deserialize,Debug,  serde_derive::Serialize,Default", "Default, serde::Serialize, serde::Deserialize"]
        } else {
            &[
                "serde_derive::Serialize, serde_derive::Deserialize",
                "Debug,serde_derive::Deserialize,Clone,  serde_derive::Serialize",
                "serde::Serialize, serde::Deserialize, PartialEq",
                "std::fmt::Debug, ::serde::Serialize, ::serde::Deserialize, core::clone::Clone",
            ]
        };
        c = c.opt("derives", r.pick(ds));
    }
    c.nums = vec![r.below(1 << 30) as i64];
    c
}
pub fn c03() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: format!("random combinations of the Rust options; compiled types are fed the sample, the sample with keys added to or removed from objects the model describes as structs; attributes read with syn; {SCREEN_RULE}. {}", model::NONTRIVIAL_RULE),
        assumptions: vec![
            "deny_unknown_fields is not combined with collect_additional (serde does not support it)".into(),
            "derives include Serialize and Deserialize, and Default when use_default_for_missing_fields is set".into(),
        ],
        batch: Some(Batch {
            campaigns: vec![("options", n(2400, 40_000), Arc::new(gen_c03))],
            size: 320,
            check: Arc::new(batch_c03),
            rounds: 60,
        }),
        campaigns: vec![("screen", n(120_000, 3_000_000), Arc::new(gen_c03_large))],
        make: screen(suspicious_options),
        ..c01()
    }
}

// ---------------------------------------------------------------- C19
/// The invocation of the macro for this case: code, body of the function, files, arguments
fn invocation(c: &Case) -> (Module, String) {
    let mut ch = Ch::new(c.nums.first().copied().unwrap_or(0));
    let lit = |s: &str, ch: &mut Ch| super::options::literal(s, ch, false);
    let mut o = c.clone();
    o.opts.remove("output_mode");
    let mut files = vec![];
    let mut text = super::core::respell(&c.sample, &mut ch);
    let bad = c.get("_bad").to_string();
    if bad == "cut" {
        text = text.trim().to_string();
        let k: Vec<usize> = text.char_indices().map(|x| x.0).collect();
        text.truncate(k[ch.below(k.len())].max(1));
        if text.len() == 1 && json::parse(&text).is_ok() {
            text = "[".into();
        }
    }
    let container = text.trim_start().starts_with(['{', '[']);
    let source = if bad == "file" {
        ["nowhere.json", "nowhere/at/all.json", "", "src"][ch.below(4)].to_string()
    } else if !container || (bad != "unwrap" && ch.below(3) == 0) {
        let n = format!("sample{:x}.json", hash_of(&(c, "file")));
        files.push((n.clone(), text.clone()));
        [n.clone(), format!("./{n}"), format!(" {n} ")][ch.below(3)].clone()
    } else {
        text.clone()
    };
    let mut block = o.block();
    match bad.as_str() {
        "option" => block = block.replacen('{', ["{ no_such_option, ", "{ deny_unknown_field: true, ", "{ \"derive\": \"Debug\", ", "{ unwrap, ", "{ unwrap: 1, ", "{ deny_unknown_fields: \"true\", ", r#"{ "no\\such \"option\"": true, "#, r#"{ "\\q\\u{1}\\": {}, "#, r#"{ "{}{0}no such{{": true, "#][ch.below(9)], 1),
        // what the options insert into the code is no Rust (the compiler's own lexer panics where brackets do not match)
        "tokens" => block = [r#"{ derives: "Debug \"" }"#, r#"{ derives: "0b" }"#, r##"{ derives: "r#\"" }"##, r#"{ field_visibility: "'" }"#, r#"{ "/": { use_type: "a\"b" }, derives: "\"" }"#, r#"{ derives: "0x" }"#, r#"{ field_visibility: "pub in" }"#, r#"{ field_visibility: "/*" }"#][ch.below(8)].into(),
        "unwrap" => block = [r#"{ unwrap: "/no such key at all" }"#, r#"{ unwrap: "/no such\\key \"at\" all\\" }"#, r#"{ unwrap: "/{no} such {{key" }"#][ch.below(3)].into(),
        _ => {}
    }
    let mut args = format!("{}, {}", lit(&c.name, &mut ch), lit(&source, &mut ch));
    if !(o.opts.keys().all(|k| k.starts_with('_')) && o.hints.is_empty() && ch.below(2) == 0 && bad != "option" && bad != "unwrap" && bad != "tokens") {
        args += ", ";
        args += &if ch.below(3) == 0 { lit(&block, &mut ch) } else { block.clone() };
    }
    match bad.as_str() {
        "args" => {
            args = [
                String::new(),
                lit(&c.name, &mut ch),
                format!("{} {}", lit(&c.name, &mut ch), lit(&source, &mut ch)),
                format!("Root, {}", lit(&source, &mut ch)),
                format!("{}, sample", lit(&c.name, &mut ch)),
                format!("{}, {{}}", lit(&c.name, &mut ch)),
                format!("{}, {};", lit(&c.name, &mut ch), lit(&source, &mut ch)),
                format!("{}, {}, options", lit(&c.name, &mut ch), lit(&source, &mut ch)),
                format!("{}, {}, \"{{\"", lit(&c.name, &mut ch), lit(&source, &mut ch)),
                format!("{}, {}, {{}} {{}}", lit(&c.name, &mut ch), lit(&source, &mut ch)),
                format!("{}, {}, {{}}, {{}}", lit(&c.name, &mut ch), lit(&source, &mut ch)),
                format!("b{}, {}", crate::case::rust_str("Root"), lit(&source, &mut ch)),
                "1, 2".into(),
                format!("{}, {}, \"{{}}\" x", lit(&c.name, &mut ch), lit(&source, &mut ch)),
                format!("{}, {}, r\"{{ }}\", {{}}", lit(&c.name, &mut ch), lit(&source, &mut ch)),
                format!("{}, {}, \"{{}}\" \"{{}}\"", lit(&c.name, &mut ch), lit(&source, &mut ch)),
            ][ch.below(16)]
            .clone();
        }
        _ => {}
    }
    let root = split_name(&c.name).1;
    let (open, close) = [("(", ")"), ("[", "]"), ("{", "}")][ch.below(3)];
    let (pre, path) = [("", "::json_typegen::json_typegen"), ("use json_typegen::json_typegen;\n", "json_typegen"), ("use ::json_typegen::json_typegen as typegen;\n", "typegen")][ch.below(3)];
    let call = format!("{path}!{open}{args}{close}{}", if open == "{" { "" } else { ";" });
    // another invocation beside it, with types of its own
    let twice = bad.is_empty() && !matches!(c.get("import_style"), "add_imports" | "assume_existing") && !c.name.contains("ZzSecond") && ch.below(4) == 0;
    let call = if twice {
        let second = [r##""ZzSecond", "{\"zz second\": 1}""##, r##"r"ZzSecond", r#"[{"a": null, "b": [true]}]"#, { output_mode: "rust" }"##, r##""ZzSecond", "[1, null]", "{}""##][ch.below(3)];
        [format!("{call}\n{path}!({second});"), format!("{path}!{{{second}}}\n{call}")][ch.below(2)].clone()
    } else {
        call
    };
    let (code, rootx) = match ch.below(4) {
        // inside a function body
        0 => (pre.to_string(), format!("={call}\n::rt::de::<{root}>(s)")),
        // inside a module without anything in scope
        1 if bad.is_empty() => (format!("pub(crate) mod inner {{ {pre} {call}\npub(crate) fn go(s: &::core::primitive::str) -> ::core::result::Result<::std::string::String, ::std::string::String> {{ ::rt::de::<{root}>(s) }} }}"), "=inner::go(s)".to_string()),
        // inside a block of a constant
        2 if bad.is_empty() => (format!("{pre}const _: () = {{ {call} }};\n{call}"), root.clone()),
        _ => (format!("{pre}{call}"), root.clone()),
    };
    (Module { code, root: rootx, edition: if ch.below(2) == 0 { 2021 } else { 2024 }, ops: vec![c.sample.text()], files }, args)
}
fn batch_c19(cases: &[Case]) -> Vec<Result<Pass, String>> {
    let alnum = |s: &str| s.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>();
    let mut res: Vec<Option<Result<Pass, String>>> = vec![None; cases.len()];
    let mut mods = vec![];
    let mut idx = vec![];
    for (i, c) in cases.iter().enumerate() {
        if let Some(w) = outside(c) {
            res[i] = Some(Pass::skip(w));
            continue;
        }
        if c.get("_bad") == "cut" && c.sample.text().trim_start().starts_with(|x: char| x == '-' || x.is_ascii_digit()) {
            res[i] = Some(Pass::skip("a number that is cut is a number"));
            continue;
        }
        let (m, args) = invocation(c);
        if c.get("_bad") == "unwrap" && !m.files.is_empty() {
            res[i] = Some(Pass::skip("the message of a sample in a file"));
            continue;
        }
        idx.push((i, args));
        mods.push(m);
    }
    for ((i, args), (o, m)) in idx.into_iter().zip(rustc::run_all(&mods).into_iter().zip(&mods)) {
        let c = &cases[i];
        let bad = c.get("_bad");
        res[i] = Some(match o {
            Outcome::Compile(e) if bad.is_empty() => Err(format!("the expansion does not compile (edition {}):\n{e}\n--- code\n{}", m.edition, m.code)),
            Outcome::Compile(e) => {
                // what the library says about these arguments; files are beside the crate
                let want = match bad {
                    "file" => "No such file or directory".to_string(),
                    // whatever the compiler says
                    "tokens" => String::new(),
                    "cut" => "An error occurred while parsing JSON".to_string(),
                    _ => match std::panic::catch_unwind(|| json_typegen_shared::codegen_from_macro_input(&args)) {
                        Ok(Ok(_)) => String::new(),
                        Ok(Err(e)) => e.to_string(),
                        Err(_) => "panic".to_string(),
                    },
                };
                let want = want.split(" but remaining input").next().unwrap_or("").to_string();
                // without the source lines that the compiler quotes
                let quoted = |l: &&str| l.trim_start().trim_start_matches(|c: char| c.is_ascii_digit()).trim_start().starts_with('|');
                let told: String = e.lines().filter(|l| !quoted(l)).collect::<Vec<_>>().join("\n");
                if e.contains("panicked") {
                    Err(format!("the macro panics:\n{e}\n--- code\n{}", m.code))
                } else if bad == "file" && !["no such file", "is a directory", "reading json"].iter().any(|w| e.to_lowercase().contains(w)) {
                    Err(format!("the compile error does not tell what is wrong with the file:\n{e}\n--- code\n{}", m.code))
                } else if bad != "file" && !alnum(&told).contains(&alnum(&want)) {
                    Err(format!("the compile error does not carry the message {want:?}:\n{e}\n--- code\n{}", m.code))
                } else {
                    Ok(Pass::of(vec!["compile error"], true))
                }
            }
            // an option that has no effect on this sample
            Outcome::Ran(_) if bad == "tokens" => Ok(Pass::of(vec!["odd tokens"], false)),
            Outcome::Ran(_) if !bad.is_empty() => {
                Err(format!("an invocation with a bad {bad} compiles\n--- code\n{}\n{}", m.code, m.root))
            }
            Outcome::Ran(v) => match &v[0] {
                Err(e) => Err(format!("the sample does not deserialise: {e}\n--- code\n{}", m.code)),
                Ok(_) => {
                    let mut t = model::tags(&c.sample);
                    let nt = model::nontrivial(&t);
                    t.push(if m.files.is_empty() { "inline sample" } else { "file sample" });
                    if m.root.contains("json_typegen!") || m.root.contains("typegen!") {
                        t.push("in a function");
                    }
                    Ok(Pass::of(t, nt))
                }
            },
        });
    }
    res.into_iter().map(|x| x.unwrap()).collect()
}
fn gen_c19(r: &mut TestRng) -> Case {
    let mut c = if R(r).pct(60) { gen_rust(r) } else { gen_keys(r) };
    let mut r = R(r);
    c.opts.remove("output_mode");
    if c.get("import_style") == "assume_existing" || r.pct(60) {
        c.opts.remove("import_style");
    }
    if r.pct(10) {
        c = c.opt("derives", r.pick(&["Debug", "Clone", "Debug, Clone, PartialEq", ""]));
        // rt needs both directions
        let d = c.get("derives").to_string();
        c = c.opt("derives", &format!("{d}{}serde_derive::Serialize, serde_derive::Deserialize", if d.is_empty() { "" } else { ", " }));
        c.opts.remove("import_style");
    } else if r.pct(20) {
        c = c.opt("use_default_for_missing_fields", "true");
    }
    match r.below(8) {
        0 => c = c.opt("deny_unknown_fields", "true"),
        1 | 2 => c = c.opt("collect_additional", "true"),
        3 => c = c.opt("allow_option_vec", if r.pct(70) { "true" } else { "false" }),
        _ => {}
    }
    if r.pct(15) {
        c = c.opt("field_visibility", r.pick(&["", "pub", "pub(crate)", "pub(super)", "pub(self)"]));
    }
    c
}
fn gen_c19_bad(r: &mut TestRng) -> Case {
    let mut c = gen_c19(r);
    let mut r = R(r);
    let k = r.pick(&["cut", "file", "option", "args", "unwrap", "tokens"]).to_string();
    if k == "tokens" {
        // nothing else in the code may hold quotes: the compiler's lexer panics where brackets do not match
        c.sample = gen::sample(&mut r, &Cfg { keys: Keys::Plain, ..Default::default() });
        c.opts.remove("property_name_format");
    }
    c.opt("_bad", &k)
}
pub fn c19() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: format!("crates compiled by rustc (editions 2021 and 2024) that invoke the procedural macro in modules, function bodies, constants and nested modules, with random literal forms, delimiters, option spellings and the sample inline or in a file; the sample is deserialised with the expansion; invocations with a cut sample, a missing file, a bad option or bad arguments must give a compile error with the library's message. {}", model::NONTRIVIAL_RULE),
        assumptions: vec!["derives keep Serialize and Deserialize".into(), "two invocations in one module are not judged (their types may have the same name)".into()],
        campaigns: vec![],
        make: single(batch_c19),
        max_shrink: 400,
        threads: 8,
        batch: Some(Batch {
            campaigns: vec![("valid", n(1600, 30_000), Arc::new(gen_c19)), ("errors", n(1600, 30_000), Arc::new(gen_c19_bad))],
            size: 320,
            check: Arc::new(batch_c19),
            rounds: 60,
        }),
    }
}
