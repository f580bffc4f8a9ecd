//! Generated Kotlin: C07.
use super::core::Ch;
use super::lang;
use super::n;
use crate::case::Case;
use crate::compare::{self, Kind};
use crate::decl::{self, Ty};
use crate::gen::R;
use crate::model::{self, M};
use crate::run::{Pass, Prop};
use crate::sut;
use proptest::test_runner::TestRng;
use std::sync::Arc;

/// Kotlin has no tuples of more than three elements: the output describes them as lists of anything.
fn limit(m: &M) -> M {
    match m {
        M::Tup(v) if v.len() > 3 => M::List(Box::new(M::Any)),
        M::Tup(v) => M::Tup(v.iter().map(limit).collect()),
        M::List(e) => M::List(Box::new(limit(e))),
        M::Map(e) => M::Map(Box::new(limit(e))),
        M::Nullable(e) => M::Nullable(Box::new(limit(e))),
        M::Obj(f) => M::Obj(f.iter().map(|(k, m, o)| (k.clone(), limit(m), *o)).collect()),
        m => m.clone(),
    }
}
pub fn check(c: &Case) -> Result<Pass, String> {
    decide(c, None)
}
/// Besides the acceptance of the sample, near misses of the given kinds (all, if None) are judged.
pub fn decide(c: &Case, only: Option<&[Kind]>) -> Result<Pass, String> {
    if c.sample.has_dup_keys() {
        return Pass::skip("duplicate keys");
    }
    let mode = c.get("output_mode").to_string();
    let code = sut::generate(c).map_err(|m| format!("valid sample rejected: {m}"))?;
    let ctx = |m: String| format!("{m}\n--- sample\n{}\n--- code\n{code}", c.sample.text());
    let d = decl::kotlin(&code, &mode, c.get("import_style")).map_err(|m| ctx(format!("the generated code is not valid: {m}")))?;
    if d.get(&c.name).is_none() {
        return Err(ctx(format!("{} is not declared", c.name)));
    }
    let root = Ty::Ref(c.name.clone());
    d.accepts(&root, &c.sample, "").map_err(|m| ctx(format!("the sample does not fit the generated type: {m}")))?;
    let m = limit(&model::shape_of(&c.sample, lang::threshold(c)));
    let mut ch = Ch::new(c.nums.first().copied().unwrap_or(0));
    let mut kinds = vec![Kind::Type, Kind::Fraction, Kind::Null, Kind::Missing, Kind::Arity, Kind::Unknown];
    if c.flag("collect_additional") {
        kinds.pop();
    }
    kinds.retain(|k| only.is_none_or(|o| o.contains(k)));
    let count = if lang::known_types(c) { 6 } else { 0 };
    for p in compare::probes(&c.sample, &m, &mut |n| ch.below(n), &kinds, count) {
        if d.accepts(&root, &p.json, "").is_ok() {
            return Err(ctx(format!("a value that differs from the sample is accepted: {}\n{}", p.what, p.json.text())));
        }
    }
    let t = model::tags(&c.sample);
    let nt = model::nontrivial(&t);
    Ok(Pass::of(t, nt))
}
fn gen_kotlin(r: &mut TestRng) -> Case {
    let mut c = lang::base(r);
    let mut r = R(r);
    c = c.with_mode(if r.pct(60) { "kotlin/jackson" } else { "kotlin/kotlinx" });
    if r.pct(60) {
        c = c.opt("import_style", r.pick(sut::STYLES));
    }
    if r.pct(50) {
        c = c.opt("property_name_format", r.pick(sut::FORMATS));
    }
    if r.pct(15) && c.get("output_mode") == "kotlin/jackson" {
        c = c.opt("collect_additional", "true");
    }
    c
}
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: format!("the code is parsed with a strict parser for the subset of Kotlin it is written in (string escapes, keywords, imports, shadowing, duplicate members), wire names follow from annotations and Jackson's naming strategies, and the sample is read by the declared types; up to six near misses must be rejected. {}", model::NONTRIVIAL_RULE),
        assumptions: vec![
            "no Kotlin compiler is available: the parser and Jackson's naming strategies are re-implemented".into(),
            "object keys are distinct".into(),
            "tuples of more than three elements are lists of anything".into(),
            "whether kotlinx can serialise Any, and how Jackson reads Pair and Triple, is not judged".into(),
        ],
        campaigns: vec![("samples", n(400_000, 6_000_000), Arc::new(gen_kotlin))],
        make: super::core::simple(check),
        max_shrink: 20_000,
        threads: 8,
        batch: None,
    }
}
