//! Generated TypeScript, Zod, JSON Schema and Python: C04, C05, C06, C08.
use super::core::Ch;
use super::n;
use crate::case::Case;
use crate::compare::{self, Kind, Probe};
use crate::gen::{self, Cfg, Keys, R};
use crate::json::J;
use crate::model::{self, M};
use crate::run::{Batch, Pass, Prop};
use crate::sut;
use crate::workers;
use proptest::test_runner::TestRng;
use serde_json::{json, Value};
use std::sync::Arc;

pub fn threshold(c: &Case) -> Option<usize> {
    c.get("infer_map_threshold").parse().ok()
}
/// The known finding "missing field with irreconcilable values" concerns the case (hints and unwrap considered).
pub fn any_missing(c: &Case) -> bool {
    let again = if matches!(c.get("output_mode"), "zod" | "typescript/typealias") { threshold(c) } else { None };
    if c.hints.is_empty() && c.get("unwrap").is_empty() && again.is_none() {
        return model::has_any_missing(&c.sample, threshold(c));
    }
    let ptrs: Vec<(Vec<String>, &str)> = c.hints.iter().filter_map(|h| Some((model::pointer(&h.0)?, h.1.as_str()))).collect();
    let hints: Vec<(&[String], &str)> = ptrs.iter().map(|h| (h.0.as_slice(), h.1)).collect();
    let mut nodes = vec![];
    model::nodes(&c.sample, &model::pointer(c.get("unwrap")).unwrap_or_default(), &mut nodes);
    let ts: Vec<model::T> = nodes.iter().filter_map(|n| model::annotate(n, &hints, threshold(c)).ok()).collect();
    model::any_missing(&ts.iter().collect::<Vec<_>>(), again)
}
fn outside(c: &Case) -> Option<&'static str> {
    if c.probe() {
        return None;
    }
    if c.sample.has_dup_keys() {
        return Some("duplicate keys");
    }
    if any_missing(c) {
        return Some("known finding: missing field with irreconcilable values");
    }
    None
}

/// How one output language is judged.
pub struct Lang {
    pub pool: fn() -> &'static workers::Pool,
    pub kind: &'static str,
    pub kinds: &'static [Kind],
    /// the type or variable the code must define, as the helper needs it
    pub extra: fn(&Case) -> Value,
    /// further verdict fields that must be null
    pub also: &'static [&'static str],
}
pub const TS: Lang = Lang {
    pool: workers::node,
    kind: "ts",
    kinds: &[Kind::Type, Kind::Null, Kind::NullOptional, Kind::Missing, Kind::MissingNullable, Kind::MissingAny, Kind::Unknown, Kind::Arity],
    extra: |c| json!({"root": c.name}),
    also: &[],
};
pub const ZOD: Lang = Lang {
    pool: workers::node,
    kind: "zod",
    kinds: &[Kind::Type, Kind::Null, Kind::NullOptional, Kind::Missing, Kind::MissingNullable, Kind::MissingAny, Kind::MissingNull, Kind::Unknown, Kind::Arity],
    extra: |_| json!({}),
    also: &[],
};
pub const SCHEMA: Lang = Lang {
    pool: workers::python,
    kind: "schema",
    kinds: &[Kind::Type, Kind::Null, Kind::NullOptional, Kind::Missing, Kind::MissingNullable, Kind::MissingAny, Kind::MissingNull],
    extra: |_| json!({}),
    also: &["closed"],
};
pub const PYTHON: Lang = Lang {
    pool: workers::python,
    kind: "pydantic",
    kinds: &[Kind::Type, Kind::Fraction, Kind::Null, Kind::Missing, Kind::Arity, Kind::Unknown],
    extra: |c| json!({"root": c.name, "style": if c.get("import_style").is_empty() { "add_imports" } else { c.get("import_style") }}),
    also: &[],
};

/// Besides the acceptance of the sample, near misses of the given kinds (all that the language tells, if None) are judged.
pub fn decide(lang: &Lang, cases: &[Case], mode: &dyn Fn(&Case) -> String, only: Option<&[Kind]>) -> Vec<Result<Pass, String>> {
    let mut res: Vec<Option<Result<Pass, String>>> = vec![None; cases.len()];
    let mut reqs = vec![];
    let mut idx: Vec<(usize, Vec<Probe>, String)> = vec![];
    for (i, c) in cases.iter().enumerate() {
        if let Some(w) = outside(c) {
            res[i] = Some(Pass::skip(w));
            continue;
        }
        let code = match sut::caught(&c.with_mode(&mode(c))) {
            Err(m) => {
                res[i] = Some(Err(format!("valid sample rejected: {m}")));
                continue;
            }
            Ok(c) => c,
        };
        let m = told(c, &mode(c));
        let kinds: Vec<Kind> = lang.kinds.iter().copied().filter(|k| only.is_none_or(|o| o.contains(k))).collect();
        let mut ch = Ch::new(c.nums.first().copied().unwrap_or(0));
        let ps = if known_types(c) { compare::probes(&c.sample, &m, &mut |n| ch.below(n), &kinds, 6) } else { vec![] };
        let mut samples = vec![c.sample.text()];
        samples.extend(ps.iter().map(|p| p.json.text()));
        let mut q = (lang.extra)(c);
        q["code"] = json!(code);
        q["samples"] = json!(samples);
        reqs.push(q);
        idx.push((i, ps, code));
    }
    for ((i, ps, code), v) in idx.into_iter().zip((lang.pool)().call(lang.kind, &reqs)) {
        let c = &cases[i];
        res[i] = Some(verdict(lang, c, &ps, &v).map_err(|e| format!("{e}\n--- sample\n{}\n--- code\n{code}", c.sample.text())));
    }
    res.into_iter().map(|x| x.unwrap()).collect()
}
fn verdict(lang: &Lang, c: &Case, ps: &[Probe], v: &Value) -> Result<Pass, String> {
    if let Some(e) = v["code"].as_str() {
        return Err(format!("the generated code is not valid: {e}"));
    }
    if let Some(e) = v["samples"][0].as_str() {
        return Err(format!("the sample does not fit the generated type: {e}"));
    }
    for a in lang.also {
        if let Some(e) = v[*a].as_str() {
            return Err(format!("{a}: {e}"));
        }
    }
    let mut t = model::tags(&c.sample);
    let nt = model::nontrivial(&t);
    for (k, p) in ps.iter().enumerate() {
        if v["samples"][k + 1].is_null() {
            return Err(format!("a value that differs from the sample is accepted: {}\n{}", p.what, p.json.text()));
        }
        let l = match p.kind {
            Kind::Type => "probe-type",
            Kind::Fraction => "probe-fraction",
            Kind::Null | Kind::NullOptional => "probe-null",
            Kind::Missing | Kind::MissingNullable | Kind::MissingAny | Kind::MissingNull => "probe-missing",
            Kind::Unknown => "probe-unknown-key",
            Kind::Arity => "probe-arity",
        };
        if !t.contains(&l) {
            t.push(l);
        }
    }
    Ok(Pass::of(t, nt))
}

pub fn gen_sample(r: &mut R) -> J {
    let plain = r.pct(20);
    let cfg = Cfg { keys: if plain { Keys::Plain } else { Keys::All }, odd: 30, root_container: !r.pct(5), ..Default::default() };
    let mut j = if r.pct(1) { gen::large(r, &cfg, 60) } else { gen::sample(r, &cfg) };
    model::fill_any_missing(&mut j, None);
    j
}
pub fn base(r: &mut TestRng) -> Case {
    let mut c = if R(r).pct(75) {
        let mut r = R(r);
        let j = gen_sample(&mut r);
        Case::new(&gen::name_for(&mut r, &j), j)
    } else {
        let mut c = super::rust::gen_keys(r);
        c.opts.clear();
        c
    };
    let mut r = R(r);
    c = super::shapes::maps(&mut r, c);
    c.nums = vec![r.below(1 << 30) as i64];
    c
}
/// The model tells the types: no hints, and the sample is the root.
pub fn known_types(c: &Case) -> bool {
    c.hints.is_empty() && c.get("unwrap").is_empty()
}
/// The shape, as far as the output tells: type aliases and zod schemas apply the threshold again to merged objects,
/// which may stay objects or become maps there.
pub fn told(c: &Case, mode: &str) -> M {
    let m = model::shape_of(&c.sample, threshold(c));
    match threshold(c) {
        Some(n) if matches!(mode, "zod" | "typescript/typealias") => wide(&m, n),
        _ => m,
    }
}
fn wide(m: &M, n: usize) -> M {
    let go = |m: &M| Box::new(wide(m, n));
    match m {
        M::Obj(f) if f.len() > n => M::Any,
        M::Obj(f) => M::Obj(f.iter().map(|(k, m, o)| (k.clone(), wide(m, n), *o)).collect()),
        M::Tup(v) => M::Tup(v.iter().map(|m| wide(m, n)).collect()),
        M::List(e) => M::List(go(e)),
        M::Map(e) => M::Map(go(e)),
        // any value, null perhaps included
        M::Nullable(e) => match wide(e, n) {
            M::Any => M::Any,
            e => M::Nullable(Box::new(e)),
        },
        m => m.clone(),
    }
}
fn gen_ts(r: &mut TestRng) -> Case {
    let c = base(r);
    let m = if R(r).pct(65) { "typescript" } else { "typescript/typealias" };
    c.with_mode(m)
}
fn gen_zod(r: &mut TestRng) -> Case {
    base(r).with_mode("zod")
}
fn gen_schema(r: &mut TestRng) -> Case {
    let mut c = base(r).with_mode("json_schema");
    let mut r = R(r);
    if r.pct(40) {
        c.name = gen::key(&mut r, &Cfg::default());
    }
    c
}
fn gen_python(r: &mut TestRng) -> Case {
    let c = base(r).with_mode("python");
    let mut r = R(r);
    if r.pct(70) {
        c.opt("import_style", r.pick(sut::STYLES))
    } else {
        c
    }
}
pub fn own(c: &Case) -> String {
    c.get("output_mode").to_string()
}
fn b_ts(c: &[Case]) -> Vec<Result<Pass, String>> {
    decide(&TS, c, &own, None)
}
fn b_zod(c: &[Case]) -> Vec<Result<Pass, String>> {
    decide(&ZOD, c, &own, None)
}
fn b_schema(c: &[Case]) -> Vec<Result<Pass, String>> {
    decide(&SCHEMA, c, &own, None)
}
fn b_python(c: &[Case]) -> Vec<Result<Pass, String>> {
    decide(&PYTHON, c, &own, None)
}
fn prop(id: &'static str, what: &str, assumptions: Vec<String>, q: u32, t: u32, g: fn(&mut TestRng) -> Case, b: fn(&[Case]) -> Vec<Result<Pass, String>>) -> Prop {
    Prop {
        id,
        level: "exploration",
        rule: format!("{what}; up to six near misses per sample (a value of another type, null, a missing or unknown key, a tuple of another length, each at one place) must be rejected. {}", model::NONTRIVIAL_RULE),
        assumptions,
        campaigns: vec![],
        make: Arc::new(move |_| Box::new(move |c: &Case| b(std::slice::from_ref(c)).remove(0))),
        max_shrink: 2000,
        threads: 8,
        batch: Some(Batch { campaigns: vec![("samples", n(q, t), Arc::new(g))], size: 2000, check: Arc::new(b), rounds: 300 }),
    }
}
const DUP: &str = "object keys are distinct and not __proto__";
const KF: &str = "samples with a missing field whose values are irreconcilable are left out (known finding)";
pub fn c04() -> Prop {
    prop("C04", "interfaces and type aliases type-checked by the TypeScript compiler (strict) together with the sample as a literal of the root type", vec![DUP.into(), KF.into(), "type-checked against a minimal standard library (no prototype members)".into(), "the root name is a TypeScript identifier other than a standard type".into()], 30_000, 600_000, gen_ts, b_ts)
}
pub fn c05() -> Prop {
    prop("C05", "the schema is built and the sample parsed by zod 4, and the parsed value compared with the sample", vec![DUP.into(), KF.into(), "z is imported by the user".into()], 30_000, 600_000, gen_zod, b_zod)
}
pub fn c06() -> Prop {
    prop("C06", "the schema is read by a strict JSON reader, validated against the draft-07 meta-schema, and the sample validated against it as generated and with additional properties forbidden", vec![DUP.into(), KF.into()], 16_000, 400_000, gen_schema, b_schema)
}
pub fn c08() -> Prop {
    prop("C08", "the code is executed with a model of pydantic (fields, aliases, Optional) and the sample validated against the root class", vec![DUP.into(), KF.into(), "pydantic is modelled: members of BaseModel that a field may hide are not judged".into(), "no property_name_format".into()], 30_000, 600_000, gen_python, b_python)
}
#[allow(unused)]
fn unused(_: &M) {}
