//! Type names and reuse of generated types: C23.
use super::n;
use crate::case::Case;
use crate::decl::{self, Body, Decls, Ty};
use crate::gen::{self, Cfg, Keys, R};
use crate::json::J;
use crate::model::{self, M, T};
use crate::run::{Pass, Prop};
use crate::sut;
use proptest::test_runner::TestRng;
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

/// A canonical text for the shape inferred for a place. Arrays of one length are told from arrays of different
/// lengths (the former remember their positions).
fn key(place: &[&T]) -> String {
    let vals: Vec<&T> = place.iter().copied().filter(|t| !matches!(t, T::Null)).collect();
    if vals.is_empty() {
        return if place.is_empty() { "bottom" } else { "null" }.into();
    }
    let null = if vals.len() < place.len() { "?" } else { "" };
    let m = model::shape(&vals);
    if m == M::Any {
        return "any".into();
    }
    let s = match (&m, vals[0]) {
        (_, T::Arr(_)) => {
            let arrs: Vec<&Vec<T>> = vals.iter().map(|t| if let T::Arr(a) = t { a } else { unreachable!() }).collect();
            let n = arrs[0].len();
            if n <= 12 && arrs.iter().all(|a| a.len() == n) {
                let p: Vec<String> = (0..n).map(|i| key(&arrs.iter().map(|a| &a[i]).collect::<Vec<_>>())).collect();
                format!("({})", p.join(","))
            } else {
                format!("[{}]", key(&arrs.iter().flat_map(|a| a.iter()).collect::<Vec<_>>()))
            }
        }
        (_, T::Map(_)) => {
            let v: Vec<&T> = vals.iter().flat_map(|t| if let T::Map(v) = t { v.iter() } else { unreachable!() }).collect();
            format!("<{}>", key(&v))
        }
        (M::Obj(f), _) => {
            let mut v: Vec<String> = f
                .iter()
                .map(|(k, _, opt)| {
                    let sub = member(&vals, k);
                    format!("{k:?}{}:{}", if *opt { "?" } else { "" }, key(&sub))
                })
                .collect();
            v.sort();
            format!("{{{}}}", v.join(","))
        }
        (m, _) => m.to_j().text(),
    };
    s + null
}
fn member<'a>(vals: &[&'a T], k: &str) -> Vec<&'a T> {
    vals.iter().filter_map(|t| if let T::Obj(o) = t { o.iter().find(|x| x.0 == k).map(|x| &x.1) } else { None }).collect()
}

struct Walk<'a> {
    d: &'a Decls,
    by_key: HashMap<String, String>,
    seen: HashMap<String, String>,
    shared: usize,
    borrowed: usize,
}
impl Walk<'_> {
    fn go(&mut self, t: &Ty, place: &[&T], path: &str) -> Result<(), String> {
        let vals: Vec<&T> = place.iter().copied().filter(|t| !matches!(t, T::Null)).collect();
        let t = match t {
            Ty::Opt(t) => t,
            t => t,
        };
        if vals.is_empty() {
            return Ok(());
        }
        let m = model::shape(&vals);
        match (&m, t) {
            (_, Ty::Any) => Ok(()),
            (M::List(_), Ty::List(t)) => {
                let e: Vec<&T> = vals.iter().flat_map(|t| if let T::Arr(a) = t { a.iter() } else { unreachable!() }).collect();
                self.go(t, &e, &format!("{path}/-"))
            }
            (M::Tup(_), Ty::Tup(ts)) => {
                for (i, t) in ts.iter().enumerate() {
                    let e: Vec<&T> = vals.iter().filter_map(|t| if let T::Arr(a) = t { a.get(i) } else { None }).collect();
                    self.go(t, &e, &format!("{path}/{i}"))?;
                }
                Ok(())
            }
            (M::Map(_), Ty::Map(t)) => {
                let e: Vec<&T> = vals.iter().flat_map(|t| if let T::Map(v) = t { v.iter() } else { unreachable!() }).collect();
                self.go(t, &e, &format!("{path}/-"))
            }
            (M::Obj(_), Ty::Ref(r)) => {
                let mut r = r.clone();
                while let Some(Body::Alias(Ty::Ref(x))) = self.d.get(&r) {
                    r = x.clone();
                }
                let fields = match self.d.get(&r) {
                    Some(Body::Obj(f)) => f,
                    // an object without members may be described as anything
                    Some(Body::Alias(t)) => return self.go(&t.clone(), place, path),
                    _ => return Err(format!("{path}: {r} is not declared")),
                };
                let M::Obj(f) = &m else { unreachable!() };
                let here: BTreeSet<&str> = f.iter().map(|x| x.0.as_str()).collect();
                let there: BTreeSet<&str> = fields.iter().filter(|f| !f.rest).map(|f| f.wire.as_str()).collect();
                if here != there {
                    return Err(format!("{path}: the type {r} has the keys {there:?}, the values there have {here:?}"));
                }
                let k = key(&vals);
                match self.by_key.get(&k) {
                    Some(x) if *x != r => return Err(format!("{path}: {r} is used for a shape that {x} was generated for: {k}")),
                    Some(_) => {
                        self.shared += 1;
                        return Ok(());
                    }
                    None => {}
                }
                self.by_key.insert(k.clone(), r.clone());
                if self.seen.contains_key(&r) {
                    // stands in for a shape with unknown parts
                    self.borrowed += 1;
                    return Ok(());
                }
                self.seen.insert(r, k);
                for f in fields.iter().filter(|f| !f.rest) {
                    self.go(&f.ty, &member(&vals, &f.wire), &format!("{path}/{}", f.wire))?;
                }
                Ok(())
            }
            // judged by the properties of the language
            _ => Ok(()),
        }
    }
}

fn parse(c: &Case, code: &str) -> Result<Decls, String> {
    match c.get("output_mode") {
        "rust" => decl::rust(code),
        "typescript" => decl::typescript(code),
        "python" => decl::python(code),
        m => decl::kotlin(code, m, c.get("import_style")),
    }
}
fn check(c: &Case) -> Result<Pass, String> {
    if c.sample.has_dup_keys() {
        return Pass::skip("duplicate keys");
    }
    let code = sut::generate(c).map_err(|m| format!("valid sample rejected: {m}"))?;
    let ctx = |m: String| format!("{m}\n--- sample\n{}\n--- code\n{code}", c.sample.text());
    let d = parse(c, &code).map_err(|m| ctx(format!("declarations: {m}")))?;
    if d.get(&c.name).is_none() {
        return Err(ctx(format!("{} is not declared", c.name)));
    }
    let mut used = vec![c.name.clone()];
    let mut i = 0;
    while i < used.len() {
        let mut more = vec![];
        match d.get(&used[i]) {
            Some(Body::Alias(t)) => Decls::uses(t, &mut more),
            Some(Body::Obj(f)) => f.iter().for_each(|f| Decls::uses(&f.ty, &mut more)),
            None => {}
        }
        for m in more {
            if !used.contains(&m) {
                used.push(m);
            }
        }
        i += 1;
    }
    if let Some((n, _)) = d.items.iter().find(|i| !used.contains(&i.0)) {
        return Err(ctx(format!("{n} is declared but not used")));
    }
    let t = model::tree(&c.sample, super::lang::threshold(c));
    let mut w = Walk { d: &d, by_key: HashMap::new(), seen: HashMap::new(), shared: 0, borrowed: 0 };
    w.go(&Ty::Ref(c.name.clone()), &[&t], "").map_err(ctx)?;
    let mut tags = model::tags(&c.sample);
    tags.push(match c.get("output_mode") {
        "rust" => "rust",
        "typescript" => "typescript",
        "python" => "python",
        _ => "kotlin",
    });
    if w.shared > 0 {
        tags.push("type-shared");
    }
    if w.borrowed > 0 {
        tags.push("type-borrowed");
    }
    let nt = d.items.len() > 1;
    Ok(Pass::of(tags, nt))
}
fn gen_names(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let cfg = Cfg { keys: *r.pick(&[Keys::Plain, Keys::All, Keys::All]), odd: 20, ..Default::default() };
    let j = if r.pct(1) { gen::large(&mut r, &cfg, 60) } else { gen::sample(&mut r, &cfg) };
    finish(&mut r, j)
}
fn finish(r: &mut R, j: J) -> Case {
    let mut c = Case::new(&gen::name_for(r, &j), j).opt("output_mode", *r.pick(&["rust", "typescript", "python", "kotlin/jackson", "kotlin/kotlinx"]));
    if r.pct(50) {
        c = c.opt("import_style", r.pick(sut::STYLES));
    }
    if r.pct(8) {
        c = c.opt("infer_map_threshold", &r.below(5).to_string());
    }
    c
}
/// Objects of few shapes under keys whose type names collide: singular and plural, letter case, punctuation, digits.
fn gen_collide(r: &mut TestRng) -> Case {
    let mut r = R(r);
    const STEMS: &[&str] = &["item", "box", "city", "bus", "data", "root", "value", "string", "list", "vec", "option", "user", "n1", "1", "2", "", "generated_type", "any", "base_model", "class", "type"];
    let mut stems: Vec<&str> = (0..r.range(1, 3)).map(|_| *r.pick(STEMS)).collect();
    stems.dedup();
    let key = |r: &mut R| -> String {
        let s = r.pick(&stems).to_string();
        match r.below(12) {
            0 => s.to_uppercase(),
            1 => format!("{s}s"),
            2 => format!("{s}es"),
            3 => format!("{s}2"),
            4 => format!("{s}_2"),
            5 => format!(" {s}"),
            6 => format!("{s}!"),
            7 => format!("{s}3"),
            8 => {
                let mut c = s.chars();
                c.next().map(|x| x.to_uppercase().to_string() + c.as_str()).unwrap_or_default()
            }
            9 => format!("_{s}"),
            _ => s,
        }
    };
    fn leaf(r: &mut R) -> J {
        match r.below(5) {
            0 => J::Null,
            1 => J::Arr(vec![]),
            2 => J::Str("x".into()),
            3 => J::Num("0.5".into()),
            _ => J::Num("1".into()),
        }
    }
    fn obj(r: &mut R, key: &dyn Fn(&mut R) -> String, pool: &mut Vec<J>, d: usize) -> J {
        if !pool.is_empty() && r.pct(35) {
            let mut j = r.pick(pool).clone();
            // the same, or with one member changed
            if r.pct(40) {
                if let J::Obj(m) = &mut j {
                    if !m.is_empty() {
                        let i = r.below(m.len());
                        match r.below(5) {
                            4 => gen::reorder(r, &mut j),
                            0 => m[i].1 = leaf(r),
                            1 => {
                                m.remove(i);
                            }
                            2 => m.rotate_left(i),
                            _ => {
                                let k = format!("{}x", m[i].0);
                                if m.iter().all(|x| x.0 != k) {
                                    m[i].0 = k
                                }
                            }
                        }
                    }
                }
            }
            return j;
        }
        let mut m: Vec<(String, J)> = vec![];
        for _ in 0..r.range(1, 5) {
            let k = key(r);
            if m.iter().any(|x| x.0 == k) {
                continue;
            }
            let v = if d > 0 && r.pct(60) {
                let o = obj(r, key, pool, d - 1);
                match r.below(6) {
                    0 => J::Arr(vec![o]),
                    1 => {
                        let p = obj(r, key, pool, d - 1);
                        J::Arr(vec![o, p])
                    }
                    2 => {
                        let l = leaf(r);
                        J::Arr(vec![o, l])
                    }
                    _ => o,
                }
            } else {
                leaf(r)
            };
            m.push((k, v));
        }
        let j = J::Obj(m);
        pool.push(j.clone());
        j
    }
    let j = obj(&mut r, &key, &mut vec![], 3);
    let mut c = finish(&mut r, j);
    if r.pct(40) {
        let s = r.pick(&stems).to_string();
        let n: String = s.split('_').map(|p| p.chars().take(1).flat_map(|c| c.to_uppercase()).chain(p.chars().skip(1)).collect::<String>()).collect();
        if n.starts_with(|c: char| c.is_ascii_alphabetic()) && !gen::TYPES.contains(&n.as_str()) && !["String", "List", "Vec", "Option", "Any", "BaseModel", "Data"].contains(&n.as_str()) {
            c.name = n;
        }
    }
    c
}
pub fn c23() -> Prop {
    Prop {
        id: "C23",
        level: "exploration",
        rule: "objects of few shapes (repeated, or with one member changed, removed, renamed or moved) under keys whose type names collide, in Rust, TypeScript, Python and Kotlin: the output is parsed into declarations, the places of the sample are walked together with the declared types; names and members distinct, everything declared is used, the keys of a place equal those of its type, and places of equal shape have one type; non-trivial = more than one declared type; distinct by hash of the case".into(),
        assumptions: vec!["object keys are distinct".into(), "arrays of one length and of different lengths are different shapes here".into()],
        campaigns: vec![("collide", n(150_000, 3_000_000), Arc::new(gen_collide)), ("samples", n(100_000, 2_000_000), Arc::new(gen_names))],
        make: super::core::simple(check),
        max_shrink: 20_000,
        threads: 8,
        batch: None,
    }
}
