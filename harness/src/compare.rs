//! Comparing a sample with what a generated type makes of it, and walking samples along their shape.
use crate::json::{is_int_lit, J};
use crate::model::M;

pub fn num_eq(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    if is_int_lit(a) && is_int_lit(b) {
        return match (a.parse::<i128>(), b.parse::<i128>()) {
            (Ok(x), Ok(y)) => x == y,
            _ => a == b,
        };
    }
    match (a.parse::<f64>(), b.parse::<f64>()) {
        (Ok(x), Ok(y)) => x == y || (x - y).abs() <= 1e-12 * x.abs().max(y.abs()),
        _ => false,
    }
}

/// `out` keeps every key and value of `sample`; a null may be missing or the reverse; additional keys are
/// null or an empty list.
pub fn kept(sample: &J, out: &J, path: &str) -> Result<(), String> {
    let fail = |m: String| Err(format!("at {}: {m}", if path.is_empty() { "root" } else { path }));
    match (sample, out) {
        (J::Num(a), J::Num(b)) if num_eq(a, b) => Ok(()),
        (J::Arr(a), J::Arr(b)) => {
            if a.len() != b.len() {
                return fail(format!("array of {} elements became {}", a.len(), b.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                kept(x, y, &format!("{path}/{i}"))?;
            }
            Ok(())
        }
        (J::Obj(a), J::Obj(b)) => {
            for (k, x) in a {
                let p = format!("{path}/{k:?}");
                match b.iter().find(|y| y.0 == *k) {
                    Some(y) => kept(x, &y.1, &p)?,
                    None if *x == J::Null => {}
                    None => return fail(format!("key {k:?} is lost")),
                }
            }
            for (k, y) in b {
                if !a.iter().any(|x| x.0 == *k) && *y != J::Null && *y != J::Arr(vec![]) {
                    return fail(format!("key {k:?} appeared with value {}", y.text()));
                }
            }
            Ok(())
        }
        (a, b) if a == b => Ok(()),
        (a, b) => fail(format!("{} became {}", a.text(), b.text())),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Key(String),
    Idx(usize),
}

/// Paths of the objects of `j` that are described by a struct in shape `m`, with that struct's fields.
pub fn structs<'m>(j: &J, m: &'m M, path: &mut Vec<Step>, out: &mut Vec<(Vec<Step>, &'m Vec<(String, M, bool)>)>) {
    match (j, m) {
        (x, M::Nullable(m)) if *x != J::Null => structs(x, m, path, out),
        (J::Obj(o), M::Obj(f)) => {
            out.push((path.clone(), f));
            for (k, x) in o {
                if let Some(fm) = f.iter().find(|y| y.0 == *k) {
                    path.push(Step::Key(k.clone()));
                    structs(x, &fm.1, path, out);
                    path.pop();
                }
            }
        }
        (J::Obj(o), M::Map(v)) => {
            for (k, x) in o {
                path.push(Step::Key(k.clone()));
                structs(x, v, path, out);
                path.pop();
            }
        }
        (J::Arr(a), M::List(e)) => {
            for (i, x) in a.iter().enumerate() {
                path.push(Step::Idx(i));
                structs(x, e, path, out);
                path.pop();
            }
        }
        (J::Arr(a), M::Tup(p)) => {
            for (i, (x, m)) in a.iter().zip(p).enumerate() {
                path.push(Step::Idx(i));
                structs(x, m, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
pub fn at<'a>(j: &'a J, path: &[Step]) -> Option<&'a J> {
    path.iter().try_fold(j, |j, s| match (j, s) {
        (J::Obj(o), Step::Key(k)) => o.iter().find(|x| x.0 == *k).map(|x| &x.1),
        (J::Arr(a), Step::Idx(i)) => a.get(*i),
        _ => None,
    })
}
pub fn at_mut<'a>(j: &'a mut J, path: &[Step]) -> Option<&'a mut J> {
    path.iter().try_fold(j, |j, s| match (j, s) {
        (J::Obj(o), Step::Key(k)) => o.iter_mut().find(|x| x.0 == *k).map(|x| &mut x.1),
        (J::Arr(a), Step::Idx(i)) => a.get_mut(*i),
        _ => None,
    })
}

// ---------------------------------------------------------------- near misses
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// a value of another JSON type at a place whose values all have one type
    Type,
    /// a fraction at a place where all numbers are integers
    Fraction,
    /// null at a place that is never null
    Null,
    /// the same for the value of a key that may be missing
    NullOptional,
    /// a key left out that every object at the place has, never with null
    Missing,
    /// the same for a key that is null somewhere
    MissingNullable,
    /// the same for a key whose values have no common type
    MissingAny,
    /// the same for a key that is always null
    MissingNull,
    /// a key no object at the place has
    Unknown,
    /// a tuple with an element more or less
    Arity,
}
#[derive(Clone, Debug)]
pub struct Probe {
    pub kind: Kind,
    pub json: J,
    pub what: String,
}

struct Place<'m> {
    path: Vec<Step>,
    m: &'m M,
    nullable: bool,
    /// value of a key that may be missing
    optional: bool,
}
fn places<'m>(j: &J, m: &'m M, optional: bool, path: &mut Vec<Step>, out: &mut Vec<Place<'m>>) {
    let (m, nullable) = match m {
        M::Nullable(x) => (&**x, true),
        x => (x, false),
    };
    out.push(Place { path: path.clone(), m, nullable, optional });
    let mut go = |s: Step, x: &J, m: &'m M, opt: bool| {
        path.push(s);
        places(x, m, opt, path, out);
        path.pop();
    };
    match (j, m) {
        (J::Obj(o), M::Obj(f)) => {
            for (k, x) in o {
                if let Some(fm) = f.iter().find(|y| y.0 == *k) {
                    go(Step::Key(k.clone()), x, &fm.1, fm.2);
                }
            }
        }
        (J::Obj(o), M::Map(v)) => o.iter().for_each(|(k, x)| go(Step::Key(k.clone()), x, v, false)),
        (J::Arr(a), M::List(e)) => a.iter().enumerate().for_each(|(i, x)| go(Step::Idx(i), x, e, false)),
        (J::Arr(a), M::Tup(p)) => a.iter().zip(p).enumerate().for_each(|(i, (x, m))| go(Step::Idx(i), x, m, false)),
        _ => {}
    }
}
fn show(path: &[Step]) -> String {
    path.iter()
        .map(|s| match s {
            Step::Key(k) => format!("/{k:?}"),
            Step::Idx(i) => format!("/{i}"),
        })
        .collect()
}

/// Up to `max` variants of the sample that are each wrong at one place according to shape `m`.
pub fn probes(sample: &J, m: &M, below: &mut dyn FnMut(usize) -> usize, kinds: &[Kind], max: usize) -> Vec<Probe> {
    let mut ps = vec![];
    places(sample, m, false, &mut vec![], &mut ps);
    let mut cands: Vec<(Kind, usize, Option<String>)> = vec![];
    for (i, Place { path: p, m, nullable, optional }) in ps.iter().enumerate() {
        let concrete = match m {
            M::Any | M::Null | M::Bottom | M::Opaque(_) | M::Nullable(_) => false,
            M::Obj(f) => !f.is_empty(),
            _ => true,
        };
        if concrete {
            cands.push((Kind::Type, i, None));
            if !nullable {
                cands.push((if *optional { Kind::NullOptional } else { Kind::Null }, i, None));
            }
        }
        let here = at(sample, p).unwrap();
        match (m, here) {
            (M::Int, _) => cands.push((Kind::Fraction, i, None)),
            (M::Tup(_), J::Arr(_)) => cands.push((Kind::Arity, i, None)),
            (M::Obj(f), J::Obj(o)) if !f.is_empty() => {
                cands.push((Kind::Unknown, i, None));
                for (k, fm, opt) in f {
                    if *opt || !o.iter().any(|x| x.0 == *k) {
                        continue;
                    }
                    match fm {
                        M::Bottom | M::Opaque(_) => {}
                        M::Null => cands.push((Kind::MissingNull, i, Some(k.clone()))),
                        M::Any => cands.push((Kind::MissingAny, i, Some(k.clone()))),
                        M::Nullable(_) => cands.push((Kind::MissingNullable, i, Some(k.clone()))),
                        _ => cands.push((Kind::Missing, i, Some(k.clone()))),
                    }
                }
            }
            _ => {}
        }
    }
    cands.retain(|c| kinds.contains(&c.0));
    let mut out = vec![];
    while out.len() < max && !cands.is_empty() {
        let (kind, i, key) = cands.swap_remove(below(cands.len()));
        let Place { path: p, m, .. } = &ps[i];
        let mut j = sample.clone();
        let Some(t) = at_mut(&mut j, p) else { continue };
        let num = || J::Num("1".into());
        let mut what = format!("{kind:?} at {}", show(p));
        match kind {
            Kind::Type => {
                let alts: Vec<J> = match m {
                    M::Bool => vec![num(), J::Str("x".into()), J::Arr(vec![])],
                    M::Str => vec![num(), J::Bool(true), J::Arr(vec![])],
                    M::Int | M::Num => vec![J::Str("x".into()), J::Bool(true), J::Arr(vec![])],
                    _ => vec![num(), J::Str("x".into()), J::Bool(true)],
                };
                *t = alts[below(alts.len())].clone();
                what += &format!(" ({})", t.text());
            }
            Kind::Fraction => *t = J::Num("0.5".into()),
            Kind::Null | Kind::NullOptional => *t = J::Null,
            Kind::Arity => {
                if let J::Arr(a) = t {
                    if below(2) == 0 {
                        a.pop();
                    } else {
                        let x = a.last().cloned().unwrap_or(J::Null);
                        a.push(x);
                    }
                }
            }
            Kind::Unknown => {
                let M::Obj(f) = m else { continue };
                let k = ["zz_unknown", "Zz Unknown", "éz\"", "aZ"][below(4)].to_string();
                let J::Obj(o) = t else { continue };
                if f.iter().any(|x| x.0 == k) || o.iter().any(|x| x.0 == k) {
                    continue;
                }
                what += &format!(" {k:?}");
                o.push((k, num()));
            }
            Kind::Missing | Kind::MissingNullable | Kind::MissingAny | Kind::MissingNull => {
                let k = key.unwrap();
                let J::Obj(o) = t else { continue };
                o.retain(|x| x.0 != k);
                what += &format!(" {k:?}");
            }
        }
        out.push(Probe { kind, json: j, what });
    }
    out
}
