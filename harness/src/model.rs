//! Reference model: the shape of a place is a function of the *set* of values that occur there.
//! Written without the implementation's pairwise merge.
use crate::json::{is_int_lit, J};

/// A value annotated with the hints that address it.
#[derive(Clone, Debug)]
pub enum T {
    Null,
    Bool,
    Int,
    Num,
    Str,
    Arr(Vec<T>),
    Obj(Vec<(String, T)>),
    Map(Vec<T>),
    Opaque(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Bottom,
    Any,
    Null,
    Bool,
    Str,
    Int,
    Num,
    List(Box<M>),
    Tup(Vec<M>),
    Obj(Vec<(String, M, bool)>),
    Map(Box<M>),
    Opaque(String),
    Nullable(Box<M>),
}

pub struct Hint {
    pub toks: Vec<String>,
    pub ty: String,
}

/// RFC 6901 pointer to reference tokens; None if it is not a pointer.
pub fn pointer(p: &str) -> Option<Vec<String>> {
    if p.is_empty() {
        return Some(vec![]);
    }
    if !p.starts_with('/') {
        return None;
    }
    Some(p[1..].split('/').map(|t| t.replace("~1", "/").replace("~0", "~")).collect())
}
pub fn escape_token(t: &str) -> String {
    t.replace('~', "~0").replace('/', "~1")
}

/// Err: a map hint addresses something that is not an object.
pub fn annotate(j: &J, hints: &[(&[String], &str)], threshold: Option<usize>) -> Result<T, ()> {
    let here = hints.iter().find(|h| h.0.is_empty());
    let step = |tok: &str, index: Option<usize>| -> Vec<(&[String], &str)> {
        hints
            .iter()
            .filter(|h| !h.0.is_empty())
            .filter(|h| {
                let t = &h.0[0];
                t == "-" || match index {
                    None => t == tok,
                    Some(i) => *t == i.to_string(),
                }
            })
            .map(|h| (&h.0[1..], h.1))
            .collect()
    };
    match here {
        Some((_, "map")) => {
            let J::Obj(m) = j else { return Err(()) };
            let mut v = vec![];
            for (k, x) in m {
                v.push(annotate(x, &step(k, None), threshold)?);
            }
            return Ok(T::Map(v));
        }
        Some((_, t)) => return Ok(T::Opaque(t.to_string())),
        None => {}
    }
    Ok(match j {
        J::Null => T::Null,
        J::Bool(_) => T::Bool,
        J::Num(n) => {
            if is_int_lit(n) {
                T::Int
            } else {
                T::Num
            }
        }
        J::Str(_) => T::Str,
        J::Arr(a) => {
            let mut v = vec![];
            for (i, x) in a.iter().enumerate() {
                v.push(annotate(x, &step("", Some(i)), threshold)?);
            }
            T::Arr(v)
        }
        J::Obj(m) => {
            let mut v = vec![];
            for (k, x) in m {
                v.push((k.clone(), annotate(x, &step(k, None), threshold)?));
            }
            if threshold.is_some_and(|n| m.len() > n) {
                T::Map(v.into_iter().map(|x| x.1).collect())
            } else {
                T::Obj(v)
            }
        }
    })
}

pub fn tree(j: &J, threshold: Option<usize>) -> T {
    annotate(j, &[], threshold).unwrap()
}

/// The shape of a place at which exactly these values occur.
pub fn shape(place: &[&T]) -> M {
    if place.is_empty() {
        return M::Bottom;
    }
    let vals: Vec<&T> = place.iter().copied().filter(|t| !matches!(t, T::Null)).collect();
    let nulls = vals.len() < place.len();
    if vals.is_empty() {
        return M::Null;
    }
    let m = nonnull(&vals);
    if nulls && m != M::Any {
        M::Nullable(Box::new(m))
    } else {
        m
    }
}

thread_local! {
    static AGAIN: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
    static ANY_MISSING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Does the known finding "missing field with irreconcilable values" concern a place at which these values occur?
/// (Never says no where it does.)
/// `again`: the output language applies this threshold again to merged objects.
pub fn any_missing(place: &[&T], again: Option<usize>) -> bool {
    ANY_MISSING.with(|a| a.set(false));
    AGAIN.with(|a| a.set(again));
    let _ = shape(place);
    AGAIN.with(|a| a.set(None));
    ANY_MISSING.with(|a| a.get())
}
/// Marks a place at which hinted and unhinted values, or values hinted differently, meet in a way the property
/// does not settle.
pub const UNSETTLED: &str = "<unsettled>";

fn nonnull(vals: &[&T]) -> M {
    // an opaque type overrides whatever else occurs at the place
    if let Some(T::Opaque(t)) = vals.iter().find(|t| matches!(t, T::Opaque(_))) {
        if vals.iter().any(|v| matches!(v, T::Opaque(u) if u != t)) {
            return M::Opaque(UNSETTLED.into());
        }
        let rest: Vec<&T> = vals.iter().copied().filter(|v| !matches!(v, T::Opaque(_))).collect();
        if !rest.is_empty() && nonnull(&rest) == M::Any {
            return M::Opaque(UNSETTLED.into());
        }
        return M::Opaque(t.clone());
    }
    let all = |f: &dyn Fn(&T) -> bool| vals.iter().all(|t| f(t));
    if all(&|t| matches!(t, T::Bool)) {
        return M::Bool;
    }
    if all(&|t| matches!(t, T::Str)) {
        return M::Str;
    }
    if all(&|t| matches!(t, T::Int)) {
        return M::Int;
    }
    if all(&|t| matches!(t, T::Int | T::Num)) {
        return M::Num;
    }
    if all(&|t| matches!(t, T::Arr(_))) {
        let arrs: Vec<&Vec<T>> = vals.iter().map(|t| if let T::Arr(a) = t { a } else { unreachable!() }).collect();
        let elems: Vec<&T> = arrs.iter().flat_map(|a| a.iter()).collect();
        let folded = shape(&elems);
        let n = arrs[0].len();
        if folded == M::Any && (2..=12).contains(&n) && arrs.iter().all(|a| a.len() == n) {
            let pos: Vec<M> = (0..n).map(|i| shape(&arrs.iter().map(|a| &a[i]).collect::<Vec<_>>())).collect();
            if pos.iter().any(|p| *p != M::Any) {
                return M::Tup(pos);
            }
        }
        return M::List(Box::new(folded));
    }
    if all(&|t| matches!(t, T::Map(_))) {
        let v: Vec<&T> = vals.iter().flat_map(|t| if let T::Map(v) = t { v.iter() } else { unreachable!() }).collect();
        return M::Map(Box::new(shape(&v)));
    }
    if all(&|t| matches!(t, T::Obj(_))) {
        let objs: Vec<&Vec<(String, T)>> =
            vals.iter().map(|t| if let T::Obj(o) = t { o } else { unreachable!() }).collect();
        let mut keys: Vec<&String> = vec![];
        for o in &objs {
            for (k, _) in o.iter() {
                if !keys.contains(&k) {
                    keys.push(k);
                }
            }
        }
        if AGAIN.with(|a| a.get()).is_some_and(|n| keys.len() > n) {
            let _ = shape(&objs.iter().flat_map(|o| o.iter().map(|x| &x.1)).collect::<Vec<_>>());
        }
        let mut f = vec![];
        for k in keys {
            let here: Vec<&T> = objs.iter().filter_map(|o| o.iter().find(|x| x.0 == *k).map(|x| &x.1)).collect();
            let missing = here.len() < objs.len();
            let m = shape(&here);
            // 'any' absorbs optionality (pinned by the repository's unit tests)
            if missing && m == M::Any {
                ANY_MISSING.with(|a| a.set(true));
            }
            let opt = missing && m != M::Any;
            f.push((k.clone(), m, opt));
        }
        return M::Obj(f);
    }
    M::Any
}

pub fn shape_of(j: &J, threshold: Option<usize>) -> M {
    let t = tree(j, threshold);
    shape(&[&t])
}

/// The nodes a pointer addresses, in document order.
pub fn nodes<'a>(j: &'a J, toks: &[String], out: &mut Vec<&'a J>) {
    let Some(t) = toks.first() else {
        out.push(j);
        return;
    };
    match j {
        J::Obj(m) => m.iter().filter(|x| t == "-" || x.0 == *t).for_each(|x| nodes(&x.1, &toks[1..], out)),
        J::Arr(a) => a.iter().enumerate().filter(|(i, _)| t == "-" || *t == i.to_string()).for_each(|(_, x)| nodes(x, &toks[1..], out)),
        _ => {}
    }
}

impl M {
    /// As printed by the shape output mode.
    pub fn to_j(&self) -> J {
        let s = |x: &str| J::Str(x.into());
        let typed = |t: &str, k: &str, v: J| J::Obj(vec![("__type__".into(), s(t)), (k.into(), v)]);
        match self {
            M::Bottom => s("bottom"),
            M::Any => s("any"),
            M::Null => J::Null,
            M::Bool => s("bool"),
            M::Str => s("string"),
            M::Int => s("integer"),
            M::Num => s("floating"),
            M::List(e) => J::Arr(vec![e.to_j()]),
            M::Tup(v) => typed("tuple", "items", J::Arr(v.iter().map(|x| x.to_j()).collect())),
            M::Obj(f) => J::Obj(
                f.iter().map(|(k, m, o)| (if *o { format!("{k}?") } else { k.clone() }, m.to_j())).collect(),
            ),
            M::Map(v) => typed("map", "values", v.to_j()),
            M::Opaque(t) => s(t),
            M::Nullable(m) => typed("nullable", "item", m.to_j()),
        }
    }
    pub fn walk(&self, f: &mut dyn FnMut(&M)) {
        f(self);
        match self {
            M::List(e) | M::Map(e) | M::Nullable(e) => e.walk(f),
            M::Tup(v) => v.iter().for_each(|x| x.walk(f)),
            M::Obj(o) => o.iter().for_each(|x| x.1.walk(f)),
            _ => {}
        }
    }
}

/// Key order is irrelevant for comparing shapes.
pub fn canon(j: &J) -> J {
    match j {
        J::Arr(a) => J::Arr(a.iter().map(canon).collect()),
        J::Obj(m) => {
            let mut v: Vec<(String, J)> = m.iter().map(|(k, x)| (k.clone(), canon(x))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            J::Obj(v)
        }
        x => x.clone(),
    }
}

/// The pinned "missing field with irreconcilable values" behaviour (known finding KF1) is excluded by
/// construction: where it would occur, the missing keys are filled with null. Returns how many were filled.
pub fn fill_any_missing(j: &mut J, threshold: Option<usize>) -> usize {
    let mut n = 0;
    loop {
        let k = fill(vec![j], threshold);
        n += k;
        if k == 0 {
            return n;
        }
    }
}
fn fill(place: Vec<&mut J>, th: Option<usize>) -> usize {
    let vals: Vec<&mut J> = place.into_iter().filter(|j| !matches!(j, J::Null)).collect();
    if vals.is_empty() {
        return 0;
    }
    if vals.iter().all(|j| matches!(j, J::Arr(_))) {
        let n = if let J::Arr(a) = &*vals[0] { a.len() } else { 0 };
        let same = (2..=12).contains(&n) && vals.iter().all(|j| matches!(&**j, J::Arr(a) if a.len() == n));
        let mut arrs: Vec<&mut Vec<J>> =
            vals.into_iter().map(|j| if let J::Arr(a) = j { a } else { unreachable!() }).collect();
        let ts: Vec<T> = arrs.iter().flat_map(|a| a.iter().map(|x| tree(x, th))).collect();
        let folded = shape(&ts.iter().collect::<Vec<_>>());
        if folded == M::Any {
            if !same {
                return 0;
            }
            let mut k = 0;
            let mut its: Vec<_> = arrs.iter_mut().map(|a| a.iter_mut()).collect();
            for _ in 0..n {
                let pos: Vec<&mut J> = its.iter_mut().map(|i| i.next().unwrap()).collect();
                k += fill(pos, th);
            }
            return k;
        }
        return fill(arrs.iter_mut().flat_map(|a| a.iter_mut()).collect(), th);
    }
    if vals.iter().all(|j| matches!(j, J::Obj(_))) {
        let mut objs: Vec<&mut Vec<(String, J)>> =
            vals.into_iter().map(|j| if let J::Obj(o) = j { o } else { unreachable!() }).collect();
        let big = objs.iter().filter(|o| th.is_some_and(|n| o.len() > n)).count();
        if big == objs.len() {
            return fill(objs.iter_mut().flat_map(|o| o.iter_mut().map(|x| &mut x.1)).collect(), th);
        }
        if big > 0 {
            return 0;
        }
        let mut keys: Vec<String> = vec![];
        for o in &objs {
            for (k, _) in o.iter() {
                if !keys.contains(k) {
                    keys.push(k.clone());
                }
            }
        }
        let mut n = 0;
        for k in keys {
            let ts: Vec<T> =
                objs.iter().filter_map(|o| o.iter().find(|x| x.0 == k)).map(|x| tree(&x.1, th)).collect();
            if ts.len() < objs.len() && shape(&ts.iter().collect::<Vec<_>>()) == M::Any {
                for o in objs.iter_mut() {
                    if !o.iter().any(|x| x.0 == k) {
                        o.push((k.clone(), J::Null));
                        n += 1;
                    }
                }
                // a larger object may now cross the threshold: start over
                return n;
            }
            n += fill(objs.iter_mut().filter_map(|o| o.iter_mut().find(|x| x.0 == k).map(|x| &mut x.1)).collect(), th);
            if n > 0 {
                return n;
            }
        }
        return n;
    }
    0
}
pub fn has_any_missing(j: &J, th: Option<usize>) -> bool {
    let mut c = j.clone();
    fill_any_missing(&mut c, th) > 0
}

/// Class labels of a sample, for coverage accounting.
pub fn tags(j: &J) -> Vec<&'static str> {
    let m = shape_of(j, None);
    let mut t: Vec<&'static str> = vec![];
    let mut add = |x: &'static str| {
        if !t.contains(&x) {
            t.push(x)
        }
    };
    let (mut objs, mut depth2) = (0, 0);
    m.walk(&mut |m| match m {
        M::Any => add("conflict"),
        M::Nullable(_) => add("nullable"),
        M::Null => add("null-only"),
        M::Bottom => add("empty-list"),
        M::Tup(_) => add("tuple"),
        M::Num => add("number"),
        M::Obj(f) => {
            objs += 1;
            if f.is_empty() {
                add("empty-object");
            }
            if f.iter().any(|x| x.2) {
                add("optional");
            }
            if f.iter().any(|x| x.2 && matches!(x.1, M::Nullable(_) | M::Null)) {
                add("optional+nullable");
            }
            if f.iter().any(|x| matches!(x.1, M::Obj(_) | M::List(_) | M::Tup(_))) {
                depth2 += 1;
            }
            let mut lower: Vec<String> =
                f.iter().map(|x| x.0.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_ascii_lowercase()).collect();
            lower.sort();
            let n = lower.len();
            lower.dedup();
            if lower.len() < n {
                add("colliding-keys");
            }
            for (k, _, _) in f {
                if crate::gen::KEYWORDS.contains(&k.as_str()) || crate::gen::TYPES.contains(&k.as_str()) {
                    add("reserved-key");
                } else if k.is_empty() || !k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
                    add("odd-key");
                } else if k.as_bytes()[0].is_ascii_digit() {
                    add("digit-key");
                }
            }
        }
        _ => {}
    });
    if objs > 1 {
        add("several-objects");
    }
    if depth2 > 1 {
        add("nested");
    }
    t
}
pub const NONTRIVIAL_RULE: &str = "cases are instances of a random type schema (shared sub-schemas, optional/nullable/conflicting members, palette of colliding, reserved, quoted, non-ASCII and empty keys); non-trivial = the sample shows at least two of: conflict, nullable, null-only, optional, optional+nullable, tuple, empty list/object, mixed numbers, colliding/reserved/odd/digit key, several object shapes, nesting; distinct by hash of the whole case";
pub fn nontrivial(t: &[&'static str]) -> bool {
    t.len() >= 2
}
