//! Properties of inference and of the public API as a whole: C09, C10, C11, C12.
use super::n;
use crate::case::Case;
use crate::gen::{self, Cfg, Keys, R};
use crate::json::{self, J};
use crate::model;
use crate::run::{Pass, Prop};
use crate::sut;
use proptest::test_runner::TestRng;
use std::sync::Arc;

pub fn simple(f: fn(&Case) -> Result<Pass, String>) -> Arc<dyn Fn(usize) -> Box<dyn crate::run::Checker> + Send + Sync> {
    Arc::new(move |_| Box::new(move |c: &Case| f(c)))
}

pub fn shape_j(c: &Case) -> Result<J, String> {
    let out = sut::generate(&c.with_mode("shape"))?;
    json::parse(&out).map_err(|e| format!("shape output is not JSON ({e}):\n{out}"))
}

// ---------------------------------------------------------------- C09
fn check_c09(c: &Case) -> Result<Pass, String> {
    if c.sample.has_dup_keys() || c.sample.keys().iter().any(|k| k.ends_with('?') || k.contains("__type__")) {
        return Pass::skip("outside domain");
    }
    let want = model::canon(&model::shape_of(&c.sample, None).to_j());
    let got = model::canon(&shape_j(c)?);
    if want != got {
        return Err(format!("inferred shape differs from the model\n want {}\n got  {}", want.text(), got.text()));
    }
    let t = model::tags(&c.sample);
    let nt = model::nontrivial(&t);
    Ok(Pass::of(t, nt))
}
fn gen_shape(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let cfg = Cfg { keys: if r.pct(60) { Keys::Plain } else { Keys::Shape }, root_container: false, odd: 30, ..Default::default() };
    Case::new("Root", gen::sample(&mut r, &cfg))
}
pub fn gen_huge(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let cfg = Cfg { keys: if r.pct(60) { Keys::Plain } else { Keys::Shape }, odd: 30, ..Default::default() };
    let mut j = gen::huge(&mut r, &cfg);
    if r.pct(5) {
        gen::long_int(&mut r, &mut j);
    }
    Case::new("Root", j)
}
/// small, dense histories at few places: arrays of objects with one or two fields drawn from a tiny value set
fn gen_dense(r: &mut TestRng) -> Case {
    let mut r = R(r);
    fn val(r: &mut R, d: usize) -> J {
        match r.below(if d == 0 { 6 } else { 10 }) {
            0 => J::Null,
            1 => J::Num("1".into()),
            2 => J::Num("0.5".into()),
            3 => J::Str("x".into()),
            4 => J::Arr(vec![]),
            5 => J::Bool(true),
            6..=7 => {
                let n = r.range(1, 3);
                J::Arr((0..n).map(|_| val(r, d - 1)).collect())
            }
            _ => {
                let mut m = vec![];
                for k in ["a", "b"] {
                    if r.pct(60) {
                        m.push((k.to_string(), val(r, d - 1)));
                    }
                }
                J::Obj(m)
            }
        }
    }
    let n = *r.pick(&[1, 2, 2, 3, 3, 4, 12, 13]);
    let d = r.range(1, 3);
    Case::new("Root", J::Arr((0..n).map(|_| val(&mut r, d)).collect()))
}
pub fn c09() -> Prop {
    Prop {
        id: "C09",
        level: "exploration",
        rule: format!("shape output of codegen against a declarative model over the set of values per place. {}", model::NONTRIVIAL_RULE),
        assumptions: vec![
            "object keys are distinct; keys ending in '?' or containing __type__ are left out because the shape printer cannot show them unambiguously".into(),
            "a field that is missing somewhere and irreconcilable elsewhere is 'any' without optional marker, as the repository's unit tests pin".into(),
        ],
        campaigns: vec![("schema", n(300_000, 6_000_000), Arc::new(gen_shape)), ("dense", n(1_000_000, 20_000_000), Arc::new(gen_dense)), ("huge", n(5_000, 100_000), Arc::new(gen_huge))],
        make: simple(check_c09),
        max_shrink: 20_000,
        threads: 8,
        batch: None,
    }
}

// ---------------------------------------------------------------- C10
/// Deterministic choice stream derived from the case itself (so that it shrinks and replays).
pub struct Ch(u64);
impl Ch {
    pub fn new(n: i64) -> Ch {
        Ch((n as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9abc)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        ((self.0 >> 11) % n.max(1) as u64) as usize
    }
}
fn respell_str(s: &str, ch: &mut Ch, o: &mut String) {
    o.push('"');
    let all = ch.below(4);
    for c in s.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        if all == 0 || must && ch.below(2) == 0 || ch.below(6) == 0 {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                let h = format!("{u:04x}");
                o.push_str("\\u");
                o.push_str(&if ch.below(2) == 0 { h.to_uppercase() } else { h });
            }
        } else {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str("\\t"),
                '\u{8}' => o.push_str("\\b"),
                '\u{c}' => o.push_str("\\f"),
                '/' if ch.below(2) == 0 => o.push_str("\\/"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
    }
    o.push('"');
}
fn respell_num(n: &str, ch: &mut Ch) -> String {
    if json::is_int_lit(n) {
        return n.to_string();
    }
    let Ok(f) = n.parse::<f64>() else { return n.into() };
    let mut alts = vec![n.to_string()];
    for a in [format!("{f:?}"), format!("{f:e}"), format!("{f:E}"), format!("{f:?}0")] {
        if json::parse(&a).is_ok() && !json::is_int_lit(&a) && a.parse::<f64>() == Ok(f) {
            alts.push(a);
        }
    }
    alts[ch.below(alts.len())].clone()
}
pub fn respell(j: &J, ch: &mut Ch) -> String {
    fn ws(ch: &mut Ch, o: &mut String) {
        for _ in 0..[0, 0, 0, 1, 1, 2, 5][ch.below(7)] {
            o.push([' ', '\n', '\t', '\r'][ch.below(4)]);
        }
    }
    fn go(j: &J, ch: &mut Ch, o: &mut String) {
        match j {
            J::Str(s) => respell_str(s, ch, o),
            J::Num(n) => o.push_str(&respell_num(n, ch)),
            J::Arr(a) => {
                o.push('[');
                ws(ch, o);
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                        ws(ch, o);
                    }
                    go(x, ch, o);
                    ws(ch, o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                ws(ch, o);
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                        ws(ch, o);
                    }
                    respell_str(k, ch, o);
                    ws(ch, o);
                    o.push(':');
                    ws(ch, o);
                    go(x, ch, o);
                    ws(ch, o);
                }
                o.push('}');
            }
            x => o.push_str(&x.text()),
        }
    }
    let mut o = String::new();
    ws(ch, &mut o);
    go(j, ch, &mut o);
    ws(ch, &mut o);
    o
}

/// Visits every array that the model infers as a list of elements with a common type.
fn lists(place: Vec<&mut J>, f: &mut dyn FnMut(&mut Vec<J>)) {
    let vals: Vec<&mut J> = place.into_iter().filter(|j| !matches!(j, J::Null)).collect();
    if vals.is_empty() {
        return;
    }
    if vals.iter().all(|j| matches!(j, J::Arr(_))) {
        let ts: Vec<model::T> = vals.iter().map(|j| model::tree(j, None)).collect();
        let m = model::shape(&ts.iter().collect::<Vec<_>>());
        let mut arrs: Vec<&mut Vec<J>> =
            vals.into_iter().map(|j| if let J::Arr(a) = j { a } else { unreachable!() }).collect();
        match m {
            model::M::List(e) => {
                // irreconcilable elements: only their number and positions decide between tuple and list
                if *e != model::M::Any {
                    for a in arrs.iter_mut() {
                        f(a);
                    }
                }
                lists(arrs.iter_mut().flat_map(|a| a.iter_mut()).collect(), f);
            }
            model::M::Tup(p) => {
                let mut its: Vec<_> = arrs.iter_mut().map(|a| a.iter_mut()).collect();
                for _ in 0..p.len() {
                    lists(its.iter_mut().map(|i| i.next().unwrap()).collect(), f);
                }
            }
            _ => {}
        }
    } else if vals.iter().all(|j| matches!(j, J::Obj(_))) {
        let mut objs: Vec<&mut Vec<(String, J)>> =
            vals.into_iter().map(|j| if let J::Obj(o) = j { o } else { unreachable!() }).collect();
        let mut keys: Vec<String> = objs.iter().flat_map(|o| o.iter().map(|x| x.0.clone())).collect();
        keys.sort();
        keys.dedup();
        for k in keys {
            lists(objs.iter_mut().filter_map(|o| o.iter_mut().find(|x| x.0 == k).map(|x| &mut x.1)).collect(), f);
        }
    }
}

fn check_c10(c: &Case) -> Result<Pass, String> {
    if c.sample.has_dup_keys() {
        return Pass::skip("outside domain");
    }
    let mut t = model::tags(&c.sample);
    let nt = model::nontrivial(&t);
    let canonical = c.sample.text();
    let mut ch = Ch::new(c.nums.first().copied().unwrap_or(0));
    let other = respell(&c.sample, &mut ch);
    let a = sut::generate_text(c, &canonical);
    let again = sut::generate_text(c, &canonical);
    if a != again {
        return Err(format!("two identical calls differ\n--- first\n{a:?}\n--- second\n{again:?}"));
    }
    let b = sut::generate_text(c, &other);
    if a != b {
        return Err(format!("respelt sample gives other output\n respelt: {other}\n--- canonical\n{a:?}\n--- respelt\n{b:?}"));
    }
    if c.sample.keys().iter().any(|k| k.ends_with('?') || k.contains("__type__")) {
        return Ok(Pass::of(t, nt));
    }
    // permutation / duplication inside lists
    let mut p = c.sample.clone();
    let mut touched = false;
    // nested duplication doubles the sample at every level
    let mut budget = 3000usize;
    lists(vec![&mut p], &mut |v| {
        if v.is_empty() || ch.below(3) == 0 {
            return;
        }
        if ch.below(2) == 0 {
            let i = ch.below(v.len());
            let at = ch.below(v.len() + 1);
            let size = v[i].size();
            if size <= budget {
                budget -= size;
                let x = v[i].clone();
                v.insert(at, x);
                touched = true;
            }
        }
        if v.len() > 1 {
            for i in (1..v.len()).rev() {
                let j = ch.below(i + 1);
                v.swap(i, j);
            }
            touched = true;
        }
    });
    if touched && p != c.sample {
        t.push("permuted");
        let s1 = model::canon(&shape_j(&Case::new("Root", c.sample.clone()))?);
        let s2 = model::canon(&shape_j(&Case::new("Root", p.clone()))?);
        if s1 != s2 {
            return Err(format!(
                "permuting/duplicating list elements changes the shape\n sample   {}\n permuted {}\n shape {}\n shape {}",
                c.sample.text(),
                p.text(),
                s1.text(),
                s2.text()
            ));
        }
    }
    Ok(Pass::of(t, nt))
}
fn gen_c10(r: &mut TestRng) -> Case {
    gen_c10_of(r, false)
}
fn gen_c10_huge(r: &mut TestRng) -> Case {
    gen_c10_of(r, true)
}
fn gen_c10_of(r: &mut TestRng, huge: bool) -> Case {
    let mut r = R(r);
    let cfg = Cfg { keys: if r.pct(40) { Keys::Shape } else { Keys::All }, odd: 30, ..Default::default() };
    let j = if huge { gen::huge(&mut r, &cfg) } else { gen::sample(&mut r, &cfg) };
    let mut c = Case::new(&gen::name(&mut r), j).opt("output_mode", *r.pick(sut::MODES));
    if r.pct(40) {
        c = c.opt("import_style", *r.pick(sut::STYLES));
    }
    if r.pct(20) {
        c = c.opt("property_name_format", *r.pick(sut::FORMATS));
    }
    if r.pct(15) {
        c = c.opt("infer_map_threshold", &r.below(4).to_string());
    }
    if r.pct(15) {
        c = c.opt("collect_additional", "true");
    }
    c.nums.push(r.below(1 << 30) as i64);
    c
}
fn gen_c10_dense(r: &mut TestRng) -> Case {
    let mut c = gen_dense(r);
    c.nums.push(R(r).below(1 << 30) as i64);
    c.opt("output_mode", "shape")
}
pub fn c10() -> Prop {
    Prop {
        id: "C10",
        level: "exploration",
        rule: format!("metamorphic: the sample is respelt (whitespace, escapes, surrogate pairs, number spellings), repeated, and the elements of arrays the model infers as lists are permuted/duplicated; outputs compared. {}", model::NONTRIVIAL_RULE),
        assumptions: vec!["object keys are distinct".into()],
        campaigns: vec![("schema", n(300_000, 4_000_000), Arc::new(gen_c10)), ("dense", n(500_000, 8_000_000), Arc::new(gen_c10_dense)), ("huge", n(3_000, 60_000), Arc::new(gen_c10_huge))],
        make: simple(check_c10),
        max_shrink: 20_000,
        threads: 8,
        batch: None,
    }
}

// ---------------------------------------------------------------- C12
/// Verdict of an independent recogniser on a byte string.
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Verdict {
    Valid,
    /// certainly malformed in one of the ways the property lists
    Malformed,
    /// number grammar, control characters, lone surrogates, text after the value: not specified
    Unspecified,
}
pub fn classify(b: &[u8]) -> Verdict {
    if let Ok((_, i)) = json::parse_prefix(b) {
        return if b[i..].iter().all(|c| b" \t\r\n".contains(c)) { Verdict::Valid } else { Verdict::Unspecified };
    }
    match lenient(b) {
        Some(true) => Verdict::Malformed,
        _ => Verdict::Unspecified,
    }
}
/// Some(true): malformed even for a reader that is lenient about numbers and control characters;
/// None: a lone surrogate was seen (unspecified).
fn lenient(b: &[u8]) -> Option<bool> {
    // tokens: { } [ ] , : s(string) n(number) l(literal)
    let mut toks: Vec<u8> = vec![];
    let mut i = 0;
    let mut bad = false;
    while i < b.len() {
        match b[i] {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            c @ (b'{' | b'}' | b'[' | b']' | b',' | b':') => {
                toks.push(c);
                i += 1;
            }
            b'"' => {
                i += 1;
                let mut raw = vec![];
                loop {
                    if i >= b.len() {
                        bad = true;
                        break;
                    }
                    match b[i] {
                        b'"' => {
                            i += 1;
                            break;
                        }
                        b'\\' => {
                            match b.get(i + 1) {
                                Some(b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't') => i += 2,
                                Some(b'u') => {
                                    let h = b.get(i + 2..i + 6).filter(|h| h.iter().all(|c| c.is_ascii_hexdigit()));
                                    match h {
                                        None => {
                                            bad = true;
                                            break;
                                        }
                                        Some(h) => {
                                            let v = u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap();
                                            i += 6;
                                            if (0xD800..0xE000).contains(&v) {
                                                let ok = v < 0xDC00
                                                    && b.get(i..i + 2) == Some(b"\\u")
                                                    && b.get(i + 2..i + 6).is_some_and(|l| {
                                                        l.iter().all(|c| c.is_ascii_hexdigit())
                                                            && (0xDC00..0xE000).contains(
                                                                &u32::from_str_radix(std::str::from_utf8(l).unwrap(), 16).unwrap(),
                                                            )
                                                    });
                                                if !ok {
                                                    return None;
                                                }
                                                i += 6;
                                            }
                                        }
                                    }
                                }
                                _ => {
                                    bad = true;
                                    break;
                                }
                            }
                            raw.push(b'x');
                        }
                        c => {
                            raw.push(c);
                            i += 1;
                        }
                    }
                }
                if !bad && std::str::from_utf8(&raw).is_err() {
                    bad = true;
                }
                if bad {
                    toks.push(b'X');
                    break;
                }
                toks.push(b's');
            }
            c if c == b'-' || c.is_ascii_digit() => {
                while i < b.len() && (b[i].is_ascii_digit() || b"-+.eE".contains(&b[i])) {
                    i += 1;
                }
                toks.push(b'n');
            }
            _ => {
                let l = [&b"true"[..], b"false", b"null"].into_iter().find(|l| b[i..].starts_with(l));
                match l {
                    Some(l) => {
                        i += l.len();
                        toks.push(b'l');
                    }
                    None => {
                        toks.push(b'X');
                        break;
                    }
                }
            }
        }
    }
    // recognise one value at the start of the token list (explicit stack)
    let mut st: Vec<u8> = vec![];
    let mut k = 0;
    let mut want = b'v'; // v: value, f: value or ], k: key or }, K: key, c: colon, a: after value
    loop {
        let Some(&t) = toks.get(k) else { return Some(true) };
        k += 1;
        match want {
            b'v' | b'f' => match t {
                b'{' => {
                    st.push(b'{');
                    want = b'k';
                }
                b'[' => {
                    st.push(b'[');
                    want = b'f';
                }
                b's' | b'n' | b'l' => want = b'a',
                b']' if want == b'f' => {
                    st.pop();
                    want = b'a';
                }
                _ => return Some(true),
            },
            b'k' | b'K' => match t {
                b's' => want = b'c',
                b'}' if want == b'k' => {
                    st.pop();
                    want = b'a';
                }
                _ => return Some(true),
            },
            b'c' => {
                if t != b':' {
                    return Some(true);
                }
                want = b'v';
            }
            _ => match (st.last(), t) {
                (Some(b'{'), b',') => want = b'K',
                (Some(b'['), b',') => want = b'v',
                (Some(b'{'), b'}') | (Some(b'['), b']') => {
                    st.pop();
                }
                _ => return Some(true),
            },
        }
        if want == b'a' && st.is_empty() {
            return Some(false);
        }
    }
}

/// bytes carried in a case as Latin-1 text (each char = one byte), so they shrink and print
pub fn bytes_of(s: &str) -> Vec<u8> {
    s.chars().map(|c| (c as u32).min(255) as u8).collect()
}
pub fn latin1(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}

fn check_c12(c: &Case) -> Result<Pass, String> {
    let b = bytes_of(c.texts.first().map(|s| s.as_str()).unwrap_or(""));
    let v = classify(&b);
    let run = |c: &Case| {
        match std::str::from_utf8(&b) {
            Ok(s) if !c.nums.is_empty() && s.trim_start_matches([' ', '\n', '\r', '\t']).starts_with(['{', '[']) => sut::generate_text(c, s),
            _ => sut::generate_bytes(c, &b),
        }
    };
    match v {
        Verdict::Unspecified => Pass::skip("unspecified text"),
        Verdict::Valid => {
            let mut plain = c.clone();
            plain.hints.clear();
            plain.opts.remove("unwrap");
            match run(&plain) {
                Ok(_) => Ok(Pass::of(vec!["valid"], b.len() > 12)),
                Err(e) => Err(format!("valid JSON rejected: {e}\n text: {}", String::from_utf8_lossy(&b))),
            }
        }
        Verdict::Malformed => match run(c) {
            Err(_) => {
                let mut t = vec!["malformed"];
                if !c.hints.is_empty() {
                    t.push("malformed under hint");
                }
                if !c.get("unwrap").is_empty() {
                    t.push("malformed under unwrap");
                }
                Ok(Pass::of(t, b.len() > 3))
            }
            Ok(o) => Err(format!("malformed JSON accepted\n text: {}\n output: {o}", String::from_utf8_lossy(&b))),
        },
    }
}

pub fn mutate(r: &mut R, b: &mut Vec<u8>) {
    const FRAG: &[&[u8]] = &[
        b"{", b"}", b"[", b"]", b",", b":", b"\"", b"\\", b"null", b"tru", b"True", b"nul", b"NaN", b"undefined", b"'a'",
        b"\\u12", b"\\u123g", b"\\x41", b"\\ud800", b"\\ud83d\\ude00", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98\x80",
        b"-", b"1", b"1.5", b"e", b"\0", b"\n", b" ", b"//c\n", b"/* c */", b"\xef\xbb\xbf", b"\"a\"", b"\"a\":", b"{}", b"[]",
        b"\"\xc0\x80\"", b"\"\\u00e9\"", b"\x0c", b";", b"=", b"a",
    ];
    if b.is_empty() {
        b.extend_from_slice(*r.pick(FRAG));
        return;
    }
    // prefer positions at structural bytes
    let pos = |r: &mut R, b: &[u8]| {
        if r.pct(60) {
            let st: Vec<usize> = (0..b.len()).filter(|i| b"{}[],:\"\\".contains(&b[*i])).collect();
            if !st.is_empty() {
                return *r.pick(&st);
            }
        }
        r.below(b.len())
    };
    match r.below(10) {
        9 => {
            // unicode escapes around the borders of the surrogates, inside a string if there is one
            const UNITS: &[u32] = &[0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000, 0xffff, 0, 0x41, 0xd83d, 0xde00];
            let mut f = vec![];
            for _ in 0..r.range(1, 3) {
                let u = if r.pct(85) { *r.pick(UNITS) } else { r.below(0x10000) as u32 };
                f.extend(if r.pct(50) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") }.bytes());
                if r.pct(4) {
                    f.pop();
                }
            }
            let q: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b'"').collect();
            let i = if q.is_empty() { pos(r, b) } else { *r.pick(&q) + r.below(2) };
            b.splice(i..i, f);
        }
        0 => {
            let i = pos(r, b);
            b.remove(i);
        }
        1 => {
            let i = pos(r, b);
            let c = b[i];
            b.insert(i, c);
        }
        2 => {
            let i = pos(r, b);
            let f = r.pick(FRAG).to_vec();
            b.splice(i..i, f);
        }
        3 => {
            let i = pos(r, b);
            let f = r.pick(FRAG).to_vec();
            b.splice(i..i + 1, f);
        }
        4 => {
            let i = pos(r, b);
            b.truncate(i);
        }
        5 => {
            let (i, k) = (pos(r, b), pos(r, b));
            b.swap(i, k);
        }
        6 => {
            let i = pos(r, b);
            let e = (i + r.range(1, 5)).min(b.len());
            b.drain(i..e);
        }
        7 => {
            let i = pos(r, b);
            b[i] = r.below(256) as u8;
        }
        _ => {
            let (i, k) = (pos(r, b), pos(r, b));
            let f = b[i.min(k)..i.max(k)].to_vec();
            let at = pos(r, b);
            b.splice(at..at, f);
        }
    }
}
/// A pointer that addresses (or nearly addresses) something in the sample.
pub fn gen_pointer(r: &mut R, j: &J, rfc: bool) -> String {
    let mut p = String::new();
    let mut cur = j;
    let depth = r.range(0, 4);
    for _ in 0..depth {
        match cur {
            J::Obj(m) if !m.is_empty() => {
                let i = r.below(m.len());
                let t = match r.below(12) {
                    0..=2 => "-".to_string(),
                    3 => gen::key(r, &Cfg { keys: Keys::Plain, ..Default::default() }),
                    _ => m[i].0.clone(),
                };
                p.push('/');
                p.push_str(&if rfc { model::escape_token(&t) } else { t });
                cur = &m[i].1;
            }
            J::Arr(a) if !a.is_empty() => {
                let i = r.below(a.len());
                let t = match r.below(8) {
                    0..=3 => "-".to_string(),
                    4 => "a".into(),
                    _ => i.to_string(),
                };
                p.push('/');
                p.push_str(&t);
                cur = &a[i];
            }
            _ => {
                if r.pct(20) {
                    p.push_str("/a");
                }
                break;
            }
        }
    }
    p
}
fn gen_c12(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let cfg = Cfg { depth: 3, width: 4, root_container: false, long_arrays: r.pct(20), ..Default::default() };
    let mut j = gen::sample(&mut r, &cfg);
    if r.pct(2) {
        gen::long_int(&mut r, &mut j);
    }
    let mut b = if r.pct(60) { j.text().into_bytes() } else { respell(&j, &mut Ch::new(r.below(1 << 30) as i64)).into_bytes() };
    let n = *r.pick(&[0, 1, 1, 1, 1, 2, 3]);
    for _ in 0..n {
        mutate(&mut r, &mut b);
    }
    let mut c = Case::new("Root", J::Null).opt("output_mode", "shape");
    c.texts.push(latin1(&b));
    if r.pct(50) {
        c.nums.push(1); // inline where possible
    }
    if r.pct(40) {
        let p = gen_pointer(&mut r, &j, false);
        c = c.opt("unwrap", &p);
    }
    for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2]) {
        let p = gen_pointer(&mut r, &j, false);
        let t = r.pick(&["map", "Opaque", "Foo"]).to_string();
        c.hints.push((p, t));
    }
    c
}
/// long arrays, wide objects, deep nesting and long strings, with one or two structural mutations
fn gen_c12_big(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let atom = |r: &mut R| match r.below(7) {
        0 => J::Null,
        1 => J::Bool(true),
        2 => J::Num("0.5".into()),
        3 => J::Str("x".repeat(*r.pick(&[0, 1, 8, 300]))),
        4 => J::Arr(vec![]),
        5 => J::Obj(vec![("a".into(), J::Num("1".into()))]),
        _ => J::Num("7".into()),
    };
    let mut j = match r.below(3) {
        0 => {
            let n = r.range(8, 40);
            let same = r.pct(60).then(|| atom(&mut r));
            J::Arr((0..n).map(|_| same.clone().unwrap_or_else(|| atom(&mut r))).collect())
        }
        1 => {
            let n = r.range(8, 40);
            J::Obj((0..n).map(|i| (format!("k{i}"), atom(&mut r))).collect())
        }
        _ => {
            let mut j = atom(&mut r);
            for i in 0..r.range(8, 90) {
                j = if i % 3 == 0 { J::Obj(vec![("a".into(), j)]) } else { J::Arr(vec![j]) };
            }
            j
        }
    };
    let depth = r.below(3);
    for _ in 0..depth {
        j = if r.pct(50) { J::Obj(vec![("a".into(), j), ("b".into(), atom(&mut r))]) } else { J::Arr(vec![atom(&mut r), j]) };
    }
    let mut b = j.text().into_bytes();
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
        mutate(&mut r, &mut b);
    }
    let mut c = Case::new("Root", J::Null).opt("output_mode", r.pick(&["shape", "rust", "typescript", "json_schema"]));
    c.texts.push(latin1(&b));
    if r.pct(50) {
        c.nums.push(1);
    }
    if r.pct(20) {
        c = c.opt("unwrap", &gen_pointer(&mut r, &j, false));
    }
    if r.pct(20) {
        c.hints.push((gen_pointer(&mut r, &j, false), r.pick(&["map", "Opaque", "Foo"]).to_string()));
    }
    c
}
/// valid texts with hundreds of keys or levels or thousands of elements or characters, at most one mutation
fn gen_c12_huge(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let cfg = Cfg { keys: Keys::Shape, ..Default::default() };
    let j = gen::huge(&mut r, &cfg);
    let mut b = j.text().into_bytes();
    if r.pct(50) {
        mutate(&mut r, &mut b);
    }
    let mut c = Case::new("Root", J::Null).opt("output_mode", r.pick(&["shape", "rust", "typescript", "json_schema"]));
    c.texts.push(latin1(&b));
    if r.pct(50) {
        c.nums.push(1);
    }
    if r.pct(30) {
        c = c.opt("unwrap", &gen_pointer(&mut r, &j, false));
    }
    c
}
/// sequences of JSON tokens
fn gen_soup(r: &mut TestRng) -> Case {
    const TOK: &[&str] = &["{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "0.5", "true", "false", "null", " ", "-", "\"", "\\", "tru", "nulll", "a"];
    let mut r = R(r);
    let n = r.range(1, 9);
    let mut s = String::new();
    for _ in 0..n {
        let k = if r.pct(70) { 14 } else { TOK.len() };
        s.push_str(r.pick(&TOK[..k]));
    }
    let mut c = Case::new("Root", J::Null).opt("output_mode", "shape");
    c.texts.push(s);
    if r.pct(50) {
        c.nums.push(1);
    }
    if r.pct(30) {
        c = c.opt("unwrap", r.pick(&["/a", "/-", "/0", "/-/-", "/a/b"]));
    }
    if r.pct(40) {
        c.hints.push((r.pick(&["", "/a", "/-", "/0", "/-/-"]).to_string(), r.pick(&["map", "Foo"]).to_string()));
    }
    c
}
pub fn c12() -> Prop {
    Prop {
        id: "C12",
        level: "exploration",
        rule: "texts are valid samples with 0-3 byte/token mutations, and JSON token sequences; an independent recogniser classifies them as valid / certainly malformed / unspecified (number grammar, raw control characters, lone surrogates, text after the root value); non-trivial = malformed text longer than 3 bytes or valid text longer than 12; distinct by hash of text, hints and unwrap path".into(),
        assumptions: vec!["leniency about number grammar, raw control characters, lone surrogates and text after the root value is not judged".into()],
        campaigns: vec![
            ("mutated", n(800_000, 20_000_000), Arc::new(gen_c12)),
            ("big", n(400_000, 8_000_000), Arc::new(gen_c12_big)),
            ("tokens", n(1_000_000, 20_000_000), Arc::new(gen_soup)),
            ("huge", n(5_000, 100_000), Arc::new(gen_c12_huge)),
        ],
        make: simple(check_c12),
        max_shrink: 20_000,
        threads: 8,
        batch: None,
    }
}

// ---------------------------------------------------------------- C11
fn ends_well(out: &str) -> Result<(), String> {
    if !out.ends_with('\n') || out[..out.len() - 1].ends_with(char::is_whitespace) && out.len() > 1 {
        return Err(format!("output does not end in exactly one newline: {out:?}"));
    }
    Ok(())
}
/// texts[0] = kind: "json" texts[1]=bytes; "options" texts[1]=block; "macro_args"/"macro" texts[1]; "sql" texts[1]
fn check_c11(c: &Case) -> Result<Pass, String> {
    use json_typegen_shared::{codegen_from_macro, codegen_from_macro_input, parse};
    let kind = c.texts.first().map(|s| s.as_str()).unwrap_or("");
    let payload = c.texts.get(1).cloned().unwrap_or_default();
    let fin = |tag: &'static str, r: Result<String, String>| -> Result<Pass, String> {
        match r {
            Ok(o) => {
                ends_well(&o)?;
                Ok(Pass::of(vec![tag, "code"], payload.len() > 2))
            }
            Err(e) => {
                if e.is_empty() {
                    return Err("error without a message".into());
                }
                Ok(Pass::of(vec![tag, "error"], payload.len() > 2))
            }
        }
    };
    match kind {
        "json" => {
            let b = bytes_of(&payload);
            fin("json", sut::generate_bytes(c, &b))
        }
        "sample" => {
            // a valid sample, extra depth from nums[0]
            let d = c.nums.first().copied().unwrap_or(0).clamp(0, 300);
            let mut s = c.sample.text();
            for i in 0..d {
                s = if i % 3 == 0 { format!("{{\"a\":{s}}}") } else { format!("[{s}]") };
            }
            match sut::generate_text(c, &s) {
                Ok(o) => {
                    ends_well(&o)?;
                    Ok(Pass::of(vec!["sample", if d > 0 { "deep" } else { "flat" }], true))
                }
                Err(e) if c.hints.is_empty() && c.get("unwrap").is_empty() => Err(format!("valid sample rejected: {e}")),
                Err(_) => Ok(Pass::of(vec!["sample", "error"], true)),
            }
        }
        "sql" => {
            let mut c2 = c.clone();
            c2.opts.insert("input_mode".into(), "sql".into());
            fin("sql", sut::generate_text(&c2, &payload))
        }
        "options" => {
            let r = parse::options(&payload);
            match r {
                Err(_) => Ok(Pass::of(vec!["options", "error"], payload.len() > 2)),
                Ok(o) => fin(
                    "options",
                    json_typegen_shared::codegen(&c.name, &c.sample.text(), o)
                        .map_err(|e| json_typegen_shared::internal_util::display_error_with_causes(&e)),
                ),
            }
        }
        "macro_args" => fin("macro_args", codegen_from_macro_input(&payload).map_err(|e| e.to_string())),
        "macro" => fin("macro", codegen_from_macro(&payload).map_err(|e| e.to_string())),
        _ => Pass::skip("shrunk away"),
    }
}
fn any_options(r: &mut R, c: &mut Case, j: &J) {
    let mut set = |k: &str, v: String| {
        c.opts.insert(k.into(), v);
    };
    set("output_mode", r.pick(sut::MODES).to_string());
    if r.pct(30) {
        set("import_style", r.pick(sut::STYLES).to_string());
    }
    if r.pct(25) {
        set("property_name_format", r.pick(sut::FORMAT_SPELLINGS).to_string());
    }
    for b in crate::case::BOOL_OPTS {
        if r.pct(15) {
            set(b, r.pct(70).to_string());
        }
    }
    if r.pct(20) {
        set("infer_map_threshold", r.pick(&["0", "1", "2", "3", "-1", "", "x", "99999999999999999999"]).to_string());
    }
    if r.pct(15) {
        let v = if r.pct(60) { r.pick(&["", "pub", "pub(crate)", "x y"]).to_string() } else { soup(r, NAME_TOK, 4) };
        set("field_visibility", v);
    }
    if r.pct(10) {
        let v = if r.pct(60) { r.pick(&["", ",", "::", "Debug", "a::b::c,,d", "serde_derive::Serialize"]).to_string() } else { soup(r, &["::", ",", " ", "a", "Debug", "é", "serde", "(", "\n"], 7) };
        set("derives", v);
    }
    if r.pct(30) {
        let p = if r.pct(80) { gen_pointer(r, j, false) } else { soup(r, &["/", "/", "-", "~", "~0", "~1", "~2", "0", "01", "a", "é", "99999999999999999999", "+1"], 6) };
        set("unwrap", p);
    }
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3]) {
        let p = if r.pct(85) { gen_pointer(r, j, false) } else { soup(r, &["/", "/", "-", "~", "~0", "~1", "~2", "0", "01", "a", "é", "99999999999999999999", "+1"], 6) };
        let t = if r.pct(80) { r.pick(&["map", "map", "Foo", "", "a b", "\"", "::x::Y"]).to_string() } else { soup(r, &["::", "a", "é", "<", ">", " ", "map", "\\", "\n"], 5) };
        c.hints.push((p, t));
    }
}
const NAME_TOK: &[&str] = &["pub", "pub(", "(", ")", " ", " ", "crate", "::", "in", "Foo", "x", "é", "1", "_", "<", ">", "s", "ies", "\n", "\"", "-"];
fn soup(r: &mut R, tok: &[&str], max: usize) -> String {
    (0..r.range(0, max)).map(|_| *r.pick(tok)).collect()
}
fn odd_name(r: &mut R) -> String {
    match r.below(6) {
        5 => soup(r, NAME_TOK, 6),
        0..=1 => gen::name(r),
        2 => r.pick(&["", " ", "pub ", "pub(crate) ", "pub(", "pub() ", "pub(crate) Foo", "pub Foo", "pub  Foo", "1", "é", "\"", "s", "ies", "pub(é) x"]).to_string(),
        _ => gen::key(r, &Cfg::default()),
    }
}
fn gen_c11_json(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let cfg = Cfg { depth: 3, root_container: false, ..Default::default() };
    let mut j = gen::sample(&mut r, &cfg);
    if r.pct(2) {
        gen::long_int(&mut r, &mut j);
    }
    let mut b = j.text().into_bytes();
    if r.pct(15) {
        b = (0..r.range(0, 12)).map(|_| if r.pct(50) { *r.pick(b"{}[],:\"\\u0-truefalsnl ") } else { r.below(256) as u8 }).collect();
    } else {
        for _ in 0..*r.pick(&[0, 1, 1, 2, 5]) {
            mutate(&mut r, &mut b);
        }
    }
    let mut c = Case::new(&odd_name(&mut r), J::Null);
    any_options(&mut r, &mut c, &j);
    c.texts = vec!["json".into(), latin1(&b)];
    c
}
fn gen_c11_sample(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let cfg = Cfg { root_container: false, odd: 35, ..Default::default() };
    let mut j = gen::sample(&mut r, &cfg);
    if r.pct(2) {
        gen::long_int(&mut r, &mut j);
    }
    let mut c = Case::new(&odd_name(&mut r), j.clone());
    any_options(&mut r, &mut c, &j);
    c.texts = vec!["sample".into()];
    if r.pct(5) {
        c.nums.push(r.range(1, 300) as i64);
    }
    c
}
fn gen_c11_options(r: &mut TestRng) -> Case {
    const TOK: &[&str] = &[
        "{", "}", ":", ",", " ", "\n", "true", "false", "\"", "\"a\"", "r\"a\"", "r#\"a\"#", "b\"a\"", "'a'", "1", "-", "/",
        "//", "/*", "*/", "#", "r#", "\\", "\"\\u{41}\"", "\"\\u{110000}\"", "\"\\u{}\"", "\"\\x41\"", "\"\\xff\"", "\"\\u0041\"", "\"\\q\"",
        "\"\\\n  a\"", "output_mode", "\"output_mode\"", "\"rust\"", "\"kotlin\"", "\"zod\"", "derives", "unwrap", "\"/a\"", "use_type", "\"map\"", "type_name",
        "deny_unknown_fields", "collect_additional", "allow_option_vec", "use_default_for_missing_fields", "property_name_format", "\"camelCase\"",
        "infer_map_threshold", "\"1\"", "field_visibility", "import_style", "input_mode", "\"sql\"", "é", "\"é\"", "\"\\\"", "\"\\u{d800}\"", "\"\"", "foo", "json_typegen!(", ");", "(", ")",
    ];
    let mut r = R(r);
    let cfg = Cfg { depth: 2, width: 3, ..Default::default() };
    let j = gen::sample(&mut r, &cfg);
    let mut c = Case::new("Root", j.clone());
    any_options(&mut r, &mut c, &j);
    let mut text = c.block();
    c.opts.clear();
    c.hints.clear();
    if r.pct(25) {
        text = (0..r.range(0, 10)).map(|_| *r.pick(TOK)).collect::<Vec<_>>().join(if r.pct(50) { "" } else { " " });
    } else {
        for _ in 0..*r.pick(&[0, 1, 1, 2, 4]) {
            let mut cs: Vec<char> = text.chars().collect();
            let i = r.below(cs.len() + 1);
            match r.below(4) {
                0 if i < cs.len() => {
                    cs.remove(i);
                }
                1 => cs.truncate(i),
                _ => {
                    let t: Vec<char> = r.pick(TOK).chars().collect();
                    cs.splice(i..i, t);
                }
            }
            text = cs.into_iter().collect();
        }
    }
    let kind = *r.pick(&["options", "options", "macro_args", "macro"]);
    if kind != "options" {
        let lit = |r: &mut R, s: &str| match r.below(3) {
            0 => format!("r#\"{s}\"#"),
            1 => format!("r\"{s}\""),
            _ => crate::case::rust_str(s),
        };
        let name = odd_name(&mut r);
        let a = lit(&mut r, &name);
        let b = lit(&mut r, &c.sample.text());
        text = match r.below(8) {
            0 => format!("{a}, {b}"),
            1 => format!("{a}, {b}, {}", lit(&mut r, &text)),
            2 => format!("{a} {b}"),
            3 => format!("{a}, {text}"),
            4 => text,
            _ => format!("{a}, {b}, {text}"),
        };
        if kind == "macro" {
            text = match r.below(5) {
                0 => format!("json_typegen!({text})"),
                1 => format!("json_typegen!{text};"),
                2 => "json_typegen!();".to_string(),
                3 => format!("json_typegen!({}", r.pick(&[")", ");", "", ";"])),
                _ => format!(" json_typegen!({text}); "),
            };
        }
    }
    c.texts = vec![kind.into(), text];
    c
}
fn gen_c11_sql(r: &mut TestRng) -> Case {
    const TOK: &[&str] = &[
        "CREATE", "TABLE", "t", "(", ")", ",", ";", "a", "b", "\"q\"", "`q`", "[q]", "INT", "VARCHAR", "(10)", "TEXT", "NOT NULL", "NULL",
        "DEFAULT", "1", "PRIMARY KEY", "SELECT", "*", "FROM", "IF NOT EXISTS", "DATE", "BOOLEAN", "ENUM('a')", "CHECK (a > 0)", "--c\n", "/*",
        "'", "\"", "VIEW", "AS", "ALTER", "ADD", "COLUMN", "UNIQUE", "$", "é", "\0", "ARRAY<INT>", "INT[]", "DOUBLE PRECISION", "DECIMAL(10,2)", "x.y", "{", "[",
    ];
    let mut r = R(r);
    let mut c = Case::new(&odd_name(&mut r), J::Null).opt("output_mode", *r.pick(sut::MODES));
    let mut text = if r.pct(40) {
        (0..r.range(0, 12)).map(|_| *r.pick(TOK)).collect::<Vec<_>>().join(" ")
    } else {
        let mut s = String::from("CREATE TABLE t (");
        for i in 0..r.range(0, 4) {
            if i > 0 {
                s += ", ";
            }
            s += &format!("{} {} {}", r.pick(&["a", "b", "\"Q q\"", "`x`"]), r.pick(&["INT", "TEXT", "DATE", "VARCHAR(3)", "FOO", "JSON"]), r.pick(&["", "NOT NULL", "NULL", "PRIMARY KEY"]));
        }
        s + ");"
    };
    for _ in 0..*r.pick(&[0, 1, 2]) {
        let mut cs: Vec<char> = text.chars().collect();
        let i = r.below(cs.len() + 1);
        if r.pct(40) && i < cs.len() {
            cs.remove(i);
        } else {
            let t: Vec<char> = r.pick(TOK).chars().collect();
            cs.splice(i..i, t);
        }
        text = cs.into_iter().collect();
    }
    c.texts = vec!["sql".into(), text];
    c
}
pub fn c11() -> Prop {
    Prop {
        id: "C11",
        level: "exploration",
        rule: "mutated and random bytes as sample, valid samples with every option, hint and unwrap path (some nested up to 300 levels), options texts and macro texts built from a grammar and mutated, SQL texts; in all output modes with odd root names; oracle: no panic or abort, output ends in exactly one newline or an error with a message; non-trivial = payload longer than 2 characters; distinct by hash of the case".into(),
        assumptions: vec!["nesting beyond 300 levels is not judged (see known finding on unbounded nesting)".into()],
        campaigns: vec![
            ("json", n(150_000, 1_500_000), Arc::new(gen_c11_json)),
            ("sample", n(150_000, 1_500_000), Arc::new(gen_c11_sample)),
            ("options", n(200_000, 2_000_000), Arc::new(gen_c11_options)),
            ("sql", n(120_000, 1_000_000), Arc::new(gen_c11_sql)),
        ],
        make: simple(check_c11),
        max_shrink: 20_000,
        threads: 8,
        batch: None,
    }
}
