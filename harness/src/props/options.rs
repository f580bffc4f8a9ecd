//! Options blocks: C13.
use super::core::Ch;
use super::n;
use crate::case::{rust_str, Case, BOOL_OPTS};
use crate::gen::{self, Cfg, R};
use crate::json::J;
use crate::model;
use crate::run::{Pass, Prop};
use crate::sut;
use json_typegen_shared::{parse, ImportStyle, Options, OutputMode, StringTransform};
use proptest::test_runner::TestRng;
use std::sync::Arc;

/// A string literal in one of the forms the block may use; `simple`: only the plain quoted form.
pub fn literal(s: &str, ch: &mut Ch, simple: bool) -> String {
    if simple {
        return rust_str(s);
    }
    let k = ch.below(6);
    spelling(s, ch, k)
}
fn quoted(s: &str, ch: &mut Ch) -> String {
    let k = 3 + ch.below(3);
    spelling(s, ch, k)
}
fn spelling(s: &str, ch: &mut Ch, k: usize) -> String {
    match k {
        0 if !s.contains('"') && !s.contains('\r') => format!("r\"{s}\""),
        1 if !s.contains("\"#") && !s.contains('\r') => format!("r#\"{s}\"#"),
        2 if !s.contains("\"##") && !s.contains('\r') => format!("r##\"{s}\"##"),
        3 => {
            let mut o = String::from("\"");
            for c in s.chars() {
                let must = c == '"' || c == '\\' || (c as u32) < 0x20;
                if must || ch.below(3) == 0 {
                    o.push_str(&if (c as u32) < 0x80 && ch.below(2) == 0 { format!("\\x{:02x}", c as u32) } else { format!("\\u{{{:x}}}", c as u32) });
                } else {
                    o.push(c);
                }
            }
            o + "\""
        }
        _ => rust_str(s),
    }
}
fn is_bare(k: &str) -> bool {
    !k.is_empty() && !k.as_bytes()[0].is_ascii_digit() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_')
}

/// One entry: name, and its value if it has one.
#[derive(Clone, Debug)]
enum Val {
    Str(String),
    Bool(bool),
    Hints(Vec<(&'static str, String)>),
}
fn entries(c: &Case, ch: &mut Ch) -> Vec<(String, Val)> {
    let mut v: Vec<(String, Val)> = vec![];
    for (k, x) in c.opts.iter().filter(|o| !o.0.starts_with('_')) {
        let val = if BOOL_OPTS.contains(&k.as_str()) { Val::Bool(x == "true") } else { Val::Str(x.clone()) };
        v.push((k.clone(), val));
    }
    for (p, t) in &c.hints {
        v.push((p.clone(), if t == "<none>" { Val::Hints(vec![]) } else { Val::Hints(vec![("use_type", t.clone())]) }));
    }
    // hints keep their order among themselves: two of them may address the same place
    for i in (1..v.len()).rev() {
        let j = ch.below(i + 1);
        if !(matches!(v[i].1, Val::Hints(_)) || matches!(v[j].1, Val::Hints(_))) || c.hints.len() < 2 {
            v.swap(i, j);
        }
    }
    v
}
/// Tokens of a block in some spelling.
fn tokens(c: &Case, ch: &mut Ch) -> Vec<String> {
    let json = ch.below(4) == 0;
    let name = |k: &str, ch: &mut Ch| if json { rust_str(k) } else if is_bare(k) && ch.below(3) > 0 { k.to_string() } else { quoted(k, ch) };
    let es = entries(c, ch);
    let mut t: Vec<String> = vec!["{".into()];
    let last = es.len();
    for (i, (k, v)) in es.into_iter().enumerate() {
        t.push(name(&k, ch));
        match v {
            Val::Bool(true) if !json && ch.below(2) == 0 => {}
            Val::Bool(b) => t.extend([":".into(), b.to_string()]),
            Val::Str(s) => t.extend([":".into(), literal(&s, ch, json)]),
            Val::Hints(h) => {
                t.extend([":".into(), "{".into()]);
                let n = h.len();
                for (j, (k, s)) in h.into_iter().enumerate() {
                    t.extend([name(k, ch), ":".into(), literal(&s, ch, json)]);
                    if j + 1 < n || !json && ch.below(3) == 0 {
                        t.push(",".into());
                    }
                }
                t.push("}".into());
            }
        }
        if i + 1 < last || !json && ch.below(3) == 0 {
            t.push(",".into());
        }
    }
    t.push("}".into());
    t
}
fn spell(t: &[String], ch: &mut Ch) -> String {
    let mode = ch.below(3);
    let mut o = String::new();
    for (i, x) in t.iter().enumerate() {
        let gap = match mode {
            0 => "",
            1 => *[" ", "\n", "\t", "  ", " \n  ", ""].get(ch.below(6)).unwrap(),
            _ => " ",
        };
        // two words must stay apart
        let word = |s: &str| s.chars().next().is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '"');
        if gap.is_empty() && i > 0 && word(&t[i - 1]) && word(x) {
            o.push(' ');
        }
        o.push_str(gap);
        o.push_str(x);
    }
    if ch.below(3) == 0 {
        o.push_str([" ", "\n"][ch.below(2)]);
    }
    o
}

fn mode_of(s: &str) -> OutputMode {
    match s {
        "rust" => OutputMode::Rust,
        "typescript" => OutputMode::Typescript,
        "typescript/typealias" => OutputMode::TypescriptTypeAlias,
        "kotlin" | "kotlin/jackson" => OutputMode::KotlinJackson,
        "kotlin/kotlinx" => OutputMode::KotlinKotlinx,
        "python" => OutputMode::PythonPydantic,
        "json_schema" => OutputMode::JsonSchema,
        "zod" => OutputMode::ZodSchema,
        _ => OutputMode::Shape,
    }
}
fn format_of(s: &str) -> StringTransform {
    use StringTransform::*;
    let k: String = s.chars().filter(|c| c.is_ascii_alphabetic()).collect::<String>().to_ascii_lowercase();
    match k.as_str() {
        "lowercase" => LowerCase,
        "uppercase" => UpperCase,
        "pascalcase" | "uppercamelcase" => PascalCase,
        "camelcase" => CamelCase,
        "snakecase" => SnakeCase,
        "screamingsnakecase" => ScreamingSnakeCase,
        "kebabcase" => KebabCase,
        _ => ScreamingKebabCase,
    }
}
/// The public options the block stands for, starting from `o`.
fn expected(c: &Case, mut o: Options) -> Options {
    for (k, v) in &c.opts {
        let b = v == "true";
        match k.as_str() {
            "output_mode" => o.output_mode = mode_of(v),
            "derives" => o.derives = v.clone(),
            "property_name_format" => o.property_name_format = if v.is_empty() { None } else { Some(format_of(v)) },
            "import_style" => {
                o.import_style = match v.as_str() {
                    "add_imports" => ImportStyle::AddImports,
                    "assume_existing" => ImportStyle::AssumeExisting,
                    _ => ImportStyle::QualifiedPaths,
                }
            }
            "field_visibility" => o.field_visibility = Some(v.clone()),
            "deny_unknown_fields" => o.deny_unknown_fields = b,
            "use_default_for_missing_fields" => o.use_default_for_missing_fields = b,
            "collect_additional" => o.collect_additional = b,
            "unwrap" => o.unwrap = v.clone(),
            "infer_map_threshold" => o.infer_map_threshold = v.parse().ok(),
            _ => {}
        }
    }
    o
}
fn defaults(import: ImportStyle) -> Options {
    let mut o = Options::default();
    o.import_style = import;
    o
}
/// Sets the two options that are not public to what `from` has: they are compared through behaviour.
fn same(got: &Options, want: &Options, block: &str) -> Result<(), String> {
    if got != want {
        return Err(format!("block {block}\n means {got:?}\n want  {want:?}"));
    }
    Ok(())
}

fn check_valid(c: &Case, ch: &mut Ch) -> Result<Pass, String> {
    // the parts with private fields: only their canonical spelling is trusted as reference
    let private = Case { opts: c.opts.iter().filter(|o| o.0 == "allow_option_vec" || o.0 == "input_mode").map(|(k, v)| (k.clone(), v.clone())).collect(), hints: c.hints.iter().filter(|h| h.1 != "<none>").cloned().collect(), ..c.clone() };
    let reference = parse::options(&private.block()).map_err(|e| format!("block {} rejected: {e}", private.block()))?;
    let differs = c.flag("allow_option_vec") || c.get("input_mode") == "sql" || c.hints.iter().any(|h| h.1 != "<none>");
    if differs == (reference == Options::default()) {
        return Err(format!("block {} means {reference:?}", private.block()));
    }
    let want = expected(c, reference.clone());
    let mut spelt = vec![];
    for _ in 0..3 {
        let b = spell(&tokens(c, ch), ch);
        let got = parse::options(&b).map_err(|e| format!("block rejected: {e}\n{b}"))?;
        same(&got, &want, &b)?;
        spelt.push(b);
    }
    // the same block as third macro argument, as tokens and as string literal
    let mut mwant = reference;
    mwant.import_style = defaults(ImportStyle::QualifiedPaths).import_style;
    let mwant = expected(c, mwant);
    for b in &spelt[..2] {
        let lit = literal(b, ch, false);
        for arg in [b.clone(), lit] {
            let gap = [" ", "", "\n"][ch.below(3)];
            let comma = [",", " ,", ", "][ch.below(3)];
            let text = format!("{gap}{}{comma}{}{comma}{arg}", literal(&c.name, ch, false), literal(&c.sample.text(), ch, false));
            let got = parse::macro_input(&text).map_err(|e| format!("macro arguments rejected: {e}\n{text}"))?;
            if got.name != c.name || got.sample_source != c.sample.text() {
                return Err(format!("macro arguments {text}\n mean {got:?}"));
            }
            same(&got.options, &mwant, &text)?;
            let full = format!("json_typegen!({text});");
            let got = parse::full_macro(&full).map_err(|e| format!("macro rejected: {e}\n{full}"))?;
            same(&got.options, &mwant, &full)?;
        }
    }
    let k = c.opts.len() + c.hints.len();
    let mut tags = vec!["valid"];
    if !c.hints.is_empty() {
        tags.push("hints");
    }
    Ok(Pass::of(tags, k >= 2))
}

/// Names that are not options, near and far.
const NOT_OPTIONS: &[&str] = &[
    "foo", "outputmode", "output-mode", "OUTPUT_MODE", "output_mode2", "output_mod", "derive", "derives2", "unwraps", "use_type", "type_name",
    "deny_unknown_field", "Deny_unknown_fields", "allow_option_vecs", "type_visibility", "field_visiblity", "hints", "a/b", "-", "~", "collect_additional_", "true", "map",
];
const NOT_HINTS: &[&str] = &["foo", "use_types", "type", "Use_type", "output_mode", "map", "/a", "deny_unknown_fields"];
/// A value that is neither a string nor, where that matters, a boolean literal.
const BAD: &[&str] = &["1", "foo", "[]", "{}", "'c'", "b\"x\"", "-1", "1.5", "null", "(\"a\")", "True", "yes", "truely", "#"];

fn check_invalid(c: &Case, ch: &mut Ch) -> Result<Pass, String> {
    let mut t = tokens(c, ch);
    // token positions at the top level: where entries start, and where they end
    let mut depth = 0;
    let mut starts = vec![];
    let mut expect = true;
    for (i, x) in t.iter().enumerate() {
        match x.as_str() {
            "{" => depth += 1,
            "}" => depth -= 1,
            "," if depth == 1 => expect = true,
            _ if depth == 1 && expect => {
                starts.push(i);
                expect = false;
            }
            _ => {}
        }
    }
    let entry = |i: usize| -> (usize, bool) {
        // end (exclusive) of the entry that starts at i, and whether it has a value
        let mut d = 0;
        for j in i..t.len() {
            match t[j].as_str() {
                "{" => d += 1,
                "}" if d == 0 => return (j, j > i + 1),
                "}" => d -= 1,
                "," if d == 0 => return (j, j > i + 1),
                _ => {}
            }
        }
        (t.len(), true)
    };
    let es: Vec<(usize, usize, bool)> = starts.iter().map(|i| { let (e, v) = entry(*i); (*i, e, v) }).collect();
    let unquote = |s: &str| -> String { s.trim_matches('"').to_string() };
    let pick = |ch: &mut Ch, v: &[(usize, usize, bool)]| v[ch.below(v.len())];
    let valued: Vec<_> = es.iter().copied().filter(|e| e.2).collect();
    let strings: Vec<_> = valued.iter().copied().filter(|e| t[e.0 + 2].contains('"')).collect();
    let bools: Vec<_> = es.iter().copied().filter(|e| !e.2 || matches!(t[e.0 + 2].as_str(), "true" | "false")).collect();
    let blocks: Vec<_> = valued.iter().copied().filter(|e| t[e.0 + 2] == "{").collect();
    let last = t.len() - 1;
    let what: &'static str;
    match ch.below(20) {
        0 | 1 => {
            what = "unknown option";
            let k = NOT_OPTIONS[ch.below(NOT_OPTIONS.len())];
            let k = if is_bare(k) && ch.below(2) == 0 { k.to_string() } else { rust_str(k) };
            let v: Vec<String> = match ch.below(4) {
                0 => vec![k],
                1 => vec![k, ":".into(), "true".into()],
                2 => vec![k, ":".into(), "{".into(), "}".into()],
                _ => vec![k, ":".into(), "\"x\"".into()],
            };
            let at = if es.is_empty() || ch.below(2) == 0 { 1 } else { pick(ch, &es).0 };
            let mut v = v;
            if at < last {
                v.push(",".into());
            }
            t.splice(at..at, v);
        }
        2 if !es.is_empty() => {
            what = "misspelt option";
            let e = pick(ch, &es);
            let k = unquote(&t[e.0]);
            if !is_bare(&k) {
                return Pass::skip("no name to misspell");
            }
            let k2 = match ch.below(4) {
                0 => k[..k.len() - 1].to_string(),
                1 => format!("{k}s"),
                2 => k.to_uppercase(),
                _ => k.replace('_', ""),
            };
            if k2 == k || k2.is_empty() {
                return Pass::skip("not misspelt");
            }
            t[e.0] = if ch.below(2) == 0 { k2 } else { rust_str(&k2) };
        }
        3 | 4 if !strings.is_empty() => {
            what = "string option with a value of another kind";
            let e = pick(ch, &strings);
            let b = if ch.below(4) == 0 { ["true", "false"][ch.below(2)] } else { BAD[ch.below(BAD.len())] };
            t[e.0 + 2] = b.into();
        }
        5 | 6 if !bools.is_empty() => {
            what = "boolean option with a value of another kind";
            let e = pick(ch, &bools);
            let b = if ch.below(3) == 0 { ["\"true\"", "\"\"", "\"false\"", "0"][ch.below(4)] } else { BAD[ch.below(BAD.len())] };
            t.splice(e.0 + 1..e.1, [":".to_string(), b.to_string()]);
        }
        7 if !blocks.is_empty() => {
            what = "hint that is not a block";
            let e = pick(ch, &blocks);
            let v = ["\"map\"", "true", "map", "[]"][ch.below(4)];
            t.splice(e.0 + 2..e.1, [v.to_string()]);
        }
        8 if !blocks.is_empty() => {
            what = "unknown hint option";
            let e = pick(ch, &blocks);
            let k = NOT_HINTS[ch.below(NOT_HINTS.len())];
            let k = if is_bare(k) && ch.below(2) == 0 { k.to_string() } else { rust_str(k) };
            t.splice(e.0 + 2..e.1, ["{".to_string(), k, ":".into(), "\"x\"".into(), "}".into()]);
        }
        9 if !valued.is_empty() => {
            what = "missing value";
            let e = pick(ch, &valued);
            t.drain(e.0 + 2..e.1);
        }
        10 if !strings.is_empty() || !blocks.is_empty() => {
            what = "option without value";
            let e = if strings.is_empty() { pick(ch, &blocks) } else { pick(ch, &strings) };
            t.drain(e.0 + 1..e.1);
        }
        11 if !valued.is_empty() => {
            what = "missing or wrong colon";
            let e = pick(ch, &valued);
            match ch.below(3) {
                0 => {
                    t.remove(e.0 + 1);
                }
                1 => t[e.0 + 1] = "=".into(),
                _ => t[e.0 + 1] = "=>".into(),
            }
        }
        12 if es.len() >= 2 => {
            what = "missing or wrong comma";
            let e = es[ch.below(es.len() - 1)];
            match ch.below(3) {
                0 => {
                    t.remove(e.1);
                }
                1 => t[e.1] = ";".into(),
                _ => t.insert(e.1, ",".into()),
            }
        }
        13 => {
            what = "doubled or leading comma";
            let at = if ch.below(2) == 0 { 1 } else { last };
            let v: Vec<String> = if at == 1 || t[last - 1] == "," { vec![",".into()] } else { vec![",".into(), ",".into()] };
            t.splice(at..at, v);
        }
        14 => {
            what = "missing closing brace";
            t.remove(last);
        }
        15 => {
            what = "missing opening brace";
            t.remove(0);
        }
        16 => {
            what = "other brackets";
            let (a, b) = [("(", ")"), ("[", "]"), ("", ""), ("{{", "}}")][ch.below(4)];
            t[0] = a.into();
            t[last] = b.into();
            t.retain(|x| !x.is_empty());
            if t.is_empty() {
                return Pass::skip("nothing left");
            }
        }
        17 => {
            what = "stray token";
            let k = ["1", "?", "=", "[", "(", "<", "."][ch.below(7)];
            // where an entry or punctuation is expected
            let at = if es.is_empty() { 1 } else { let e = pick(ch, &es); [e.0, e.1][ch.below(2)] };
            t.insert(at, k.into());
        }
        _ => {
            what = "text after the block";
            let k = ["x", "}", ",", ";", "{}", "true", "\"x\"", ")", ", { }", "{ derives: \"x\" }"][ch.below(10)];
            t.push(k.into());
        }
    }
    let b = spell(&t, ch);
    if let Ok(o) = parse::options(&b) {
        return Err(format!("malformed block accepted ({what})\n{b}\n as {o:?}"));
    }
    let macro_text = format!("\"A\", \"{{}}\", {b}");
    if let Ok(o) = parse::macro_input(&macro_text) {
        return Err(format!("macro arguments with a malformed block accepted ({what})\n{macro_text}\n as {o:?}"));
    }
    let macro_text = format!("\"A\", \"{{}}\", {}", rust_str(&b));
    if let Ok(o) = parse::macro_input(&macro_text) {
        return Err(format!("macro arguments with a malformed block accepted ({what})\n{macro_text}\n as {o:?}"));
    }
    if what == "text after the block" {
        // after the block as a string literal
        let k = t.pop().unwrap();
        let sep = ["", " ", "\n"][ch.below(3)];
        let lit = literal(&spell(&t, ch), ch, false);
        let text = format!("\"A\", \"{{}}\", {lit}{sep}{k}");
        for (text, r) in [(text.clone(), parse::macro_input(&text)), (format!("json_typegen!({text});"), parse::full_macro(&format!("json_typegen!({text});")))] {
            // a bracket may end the macro; then a text follows that is not its end
            if let Ok(o) = r {
                return Err(format!("macro arguments with text after the options string accepted\n{text}\n as {o:?}"));
            }
        }
    }
    Ok(Pass::of(vec!["malformed", what], t.len() > 4))
}
fn check(c: &Case) -> Result<Pass, String> {
    let mut ch = Ch::new(c.nums.first().copied().unwrap_or(0));
    if c.flag("_malformed") {
        check_invalid(c, &mut ch)
    } else {
        check_valid(c, &mut ch)
    }
}
const TEXTS: &[&str] = &[
    "", " ", "x", "Foo, Bar", "a::b", "\"", "\\", "\n", "a\"b", "'", "{", "}", ",", ":", "/", "é", "日本", "😀", "\"#", "r#\"x\"#", "//", "/*", "*/", "\t", "true", "pub(crate)",
    "Debug, Clone, serde_derive::Serialize", "\\n", "\\u0041", "a\\", "#", "\u{7f}",
];
pub fn gen_block(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let cfg = Cfg { depth: 2, width: 3, ..Default::default() };
    let j = gen::sample(&mut r, &cfg);
    let mut c = Case::new(&gen::name(&mut r), j.clone());
    let p = *r.pick(&[10, 30, 60, 90]);
    let text = |r: &mut R| if r.pct(80) { r.pick(TEXTS).to_string() } else { gen::random_string(r, &Cfg::default()) };
    let mut o = std::collections::BTreeMap::new();
    if r.pct(p) {
        let mut m = sut::MODES.to_vec();
        m.push("kotlin");
        o.insert("output_mode".to_string(), r.pick(&m).to_string());
    }
    if r.pct(p) {
        o.insert("input_mode".into(), r.pick(&["json", "sql"]).to_string());
    }
    if r.pct(p) {
        o.insert("derives".into(), text(&mut r));
    }
    if r.pct(p) {
        o.insert("property_name_format".into(), if r.pct(10) { String::new() } else { r.pick(sut::FORMAT_SPELLINGS).to_string() });
    }
    if r.pct(p) {
        o.insert("import_style".into(), r.pick(sut::STYLES).to_string());
    }
    if r.pct(p) {
        o.insert("field_visibility".into(), text(&mut r));
    }
    for b in BOOL_OPTS {
        if r.pct(p) {
            o.insert(b.to_string(), r.pct(60).to_string());
        }
    }
    if r.pct(p) {
        o.insert("unwrap".into(), if r.pct(50) { super::core::gen_pointer(&mut r, &j, true) } else { text(&mut r) });
    }
    if r.pct(p) {
        let k = r.below(3000);
        o.insert("infer_map_threshold".into(), r.pick(&["0", "1", "2", "10", "007", "18446744073709551615", ""]).to_string().replace("10", &k.to_string()));
    }
    c.opts = o;
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3]) {
        let mut p = super::core::gen_pointer(&mut r, &j, true);
        if r.pct(20) {
            p = format!("{p}/{}", model::escape_token(&text(&mut r)));
        }
        let t = match r.below(6) {
            0 => "<none>".into(),
            1..=2 => "map".into(),
            3 => "Foo".into(),
            _ => text(&mut r),
        };
        if !c.hints.iter().any(|h| h.0 == p) {
            c.hints.push((p, t));
        }
    }
    c.nums = vec![r.below(1 << 30) as i64];
    c
}
fn gen_valid(r: &mut TestRng) -> Case {
    gen_block(r)
}
fn gen_malformed(r: &mut TestRng) -> Case {
    gen_block(r).opt("_malformed", "true")
}
pub fn c13() -> Prop {
    Prop {
        id: "C13",
        level: "exploration",
        rule: "random sets of options and hints in three random spellings each (order, whitespace, trailing commas, bare/quoted names, plain/escaped/raw strings, boolean shorthand, JSON form), parsed as block and as macro argument (tokens and string literal) and compared with the options they list over the defaults; and the same blocks with one defect (unknown name, wrong kind of value, punctuation, trailing text), which must be rejected; non-trivial = at least two entries, or a malformed block of more than four tokens; distinct by hash of the case".into(),
        assumptions: vec!["unknown values of known string options are not judged".into(), "comments inside blocks and repeated options are not judged".into()],
        campaigns: vec![("valid", n(400_000, 8_000_000), Arc::new(gen_valid)), ("malformed", n(800_000, 15_000_000), Arc::new(gen_malformed))],
        make: super::core::simple(check),
        max_shrink: 20_000,
        threads: 8,
        batch: None,
    }
}
#[allow(unused)]
fn unused(_: &J) {}
