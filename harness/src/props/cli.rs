//! Routes into the code generator: C18 (all interfaces agree), C20 (failing runs), C21 (delivery of the sample).
use super::core::{self, Ch};
use super::n;
use super::options::literal;
use crate::case::Case;
use crate::cli::{self, Stdin};
use crate::gen::{self, Cfg, R};
use crate::json::{self, J};
use crate::model;
use crate::run::{harness_error, Pass, Prop};
use crate::sut;
use crate::workers;
use json_typegen_shared::{codegen, codegen_from_macro, codegen_from_macro_input, internal_util::display_error_with_causes, parse};
use proptest::test_runner::TestRng;
use serde_json::json;
use std::ffi::OsString;
use std::io::{Read, Write};
use std::path::Path;
use std::sync::Arc;

fn need_cli() {
    if !cli::binary().exists() {
        harness_error("the command line binary is not built");
    }
}
/// What the library says for this request.
fn library(name: &str, input: &str, block: &str) -> Result<String, String> {
    let o = parse::options(block)?;
    codegen(name, input, o).map_err(|e| display_error_with_causes(&e))
}
/// The options block of the case, malformed in some cases ("_badblock").
fn block_of(c: &Case) -> String {
    let b = c.block();
    match c.get("_badblock") {
        "" => b,
        "unknown" => b.replacen('{', "{ no_such_option, ", 1),
        "trailing" => format!("{b} x"),
        "open" => b.trim_end().trim_end_matches('}').to_string(),
        _ => "".into(),
    }
}
/// The sample text of the case, respelt, cut in some cases ("_cut").
fn text_of(c: &Case, ch: &mut Ch) -> String {
    let mut t = if c.get("_spell") == "no" { c.sample.text() } else { core::respell(&c.sample, ch) };
    if c.get("input_mode") == "sql" && !c.texts.is_empty() {
        t = c.texts[0].clone();
    }
    if c.flag("_cut") {
        let k: Vec<usize> = t.char_indices().map(|x| x.0).collect();
        t.truncate(k[ch.below(k.len())].max(1));
        let s = t.trim_start();
        if !s.starts_with(['{', '[']) {
            t = "[".into();
        }
    }
    t
}
fn is_container(t: &str) -> bool {
    t.trim().starts_with(['{', '['])
}
fn agree(what: &str, want: &Result<String, String>, got: Result<String, String>, detail: &dyn Fn() -> String) -> Result<(), String> {
    let same = match (want, &got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => b.contains(a.as_str()),
        _ => false,
    };
    if same {
        return Ok(());
    }
    Err(format!("{what} differs from the library call\n--- library\n{want:?}\n--- {what}\n{got:?}\n--- request\n{}", detail()))
}

fn name_args(name: &str, ch: &mut Ch) -> Vec<OsString> {
    if name == "Root" && ch.below(2) == 0 {
        return vec![];
    }
    match ch.below(3) {
        0 if !name.starts_with('-') && !name.is_empty() => vec!["-n".into(), name.into()],
        1 if !name.starts_with('-') && !name.is_empty() => vec!["--name".into(), name.into()],
        _ => vec![format!("--name={name}").into()],
    }
}

/// A sample that is not UTF-8 is refused by every route that can carry it.
fn not_utf8(c: &Case, text: &str, block: &str, ch: &mut Ch) -> Result<Pass, String> {
    if c.name.contains('\0') || block.contains('\0') {
        return Pass::skip("not an argument");
    }
    let bad: &[&[u8]] = &[b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\x80", b"\xc0\xaf", b"\xf4\x90\x80\x80"];
    let at = if let (true, Some(q)) = (ch.below(3) > 0, text.find('"')) { q + 1 } else { 1 + ch.below(text.len()) };
    let mut b = text.as_bytes().to_vec();
    b.splice(at.min(b.len() - 1)..at.min(b.len() - 1), bad[ch.below(bad.len())].iter().copied());
    if std::str::from_utf8(&b).is_ok() {
        return Pass::skip("by chance UTF-8");
    }
    let d = cli::dir();
    std::fs::write(d.join("s.json"), &b).unwrap();
    let mut runs = vec![("file", library(&c.name, d.join("s.json").to_str().unwrap(), block))];
    for (what, arg, stdin) in [("command line (file)", "s.json", Stdin::Null), ("command line (stdin)", "-", Stdin::Bytes(b.clone()))] {
        let mut args: Vec<OsString> = name_args(&c.name, ch);
        args.push(format!("--options={block}").into());
        args.push(arg.into());
        let r = cli::run(&args, stdin, &d);
        runs.push((what, if r.ok() { Ok(String::from_utf8_lossy(&r.out).into_owned()) } else { Err(r.err.clone()) }));
    }
    let _ = std::fs::remove_dir_all(&d);
    for (what, r) in runs {
        if let Ok(code) = r {
            return Err(format!("{what}: a sample that is not UTF-8 is accepted: {:?}\n--- code\n{code}", String::from_utf8_lossy(&b)));
        }
    }
    Ok(Pass::of(vec!["not UTF-8"], true))
}
fn check_c18(t: usize, c: &Case) -> Result<Pass, String> {
    if c.sample.has_dup_keys() {
        return Pass::skip("outside domain");
    }
    let mut ch = Ch::new(c.nums.first().copied().unwrap_or(0));
    let text = text_of(c, &mut ch);
    let sql = c.get("input_mode") == "sql";
    if !is_container(&text) && !sql {
        return Pass::skip("sample is not a container");
    }
    if sql && (text.trim().starts_with("json_typegen!") || text.trim() == "-" || is_container(&text)) {
        return Pass::skip("outside domain");
    }
    let block = block_of(c);
    if c.flag("_bytes") {
        return not_utf8(c, &text, &block, &mut ch);
    }
    let want = library(&c.name, &text, &block);
    let nul = text.contains('\0') || block.contains('\0') || c.name.contains('\0');
    let mut tags = vec![if want.is_ok() { "code" } else { "error" }];

    // 1. the web entry point
    let w = workers::web().one(t, json!({"name": c.name, "input": text, "options": block}));
    let w = w.as_str().unwrap_or("").to_string();
    let w = match w.strip_prefix("Error: ") {
        Some(e) => Err(e.to_string()),
        None => Ok(w),
    };
    agree("web entry point", &want, w, &|| format!("run({:?}, {:?}, {:?})", c.name, text, block))?;

    // 2. macro text: its default import style is qualified paths
    let mblock_case = if c.get("import_style").is_empty() { c.clone().opt("import_style", "qualified_paths") } else { c.clone() };
    let mwant = library(&c.name, &text, &block_of(&mblock_case));
    let sp = [" ", "", "\n", "  \n\t"];
    let mut macro_text = String::new();
    for _ in 0..2 {
        let third = match ch.below(4) {
            // the options are left to the defaults of the macro where they say the same
            0 if block.trim() == "{  }" => String::new(),
            1 | 2 => literal(&block, &mut ch, false),
            _ => block.clone(),
        };
        let comma = [",", " ,", ", ", ",\n"][ch.below(4)];
        let mut args = format!("{}{}{comma}{}", sp[ch.below(4)], literal(&c.name, &mut ch, false), literal(&text, &mut ch, false));
        if !third.is_empty() || c.get("_badblock") == "empty" {
            args += comma;
            args += &third;
        }
        args += sp[ch.below(4)];
        let got = codegen_from_macro_input(&args).map_err(|e| display_error_with_causes(&e));
        if c.get("_badblock").is_empty() {
            agree("macro input", &mwant, got, &|| args.clone())?;
        } else if got.is_ok() && c.get("_badblock") != "empty" {
            return Err(format!("macro input with a malformed options block is accepted\n{args}"));
        }
        macro_text = format!("{}json_typegen!({args});{}", sp[ch.below(4)], sp[ch.below(4)]);
        let got = codegen_from_macro(&macro_text).map_err(|e| display_error_with_causes(&e));
        if c.get("_badblock").is_empty() {
            agree("macro text", &mwant, got, &|| macro_text.clone())?;
        } else if got.is_ok() && c.get("_badblock") != "empty" {
            return Err(format!("macro text with a malformed options block is accepted\n{macro_text}"));
        }
    }

    // 3. the command line
    let d = cli::dir();
    let mut args: Vec<OsString> = vec![];
    let mut stdin = Stdin::Null;
    let mut want_cli = &want;
    let big = text.len() > 60_000 || macro_text.len() > 60_000 || block.len() > 60_000;
    let route = match ch.below(6) {
        0 | 1 if !nul && !big => "inline",
        2 if !sql => "file",
        3 if !nul && !big => "macro argument",
        4 => "macro on stdin",
        _ => "stdin",
    };
    if nul && route != "macro on stdin" && (c.name.contains('\0') || block.contains('\0')) {
        return Ok(Pass::of(tags, want.is_ok()));
    }
    tags.push(route);
    let is_macro = route.starts_with("macro");
    if is_macro {
        if !c.get("_badblock").is_empty() {
            return Ok(Pass::of(tags, want.is_ok()));
        }
        want_cli = &mwant;
    } else {
        args.extend(name_args(&c.name, &mut ch));
        // the output mode as argument or in the block
        let mode = c.get("output_mode");
        let modes_cli = sut::MODES.contains(&mode) || mode == "kotlin";
        if modes_cli && c.get("_badblock").is_empty() && ch.below(3) > 0 {
            let mut rest = c.clone();
            rest.opts.remove("output_mode");
            if ch.below(2) == 0 {
                // overridden
                rest = rest.opt("output_mode", sut::MODES[ch.below(sut::MODES.len())]);
            }
            match ch.below(4) {
                0 => args.extend(["-O".into(), mode.into()]),
                1 => args.push(format!("-O{mode}").into()),
                2 => args.push(format!("--output-mode={mode}").into()),
                _ => args.extend(["--output-mode".into(), mode.into()]),
            }
            let empty = rest.opts.keys().all(|k| k.starts_with('_')) && rest.hints.is_empty();
            if !empty || ch.below(2) == 0 {
                args.push(format!("--options={}", rest.block()).into());
            }
            tags.push("mode argument");
        } else if !(block.trim() == "{  }" && ch.below(2) == 0) {
            if ch.below(2) == 0 && !block.is_empty() {
                args.extend(["--options".into(), block.clone().into()]);
            } else {
                args.push(format!("--options={block}").into());
            }
        }
    }
    let out = match ch.below(3) {
        0 => None,
        k => {
            let f = ["out", "out file.rs", "öut.ts", "./o.txt"][ch.below(4)];
            if k == 1 {
                std::fs::write(d.join(f), "x".repeat([0, 1, 5000][ch.below(3)])).unwrap();
            }
            match ch.below(3) {
                0 => args.extend(["-o".into(), f.into()]),
                1 => args.push(format!("--output={f}").into()),
                _ => args.extend(["--output".into(), d.join(f).into()]),
            }
            Some(d.join(f))
        }
    };
    let input: OsString = match route {
        "inline" => text.clone().into(),
        "macro argument" => macro_text.clone().into(),
        "file" => {
            let f = if ch.below(3) == 0 { FILES[ch.below(FILES.len())] } else { ["sample.json", "s p.json", "sämple", "./x", "sub/y.json", "a,b", "json_typegen.json", "json_typegen", "https.json", "\"q\".json", "-", "a{}", "stdin", "CREATE TABLE"][ch.below(14)] };
            let f = if f == "-" { "./-" } else { f };
            std::fs::create_dir_all(d.join(f).parent().unwrap()).unwrap();
            std::fs::write(d.join(f), &text).unwrap();
            if ch.below(2) == 0 {
                f.into()
            } else {
                d.join(f).into()
            }
        }
        _ => {
            stdin = Stdin::Bytes(if is_macro { macro_text.clone().into_bytes() } else { text.clone().into_bytes() });
            "-".into()
        }
    };
    if ch.below(2) == 0 {
        args.insert(0, input);
    } else {
        if input.to_string_lossy().starts_with('-') && input != "-" {
            args.push("--".into());
        }
        args.push(input);
    }
    let r = cli::run(&args, stdin, &d);
    let stdout = String::from_utf8_lossy(&r.out).into_owned();
    let got = if r.ok() {
        Ok(match &out {
            Some(f) => std::fs::read(f).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_else(|e| format!("no output file: {e}")),
            None => stdout,
        })
    } else {
        Err(r.err.clone())
    };
    if out.is_some() {
        tags.push("output file");
    }
    let res = agree(&format!("command line ({route})"), want_cli, got, &|| format!("{args:?}\nsample or macro text {:?}\n{}", if is_macro { &macro_text } else { &text }, r.show()));
    let _ = std::fs::remove_dir_all(&d);
    res?;
    Ok(Pass::of(tags, want.is_ok() && c.sample.size() > 2 || want.is_err()))
}
const SQLS: &[&str] = &[
    "CREATE TABLE t (id INT NOT NULL, name VARCHAR(20), \"odd name\" BOOLEAN NOT NULL, d DATE NOT NULL, x FLOAT);",
    "create table a.b (x int)",
    "SELECT 1",
    "CREATE TABLE (",
    "",
    "CREATE TABLE t (a TEXT NOT NULL); CREATE TABLE u (b INT NOT NULL)",
    "/* {} */ CREATE TABLE t (æ TEXT)",
];
pub fn gen_request(r: &mut R) -> Case {
    let cfg = Cfg { depth: 3, width: 4, odd: 25, ..Default::default() };
    let j = if r.pct(1) { gen::large(r, &cfg, 60) } else { gen::sample(r, &cfg) };
    let mut c = Case::new(&if r.pct(40) { "Root".to_string() } else { gen::name(r) }, j.clone());
    if r.pct(5) {
        c.name = r.pick(&["", " ", " Foo ", "Foo Bar", "foo-bar", "\tfoo", "Ünï", "Foo?", "1st", "a\"b", "a\\b", "-x", "{", "Foo\n", "'"]).to_string();
    }
    if r.pct(90) {
        c = c.opt("output_mode", r.pick(sut::MODES));
    }
    if r.pct(40) {
        c = c.opt("import_style", r.pick(sut::STYLES));
    }
    if r.pct(20) {
        c = c.opt("property_name_format", r.pick(sut::FORMATS));
    }
    if r.pct(15) {
        c = c.opt("derives", r.pick(&["Debug", "", "Debug, Clone", "a::\"B\""]));
    }
    if r.pct(15) {
        c = c.opt("field_visibility", r.pick(&["", "pub", "pub(crate)"]));
    }
    for b in ["deny_unknown_fields", "use_default_for_missing_fields", "collect_additional", "allow_option_vec"] {
        if r.pct(15) {
            c = c.opt(b, if r.pct(70) { "true" } else { "false" });
        }
    }
    if r.pct(15) {
        c = c.opt("infer_map_threshold", &r.below(4).to_string());
    }
    if r.pct(20) {
        c = c.opt("unwrap", &core::gen_pointer(r, &j, true));
    }
    if r.pct(20) {
        c.hints.push((core::gen_pointer(r, &j, true), r.pick(&["map", "Foo", "a \"b\""]).to_string()));
    }
    c
}
fn gen_c18(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let mut c = gen_request(&mut r);
    c.nums.push(r.below(1 << 30) as i64);
    match r.below(20) {
        0 | 1 => c = c.opt("_cut", "true"),
        2 => c = c.opt("_badblock", r.pick(&["unknown", "trailing", "open", "empty"])),
        3 => {
            c = c.opt("input_mode", "sql");
            c.texts.push(r.pick(SQLS).to_string());
        }
        4 => c = c.opt("_bytes", "true").opt("_spell", "no"),
        _ => {}
    }
    c
}
pub fn c18() -> Prop {
    need_cli();
    Prop {
        id: "C18",
        level: "exploration",
        rule: "differential: the library call against the web entry point, macro arguments and macro text (random literal forms, options as tokens or string) and the command line (inline, file, stdin, macro text; options block, -O, -n, -o in random spellings); non-trivial = code for a sample with more than two values, or the same error; distinct by hash of the case".into(),
        assumptions: vec!["samples given inline or on standard input have an object or array at the root (others are taken as file names)".into(), "a macro defaults to qualified paths, so the style is made explicit on the other side".into(), "the web entry point is run as native code, not as WebAssembly".into()],
        campaigns: vec![("requests", n(24_000, 400_000), Arc::new(gen_c18))],
        make: Arc::new(|t| Box::new(move |c: &Case| check_c18(t, c))),
        max_shrink: 400,
        threads: 8,
        batch: None,
    }
}

// ---------------------------------------------------------------- C20
/// nums[0] = what is at the output path before; nums[1..] = runs, one after another, with the same output file
const PRIOR: usize = 7;
const STEPS: usize = 30;
fn check_c20(c: &Case) -> Result<Pass, String> {
    if c.sample.has_dup_keys() || !is_container(&c.sample.text()) {
        return Pass::skip("outside domain");
    }
    let d = cli::dir();
    let r = check_c20_in(c, &d);
    let _ = std::fs::remove_dir_all(&d);
    r
}
fn check_c20_in(c: &Case, d: &Path) -> Result<Pass, String> {
    let text = c.sample.text();
    if text.contains('\0') || c.name.contains('\0') || c.block().contains('\0') {
        return Pass::skip("not an argument");
    }
    let block = c.block();
    let out = d.join("out");
    let mut tags = vec![];
    std::fs::create_dir_all(d.join("in/dir")).unwrap();
    std::fs::write(d.join("in/good"), &text).unwrap();
    match c.nums.first().copied().unwrap_or(0) as usize % PRIOR {
        0 => tags.push("output absent before"),
        1 => std::fs::write(&out, "").unwrap(),
        2 => std::fs::write(&out, "old").unwrap(),
        3 => {
            tags.push("long output before");
            std::fs::write(&out, "old content\n".repeat(20_000)).unwrap()
        }
        4 => {
            tags.push("symbolic link");
            std::fs::write(d.join("target"), "old target content ".repeat(400)).unwrap();
            std::os::unix::fs::symlink("target", &out).unwrap();
        }
        5 => std::fs::write(&out, [0xff, 0, 1, 2]).unwrap(),
        _ => {
            tags.push("hard link");
            std::fs::write(d.join("target"), "old target content").unwrap();
            std::fs::hard_link(d.join("target"), &out).unwrap();
        }
    }
    let mut some_ok = false;
    let mut some_fail = false;
    for (i, k) in c.nums.iter().skip(1).enumerate() {
        let mut ch = Ch::new(*k);
        let kind = *k as usize % STEPS;
        let cut = |ch: &mut Ch| {
            let ix: Vec<usize> = text.char_indices().map(|x| x.0).filter(|x| *x > 0).collect();
            text[..ix[ch.below(ix.len())]].to_string()
        };
        let mut args: Vec<OsString> = name_args(&c.name, &mut ch);
        args.push(format!("--options={block}").into());
        let mut stdin = Stdin::Null;
        let mut to = out.clone();
        let mut lib = library(&c.name, &text, &block);
        let mut fail = false; // must fail whatever the library says
        let mut io_fault = false; // the output itself fails
        let mut use_o = true;
        let mut program: Option<Vec<OsString>> = None;
        let mut stdout_full = false;
        let input: Option<OsString> = match kind {
            0 | 1 => Some(text.clone().into()),
            2 | 3 => Some("in/good".into()),
            4 => {
                stdin = Stdin::Bytes(text.clone().into_bytes());
                Some("-".into())
            }
            5 => {
                fail = true;
                Some(cut(&mut ch).into())
            }
            6 => {
                fail = true;
                std::fs::write(d.join("in/bad"), cut(&mut ch)).unwrap();
                Some("in/bad".into())
            }
            7 => {
                fail = true;
                stdin = Stdin::Bytes(cut(&mut ch).into_bytes());
                Some("-".into())
            }
            8 => {
                fail = true;
                Some(["in/none", "in/none/x", "", "  ", "in/good/x"][ch.below(5)].into())
            }
            9 => {
                fail = true;
                Some(["in/dir", "in", "."][ch.below(3)].into())
            }
            10 => {
                fail = true;
                args = name_args(&c.name, &mut ch);
                args.push(format!("--options={}", [&format!("{block}x"), "", "{ nope }", "{ unwrap }", "{"][ch.below(5)]).into());
                Some(text.clone().into())
            }
            11 => {
                fail = true;
                args.push(format!("--output-mode={}", ["", "Rust", "java", "rust "][ch.below(4)]).into());
                Some(text.clone().into())
            }
            12 => {
                // a port nobody listens on
                fail = true;
                let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap_or_else(|e| harness_error(&format!("bind: {e}")));
                let p = l.local_addr().unwrap().port();
                drop(l);
                Some(format!("http://127.0.0.1:{p}/x.json").into())
            }
            13 => {
                fail = true;
                Some(["json_typegen!(", "json_typegen!", "json_typegen!(\"A\")", "json_typegen!(\"A\", \"{}\"", "json_typegen!(A, \"{}\");", "json_typegen!(\"A\", \"{}\", {no});"][ch.below(6)].into())
            }
            14 => {
                fail = true;
                Some(format!("json_typegen!({}, {});", literal(&c.name, &mut ch, false), literal(&cut(&mut ch), &mut ch, false)).into())
            }
            15 => {
                fail = true;
                let mut b = text.clone().into_bytes();
                let at = ch.below(b.len());
                b.insert(at, [0xff, 0xc0, 0x80][ch.below(3)]);
                stdin = Stdin::Bytes(b);
                Some("-".into())
            }
            16 => {
                fail = true;
                stdin = Stdin::Bytes([&b""[..], b"\n", b"  "][ch.below(3)].to_vec());
                Some("-".into())
            }
            17 => {
                fail = true;
                args.push(["--no-such-flag", "-x", "extra"][ch.below(3)].into());
                Some(text.clone().into())
            }
            18 => {
                fail = true;
                None
            }
            19 => {
                let q = if c.get("import_style").is_empty() { c.clone().opt("import_style", "qualified_paths") } else { c.clone() };
                lib = library(&c.name, &text, &q.block());
                args.clear();
                let m = format!("json_typegen!({}, {}, {block});", literal(&c.name, &mut ch, false), literal(&text, &mut ch, false));
                if ch.below(2) == 0 {
                    Some(m.into())
                } else {
                    stdin = Stdin::Bytes(m.into_bytes());
                    Some("-".into())
                }
            }
            20 => {
                io_fault = true;
                to = "/dev/full".into();
                Some(text.clone().into())
            }
            21 => {
                io_fault = true;
                use_o = false;
                stdout_full = true;
                Some(text.clone().into())
            }
            22 => {
                io_fault = true;
                to = d.join(["no/out", "in/good/out", "in/dir"][ch.below(3)]);
                Some(text.clone().into())
            }
            23 => {
                // the output replaces the input
                to = d.join("in/same");
                std::fs::write(&to, &text).unwrap();
                Some("in/same".into())
            }
            24 => {
                // a limit on the file size that the output exceeds
                program = Some(["-c", "trap '' XFSZ; ulimit -f 1; exec \"$@\"", "x"].iter().map(|s| s.into()).collect());
                io_fault = lib.as_ref().is_ok_and(|s| s.len() > 1024);
                to = d.join("limited");
                Some(text.clone().into())
            }
            25 => {
                let sql = ["SELECT 1", "CREATE TABLE (", "{}", "CREATE TABLE t (a INT", ""][ch.below(5)];
                fail = true;
                args = name_args(&c.name, &mut ch);
                args.push(format!("--options={}", c.clone().opt("input_mode", "sql").block()).into());
                Some(sql.into())
            }
            26 => {
                use_o = false;
                Some(text.clone().into())
            }
            27 => {
                fail = true;
                use_o = false;
                Some(cut(&mut ch).into())
            }
            28 => {
                fail = true;
                let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap_or_else(|e| harness_error(&format!("bind: {e}")));
                let p = l.local_addr().unwrap().port();
                let body = text.clone();
                let st = ["404 Not Found", "500 Internal Server Error", "403 Forbidden", "400 Bad Request"][ch.below(4)];
                std::thread::spawn(move || {
                    if let Ok((mut s, _)) = l.accept() {
                        let mut b = [0; 4096];
                        let _ = s.read(&mut b);
                        let _ = write!(s, "HTTP/1.1 {st}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{body}", body.len());
                    }
                });
                Some(format!("http://127.0.0.1:{p}/x.json").into())
            }
            _ => {
                // rejected only because of the options: fails in code generation's input, not in parsing
                fail = true;
                args = name_args(&c.name, &mut ch);
                args.push("--options={ unwrap: \"/\\u{1}no such key\" }".into());
                Some(text.clone().into())
            }
        };
        // an argument made of the sample itself, or of a file, may be rejected for its content alone
        let expect_ok = lib.is_ok() && !fail && !io_fault;
        if kind == 29 && library(&c.name, &text, "{ unwrap: \"/\\u{1}no such key\" }").is_ok() {
            continue;
        }
        if use_o {
            args.extend(["-o".into(), if ch.below(2) == 0 && to.starts_with(d) { to.strip_prefix(d).unwrap().into() } else { to.clone().into() }]);
        }
        if let Some(x) = input {
            args.insert(0, x);
        }
        let before = cli::listing(d);
        let r = match &program {
            Some(p) => {
                let mut a = p.clone();
                a.push(cli::binary().into());
                a.extend(args.clone());
                cli::run_with("bash".as_ref(), &a, stdin, d, std::process::Stdio::piped())
            }
            None if stdout_full => {
                let f = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap_or_else(|e| harness_error(&format!("/dev/full: {e}")));
                cli::run_with(cli::binary().as_os_str(), &args, stdin, d, f.into())
            }
            None => cli::run(&args, stdin, d),
        };
        let after = cli::listing(d);
        let err = |m: &str| Err(format!("run {} (kind {kind}): {m}\n{args:?}\n{}", i + 1, r.show()));
        if expect_ok {
            some_ok = true;
            tags.push("success");
            let code = lib.as_ref().unwrap();
            if !r.ok() {
                return err("fails although the library produces code");
            }
            if use_o {
                let got = std::fs::read(&to).unwrap_or_default();
                if got != code.as_bytes() {
                    return err(&format!("the output file does not hold exactly the generated code\n want {code:?}\n got  {:?}", String::from_utf8_lossy(&got[..got.len().min(2000)])));
                }
                // nothing else changed
                let keep = |m: &std::collections::BTreeMap<std::path::PathBuf, Option<Vec<u8>>>| {
                    m.iter().filter(|(k, _)| d.join(k) != to && !k.ends_with("target")).map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>()
                };
                if keep(&before) != keep(&after) {
                    return err("other files changed");
                }
            } else if r.out != code.as_bytes() {
                return err(&format!("standard output does not hold exactly the generated code\n want {code:?}"));
            }
        } else if lib.is_err() || fail {
            some_fail = true;
            tags.push("failure");
            if r.code == Some(0) || r.timed_out {
                return err("exits with status 0");
            }
            if r.err.trim().is_empty() {
                return err("says nothing on standard error");
            }
            if !r.out.is_empty() {
                return err("writes to standard output");
            }
            if before != after {
                let ch: Vec<_> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|x| x.0).chain(before.keys().filter(|k| !after.contains_key(*k))).collect();
                return err(&format!("changes files: {ch:?}"));
            }
        } else {
            some_fail = true;
            tags.push("write fault");
            if r.code == Some(0) || r.timed_out {
                return err("exits with status 0 although the output could not be written");
            }
            if r.err.trim().is_empty() {
                return err("says nothing on standard error");
            }
        }
    }
    tags.sort();
    tags.dedup();
    Ok(Pass::of(tags, some_fail || some_ok))
}
/// Makes the length of the code a multiple of `unit`, by the length of one key.
fn fill(c: &mut Case, unit: usize) {
    let base = match &c.sample {
        J::Obj(v) => v.clone(),
        x => vec![("it".to_string(), x.clone())],
    };
    let with = |k: usize| {
        let mut v = base.clone();
        v.push((format!("zz{}", "x".repeat(k)), J::Bool(true)));
        J::Obj(v)
    };
    let len = |j: &J| {
        let mut d = c.clone();
        d.sample = j.clone();
        library(&d.name, &d.sample.text(), &d.block()).ok().map(|s| s.len())
    };
    let (Some(a), Some(b)) = (len(&with(1)), len(&with(2))) else { return };
    if b <= a {
        return;
    }
    let step = b - a;
    for q in 0..8 {
        let need = (unit - a % unit) % unit + q * unit;
        if need % step == 0 && need / step < 20_000 {
            let j = with(1 + need / step);
            if len(&j).is_some_and(|l| l % unit == 0) {
                c.sample = j;
            }
            return;
        }
    }
}
fn gen_c20(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let mut c = gen_request(&mut r);
    c.hints.clear();
    c.opts.remove("unwrap");
    // code of more than a few buffers, and code that fills them exactly
    let wide = r.pct(4);
    if wide {
        let (k, w) = (r.range(700, 1000), r.range(20, 90));
        let mut o: Vec<(String, J)> = (0..k)
            .map(|i| (format!("k{i}_{}", "x".repeat(w)), if i % 3 == 0 && w < 60 { J::Obj(vec![(format!("a{i}"), J::Null)]) } else { [J::Null, J::Bool(true), J::Str(String::new())][i % 3].clone() }))
            .collect();
        if let J::Obj(v) = &c.sample {
            o.extend(v.clone());
        }
        c.sample = J::Obj(o);
        c.opts.remove("infer_map_threshold");
    }
    if wide && r.pct(50) || r.pct(3) {
        fill(&mut c, [4096, 8192, 65536, 512][r.below(4)]);
    }
    c.nums.push(r.below(PRIOR) as i64);
    if wide && r.pct(30) {
        *c.nums.last_mut().unwrap() = 3;
    }
    for _ in 0..r.range(1, 4) {
        c.nums.push(r.below(1 << 20) as i64);
    }
    c
}
pub fn c20() -> Prop {
    need_cli();
    Prop {
        id: "C20",
        level: "exploration",
        rule: "histories of 1-4 runs of the command line binary in a scratch directory with one output file (absent, empty, shorter, longer, binary, symbolic or hard link before), each run one of 30 kinds of success, input failure or write fault (/dev/full, missing directory, directory, file size limit); status, streams and every file of the directory are compared after each run; non-trivial = at least one run whose outcome was judged; distinct by hash of the case".into(),
        assumptions: vec!["after a write fault only status and diagnostic are judged".into(), "a closed standard output is not judged".into()],
        campaigns: vec![("histories", n(10_000, 200_000), Arc::new(gen_c20))],
        make: core::simple(check_c20),
        max_shrink: 300,
        threads: 8,
        batch: None,
    }
}

// ---------------------------------------------------------------- C21
/// nums: [transport, seed, failure kind (0 none), filler length, copies]
/// Names of files that look a little like other kinds of input.
const FILES: &[&str] = &[
    "sample", "sample", "sample.json", "httpd.json", "http", "https", "http_12:30.json", "https_sample.json", "http:sample", "https:sample.json", "http:/x", "HTTP", "www.example.com", "example.com.json",
    "file:sample", "ftp.json", "s p.json", "sämple 日本", "1", "12.5", "null", "true", "json_typegen", "sample.json?x=1#y", "a&b=%20", "x:y", "CREATE TABLE", "pub Foo", "~", "$HOME", "*", "stdin", "sample.sql", "a'b", "#", "sub/http/x",
];
const TRANSPORTS: &[&str] = &["pipe (library)", "file (library)", "file", "stdin in pieces", "named pipe", "http content-length", "http chunked", "http until close"];
fn big_text(c: &Case, ch: &mut Ch) -> (J, String) {
    let fill = c.nums.get(3).copied().unwrap_or(0).clamp(0, 200_000) as usize;
    let copies = c.nums.get(4).copied().unwrap_or(0).clamp(0, 400) as usize;
    let mut j = c.sample.clone();
    if fill > 0 {
        let unit: Vec<char> = "aé日😀\"\\\n\u{1}x{[,:]}".chars().collect();
        let s: String = (0..fill).map(|_| unit[ch.below(unit.len())]).collect();
        j = match ch.below(3) {
            0 => J::Arr(vec![J::Str(s), j]),
            1 => J::Obj(vec![("f".into(), J::Str(s)), ("s".into(), j)]),
            _ => J::Obj(vec![(s, j)]),
        };
    }
    if copies > 0 {
        j = J::Arr((0..=copies).map(|_| j.clone()).collect());
    }
    let mut t = core::respell(&j, ch);
    // several megabytes of the same elements
    let mb = c.nums.get(5).copied().unwrap_or(0).clamp(0, 64) as usize;
    if mb > 0 {
        let k = (mb << 20) / (t.len() + 2) + 1;
        t = format!("[{}]", vec![t; k].join(", "));
        j = J::Arr(vec![J::Null]);
    }
    let pad = [0, 0, 1, 70, 9000][ch.below(5)];
    (j, format!("{}{}", " \n\t\r".repeat(pad).chars().take(pad).collect::<String>(), t))
}
fn pieces(b: &[u8], ch: &mut Ch) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    let style = ch.below(5);
    while i < b.len() && v.len() < 400 {
        let k = match style {
            0 => 1 + ch.below(3),
            1 => 1 + ch.below(40),
            2 => [4095, 4096, 4097, 8191, 8192, 8193][ch.below(6)],
            3 => 1 + ch.below(b.len()),
            _ => [1, 2, 3, 1000, 8192, 65536][ch.below(6)],
        };
        v.push(b[i..(i + k).min(b.len())].to_vec());
        i += k;
    }
    if i < b.len() {
        v.push(b[i..].to_vec());
    }
    v
}
fn fifo(d: &Path) -> std::path::PathBuf {
    let p = d.join("pipe");
    let ok = std::process::Command::new("mkfifo").arg(&p).status().is_ok_and(|s| s.success());
    if !ok {
        harness_error("mkfifo");
    }
    p
}
fn feed_fifo(p: std::path::PathBuf, v: Vec<Vec<u8>>) -> std::thread::JoinHandle<()> {
    std::thread::spawn(move || {
        // opening blocks until the reader opens its end
        if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&p) {
            for (i, x) in v.iter().enumerate() {
                if f.write_all(x).is_err() {
                    return;
                }
                cli::pause(i);
            }
        }
    })
}
/// Serves one connection (two with a redirect): writes the raw answer in pieces, then closes.
fn serve(answers: Vec<Vec<Vec<u8>>>) -> (u16, std::thread::JoinHandle<()>) {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap_or_else(|e| harness_error(&format!("bind: {e}")));
    let port = l.local_addr().unwrap().port();
    l.set_nonblocking(true).unwrap();
    let h = std::thread::spawn(move || {
        for a in answers {
            let t0 = std::time::Instant::now();
            let mut s = loop {
                match l.accept() {
                    Ok((s, _)) => break s,
                    Err(_) if t0.elapsed().as_secs() > 20 => return,
                    Err(_) => std::thread::sleep(std::time::Duration::from_micros(200)),
                }
            };
            let _ = s.set_nonblocking(false);
            let _ = s.set_nodelay(true);
            let _ = s.set_read_timeout(Some(std::time::Duration::from_secs(20)));
            let mut req = vec![];
            let mut b = [0; 4096];
            while !req.windows(4).any(|w| w == b"\r\n\r\n") {
                match s.read(&mut b) {
                    Ok(0) | Err(_) => break,
                    Ok(k) => req.extend_from_slice(&b[..k]),
                }
            }
            for (i, x) in a.iter().enumerate() {
                if s.write_all(x).is_err() {
                    break;
                }
                cli::pause(i);
            }
        }
    });
    (port, h)
}
fn check_c21(c: &Case) -> Result<Pass, String> {
    if c.sample.has_dup_keys() {
        return Pass::skip("outside domain");
    }
    let num = |i: usize| c.nums.get(i).copied().unwrap_or(0).max(0) as usize;
    let transport = TRANSPORTS[num(0) % TRANSPORTS.len()];
    let mut ch = Ch::new(num(1) as i64);
    let (j, text) = big_text(c, &mut ch);
    if c.block().contains('\0') || c.name.contains('\0') {
        return Pass::skip("not an argument");
    }
    let block = c.block();
    let scalar = !matches!(j, J::Arr(_) | J::Obj(_));
    if scalar && (c.opts.contains_key("unwrap") || !c.hints.is_empty() || transport == "stdin in pieces") {
        return Pass::skip("scalar with unwrap or hints, or taken as a file name");
    }
    let want = if scalar {
        // inline it would be taken as a file name
        library(&c.name, &format!("{{\"x\":{text}}}"), &c.clone().opt("unwrap", "/x").block())
    } else {
        library(&c.name, &text, &block)
    };
    let b = text.as_bytes();
    let end = text.trim_end().len();
    let http = transport.starts_with("http");
    let mut tags = vec![transport];
    if b.len() > 8192 {
        tags.push("longer than 8 KiB");
    }
    if b.len() > 10_000_000 {
        tags.push("longer than 10 MB");
    }
    // what goes wrong
    let number = matches!(j, J::Num(_));
    let failure = match num(2) % 8 {
        0..=3 => "",
        // what is left of a number is a number
        4 | 5 if number && !(transport == "http content-length" || transport == "http chunked") => "",
        4 | 5 => "cut",
        _ if http => ["status", "no answer", "garbage"][ch.below(3)],
        _ if transport.contains("file") => ["missing", "directory", "empty"][ch.below(3)],
        _ => "empty",
    };
    // a position inside the root value
    let start = text.len() - text.trim_start().len();
    let at = match ch.below(4) {
        0 => start + ch.below((end - start).max(1)),
        1 => end - 1 - ch.below((end - start).min(3)),
        2 => [8191, 8192, 8193, 4096, 16384][ch.below(5)].min(end - 1),
        _ => ch.below(end),
    };
    let sent: &[u8] = match failure {
        "cut" => &b[..at],
        "empty" => b"",
        _ => b,
    };
    let cutting = matches!(failure, "cut" | "empty");
    let d = cli::dir();
    let mut args: Vec<OsString> = vec![format!("--name={}", c.name).into(), format!("--options={block}").into()];
    let mut got: Option<Result<String, String>> = None;
    let mut show = String::new();
    let mut run = |args: &[OsString], stdin: Stdin| -> Option<Result<String, String>> {
        let r = cli::run(args, stdin, &d);
        show = r.show();
        if r.timed_out {
            return Some(Ok("did not finish".into()));
        }
        Some(if r.ok() {
            Ok(String::from_utf8_lossy(&r.out).into_owned())
        } else if !r.out.is_empty() {
            Ok(format!("failed, but wrote to standard output: {}", r.show()))
        } else {
            Err(r.err)
        })
    };
    let options = || parse::options(&block).unwrap_or_else(|e| harness_error(&e));
    let path = match failure {
        "missing" => d.join("none"),
        "directory" => d.clone(),
        _ => d.join(FILES[ch.below(FILES.len())]),
    };
    // a relative path is used where the program runs in the directory
    let relative = failure != "directory" && !path.ends_with("none") && ch.below(2) == 0;
    let given: OsString = if relative { path.strip_prefix(&d).unwrap().into() } else { path.clone().into() };
    match transport {
        "file (library)" | "file" => {
            if failure != "directory" && failure != "missing" {
                std::fs::create_dir_all(path.parent().unwrap()).unwrap();
                std::fs::write(&path, sent).unwrap();
            }
            if transport == "file" {
                args.push(given);
                got = run(&args, Stdin::Null);
            } else {
                got = Some(codegen(&c.name, path.to_str().unwrap(), options()).map_err(|e| display_error_with_causes(&e)));
            }
        }
        "pipe (library)" | "named pipe" => {
            let p = fifo(&d);
            let h = feed_fifo(p.clone(), pieces(sent, &mut ch));
            if transport == "named pipe" {
                args.push(p.clone().into());
                got = run(&args, Stdin::Null);
            } else {
                got = Some(codegen(&c.name, p.to_str().unwrap(), options()).map_err(|e| display_error_with_causes(&e)));
            }
            if !h.is_finished() {
                // nobody opened the pipe: let the writer go
                let _ = std::fs::OpenOptions::new().read(true).write(true).open(&p).map(|f| std::thread::sleep(std::time::Duration::from_millis(20)).then_drop(f));
            }
            let _ = h.join();
        }
        "stdin in pieces" => {
            args.push("-".into());
            got = run(&args, Stdin::Pieces(pieces(sent, &mut ch)));
        }
        _ => {
            let ctype = ["", "Content-Type: application/json\r\n", "Content-Type: application/json; charset=utf-8\r\n", "Content-Type: text/plain\r\n"][ch.below(4)];
            let mut raw: Vec<u8> = vec![];
            let status = if failure == "status" { ["404 Not Found", "500 Internal Server Error", "403 Forbidden", "429 Too Many", "503 Unavailable", "400 Bad Request", "401 Unauthorized"][ch.below(7)] } else { "200 OK" };
            let keep = ["Connection: close\r\n", "", "Connection: keep-alive\r\n"][ch.below(3)];
            match transport {
                "http content-length" => {
                    raw.extend(format!("HTTP/1.1 {status}\r\n{ctype}{keep}Content-Length: {}\r\n\r\n", b.len()).bytes());
                    raw.extend(sent);
                }
                "http chunked" => {
                    raw.extend(format!("HTTP/1.1 {status}\r\n{ctype}{keep}Transfer-Encoding: chunked\r\n\r\n").bytes());
                    for p in pieces(sent, &mut ch) {
                        raw.extend(format!("{:x}\r\n", p.len()).bytes());
                        raw.extend(p);
                        raw.extend(b"\r\n");
                    }
                    // a cut ends the stream with or without the final chunk
                    if !cutting || ch.below(2) == 0 && !number {
                        raw.extend(b"0\r\n\r\n");
                    }
                }
                _ => {
                    raw.extend(format!("HTTP/1.{} {status}\r\n{ctype}Connection: close\r\n\r\n", ch.below(2)).bytes());
                    raw.extend(sent);
                }
            }
            match failure {
                "no answer" => raw.clear(),
                "garbage" => raw = [&b"<html>not http</html>\r\n\r\n"[..], b"HTTP/1.1 \r\n\r\n", b"\0\0\0\0"][ch.below(3)].to_vec(),
                _ => {}
            }
            let mut answers = vec![pieces(&raw, &mut ch)];
            let redirect = failure != "no answer" && failure != "garbage" && ch.below(4) == 0;
            if redirect {
                let code = ["301 Moved Permanently", "302 Found", "307 Temporary Redirect", "308 Permanent Redirect"][ch.below(4)];
                answers.insert(0, vec![format!("HTTP/1.1 {code}\r\nLocation: /moved.json\r\nContent-Length: 0\r\nConnection: close\r\n\r\n").into_bytes()]);
                tags.push("redirect");
            }
            // a client may try again after an empty answer
            if failure == "no answer" || failure == "garbage" {
                answers.push(answers[0].clone());
            }
            let retry = answers.len() > 1 && !redirect;
            let (port, h) = serve(answers);
            let sp = ["", "", " ", "\n"][ch.below(4)];
            args.push(format!("{sp}http://127.0.0.1:{port}/sample.json{sp}").into());
            got = run(&args, Stdin::Null);
            if retry {
                // the server may still wait for a second try
                let _ = std::net::TcpStream::connect(("127.0.0.1", port));
            }
            let _ = h.join();
        }
    }
    let got = got.unwrap_or_else(|| harness_error("no result"));
    let _ = std::fs::remove_dir_all(&d);
    let detail = || {
        let mut t = text.clone();
        if t.len() > 600 {
            let k = (0..=600).rev().find(|k| t.is_char_boundary(*k)).unwrap();
            t.truncate(k);
            t += "...";
        }
        format!("transport {transport}, failure {failure:?} at byte {at} of {}\ntext {t:?}\n{show}", b.len())
    };
    if failure.is_empty() {
        let same = match (&want, &got) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => b.contains(a.as_str()),
            _ => false,
        };
        if !same {
            return Err(format!("the result differs from that for the inline sample\n--- inline\n{want:?}\n--- delivered\n{got:?}\n{}", detail()));
        }
    } else {
        tags.push(match failure {
            "cut" => "cut short",
            "status" => "error status",
            _ => "nothing delivered",
        });
        match got {
            Ok(o) => return Err(format!("code is produced although the delivery failed\n{o}\n{}", detail())),
            Err(e) if e.trim().is_empty() => return Err(format!("no error message\n{}", detail())),
            Err(_) => {}
        }
    }
    Ok(Pass::of(tags, want.is_ok() && text.len() > 20))
}
trait ThenDrop {
    fn then_drop<T>(self, _: T);
}
impl ThenDrop for () {
    fn then_drop<T>(self, _: T) {}
}
fn gen_c21_with(r: &mut R, ts: &[usize]) -> Case {
    let mut c = gen_request(r);
    // the outcome must not depend on a failing option
    c.hints.retain(|_| r.pct(50));
    if r.pct(70) {
        c.opts.remove("unwrap");
    }
    let fill = *r.pick(&[0, 0, 0, 40, 4090, 8180, 8192, 9000, 20_000]);
    let fill = if fill > 0 { fill + r.below(20) } else { 0 };
    let copies = *r.pick(&[0, 0, 0, 2, 12, 100]);
    // a scalar at the root
    if r.pct(4) {
        c.opts.remove("unwrap");
        c.hints.clear();
        c.sample = match r.below(5) {
            0 => J::Null,
            1 => J::Bool(true),
            2 => J::Str("some text".into()),
            3 => J::Num(format!("{}.25", r.below(1 << 30))),
            _ => J::Num(format!("{}", r.below(1 << 30))),
        };
        c.nums = vec![*r.pick(ts) as i64, r.below(1 << 30) as i64, r.below(8) as i64, 0, 0];
        return c;
    }
    c.nums = vec![*r.pick(ts) as i64, r.below(1 << 30) as i64, r.below(8) as i64, fill as i64, if fill > 1000 { copies.min(12) } else { copies } as i64];
    c
}
fn gen_c21_lib(r: &mut TestRng) -> Case {
    gen_c21_with(&mut R(r), &[0, 1])
}
fn gen_c21_cli(r: &mut TestRng) -> Case {
    gen_c21_with(&mut R(r), &[2, 3, 4])
}
fn gen_c21_http(r: &mut TestRng) -> Case {
    gen_c21_with(&mut R(r), &[5, 6, 7])
}
/// samples of 11 MB and more
fn gen_c21_huge(r: &mut TestRng) -> Case {
    let mut r = R(r);
    let t = r.below(TRANSPORTS.len());
    let mut c = gen_c21_with(&mut r, &[t]);
    c.opts.remove("unwrap");
    c.hints.clear();
    c.nums[2] = if r.pct(75) { 0 } else { 4 };
    c.nums[3] = if r.pct(50) { 300 } else { 0 };
    c.nums[4] = 0;
    c.nums.push(*r.pick(&[11, 11, 11, 17, 35]));
    c
}
pub fn c21() -> Prop {
    need_cli();
    Prop {
        id: "C21",
        level: "exploration",
        rule: "samples up to about 1 MB, and some of 11 to 35 MB (long strings and keys, many elements, leading whitespace) delivered in generated pieces through regular files, named pipes, standard input and a loopback HTTP server (content-length, chunked, until close, redirects), with faults: cut at a generated byte, error status, no or garbled answer, missing or unreadable file; compared with the inline result; non-trivial = a sample text longer than 20 bytes that has a result; distinct by hash of the case".into(),
        assumptions: vec!["every proper prefix of the sample is incomplete: a number at the root is cut short only where the transport tells the length".into(), "a fault after the root value is complete is not judged".into(), "HTTPS is not exercised".into()],
        campaigns: vec![
            ("library", n(8_000, 150_000), Arc::new(gen_c21_lib)),
            ("command line", n(6_000, 120_000), Arc::new(gen_c21_cli)),
            ("http", n(6_000, 120_000), Arc::new(gen_c21_http)),
            ("huge", n(32, 600), Arc::new(gen_c21_huge)),
        ],
        make: core::simple(check_c21),
        max_shrink: 300,
        threads: 8,
        batch: None,
    }
}
#[allow(unused)]
fn unused() {
    let _ = (model::NONTRIVIAL_RULE, json::parse("1"));
}
