//! Generators: a random type schema first, then instances of it, so that repeated, optional, nullable,
//! conflicting and colliding places are common by construction.
use crate::json::J;
use proptest::prelude::Rng;
use proptest::test_runner::TestRng;

pub struct R<'a>(pub &'a mut TestRng);
impl R<'_> {
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.0.next_u64() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn pct(&mut self, p: u32) -> bool {
        self.below(100) < p as usize
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub const PLAIN: &[&str] =
    &["a", "b", "c", "d", "id", "name", "value", "items", "data", "type_id", "user", "users", "tags", "count", "list", "map"];
pub const KEYWORDS: &[&str] = &[
    "abstract", "alignof", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn",
    "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl", "in", "let", "loop", "macro", "match",
    "mod", "move", "mut", "offsetof", "override", "priv", "proc", "pub", "pure", "ref", "return", "Self", "self",
    "sizeof", "static", "struct", "super", "trait", "true", "try", "type", "typeof", "unsafe", "unsized", "use",
    "virtual", "where", "while", "yield", "union", "auto", "macro_rules", "raw", "safe",
    // Kotlin
    "class", "fun", "interface", "is", "null", "object", "package", "this", "throw", "typealias", "val", "var", "when",
    "by", "catch", "constructor", "delegate", "dynamic", "field", "file", "finally", "get", "import", "init", "param",
    "property", "receiver", "set", "setparam", "value", "actual", "annotation", "companion", "data", "inner", "open",
    "out", "sealed", "suspend", "vararg", "it",
    // Python
    "False", "None", "True", "and", "assert", "def", "del", "elif", "except", "from", "global", "lambda", "nonlocal",
    "not", "or", "pass", "raise", "with", "print", "exec", "_", "__", "case",
    // TypeScript / JavaScript
    "debugger", "default", "delete", "export", "extends", "function", "implements", "instanceof", "new", "private",
    "protected", "public", "switch", "void", "any", "boolean", "number", "string", "symbol", "never", "unknown",
    "declare", "namespace", "module", "require", "readonly", "constructor", "arguments", "eval", "undefined", "NaN",
];
pub const TYPES: &[&str] = &[
    "String", "string", "strings", "Vec", "vec", "Option", "option", "options", "Value", "value", "values", "HashMap",
    "hash_map", "hashMaps", "Box", "Default", "default", "Debug", "debug", "Clone", "clone", "Serialize", "Deserialize",
    "PartialEq", "partial_eq", "Some", "None", "Ok", "Err", "Result", "result", "results", "i64", "f64", "bool", "str",
    "u8", "serde", "serde_json", "std", "core", "Any", "any", "List", "list", "lists", "Map", "map", "maps", "Pair",
    "pair", "Triple", "triple", "Boolean", "boolean", "Long", "long", "Double", "double", "Int", "JsonProperty",
    "json_property", "JsonNaming", "SerialName", "serial_name", "Serializable", "serializable",
    "PropertyNamingStrategy", "Optional", "optional", "BaseModel", "base_model", "base_models", "Field", "field",
    "fields", "Dict", "dict", "int", "float", "tuple", "Tuple", "typing", "pydantic", "Unit", "Nothing", "Array",
    "array", "arrays", "Date", "date", "Object", "object", "objects", "Number", "number", "Record", "record", "Root",
    "root", "roots", "Root2", "GeneratedType", "generated_type", "Record2", "z", "schema", "additional_fields",
    "model", "model_config", "copy", "json", "construct", "Phantom", "Send", "Sized", "Iterator", "From", "Into",
    "Drop", "Fn", "ToString", "ToOwned",
];
/// Words of the generated code itself (types, annotations, attributes, imports of every language), as keys.
pub fn learned() -> &'static [String] {
    static L: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let text = r#"{"a b":1,"c":[{"d":null,"e":0.5,"c":[]},{"d":true,"e":1}],"f":[1,"x",null,[]],"g":{},"h":["x"],"i":[{"j":1},2,"x"],"k":{"1":{"z":[1]}}}"#;
        let mut words = std::collections::BTreeSet::new();
        for mode in crate::sut::MODES {
            for style in crate::sut::STYLES {
                for (i, format) in crate::sut::FORMATS.iter().enumerate() {
                    let Ok(j) = crate::json::parse(text) else { continue };
                    let mut c = crate::case::Case::new("Root", j).opt("output_mode", mode).opt("import_style", style).opt("property_name_format", format);
                    if i % 2 == 0 {
                        c = c.opt("collect_additional", "true").opt("infer_map_threshold", "6");
                    } else {
                        c = c.opt("deny_unknown_fields", "true").opt("use_default_for_missing_fields", "true");
                    }
                    let Ok(code) = crate::sut::caught(&c) else { continue };
                    for w in code.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
                        if w.len() > 1 && w.len() < 40 && !w.starts_with(|c: char| c.is_ascii_digit()) && !w.contains("__") {
                            words.insert(w.to_string());
                        }
                    }
                }
            }
        }
        if words.is_empty() {
            words.insert("Root".into());
        }
        words.into_iter().collect()
    })
}
pub const WEIRD: &[&str] = &[
    "", " ", "  ", "\"", "\\", "'", "`", "$", "${a}", "$a", "#", "\"#", "/", "~", "~0", "~1", "a/b", "m~n", "-", "--",
    "+", "+1", "-1", ".", "..", "a.b", ",", ":", ";", "{", "}", "[", "]", "(", ")", "<", ">", "?", "!", "@", "@id",
    "%", "^", "&", "*", "|", "=", "a b", " a", "a ", "a-b", "a--b", "a\"b", "a\\b", "\\n", "\\u0041", "\\\"", "a\\",
    "a'b", "a`b", "a$b", "a\nb", "\n", "\r\n", "\t", "a\tb", "\u{1}", "\u{7f}", "\u{2028}", "*/", "/*", "//", "-->",
    "\"\"\"", "{{", "}}", "%s", "\\x", "\\$", "a\"; fn x(){}", "\0", "\u{b}", "\u{1b}", "\u{85}", "\u{ad}",
];
/// Texts that, standing alone, would be an input of another kind.
pub const OTHER_KINDS: &[&str] = &[
    "json_typegen!(\"A\", \"{}\");", "json_typegen!(", "CREATE TABLE t (a INT);", "https://localhost/a.json", "http://", "-", "--help",
    "pub Foo", "pub(crate) Foo", "{\"a\": 1}", "[{\"b\": null}]", "/dev/null", "{ unwrap: \"/a\" }", "Error: x", "struct Foo { a: i64 }", "//! x", "#!x",
];
pub const UNICODE: &[&str] = &[
    "å", "æøå", "Ærlig", "fooÅbar", "naïve", "ключ", "日本語", "😀", "a😀b", "ß", "ſ", "İ", "ı", "K", "é", "e\u{301}",
    "\u{200b}", "\u{200d}", "\u{feff}", "\u{ffff}", "\u{10ffff}", "\u{a0}", "aé", "éa", "ñandú_key", "naïveté", "Ωmega",
    "٣", "²", "Ⅷ", "ª", "µ",
];
pub const CASES: &[&str] = &[
    "fooBar", "foo_bar", "FooBar", "FOO_BAR", "foo-bar", "foo bar", "foo.bar", "Foo_Bar", "FOOBAR", "foobar", "fooBAR",
    "foo__bar", "_foo_bar", "foo_bar_", "foo_bar2", "foo_bar_2", "fooBar2", "Foo-Bar", "FOO-BAR", "foo_2bar",
    "foo2bar", "foo2Bar", "a1", "a_1", "A1", "A_1", "aB", "a_b", "AB", "Ab", "ab", "a_b_c", "aBC", "abC", "ABC",
    "HTTPServer", "httpServer", "xmlHTTPRequest", "iPhone", "userID", "userId", "user_id", "USER_ID", "x1y2", "X1Y2",
];
pub const DIGITS: &[&str] = &["0", "1", "00", "12", "2x", "1920x1080", "1st", "1_a", "1A", "9lives", "2.5", "1e5", "0x1f", "007", "3D"];
pub const PLURALS: &[&str] = &[
    "cards", "card", "entries", "entry", "series", "movies", "movie", "class", "classes", "status", "news", "boxes",
    "box", "axes", "axis", "addresses", "address", "types", "values", "rules", "rule", "s", "ss", "es", "ies", "S",
    "IES", "Users", "USERS", "user", "roots", "ås", "és",
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Keys {
    /// plain keys only
    Plain,
    /// everything; `shape` avoids the few keys the shape output mode itself cannot show unambiguously
    All,
    Shape,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub keys: Keys,
    pub depth: usize,
    pub width: usize,
    /// percentage of odd features: conflicts, nulls, missing
    pub odd: u32,
    /// percentage of all-literal number spellings (exponents, extremes)
    pub nums: bool,
    pub long_arrays: bool,
    pub root_container: bool,
    /// percentage of samples with one dimension made large
    pub big: u32,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { keys: Keys::All, depth: 4, width: 5, odd: 25, nums: true, long_arrays: true, root_container: true, big: 5 }
    }
}

#[derive(Clone, Debug)]
enum S {
    Null,
    Bool,
    Int,
    Float,
    Num,
    Str,
    /// element schema, length class
    Arr(Box<S>, u8),
    Tup(Vec<S>),
    Obj(Vec<(String, S, bool)>),
    Dict(Vec<String>, Box<S>),
    Alt(Vec<S>),
    Nul(Box<S>),
    EmptyArr,
    Ref(usize),
    /// linked lists and trees: fields, link, how many links at once (0: the link is the object itself), how it ends
    Rec(Vec<(String, S, bool)>, String, usize, u8),
}

struct G<'r, 'a> {
    r: &'r mut R<'a>,
    cfg: &'r Cfg,
    shared: Vec<S>,
    palette: Vec<String>,
}

pub fn random_string(r: &mut R, cfg: &Cfg) -> String {
    let n = r.range(0, 6);
    let mut s = String::new();
    for _ in 0..n {
        let c = match r.below(12) {
            0..=4 => (b'a' + r.below(26) as u8) as char,
            5 => (b'A' + r.below(26) as u8) as char,
            6 => (b'0' + r.below(10) as u8) as char,
            7 => '_',
            8 => *r.pick(&['-', ' ', '.', '$', '"', '\\', '/', '\'']),
            9 => char::from_u32(r.below(0x7f) as u32).unwrap(),
            10 => char::from_u32(0x80 + r.below(0x500) as u32).unwrap_or('x'),
            _ => *r.pick(&['é', '漢', '😀', 'ß', '\u{301}']),
        };
        s.push(c);
    }
    let _ = cfg;
    s
}

/// one of the words, often in another case or number
fn recased(r: &mut R, words: &[String]) -> String {
    let w = r.pick(words).clone();
    match r.below(8) {
        0 => w.to_ascii_lowercase(),
        1 => w[..1].to_ascii_lowercase() + &w[1..],
        2 => w[..1].to_ascii_uppercase() + &w[1..],
        3 => {
            let mut o = String::new();
            for (i, c) in w.chars().enumerate() {
                if i > 0 && c.is_ascii_uppercase() {
                    o.push('_');
                }
                o.push(c.to_ascii_lowercase());
            }
            o
        }
        4 => w + "s",
        _ => w,
    }
}
/// Words joined by any separators, in any case: what case conversions take apart and put together.
pub fn words(r: &mut R) -> String {
    const W: &[&str] = &["a", "b", "x", "foo", "Bar", "BAZ", "id", "ID", "x1", "1", "2x", "aB", "Url", "é", "q"];
    let mut s = String::new();
    if r.pct(10) {
        s.push_str(r.pick(&["_", "-", " ", "__", "$"]));
    }
    for i in 0..r.range(2, 5) {
        if i > 0 {
            s.push_str(r.pick(&["", "_", "_", "-", "-", " ", ".", "__"]));
        }
        s.push_str(r.pick(W));
    }
    if r.pct(10) {
        s.push_str(r.pick(&["_", "-", " ", "__", "s"]));
    }
    s
}
/// A key in a property name format, or one step from it: another separator at one place, one letter of the other case.
pub fn formatted(r: &mut R, format: &str) -> String {
    const W: &[&str] = &["a", "b", "c", "foo", "bar", "id", "x1", "url", "baz", "2", "é", "q"];
    let ws: Vec<&str> = (0..r.range(1, 6)).map(|_| *r.pick(W)).collect();
    let first = |w: &str| {
        let mut c = w.chars();
        c.next().map(|x| x.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
    };
    let up = format == "UPPERCASE" || format.starts_with("SCREAMING");
    let words = ws.iter().enumerate().map(|(i, w)| {
        if up {
            w.to_uppercase()
        } else if format == "PascalCase" || format == "camelCase" && i > 0 {
            first(w)
        } else {
            w.to_string()
        }
    });
    let sep = match format {
        "snake_case" | "SCREAMING_SNAKE_CASE" => "_",
        "kebab-case" | "SCREAMING-KEBAB-CASE" => "-",
        "lowercase" | "UPPERCASE" => *r.pick(&["_", ""]),
        _ => "",
    };
    let mut k: Vec<char> = words.collect::<Vec<_>>().join(sep).chars().collect();
    if r.pct(50) {
        let seps: Vec<usize> = (0..k.len()).filter(|i| "_-".contains(k[*i])).collect();
        if !seps.is_empty() && r.pct(60) {
            let i = *r.pick(&seps);
            match r.below(5) {
                0 => k.insert(i, k[i]),
                1 => {
                    k.remove(i);
                }
                2 => k[i] = *r.pick(&[' ', '.']),
                _ => k[i] = if k[i] == '_' { '-' } else { '_' },
            }
        } else {
            let i = r.below(k.len());
            let c = k[i];
            k[i] = if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() };
        }
    }
    k.into_iter().collect()
}
pub fn key(r: &mut R, cfg: &Cfg) -> String {
    loop {
        let k: String = if cfg.keys == Keys::Plain {
            r.pick(PLAIN).to_string()
        } else {
            match r.below(20) {
                0..=4 => r.pick(PLAIN).to_string(),
                5..=6 => r.pick(KEYWORDS).to_string(),
                7..=8 => r.pick(TYPES).to_string(),
                9 => recased(r, &learned()[..]),
                10 if r.pct(6) => r.pick(OTHER_KINDS).to_string(),
                10..=11 => r.pick(WEIRD).to_string(),
                12 => r.pick(UNICODE).to_string(),
                13 => r.pick(CASES).to_string(),
                14 => words(r),
                15 => r.pick(DIGITS).to_string(),
                16 => r.pick(PLURALS).to_string(),
                17 => {
                    let a = key(r, cfg);
                    let b = key(r, cfg);
                    let s = *r.pick(&["", "_", "-", " ", "."]);
                    if a.len() + b.len() > 40 {
                        a
                    } else {
                        format!("{a}{s}{b}")
                    }
                }
                _ => random_string(r, cfg),
            }
        };
        if k == "__proto__" {
            continue;
        }
        if cfg.keys == Keys::Shape && (k.ends_with('?') || k.contains("__type__")) {
            continue;
        }
        return k;
    }
}

impl G<'_, '_> {
    fn key(&mut self) -> String {
        // most keys from the case's palette so that objects share and nearly share keys
        if self.r.pct(75) {
            self.r.pick(&self.palette).clone()
        } else {
            key(self.r, self.cfg)
        }
    }
    fn scalar(&mut self) -> S {
        match self.r.below(10) {
            0..=2 => S::Int,
            3 => S::Float,
            4 => S::Num,
            5..=7 => S::Str,
            8 => S::Bool,
            _ => S::Null,
        }
    }
    fn obj(&mut self, d: usize) -> S {
        let n = if self.r.pct(4) { 0 } else { self.r.range(1, self.cfg.width) };
        let mut f: Vec<(String, S, bool)> = vec![];
        for _ in 0..n {
            let k = self.key();
            if f.iter().any(|x| x.0 == k) {
                continue;
            }
            let mut s = self.schema(d.saturating_sub(1));
            if self.r.pct(self.cfg.odd / 4) {
                s = match self.r.below(3) {
                    0 => S::Alt(vec![s, self.scalar()]),
                    1 => S::Alt(vec![s, self.schema(d.saturating_sub(1))]),
                    // lists of differing lengths with irreconcilable elements
                    _ => S::Arr(Box::new(S::Alt(vec![s, self.scalar()])), 0),
                };
            }
            let opt = self.r.pct(self.cfg.odd);
            f.push((k, s, opt));
        }
        S::Obj(f)
    }
    fn schema(&mut self, d: usize) -> S {
        let odd = self.cfg.odd;
        if d == 0 {
            let s = self.scalar();
            return if self.r.pct(odd / 2) { S::Nul(Box::new(s)) } else { s };
        }
        match self.r.below(100) {
            0..=24 => self.scalar(),
            25..=49 => self.obj(d),
            50..=69 => {
                let e = self.schema(d - 1);
                let k = self.r.below(256) as u8;
                S::Arr(Box::new(e), k)
            }
            70..=73 => {
                let n = if self.cfg.long_arrays && self.r.pct(15) { self.r.range(10, 13) } else { self.r.range(2, 4) };
                S::Tup((0..n).map(|_| self.schema(d.saturating_sub(2))).collect())
            }
            74..=77 => {
                let n = self.r.range(0, self.cfg.width + 2);
                let mut ks: Vec<String> = (0..n).map(|_| self.key()).collect();
                ks.sort();
                ks.dedup();
                let e = self.schema(d - 1);
                S::Dict(ks, Box::new(e))
            }
            78..=80 => S::EmptyArr,
            81 => {
                let S::Obj(mut f) = self.obj(1) else { unreachable!() };
                let k = self.key();
                f.retain(|x| x.0 != k);
                let n = *self.r.pick(&[0, 0, 1, 2]);
                S::Rec(f, k, n, self.r.below(4) as u8)
            }
            82..=88 => {
                if self.shared.is_empty() || self.r.pct(40) {
                    let s = self.obj(d.min(2));
                    self.shared.push(s);
                }
                S::Ref(self.r.below(self.shared.len()))
            }
            89..=93 => S::Nul(Box::new(self.schema(d - 1))),
            _ => {
                if self.r.pct(odd * 2) {
                    let n = self.r.range(2, 3);
                    S::Alt((0..n).map(|_| self.schema(d - 1)).collect())
                } else {
                    self.obj(d)
                }
            }
        }
    }
    fn inst(&mut self, s: &S, fuel: usize) -> J {
        match s {
            S::Null => J::Null,
            S::Bool => J::Bool(self.r.pct(50)),
            S::Int => J::Num(self.int()),
            S::Float => J::Num(self.float()),
            S::Num => {
                if self.r.pct(50) {
                    J::Num(self.int())
                } else {
                    J::Num(self.float())
                }
            }
            S::Str => J::Str(match self.r.below(10) {
                0..=5 => self.r.pick(&["", "x", "hello", "2020-01-01", "2020-01-01T10:00:00Z", "null", "true", "1", "-1.5", "http://a/b", "{}", "[1]"]).to_string(),
                6 if self.r.pct(30) => self.r.pick(OTHER_KINDS).to_string(),
                6..=7 => self.r.pick(WEIRD).to_string(),
                8 => self.r.pick(UNICODE).to_string(),
                _ => random_string(self.r, self.cfg),
            }),
            S::EmptyArr => J::Arr(vec![]),
            S::Arr(e, k) => {
                let n = match self.r.below(20) {
                    0..=1 => 0,
                    2..=5 => 1,
                    6..=11 => 2,
                    12..=15 => 3,
                    16..=17 => self.r.range(2, 5),
                    18 if self.cfg.long_arrays => self.r.range(11, 14),
                    _ => (*k as usize) % 4,
                };
                let n = if fuel < 3 { n.min(3) } else { n };
                let mut v: Vec<J> = (0..n).map(|_| self.inst(e, fuel.saturating_sub(1))).collect();
                if n > 0 && self.r.pct(self.cfg.odd / 3) {
                    let i = self.r.below(n);
                    v[i] = J::Null;
                }
                J::Arr(v)
            }
            S::Tup(t) => J::Arr(t.iter().map(|x| self.inst(x, fuel.saturating_sub(1))).collect()),
            S::Obj(f) => {
                let mut v = vec![];
                for (k, x, opt) in f {
                    if *opt && self.r.pct(40) {
                        continue;
                    }
                    v.push((k.clone(), self.inst(x, fuel.saturating_sub(1))));
                }
                if self.r.pct(15) {
                    self.r.shuffle(&mut v);
                }
                J::Obj(v)
            }
            S::Dict(ks, e) => {
                let mut v = vec![];
                for k in ks {
                    if self.r.pct(70) {
                        v.push((k.clone(), self.inst(e, fuel.saturating_sub(1))));
                    }
                }
                J::Obj(v)
            }
            S::Rec(f, k, n, end) => {
                let d = self.r.below(4);
                self.rec(f, k, *n, *end, d)
            }
            S::Alt(a) => {
                let i = self.r.below(a.len());
                self.inst(&a[i], fuel)
            }
            S::Nul(x) => {
                if self.r.pct(40) {
                    J::Null
                } else {
                    self.inst(x, fuel)
                }
            }
            S::Ref(i) => {
                let x = self.shared[*i].clone();
                self.inst(&x, fuel.saturating_sub(1))
            }
        }
    }
    fn rec(&mut self, f: &[(String, S, bool)], k: &str, n: usize, end: u8, d: usize) -> J {
        let J::Obj(mut m) = self.inst(&S::Obj(f.to_vec()), 2) else { unreachable!() };
        let link = match (d, n) {
            (0, 0) => match end {
                0 | 1 => Some(J::Null),
                2 => None,
                _ => Some(J::Obj(vec![])),
            },
            (0, _) => match end {
                0..=2 => Some(J::Arr(vec![])),
                _ => None,
            },
            (_, 0) => Some(self.rec(f, k, n, end, d - 1)),
            _ => Some(J::Arr((0..self.r.range(1, n)).map(|_| self.rec(f, k, n, end, d - 1)).collect())),
        };
        if let Some(l) = link {
            let at = self.r.below(m.len() + 1);
            m.insert(at, (k.to_string(), l));
        }
        J::Obj(m)
    }
    fn int(&mut self) -> String {
        if self.cfg.nums {
            self.r
                .pick(&["0", "1", "-1", "7", "42", "100", "2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808", "12", "3", "255", "256", "-129", "65536", "4294967296", "9007199254740993"])
                .to_string()
        } else {
            self.r.pick(&["0", "1", "-1", "7", "42"]).to_string()
        }
    }
    fn float(&mut self) -> String {
        if self.cfg.nums {
            self.r
                .pick(&["0.5", "-1.25", "2.0", "1e5", "1E3", "1.5e+10", "25e-1", "-0.0", "0.0", "1e2", "123456.789", "3.0E0", "-2e0", "0.1", "123.0", "1E-7", "-0.5e-3", "0e0", "1e0", "0.12345678901234567890"])
                .to_string()
        } else {
            self.r.pick(&["0.5", "-1.25", "2.5"]).to_string()
        }
    }
}

/// A container inside `j`, chosen at random, of the kind asked for.
fn some_container<'j>(r: &mut R, j: &'j mut J, want_obj: bool) -> Option<&'j mut J> {
    fn count(j: &J, o: bool) -> usize {
        match j {
            J::Arr(a) => a.iter().map(|x| count(x, o)).sum::<usize>() + (!o && !a.is_empty()) as usize,
            J::Obj(f) => f.iter().map(|x| count(&x.1, o)).sum::<usize>() + o as usize,
            _ => 0,
        }
    }
    fn get<'j>(j: &'j mut J, o: bool, k: &mut usize) -> Option<&'j mut J> {
        let here = match j {
            J::Arr(a) => !o && !a.is_empty(),
            J::Obj(_) => o,
            _ => false,
        };
        if here {
            if *k == 0 {
                return Some(j);
            }
            *k -= 1;
        }
        match j {
            J::Arr(a) => a.iter_mut().find_map(|x| get(x, o, k)),
            J::Obj(f) => f.iter_mut().find_map(|x| get(&mut x.1, o, k)),
            _ => None,
        }
    }
    let n = count(j, want_obj);
    if n == 0 {
        return None;
    }
    let mut k = r.below(n);
    get(j, want_obj, &mut k)
}
fn scalar(r: &mut R) -> J {
    match r.below(5) {
        0 => J::Null,
        1 => J::Bool(true),
        2 => J::Num("1".into()),
        3 => J::Num("0.5".into()),
        _ => J::Str("x".into()),
    }
}
/// One dimension of the sample made large: keys of an object, elements of an array, depth, a key or a string,
/// types that want the same name.
fn enlarge(r: &mut R, cfg: &Cfg, j: &mut J) {
    enlarge_to(r, cfg, j, [&[8, 12, 15, 16, 17, 20, 31, 33, 40, 70], &[13, 15, 16, 17, 30, 33, 64, 65, 100, 129, 257], &[6, 9, 12, 17, 24, 33, 40], &[30, 63, 64, 65, 127, 129, 255, 256, 300]], 1500);
    // twice in places of their own, with one difference near the end
    if r.pct(8) && j.weight() < 600 {
        let mut k = j.clone();
        differ_late(r, &mut k);
        let v = if r.pct(50) { [j.clone(), k] } else { [k, j.clone()] };
        *j = J::Obj(["t0", "t1"].into_iter().map(String::from).zip(v).collect());
    }
}
/// Keys, elements, levels or characters by the hundreds and thousands.
pub fn huge(r: &mut R, cfg: &Cfg) -> J {
    huge_to(r, cfg, &[64, 65, 100, 127, 128, 129, 150, 200], 12_000)
}
/// Large, but within what compilers and interpreters accept.
pub fn large(r: &mut R, cfg: &Cfg, depth: usize) -> J {
    huge_to(r, cfg, &[depth], 3_000)
}
fn huge_to(r: &mut R, cfg: &Cfg, depths: &[usize], cap: usize) -> J {
    let mut j = loop {
        let j = small_sample(r, &Cfg { depth: 2, width: 3, ..cfg.clone() });
        if j.size() <= 40 {
            break j;
        }
    };
    enlarge_to(
        r,
        cfg,
        &mut j,
        [&[100, 128, 129, 200, 255, 256, 257, 300, 500, 513, 1001, 1025, 2049, 4097], &[255, 256, 300, 500, 512, 513, 999, 1000, 1001, 1025, 2000, 2049, 4097, 5001], depths, &[1000, 1023, 1025, 4095, 4097, 8193, 20_000, 66_000]],
        cap,
    );
    if r.pct(25) {
        // once more, or a few times, with one difference near the end of the largest part
        let mut v = vec![j.clone(); *r.pick(&[1, 1, 2, 3])];
        let mut k = j;
        differ_late(r, &mut k);
        let at = r.below(v.len() + 1);
        v.insert(at, k);
        j = if r.pct(70) { J::Arr(v) } else { J::Obj(v.into_iter().enumerate().map(|(i, x)| (format!("t{i}"), x)).collect()) };
    }
    j
}
fn differ_late(r: &mut R, j: &mut J) {
    let x = scalar(r);
    let pick = |v: Vec<usize>| v.iter().enumerate().max_by_key(|x| *x.1).map(|x| (x.0, *x.1));
    match j {
        J::Arr(a) => match pick(a.iter().map(|x| x.weight()).collect()) {
            Some((i, w)) if w > 3 && w * 4 > a.len() => differ_late(r, &mut a[i]),
            Some(_) => {
                let i = a.len() - 1 - r.below(a.len().min(8));
                a[i] = x
            }
            None => *j = x,
        },
        J::Obj(m) => match pick(m.iter().map(|x| x.1.weight()).collect()) {
            Some((i, w)) if w > 3 && w * 4 > m.len() => differ_late(r, &mut m[i].1),
            Some(_) => {
                let i = m.len() - 1 - r.below(m.len().min(8));
                if r.pct(70) {
                    m[i].1 = x
                } else {
                    m.remove(i);
                }
            }
            None => *j = x,
        },
        _ => *j = x,
    }
}
fn enlarge_to(r: &mut R, cfg: &Cfg, j: &mut J, sizes: [&[usize]; 4], cap: usize) {
    match r.below(9) {
        8 => {
            // rows: tuples of the same length
            let n = if r.pct(30) { r.range(2, 12) } else { *r.pick(&sizes[1][..if cap > 2000 { sizes[1].len() } else { 6 }]) };
            let w = if r.pct(60) { r.range(2, 5) } else { r.range(2, 13) };
            let cols: Vec<J> = (0..w).map(|_| scalar(r)).collect();
            let at = odd_place(r, n);
            let odd = r.pct(60).then(|| (at, r.below(w), if r.pct(50) { J::Null } else { scalar(r) }));
            let mut rows: Vec<J> = (0..n.min(cap / (w + 1))).map(|_| J::Arr(cols.clone())).collect();
            // or rows of two kinds, mixed
            let mixed = r.pct(30).then(|| (r.below(w), if r.pct(50) { J::Null } else { scalar(r) }));
            if let Some((k, x)) = mixed {
                for row in &mut rows {
                    if let (true, J::Arr(c)) = (r.pct(30), row) {
                        c[k] = x.clone();
                    }
                }
            } else if let Some((i, k, x)) = odd {
                if let Some(J::Arr(c)) = rows.get_mut(i) {
                    c[k] = x;
                    if r.pct(20) {
                        c.pop();
                    }
                }
            }
            // or something else among the rows
            if r.pct(25) {
                for _ in 0..r.range(1, 2) {
                    let at = r.below(rows.len() + 1);
                    let x = match r.below(4) {
                        0 | 1 => J::Null,
                        2 => J::Arr(vec![]),
                        _ => scalar(r),
                    };
                    rows.insert(at, x);
                }
            }
            if let Some(J::Obj(f)) = some_container(r, j, true) {
                if !f.iter().any(|x| x.0 == "rows") {
                    f.push(("rows".into(), J::Arr(rows)));
                }
            }
        }
        6 => {
            // many keys that are equal after a case conversion
            let n = if cap > 2000 { *r.pick(&[24, 40, 66, 130]) } else { r.range(8, 24) };
            let sep = *r.pick(&["-", " ", ".", "_", "$"]);
            let base = *r.pick(&["a", "id", "fooBar", "class", "x1"]);
            let same = r.pct(50).then(|| scalar(r));
            let vs: Vec<J> = (0..n).map(|_| same.clone().unwrap_or_else(|| scalar(r))).collect();
            if let Some(J::Obj(f)) = some_container(r, j, true) {
                for (i, v) in vs.into_iter().enumerate() {
                    let k = if i % 2 == 0 { format!("{base}{}", sep.repeat(i / 2)) } else { format!("{}{base}", sep.repeat(i / 2 + 1)) };
                    if !f.iter().any(|x| x.0 == k) {
                        f.push((k, v));
                    }
                }
            }
        }
        7 => {
            // many types that want the same name
            let n = if cap > 2000 { *r.pick(&[16, 30, 60, 70, 100, 130, 260]) } else { r.range(4, 16) };
            let name = *r.pick(&["item", "items", "type", "A", "string", "entries", "Item2"]);
            let list = r.pct(30);
            let vs: Vec<(String, J)> = (0..n)
                .map(|i| {
                    let x = J::Obj(vec![(format!("f{i}"), scalar(r))]);
                    (format!("k{i}"), J::Obj(vec![(name.to_string(), if list { J::Arr(vec![x]) } else { x })]))
                })
                .collect();
            if let Some(J::Obj(f)) = some_container(r, j, true) {
                for (k, v) in vs {
                    if !f.iter().any(|x| x.0 == k) {
                        f.push((k, v));
                    }
                }
            }
        }
        0 | 1 => {
            let n = *r.pick(sizes[0]);
            let style = r.below(3);
            let ks: Vec<String> = (0..n)
                .map(|i| match style {
                    0 => format!("k{i}"),
                    1 => format!("{}{i}", r.pick(CASES)),
                    _ => format!("{i}"),
                })
                .collect();
            let same = r.pct(40).then(|| scalar(r));
            let vs: Vec<J> = (0..n).map(|_| same.clone().unwrap_or_else(|| scalar(r))).collect();
            if let Some(J::Obj(f)) = some_container(r, j, true) {
                for (k, v) in ks.into_iter().zip(vs) {
                    if !f.iter().any(|x| x.0 == k) {
                        f.push((k, v));
                    }
                }
            }
        }
        2 | 3 => {
            let n = *r.pick(sizes[1]);
            let at = odd_place(r, n);
            let (x, y) = (scalar(r), r.pct(60));
            let drop = r.pct(50);
            if let Some(J::Arr(a)) = some_container(r, j, false) {
                let size: usize = a.iter().map(|x| x.size()).sum();
                let n = n.min(cap / size.max(1)).max(a.len());
                let m = a.len();
                for i in m..n {
                    let e = a[i % m].clone();
                    a.push(e);
                }
                let at = at.min(a.len().saturating_sub(1));
                if y && at < a.len() {
                    match &mut a[at] {
                        J::Obj(f) if drop && !f.is_empty() => {
                            f.pop();
                        }
                        e => *e = x,
                    }
                }
            }
        }
        4 => {
            let n = *r.pick(sizes[2]);
            let k = key(r, cfg);
            let arr = r.below(3);
            let mut x = std::mem::replace(j, J::Null);
            for i in 0..n {
                x = if arr == 1 || arr == 2 && i % 2 == 0 { J::Arr(vec![x]) } else { J::Obj(vec![(if i % 3 == 0 { k.clone() } else { format!("d{i}") }, x)]) };
            }
            *j = x;
        }
        _ => {
            let n = *r.pick(sizes[3]);
            let u: Vec<char> = r.pick(&["a", "ab_", "aB", "é", "日本", "a b", "_", "1", "A", "x-"]).chars().collect();
            let s: String = u.iter().cycle().take(n).collect();
            let in_key = r.pct(60);
            let v = scalar(r);
            // or a number with many digits
            let number = r.pct(20).then(|| {
                let d: String = "1234567890".chars().cycle().take(n).collect();
                J::Num(match r.below(3) {
                    0 => format!("0.{d}"),
                    1 => format!("-{}.{d}", r.below(1000)),
                    _ => format!("0.{}1e-1", "0".repeat(n)),
                })
            });
            if let Some(J::Obj(f)) = some_container(r, j, true) {
                let (k, v) = if in_key { (s, v) } else { ("long".into(), number.unwrap_or(J::Str(s))) };
                if !f.iter().any(|x| x.0 == k) {
                    f.push((k, v));
                }
            }
        }
    }
}
/// The index of the one element that differs from the others: near an end, at a round number, or anywhere.
fn odd_place(r: &mut R, n: usize) -> usize {
    match r.below(5) {
        0 => *r.pick(&[0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 15, 16, 20, 31, 32, 63, 64, 65, 99, 100, 127, 128, 255, 256]) % n,
        1 | 2 => n - 1 - r.below(n.min(20)),
        3 => r.below(n.min(14)),
        _ => r.below(n),
    }
}
/// A whole number with more digits than machine integers have somewhere in the sample.
pub fn long_int(r: &mut R, j: &mut J) {
    let n = *r.pick(&[19, 20, 21, 38, 39, 40, 64, 100, 309, 310, 400, 800, 1025, 5000]);
    let d: String = r.pick(&["1234567890", "9", "10", "1000000000"]).chars().cycle().take(n).collect();
    let x = J::Num(format!("{}{d}{}", r.pick(&["", "-"]), r.pick(&["", "", "e5", ".5"])));
    match some_container(r, j, true) {
        Some(J::Obj(f)) if !f.is_empty() => {
            let i = r.below(f.len());
            f[i].1 = x;
        }
        _ => *j = J::Arr(vec![std::mem::replace(j, J::Null), x]),
    }
}
/// The same value with the keys of all objects in another order.
pub fn reorder(r: &mut R, j: &mut J) {
    match j {
        J::Arr(a) => a.iter_mut().for_each(|x| reorder(r, x)),
        J::Obj(f) => {
            r.shuffle(f);
            f.iter_mut().for_each(|x| reorder(r, &mut x.1));
        }
        _ => {}
    }
}
/// A part of the sample appears once more under another key, in another order, perhaps beside null or changed.
fn graft(r: &mut R, cfg: &Cfg, j: &mut J) {
    let Some(part) = some_container(r, j, true) else { return };
    let mut part = part.clone();
    if part.size() > 60 {
        return;
    }
    if r.pct(60) {
        reorder(r, &mut part);
    }
    if r.pct(40) {
        let v = match r.below(3) {
            0 => J::Null,
            1 => J::Arr(vec![]),
            _ => scalar(r),
        };
        if let Some(J::Obj(f)) = some_container(r, &mut part, true) {
            if let Some(x) = f.last_mut() {
                x.1 = v;
            }
        }
    }
    let part = match r.below(5) {
        0 => J::Arr(vec![part]),
        1 => J::Arr(vec![part, J::Null]),
        _ => part,
    };
    let k = key(r, cfg);
    if let Some(J::Obj(f)) = some_container(r, j, true) {
        if !f.iter().any(|x| x.0 == k) {
            let at = r.below(f.len() + 1);
            f.insert(at, (k, part));
        }
    }
}
pub fn sample(r: &mut R, cfg: &Cfg) -> J {
    let mut j = small_sample(r, cfg);
    if r.pct(8) {
        graft(r, cfg, &mut j);
    }
    if cfg.long_arrays && r.pct(cfg.big) {
        enlarge(r, cfg, &mut j);
    }
    j
}
fn small_sample(r: &mut R, cfg: &Cfg) -> J {
    let n = r.range(3, 9);
    let mut palette: Vec<String> = (0..n).map(|_| key(r, cfg)).collect();
    palette.sort();
    palette.dedup();
    let depth = r.range(1, cfg.depth);
    let mut g = G { r, cfg, shared: vec![], palette };
    for _ in 0..20 {
        let s = match g.r.below(10) {
            0..=5 => g.obj(depth),
            6..=8 => {
                let e = if g.r.pct(70) { g.obj(depth) } else { g.schema(depth) };
                let k = g.r.below(256) as u8;
                S::Arr(Box::new(e), k)
            }
            _ => g.schema(depth),
        };
        let j = g.inst(&s, 6);
        if cfg.root_container && !j.is_container() {
            continue;
        }
        if j.size() > 400 || j.size() < 2 && g.r.pct(90) {
            continue;
        }
        return j;
    }
    J::Obj(vec![("a".into(), J::Num("1".into()))])
}

pub const NAMES: &[&str] = &["Root", "Root", "Root", "root", "Point", "my_type", "Data", "FooBar", "A", "Item", "Users"];
/// A root name, in some cases one that a type for a key of the sample may want.
pub fn name_for(r: &mut R, j: &J) -> String {
    if !r.pct(25) {
        return name(r);
    }
    let ks = j.keys();
    if ks.is_empty() {
        return name(r);
    }
    let k = ks[r.below(ks.len())].to_string();
    let mut k = match r.below(4) {
        0 => k,
        1 => k.trim_end_matches('s').to_string(),
        _ => {
            let mut up = true;
            let mut o = String::new();
            for c in k.chars() {
                if c.is_ascii_alphanumeric() {
                    o.push(if up { c.to_ascii_uppercase() } else { c });
                    up = false;
                } else {
                    up = true;
                }
            }
            o
        }
    };
    if r.pct(10) {
        k += r.pick(&["2", "3", "_", "_2"]);
    }
    let ident = k.starts_with(|c: char| c.is_ascii_alphabetic()) && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
    let same = |v: &[&str]| v.iter().any(|x| x.eq_ignore_ascii_case(&k));
    if !ident || same(TYPES) || same(KEYWORDS) || learned().iter().any(|x| x.eq_ignore_ascii_case(&k)) || k.len() > 40 {
        return name(r);
    }
    k
}
pub fn name(r: &mut R) -> String {
    r.pick(NAMES).to_string()
}
