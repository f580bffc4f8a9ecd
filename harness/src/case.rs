//! One generated case, shared by all properties: root name, sample, options, hints, extra texts/numbers.
use crate::json::{self, J};
use json_typegen_shared::{parse, Options};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub name: String,
    pub sample: J,
    /// option name -> value ("true"/"false" for the boolean ones)
    pub opts: BTreeMap<String, String>,
    /// pointer -> use_type
    pub hints: Vec<(String, String)>,
    pub texts: Vec<String>,
    pub nums: Vec<i64>,
}

pub const BOOL_OPTS: &[&str] =
    &["deny_unknown_fields", "use_default_for_missing_fields", "allow_option_vec", "collect_additional"];

impl Case {
    pub fn new(name: &str, sample: J) -> Case {
        Case { name: name.into(), sample, opts: BTreeMap::new(), hints: vec![], texts: vec![], nums: vec![] }
    }
    pub fn opt(mut self, k: &str, v: &str) -> Case {
        self.opts.insert(k.into(), v.into());
        self
    }
    pub fn get(&self, k: &str) -> &str {
        self.opts.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn flag(&self, k: &str) -> bool {
        self.get(k) == "true"
    }
    /// the case demonstrates a known finding and is not to be excluded
    pub fn probe(&self) -> bool {
        self.flag("_probe")
    }
    pub fn with_mode(&self, m: &str) -> Case {
        self.clone().opt("output_mode", m)
    }
    pub fn to_json(&self) -> Value {
        let mut v = json!({"name": self.name, "sample": self.sample.text()});
        let o = v.as_object_mut().unwrap();
        if !self.opts.is_empty() {
            o.insert("opts".into(), json!(self.opts));
        }
        if !self.hints.is_empty() {
            o.insert("hints".into(), json!(self.hints));
        }
        if !self.texts.is_empty() {
            o.insert("texts".into(), json!(self.texts));
        }
        if !self.nums.is_empty() {
            o.insert("nums".into(), json!(self.nums));
        }
        v
    }
    pub fn from_json(v: &Value) -> Result<Case, String> {
        let s = |x: &Value| x.as_str().map(|s| s.to_string()).unwrap_or_default();
        let mut c = Case::new(&s(&v["name"]), json::parse(v["sample"].as_str().unwrap_or("null"))?);
        if let Some(o) = v["opts"].as_object() {
            for (k, x) in o {
                c.opts.insert(k.clone(), s(x));
            }
        }
        for h in v["hints"].as_array().unwrap_or(&vec![]) {
            c.hints.push((s(&h[0]), s(&h[1])));
        }
        for h in v["texts"].as_array().unwrap_or(&vec![]) {
            c.texts.push(s(h));
        }
        for h in v["nums"].as_array().unwrap_or(&vec![]) {
            c.nums.push(h.as_i64().unwrap_or(0));
        }
        Ok(c)
    }
    pub fn block(&self) -> String {
        let mut v = vec![];
        for (k, x) in &self.opts {
            // "_..." are notes to the check
            if k.starts_with('_') {
                continue;
            }
            if BOOL_OPTS.contains(&k.as_str()) {
                v.push(format!("{}: {}", k, x));
            } else {
                v.push(format!("{}: {}", k, rust_str(x)));
            }
        }
        for (p, t) in &self.hints {
            v.push(format!("{}: {{ use_type: {} }}", rust_str(p), rust_str(t)));
        }
        format!("{{ {} }}", v.join(", "))
    }
    pub fn options(&self) -> Result<Options, String> {
        parse::options(&self.block())
    }
    /// Simpler variants of everything.
    pub fn shrinks(&self) -> Vec<Case> {
        let mut out = vec![];
        for s in self.sample.shrinks() {
            out.push(Case { sample: s, ..self.clone() });
        }
        for k in self.opts.keys().filter(|k| !k.starts_with('_') && *k != "output_mode" && *k != "input_mode") {
            let mut c = self.clone();
            c.opts.remove(k);
            out.push(c);
        }
        for i in 0..self.hints.len() {
            let mut c = self.clone();
            c.hints.remove(i);
            out.push(c);
        }
        if self.name != "Root" {
            out.push(Case { name: "Root".into(), ..self.clone() });
        }
        for i in 0..self.texts.len() {
            for t in json::shrink_str(&self.texts[i]) {
                let mut c = self.clone();
                c.texts[i] = t;
                out.push(c);
            }
        }
        for i in 0..self.nums.len() {
            let n = self.nums[i];
            let mut c = self.clone();
            c.nums.remove(i);
            out.push(c);
            for m in [0, n / 2, n - 1] {
                if m != n && m >= 0 {
                    let mut c = self.clone();
                    c.nums[i] = m;
                    out.push(c);
                }
            }
        }
        out
    }
}

/// A Rust string literal for `s` that uses only the escapes syn 0.11 and rustc share.
pub fn rust_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
