//! Declarations of generated code in one common form, parsed from TypeScript, Kotlin, Python and Rust, and what
//! values they accept.
use crate::json::{is_int_lit, J};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Any,
    Bool,
    Str,
    Int,
    Num,
    List(Box<Ty>),
    Map(Box<Ty>),
    Tup(Vec<Ty>),
    Opt(Box<Ty>),
    Ref(String),
}
#[derive(Clone, Debug)]
pub struct Field {
    pub member: String,
    pub wire: String,
    pub ty: Ty,
    /// the key may be missing
    pub opt: bool,
    /// takes the keys no other field has
    pub rest: bool,
}
#[derive(Clone, Debug)]
pub enum Body {
    Obj(Vec<Field>),
    Alias(Ty),
}
#[derive(Clone, Debug, Default)]
pub struct Decls {
    pub items: Vec<(String, Body)>,
}
impl Decls {
    pub fn get(&self, n: &str) -> Option<&Body> {
        self.items.iter().find(|i| i.0 == n).map(|i| &i.1)
    }
    /// Names declared once, members distinct, references resolve, aliases not circular.
    pub fn well_formed(&self) -> Result<(), String> {
        for (i, (n, b)) in self.items.iter().enumerate() {
            if self.items[..i].iter().any(|x| x.0 == *n) {
                return Err(format!("{n} is declared more than once"));
            }
            match b {
                Body::Obj(f) => {
                    for (k, x) in f.iter().enumerate() {
                        if f[..k].iter().any(|y| y.member == x.member) {
                            return Err(format!("{n} has two members named {}", x.member));
                        }
                        if f[..k].iter().any(|y| y.wire == x.wire && !y.rest && !x.rest) {
                            return Err(format!("two members of {n} stand for the key {:?}", x.wire));
                        }
                        self.refs(&x.ty)?;
                    }
                }
                Body::Alias(t) => {
                    self.refs(t)?;
                    let mut cur = t;
                    let mut steps = 0;
                    while let Ty::Ref(r) = cur {
                        steps += 1;
                        if steps > self.items.len() {
                            return Err(format!("the alias {n} is circular"));
                        }
                        match self.get(r) {
                            Some(Body::Alias(t)) => cur = t,
                            _ => break,
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn refs(&self, t: &Ty) -> Result<(), String> {
        match t {
            Ty::Ref(r) if self.get(r).is_none() => Err(format!("{r} is not declared")),
            Ty::List(t) | Ty::Map(t) | Ty::Opt(t) => self.refs(t),
            Ty::Tup(v) => v.iter().try_for_each(|t| self.refs(t)),
            _ => Ok(()),
        }
    }
    pub fn uses(t: &Ty, out: &mut Vec<String>) {
        match t {
            Ty::Ref(r) => out.push(r.clone()),
            Ty::List(t) | Ty::Map(t) | Ty::Opt(t) => Self::uses(t, out),
            Ty::Tup(v) => v.iter().for_each(|t| Self::uses(t, out)),
            _ => {}
        }
    }
    /// Every key must belong to exactly one member.
    pub fn accepts(&self, t: &Ty, j: &J, path: &str) -> Result<(), String> {
        let fail = |want: &str| Err(format!("at {}: {} is not {want}", if path.is_empty() { "root" } else { path }, j.text()));
        match (t, j) {
            (Ty::Any, _) => Ok(()),
            (Ty::Opt(_), J::Null) => Ok(()),
            (Ty::Opt(t), j) => self.accepts(t, j, path),
            (Ty::Bool, J::Bool(_)) | (Ty::Str, J::Str(_)) | (Ty::Num, J::Num(_)) => Ok(()),
            (Ty::Int, J::Num(n)) if is_int_lit(n) => Ok(()),
            (Ty::List(t), J::Arr(a)) => a.iter().enumerate().try_for_each(|(i, x)| self.accepts(t, x, &format!("{path}/{i}"))),
            (Ty::Map(t), J::Obj(o)) => o.iter().try_for_each(|(k, x)| self.accepts(t, x, &format!("{path}/{k:?}"))),
            (Ty::Tup(v), J::Arr(a)) if v.len() == a.len() => {
                v.iter().zip(a).enumerate().try_for_each(|(i, (t, x))| self.accepts(t, x, &format!("{path}/{i}")))
            }
            (Ty::Ref(r), j) => match self.get(r) {
                None => Err(format!("{r} is not declared")),
                Some(Body::Alias(t)) => self.accepts(t, j, path),
                Some(Body::Obj(f)) => {
                    let J::Obj(o) = j else { return fail(&format!("an object ({r})")) };
                    for (k, x) in o {
                        let fs: Vec<&Field> = f.iter().filter(|f| f.wire == *k && !f.rest).collect();
                        if fs.len() > 1 {
                            return Err(format!("at {path}: key {k:?} belongs to {} members of {r}", fs.len()));
                        }
                        match fs.first() {
                            None if f.iter().any(|f| f.rest) => {}
                            None => return Err(format!("at {path}: key {k:?} has no member in {r}")),
                            Some(f) => self.accepts(&f.ty, x, &format!("{path}/{k:?}"))?,
                        }
                    }
                    for f in f {
                        if !f.opt && !f.rest && !matches!(f.ty, Ty::Opt(_)) && !o.iter().any(|x| x.0 == f.wire) {
                            return Err(format!("at {path}: key {:?} is missing but required by {r}", f.wire));
                        }
                    }
                    Ok(())
                }
            },
            (Ty::Bool, _) => fail("a boolean"),
            (Ty::Str, _) => fail("a string"),
            (Ty::Int, _) => fail("an integer"),
            (Ty::Num, _) => fail("a number"),
            (Ty::List(_), _) => fail("a list"),
            (Ty::Map(_), _) => fail("a map"),
            (Ty::Tup(v), _) => fail(&format!("a tuple of {}", v.len())),
        }
    }
}

// ---------------------------------------------------------------- tokens
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    /// raw content between the quotes
    Str(String),
    P(char),
    Nl,
}
pub fn tokens(code: &str, newlines: bool) -> Result<Vec<Tok>, String> {
    let cs: Vec<char> = code.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < cs.len() {
        let c = cs[i];
        if c == '\n' && newlines {
            out.push(Tok::Nl);
            i += 1;
        } else if c == ' ' || c == '\n' {
            i += 1;
        } else if c.is_ascii_alphanumeric() || c == '_' || c == '$' {
            let s = i;
            while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_' || cs[i] == '$') {
                i += 1;
            }
            out.push(Tok::Id(cs[s..i].iter().collect()));
        } else if c == '"' {
            let s = i + 1;
            i += 1;
            loop {
                match cs.get(i) {
                    None | Some('\n') | Some('\r') => return Err("unterminated string literal".into()),
                    Some('\\') => i += 2,
                    Some('"') => break,
                    _ => i += 1,
                }
            }
            out.push(Tok::Str(cs[s..i].iter().collect()));
            i += 1;
        } else if c.is_ascii_punctuation() {
            out.push(Tok::P(c));
            i += 1;
        } else {
            return Err(format!("unexpected character {c:?}"));
        }
    }
    Ok(out)
}
struct P {
    t: Vec<Tok>,
    i: usize,
}
impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat(&mut self, c: char) -> bool {
        let r = self.is(c);
        self.i += r as usize;
        r
    }
    fn eat_id(&mut self, s: &str) -> bool {
        let r = self.is_id(s);
        self.i += r as usize;
        r
    }
    fn want(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {c:?}, found {:?}", self.peek()))
        }
    }
    fn want_id(&mut self, s: &str) -> Result<(), String> {
        if self.eat_id(s) {
            Ok(())
        } else {
            Err(format!("expected {s:?}, found {:?}", self.peek()))
        }
    }
    fn id(&mut self) -> Result<String, String> {
        match self.peek() {
            Some(Tok::Id(s)) if !s.starts_with(|c: char| c.is_ascii_digit()) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            x => Err(format!("expected an identifier, found {x:?}")),
        }
    }
    fn nls(&mut self) {
        while self.peek() == Some(&Tok::Nl) {
            self.i += 1;
        }
    }
}

// ---------------------------------------------------------------- Kotlin
pub const KOTLIN_HARD: &[&str] = &[
    "as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in", "interface", "is", "null",
    "object", "package", "return", "super", "this", "throw", "true", "try", "typealias", "typeof", "val", "var",
    "when", "while",
];
const KOTLIN_KNOWN: &[&str] = &[
    "com.fasterxml.jackson.annotation.JsonProperty",
    "com.fasterxml.jackson.annotation.JsonAnySetter",
    "com.fasterxml.jackson.annotation.JsonAnyGetter",
    "com.fasterxml.jackson.databind.annotation.JsonNaming",
    "com.fasterxml.jackson.databind.PropertyNamingStrategies",
    "kotlinx.serialization.SerialName",
    "kotlinx.serialization.Serializable",
];
const KOTLIN_BUILTIN: &[&str] = &["Any", "Boolean", "String", "Long", "Double", "List", "Map", "Pair", "Triple"];

fn kotlin_string(raw: &str) -> Result<String, String> {
    let cs: Vec<char> = raw.chars().collect();
    let mut units: Vec<u16> = vec![];
    let mut i = 0;
    let mut b = [0u16; 2];
    while i < cs.len() {
        match cs[i] {
            '\\' => {
                let c = match cs.get(i + 1) {
                    Some('t') => '\t',
                    Some('b') => '\u{8}',
                    Some('n') => '\n',
                    Some('r') => '\r',
                    Some(c @ ('\'' | '"' | '\\' | '$')) => *c,
                    Some('u') => {
                        let h: String = cs[i + 2..].iter().take(4).collect();
                        if h.len() != 4 || !h.chars().all(|c| c.is_ascii_hexdigit()) {
                            return Err(format!("bad escape in \"{raw}\""));
                        }
                        units.push(u16::from_str_radix(&h, 16).unwrap());
                        i += 6;
                        continue;
                    }
                    x => return Err(format!("unknown escape {x:?} in \"{raw}\"")),
                };
                units.extend_from_slice(c.encode_utf16(&mut b));
                i += 2;
            }
            '$' if cs.get(i + 1).is_some_and(|c| *c == '{' || *c == '_' || *c == '`' || c.is_alphabetic()) => {
                return Err(format!("string template in \"{raw}\""));
            }
            c => {
                units.extend_from_slice(c.encode_utf16(&mut b));
                i += 1;
            }
        }
    }
    String::from_utf16(&units).map_err(|e| e.to_string())
}

struct Kt<'a> {
    p: P,
    style: &'a str,
    imports: Vec<String>,
    /// simple names the code refers to
    used: Vec<String>,
}
impl Kt<'_> {
    fn name(&mut self) -> Result<String, String> {
        let n = self.p.id()?;
        if KOTLIN_HARD.contains(&n.as_str()) {
            return Err(format!("keyword {n} as a name"));
        }
        if n.chars().all(|c| c == '_') || n.contains('$') && n.len() > 1 && n.starts_with('$') {
            return Err(format!("reserved name {n}"));
        }
        Ok(n)
    }
    fn dotted(&mut self) -> Result<String, String> {
        let mut s = self.name()?;
        while self.p.eat('.') {
            s += ".";
            s += &self.name()?;
        }
        Ok(s)
    }
    /// the qualified name of something from a library
    fn library(&mut self, written: &str) -> Result<String, String> {
        let head = written.split('.').next().unwrap();
        if KOTLIN_KNOWN.iter().any(|k| written == *k || written.starts_with(&format!("{k}."))) {
            return Ok(written.to_string());
        }
        self.used.push(head.to_string());
        let full = if self.style == "assume_existing" {
            KOTLIN_KNOWN.iter().find(|k| k.rsplit('.').next() == Some(head)).map(|k| k.to_string())
        } else {
            self.imports.iter().find(|k| k.rsplit('.').next() == Some(head)).cloned()
        };
        match full {
            Some(f) => Ok(written.replacen(head, &f, 1)),
            None => Err(format!("{written} is not imported")),
        }
    }
    fn ty(&mut self) -> Result<Ty, String> {
        let n = self.dotted()?;
        self.used.push(n.clone());
        let mut args = vec![];
        if self.p.eat('<') {
            loop {
                args.push(self.ty()?);
                if !self.p.eat(',') {
                    break;
                }
            }
            self.p.want('>')?;
        }
        let arity = |k: usize| if args.len() == k { Ok(()) } else { Err(format!("{n} with {} type arguments", args.len())) };
        let mut t = match n.as_str() {
            "Any" => Ty::Any,
            "Boolean" => Ty::Bool,
            "String" => Ty::Str,
            "Long" => Ty::Int,
            "Double" => Ty::Num,
            "List" => {
                arity(1)?;
                Ty::List(Box::new(args[0].clone()))
            }
            "Map" => {
                arity(2)?;
                if args[0] != Ty::Str {
                    return Err("Map with keys that are not strings".into());
                }
                Ty::Map(Box::new(args[1].clone()))
            }
            "Pair" => {
                arity(2)?;
                Ty::Tup(args.clone())
            }
            "Triple" => {
                arity(3)?;
                Ty::Tup(args.clone())
            }
            _ => {
                arity(0)?;
                Ty::Ref(n.clone())
            }
        };
        while self.p.eat('?') {
            t = match t {
                Ty::Any => Ty::Opt(Box::new(Ty::Any)),
                t @ Ty::Opt(_) => t,
                t => Ty::Opt(Box::new(t)),
            };
        }
        Ok(t)
    }
    /// (site, qualified name, string argument or class argument)
    fn annotation(&mut self) -> Result<(String, String, Option<String>), String> {
        self.p.want('@')?;
        let mut site = String::new();
        if self.p.is_id("get") && self.p.t.get(self.p.i + 1) == Some(&Tok::P(':')) {
            self.p.i += 2;
            site = "get".into();
        }
        let w = self.dotted()?;
        let full = self.library(&w)?;
        let mut arg = None;
        if self.p.eat('(') {
            if let Some(Tok::Str(s)) = self.p.peek().cloned() {
                self.p.i += 1;
                arg = Some(kotlin_string(&s)?);
            } else {
                let w = self.dotted()?;
                let f = self.library(&w)?;
                self.p.want(':')?;
                self.p.want(':')?;
                self.p.want_id("class")?;
                arg = Some(f);
            }
            self.p.want(')')?;
        }
        Ok((site, full, arg))
    }
}
fn jackson(strategy: &str, s: &str) -> Result<String, String> {
    let cs: Vec<char> = s.chars().collect();
    Ok(match strategy {
        "LowerCaseStrategy" => s.to_lowercase(),
        "UpperCamelCaseStrategy" => cs.iter().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { *c }).collect(),
        "SnakeCaseStrategy" => {
            let mut r = String::new();
            let mut prev = false;
            for (i, c) in cs.iter().enumerate() {
                if i == 0 && *c == '_' {
                    continue;
                }
                if c.is_ascii_uppercase() {
                    if !prev && !r.is_empty() && !r.ends_with('_') {
                        r.push('_');
                    }
                    r.push(c.to_ascii_lowercase());
                    prev = true;
                } else {
                    r.push(*c);
                    prev = false;
                }
            }
            if r.is_empty() {
                s.to_string()
            } else {
                r
            }
        }
        "KebabCaseStrategy" => {
            let mut r: Vec<char> = vec![];
            let mut upper = 0;
            for (i, c) in cs.iter().enumerate() {
                let l = c.to_ascii_lowercase();
                if l == *c {
                    if upper > 1 {
                        r.insert(r.len() - 1, '-');
                    }
                    upper = 0;
                } else {
                    if upper == 0 && i > 0 {
                        r.push('-');
                    }
                    upper += 1;
                }
                r.push(l);
            }
            r.into_iter().collect()
        }
        x => return Err(format!("unknown naming strategy {x}")),
    })
}
/// `mode` is "kotlin/jackson" or "kotlin/kotlinx"
pub fn kotlin(code: &str, mode: &str, style: &str) -> Result<Decls, String> {
    let style = if style.is_empty() { "add_imports" } else { style };
    let mut k = Kt { p: P { t: tokens(code, false)?, i: 0 }, style, imports: vec![], used: vec![] };
    let is_jackson = mode == "kotlin/jackson";
    while k.p.eat_id("import") {
        let mut s = k.dotted_any()?;
        if !KOTLIN_KNOWN.contains(&s.as_str()) {
            return Err(format!("import of {s}, which does not exist"));
        }
        if k.imports.contains(&s) {
            s += " (twice)";
        }
        k.imports.push(s);
    }
    if style != "add_imports" && !k.imports.is_empty() {
        return Err(format!("imports with {style}"));
    }
    let mut d = Decls::default();
    while k.p.peek().is_some() {
        let mut strategy = None;
        let mut serializable = false;
        while k.p.is('@') {
            let (site, name, arg) = k.annotation()?;
            match (site.as_str(), name.rsplit('.').next().unwrap(), arg) {
                ("", "JsonNaming", Some(a)) if is_jackson => {
                    strategy = Some(a.strip_prefix("com.fasterxml.jackson.databind.PropertyNamingStrategies.").ok_or("naming strategy")?.to_string())
                }
                ("", "Serializable", None) if !is_jackson => serializable = true,
                x => return Err(format!("unexpected annotation {x:?} on a class")),
            }
        }
        if k.p.eat_id("typealias") {
            let n = k.name()?;
            k.p.want('=')?;
            let t = k.ty()?;
            k.p.eat(';');
            d.items.push((n, Body::Alias(t)));
            continue;
        }
        k.p.want_id("data")?;
        k.p.want_id("class")?;
        let n = k.name()?;
        if !is_jackson && !serializable {
            return Err(format!("{n} is not @Serializable"));
        }
        k.p.want('(')?;
        let mut fs = vec![];
        while !k.p.is(')') {
            let mut wire = None;
            let mut rest = 0;
            while k.p.is('@') {
                let (site, name, arg) = k.annotation()?;
                match (site.as_str(), name.rsplit('.').next().unwrap(), arg) {
                    ("", "JsonProperty", Some(a)) if is_jackson => wire = Some(a),
                    ("", "SerialName", Some(a)) if !is_jackson => wire = Some(a),
                    ("", "JsonAnySetter", None) | ("get", "JsonAnyGetter", None) => rest += 1,
                    x => return Err(format!("unexpected annotation {x:?} on a property")),
                }
            }
            k.p.want_id("val")?;
            let member = k.name()?;
            k.p.want(':')?;
            let ty = k.ty()?;
            let mut opt = false;
            if k.p.eat('=') {
                k.p.want_id("mutableMapOf")?;
                k.p.want('(')?;
                k.p.want(')')?;
                opt = true;
            }
            let wire = match (wire, &strategy) {
                (Some(w), _) => w,
                (None, None) => member.clone(),
                (None, Some(s)) => jackson(s, &member)?,
            };
            fs.push(Field { member, wire, ty, opt, rest: rest == 2 });
            if !k.p.eat(',') {
                break;
            }
        }
        k.p.want(')')?;
        if fs.is_empty() {
            return Err(format!("data class {n} without properties"));
        }
        d.items.push((n, Body::Obj(fs)));
    }
    for (n, _) in &d.items {
        // a name that is both declared here and refers to something else
        let builtin = KOTLIN_BUILTIN.contains(&n.as_str());
        let lib = KOTLIN_KNOWN.iter().any(|k| k.rsplit('.').next() == Some(n.as_str()));
        if (builtin || lib) && k.used.contains(n) {
            return Err(format!("the declaration of {n} hides the {n} the code uses"));
        }
    }
    d.well_formed()?;
    Ok(d)
}
impl Kt<'_> {
    fn dotted_any(&mut self) -> Result<String, String> {
        let mut s = self.p.id()?;
        while self.p.eat('.') {
            s += ".";
            s += &self.p.id()?;
        }
        Ok(s)
    }
}

// ---------------------------------------------------------------- TypeScript interfaces
struct Ts {
    p: P,
}
impl Ts {
    fn primary(&mut self) -> Result<Ty, String> {
        if self.p.eat('(') {
            let t = self.ty()?;
            self.p.want(')')?;
            return Ok(t);
        }
        if self.p.eat('[') {
            let mut v = vec![];
            while !self.p.is(']') {
                v.push(self.ty()?);
                if !self.p.eat(',') {
                    break;
                }
            }
            self.p.want(']')?;
            return Ok(Ty::Tup(v));
        }
        if self.p.eat('{') {
            self.p.want('[')?;
            self.p.id()?;
            self.p.want(':')?;
            self.p.want_id("string")?;
            self.p.want(']')?;
            self.p.want(':')?;
            let t = self.ty()?;
            let _ = self.p.eat(';');
            self.p.want('}')?;
            return Ok(Ty::Map(Box::new(t)));
        }
        let n = self.p.id()?;
        Ok(match n.as_str() {
            "any" | "unknown" => Ty::Any,
            "boolean" => Ty::Bool,
            "string" => Ty::Str,
            "number" => Ty::Num,
            "null" | "undefined" => Ty::Opt(Box::new(Ty::Tup(vec![]))),
            _ => Ty::Ref(n),
        })
    }
    fn ty(&mut self) -> Result<Ty, String> {
        let mut out: Option<Ty> = None;
        let mut null = false;
        loop {
            let mut t = self.primary()?;
            while self.p.is('[') {
                self.p.want('[')?;
                self.p.want(']')?;
                t = Ty::List(Box::new(t));
            }
            if t == Ty::Opt(Box::new(Ty::Tup(vec![]))) {
                null = true;
            } else if out.is_some() {
                return Err("a union of two types".into());
            } else {
                out = Some(t);
            }
            if !self.p.eat('|') {
                break;
            }
        }
        let t = out.unwrap_or(Ty::Tup(vec![]));
        Ok(if null && !matches!(t, Ty::Opt(_)) { Ty::Opt(Box::new(t)) } else { t })
    }
}
pub fn typescript(code: &str) -> Result<Decls, String> {
    let mut k = Ts { p: P { t: tokens(code, false)?, i: 0 } };
    let mut d = Decls::default();
    while k.p.peek().is_some() {
        let _ = k.p.eat_id("export");
        if k.p.eat_id("type") {
            let n = k.p.id()?;
            k.p.want('=')?;
            let t = k.ty()?;
            k.p.eat(';');
            d.items.push((n, Body::Alias(t)));
            continue;
        }
        k.p.want_id("interface")?;
        let n = k.p.id()?;
        k.p.want('{')?;
        let mut fs = vec![];
        while !k.p.is('}') {
            let member = match k.p.peek().cloned() {
                Some(Tok::Str(s)) => {
                    k.p.i += 1;
                    match crate::json::parse(&format!("\"{s}\"")) {
                        Ok(J::Str(s)) => s,
                        _ => return Err(format!("property name \"{s}\"")),
                    }
                }
                _ => k.p.id()?,
            };
            let opt = k.p.eat('?');
            k.p.want(':')?;
            let ty = k.ty()?;
            if !k.p.eat(';') {
                k.p.want(',')?;
            }
            fs.push(Field { wire: member.clone(), member, ty, opt, rest: false });
        }
        k.p.want('}')?;
        d.items.push((n, Body::Obj(fs)));
    }
    d.well_formed()?;
    Ok(d)
}

// ---------------------------------------------------------------- Python
struct Py {
    p: P,
    declared: Vec<String>,
}
impl Py {
    fn dotted(&mut self) -> Result<String, String> {
        let mut s = self.p.id()?;
        while self.p.eat('.') {
            s += ".";
            s += &self.p.id()?;
        }
        Ok(s)
    }
    fn ty(&mut self) -> Result<Ty, String> {
        let n = self.dotted()?;
        let mut args = vec![];
        if self.p.eat('[') {
            loop {
                args.push(self.ty()?);
                if !self.p.eat(',') {
                    break;
                }
            }
            self.p.want(']')?;
        }
        if args.is_empty() && self.declared.contains(&n) {
            return Ok(Ty::Ref(n));
        }
        let n = n.strip_prefix("typing.").unwrap_or(&n).to_string();
        Ok(match (n.as_str(), args.len()) {
            ("Any", 0) => Ty::Any,
            ("bool", 0) => Ty::Bool,
            ("str", 0) => Ty::Str,
            ("int", 0) => Ty::Int,
            ("float", 0) => Ty::Num,
            ("list", 1) => Ty::List(Box::new(args.remove(0))),
            ("Optional", 1) => match args.remove(0) {
                t @ Ty::Opt(_) => t,
                t => Ty::Opt(Box::new(t)),
            },
            ("dict", 2) if args[0] == Ty::Str => Ty::Map(Box::new(args.remove(1))),
            ("tuple", _) if !args.is_empty() => Ty::Tup(args),
            (_, 0) => Ty::Ref(n),
            _ => return Err(format!("{n} with {} arguments", args.len())),
        })
    }
}
pub fn python(code: &str) -> Result<Decls, String> {
    let t = tokens(code, true)?;
    let declared = t.windows(2).filter_map(|w| if let (Tok::Id(c), Tok::Id(n)) = (&w[0], &w[1]) { (c == "class").then(|| n.clone()) } else { None }).collect();
    let mut k = Py { p: P { t, i: 0 }, declared };
    let mut d = Decls::default();
    loop {
        k.p.nls();
        if k.p.peek().is_none() {
            break;
        }
        if k.p.is_id("from") || k.p.is_id("import") {
            while !matches!(k.p.peek(), None | Some(Tok::Nl)) {
                k.p.i += 1;
            }
            continue;
        }
        if !k.p.eat_id("class") {
            let n = k.p.id()?;
            k.p.want('=')?;
            let t = k.ty()?;
            d.items.push((n, Body::Alias(t)));
            continue;
        }
        let n = k.p.id()?;
        k.p.want('(')?;
        k.dotted()?;
        k.p.want(')')?;
        k.p.want(':')?;
        let mut fs = vec![];
        k.p.nls();
        if !k.p.eat_id("pass") {
            // the members end where the next line starts a class or an alias, or at the end
            loop {
                k.p.nls();
                let at = k.p.i;
                if k.p.peek().is_none() || k.p.is_id("class") || !matches!(k.p.t.get(at + 1), Some(Tok::P(':'))) {
                    break;
                }
                let member = k.p.id()?;
                k.p.want(':')?;
                let ty = k.ty()?;
                let mut wire = member.clone();
                if k.p.eat('=') {
                    k.dotted()?;
                    k.p.want('(')?;
                    k.p.want_id("alias")?;
                    k.p.want('=')?;
                    let Some(Tok::Str(s)) = k.p.peek().cloned() else { return Err("alias is not a string".into()) };
                    k.p.i += 1;
                    wire = match crate::json::parse(&format!("\"{s}\"")) {
                        Ok(J::Str(s)) => s,
                        _ => return Err(format!("alias \"{s}\"")),
                    };
                    k.p.want(')')?;
                }
                fs.push(Field { member, wire, ty, opt: false, rest: false });
            }
            if fs.is_empty() {
                return Err(format!("class {n} has no body"));
            }
        }
        d.items.push((n, Body::Obj(fs)));
    }
    d.well_formed()?;
    Ok(d)
}

// ---------------------------------------------------------------- Rust
fn rust_ty(t: &syn2::Type, declared: &[String]) -> Result<Ty, String> {
    match t {
        syn2::Type::Tuple(t) => Ok(Ty::Tup(t.elems.iter().map(|t| rust_ty(t, declared)).collect::<Result<_, _>>()?)),
        syn2::Type::Path(p) => {
            let full: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let last = p.path.segments.last().ok_or("empty path")?;
            let mut args = vec![];
            if let syn2::PathArguments::AngleBracketed(a) = &last.arguments {
                for x in &a.args {
                    match x {
                        syn2::GenericArgument::Type(t) => args.push(rust_ty(t, declared)?),
                        _ => return Err("unexpected generic argument".into()),
                    }
                }
            }
            if full.len() == 1 && args.is_empty() && declared.contains(&full[0]) {
                return Ok(Ty::Ref(full[0].clone()));
            }
            Ok(match (full.last().unwrap().as_str(), args.len()) {
                ("Value", 0) => Ty::Any,
                ("bool", 0) => Ty::Bool,
                ("String", 0) => Ty::Str,
                ("i64", 0) => Ty::Int,
                ("f64", 0) => Ty::Num,
                ("Vec", 1) => Ty::List(Box::new(args.remove(0))),
                ("Option", 1) => match args.remove(0) {
                    t @ Ty::Opt(_) => t,
                    t => Ty::Opt(Box::new(t)),
                },
                ("HashMap", 2) if args[0] == Ty::Str => Ty::Map(Box::new(args.remove(1))),
                (n, 0) if full.len() == 1 => Ty::Ref(n.to_string()),
                (n, k) => return Err(format!("unexpected type {n} with {k} arguments")),
            })
        }
        _ => Err("unexpected form of type".into()),
    }
}
/// rename rules of serde for fields
fn serde_rule(rule: &str, f: &str) -> Result<String, String> {
    let pascal = || -> String {
        let mut up = true;
        let mut s = String::new();
        for c in f.chars() {
            if c == '_' {
                up = true;
            } else if up {
                s.push(c.to_ascii_uppercase());
                up = false;
            } else {
                s.push(c);
            }
        }
        s
    };
    Ok(match rule {
        "lowercase" | "snake_case" => f.to_string(),
        "UPPERCASE" | "SCREAMING_SNAKE_CASE" => f.to_ascii_uppercase(),
        "PascalCase" => pascal(),
        "camelCase" => {
            let p = pascal();
            let mut cs = p.chars();
            match cs.next() {
                None => p.clone(),
                Some(c) => c.to_ascii_lowercase().to_string() + cs.as_str(),
            }
        }
        "kebab-case" => f.replace('_', "-"),
        "SCREAMING-KEBAB-CASE" => f.to_ascii_uppercase().replace('_', "-"),
        x => return Err(format!("unknown rename rule {x}")),
    })
}
#[derive(Default)]
struct Serde {
    rename: Option<String>,
    rename_all: Option<String>,
    default: bool,
    flatten: bool,
}
fn serde_attrs(attrs: &[syn2::Attribute]) -> Result<Serde, String> {
    let mut s = Serde::default();
    for a in attrs {
        if a.path().is_ident("serde") {
            a.parse_nested_meta(|m| {
                if m.path.is_ident("rename") || m.path.is_ident("rename_all") {
                    let v: syn2::LitStr = m.value()?.parse()?;
                    if m.path.is_ident("rename") {
                        s.rename = Some(v.value());
                    } else {
                        s.rename_all = Some(v.value());
                    }
                } else if m.path.is_ident("default") {
                    s.default = true;
                } else if m.path.is_ident("flatten") {
                    s.flatten = true;
                } else if !m.path.is_ident("deny_unknown_fields") {
                    return Err(m.error("unexpected serde attribute"));
                }
                Ok(())
            })
            .map_err(|e| e.to_string())?;
        }
    }
    Ok(s)
}
pub fn rust(code: &str) -> Result<Decls, String> {
    let f = syn2::parse_file(code).map_err(|e| format!("syntax: {e}"))?;
    let mut d = Decls::default();
    let declared: Vec<String> = f
        .items
        .iter()
        .filter_map(|i| match i {
            syn2::Item::Struct(s) => Some(s.ident.to_string()),
            syn2::Item::Type(s) => Some(s.ident.to_string()),
            _ => None,
        })
        .collect();
    for i in &f.items {
        match i {
            syn2::Item::Use(_) => {}
            syn2::Item::Type(t) => d.items.push((t.ident.to_string(), Body::Alias(rust_ty(&t.ty, &declared)?))),
            syn2::Item::Struct(s) => {
                let top = serde_attrs(&s.attrs)?;
                let mut fs = vec![];
                for f in &s.fields {
                    let a = serde_attrs(&f.attrs)?;
                    let member = f.ident.as_ref().ok_or("tuple struct")?.to_string();
                    let wire = match (&a.rename, &top.rename_all) {
                        (Some(r), _) => r.clone(),
                        (None, Some(r)) => serde_rule(r, &member)?,
                        _ => member.clone(),
                    };
                    fs.push(Field { member, wire, ty: rust_ty(&f.ty, &declared)?, opt: a.default || top.default, rest: a.flatten });
                }
                d.items.push((s.ident.to_string(), Body::Obj(fs)));
            }
            _ => return Err("unexpected item".into()),
        }
    }
    d.well_formed()?;
    Ok(d)
}
