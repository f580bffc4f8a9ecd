//! The harness's own JSON value: ordered keys, number literals kept as written.
use std::collections::HashSet;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn is_int_lit(s: &str) -> bool {
    !s.contains(['.', 'e', 'E'])
}

impl J {
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => quote(s, o),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    quote(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn size(&self) -> usize {
        match self {
            J::Arr(a) => 1 + a.iter().map(|x| x.size()).sum::<usize>(),
            J::Obj(m) => 1 + m.iter().map(|(_, x)| x.size()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn is_container(&self) -> bool {
        matches!(self, J::Arr(_) | J::Obj(_))
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a J)) {
        f(self);
        match self {
            J::Arr(a) => a.iter().for_each(|x| x.walk(f)),
            J::Obj(m) => m.iter().for_each(|(_, x)| x.walk(f)),
            _ => {}
        }
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut J)) {
        f(self);
        match self {
            J::Arr(a) => a.iter_mut().for_each(|x| x.walk_mut(f)),
            J::Obj(m) => m.iter_mut().for_each(|(_, x)| x.walk_mut(f)),
            _ => {}
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.iter().find(|(n, _)| n == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn has_dup_keys(&self) -> bool {
        let mut dup = false;
        self.walk(&mut |j| {
            if let J::Obj(m) = j {
                let mut s = HashSet::new();
                for (k, _) in m {
                    if !s.insert(k) {
                        dup = true;
                    }
                }
            }
        });
        dup
    }
    pub fn keys(&self) -> Vec<&String> {
        let mut v = vec![];
        self.walk(&mut |j| {
            if let J::Obj(m) = j {
                for (k, _) in m {
                    v.push(k);
                }
            }
        });
        v
    }
    pub fn serde(&self) -> serde_json::Value {
        serde_json::from_str(&self.text()).expect("own JSON text parses")
    }

    /// Smaller variants, most drastic first.
    /// nodes, and the length of strings and keys in units of 32 bytes
    pub fn weight(&self) -> usize {
        match self {
            J::Arr(a) => 1 + a.iter().map(|x| x.weight()).sum::<usize>(),
            J::Obj(m) => 1 + m.iter().map(|(k, x)| k.len() / 32 + x.weight()).sum::<usize>(),
            J::Str(s) | J::Num(s) => 1 + s.len() / 32,
            _ => 1,
        }
    }
    pub fn shrinks(&self) -> Vec<J> {
        if self.weight() > 600 {
            self.coarse(240)
        } else {
            self.fine()
        }
    }
    /// A bounded number of simpler variants of a large value.
    fn coarse(&self, budget: usize) -> Vec<J> {
        let mut out = vec![];
        if budget == 0 {
            return out;
        }
        let chunks = |n: usize| {
            let mut v = vec![];
            let mut k = n;
            while k >= 1 && k * 64 >= n {
                v.extend((0..n).step_by(k).map(|i| (i, (i + k).min(n))));
                k /= 2;
            }
            v
        };
        // what lies a few levels further in
        let mut x = self;
        let mut at = vec![];
        loop {
            x = match x {
                J::Arr(a) => match a.iter().max_by_key(|x| x.weight()) {
                    Some(x) => x,
                    None => break,
                },
                J::Obj(m) => match m.iter().map(|x| &x.1).max_by_key(|x| x.weight()) {
                    Some(x) => x,
                    None => break,
                },
                _ => break,
            };
            at.push(x);
            if at.len() > 600 {
                break;
            }
        }
        let mut k = at.len();
        while k > 0 {
            if at[k - 1].is_container() {
                out.push(at[k - 1].clone());
            }
            k /= 2;
        }
        // parts of this container
        match self {
            J::Arr(a) => {
                for (i, j) in chunks(a.len()) {
                    let mut b = a.clone();
                    b.drain(i..j);
                    out.push(J::Arr(b));
                }
            }
            J::Obj(m) => {
                for (i, j) in chunks(m.len()) {
                    let mut b = m.clone();
                    b.drain(i..j);
                    out.push(J::Obj(b));
                }
            }
            J::Str(s) => out.extend(shrink_str(s).into_iter().map(J::Str)),
            J::Num(_) => out.extend(self.fine()),
            _ => {}
        }
        // the heaviest parts within it
        let left = budget.saturating_sub(out.len());
        match self {
            J::Arr(a) => {
                let mut o: Vec<usize> = (0..a.len()).collect();
                o.sort_by_key(|i| std::cmp::Reverse(a[*i].weight()));
                let mut left = left;
                for i in o {
                    for y in if a[i].weight() > 60 { a[i].coarse(left / 2) } else { a[i].fine() } {
                        if left == 0 {
                            return out;
                        }
                        left -= 1;
                        let mut b = a.clone();
                        b[i] = y;
                        out.push(J::Arr(b));
                    }
                }
            }
            J::Obj(m) => {
                let mut o: Vec<usize> = (0..m.len()).collect();
                o.sort_by_key(|i| std::cmp::Reverse(m[*i].1.weight() + m[*i].0.len() / 32));
                let mut left = left;
                for i in o {
                    if m[i].0.len() > 64 {
                        for nk in shrink_str(&m[i].0) {
                            if left == 0 || m.iter().any(|(o, _)| *o == nk) {
                                break;
                            }
                            left -= 1;
                            let mut b = m.clone();
                            b[i].0 = nk;
                            out.push(J::Obj(b));
                        }
                    }
                    for y in if m[i].1.weight() > 60 { m[i].1.coarse(left / 2) } else { m[i].1.fine() } {
                        if left == 0 {
                            return out;
                        }
                        left -= 1;
                        let mut b = m.clone();
                        b[i].1 = y;
                        out.push(J::Obj(b));
                    }
                }
            }
            _ => {}
        }
        out
    }
    fn fine(&self) -> Vec<J> {
        let mut out = vec![];
        match self {
            J::Null => {}
            J::Bool(b) => {
                if *b {
                    out.push(J::Bool(false));
                }
            }
            J::Num(n) => {
                for c in ["0", "0.5", "1e2"] {
                    if (c.len(), c) < (n.len(), n) && is_int_lit(n) == is_int_lit(c) {
                        out.push(J::Num(c.into()));
                    }
                }
            }
            J::Str(s) => {
                for t in shrink_str(s) {
                    out.push(J::Str(t));
                }
            }
            J::Arr(a) => {
                for x in a {
                    if x.is_container() {
                        out.push(x.clone());
                    }
                }
                let n = a.len();
                let mut k = n;
                while k >= 1 {
                    let mut i = 0;
                    while i < n {
                        let mut b = a.clone();
                        b.drain(i..(i + k).min(n));
                        out.push(J::Arr(b));
                        i += k;
                    }
                    k /= 2;
                }
                for (i, x) in a.iter().enumerate() {
                    for y in x.fine() {
                        let mut b = a.clone();
                        b[i] = y;
                        out.push(J::Arr(b));
                    }
                    if x.is_container() {
                        let mut b = a.clone();
                        b[i] = J::Num("0".into());
                        out.push(J::Arr(b));
                    }
                }
            }
            J::Obj(m) => {
                for (_, x) in m {
                    if x.is_container() {
                        out.push(x.clone());
                    }
                }
                let n = m.len();
                let mut k = n;
                while k >= 1 {
                    let mut i = 0;
                    while i < n {
                        let mut b = m.clone();
                        b.drain(i..(i + k).min(n));
                        out.push(J::Obj(b));
                        i += k;
                    }
                    k /= 2;
                }
                for (i, (key, x)) in m.iter().enumerate() {
                    for y in x.fine() {
                        let mut b = m.clone();
                        b[i].1 = y;
                        out.push(J::Obj(b));
                    }
                    if x.is_container() {
                        let mut b = m.clone();
                        b[i].1 = J::Num("0".into());
                        out.push(J::Obj(b));
                    }
                    for nk in shrink_str(key).into_iter().chain(["a".to_string(), "b".into()]) {
                        if (nk.len(), &nk) < (key.len(), key) && !m.iter().any(|(o, _)| *o == nk) {
                            let mut b = m.clone();
                            b[i].0 = nk;
                            out.push(J::Obj(b));
                        }
                    }
                }
            }
        }
        out
    }
}

pub fn shrink_str(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let n = cs.len();
    let mut out = vec![];
    if n == 0 {
        return out;
    }
    let mut k = n;
    while k >= 1 && (n <= 400 || k * 64 >= n) {
        let mut i = 0;
        while i < n {
            let mut b = cs.clone();
            b.drain(i..(i + k).min(n));
            out.push(b.into_iter().collect());
            i += k;
        }
        k /= 2;
    }
    if n <= 8 {
        for i in 0..n {
            if cs[i] != 'a' {
                let mut b = cs.clone();
                b[i] = 'a';
                out.push(b.into_iter().collect());
            }
        }
    }
    out.retain(|x: &String| x != s);
    out
}

pub fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

/// Independent strict JSON recogniser/parser (RFC 8259 grammar, UTF-8 text).
/// Returns the value and the number of bytes consumed.
pub struct P<'a> {
    b: &'a [u8],
    i: usize,
}
pub fn parse(text: &str) -> Result<J, String> {
    let (j, n) = parse_prefix(text.as_bytes())?;
    if text.as_bytes()[n..].iter().all(|c| b" \t\r\n".contains(c)) {
        Ok(j)
    } else {
        Err("trailing".into())
    }
}
pub fn parse_prefix(b: &[u8]) -> Result<(J, usize), String> {
    let mut p = P { b, i: 0 };
    p.ws();
    let j = p.val(0)?;
    Ok((j, p.i))
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && b" \t\r\n".contains(&self.b[self.i]) {
            self.i += 1;
        }
    }
    fn lit(&mut self, s: &str, j: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(j)
        } else {
            Err("literal".into())
        }
    }
    fn val(&mut self, d: usize) -> Result<J, String> {
        if d > 2000 {
            return Err("depth".into());
        }
        match self.b.get(self.i) {
            None => Err("eof".into()),
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.val(d + 1)?);
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        None => return Err("eof".into()),
                        _ => return Err("array".into()),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.b.get(self.i) != Some(&b'"') {
                        return Err(if self.i >= self.b.len() { "eof" } else { "key" }.into());
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.b.get(self.i) != Some(&b':') {
                        return Err(if self.i >= self.b.len() { "eof" } else { "colon" }.into());
                    }
                    self.i += 1;
                    self.ws();
                    let x = self.val(d + 1)?;
                    v.push((k, x));
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        None => return Err("eof".into()),
                        _ => return Err("object".into()),
                    }
                }
            }
            Some(c) if *c == b'-' || c.is_ascii_digit() => {
                let s = self.i;
                if self.b[self.i] == b'-' {
                    self.i += 1;
                }
                let dig = |p: &mut Self| {
                    let a = p.i;
                    while p.i < p.b.len() && p.b[p.i].is_ascii_digit() {
                        p.i += 1;
                    }
                    p.i - a
                };
                let st = self.i;
                let n = dig(self);
                if n == 0 || (n > 1 && self.b[st] == b'0') {
                    return Err("number".into());
                }
                if self.b.get(self.i) == Some(&b'.') {
                    self.i += 1;
                    if dig(self) == 0 {
                        return Err("number".into());
                    }
                }
                if matches!(self.b.get(self.i), Some(b'e' | b'E')) {
                    self.i += 1;
                    if matches!(self.b.get(self.i), Some(b'+' | b'-')) {
                        self.i += 1;
                    }
                    if dig(self) == 0 {
                        return Err("number".into());
                    }
                }
                Ok(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
            }
            _ => Err("unexpected".into()),
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let mut v = 0;
        for _ in 0..4 {
            let c = *self.b.get(self.i).ok_or("eof")?;
            v = v * 16 + (c as char).to_digit(16).ok_or("hex")?;
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i).ok_or("eof")?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|_| "utf8".into()),
                b'\\' => {
                    let e = *self.b.get(self.i).ok_or("eof")?;
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => out.push(e),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'u' => {
                            let h = self.hex4()?;
                            let cp = if (0xD800..0xDC00).contains(&h) {
                                if self.b.get(self.i) == Some(&b'\\') && self.b.get(self.i + 1) == Some(&b'u') {
                                    self.i += 2;
                                    let l = self.hex4()?;
                                    if !(0xDC00..0xE000).contains(&l) {
                                        return Err("lone surrogate".into());
                                    }
                                    0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00)
                                } else if self.i >= self.b.len() {
                                    return Err("eof".into());
                                } else {
                                    return Err("lone surrogate".into());
                                }
                            } else if (0xDC00..0xE000).contains(&h) {
                                return Err("lone surrogate".into());
                            } else {
                                h
                            };
                            let mut buf = [0; 4];
                            out.extend(char::from_u32(cp).unwrap().encode_utf8(&mut buf).bytes());
                        }
                        _ => return Err("escape".into()),
                    }
                }
                c if c < 0x20 => return Err("control".into()),
                c => out.push(c),
            }
        }
    }
}
