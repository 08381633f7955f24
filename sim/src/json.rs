//! Minimal JSON: cases, replays and results. Strings carry bytes as latin-1
//! (code points 0..=255), so arbitrary file names survive a round trip.
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Int(i64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

static NULL: J = J::Null;

pub fn b2s(b: &[u8]) -> String { b.iter().map(|&x| x as char).collect() }
pub fn s2b(s: &str) -> Vec<u8> { s.chars().map(|c| c as u32 as u8).collect() }

/// A node of type "w" stands for `s` nodes side by side (files, links and
/// empty directories in turn if `o` says so), too many to be listed in a case.
pub fn wide_kids(w: &J) -> Vec<J> {
    let name = w.get("n").bytes();
    (0..w.get("s").int().clamp(0, 70_000)).map(|i| {
        let mut nm = name.clone(); nm.extend_from_slice(i.to_string().as_bytes());
        let n = J::obj().with("n", J::b(&nm));
        match (w.get("o").str(), i % 3) {
            ("mix", 1) | ("dirs", _) => n.with("t", J::s("d")).with("k", J::arr()),
            ("mix", 2) | ("links", _) => n.with("t", J::s("l")).with("to", J::s("x")),
            _ => n.with("t", J::s("f")).with("s", J::i(i % 2)).with("c", J::i(i + 1)),
        }
    }).collect()
}

impl J {
    pub fn obj() -> J { J::Obj(Vec::new()) }
    pub fn arr() -> J { J::Arr(Vec::new()) }
    pub fn s(x: &str) -> J { J::Str(x.to_string()) }
    pub fn b(x: &[u8]) -> J { J::Str(b2s(x)) }
    pub fn i(x: i64) -> J { J::Int(x) }
    pub fn with(mut self, k: &str, v: J) -> J { self.set(k, v); self }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            for e in o.iter_mut() { if e.0 == k { e.1 = v; return; } }
            o.push((k.to_string(), v));
        }
    }
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(o) = self { for e in o { if e.0 == k { return &e.1; } } }
        &NULL
    }
    pub fn has(&self, k: &str) -> bool { !matches!(self.get(k), J::Null) }
    pub fn push(&mut self, v: J) { if let J::Arr(a) = self { a.push(v); } }
    pub fn items(&self) -> &[J] { if let J::Arr(a) = self { a } else { &[] } }
    pub fn at(&self, i: usize) -> &J { self.items().get(i).unwrap_or(&NULL) }
    pub fn int(&self) -> i64 { match self { J::Int(i) => *i, J::Bool(true) => 1, _ => 0 } }
    pub fn uint(&self) -> u64 { self.int().max(0) as u64 }
    pub fn int_or(&self, d: i64) -> i64 { if let J::Int(i) = self { *i } else { d } }
    pub fn bool(&self) -> bool { match self { J::Bool(b) => *b, J::Int(i) => *i != 0, _ => false } }
    pub fn str(&self) -> &str { if let J::Str(s) = self { s } else { "" } }
    pub fn bytes(&self) -> Vec<u8> { s2b(self.str()) }

    pub fn dump(&self) -> String { let mut s = String::new(); self.w(&mut s, None, 0); s }
    pub fn pretty(&self) -> String { let mut s = String::new(); self.w(&mut s, Some(1), 0); s.push('\n'); s }
    fn small(&self) -> bool { match self { J::Arr(a) => a.len() <= 4 && a.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_))),
        J::Obj(o) => o.len() <= 6 && o.iter().all(|x| !matches!(x.1, J::Arr(_) | J::Obj(_))), _ => true } }
    fn w(&self, out: &mut String, ind: Option<usize>, lvl: usize) {
        let ind2 = if self.small() { None } else { ind };
        let nl = |out: &mut String, l: usize| if let Some(n) = ind2 { out.push('\n'); for _ in 0..l * n { out.push(' '); } };
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""), '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) >= 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() { if i > 0 { out.push(','); } nl(out, lvl + 1); x.w(out, ind2, lvl + 1); }
                if !a.is_empty() { nl(out, lvl); }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 { out.push(','); } nl(out, lvl + 1);
                    J::Str(k.clone()).w(out, None, 0); out.push(':'); v.w(out, ind2, lvl + 1);
                }
                if !o.is_empty() { nl(out, lvl); }
                out.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let c: Vec<char> = s.chars().collect();
        let mut p = P { c, i: 0 };
        let v = p.val()?; p.ws();
        if p.i == p.c.len() { Some(v) } else { None }
    }
}

struct P { c: Vec<char>, i: usize }
impl P {
    fn ws(&mut self) { while self.i < self.c.len() && self.c[self.i].is_whitespace() { self.i += 1; } }
    fn eat(&mut self, ch: char) -> bool { self.ws(); if self.i < self.c.len() && self.c[self.i] == ch { self.i += 1; true } else { false } }
    fn lit(&mut self, s: &str, v: J) -> Option<J> {
        for ch in s.chars() { if *self.c.get(self.i)? != ch { return None; } self.i += 1; }
        Some(v)
    }
    fn val(&mut self) -> Option<J> {
        self.ws();
        match *self.c.get(self.i)? {
            'n' => self.lit("null", J::Null), 't' => self.lit("true", J::Bool(true)), 'f' => self.lit("false", J::Bool(false)),
            '"' => Some(J::Str(self.string()?)),
            '[' => { self.i += 1; let mut a = Vec::new(); if self.eat(']') { return Some(J::Arr(a)); }
                loop { a.push(self.val()?); if self.eat(']') { return Some(J::Arr(a)); } if !self.eat(',') { return None; } } }
            '{' => { self.i += 1; let mut o = Vec::new(); if self.eat('}') { return Some(J::Obj(o)); }
                loop { self.ws(); let k = self.string()?; if !self.eat(':') { return None; } let v = self.val()?; o.push((k, v));
                    if self.eat('}') { return Some(J::Obj(o)); } if !self.eat(',') { return None; } } }
            _ => { let st = self.i; while self.i < self.c.len() && (self.c[self.i] == '-' || self.c[self.i].is_ascii_digit()) { self.i += 1; }
                let s: String = self.c[st..self.i].iter().collect(); s.parse().ok().map(J::Int) }
        }
    }
    fn string(&mut self) -> Option<String> {
        if *self.c.get(self.i)? != '"' { return None; }
        self.i += 1;
        let mut s = String::new();
        loop {
            let ch = *self.c.get(self.i)?; self.i += 1;
            match ch {
                '"' => return Some(s),
                '\\' => { let e = *self.c.get(self.i)?; self.i += 1;
                    match e { 'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'), 'b' => s.push('\u{8}'), 'f' => s.push('\u{c}'),
                        'u' => { let h: String = self.c.get(self.i..self.i + 4)?.iter().collect(); self.i += 4; s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?) }
                        c => s.push(c) } }
                c => s.push(c),
            }
        }
    }
}
