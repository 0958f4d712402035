//! An independent JSON tree with the canonical compact form, and a strict reader.

use crate::ctx::Ctx;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// as written
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn strs<T: AsRef<str>>(xs: &[T]) -> J {
    J::Arr(xs.iter().map(|x| s(x.as_ref())).collect())
}
pub fn obj(f: Vec<(&str, J)>) -> J {
    J::Obj(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn ser_str(x: &str, out: &mut String) {
    out.push('"');
    for ch in x.chars() {
        match ch {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\u{8}' => out.push_str("\\b"),
            '\u{c}' => out.push_str("\\f"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

impl J {
    fn put(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => out.push_str(n),
            J::Str(x) => ser_str(x, out),
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.put(out);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    ser_str(k, out);
                    out.push(':');
                    x.put(out);
                }
                out.push('}');
            }
        }
    }
    /// the canonical text
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.put(&mut o);
        o
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self, k: &str) -> Option<&str> {
        match self.get(k) {
            Some(J::Str(x)) => Some(x),
            _ => None,
        }
    }
    pub fn list(&self, k: &str) -> Option<Vec<String>> {
        match self.get(k) {
            Some(J::Arr(a)) => a.iter().map(|x| if let J::Str(t) = x { Some(t.clone()) } else { None }).collect(),
            _ => None,
        }
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            match o.iter_mut().find(|(n, _)| n == k) {
                Some(x) => x.1 = v,
                None => o.push((k.to_string(), v)),
            }
        }
    }
    pub fn fields(&self) -> &[(String, J)] {
        match self {
            J::Obj(o) => o,
            _ => &[],
        }
    }
    pub fn fields_mut(&mut self) -> Option<&mut Vec<(String, J)>> {
        match self {
            J::Obj(o) => Some(o),
            _ => None,
        }
    }
    fn serde(&self) -> serde_json::Value {
        use serde_json::Value as V;
        match self {
            J::Null => V::Null,
            J::Bool(b) => V::Bool(*b),
            J::Num(n) => {
                if let Ok(i) = n.parse::<i64>() {
                    V::from(i)
                } else if let Ok(u) = n.parse::<u64>() {
                    V::from(u)
                } else {
                    V::from(n.parse::<f64>().unwrap())
                }
            }
            J::Str(x) => V::String(x.clone()),
            J::Arr(a) => V::Array(a.iter().map(|x| x.serde()).collect()),
            J::Obj(o) => V::Object(o.iter().map(|(k, v)| (k.clone(), v.serde())).collect()),
        }
    }
    /// what an application hands to the library
    pub fn value(&self) -> keride::data::Value {
        keride::data::Value::from(&self.serde())
    }
    /// same content: numbers by value, everything else as is
    pub fn same(&self, o: &J) -> bool {
        match (self, o) {
            (J::Num(a), J::Num(b)) => {
                a == b
                    || match (a.parse::<i128>(), b.parse::<i128>()) {
                        (Ok(x), Ok(y)) => x == y,
                        _ => a.parse::<f64>().ok() == b.parse::<f64>().ok(),
                    }
            }
            (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (J::Obj(a), J::Obj(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.same(&y.1))
            }
            _ => self == o,
        }
    }
    /// as same, where a later field of the same name replaces the value of an earlier one
    pub fn dedup(&self) -> J {
        match self {
            J::Arr(a) => J::Arr(a.iter().map(|x| x.dedup()).collect()),
            J::Obj(o) => {
                let mut out: Vec<(String, J)> = vec![];
                for (k, v) in o {
                    let v = v.dedup();
                    match out.iter_mut().find(|(n, _)| n == k) {
                        Some(x) => x.1 = v,
                        None => out.push((k.clone(), v)),
                    }
                }
                J::Obj(out)
            }
            x => x.clone(),
        }
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
}

pub fn parse(b: &[u8]) -> Option<J> {
    std::str::from_utf8(b).ok()?;
    let mut p = P { b, i: 0, depth: 0 };
    let v = p.val()?;
    p.ws();
    if p.i == b.len() {
        Some(v)
    } else {
        None
    }
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.b.get(self.i) == Some(&c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn lit(&mut self, t: &str, v: J) -> Option<J> {
        if self.b[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            Some(v)
        } else {
            None
        }
    }
    fn val(&mut self) -> Option<J> {
        self.ws();
        self.depth += 1;
        if self.depth > 120 {
            return None;
        }
        let r = match *self.b.get(self.i)? {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => Some(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                if self.eat(b']').is_none() {
                    loop {
                        a.push(self.val()?);
                        self.ws();
                        if self.eat(b',').is_some() {
                            continue;
                        }
                        self.eat(b']')?;
                        break;
                    }
                }
                Some(J::Arr(a))
            }
            b'{' => {
                self.i += 1;
                let mut o = vec![];
                self.ws();
                if self.eat(b'}').is_none() {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        self.eat(b':')?;
                        o.push((k, self.val()?));
                        self.ws();
                        if self.eat(b',').is_some() {
                            continue;
                        }
                        self.eat(b'}')?;
                        break;
                    }
                }
                Some(J::Obj(o))
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => None,
        };
        self.depth -= 1;
        r
    }
    fn digits(&mut self) -> Option<()> {
        let s = self.i;
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
            self.i += 1;
        }
        if self.i > s {
            Some(())
        } else {
            None
        }
    }
    fn number(&mut self) -> Option<J> {
        let s = self.i;
        let _ = self.eat(b'-');
        if self.eat(b'0').is_none() {
            self.digits()?;
        }
        if self.eat(b'.').is_some() {
            self.digits()?;
        }
        if self.eat(b'e').is_some() || self.eat(b'E').is_some() {
            if self.eat(b'+').is_none() {
                let _ = self.eat(b'-');
            }
            self.digits()?;
        }
        Some(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).ok()?))
    }
    fn hex4(&mut self) -> Option<u32> {
        let t = std::str::from_utf8(self.b.get(self.i..self.i + 4)?).ok()?;
        if !t.bytes().all(|c| c.is_ascii_hexdigit()) {
            return None;
        }
        self.i += 4;
        u32::from_str_radix(t, 16).ok()
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).ok(),
                b'\\' => {
                    let e = *self.b.get(self.i)?;
                    self.i += 1;
                    let ch = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let lo = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&lo) {
                                    return None;
                                }
                                u = 0x10000 + ((u - 0xd800) << 10) + (lo - 0xdc00);
                            }
                            char::from_u32(u)?
                        }
                        _ => return None,
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                c if c < 0x20 => return None,
                c => out.push(c),
            }
        }
    }
}

pub const WORDS: &[&str] = &[
    "", "a", "icp", "KERI10JSON0000fb_", "ACDC10JSONffffff_", "\"", "\\", "a\"b\\c", "\n", "\t\r\u{8}\u{c}", "\u{0}",
    "\u{1f}", "\u{7f}", "é", "世界", "😀", "\u{2028}", "/", "</script>", "{\"v\":\"KERI10JSON000000_\"}", "-AAB",
    "############################################", "e\u{301}", "\u{feff}", "0", "null", " ", "%s", "$ident",
];

pub fn gen_str(c: &mut Ctx) -> String {
    match c.src.weighted(&[5, 4, 2, 1]) {
        0 => c.src.pick(WORDS).to_string(),
        1 => {
            let n = c.src.small(44) as usize;
            crate::items::gen_b64(c, n)
        }
        2 => {
            let n = c.src.small(30) as usize;
            (0..n)
                .map(|_| {
                    let k = match c.src.below(5) {
                        0 => c.src.below(0x80),
                        1 => c.src.below(0x800),
                        2 => c.src.below(0xd800),
                        3 => 0xe000 + c.src.below(0x2000),
                        _ => 0x10000 + c.src.below(0x100000),
                    };
                    char::from_u32(k as u32).unwrap_or('x')
                })
                .collect()
        }
        _ => {
            let w = c.src.pick(WORDS).to_string();
            let n = c.src.small(300) as usize;
            w.repeat(n)
        }
    }
}

pub fn gen_num(c: &mut Ctx) -> String {
    match c.src.weighted(&[12, 6, 4, 4, 1]) {
        0 => format!("{}", c.src.small(1000) as i64 * if c.src.chance(1, 3) { -1 } else { 1 }),
        1 => {
            let v = c.src.u64() >> c.src.below(64);
            format!("{v}")
        }
        2 => format!("{}", *c.src.pick(&[i64::MIN, i64::MAX, -1, 1 << 53, (1 << 53) + 1, u32::MAX as i64, i32::MIN as i64])),
        4 => {
            // floats that every implementation writes the same way and that a parser which
            // multiplies once by an exact power of ten (10^22 at most) reads exactly
            let sign = if c.src.chance(1, 3) { "-" } else { "" };
            if c.src.chance(1, 4) {
                return format!("{sign}{}.0", c.src.below(1_000_000_000));
            }
            let d = c.src.range(1, 9);
            let mut f = match c.src.below(3) {
                0 => String::new(),
                1 => format!("{:02}", c.src.below(100)),
                _ => format!("{:012}", c.src.below(1_000_000_000_000)),
            };
            while f.ends_with('0') {
                f.pop();
            }
            let n = f.len() as u64;
            let dot = if f.is_empty() { "" } else { "." };
            if c.src.chance(1, 2) {
                format!("{sign}{d}{dot}{f}e+{}", c.src.range(16, 22 + n))
            } else {
                format!("{sign}{d}{dot}{f}e-{}", c.src.range(10, 22 - n))
            }
        }
        _ => {
            // decimal fractions that every implementation writes the same way
            let a = c.src.below(1_000_000) as i64;
            let d = c.src.range(1, 999) as i64;
            let mut f = format!("{d:03}");
            while f.ends_with('0') {
                f.pop();
            }
            format!("{}{a}.{f}", if c.src.chance(1, 3) { "-" } else { "" })
        }
    }
}

pub fn gen_json(c: &mut Ctx, depth: usize) -> J {
    let w: &[u64] = if depth == 0 { &[6, 1, 1, 3] } else { &[6, 1, 1, 3, 2, 3] };
    match c.src.weighted(w) {
        0 => J::Str(gen_str(c)),
        1 => J::Null,
        2 => J::Bool(c.src.chance(1, 2)),
        3 => J::Num(gen_num(c)),
        4 => {
            let n = c.src.small(5) as usize;
            J::Arr((0..n).map(|_| gen_json(c, depth - 1)).collect())
        }
        _ => {
            let n = c.src.small(5) as usize;
            gen_obj(c, n, depth - 1, &[])
        }
    }
}

/// an object with n distinct labels, none of the given ones
pub fn gen_obj(c: &mut Ctx, n: usize, depth: usize, not: &[&str]) -> J {
    let mut o: Vec<(String, J)> = vec![];
    for _ in 0..n {
        c.src.begin();
        let k = if c.src.chance(3, 4) {
            c.src.pick(&["x", "y", "z", "name", "LEI", "qb64", "u", "dt", "r", "q", "role", "num", "0", "1", "10", "A"]).to_string()
        } else {
            gen_str(c)
        };
        if !not.contains(&k.as_str()) && !o.iter().any(|(x, _)| *x == k) {
            let v = gen_json(c, depth);
            o.push((k, v));
        }
        c.src.end();
    }
    J::Obj(o)
}
