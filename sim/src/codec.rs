//! An independent CESR codec, written from the code tables: the oracle for everything on the wire.
//! The binary form of an item is by definition the base64 decoding of its text form.

pub const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn enc(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 / 3 + 4);
    for ch in b.chunks(3) {
        let mut v = 0u32;
        for i in 0..3 {
            v = (v << 8) | *ch.get(i).unwrap_or(&0) as u32;
        }
        for i in 0..=ch.len() {
            s.push(B64[(v >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    s
}

pub fn sextet(c: u8) -> Option<u8> {
    B64.iter().position(|x| *x == c).map(|i| i as u8)
}

/// decode unpadded text whose length is a multiple of 4
pub fn dec(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    for ch in s.chunks(4) {
        let mut v = 0u32;
        for c in ch {
            v = (v << 6) | sextet(*c)? as u32;
        }
        out.extend_from_slice(&v.to_be_bytes()[1..]);
    }
    Some(out)
}

pub fn int64(n: u64, len: usize) -> String {
    let mut v = vec![b'A'; len];
    let mut n = n;
    for c in v.iter_mut().rev() {
        *c = B64[(n & 63) as usize];
        n >>= 6;
    }
    String::from_utf8(v).unwrap()
}

/// (code, hard, soft, full size, lead, full size 0: variable)
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Row {
    pub code: &'static str,
    pub ss: usize,
    pub fs: usize,
    pub ls: usize,
    pub os: usize,
}

const fn m(code: &'static str, fs: usize, ls: usize) -> Row {
    Row { code, ss: 0, fs, ls, os: 0 }
}
const fn v(code: &'static str, ss: usize, ls: usize) -> Row {
    Row { code, ss, fs: 0, ls, os: 0 }
}
const fn x(code: &'static str, ss: usize, os: usize, fs: usize, ls: usize) -> Row {
    Row { code, ss, fs, ls, os }
}

pub const MATTER: &[Row] = &[
    m("A", 44, 0), m("B", 44, 0), m("C", 44, 0), m("D", 44, 0), m("E", 44, 0), m("F", 44, 0), m("G", 44, 0),
    m("H", 44, 0), m("I", 44, 0), m("J", 44, 0), m("K", 76, 0), m("L", 76, 0), m("M", 4, 0), m("N", 12, 0),
    m("O", 44, 0), m("P", 124, 0), m("Q", 44, 0), m("0A", 24, 0), m("0B", 88, 0), m("0C", 88, 0), m("0D", 88, 0),
    m("0E", 88, 0), m("0F", 88, 0), m("0G", 88, 0), m("0H", 8, 0), m("0I", 88, 0), m("1AAA", 48, 0),
    m("1AAB", 48, 0), m("1AAC", 80, 0), m("1AAD", 80, 0), m("1AAE", 56, 0), m("1AAF", 8, 0), m("1AAG", 36, 0),
    m("1AAH", 100, 0), m("1AAI", 48, 0), m("1AAJ", 48, 0), m("2AAA", 8, 1), m("3AAA", 8, 2),
    v("4A", 2, 0), v("5A", 2, 1), v("6A", 2, 2), v("7AAA", 4, 0), v("8AAA", 4, 1), v("9AAA", 4, 2),
    v("4B", 2, 0), v("5B", 2, 1), v("6B", 2, 2), v("7AAB", 4, 0), v("8AAB", 4, 1), v("9AAB", 4, 2),
];

pub const INDEXER: &[Row] = &[
    x("A", 1, 0, 88, 0), x("B", 1, 0, 88, 0), x("C", 1, 0, 88, 0), x("D", 1, 0, 88, 0), x("E", 1, 0, 88, 0),
    x("F", 1, 0, 88, 0), x("0A", 2, 1, 156, 0), x("0B", 2, 1, 156, 0), x("2A", 4, 2, 92, 0), x("2B", 4, 2, 92, 0),
    x("2C", 4, 2, 92, 0), x("2D", 4, 2, 92, 0), x("2E", 4, 2, 92, 0), x("2F", 4, 2, 92, 0), x("3A", 6, 3, 160, 0),
    x("3B", 6, 3, 160, 0),
];

pub const COUNTER: &[Row] = &[
    v("-A", 2, 0), v("-B", 2, 0), v("-C", 2, 0), v("-D", 2, 0), v("-E", 2, 0), v("-F", 2, 0), v("-G", 2, 0),
    v("-H", 2, 0), v("-I", 2, 0), v("-J", 2, 0), v("-K", 2, 0), v("-L", 2, 0), v("-V", 2, 0), v("-0V", 5, 0),
    v("--AAA", 3, 0),
];

pub fn row(t: &'static [Row], code: &str) -> Option<&'static Row> {
    t.iter().find(|r| r.code == code)
}

impl Row {
    pub fn var(&self) -> bool {
        self.fs == 0
    }
    pub fn cs(&self) -> usize {
        self.code.len() + self.ss
    }
    /// raw size of a fixed code
    pub fn raw(&self) -> usize {
        (self.fs - self.cs()) * 3 / 4 - self.ls
    }
}

fn body(cs: usize, ls: usize, raw: &[u8]) -> String {
    let ps = cs % 4;
    let mut b = vec![0u8; ps + ls];
    b.extend_from_slice(raw);
    enc(&b)[ps..].to_string()
}

/// Text form of a non indexed primitive. The code of a variable one says the family, the size picks it
pub fn matter_text(code: &str, raw: &[u8]) -> (String, String) {
    let r = row(MATTER, code).expect("code");
    if r.var() {
        let ls = (3 - raw.len() % 3) % 3;
        let size = (raw.len() + ls) / 3;
        let small = "456".contains(&code[..1]);
        let kind = &code[code.len() - 1..];
        let code = if small && size < 4096 {
            format!("{}{kind}", ["4", "5", "6"][ls])
        } else {
            format!("{}AA{kind}", ["7", "8", "9"][ls])
        };
        let ss = if code.len() == 2 { 2 } else { 4 };
        let t = format!("{code}{}{}", int64(size as u64, ss), body(0, ls, raw));
        (code, t)
    } else {
        (code.to_string(), format!("{code}{}", body(r.cs(), r.ls, raw)))
    }
}

/// Text form of an indexed signature
pub fn indexer_text(code: &str, index: u32, ondex: u32, raw: &[u8]) -> String {
    let r = row(INDEXER, code).expect("code");
    let ms = r.ss - r.os;
    let od = if r.os > 0 { int64(ondex as u64, r.os) } else { String::new() };
    format!("{code}{}{od}{}", int64(index as u64, ms), body(r.cs(), r.ls, raw))
}

pub fn counter_text(code: &str, count: u32) -> String {
    let r = row(COUNTER, code).expect("code");
    format!("{code}{}", int64(count as u64, r.ss))
}

pub fn binary(text: &str) -> Vec<u8> {
    dec(text.as_bytes()).expect("text form is whole quadlets")
}

/// Text that is base64 characters only -> (code, raw)
pub fn bext_raw(text: &str) -> (String, Vec<u8>) {
    let ws = (4 - text.len() % 4) % 4;
    let ls = (3 - text.len() % 4) % 3;
    let raw = dec(format!("{}{text}", "A".repeat(ws)).as_bytes()).expect("base64")[ls..].to_vec();
    ("4A".to_string(), raw)
}

/// ISO-8601 text of 32 characters <-> its 24 raw bytes
pub fn dts_raw(dts: &str) -> Vec<u8> {
    let t: String = dts.chars().map(|c| match c { ':' => 'c', '.' => 'd', '+' => 'p', c => c }).collect();
    dec(t.as_bytes()).expect("date")
}
pub fn raw_dts(raw: &[u8]) -> String {
    enc(raw).chars().map(|c| match c { 'c' => ':', 'd' => '.', 'p' => '+', c => c }).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub code: String,
    pub len: usize,
    pub index: u32,
    pub ondex: u32,
    pub count: u32,
    pub raw: Vec<u8>,
}

fn num(b: &[u8]) -> Option<u64> {
    let mut n = 0u64;
    for c in b {
        n = (n << 6) | sextet(*c)? as u64;
    }
    Some(n)
}

/// Read one item of the given table from the head of a text stream
pub fn read(table: &'static [Row], s: &[u8]) -> Option<Tok> {
    let r = table.iter().find(|r| s.starts_with(r.code.as_bytes()))?;
    let cs = r.cs();
    if s.len() < cs {
        return None;
    }
    let ms = r.ss - r.os;
    let h = r.code.len();
    let a = num(&s[h..h + ms])?;
    let b = num(&s[h + ms..cs])?;
    let is_counter = r.code.starts_with('-');
    let fs = if is_counter { cs } else if r.var() { cs + 4 * a as usize } else { r.fs };
    if s.len() < fs {
        return None;
    }
    let raw = if is_counter {
        vec![]
    } else {
        let ps = cs % 4;
        let mut t = vec![b'A'; ps];
        t.extend_from_slice(&s[cs..fs]);
        let d = dec(&t)?;
        if d.len() < ps + r.ls || d[..ps + r.ls].iter().any(|x| *x != 0) {
            return None;
        }
        d[ps + r.ls..].to_vec()
    };
    Some(Tok { code: r.code.to_string(), len: fs, index: a as u32, ondex: b as u32, count: a as u32, raw })
}
