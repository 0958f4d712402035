//! Items that travel on streams: what they mean, how the code under test builds and reads them.

use crate::codec::*;
use crate::ctx::{hex, Ctx, R};
use keride::cesr::{
    Bext, Bexter, Cigar, Counter, Dater, Diger, Indexer, Matter, Number, Saider, Salter, Seqner, Siger, Verfer,
};
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use keride::signing::Signer;

/// Any matter code at all, through the codec of the library
#[derive(Debug, Clone, PartialEq)]
pub struct AnyM {
    raw: Vec<u8>,
    code: String,
    size: u32,
}
impl Default for AnyM {
    fn default() -> Self {
        AnyM { raw: vec![], code: "E".into(), size: 0 }
    }
}
impl Matter for AnyM {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn size(&self) -> u32 {
        self.size
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string();
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
    fn set_size(&mut self, size: u32) {
        self.size = size;
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct AnyI {
    raw: Vec<u8>,
    code: String,
    index: u32,
    ondex: u32,
}
impl Default for AnyI {
    fn default() -> Self {
        AnyI { raw: vec![], code: "A".into(), index: 0, ondex: 0 }
    }
}
impl Indexer for AnyI {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn index(&self) -> u32 {
        self.index
    }
    fn ondex(&self) -> u32 {
        self.ondex
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string();
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
    fn set_index(&mut self, i: u32) {
        self.index = i;
    }
    fn set_ondex(&mut self, i: u32) {
        self.ondex = i;
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Cls {
    Any,
    AnyIdx,
    Count,
    Verfer,
    Diger,
    Cigar,
    Siger,
    Signer,
    Salter,
    Number,
    Seqner,
    Dater,
    Bexter,
    Pather,
    Prefixer,
    Saider,
}
pub use Cls::*;

pub const ALL: &[Cls] = &[
    Any, AnyIdx, Count, Verfer, Diger, Cigar, Siger, Signer, Salter, Number, Seqner, Dater, Bexter, Pather, Prefixer,
    Saider,
];

pub const DIGS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
pub const KEYS: &[&str] = &["D", "B", "1AAA", "1AAB", "1AAI", "1AAJ"];
pub const SIGS: &[&str] = &["0B", "0C", "0I"];
pub const SEEDS: &[&str] = &["A", "J", "Q"];
pub const IDX: &[&str] = &["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"];
pub const IDX_CRT: &[&str] = &["B", "D", "F", "0B", "2B", "2D", "2F", "3B"];
pub const NUMS: &[&str] = &["M", "0H", "N", "0A"];
pub const BEXTS: &[&str] = &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"];

/// the codes a type accepts
pub fn codes_of(cls: Cls) -> Vec<&'static str> {
    match cls {
        Any => MATTER.iter().map(|r| r.code).collect(),
        AnyIdx => INDEXER.iter().map(|r| r.code).collect(),
        Count => COUNTER.iter().map(|r| r.code).collect(),
        Verfer => KEYS.to_vec(),
        Diger | Saider => DIGS.to_vec(),
        Cigar => SIGS.to_vec(),
        Siger => IDX.to_vec(),
        Signer => SEEDS.to_vec(),
        Salter | Seqner => vec!["0A"],
        Number => NUMS.to_vec(),
        Dater => vec!["1AAG"],
        Bexter | Pather => BEXTS.to_vec(),
        Prefixer => KEYS.iter().chain(DIGS).copied().collect(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub cls: Cls,
    pub code: String,
    pub raw: Vec<u8>,
    pub index: u32,
    pub ondex: u32,
    pub count: u32,
    /// number, text, time, flags: what the type says beyond code and raw
    pub meaning: String,
    pub text: String,
}

impl Item {
    pub fn bin(&self) -> Vec<u8> {
        binary(&self.text)
    }
    pub fn brief(&self) -> String {
        format!("{:?}({}{})", self.cls, &self.text[..self.text.len().min(24)], if self.text.len() > 24 { "..." } else { "" })
    }
}

/// What the code under test says about an item it read or made
#[derive(Clone, Debug, PartialEq)]
pub struct Got {
    pub code: String,
    pub raw: Vec<u8>,
    pub index: u32,
    pub ondex: u32,
    pub count: u32,
    pub meaning: String,
    pub text: String,
    pub textb: Vec<u8>,
    pub bin: Vec<u8>,
    pub len: usize,
}

fn seed_raw(c: &mut Ctx) -> Vec<u8> {
    let mut b = c.src.blob(32);
    // stay inside the order of both curves
    if b[0] == 0xff {
        b[0] = 0x7f;
    }
    if b.iter().all(|x| *x == 0) {
        b[31] = 1;
    }
    b
}

fn edge_number(c: &mut Ctx) -> u128 {
    let k = *c.src.pick(&[0u32, 8, 16, 24, 32, 40, 48, 56, 64, 65, 96, 127]);
    match c.src.weighted(&[2, 2, 3, 3]) {
        0 => c.src.small(300) as u128,
        1 => u128::MAX >> (127 - k).min(127),
        2 => (1u128 << k).wrapping_sub(c.src.below(2) as u128),
        _ => {
            let v = ((c.src.u64() as u128) << 64) | c.src.u64() as u128;
            v >> c.src.below(128)
        }
    }
}

pub fn gen_dts(c: &mut Ctx) -> String {
    let y = c.src.range(0, 9999);
    let (mo, d) = (c.src.range(1, 12), c.src.range(1, 28));
    let (h, mi, s) = (c.src.below(24), c.src.below(60), c.src.below(60));
    let us = match c.src.below(4) {
        0 => 0,
        1 => 999_999,
        2 => c.src.below(10),
        _ => c.src.below(1_000_000),
    };
    let sign = if c.src.chance(1, 4) { '-' } else { '+' };
    let (oh, om) = if c.src.chance(1, 3) { (c.src.below(15), *c.src.pick(&[0u64, 15, 30, 45])) } else { (0, 0) };
    format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}.{us:06}{sign}{oh:02}:{om:02}")
}

pub fn gen_b64(c: &mut Ctx, n: usize) -> String {
    let s = c.src.u64();
    let mut r = crate::src::Rng(s);
    (0..n).map(|_| B64[(r.next() >> 20) as usize & 63] as char).collect()
}

/// One item of the class, from its meaning; the expected text comes from the independent codec
pub fn gen(c: &mut Ctx, cls: Cls) -> Item {
    let codes = codes_of(cls);
    let mut it = Item {
        cls,
        code: String::new(),
        raw: vec![],
        index: 0,
        ondex: 0,
        count: 0,
        meaning: String::new(),
        text: String::new(),
    };
    match cls {
        Count => {
            let code = *c.src.pick(&codes);
            let r = row(COUNTER, code).unwrap();
            let max = 64u64.pow(r.ss as u32) - 1;
            it.count = match c.src.below(4) {
                0 => c.src.small(max),
                1 => max,
                2 => {
                    let k = c.src.below(r.ss as u64 + 1) as u32;
                    (64u64.pow(k) - 1).min(max)
                }
                _ => c.src.below(max + 1),
            } as u32;
            it.code = code.into();
            it.text = counter_text(code, it.count);
            it.meaning = int64(it.count as u64, r.ss);
        }
        Siger | AnyIdx => {
            let code = *c.src.pick(&codes);
            let r = row(INDEXER, code).unwrap();
            let ms = r.ss - r.os;
            let max = 64u64.pow(ms as u32) - 1;
            it.index = match c.src.below(3) {
                0 => c.src.small(max),
                1 => max,
                _ => c.src.below(max + 1),
            } as u32;
            let omax = 64u64.pow(r.os as u32) - 1;
            it.ondex = if IDX_CRT.contains(&code) {
                0
            } else if r.os == 0 {
                it.index
            } else {
                match c.src.below(3) {
                    0 => c.src.small(omax),
                    1 => omax,
                    _ => c.src.below(omax + 1),
                }
                .min(omax) as u32
            };
            it.raw = c.src.blob(r.raw());
            it.code = code.into();
            it.text = indexer_text(code, it.index, it.ondex, &it.raw);
        }
        Number => {
            let n = edge_number(c);
            let size = if n < 1 << 16 {
                ("M", 2)
            } else if n < 1 << 32 {
                ("0H", 4)
            } else if n < 1 << 64 {
                ("N", 8)
            } else {
                ("0A", 16)
            };
            it.raw = n.to_be_bytes()[16 - size.1..].to_vec();
            it.code = size.0.into();
            it.meaning = format!("{n} {n:x} {}", n > 0);
            it.text = matter_text(&it.code, &it.raw).1;
        }
        Seqner => {
            let n = edge_number(c);
            it.raw = n.to_be_bytes().to_vec();
            it.code = "0A".into();
            it.meaning = format!("{n} {n:x}");
            it.text = matter_text("0A", &it.raw).1;
        }
        Dater => {
            let d = gen_dts(c);
            it.raw = dts_raw(&d);
            it.code = "1AAG".into();
            it.text = matter_text("1AAG", &it.raw).1;
            it.meaning = d;
        }
        Bexter | Pather => {
            let mut t = if cls == Bexter {
                let n = match c.src.below(8) {
                    0 => c.src.below(5) as usize,
                    7 if c.src.chance(1, 12) => 16380 + c.src.below(12) as usize,
                    _ => c.src.small(120) as usize,
                };
                gen_b64(c, n)
            } else {
                let n = c.src.small(6) as usize;
                let mut s = String::from("-");
                for i in 0..n {
                    if i > 0 {
                        s.push('-');
                    }
                    let k = 1 + c.src.small(10) as usize;
                    s.push_str(&gen_b64(c, k).replace('-', "a"));
                }
                s
            };
            // a leading A of whole quadlets cannot be told from padding (see KNOWN_FINDINGS)
            if t.starts_with('A') && t.len() % 4 == 0 {
                t.replace_range(0..1, "B");
            }
            let (_, raw) = bext_raw(&t);
            let (code, text) = matter_text("4A", &raw);
            it.raw = raw;
            it.code = code;
            it.text = text;
            it.meaning = t;
        }
        Signer => {
            let code = *c.src.pick(&codes);
            it.raw = seed_raw(c);
            it.code = code.into();
            it.text = matter_text(code, &it.raw).1;
            it.meaning = format!("t={}", c.src.chance(1, 2));
        }
        Any => {
            let code = *c.src.pick(&codes);
            let r = row(MATTER, code).unwrap();
            let n = if r.var() {
                match c.src.below(8) {
                    0 => c.src.below(4) as usize,
                    7 if c.src.chance(1, 12) => 12284 + c.src.below(6) as usize,
                    _ => c.src.small(200) as usize,
                }
            } else {
                r.raw()
            };
            it.raw = c.src.blob(n);
            let (code, text) = matter_text(code, &it.raw);
            it.code = code;
            it.text = text;
        }
        _ => {
            let code = *c.src.pick(&codes);
            let r = row(MATTER, code).unwrap();
            it.raw = c.src.blob(r.raw());
            it.code = code.into();
            it.text = matter_text(code, &it.raw).1;
            it.meaning = match cls {
                Verfer | Prefixer => format!("t={}", !["B", "1AAA", "1AAI", "1AAC"].contains(&code)),
                _ => String::new(),
            };
        }
    }
    it
}

type E = String;
/// begins an error that says that more is needed
pub const SHORT: &str = "[short] ";

pub fn esh<T>(r: keride::error::Result<T>) -> Result<T, E> {
    use keride::error::Error;
    r.map_err(|e| match e.downcast_ref::<Error>() {
        Some(Error::Shortage(_) | Error::TooSmall(_)) => format!("{SHORT}{e}"),
        _ => e.to_string(),
    })
}

fn of_matter<M: Matter>(m: &M, meaning: String) -> Result<Got, E> {
    Ok(Got {
        code: m.code(),
        raw: m.raw(),
        index: 0,
        ondex: 0,
        count: 0,
        meaning,
        text: esh(m.qb64())?,
        textb: esh(m.qb64b())?,
        bin: esh(m.qb2())?,
        len: esh(m.full_size())?,
    })
}

fn of_indexer<M: Indexer>(m: &M) -> Result<Got, E> {
    Ok(Got {
        code: m.code(),
        raw: m.raw(),
        index: m.index(),
        ondex: m.ondex(),
        count: 0,
        meaning: String::new(),
        text: esh(m.qb64())?,
        textb: esh(m.qb64b())?,
        bin: esh(m.qb2())?,
        len: esh(m.full_size())?,
    })
}

fn of_counter(m: &Counter) -> Result<Got, E> {
    Ok(Got {
        code: m.code(),
        raw: vec![],
        index: 0,
        ondex: 0,
        count: m.count(),
        meaning: esh(m.count_as_b64(0))?,
        text: esh(m.qb64())?,
        textb: esh(m.qb64b())?,
        bin: esh(m.qb2())?,
        len: esh(m.full_size())?,
    })
}

fn t_of<M: Matter>(m: &M) -> String {
    format!("t={}", m.transferable())
}

/// Make the item from what it means, as its owner does
pub fn build(c: &mut Ctx, it: &Item) -> R<Result<Got, E>> {
    let raw = it.raw.as_slice();
    let code = it.code.as_str();
    let name: &'static str = "construct";
    // half of the time from meaning, half of the time from code and raw
    let alt = c.src.chance(1, 2);
    c.call(name, || -> Result<Got, E> {
        match it.cls {
            Any => of_matter(&esh(<AnyM as Matter>::new(Some(code), Some(raw), None, None, None))?, "".into()),
            AnyIdx => {
                let on = if IDX_CRT.contains(&code) { None } else { Some(it.ondex) };
                of_indexer(&esh(<AnyI as Indexer>::new(Some(it.index), on, Some(code), Some(raw), None, None, None))?)
            }
            Count => {
                let k = if alt {
                    esh(keride::cesr::Counter::new(None, Some(&it.meaning), Some(code), None, None, None))?
                } else {
                    esh(keride::cesr::Counter::new_with_code_and_count(code, it.count))?
                };
                of_counter(&k)
            }
            Verfer => {
                let v = esh(keride::cesr::Verfer::new_with_raw(raw, Some(code)))?;
                of_matter(&v, t_of(&v))
            }
            Diger => of_matter(&esh(keride::cesr::Diger::new_with_raw(raw, Some(code)))?, "".into()),
            Saider => of_matter(&esh(keride::cesr::Saider::new_with_raw(raw, Some(code)))?, "".into()),
            Cigar => of_matter(&esh(keride::cesr::Cigar::new_with_raw(raw, None, Some(code)))?, "".into()),
            Siger => {
                let on = if IDX_CRT.contains(&code) { None } else { Some(it.ondex) };
                of_indexer(&esh(keride::cesr::Siger::new_with_raw(raw, None, Some(it.index), on, Some(code)))?)
            }
            Signer => {
                let t = it.meaning == "t=true";
                let s = esh(keride::signing::Signer::new_with_raw(raw, Some(t), Some(code)))?;
                of_matter(&s, t_of(&s.verfer()))
            }
            Salter => of_matter(&esh(keride::cesr::Salter::new_with_raw(raw, Some(code), None))?, "".into()),
            Number => {
                let n: u128 = it.meaning.split(' ').next().unwrap().parse().unwrap();
                let x = if alt && n == 0 {
                    esh(keride::cesr::Number::new(None, None, None, None, None, None, None))?
                } else if alt {
                    esh(keride::cesr::Number::new_with_numh(&format!("{n:x}")))?
                } else {
                    esh(keride::cesr::Number::new_with_num(n))?
                };
                of_matter(&x, format!("{} {} {}", esh(x.num())?, esh(x.numh())?, esh(x.positive())?))
            }
            Seqner => {
                let n: u128 = it.meaning.split(' ').next().unwrap().parse().unwrap();
                let x = if alt && n == 0 {
                    esh(keride::cesr::Seqner::new(None, None, None, None, None, None, None))?
                } else if alt {
                    esh(keride::cesr::Seqner::new_with_snh(&format!("{n:x}")))?
                } else {
                    esh(keride::cesr::Seqner::new_with_sn(n))?
                };
                of_matter(&x, format!("{} {}", esh(x.sn())?, esh(x.snh())?))
            }
            Dater => {
                let d = if alt {
                    esh(keride::cesr::Dater::new_with_raw(raw, Some(code)))?
                } else {
                    esh(keride::cesr::Dater::new_with_dts(&it.meaning, None))?
                };
                of_matter(&d, esh(d.dts())?)
            }
            Bexter => {
                let b = if alt {
                    esh(keride::cesr::Bexter::new_with_raw(raw, Some(code)))?
                } else {
                    esh(keride::cesr::Bexter::new_with_bext(&it.meaning))?
                };
                of_matter(&b, esh(b.bext())?)
            }
            Pather => {
                let b = if alt {
                    esh(keride::pathing::pather::Pather::new_with_raw(raw, Some(code)))?
                } else {
                    esh(keride::pathing::pather::Pather::new_with_bext(&it.meaning))?
                };
                of_matter(&b, esh(b.bext())?)
            }
            Prefixer => {
                let p = esh(keride::prefexing::prefixer::Prefixer::new_with_raw(raw, Some(code)))?;
                of_matter(&p, t_of(&p))
            }
        }
    })
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Form {
    Text,
    Bytes,
    Bin,
}

macro_rules! by_form {
    ($t:ty, $form:expr, $b:expr $(, $x:expr)*) => {{
        match $form {
            Form::Text => esh(<$t>::new_with_qb64(std::str::from_utf8($b).unwrap_or("\u{fffd}") $(, $x)*))?,
            Form::Bytes => esh(<$t>::new_with_qb64b($b $(, $x)*))?,
            Form::Bin => esh(<$t>::new_with_qb2($b $(, $x)*))?,
        }
    }};
}

/// Read an item of the class from the head of the bytes. The hint carries what the wire does not
/// (transferability of a seed's key)
pub fn parse(c: &mut Ctx, cls: Cls, form: Form, b: &[u8], hint: &str) -> R<Result<Got, E>> {
    let name: &'static str = match form {
        Form::Text => "parse text",
        Form::Bytes => "parse bytes",
        Form::Bin => "parse binary",
    };
    c.call(name, || parse_now(cls, form, b, hint))
}

pub fn parse_now(cls: Cls, form: Form, b: &[u8], hint: &str) -> Result<Got, E> {
    match cls {
        Any => {
            let m: AnyM = match form {
                Form::Text => esh(<AnyM as Matter>::new_with_qb64(std::str::from_utf8(b).unwrap_or("\u{fffd}")))?,
                Form::Bytes => esh(<AnyM as Matter>::new_with_qb64b(b))?,
                Form::Bin => esh(<AnyM as Matter>::new_with_qb2(b))?,
            };
            of_matter(&m, "".into())
        }
        AnyIdx => {
            let m: AnyI = match form {
                Form::Text => esh(<AnyI as Indexer>::new_with_qb64(std::str::from_utf8(b).unwrap_or("\u{fffd}")))?,
                Form::Bytes => esh(<AnyI as Indexer>::new_with_qb64b(b))?,
                Form::Bin => esh(<AnyI as Indexer>::new_with_qb2(b))?,
            };
            of_indexer(&m)
        }
        Count => of_counter(&by_form!(Counter, form, b)),
        Verfer => {
            let v = by_form!(Verfer, form, b);
            of_matter(&v, t_of(&v))
        }
        Diger => of_matter(&by_form!(Diger, form, b), "".into()),
        Saider => of_matter(&by_form!(Saider, form, b), "".into()),
        Cigar => of_matter(&by_form!(Cigar, form, b, None), "".into()),
        Siger => of_indexer(&by_form!(Siger, form, b, None)),
        Signer => {
            let t = hint != "t=false";
            let s = by_form!(Signer, form, b, Some(t));
            of_matter(&s, t_of(&s.verfer()))
        }
        Salter => of_matter(&by_form!(Salter, form, b, None), "".into()),
        Number => {
            let x = by_form!(Number, form, b);
            of_matter(&x, format!("{} {} {}", esh(x.num())?, esh(x.numh())?, esh(x.positive())?))
        }
        Seqner => {
            let x = by_form!(Seqner, form, b);
            of_matter(&x, format!("{} {}", esh(x.sn())?, esh(x.snh())?))
        }
        Dater => {
            let d = by_form!(Dater, form, b);
            of_matter(&d, esh(d.dts())?)
        }
        Bexter => {
            let x = by_form!(Bexter, form, b);
            of_matter(&x, esh(x.bext())?)
        }
        Pather => {
            let x = by_form!(Pather, form, b);
            of_matter(&x, esh(x.bext())?)
        }
        Prefixer => {
            let p = by_form!(Prefixer, form, b);
            of_matter(&p, t_of(&p))
        }
    }
}

/// does what the library says match what was meant?
pub fn differs(it: &Item, g: &Got) -> Option<String> {
    let mut d = vec![];
    if g.code != it.code {
        d.push(format!("code {} is not {}", g.code, it.code));
    }
    if g.raw != it.raw {
        d.push(format!("raw {} is not {}", hex(&g.raw), hex(&it.raw)));
    }
    if g.index != it.index {
        d.push(format!("index {} is not {}", g.index, it.index));
    }
    if g.ondex != it.ondex && !(IDX_CRT.contains(&it.code.as_str()) && g.ondex == 0) {
        d.push(format!("ondex {} is not {}", g.ondex, it.ondex));
    }
    if g.count != it.count {
        d.push(format!("count {} is not {}", g.count, it.count));
    }
    if g.meaning != it.meaning {
        d.push(format!("meaning {:?} is not {:?}", g.meaning, it.meaning));
    }
    if g.text != it.text {
        d.push(format!("text {} is not {}", g.text, it.text));
    }
    if g.textb != it.text.as_bytes() {
        d.push(format!("text bytes {} are not {}", String::from_utf8_lossy(&g.textb), it.text));
    }
    if g.bin != it.bin() {
        d.push(format!("binary {} is not {}", hex(&g.bin), hex(&it.bin())));
    }
    if g.len != it.text.len() {
        d.push(format!("full size {} is not {}", g.len, it.text.len()));
    }
    if d.is_empty() {
        None
    } else {
        Some(format!("{}: {}", it.brief(), d.join("; ")))
    }
}
