//! Collectors of signatures: thresholds kept in any of their forms, signer positions arriving in any order.

use crate::codec::*;
use crate::ctx::*;
use crate::json::*;

use crate::net::*;
use crate::refc;
use crate::runner::Prop;
use crate::src::mix;
use keride::cesr::{Bext, Serder, Tholder};
use num_bigint::BigInt;
use num_rational::BigRational;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Num(u64),
    /// numerator, denominator, in groups
    W(Vec<Vec<(u64, u64)>>),
}

fn q(n: u64, d: u64) -> BigRational {
    BigRational::new(BigInt::from(n), BigInt::from(d))
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn wtext(n: u64, d: u64, sep: &str) -> String {
    let g = gcd(n, d).max(1);
    if d / g == 1 {
        format!("{}", n / g)
    } else {
        format!("{}{sep}{}", n / g, d / g)
    }
}

impl T {
    pub fn satisfied(&self, seen: &[u32]) -> bool {
        let set: BTreeSet<u32> = seen.iter().copied().collect();
        match self {
            T::Num(n) => *n > 0 && set.len() as u64 >= *n,
            T::W(gs) => {
                let mut at = 0u32;
                gs.iter().all(|g| {
                    let mut sum = q(0, 1);
                    for (n, d) in g {
                        if set.contains(&at) {
                            sum += q(*n, *d);
                        }
                        at += 1;
                    }
                    sum >= q(1, 1)
                })
            }
        }
    }
    pub fn possible(&self) -> bool {
        match self {
            T::Num(_) => true,
            T::W(gs) => gs.iter().all(|g| g.iter().map(|(n, d)| q(*n, *d)).fold(q(0, 1), |a, b| a + b) >= q(1, 1)),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            T::Num(n) => *n as usize,
            T::W(g) => g.iter().map(|x| x.len()).sum(),
        }
    }
    /// as lists of text, in lowest terms
    fn groups(&self) -> J {
        match self {
            T::Num(n) => J::Num(n.to_string()),
            T::W(gs) => J::Arr(gs.iter().map(|g| strs(&g.iter().map(|(n, d)| wtext(*n, *d, "/")).collect::<Vec<_>>())).collect()),
        }
    }
    fn sith(&self) -> J {
        match (self, self.groups()) {
            (T::Num(n), _) => s(&format!("{n:x}")),
            (_, J::Arr(mut a)) if a.len() == 1 => a.remove(0),
            (_, g) => g,
        }
    }
    fn limen(&self) -> String {
        match self {
            T::Num(n) => {
                let (code, k) = if *n < 1 << 16 { ("M", 2) } else { ("0H", 4) };
                matter_text(code, &n.to_be_bytes()[8 - k..]).1
            }
            T::W(gs) => {
                let t = gs.iter().map(|g| g.iter().map(|(n, d)| wtext(*n, *d, "s")).collect::<Vec<_>>().join("c")).collect::<Vec<_>>().join("a");
                matter_text("4A", &bext_raw(&t).1).1
            }
        }
    }
    /// as its author wrote it: not always in lowest terms
    pub fn written(&self, c: &mut Ctx) -> J {
        match self {
            T::Num(n) => {
                if c.src.chance(1, 2) {
                    s(&format!("{n:x}"))
                } else {
                    J::Num(n.to_string())
                }
            }
            T::W(gs) => {
                let mut out: Vec<J> = vec![];
                for g in gs {
                    let ws: Vec<String> = g
                        .iter()
                        .map(|(n, d)| if (*n == 0 || n == d) && (*d > 1000 || c.src.chance(2, 3)) { format!("{}", n / d) } else { format!("{n}/{d}") })
                        .collect();
                    out.push(strs(&ws));
                }
                let j = if out.len() == 1 && c.src.chance(2, 3) { out.remove(0) } else { J::Arr(out) };
                if c.src.chance(1, 5) {
                    s(&j.text())
                } else {
                    j
                }
            }
        }
    }
}

fn gen_t(c: &mut Ctx) -> T {
    if c.src.chance(1, 4) {
        return T::Num(match c.src.below(5) {
            0 => *c.src.pick(&[10u64, 15, 16, 17, 255, 256, 65535, 65536]),
            _ => 1 + c.src.small(20),
        });
    }
    // a list can be long: many weights, or many groups
    let long = c.src.weighted(&[40, 1, 1]);
    let ng = if long == 2 { 5 + c.src.us(20) } else { 1 + c.src.weighted(&[4, 3, 2, 1]) };
    let mut gs = vec![];
    for _ in 0..ng {
        c.src.begin();
        let mut g: Vec<(u64, u64)> = vec![];
        let style = c.src.below(5);
        let d0 = 1 + c.src.small(11);
        let k = if long == 1 && gs.is_empty() { 40 + c.src.small(160) } else { 1 + c.src.small(8) };
        for _ in 0..k {
            let (n, d) = match style {
                0 => (1, d0),
                1 => {
                    let d = 1 + c.src.below(12);
                    (c.src.below(d + 1), d)
                }
                2 => {
                    let d = *c.src.pick(&[2u64, 3, 5, 7, 11, 13, 97, 101, 65521, 2147483647, 2147483629, 1 << 30, 1 << 24, 1000000]);
                    let n = match c.src.below(3) {
                        0 => d / 2,
                        1 => d / 2 + 1,
                        _ => c.src.below(d + 1),
                    };
                    (n.min(d), d)
                }
                3 => *c.src.pick(&[(1, 2), (1, 3), (2, 3), (1, 6), (1, 4), (3, 4), (0, 1), (1, 1), (0, 7), (5, 5)]),
                _ => (1, *c.src.pick(&[2u64, 4, 8, 16, 3, 9, 27])),
            };
            g.push((n, d));
        }
        // mostly such that the group can reach one, sometimes exactly
        let sum = |g: &Vec<(u64, u64)>| g.iter().map(|(n, d)| q(*n, *d)).fold(q(0, 1), |a, b| a + b);
        if c.src.chance(15, 16) {
            let mut guard = 0;
            while sum(&g) < q(1, 1) && guard < 40 {
                guard += 1;
                let x = if style == 0 || style == 3 { *g.last().unwrap() } else { (1, 2) };
                g.push(if x.0 == 0 || guard > 30 { (1, 1) } else { x });
            }
        }
        let at = c.src.us(g.len());
        g.rotate_left(at);
        gs.push(g);
        c.src.end();
    }
    T::W(gs)
}

fn check(c: &mut Ctx, t: &T, h: &Tholder, how: &str) -> R<()> {
    let r = c.call("threshold", || -> Result<_, String> {
        Ok((
            h.weighted(),
            h.size() as usize,
            es(h.num())?,
            String::from_utf8_lossy(&es(h.limen())?).to_string(),
            es(es(h.sith())?.to_json())?,
            es(h.to_json())?,
            es(h.thold().to_json())?,
            match h.number() {
                Some(n) => Some(es(n.num())?),
                None => None,
            },
            match h.bexter() {
                Some(b) => Some(es(b.bext())?),
                None => None,
            },
        ))
    })?;
    let g = match r {
        Ok(g) => g,
        Err(e) => return c.done("c06/form", format!("{t:?} {how}: {e}")),
    };
    let w = matches!(t, T::W(_));
    let num = if let T::Num(n) = t { Some(*n as u32) } else { None };
    ensure!(c, g.0 == w && g.1 == t.size() && g.2 == num, "c06/meaning", "{t:?} {how}: weighted {} size {} num {:?}", g.0, g.1, g.2);
    ensure!(c, g.3 == t.limen(), "c06/form", "{t:?} {how}: byte form {} should be {}", g.3, t.limen());
    ensure!(c, g.4 == t.sith().text() && g.5 == g.4, "c06/form", "{t:?} {how}: content form {} / {} should be {}", g.4, g.5, t.sith().text());
    ensure!(c, g.6 == t.groups().text(), "c06/form", "{t:?} {how}: value {} should be {}", g.6, t.groups().text());
    ensure!(c, g.7 == num.map(|n| n as u128) && g.8.is_some() == w, "c06/form", "{t:?} {how}: number {:?} text {:?}", g.7, g.8);
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum As {
    Sith,
    SithText,
    Limen,
    Thold,
    Event,
}

/// what a node keeps of its threshold, and what it is after a restart
fn reload(c: &mut Ctx, t: &T, h: &Tholder) -> R<Tholder> {
    let how = *c.src.pick(&[As::Limen, As::Sith, As::Thold, As::Event, As::SithText]);
    let kt = c.src.chance(1, 2);
    let r = c.call("reload threshold", || -> Result<Tholder, String> {
        match how {
            As::Limen => es(Tholder::new_with_limen(&es(h.limen())?)),
            As::Sith => {
                let text = es(es(h.sith())?.to_json())?;
                es(Tholder::new_with_sith(&parse(text.as_bytes()).ok_or("bad json")?.value()))
            }
            As::SithText => {
                let text = es(h.to_json())?;
                match parse(text.as_bytes()).ok_or("bad json")? {
                    J::Str(n) => es(Tholder::new_with_sith(&s(&n).value())),
                    _ => es(Tholder::new_with_sith(&s(&text).value())),
                }
            }
            As::Thold => {
                let text = es(h.thold().to_json())?;
                es(Tholder::new_with_thold(&parse(text.as_bytes()).ok_or("bad json")?.value()))
            }
            As::Event => {
                let v = parse(es(es(h.sith())?.to_json())?.as_bytes()).ok_or("bad json")?;
                let key = "DKxy2sgzfplyr-tgwIxS19f2OchFHtLwPWD3v4oYimBx";
                let j = obj(vec![("v", s("")), ("t", s("icp")), ("d", s("")), ("i", s(key)), ("s", s("0")), ("kt", v.clone()), ("k", strs(&[key])), ("nt", v), ("n", strs(&[key]))]);
                let (_, b, _) = refc::seal(j, "KERI", "E", &["d"]);
                let x = es(Serder::new_with_raw(&b))?;
                let h = if kt { es(x.tholder())? } else { es(x.ntholder())? };
                h.ok_or("event has no threshold".to_string())
            }
        }
    })?;
    match r {
        Ok(h) => {
            check(c, t, &h, &format!("reloaded from {how:?}"))?;
            c.probe(match how {
                As::Limen => "reloaded from bytes",
                As::Event => "reloaded from event",
                _ => "reloaded from content",
            });
            Ok(h)
        }
        Err(e) => c.done("c06/reload", format!("{t:?} from {how:?}: {e}")),
    }
}

fn judge(c: &mut Ctx, t: &T, h: &Tholder, seen: &[u32]) -> R<bool> {
    let got = must!(c, "c06/satisfy", "satisfy", h.satisfy(seen));
    let want = t.satisfied(seen);
    if got != want {
        return c.done("c06/satisfy", format!("{} with positions {seen:?}: {got}, should be {want}", t.sith().text()));
    }
    c.probe(if got { "satisfied" } else { "not satisfied" });
    Ok(got)
}

/// what stands where a weight does and is none
const NO_WEIGHT: &[&str] = &["2", "3/2", "-1", "-1/2", "1/-2", "1/0", "0/0", "", "/", "1/", "/2", "1/2/2", "x", "a/b", "1.5", "0x1", "1 /2", "4294967297/4294967298", "1e0", "½"];

fn no_event(label: &str, v: J) -> Vec<u8> {
    let key = "DKxy2sgzfplyr-tgwIxS19f2OchFHtLwPWD3v4oYimBx";
    let (kt, nt) = if label == "kt" { (v, s("1")) } else { (s("1"), v) };
    let j = obj(vec![("v", s("")), ("t", s("icp")), ("d", s("")), ("i", s(key)), ("s", s("0")), ("kt", kt), ("k", strs(&[key])), ("nt", nt), ("n", strs(&[key]))]);
    refc::seal(j, "KERI", "E", &["d"]).1
}

/// a byte form as its definition reads it: not one, not decided here, or this threshold
fn reads(text: &str) -> Option<Option<T>> {
    let Some(tok) = read(MATTER, text.as_bytes()) else { return Some(None) };
    if ["M", "0H", "R", "N", "0A"].contains(&tok.code.as_str()) {
        if tok.raw.len() > 8 && tok.raw[..tok.raw.len() - 8].iter().any(|b| *b != 0) {
            return Some(None);
        }
        let n = tok.raw.iter().fold(0u64, |a, b| (a << 8) | *b as u64);
        // zero is met by nobody; anything else in a wider code than it needs is left aside
        return if n > u32::MAX as u64 { Some(None) } else if n == 0 { None } else { Some(Some(T::Num(n))) };
    }
    let lead = match tok.code.as_str() {
        "4A" | "7AAA" => 0,
        "5A" | "8AAA" => 1,
        "6A" | "9AAA" => 2,
        _ => return Some(None),
    };
    let cs = if tok.code.len() == 2 { 4 } else { 8 };
    let t = &text[cs..tok.len];
    let t = if lead == 0 { t.strip_prefix('A').unwrap_or(t) } else { t.strip_prefix(&"AAA"[..lead + 1])? };
    if t.starts_with('A') {
        return None;
    }
    let mut gs = vec![];
    for g in t.split('a') {
        let mut ws = vec![];
        for w in g.split('c') {
            let (n, d) = w.split_once('s').unwrap_or((w, "1"));
            // a sign, zeros in front: not as a threshold writes it, and readable
            if [n, d].iter().any(|x| x.starts_with('-') || x.len() > 1 && x.starts_with('0')) {
                return None;
            }
            let (Ok(n), Ok(d)) = (n.parse::<u64>(), d.parse::<u64>()) else { return Some(None) };
            if d == 0 || n > d || d > i32::MAX as u64 {
                return Some(None);
            }
            ws.push((n, d));
        }
        gs.push(ws);
    }
    let t = T::W(gs);
    Some(if t.possible() { Some(t) } else { None })
}

/// expressions that say no threshold, however they come to a node
fn none(c: &mut Ctx) -> R<()> {
    let n = 1 + c.src.small(8);
    for _ in 0..n {
        c.src.begin();
        let mut t = gen_t(c);
        if c.src.chance(1, 2) {
            // a byte form damaged at rest
            let mut b = t.limen().into_bytes();
            let how = c.src.below(5);
            match how {
                0 => b.truncate(c.src.us(b.len())),
                1 => {
                    let i = c.src.us(b.len());
                    b[i] = *c.src.pick(b"AacsMHN0146-_=/\xff");
                }
                2 => {
                    let cls = *c.src.pick(crate::items::ALL);
                    b = crate::items::gen(c, cls).text.into_bytes();
                }
                3 => {
                    // another text in a sound frame
                    let k = c.src.us(10);
                    let x: String = (0..k).map(|_| *c.src.pick(&['a', 'c', 's', '0', '1', '2', 'x', '-'])).collect();
                    b = matter_text("4A", &bext_raw(&x).1).1.into_bytes();
                }
                _ => {
                    let i = c.src.us(b.len());
                    b.remove(i);
                }
            }
            c.fault("byte form damaged");
            let text = String::from_utf8_lossy(&b).to_string();
            let r = lib!(c, "damaged byte form", Tholder::new_with_limen(&b));
            if text.as_bytes() != b {
                ensure!(c, r.is_err(), "c06/nonsense", "byte form {b:?} is taken as a threshold");
            } else {
                match (reads(&text), r) {
                    (Some(None), r) => {
                        ensure!(c, r.is_err(), "c06/nonsense", "byte form {text:?} is taken as a threshold");
                        c.probe("no threshold refused");
                    }
                    (Some(Some(t)), Ok(h)) => {
                        check_meaning(c, &t, &h, &text)?;
                    }
                    (Some(Some(T::W(g))), Err(e)) => ensure!(c, false, "c06/nonsense", "byte form {text:?} of {g:?} refused: {e}"),
                    _ => {}
                }
            }
            c.ev(format!("byte form {text:?}"));
            c.src.end();
            continue;
        }
        // content that is none
        let bad: J = match c.src.below(8) {
            0 => J::Arr(vec![]),
            1 => J::Arr(vec![J::Arr(vec![])]),
            2 => match c.src.below(8) {
                0 => J::Null,
                1 => J::Bool(true),
                2 => J::Bool(false),
                3 => J::Obj(vec![]),
                4 => obj(vec![("kt", s("1"))]),
                5 => J::Num("-1".into()),
                6 => J::Num("4294967296".into()),
                _ => s(*c.src.pick(&["", "-1", "g", "0x1", "1/2", " 1", "[", "[]", "[[]]", "{}", "null", "100000000", "[\"1\"", "1.0", "-"])),
            },
            k => {
                while !matches!(t, T::W(_)) {
                    t = gen_t(c);
                }
                let J::Arr(mut gs) = t.groups() else { fail!(c, "harness", "no groups") };
                let i = c.src.us(gs.len());
                let many = gs.len() > 1;
                let J::Arr(g) = &mut gs[i] else { fail!(c, "harness", "no group") };
                let j = c.src.us(g.len());
                match k {
                    3 | 4 => g[j] = s(*c.src.pick(NO_WEIGHT)),
                    5 => {
                        g[j] = match c.src.below(5) {
                            0 => J::Null,
                            1 => J::Bool(true),
                            2 => J::Obj(vec![]),
                            3 => J::Arr(vec![J::Arr(vec![s("1")])]),
                            _ => J::Num("1".into()),
                        }
                    }
                    6 => g.clear(),
                    _ => {
                        // never enough of them
                        let t = vec![J::Str("1/3".into()); 1 + c.src.us(2)];
                        *g = t;
                    }
                }
                // a group among texts is not a list of either kind
                if many || c.src.chance(1, 2) {
                    J::Arr(gs)
                } else {
                    gs.remove(0)
                }
            }
        };
        let text = bad.text();
        let how = c.src.below(4);
        let r = c.call("no threshold", || -> Result<Option<String>, String> {
            match how {
                0 => es(es(Tholder::new_with_sith(&bad.value()))?.to_json()).map(Some),
                1 => match &bad {
                    J::Arr(_) => es(es(Tholder::new_with_sith(&s(&text).value()))?.to_json()).map(Some),
                    b => es(es(Tholder::new_with_sith(&b.value()))?.to_json()).map(Some),
                },
                2 => match &bad {
                    // texts and numbers have another meaning there
                    J::Arr(_) | J::Null | J::Obj(_) | J::Bool(_) => es(es(Tholder::new_with_thold(&bad.value()))?.to_json()).map(Some),
                    b => es(es(Tholder::new_with_sith(&b.value()))?.to_json()).map(Some),
                },
                k => {
                    let label = if text.len() as u64 % 2 == k % 2 { "kt" } else { "nt" };
                    let x = es(Serder::new_with_raw(&no_event(label, bad.clone())))?;
                    let h = if label == "kt" { es(x.tholder())? } else { es(x.ntholder())? };
                    h.map(|h| es(h.to_json())).transpose()
                }
            }
        })?;
        c.fault("no threshold");
        ensure!(c, !matches!(r, Ok(Some(_))), "c06/nonsense", "{text} is taken as threshold {r:?}");
        c.probe("no threshold refused");
        c.ev(format!("{text} refused"));
        c.src.end();
    }
    Ok(())
}

/// a damaged form that still is one means what it says
fn check_meaning(c: &mut Ctx, t: &T, h: &Tholder, text: &str) -> R<()> {
    let n = t.size().min(40) as u32;
    for _ in 0..3 {
        let k = c.src.us(n as usize + 1);
        let seen: Vec<u32> = (0..k).map(|_| c.src.below(n as u64 + 1) as u32).collect();
        let got = must!(c, "c06/satisfy", "satisfy", h.satisfy(&seen));
        ensure!(c, got == t.satisfied(&seen), "c06/nonsense", "byte form {text:?} with positions {seen:?}: {got}");
    }
    c.probe("damaged byte form still a threshold");
    Ok(())
}

#[derive(Clone)]
enum M {
    Sig(u32),
    Batch(Vec<u32>),
    Up,
}

fn run(c: &mut Ctx) -> R<()> {
    if c.src.chance(1, 12) {
        return none(c);
    }
    let t = gen_t(c);
    let w = t.written(c);
    c.ev(format!("threshold {}", w.text()));
    let h0 = match lib!(c, "make threshold", Tholder::new_with_sith(&w.value())) {
        Ok(h) => h,
        Err(e) => {
            ensure!(c, !t.possible(), "c06/refused", "{} refused: {e}", w.text());
            c.probe("impossible threshold refused");
            return Ok(());
        }
    };
    check(c, &t, &h0, "as made")?;
    let n = t.size().min(70) as u32;
    let nodes = 1 + c.src.us(3);
    let mut f = Faults::swarm(c);
    f.corrupt = 0;
    let mut net: Net<M> = Net::new(nodes + 1, f);
    let from = nodes;
    let mut hs: Vec<Tholder> = vec![];
    for _ in 0..nodes {
        hs.push(if c.src.chance(1, 2) { reload(c, &t, &h0)? } else { h0.clone() });
    }
    // what each node has on record, in order of arrival and with repetitions
    let mut seen: Vec<Vec<u32>> = vec![vec![]; nodes];
    let mut met: Vec<bool> = vec![false; nodes];
    // signers in some order; some stay away
    let mut order: Vec<u32> = (0..n).collect();
    c.src.shuffle(&mut order);
    if c.src.chance(1, 2) {
        let k = c.src.us(order.len() + 1);
        order.truncate(k);
    }
    for i in order {
        c.src.begin();
        for to in 0..nodes {
            if c.src.chance(1, 6) {
                // positions nobody has
                let x = match c.src.below(4) {
                    0 => n,
                    1 => n + c.src.small(100) as u32,
                    2 => u32::MAX,
                    _ => i,
                };
                if matches!(t, T::W(_)) {
                    c.fault("position outside the list");
                }
                net.send(c, from, to, M::Sig(x));
            }
            if c.src.chance(1, 5) {
                let mut b = vec![i, i];
                b.extend((0..c.src.us(4)).map(|_| c.src.below(n as u64 + 2) as u32));
                c.src.shuffle(&mut b);
                c.fault("repeated in one batch");
                net.send(c, from, to, M::Batch(b));
            } else {
                net.send(c, from, to, M::Sig(i));
            }
        }
        let gap = c.src.below(20);
        c.advance(MS * gap);
        c.src.end();
    }
    let mut steps = 0;
    while let Some((to, _, m)) = net.next(c) {
        steps += 1;
        if steps > 500 {
            break;
        }
        c.src.begin();
        match m {
            M::Up => {
                hs[to] = reload(c, &t, &hs[to])?;
                // records that were not yet on disk are lost
                let k = c.src.us(seen[to].len() + 1);
                seen[to].truncate(k);
                met[to] = judge(c, &t, &hs[to], &seen[to])?;
                c.ev(format!("node {to} is back with {k} records"));
            }
            m => {
                let mut new = match m {
                    M::Sig(i) => vec![i],
                    M::Batch(b) => b,
                    M::Up => vec![],
                };
                if c.src.chance(1, 6) {
                    // the batch alone
                    judge(c, &t, &hs[to], &new)?;
                }
                seen[to].append(&mut new);
                let now = judge(c, &t, &hs[to], &seen[to])?;
                ensure!(c, now || !met[to], "c06/monotone", "{} was met and no longer is with more positions {:?}", t.sith().text(), seen[to]);
                met[to] = now;
                c.ev(format!("node {to} has {:?}: {now}", &seen[to][seen[to].len().saturating_sub(6)..]));
                if c.src.chance(1, 4) {
                    let mut other = seen[to].clone();
                    match c.src.below(3) {
                        0 => c.src.shuffle(&mut other),
                        1 => other.sort(),
                        _ => other.reverse(),
                    }
                    judge(c, &t, &hs[to], &other)?;
                }
                c.state(mix(t.size() as u64 ^ ((seen[to].len() as u64) << 10) ^ ((now as u64) << 20) ^ ((matches!(t, T::W(_)) as u64) << 21) ^ mix(steps)));
                if net.crashes(c) {
                    net.crash(c, to, M::Up);
                }
            }
        }
        c.src.end();
    }
    // every single position left out, and all of them
    let all: Vec<u32> = (0..n).collect();
    judge(c, &t, &hs[0], &all)?;
    for i in 0..n.min(12) {
        let but: Vec<u32> = all.iter().copied().filter(|x| *x != i).collect();
        judge(c, &t, &hs[0], &but)?;
    }
    judge(c, &t, &hs[0], &[])?;
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    quick_runs: 30_000,
    quick_secs: 25,
    thorough_secs: 420,
    rule: "one run is one threshold and up to three collectors to which positions arrive late, twice, in batches, out of order, or outside the list, and which restart from any stored form, or (1 in 12) a series of expressions and damaged byte forms of which most say no threshold; distinct: different event log",
    real: &["Tholder in every form, threshold fields of Serder"],
    stub: &["network, collectors' records"],
    assumptions: &["weights have numerators and denominators up to 2^31-1, numeric thresholds are between 1 and 2^32-1, as the implementation documents"],
    findings: &[],
    reach: &["satisfied", "not satisfied", "reloaded from bytes", "reloaded from event", "reloaded from content", "no threshold refused", "damaged byte form still a threshold"],
};
