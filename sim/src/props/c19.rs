//! Controllers that make, use, copy, replace and drop secrets, and whose memory falls into the hands of
//! somebody at any point: every block released is looked at as it is released, and images of the
//! process are taken after secrets have gone.

use crate::codec::*;
use crate::ctx::*;
use crate::items::SEEDS;
use crate::refc;
use crate::runner::Prop;
use crate::seams::{self, Ent};
use crate::src::{expand, hash_str, mix, Src};
use keride::cesr::{Matter, Salter};
use keride::signify::creating::{RandyCreator, SaltyCreator};
use keride::signing::Signer;
use std::sync::Arc;

enum Thing {
    Salter(Salter),
    Signer(Signer),
    Creator(SaltyCreator),
}

struct Obj {
    t: Thing,
    /// secrets it keeps
    ids: Vec<usize>,
    /// for a creator, its stem
    stem: String,
    tier: &'static str,
}

struct Sec {
    raw: Vec<u8>,
    name: String,
    owners: usize,
    /// which needles are of it
    from: usize,
    to: usize,
}

#[derive(Default)]
struct World {
    secs: Vec<Sec>,
    objs: Vec<Obj>,
    needles: usize,
}

impl World {
    fn secret(&mut self, raw: &[u8], name: String) -> usize {
        if let Some(i) = self.secs.iter().position(|s| s.raw == raw) {
            return i;
        }
        let from = self.needles;
        // the whole of it, and any half of it
        seams::add_needle(raw);
        for h in raw.chunks(raw.len() / 2) {
            if h.len() >= 8 {
                seams::add_needle(h);
            }
        }
        self.needles += 1 + raw.chunks(raw.len() / 2).filter(|h| h.len() >= 8).count();
        self.secs.push(Sec { raw: raw.to_vec(), name, owners: 0, from, to: self.needles });
        self.secs.len() - 1
    }
    fn of(&self, needle: usize) -> Option<&Sec> {
        self.secs.iter().find(|s| s.from <= needle && needle < s.to)
    }
    fn own(&mut self, ids: &[usize]) {
        for i in ids {
            self.secs[*i].owners += 1;
        }
    }
    fn disown(&mut self, ids: &[usize]) {
        for i in ids {
            self.secs[*i].owners -= 1;
        }
    }
}

/// nothing released since the last look held a secret
fn released(c: &mut Ctx, w: &World, what: &str) -> R<()> {
    c.checks += 1;
    if let Some((k, size, off)) = seams::take_hits().first() {
        let s = w.of(*k).map(|s| s.name.as_str()).unwrap_or("?");
        return c.done("c19/released", format!("a block of {size} bytes released by {what} holds {s} at {off}"));
    }
    Ok(())
}

/// nothing in use holds a secret whose owners have gone
fn image(c: &mut Ctx, w: &World, what: &str) -> R<()> {
    c.checks += 1;
    for (k, size, off) in seams::image() {
        if let Some(s) = w.of(k) {
            if s.owners == 0 {
                return c.done("c19/kept", format!("after {what} a block of {size} bytes still in use holds {} at {off}, which nobody has any more", s.name));
            }
        }
    }
    c.probe("image of the process");
    Ok(())
}

/// a secret: bytes nobody takes for anything else
fn fresh(c: &mut Ctx, n: usize) -> Vec<u8> {
    let d = c.src.u64();
    let mut v = expand(mix(d ^ ((c.calls << 20) + c.checks)), n);
    v[0] &= 0x7f;
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Via {
    Raw,
    Text,
    Bytes,
    Bin,
}

fn via(c: &mut Ctx) -> Via {
    *c.src.pick(&[Via::Raw, Via::Text, Via::Bytes, Via::Bin])
}

/// what is handed over: the material, complete or spoiled
struct Given {
    v: Via,
    raw: Vec<u8>,
    text: String,
    bin: Vec<u8>,
    bad: &'static str,
    code: &'static str,
    tier: Option<&'static str>,
}

fn given(c: &mut Ctx, code: &'static str, raw: &[u8]) -> Given {
    let v = via(c);
    let text = matter_text(code, raw).1;
    let mut g = Given { v, raw: raw.to_vec(), bin: dec(text.as_bytes()).unwrap_or_default(), text, bad: "", code, tier: None };
    if c.src.chance(1, 4) {
        match c.src.below(7) {
            0 => {
                g.bad = "short";
                let n = c.src.us(g.raw.len());
                g.raw.truncate(n);
                let n = g.text.len() - 1 - c.src.us(3);
                g.text.truncate(n);
                let n = g.bin.len() - 1 - c.src.us(2);
                g.bin.truncate(n);
            }
            1 => {
                g.bad = "more behind";
                let n = 1 + c.src.us(40);
                g.raw.extend(c.src.random(n));
                g.text.push_str(&"A".repeat(n));
                g.bin.extend(vec![0u8; n]);
            }
            2 => {
                g.bad = "spoiled end";
                let n = g.text.len();
                let k = 1 + c.src.us(4);
                g.text.replace_range(n - k..n - k + 1, *c.src.pick(&["!", "=", "+", "/", " ", "."]));
            }
            3 => {
                g.bad = "pad not zero";
                let h = if code.len() == 1 { 1 } else { 2 };
                g.text.replace_range(h..h + 1, "_");
                g.bin[if h == 1 { 0 } else { 1 }] |= 3;
            }
            4 => {
                g.bad = "other code";
                g.code = *c.src.pick(&["C", "D", "E", "M", "0B", "A", "J", "Q", "0A", "K", "1AAA", "0Z", ""]);
            }
            5 => {
                g.bad = "other code in text";
                let to = if code.len() == 1 { *c.src.pick(&["D", "B", "E", "J", "Q", "C"]) } else { *c.src.pick(&["0B", "0H", "0G"]) };
                g.text.replace_range(0..code.len(), to);
                g.bin = dec(g.text.as_bytes()).unwrap_or_default();
            }
            _ => {
                g.bad = "unknown tier";
                g.tier = Some("none");
            }
        }
        c.fault("spoiled secret handed over");
    }
    g
}

fn new_salter(g: &Given, tier: &'static str) -> Result<Salter, String> {
    let t = Some(g.tier.unwrap_or(tier));
    let code = if g.bad == "other code" { Some(g.code) } else { None };
    es(match g.v {
        Via::Raw => Salter::new(t, code, Some(&g.raw), None, None, None),
        Via::Text => Salter::new(t, code, None, None, Some(&g.text), None),
        Via::Bytes => Salter::new(t, code, None, Some(g.text.as_bytes()), None, None),
        Via::Bin => Salter::new(t, code, None, None, None, Some(&g.bin)),
    })
}

fn new_signer(g: &Given, tr: bool) -> Result<Signer, String> {
    let tr = Some(tr);
    es(match g.v {
        Via::Raw => Signer::new(tr, Some(g.code), Some(&g.raw), None, None, None),
        Via::Text => Signer::new(tr, None, None, None, Some(&g.text), None),
        Via::Bytes => Signer::new(tr, None, None, Some(g.text.as_bytes()), None, None),
        Via::Bin => Signer::new(tr, None, None, None, None, Some(&g.bin)),
    })
}

/// entropy for the next call: the same bytes for each request, known beforehand
fn entropy(c: &mut Ctx, w: &mut World, salt: bool) -> usize {
    let b = fresh(c, 64);
    let mut r = [0u8; 64];
    r.copy_from_slice(&b);
    let e = seams::entropy();
    e.repeat = Some(r);
    e.plan.clear();
    let id = if salt { w.secret(&r[..16], "a fresh salt".into()) } else { w.secret(&r[..32], "a fresh key".into()) };
    if c.src.chance(1, 4) {
        c.fault("entropy source fails");
        for _ in 0..c.src.us(2) {
            seams::entropy().plan.push_back(Ent::Give(usize::MAX));
        }
        if c.src.chance(1, 2) {
            seams::entropy().plan.push_back(Ent::Give(1 + c.src.us(31)));
        }
        seams::entropy().plan.push_back(Ent::Fail(libc::EIO));
    }
    id
}

fn entropy_off() {
    let e = seams::entropy();
    e.repeat = None;
    e.rewind();
    e.plan.clear();
}

fn keep(c: &mut Ctx, w: &mut World, t: Thing, ids: Vec<usize>, stem: String, tier: &'static str) {
    w.own(&ids);
    w.objs.push(Obj { t, ids, stem, tier });
    c.probe("secret in use");
}

/// secrets of signers handed out have to be known by now
fn keep_signers(c: &mut Ctx, w: &mut World, v: Vec<Signer>) {
    for s in v {
        let id = w.secret(&s.raw(), "a key".into());
        keep(c, w, Thing::Signer(s), vec![id], String::new(), "min");
    }
}

fn run(c: &mut Ctx) -> R<()> {
    let mut w = World::default();
    seams::clear_needles();
    seams::scanning(true);
    let steps = 3 + c.src.us(if c.thorough { 40 } else { 25 });
    let costly = c.src.chance(1, 400);
    // the library may set up what it keeps for good
    for step in 0..steps {
        c.src.begin();
        c.advance(1_000_000);
        one(c, &mut w, step, costly)?;
        c.src.end();
    }
    // the end of the program: everything is dropped, in any order
    let mut order: Vec<usize> = (0..w.objs.len()).collect();
    c.src.shuffle(&mut order);
    let mut left: Vec<Option<Obj>> = w.objs.drain(..).map(Some).collect();
    for i in order {
        let o = left[i].take().unwrap();
        w.disown(&o.ids);
        drop_it(c, &w, o)?;
    }
    image(c, &w, "the end")?;
    seams::scanning(false);
    Ok(())
}

fn drop_it(c: &mut Ctx, w: &World, o: Obj) -> R<()> {
    let Obj { t, .. } = o;
    let what = match t {
        Thing::Salter(s) => {
            c.call("drop a salter", || drop(s))?;
            "dropping a salter"
        }
        Thing::Signer(s) => {
            c.call("drop a signer", || drop(s))?;
            "dropping a signer"
        }
        Thing::Creator(s) => {
            c.call("drop a creator", || drop(s))?;
            "dropping a creator"
        }
    };
    released(c, w, what)
}

fn stretched(w: &mut World, salt: &[u8], path: &str, size: usize, tier: &str) -> Option<usize> {
    if size < 16 || !["min", "low", "med", "high"].contains(&tier) {
        return None;
    }
    let k = refc::stretch(path.as_bytes(), salt, size, tier);
    if size > 96 {
        return Some(w.secret(&k[..32], format!("the start of the key of path {path:?}")));
    }
    Some(w.secret(&k, format!("the key of path {path:?}")))
}

fn one(c: &mut Ctx, w: &mut World, step: usize, costly: bool) -> R<()> {
    if w.needles > 900 {
        return Ok(());
    }
    let nobj = w.objs.len();
    let op = if nobj == 0 { c.src.below(4) } else { c.src.weighted(&[2, 2, 2, 2, 3, 3, 3, 3, 3, 4, 2, 2, 2]) as u64 };
    let tier = "min";
    let name: &'static str;
    let mut good = true;
    match op {
        0 => {
            // a salter of a given salt
            let raw = fresh(c, 16);
            let id = w.secret(&raw, "a given salt".into());
            let g = given(c, "0A", &raw);
            name = "making a salter";
            let r = c.call_raw(|| new_salter(&g, tier)).unwrap_or_else(Err);
            c.ev(format!("{step} salter from {:?} {:?}: {}", g.v, g.bad, r.is_ok()));
            good = r.is_ok();
            if let Ok(s) = r {
                if s.raw() == raw {
                    keep(c, w, Thing::Salter(s), vec![id], String::new(), g.tier.unwrap_or(tier));
                } else {
                    c.call("drop", || drop(s))?;
                }
            }
        }
        1 => {
            // a signer of a given seed
            let code = *c.src.pick(SEEDS);
            let raw = fresh(c, 32);
            let id = w.secret(&raw, format!("a given seed of {code}"));
            let g = given(c, code, &raw);
            let tr = c.src.chance(1, 2);
            name = "making a signer";
            let r = c.call_raw(|| new_signer(&g, tr)).unwrap_or_else(Err);
            c.ev(format!("{step} signer of {code} from {:?} {:?}: {}", g.v, g.bad, r.is_ok()));
            good = r.is_ok();
            if let Ok(s) = r {
                if s.raw() == raw {
                    keep(c, w, Thing::Signer(s), vec![id], String::new(), tier);
                } else {
                    c.call("drop", || drop(s))?;
                }
            }
        }
        2 => {
            // fresh ones
            let how = c.src.below(4);
            let id = entropy(c, w, how == 0 || how == 3);
            let code = *c.src.pick(SEEDS);
            let n = 1 + c.src.us(3);
            match how {
                0 => {
                    name = "making a fresh salter";
                    let r = c.call_raw(|| es(Salter::new_with_defaults(Some(tier)))).unwrap_or_else(Err);
                    good = r.is_ok();
                    entropy_off();
                    if let Ok(s) = r {
                        keep(c, w, Thing::Salter(s), vec![id], String::new(), tier);
                    }
                }
                1 => {
                    name = "making a fresh signer";
                    let code = if c.src.chance(1, 6) { "D" } else { code };
                    let r = c.call_raw(|| es(Signer::new_with_defaults(None, Some(code)))).unwrap_or_else(Err);
                    good = r.is_ok();
                    entropy_off();
                    if let Ok(s) = r {
                        keep(c, w, Thing::Signer(s), vec![id], String::new(), tier);
                    }
                }
                2 => {
                    name = "RandyCreator";
                    let mut codes = vec![code; n];
                    if n > 1 && c.src.chance(1, 4) {
                        codes[n - 1] = "E";
                    }
                    let r = c.call_raw(|| RandyCreator::sim_new().sim_create(Some(codes), None, None, None));
                    good = r.is_ok();
                    entropy_off();
                    if let Ok(v) = r {
                        keep_signers(c, w, v);
                    }
                }
                _ => {
                    name = "making a creator with a fresh salt";
                    let t = if c.src.chance(1, 5) { "none" } else { tier };
                    let r = if c.src.chance(1, 3) {
                        c.call_raw(|| Ok(SaltyCreator::default()))
                    } else {
                        c.call_raw(|| es(SaltyCreator::new(None, Some("stem"), Some(t), None)))
                    }
                    .unwrap_or_else(Err);
                    good = r.is_ok();
                    entropy_off();
                    if let Ok(s) = r {
                        keep(c, w, Thing::Creator(s), vec![id], String::new(), "low");
                        w.objs.last_mut().unwrap().stem = "?".into();
                    }
                }
            }
            c.ev(format!("{step} {name} {code}: {good}"));
        }
        3 => {
            // a creator of a given salt, as text or in a salter
            let raw = fresh(c, 16);
            let id = w.secret(&raw, "a given salt".into());
            let g = given(c, "0A", &raw);
            let stem = if c.src.chance(1, 2) { "signify:aid" } else { "" };
            let text = c.src.chance(1, 2);
            // the salt a creator makes for itself before it takes the given one
            let b = fresh(c, 64);
            let mut r64 = [0u8; 64];
            r64.copy_from_slice(&b);
            seams::entropy().repeat = Some(r64);
            w.secret(&r64[..16], "a salt made and not used".into());
            name = "making a creator";
            let r = c
                .call_raw(|| {
                    if text {
                        es(SaltyCreator::new(Some(&g.text), Some(stem), Some(g.tier.unwrap_or(tier)), None))
                    } else {
                        new_salter(&g, tier).and_then(|s| es(SaltyCreator::new(None, Some(stem), None, Some(s))))
                    }
                })
                .unwrap_or_else(Err);
            entropy_off();
            good = r.is_ok();
            c.ev(format!("{step} creator text {text} {:?}: {good}", g.bad));
            if let Ok(s) = r {
                if g.bad == "" {
                    keep(c, w, Thing::Creator(s), vec![id], stem.into(), tier);
                } else {
                    c.call("drop", || drop(s))?;
                }
            }
        }
        4 => {
            // copies
            let i = c.src.us(nobj);
            let o = &w.objs[i];
            let t = match &o.t {
                Thing::Salter(s) => Some(Thing::Salter(c.call("clone", || s.clone())?)),
                Thing::Signer(s) => Some(Thing::Signer(c.call("clone", || s.clone())?)),
                _ => None,
            };
            let (ids, stem, tier) = (o.ids.clone(), o.stem.clone(), o.tier);
            name = "copying";
            c.ev(format!("{step} copy {i}"));
            if let Some(t) = t {
                keep(c, w, t, ids, stem, tier);
            }
        }
        5 => {
            let i = c.src.us(nobj);
            let o = w.objs.swap_remove(i);
            name = "dropping";
            c.ev(format!("{step} drop {i}"));
            w.disown(&o.ids);
            drop_it(c, w, o)?;
            c.probe("secret dropped");
        }
        6 | 7 => {
            // signing
            let i = c.src.us(nobj);
            let n = c.src.small(3000) as usize;
            let msg = c.src.blob(n);
            let index = *c.src.pick(&[0u32, 1, 63, 64, 4095, 4096, 1 << 24, u32::MAX]);
            let only = c.src.chance(1, 3);
            let ondex = if c.src.chance(1, 3) { Some(c.src.below(5000) as u32) } else { None };
            let how = c.src.below(3);
            name = "signing";
            if let Thing::Signer(s) = &w.objs[i].t {
                if c.src.chance(1, 6) {
                    c.fault("entropy source fails");
                    seams::entropy().plan.push_back(Ent::Fail(libc::EIO));
                }
                let r = c
                    .call_raw(|| match how {
                        0 => es(s.sign_unindexed(&msg)).map(|_| ()),
                        _ => es(s.sign_indexed(&msg, only, index, ondex)).map(|_| ()),
                    })
                    .unwrap_or_else(Err);
                entropy_off();
                good = r.is_ok();
                c.ev(format!("{step} sign {n} bytes at {index} {ondex:?}: {good}"));
                if good {
                    c.probe("signed");
                }
            }
        }
        8 => {
            // reading what is kept; the copies are the reader's
            let i = c.src.us(nobj);
            let k = c.src.below(6);
            name = "reading";
            c.ev(format!("{step} read {i} form {k}"));
            fn look<M: Matter>(m: &M, k: u64) -> (Vec<u8>, String) {
                match k {
                    0 => (m.raw(), String::new()),
                    1 => (vec![], m.qb64().unwrap_or_default()),
                    2 => (m.qb64b().unwrap_or_default(), String::new()),
                    3 => (m.qb2().unwrap_or_default(), String::new()),
                    4 => (vec![], m.code()),
                    _ => (vec![m.full_size().unwrap_or(0) as u8], String::new()),
                }
            }
            let kept = match &w.objs[i].t {
                Thing::Salter(s) => c.call("read", || look(s, k))?,
                Thing::Signer(s) => c.call("read", || look(s, k))?,
                Thing::Creator(_) => (vec![], String::new()),
            };
            drop(kept);
        }
        9 => {
            // deriving keys
            let i = c.src.us(nobj);
            let salt = w.secs[w.objs[i].ids[0]].raw.clone();
            let temp = !costly && c.src.chance(1, 2);
            let t: &'static str = if costly { "low" } else { *c.src.pick(&["min", "min", "none"]) };
            let eff = if temp { "min" } else { t };
            let mut path = c.src.pick(&["", "0", "a path", "signify:controller00", "stem"]).to_string();
            if c.src.chance(1, 6) {
                path = path.repeat(1 + c.src.us(40)) + "end of a long path";
            }
            let code = if c.src.chance(1, 6) { *c.src.pick(&["D", "E", "0A", "0B", "zz"]) } else { *c.src.pick(SEEDS) };
            let n = 1 + c.src.us(3);
            let how = c.src.below(4);
            let size = *c.src.pick(&[32usize, 16, 64, 96, 200, 3, 0]);
            name = "deriving keys";
            match &w.objs[i].t {
                Thing::Salter(_) => {
                    match how {
                        0 => {
                            stretched(w, &salt, &path, size, eff);
                        }
                        1 => {
                            for sz in [32usize, 16, 64] {
                                stretched(w, &salt, &path, sz, eff);
                            }
                        }
                        _ => {
                            for k in 0..n {
                                stretched(w, &salt, &format!("{path}{k:x}"), 32, eff);
                            }
                        }
                    }
                    let Thing::Salter(s) = &w.objs[i].t else { unreachable!() };
                    let r: Result<Vec<Signer>, String> = match how {
                        0 => {
                            let r = c.call_raw(|| es(s.stretch(Some(size), Some(&path), Some(t), Some(temp)))).unwrap_or_else(Err);
                            // the caller's, who sees to it
                            r.map(|_| vec![])
                        }
                        1 => c.call_raw(|| es(s.signer(Some(code), None, Some(&path), Some(t), Some(temp))).map(|x| vec![x])).unwrap_or_else(Err),
                        _ => c.call_raw(|| es(s.signers(Some(n), None, Some(&path), Some(code), None, Some(t), Some(temp)))).unwrap_or_else(Err),
                    };
                    good = r.is_ok();
                    c.ev(format!("{step} derive {how} {code} {n} {eff}: {good}"));
                    if let Ok(v) = r {
                        c.probe("derived");
                        keep_signers(c, w, v);
                    }
                }
                Thing::Creator(_) => {
                    let stem = w.objs[i].stem.clone();
                    let mut codes = vec![code; n];
                    if c.src.chance(1, 4) {
                        codes[n - 1] = "E";
                        codes[0] = "A";
                    }
                    if stem == "?" {
                        // of a salt of the low tier, or of another stem
                        for st in ["stem", ""] {
                            for k in 0..n {
                                stretched(w, &salt, &format!("{}0{k:x}", if st.is_empty() { "0" } else { st }), 32, "min");
                            }
                        }
                    } else {
                        for k in 0..n {
                            stretched(w, &salt, &format!("{}0{k:x}", if stem.is_empty() { "0" } else { &stem }), 32, "min");
                        }
                    }
                    let Thing::Creator(s) = &w.objs[i].t else { unreachable!() };
                    let r = c.call_raw(|| s.create(Some(codes), None, None, None, None, None, None, None, true));
                    good = r.is_ok();
                    c.ev(format!("{step} create {code} {n}: {good}"));
                    if let Ok(v) = r {
                        c.probe("derived");
                        keep_signers(c, w, v);
                    }
                }
                _ => {}
            }
        }
        10 => {
            // equal or not
            let (i, k) = (c.src.us(nobj), c.src.us(nobj));
            name = "comparing";
            let r = match (&w.objs[i].t, &w.objs[k].t) {
                (Thing::Salter(a), Thing::Salter(b)) => c.call("compare", || a == b)?,
                (Thing::Signer(a), Thing::Signer(b)) => c.call("compare", || a == b)?,
                _ => false,
            };
            c.ev(format!("{step} {i} == {k}: {r}"));
        }
        11 => {
            // several threads sign with one key and drop copies of it
            let i = c.src.us(nobj);
            name = "threads signing";
            if let Thing::Signer(s) = &w.objs[i].t {
                let s = Arc::new(s.clone());
                let n = 2 + c.src.us(3);
                let len = c.src.small(300) as usize;
                let msg = c.src.blob(len);
                let mean = *c.src.pick(&[1u64, 3, 12]);
                let ss = c.src.u64();
                let bodies: Vec<Box<dyn FnOnce() -> bool + Send>> = (0..n)
                    .map(|k| {
                        let (s, msg) = (s.clone(), msg.clone());
                        Box::new(move || {
                            let r = seams::guarded(|| {
                                let own = (*s).clone();
                                let a = own.sign_indexed(&msg, false, k as u32, None).is_ok();
                                drop(own);
                                a & s.sign_unindexed(&msg).is_ok()
                            })
                            .unwrap_or(false);
                            let _ = seams::guarded(move || drop(s));
                            r
                        }) as Box<dyn FnOnce() -> bool + Send>
                    })
                    .collect();
                let (out, sched) = seams::run_threads(Src::seeded(ss), mean, bodies);
                c.ev(format!("{step} {n} threads, {} switches, {out:?}", sched.switches));
                c.state(sched.hash);
                if sched.switches > 0 {
                    c.probe("threads interleaved");
                }
                c.call("drop the shared one", move || drop(s))?;
            }
        }
        _ => {
            // another secret in its place
            let i = c.src.us(nobj);
            name = "replacing a secret";
            let id = w.objs[i].ids[0];
            let n = w.secs[id].raw.len();
            let shorter = c.src.chance(1, 3) && n >= 16;
            let b = fresh(c, n);
            let b = if shorter { b[..n / 2].to_vec() } else { b };
            let new = w.secret(&b, "a secret put in place of another".into());
            match &mut w.objs[i].t {
                Thing::Salter(s) => c.call("set_raw", || s.set_raw(&b))?,
                Thing::Signer(s) => c.call("set_raw", || s.set_raw(&b))?,
                _ => {
                    return Ok(());
                }
            }
            c.ev(format!("{step} replace {i} by {} bytes", b.len()));
            w.disown(&[id]);
            w.own(&[new]);
            w.objs[i].ids = vec![new];
            c.probe("secret replaced");
        }
    }
    if !good {
        c.probe("call failed");
    }
    released(c, w, name)?;
    c.state(mix(op ^ hash_str(name)) ^ good as u64);
    if op == 5 || c.src.chance(1, 4) {
        image(c, w, name)?;
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    quick_runs: 12_000,
    quick_secs: 30,
    thorough_secs: 420,
    rule: "one run is a history of making, deriving, copying, reading, using, replacing and dropping salts, keys and creators, with spoiled material, unknown codes and tiers, failing entropy and threads that share a key; every block released during a call is searched for every secret (and its halves) known, and images of all blocks in use are searched for secrets without owner; distinct: different event log",
    real: &["Signer, Salter, SaltyCreator, RandyCreator, the signature and argon2 crates, zeroize"],
    stub: &["the getrandom system call, thread scheduling, the allocator (which looks at blocks before it releases them)"],
    assumptions: &["what accessors and stretch() hand out is the caller's to erase", "growing a block always moves it", "stack memory and registers are not looked at", "secrets are looked for as plain bytes, not as text"],
    findings: &[],
    reach: &["secret in use", "secret dropped", "signed", "derived", "call failed", "image of the process", "threads interleaved", "secret replaced"],
};
