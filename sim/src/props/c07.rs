//! Controllers, witnesses and validators of key event logs, and an adversary, over a network that
//! loses, repeats, reorders and damages messages, with nodes that crash and start again from disk.

use crate::codec::*;
use crate::ctx::*;
use crate::json::*;
use crate::msgs::*;
use crate::net::*;
use crate::props::c06::T;
use crate::refc;
use crate::runner::Prop;
use crate::src::mix;
use keride::cesr::{Counter, Diger, Indexer, Matter, Sadder, Saider, Seqner, Serder, Siger, Tholder, Verfer};
use keride::prefexing::prefixer::Prefixer;
use keride::signing::Signer;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- what controllers really did

#[derive(Clone, Debug)]
struct Ev {
    sn: usize,
    ilk: &'static str,
    said: String,
    bytes: Vec<u8>,
    j: J,
    est: bool,
    /// in force after this event
    keys: Vec<Key>,
    kt: T,
    next: Vec<Key>,
    digs: Vec<String>,
    nt: T,
    wits: Vec<usize>,
    bt: usize,
    /// digests a rotation answers to, and their threshold
    prior: Option<(Vec<String>, T)>,
    /// signatures of all signers
    sigs: Vec<String>,
    /// receipts by position in the witness list, as the controller got them
    wigs: BTreeMap<usize, String>,
    anchor: Option<(usize, String)>,
}

struct Id {
    pre: String,
    evs: Vec<Ev>,
    deleg: Option<usize>,
    /// events of others this one has to seal: (identifier, sn)
    todo: Vec<(usize, usize)>,
    closed: bool,
    /// a second version of the last event, and which of both was accepted first
    twin: Option<Ev>,
    chosen: Option<String>,
}

impl Id {
    fn head(&self) -> &Ev {
        self.evs.last().unwrap()
    }
    fn version<'a>(&'a self, sn: usize, bytes: &[u8]) -> Option<&'a Ev> {
        match self.evs.get(sn) {
            Some(e) if e.bytes == bytes => Some(e),
            _ => self.twin.as_ref().filter(|e| e.sn == sn && e.bytes == bytes),
        }
    }
}

// ---------------------------------------------------------------- nodes

/// what a node has collected about an event it cannot accept yet
#[derive(Clone)]
struct Partial {
    serder: Serder,
    sn: u128,
    said: String,
    /// verified: index, prior position
    sigs: Vec<(Siger, bool)>,
    /// not yet verified, as the witness list is not known yet
    wigs: Vec<(Siger, bool)>,
    anchors: Vec<(u128, String)>,
    /// all that came, good or not
    seen: BTreeSet<String>,
}

impl Partial {
    fn add(&mut self, sigs: Vec<Siger>, wigs: Vec<Siger>) -> Result<(), E> {
        for s in sigs {
            if self.seen.insert(format!("signature {}", es(s.qb64())?)) {
                self.sigs.push((s, false));
            }
        }
        for s in wigs {
            if self.seen.insert(format!("receipt {}", es(s.qb64())?)) {
                self.wigs.push((s, false));
            }
        }
        Ok(())
    }
}

/// accepted event with what proves it
#[derive(Clone)]
struct Entry {
    serder: Serder,
    said: String,
    sigs: Vec<Siger>,
    wigs: Vec<Siger>,
    anchors: Vec<(u128, String)>,
    est: bool,
    /// key state after it
    verfers: Vec<Verfer>,
    kt: Option<Tholder>,
    digers: Vec<Diger>,
    nt: Option<Tholder>,
    wits: Vec<String>,
    toad: u128,
}

#[derive(Default, Clone)]
struct Node {
    logs: BTreeMap<String, Vec<Entry>>,
    /// by identifier and exact bytes: the same content may be written in several ways
    partial: BTreeMap<(String, Vec<u8>), Partial>,
    /// how often it asked for what follows
    asked: BTreeMap<(String, usize), usize>,
    /// survives
    disk: Vec<u8>,
}

type E = String;

fn field(v: &keride::data::Value, k: &str) -> Result<keride::data::Value, E> {
    es(v.to_map())?.get(k).cloned().ok_or(format!("no {k}"))
}

/// attachments of one message: signatures, receipts, source couples, bytes taken
type Att = (Vec<Siger>, Vec<Siger>, Vec<(u128, String)>, usize);

fn attachments(b: &[u8]) -> Result<Att, E> {
    let (mut sigs, mut wigs, mut seals) = (vec![], vec![], vec![]);
    let mut at = 0;
    while at < b.len() && b[at] != b'{' {
        let bin = b[at] >> 5 == 7;
        fn next<M: Matter>(b: &[u8], at: &mut usize, bin: bool, f: impl Fn(Option<&[u8]>, Option<&[u8]>) -> Result<M, E>) -> Result<M, E> {
            let m = if bin { f(None, Some(&b[*at..]))? } else { f(Some(&b[*at..]), None)? };
            *at += if bin { es(m.qb2())?.len() } else { es(m.qb64b())?.len() };
            Ok(m)
        }
        let k = es(if bin { Counter::new(None, None, None, None, None, Some(&b[at..])) } else { Counter::new(None, None, None, Some(&b[at..]), None, None) })?;
        at += if bin { es(k.qb2())?.len() } else { es(k.qb64b())?.len() };
        match k.code().as_str() {
            "-A" | "-B" => {
                for _ in 0..k.count() {
                    let s = es(if bin { Siger::new_with_qb2(&b[at..], None) } else { Siger::new_with_qb64b(&b[at..], None) })?;
                    at += if bin { es(s.qb2())?.len() } else { es(s.qb64b())?.len() };
                    if k.code() == "-A" {
                        sigs.push(s)
                    } else {
                        wigs.push(s)
                    }
                }
            }
            "-G" => {
                for _ in 0..k.count() {
                    let s = next(b, &mut at, bin, |t, x| es(Seqner::new(None, None, None, None, t, None, x)))?;
                    let d = next(b, &mut at, bin, |t, x| es(Diger::new(None, None, None, t, None, x)))?;
                    seals.push((es(s.sn())?, es(d.qb64())?));
                }
            }
            "-V" => {
                let n = k.count() as usize * if bin { 3 } else { 4 };
                if b.len() < at + n {
                    return Err("window not whole".into());
                }
            }
            x => return Err(format!("group {x}")),
        }
    }
    Ok((sigs, wigs, seals, at))
}

enum Took {
    /// not usable, or of no use
    No(String),
    Kept,
    Receipt,
}

impl Node {
    fn len(&self, pre: &str) -> usize {
        self.logs.get(pre).map(|l| l.len()).unwrap_or(0)
    }

    /// One message with its attachments. Returns what became of it, and how many bytes it takes
    fn take(&mut self, b: &[u8], code: &str) -> (Took, usize) {
        match self.take_(b, code) {
            Ok(x) => x,
            Err(e) => (Took::No(e), 0),
        }
    }

    fn take_(&mut self, b: &[u8], code: &str) -> Result<(Took, usize), E> {
        let receipt = code == "E" && b.windows(9).take(60).any(|w| w == b"\"t\":\"rct\"");
        let sd = es(Serder::new(Some(code), Some(b), None, None, None))?;
        let n = sd.raw().len();
        let (sigs, wigs, anchors, m) = attachments(&b[n..])?;
        let used = n + m;
        let ked = sd.ked();
        let pre = es(sd.pre())?;
        let sn = es(sd.sn())?;
        let said = es(sd.said())?;
        if receipt {
            let mut any = false;
            for (k, p) in self.partial.iter_mut() {
                if k.0 == pre && p.said == said && p.sn == sn {
                    p.add(vec![], wigs.clone())?;
                    any = true;
                }
            }
            if any {
                return Ok((Took::Receipt, used));
            }
            return Ok((Took::No("receipt of nothing known".into()), used));
        }
        let ilk = es(field(&ked, "t")?.to_string())?;
        match ilk.as_str() {
            "icp" | "dip" => {
                if sn != 0 {
                    return Err("inception not first".into());
                }
                let p = es(Prefixer::new_with_qb64(&pre))?;
                if !es(p.verify(&ked, Some(true)))? {
                    return Err("prefix".into());
                }
                // an identifier that is no digest does not vouch for the event
                let own = p.digestive();
                if own {
                    if said != pre {
                        return Err("said of inception".into());
                    }
                } else if !es(sd.saider().verify(&ked, Some(true), Some(true), None, None, None))? {
                    return Err("said".into());
                }
            }
            "rot" | "drt" | "ixn" => {
                if sn == 0 {
                    return Err("number".into());
                }
                if !es(sd.saider().verify(&ked, Some(true), Some(true), None, None, None))? {
                    return Err("said".into());
                }
            }
            x => return Err(format!("type {x}")),
        }
        if sn < self.len(&pre) as u128 {
            return Ok((Took::No("known number".into()), used));
        }
        let p = self.partial.entry((pre, b[..n].to_vec())).or_insert(Partial { serder: sd, sn, said, sigs: vec![], wigs: vec![], anchors: vec![], seen: Default::default() });
        p.add(sigs, wigs)?;
        for a in anchors {
            if !p.anchors.contains(&a) {
                p.anchors.push(a);
            }
        }
        Ok((Took::Kept, used))
    }

    /// Accept what can be accepted, one event; its identifier
    fn step(&mut self, me: &str) -> Result<Option<String>, E> {
        let keys: Vec<(String, Vec<u8>)> = self.partial.keys().cloned().collect();
        for k in keys {
            let len = self.len(&k.0);
            let p = self.partial.get(&k).unwrap();
            if p.sn < len as u128 {
                self.partial.remove(&k);
                continue;
            }
            if p.sn > len as u128 {
                continue;
            }
            let mut p = p.clone();
            let r = self.judge(&mut p, me);
            self.partial.insert(k.clone(), p);
            if let Ok(Some(e)) = r {
                self.partial.remove(&k);
                self.logs.entry(k.0.clone()).or_default().push(e);
                return Ok(Some(k.0));
            }
        }
        Ok(None)
    }

    fn judge(&self, p: &mut Partial, me: &str) -> Result<Option<Entry>, E> {
        let sd = &p.serder;
        let ked = sd.ked();
        let pre = es(sd.pre())?;
        let ilk = es(field(&ked, "t")?.to_string())?;
        let est = es(sd.est())?;
        let empty = vec![];
        let log = self.logs.get(&pre).unwrap_or(&empty);
        let last = log.last();
        if let Some(l) = last {
            if es(field(&ked, "p")?.to_string())? != l.said {
                return Err("prior".into());
            }
            let first = &log[0];
            let deleg = es(field(&first.serder.ked(), "t")?.to_string())? == "dip";
            if (ilk == "drt") != deleg && ilk != "ixn" {
                return Err("kind of rotation".into());
            }
            if !es(Prefixer::new_with_qb64(&pre))?.transferable() {
                return Err("nothing follows an identifier that cannot be transferred".into());
            }
        } else if ilk != "icp" && ilk != "dip" {
            return Err("no inception".into());
        }
        let list = |label: &str| -> Result<Vec<String>, E> { es(field(&ked, label)?.to_vec())?.iter().map(|v| es(v.to_string())).collect() };
        // key state it is judged by
        let (verfers, kt, digers, nt, wits, toad) = if est {
            let kt = es(sd.tholder())?.ok_or("no threshold")?;
            let nt = es(sd.ntholder())?.ok_or("no next threshold")?;
            let keys = es(sd.verfers())?;
            if kt.size() as usize > keys.len() || keys.is_empty() {
                return Err("threshold and keys".into());
            }
            let toad = es(u128::from_str_radix(&es(field(&ked, "bt")?.to_string())?, 16))?;
            let wits = match last {
                None => {
                    let w: Result<Vec<String>, E> = es(sd.werfers())?.iter().map(|v| es(v.qb64())).collect();
                    w?
                }
                Some(l) => {
                    let (br, ba) = (list("br")?, list("ba")?);
                    let mut w = l.wits.clone();
                    for x in &br {
                        let at = w.iter().position(|y| y == x).ok_or("cut of no witness")?;
                        w.remove(at);
                    }
                    for x in &ba {
                        es(Verfer::new_with_qb64(x))?;
                        if w.contains(x) {
                            return Err("witness added again".into());
                        }
                        w.push(x.clone());
                    }
                    w
                }
            };
            if toad > wits.len() as u128 || (toad == 0) != wits.is_empty() {
                return Err("witness threshold".into());
            }
            (keys, Some(kt), es(sd.digers())?, Some(nt), wits, toad)
        } else {
            let l = last.unwrap();
            (l.verfers.clone(), l.kt.clone(), l.digers.clone(), l.nt.clone(), l.wits.clone(), l.toad)
        };
        // signatures
        let raw = sd.raw();
        let mut good: Vec<Siger> = vec![];
        for (s, seen) in p.sigs.iter_mut() {
            let i = s.index() as usize;
            if *seen || i < verfers.len() && verfers[i].verify(&s.raw(), &raw).unwrap_or(false) {
                *seen = true;
                good.push(s.clone());
            }
        }
        p.sigs.retain(|s| s.1);
        let ix: Vec<u32> = good.iter().map(|s| s.index()).collect();
        if !es(kt.as_ref().ok_or("no threshold")?.satisfy(&ix))? {
            return Err("not enough signatures".into());
        }
        if let (Some(l), true) = (last, est) {
            let mut ex = vec![];
            for s in &good {
                let o = s.ondex() as usize;
                if o < l.digers.len() && es(l.digers[o].verify(&es(verfers[s.index() as usize].qb64b())?))? {
                    ex.push(s.ondex());
                }
            }
            if !es(l.nt.as_ref().ok_or("no next threshold")?.satisfy(&ex))? {
                return Err("not enough keys committed to".into());
            }
        }
        // receipts
        let mut by = BTreeSet::new();
        let mut wigs = vec![];
        for (w, seen) in p.wigs.iter_mut() {
            let i = w.index() as usize;
            if *seen || i < wits.len() && es(Verfer::new_with_qb64(&wits[i]))?.verify(&w.raw(), &raw).unwrap_or(false) {
                *seen = true;
                if by.insert(i) {
                    wigs.push(w.clone());
                }
            }
        }
        p.wigs.retain(|w| w.1);
        if (by.len() as u128) < toad && !wits.iter().any(|w| w == me) {
            return Err("not enough receipts".into());
        }
        // the delegator's word
        let mut anchors = vec![];
        let first_di = if ilk == "dip" { Some(es(field(&ked, "di")?.to_string())?) } else if ilk == "drt" { Some(es(field(&log[0].serder.ked(), "di")?.to_string())?) } else { None };
        if let Some(di) = first_di {
            for (sn, said) in &p.anchors {
                let Some(e) = self.logs.get(&di).and_then(|l| l.get(usize::try_from(*sn).ok()?)) else { continue };
                if e.said != *said {
                    continue;
                }
                for a in es(field(&e.serder.ked(), "a")?.to_vec())? {
                    let Ok(m) = a.to_map() else { continue };
                    let f = |k: &str| m.get(k).and_then(|v| v.to_string().ok()).unwrap_or_default();
                    if f("i") == pre && f("d") == p.said && u128::from_str_radix(&f("s"), 16).ok() == Some(p.sn) {
                        anchors = vec![(*sn, said.clone())];
                    }
                }
            }
            if anchors.is_empty() {
                return Err("not sealed by its delegator".into());
            }
        }
        Ok(Some(Entry { serder: sd.clone(), said: p.said.clone(), sigs: good, wigs, anchors, est, verfers, kt, digers, nt, wits, toad }))
    }

    /// an accepted event as it is kept and sent
    fn record(&self, pre: &str, sn: usize) -> Result<Vec<u8>, E> {
        let e = &self.logs[pre][sn];
        let wigs = if e.wigs.is_empty() { None } else { Some(&e.wigs[..]) };
        let mut s = es(keride::messaging::sim_messagize(&e.serder, Some(&e.sigs), None, wigs, None))?;
        if !e.anchors.is_empty() {
            s += &couples(&e.anchors)?;
        }
        Ok(s.into_bytes())
    }
}

fn couples(a: &[(u128, String)]) -> Result<String, E> {
    let mut s = es(es(Counter::new_with_code_and_count("-G", a.len() as u32))?.qb64())?;
    for (sn, d) in a {
        s += &es(es(Seqner::new_with_sn(*sn))?.qb64())?;
        s += &es(es(Saider::new_with_qb64(d))?.qb64())?;
    }
    Ok(s)
}

// ---------------------------------------------------------------- the world

/// of a message: which parts of it are good, by the reference
#[derive(Clone, Default, Debug)]
struct Worth {
    id: usize,
    sn: usize,
    said: String,
    sigs: BTreeSet<u32>,
    exposed: BTreeSet<u32>,
    wigs: BTreeSet<usize>,
    anchored: bool,
    /// the receipts only count if the event is known
    receipt: bool,
}

#[derive(Clone)]
enum M {
    /// the bytes, what they are worth if they arrive whole, and whether they do
    Bytes(Vec<u8>, Option<Worth>, bool),
    /// events from a number on, please
    Ask(String, usize),
    Tick,
    Up,
}

struct World {
    code: &'static str,
    ids: Vec<Id>,
    nodes: Vec<Node>,
    /// keys of witness nodes
    wkeys: Vec<Option<Key>>,
    /// per node, per (identifier, said): what is certainly there, what may be
    low: Vec<BTreeMap<(usize, String), Worth>>,
    high: Vec<BTreeMap<(usize, String), Worth>>,
    evil: Vec<Key>,
    /// what the reference says of a signature
    memo: std::cell::RefCell<BTreeMap<(String, Vec<u8>, Vec<u8>), bool>>,
    /// on restart a disk may have lost something
    rot: bool,
    forgot: bool,
    /// one key list is this long, if it is not 0
    many: usize,
    crowd: bool,
}

pub fn gen_t(c: &mut Ctx, n: usize) -> T {
    match c.src.weighted(&[4, 2, 2, 1]) {
        0 => T::Num(1 + c.src.below(n as u64)),
        1 => {
            let d = 1 + c.src.below(n as u64);
            T::W(vec![vec![(1, d); n]])
        }
        2 => loop {
            let g: Vec<(u64, u64)> = (0..n)
                .map(|_| {
                    let d = 1 + c.src.below(6);
                    (c.src.below(d + 1), d)
                })
                .collect();
            let t = T::W(vec![g]);
            if t.possible() {
                return t;
            }
            if c.src.chance(1, 4) {
                return T::W(vec![vec![(1, 1); n]]);
            }
        },
        _ => {
            // two groups, each with its own say
            if n < 2 {
                return T::Num(1);
            }
            let k = 1 + c.src.us(n - 1);
            T::W([k, n - k].iter().map(|m| vec![(1, 1 + c.src.below(*m as u64)); *m]).collect())
        }
    }
}

impl World {
    fn wit_text(&self, n: usize) -> String {
        self.wkeys[n].as_ref().unwrap().text()
    }

    /// the event as its controller makes it with the library: the reference has to agree
    fn make(&self, c: &mut Ctx, mut f: Vec<(&str, J)>, own: bool) -> R<(J, Vec<u8>, String, String)> {
        f.insert(0, ("v", s("")));
        let mut j = obj(f);
        let labels: &[&str] = if own { &["d", "i"] } else { &["d"] };
        let (full, bytes, said) = refc::seal(j.clone(), "KERI", self.code, labels);
        j.set("v", s("KERI10JSON000000_"));
        let inception = j.str("p").is_none();
        if inception {
            j.set("d", s(&"#".repeat(refc::dig_len(self.code))));
            let code = if own { self.code.to_string() } else { read(MATTER, j.str("i").unwrap().as_bytes()).unwrap().code };
            let jj = if own { full.clone() } else { j.clone() };
            let p = must!(c, "c07/author", "derive the prefix", Prefixer::new_with_ked(&jj.value(), None, Some(&code)));
            let t = must!(c, "c07/author", "prefix", p.qb64());
            let want = if own { &said } else { full.str("i").unwrap() };
            ensure!(c, t == *want, "c07/author", "prefix {t} of {} should be {want}", full.text());
        }
        let code = self.code;
        let (_, ked) = if own {
            (None, full.value())
        } else {
            j.set("d", s(""));
            let (sd, k) = must!(c, "c07/author", "seal the event", Saider::saidify(&j.value(), Some(code), None, None, None));
            (Some(sd), k)
        };
        let sd = must!(c, "c07/author", "make the event", Serder::new_with_ked(&ked, Some(code), None));
        let raw = lib!(c, "raw", sd.raw());
        ensure!(c, raw == bytes, "c07/author", "event made is {} and should be {}", show(&raw), show(&bytes));
        Ok((full, bytes, said.clone(), if own { said } else { String::new() }))
    }

    fn sign(&self, c: &mut Ctx, keys: &[Key], bytes: &[u8], prior: Option<&[String]>) -> R<Vec<String>> {
        let mut out = vec![];
        for (i, k) in keys.iter().enumerate() {
            let sg = must!(c, "c07/author", "signer", Signer::new_with_raw(&k.seed, Some(k.tr), Some(k.suite)));
            let t = k.text();
            let pos = prior.map(|d| d.iter().position(|x| *x == dig(t.as_bytes(), x)));
            let s = match pos {
                None => must!(c, "c07/author", "sign", sg.sign_indexed(bytes, false, i as u32, None)),
                Some(Some(o)) => must!(c, "c07/author", "sign", sg.sign_indexed(bytes, false, i as u32, Some(o as u32))),
                Some(None) => must!(c, "c07/author", "sign", sg.sign_indexed(bytes, true, i as u32, None)),
            };
            out.push(must!(c, "c07/author", "signature", s.qb64()));
        }
        Ok(out)
    }

    fn seals(&mut self, c: &mut Ctx, id: usize, sn: usize) -> J {
        let mut v = vec![];
        for _ in 0..c.src.small(3) {
            v.push(gen_json(c, 1));
        }
        let todo = std::mem::take(&mut self.ids[id].todo);
        for (d, n) in todo {
            let e = &self.ids[d].evs[n];
            let at = c.src.us(v.len() + 1);
            v.insert(at, obj(vec![("i", s(&self.ids[d].pre)), ("s", s(&format!("{n:x}"))), ("d", s(&e.said))]));
            // the event this seal will be in is not known yet; filled in by the caller
            self.ids[d].evs[n].anchor = Some((sn, String::new()));
        }
        J::Arr(v)
    }

    fn next_keys(&self, c: &mut Ctx, lo: usize) -> (Vec<Key>, Vec<String>, T) {
        let n = if lo > 0 && self.many > 0 && c.src.chance(1, 3) { self.many } else { lo + c.src.small(3) as usize };
        let keys: Vec<Key> = (0..n).map(|_| Key::gen(c, true)).collect();
        let code = if c.src.chance(3, 4) { "E" } else { *c.src.pick(&["F", "G", "H", "I", "0D", "0G"]) };
        let digs = keys.iter().map(|k| refc::dig_text(code, k.text().as_bytes())).collect();
        let t = if n == 0 { T::Num(0) } else { gen_t(c, n) };
        (keys, digs, t)
    }

    fn incept(&mut self, c: &mut Ctx) -> R<()> {
        let deleg = if !self.ids.is_empty() && c.src.chance(1, 3) {
            let d = c.src.us(self.ids.len());
            if self.ids[d].closed {
                None
            } else {
                Some(d)
            }
        } else {
            None
        };
        let basic = deleg.is_none() && c.src.chance(1, 5);
        let fixed = basic && c.src.chance(1, 3);
        let nk = if basic {
            1
        } else if self.many > 0 && self.ids.is_empty() {
            c.probe("long key list");
            self.many
        } else {
            1 + c.src.small(4) as usize
        };
        let keys: Vec<Key> = (0..nk).map(|_| Key::gen(c, !fixed)).collect();
        let kt = gen_t(c, nk);
        let (next, digs, nt) = if fixed { (vec![], vec![], T::Num(0)) } else { self.next_keys(c, 1) };
        let pool: Vec<usize> = (0..self.nodes.len()).filter(|i| self.wkeys[*i].is_some()).collect();
        let mut wits = vec![];
        if !fixed {
            for w in pool {
                if c.src.chance(if self.crowd { 7 } else { 4 }, 8) {
                    wits.push(w);
                }
            }
            c.src.shuffle(&mut wits);
        }
        let bt = if wits.is_empty() { 0 } else { 1 + c.src.us(wits.len()) };
        let ilk = if deleg.is_some() { "dip" } else { "icp" };
        let pre = if basic { keys[0].text() } else { String::new() };
        let mut f = vec![
            ("t", s(ilk)),
            ("d", s("")),
            ("i", s(&pre)),
            ("s", s("0")),
            ("kt", kt.written(c)),
            ("k", strs(&keys.iter().map(|k| k.text()).collect::<Vec<_>>())),
            ("nt", if next.is_empty() { s("0") } else { nt.written(c) }),
            ("n", strs(&digs)),
            ("bt", s(&format!("{bt:x}"))),
            ("b", strs(&wits.iter().map(|w| self.wit_text(*w)).collect::<Vec<_>>())),
            ("c", strs::<&str>(&[])),
            ("a", strs::<&str>(&[])),
        ];
        if let Some(d) = deleg {
            f.push(("di", s(&self.ids[d].pre)));
        }
        let (j, bytes, said, own) = self.make(c, f, !basic)?;
        let pre = if basic { pre } else { own };
        let sigs = self.sign(c, &keys, &bytes, None)?;
        c.ev(format!("identifier {} {pre}: {ilk}, {nk} keys, {kt:?}, next {} {nt:?}, witnesses {wits:?} of which {bt}", self.ids.len(), digs.len()));
        let e = Ev { sn: 0, ilk, said, bytes, j, est: true, keys, kt, next, digs, nt, wits, bt, prior: None, sigs, wigs: Default::default(), anchor: None };
        let n = self.ids.len();
        self.ids.push(Id { pre, evs: vec![e], deleg, todo: vec![], closed: fixed, twin: None, chosen: None });
        if let Some(d) = deleg {
            self.ids[d].todo.push((n, 0));
            c.probe("delegated");
        }
        Ok(())
    }

    /// the next event of an identifier
    fn event(&mut self, c: &mut Ctx, id: usize, must_rot: bool, ilk_ixn: bool, twin: bool) -> R<Ev> {
        let h = if twin { self.ids[id].evs[self.ids[id].evs.len() - 2].clone() } else { self.ids[id].head().clone() };
        let sn = h.sn + 1;
        let pre = self.ids[id].pre.clone();
        let mut f = vec![("d", s("")), ("i", s(&pre)), ("s", s(&format!("{sn:x}"))), ("p", s(&h.said))];
        let deleg = self.ids[id].deleg.is_some();
        let rot = !h.next.is_empty() && (must_rot || !ilk_ixn);
        let mut e = h.clone();
        if rot {
            // which of the committed keys come to light: enough of them
            let mut ex: Vec<usize> = (0..h.next.len()).collect();
            c.src.shuffle(&mut ex);
            let style = c.src.below(3);
            if style > 0 {
                let mut cut = ex.len();
                while cut > 1 && h.nt.satisfied(&ex[..cut - 1].iter().map(|x| *x as u32).collect::<Vec<_>>()) && c.src.chance(4, 5) {
                    cut -= 1;
                }
                if cut < ex.len() {
                    c.probe("keys held in reserve");
                }
                ex.truncate(cut);
            } else if c.src.chance(1, 2) {
                ex.sort();
            }
            let mut keys: Vec<Key> = ex.iter().map(|i| h.next[*i].clone()).collect();
            if c.src.chance(1, 4) {
                for _ in 0..1 + c.src.us(2) {
                    let k = Key::gen(c, true);
                    let at = c.src.us(keys.len() + 1);
                    keys.insert(at, k);
                }
                c.probe("keys not committed to before");
            }
            let kt = gen_t(c, keys.len());
            let last = c.src.chance(1, 15) && !twin;
            let (mut next, mut digs, mut nt) = self.next_keys(c, if last { 0 } else { 1 });
            if last {
                next.clear();
                digs.clear();
                nt = T::Num(0);
            } else if style > 0 && c.src.chance(1, 3) {
                // keys in reserve are committed to again
                for i in 0..h.next.len() {
                    if !ex.contains(&i) {
                        digs.push(refc::dig_text("E", h.next[i].text().as_bytes()));
                        next.push(h.next[i].clone());
                    }
                }
                nt = gen_t(c, next.len());
            }
            // witnesses
            let mut br = vec![];
            let mut ba = vec![];
            let mut wits = h.wits.clone();
            if c.src.chance(1, 2) {
                for w in h.wits.iter() {
                    if c.src.chance(1, 3) {
                        br.push(*w);
                        wits.retain(|x| x != w);
                    }
                }
                for w in 0..self.nodes.len() {
                    if self.wkeys[w].is_some() && !h.wits.contains(&w) && c.src.chance(1, 3) {
                        ba.push(w);
                        wits.push(w);
                    }
                }
                if !br.is_empty() || !ba.is_empty() {
                    c.probe("witnesses changed");
                }
            }
            let mut bt = if wits.is_empty() { 0 } else { 1 + c.src.us(wits.len()) };
            if !wits.is_empty() && c.src.chance(1, 2) {
                bt = wits.len() / 2 + 1;
            }
            let wt = |v: &[usize], w: &World| strs(&v.iter().map(|x| w.wit_text(*x)).collect::<Vec<_>>());
            f.insert(0, ("t", s(if deleg { "drt" } else { "rot" })));
            f.extend([
                ("kt", kt.written(c)),
                ("k", strs(&keys.iter().map(|k| k.text()).collect::<Vec<_>>())),
                ("nt", if next.is_empty() { s("0") } else { nt.written(c) }),
                ("n", strs(&digs)),
                ("bt", s(&format!("{bt:x}"))),
                ("br", wt(&br, self)),
                ("ba", wt(&ba, self)),
            ]);
            e.prior = Some((h.digs.clone(), h.nt.clone()));
            (e.keys, e.kt, e.next, e.digs, e.nt, e.wits, e.bt) = (keys, kt, next, digs, nt, wits, bt);
            e.ilk = if deleg { "drt" } else { "rot" };
        } else {
            f.insert(0, ("t", s("ixn")));
            e.prior = None;
            e.ilk = "ixn";
        }
        let a = if twin { J::Arr(vec![s("the other version"), J::Num(c.src.below(1000).to_string())]) } else { self.seals(c, id, sn) };
        f.push(("a", a));
        let (j, bytes, said, _) = self.make(c, f, false)?;
        let prior = e.prior.as_ref().map(|p| p.0.clone());
        e.sigs = self.sign(c, &e.keys, &bytes, prior.as_deref())?;
        e.wigs.clear();
        e.anchor = None;
        (e.sn, e.est, e.j, e.bytes, e.said) = (sn, rot, j, bytes, said);
        Ok(e)
    }

    /// seals in it can be pointed to now
    fn pointed(&mut self, id: usize, e: &Ev) {
        for d in 0..self.ids.len() {
            if self.ids[d].deleg == Some(id) {
                for x in self.ids[d].evs.iter_mut() {
                    if x.anchor.as_ref().map(|a| a.1.is_empty()).unwrap_or(false) {
                        x.anchor = Some((e.sn, e.said.clone()));
                    }
                }
            }
        }
    }

    fn advance(&mut self, c: &mut Ctx, id: usize, rot: bool) -> R<()> {
        let ixn = c.src.chance(3, 5);
        let e = self.event(c, id, rot, ixn, false)?;
        self.pointed(id, &e);
        if let (true, Some(d)) = (e.est, self.ids[id].deleg) {
            let n = self.ids[id].evs.len();
            self.ids[d].todo.push((id, n));
        }
        c.ev(format!("identifier {id} {} {} {}: {} keys {:?}, next {} {:?}, witnesses {:?} of which {}", e.ilk, e.sn, e.said, e.keys.len(), e.kt, e.digs.len(), e.nt, e.wits, e.bt));
        if e.est && e.next.is_empty() {
            self.ids[id].closed = true;
            c.probe("identifier given up");
        }
        self.ids[id].evs.push(e);
        Ok(())
    }

    fn genuine(&self, e: &Ev, key: &Key, sig: &[u8]) -> bool {
        *self.memo.borrow_mut().entry((e.said.clone(), key.public(), sig.to_vec())).or_insert_with(|| refc::verify(key.ver_code(), &key.public(), &e.bytes, sig))
    }

    /// what signatures, receipts and couples sent with an event are worth
    fn worth(&self, id: usize, e: &Ev, sigs: &[String], wigs: &[String], anchored: bool) -> Worth {
        let mut w = Worth { id, sn: e.sn, said: e.said.clone(), anchored, ..Default::default() };
        for t in sigs {
            let Some(k) = read(INDEXER, t.as_bytes()) else { continue };
            let Some(key) = e.keys.get(k.index as usize) else { continue };
            if !self.genuine(e, key, &k.raw) {
                continue;
            }
            w.sigs.insert(k.index);
            let r = row(INDEXER, &k.code).unwrap();
            let big = r.os > 0;
            let o = if big { k.ondex } else { k.index };
            if crate::items::IDX_CRT.contains(&k.code.as_str()) {
                continue;
            }
            if let Some((digs, _)) = &e.prior {
                if digs.get(o as usize).map(|d| *d == dig(key.text().as_bytes(), d)).unwrap_or(false) {
                    w.exposed.insert(o);
                }
            }
        }
        for t in wigs {
            let Some(k) = read(INDEXER, t.as_bytes()) else { continue };
            let Some(n) = e.wits.get(k.index as usize) else { continue };
            let key = self.wkeys[*n].as_ref().unwrap();
            if self.genuine(e, key, &k.raw) {
                w.wigs.insert(k.index as usize);
            }
        }
        w
    }

    /// would an event be accepted by that node with that much?
    fn enough(&self, node: usize, e: &Ev, w: &Worth) -> bool {
        let v = |s: &BTreeSet<u32>| s.iter().copied().collect::<Vec<_>>();
        e.kt.satisfied(&v(&w.sigs))
            && e.prior.as_ref().map(|(_, t)| t.satisfied(&v(&w.exposed))).unwrap_or(true)
            && (w.wigs.len() >= e.bt || e.wits.contains(&node))
            && (!matches!(e.ilk, "dip" | "drt") || w.anchored)
    }
}

/// digest of the kind the given one is of
fn dig(b: &[u8], like: &str) -> String {
    match read(MATTER, like.as_bytes()) {
        Some(k) => refc::dig_text(&k.code, b),
        None => String::new(),
    }
}

/// a message made with the library
fn message(c: &mut Ctx, code: &str, bytes: &[u8], sigs: &[String], wigs: &[String], anchors: &[(usize, String)]) -> R<Vec<u8>> {
    let style = c.src.below(5);
    let r = c.call("frame a message", || {
        let sd = es(Serder::new(Some(code), Some(bytes), None, None, None))?;
        let conv = |v: &[String]| v.iter().map(|t| es(Siger::new_with_qb64(t, None))).collect::<Result<Vec<_>, _>>();
        let (s, w) = (conv(sigs)?, conv(wigs)?);
        let so = if s.is_empty() && !w.is_empty() { None } else { Some(&s[..]) };
        let wo = if w.is_empty() { None } else { Some(&w[..]) };
        let mut t = es(keride::messaging::sim_messagize(&sd, so, None, wo, None))?;
        if !anchors.is_empty() {
            t += &couples(&anchors.iter().map(|(n, d)| (*n as u128, d.clone())).collect::<Vec<_>>())?;
        }
        let att = t.split_off(bytes.len());
        Ok::<_, E>(match style {
            0 => {
                // as binary
                let mut b = t.into_bytes();
                b.extend(dec(att.as_bytes()).ok_or("attachments")?);
                b
            }
            1 if att.len() / 4 < 4096 => {
                let k = es(es(Counter::new_with_code_and_count("-V", att.len() as u32 / 4))?.qb64())?;
                (t + &k + &att).into_bytes()
            }
            _ => (t + &att).into_bytes(),
        })
    })?;
    match r {
        Ok(b) => Ok(b),
        Err(e) => c.done("c07/frame", format!("{} cannot be framed: {e}", show(bytes))),
    }
}

impl World {
    /// the event, with all or some of what is known of it
    fn publish(&self, c: &mut Ctx, id: usize, e: &Ev, all: bool) -> R<M> {
        let part = !all && c.src.chance(1, 2);
        let mut sigs = e.sigs.clone();
        let mut wigs: Vec<String> = e.wigs.values().cloned().collect();
        if part {
            sigs.retain(|_| c.src.chance(2, 3));
            wigs.retain(|_| c.src.chance(2, 3));
        }
        if c.src.chance(1, 3) {
            c.src.shuffle(&mut sigs);
            c.src.shuffle(&mut wigs);
        }
        let anchors: Vec<(usize, String)> = match &e.anchor {
            Some(a) if !a.1.is_empty() && (!part || c.src.chance(1, 2)) => vec![a.clone()],
            _ => vec![],
        };
        let w = self.worth(id, e, &sigs, &wigs, !anchors.is_empty());
        let b = message(c, self.code, &e.bytes, &sigs, &wigs, &anchors)?;
        Ok(M::Bytes(b, Some(w), true))
    }

    fn node_code(&self) -> &'static str {
        self.code
    }

    /// after a delivery: accept what can be accepted, and compare with what should and what may be
    fn settle(&mut self, c: &mut Ctx, v: usize) -> R<Vec<(usize, usize)>> {
        let me = if self.wkeys[v].is_some() { self.wit_text(v) } else { String::new() };
        let mut done = vec![];
        loop {
            let mut node = std::mem::take(&mut self.nodes[v]);
            let r = c.call("judge", || node.step(&me))?;
            self.nodes[v] = node;
            let Ok(Some(pre)) = r else { break };
            let log = &self.nodes[v].logs[&pre];
            let e = log.last().unwrap();
            let sn = log.len() - 1;
            let raw = lib!(c, "raw", e.serder.raw());
            let Some(id) = self.ids.iter().position(|x| x.pre == pre) else {
                fail!(c, "c07/stranger", "node {v} accepts an event of {pre}, an identifier nobody made: {}", show(&raw));
            };
            let Some(ev) = self.ids[id].version(sn, &raw) else {
                fail!(c, "c07/forged", "node {v} accepts at {sn} of identifier {id} an event its controller never made: {} with {} signatures", show(&raw), e.sigs.len());
            };
            let ev = ev.clone();
            let w = self.high[v].get(&(id, ev.said.clone())).cloned().unwrap_or_default();
            ensure!(
                c,
                self.enough(v, &ev, &w),
                "c07/proof",
                "node {v} accepts event {sn} of identifier {id} ({} {:?}, prior {:?}, {} receipts of {}) though it got valid signatures {:?}, committed keys {:?}, receipts {:?}, sealed {}",
                ev.ilk,
                ev.kt,
                ev.prior.as_ref().map(|p| &p.1),
                ev.bt,
                ev.wits.len(),
                w.sigs,
                w.exposed,
                w.wigs,
                w.anchored
            );
            // of two versions only one
            if self.ids[id].twin.as_ref().map(|t| t.sn) == Some(sn) && !ev.wits.contains(&v) && !self.forgot {
                match &self.ids[id].chosen {
                    None => self.ids[id].chosen = Some(ev.said.clone()),
                    Some(s) => ensure!(c, *s == ev.said, "c07/diverge", "node {v} accepts version {} at {sn} of identifier {id}, another node version {s}", ev.said),
                }
            }
            c.ev(format!("node {v} accepts {} {sn} of {id}", ev.ilk));
            c.probe(match ev.ilk {
                "icp" => "inception accepted",
                "dip" => "delegated inception accepted",
                "rot" => "rotation accepted",
                "drt" => "delegated rotation accepted",
                _ => "interaction accepted",
            });
            done.push((id, sn));
        }
        Ok(done)
    }

    /// nothing that had to be accepted was not
    fn progress(&self, c: &mut Ctx, v: usize, when: &str) -> R<()> {
        for (id, x) in self.ids.iter().enumerate() {
            let n = self.nodes[v].len(&x.pre);
            let Some(e) = x.evs.get(n) else { continue };
            if x.twin.as_ref().map(|t| t.sn) == Some(n) {
                continue;
            }
            let Some(w) = self.low[v].get(&(id, e.said.clone())) else { continue };
            if let (Some(d), Some((an, _))) = (x.deleg, &e.anchor) {
                if matches!(e.ilk, "dip" | "drt") && self.nodes[v].len(&self.ids[d].pre) <= *an {
                    continue;
                }
                // two versions of what seals it
                if self.ids[d].twin.as_ref().map(|t| t.sn) == Some(*an) {
                    continue;
                }
            }
            c.checks += 1;
            if self.enough(v, e, w) {
                return c.done(
                    "c07/refused",
                    format!(
                        "node {v} does not accept event {n} of identifier {id} ({} {:?}, prior {:?}, {} receipts of {}) though it got valid signatures {:?}, committed keys {:?}, receipts {:?} ({when}): {}",
                        e.ilk,
                        e.kt,
                        e.prior.as_ref().map(|p| &p.1),
                        e.bt,
                        e.wits.len(),
                        w.sigs,
                        w.exposed,
                        w.wigs,
                        self.why(v, &x.pre)
                    ),
                );
            }
        }
        Ok(())
    }

    fn why(&self, v: usize, pre: &str) -> String {
        let me = if self.wkeys[v].is_some() { self.wit_text(v) } else { String::new() };
        let n = self.nodes[v].len(pre);
        let mut out = vec![];
        for (k, p) in &self.nodes[v].partial {
            if k.0 == pre && p.sn == n as u128 {
                if let Err(e) = self.nodes[v].judge(&mut p.clone(), &me) {
                    out.push(e);
                }
            }
        }
        format!("{out:?}")
    }

    fn note(map: &mut BTreeMap<(usize, String), Worth>, w: &Worth, sure: bool) {
        let k = (w.id, w.said.clone());
        if sure && w.receipt && !map.contains_key(&k) {
            return;
        }
        let e = map.entry(k).or_insert_with(|| Worth { id: w.id, sn: w.sn, said: w.said.clone(), ..Default::default() });
        e.sigs.extend(&w.sigs);
        e.exposed.extend(&w.exposed);
        e.wigs.extend(&w.wigs);
        e.anchored |= w.anchored;
    }
}

// ---------------------------------------------------------------- the adversary

impl World {
    fn forge(&self, c: &mut Ctx, to: usize) -> R<Option<M>> {
        let id = c.src.us(self.ids.len());
        let x = &self.ids[id];
        let n = c.src.us(x.evs.len());
        let base = x.evs[n].clone();
        let head = x.head().clone();
        let code = self.code;
        let evil: Vec<Key> = self.evil.clone();
        let sealed = |j: J, own: bool| refc::seal(j, "KERI", code, if own { &["d", "i"] } else { &["d"] });
        let text = |keys: &[Key]| strs(&keys.iter().map(|k| k.text()).collect::<Vec<_>>());
        let plain = |keys: &[Key], b: &[u8]| -> Vec<String> {
            keys.iter().enumerate().map(|(i, k)| indexer_text(match k.suite { "A" => "A", "J" => "C", _ => "E" }, i as u32, i as u32, &refc::sign(k.suite, &k.seed, b))).collect()
        };
        // sn and prior of an event that would come next at the receiver
        let at = self.nodes[to].len(&x.pre);
        let prev = if at > 0 { x.evs.get(at - 1) } else { None };
        let follow = |ilk: &str, keys: &[Key], next: &[String], p: &Ev| {
            let mut f = vec![("v", s("")), ("t", s(ilk)), ("d", s("")), ("i", s(&x.pre)), ("s", s(&format!("{:x}", p.sn + 1))), ("p", s(&p.said))];
            if ilk != "ixn" {
                f.extend([
                    ("kt", s(&format!("{:x}", keys.len()))),
                    ("k", text(keys)),
                    ("nt", s("1")),
                    ("n", strs(next)),
                    ("bt", s(&format!("{:x}", p.bt))),
                    ("br", strs::<&str>(&[])),
                    ("ba", strs::<&str>(&[])),
                ]);
            }
            f.push(("a", strs::<&str>(&[])));
            obj(f)
        };
        let edig = vec![refc::dig_text("E", evil[0].text().as_bytes())];
        let rot = if x.deleg.is_some() { "drt" } else { "rot" };
        let kind = c.src.below(14);
        let name: &'static str;
        // bytes, signatures, receipts, couples, and the event if it is a true one
        let (bytes, sigs, wigs, anchors, truth): (Vec<u8>, Vec<String>, Vec<String>, Vec<(usize, String)>, Option<Ev>);
        let real = |e: &Ev| -> Vec<String> { e.wigs.values().cloned().collect() };
        match kind {
            0 => {
                name = "interaction signed by others";
                let Some(p) = prev else { return Ok(None) };
                let (_, b, _) = sealed(follow("ixn", &[], &[], p), false);
                let mut ks = evil.clone();
                while ks.len() < p.keys.len() {
                    ks.push(evil[0].clone());
                }
                sigs = plain(&ks[..p.keys.len()], &b);
                (bytes, wigs, anchors, truth) = (b, real(p), vec![], None);
            }
            1 => {
                name = "rotation to keys of others";
                let Some(p) = prev else { return Ok(None) };
                let (_, b, _) = sealed(follow(rot, &evil, &edig, p), false);
                let mut v = plain(&evil, &b);
                v.extend(p.sigs.clone());
                (bytes, sigs, wigs, anchors, truth) = (b, v, real(p), p.anchor.iter().cloned().collect(), None);
            }
            2 => {
                // stolen current keys do not rotate
                name = "rotation by current keys";
                let Some(p) = prev else { return Ok(None) };
                if p.next.iter().any(|k| p.keys.contains(k)) {
                    return Ok(None);
                }
                let (_, b, _) = sealed(follow(rot, &p.keys, &edig, p), false);
                let v = if c.src.chance(1, 2) {
                    plain(&p.keys, &b)
                } else {
                    // claiming the places of the committed keys
                    p.keys
                        .iter()
                        .enumerate()
                        .map(|(i, k)| indexer_text(match k.suite { "A" => "2A", "J" => "2C", _ => "2E" }, i as u32, c.src.below(p.digs.len().max(1) as u64) as u32, &refc::sign(k.suite, &k.seed, &b)))
                        .collect()
                };
                (bytes, sigs, wigs, anchors, truth) = (b, v, real(p), p.anchor.iter().cloned().collect(), None);
            }
            3 | 4 => {
                // a true event altered, sealed again or not, with its signatures
                name = "altered event with true signatures";
                let e = if c.src.chance(1, 2) { base.clone() } else { x.evs.get(at).cloned().unwrap_or(head.clone()) };
                let mut j = e.j.clone();
                let labels: Vec<String> = j.fields().iter().map(|f| f.0.clone()).filter(|l| l != "v").collect();
                let l = c.src.pick(&labels).clone();
                match l.as_str() {
                    "s" => j.set("s", s(c.src.pick(&[format!("{:x}", e.sn + 1), format!("0{:x}", e.sn), format!("{:x}", e.sn + 16), "-1".into(), String::new(), format!("{}", e.sn + 10)]))),
                    "kt" => j.set("kt", s(*c.src.pick(&["1", "0", "2", "f"]))),
                    "nt" => j.set("nt", s(*c.src.pick(&["1", "0", "2"]))),
                    "bt" => j.set("bt", s(*c.src.pick(&["0", "1", "2"]))),
                    "k" => j.set("k", text(&evil)),
                    "n" => j.set("n", strs(&edig)),
                    "b" | "br" | "ba" => {
                        let v = if c.src.chance(1, 2) { vec![] } else { vec![Key { tr: false, ..evil[0].clone() }.text()] };
                        j.set(&l, strs(&v));
                    }
                    "a" => j.set("a", J::Arr(vec![s("another")])),
                    "p" => j.set("p", s(&head.said)),
                    "i" | "di" => j.set(&l, s(&self.ids[c.src.us(self.ids.len())].pre)),
                    "t" => j.set("t", s(*c.src.pick(&["icp", "rot", "ixn", "drt", "dip"]))),
                    _ => {}
                }
                if j.text() == e.j.text() {
                    return Ok(None);
                }
                let b = match c.src.below(3) {
                    0 => {
                        refc::resize(&mut j, "KERI");
                        j.text().into_bytes()
                    }
                    1 => sealed(j, e.sn == 0 && e.said == x.pre).1,
                    _ => sealed(j, false).1,
                };
                if x.version(e.sn, &b).is_some() {
                    return Ok(None);
                }
                (bytes, sigs, wigs, anchors, truth) = (b, e.sigs.clone(), real(&e), e.anchor.iter().cloned().collect(), None);
            }
            5 | 6 | 7 => {
                // a true event, with signatures that are not enough, repeated, moved or made up
                name = "true event with doubtful signatures";
                let e = if c.src.chance(2, 3) { x.evs.get(at).cloned().unwrap_or(base.clone()) } else { base.clone() };
                let mut v: Vec<String> = vec![];
                let other = c.src.pick(&x.evs).clone();
                let k = 1 + c.src.us(e.sigs.len() + 2);
                for _ in 0..k {
                    let i = c.src.us(e.sigs.len());
                    let mut t = e.sigs[i].clone();
                    match c.src.below(6) {
                        0 => {}
                        1 => t = e.sigs[0].clone(),
                        2 => t = other.sigs[i % other.sigs.len()].clone(),
                        3 => {
                            // another position
                            let r = read(INDEXER, t.as_bytes()).unwrap();
                            let to = c.src.below(e.keys.len() as u64 + 1) as u32;
                            let rr = row(INDEXER, &r.code).unwrap();
                            let on = if rr.os > 0 { r.ondex } else { to };
                            t = indexer_text(&r.code, to, on, &r.raw);
                        }
                        4 => {
                            // another prior position
                            let r = read(INDEXER, t.as_bytes()).unwrap();
                            let suite = e.keys[r.index as usize].suite;
                            let n = e.prior.as_ref().map(|p| p.0.len()).unwrap_or(1) as u64;
                            t = indexer_text(match suite { "A" => "2A", "J" => "2C", _ => "2E" }, r.index, c.src.below(n + 1) as u32, &r.raw);
                        }
                        _ => {
                            let ek = c.src.pick(&evil).clone();
                            t = indexer_text(match ek.suite { "A" => "A", "J" => "C", _ => "E" }, i as u32, i as u32, &refc::sign(ek.suite, &ek.seed, &e.bytes));
                        }
                    }
                    v.push(t);
                }
                let mut w: Vec<String> = vec![];
                for _ in 0..c.src.us(e.wits.len() + 1) {
                    let i = c.src.below(e.wits.len() as u64) as u32;
                    match c.src.below(3) {
                        0 => {
                            let ek = c.src.pick(&evil).clone();
                            w.push(indexer_text(match ek.suite { "A" => "B", "J" => "D", _ => "F" }, i, 0, &refc::sign(ek.suite, &ek.seed, &e.bytes)));
                        }
                        k => {
                            // one receipt many times, at its place or another
                            if let Some(t) = e.wigs.values().next() {
                                let r = read(INDEXER, t.as_bytes()).unwrap();
                                w.push(if k == 1 { t.clone() } else { indexer_text(&r.code, i, if row(INDEXER, &r.code).unwrap().os > 0 { i } else { 0 }, &r.raw) });
                            }
                        }
                    }
                }
                let an: Vec<(usize, String)> = if c.src.chance(1, 2) { vec![(c.src.us(3), head.said.clone())] } else { vec![] };
                (bytes, sigs, wigs, anchors, truth) = (e.bytes.clone(), v, w, an, Some(e));
            }
            8 | 9 => {
                // old keys: another version of what the receiver has
                name = "second version by keys given up";
                if self.rot || at == 0 {
                    return Ok(None);
                }
                let sn = c.src.us(at);
                let Some(e) = x.evs.get(sn).cloned() else { return Ok(None) };
                if x.twin.is_some() {
                    return Ok(None);
                }
                let mut j = e.j.clone();
                if sn == 0 && e.said == x.pre {
                    j.set("a", J::Arr(vec![s("another")]));
                    let (_, b, _) = sealed(j, false);
                    (bytes, sigs) = (b.clone(), plain(&e.keys, &b));
                } else {
                    j.set("a", J::Arr(vec![s("another")]));
                    let (_, b, _) = sealed(j, false);
                    let v = self.sign(c, &e.keys, &b, e.prior.as_ref().map(|p| &p.0[..]))?;
                    (bytes, sigs) = (b, v);
                }
                (wigs, anchors, truth) = (real(&e), e.anchor.iter().cloned().collect(), None);
            }
            10 => {
                // an own identifier passed off: inception with a prefix of somebody else
                name = "inception for another prefix";
                let mut j = x.evs[0].j.clone();
                j.set("k", text(&evil[..1]));
                j.set("kt", s("1"));
                j.set("b", strs::<&str>(&[]));
                j.set("bt", s("0"));
                if j.get("di").is_some() {
                    return Ok(None);
                }
                // self-addressing: seal with that prefix in place, so that only the prefix is wrong
                let (_, b, _) = sealed(j, false);
                let v = plain(&evil[..1], &b);
                (bytes, sigs, wigs, anchors, truth) = (b, v, vec![], vec![], None);
            }
            11 => {
                // all keys of a delegate stolen, but its delegator says nothing
                name = "delegated event without its seal";
                let Some(d) = x.deleg else { return Ok(None) };
                let Some(p) = prev else { return Ok(None) };
                if p.next.is_empty() || !p.wits.is_empty() {
                    return Ok(None);
                }
                let (_, b, _) = sealed(follow("drt", &p.next, &edig, p), false);
                let v = self.sign(c, &p.next, &b, Some(&p.digs))?;
                let de = c.src.pick(&self.ids[d].evs).clone();
                let an = match c.src.below(3) {
                    0 => vec![],
                    1 => vec![(de.sn, de.said.clone())],
                    _ => p.anchor.iter().filter(|a| !a.1.is_empty()).cloned().collect(),
                };
                (bytes, sigs, wigs, anchors, truth) = (b, v, vec![], an, None);
            }
            12 => {
                // events of one type as the other
                name = "rotation of a kind the identifier does not have";
                let Some(p) = prev else { return Ok(None) };
                if p.next.is_empty() || p.bt > 0 || x.deleg.is_none() {
                    return Ok(None);
                }
                let (_, b, _) = sealed(follow("rot", &p.next, &edig, p), false);
                let v = self.sign(c, &p.next, &b, Some(&p.digs))?;
                (bytes, sigs, wigs, anchors, truth) = (b, v, vec![], vec![], None);
            }
            _ => {
                // raw bytes written differently
                name = "true event written differently";
                let e = x.evs.get(at).cloned().unwrap_or(base.clone());
                let t = String::from_utf8_lossy(&e.bytes).to_string();
                let t = match c.src.below(3) {
                    0 => t.replacen("\":", "\": ", 1),
                    1 => t.replacen("JSON", "CBOR", 1),
                    _ => t.replacen(",", ", ", 1),
                };
                let v = e.sigs.clone();
                let b = t.into_bytes();
                (bytes, sigs, wigs, anchors, truth) = (b, v, real(&e), e.anchor.iter().cloned().collect(), None);
            }
        }
        c.fault("forged message");
        c.fault(name);
        c.ev(format!("adversary: {name} {} at {at} of {id} to {to}", kind));
        let anchors: Vec<(usize, String)> = anchors.into_iter().filter(|a| !a.1.is_empty()).collect();
        let worth = truth.as_ref().map(|e| {
            // couples only count if they are the right ones
            let right = e.anchor.as_ref().map(|a| anchors.contains(a)).unwrap_or(false);
            self.worth(id, e, &sigs, &wigs, right)
        });
        // framed without the library, which need not lend a hand
        let mut t = bytes;
        if !sigs.is_empty() {
            t.extend(counter_text("-A", sigs.len() as u32).bytes());
            t.extend(sigs.concat().bytes());
        }
        if !wigs.is_empty() {
            t.extend(counter_text("-B", wigs.len() as u32).bytes());
            t.extend(wigs.concat().bytes());
        }
        if !anchors.is_empty() {
            t.extend(counter_text("-G", anchors.len() as u32).bytes());
            for (n, d) in &anchors {
                t.extend(matter_text("0A", &(*n as u128).to_be_bytes()).1.bytes());
                t.extend(d.bytes());
            }
        }
        Ok(Some(M::Bytes(t, worth, true)))
    }
}

// ---------------------------------------------------------------- the run

fn corrupt(c: &mut Ctx, b: &mut Vec<u8>) {
    match c.src.below(4) {
        0 => {
            let n = c.src.us(b.len() + 1);
            b.truncate(n);
        }
        1 => {
            let i = c.src.us(b.len());
            b.remove(i);
        }
        _ => {
            let i = c.src.us(b.len());
            b[i] ^= 1 << c.src.below(8);
        }
    }
    c.fault("message damaged");
}

fn send(c: &mut Ctx, net: &mut Net<M>, from: usize, to: usize, m: M) {
    let m = match m {
        M::Bytes(mut b, w, whole) if !net.quiet && net.f.corrupt > 0 && c.src.chance(net.f.corrupt, 1000) => {
            corrupt(c, &mut b);
            let _ = whole;
            M::Bytes(b, w, false)
        }
        m => m,
    };
    net.send(c, from, to, m);
}

/// node v handles bytes; what it does then
fn deliver(c: &mut Ctx, w: &mut World, net: &mut Net<M>, v: usize, from: usize, b: &[u8], worth: Option<Worth>, whole: bool) -> R<()> {
    let code = w.node_code();
    let mut node = std::mem::take(&mut w.nodes[v]);
    let r = c.call("take a message", || node.take(b, code))?;
    w.nodes[v] = node;
    if let Some(x) = &worth {
        World::note(&mut w.high[v], x, false);
        if whole {
            World::note(&mut w.low[v], x, true);
        }
    }
    match &r.0 {
        Took::No(e) => c.ev(format!("node {v} drops {} bytes: {e}", b.len())),
        Took::Kept => c.ev(format!("node {v} keeps {} bytes from {from}{}", b.len(), worth.as_ref().map(|x| format!(": {} of {}, anchored {}", x.sn, x.id, x.anchored)).unwrap_or_default())),
        Took::Receipt => {
            c.probe("receipt");
            c.ev(format!("node {v} gets a receipt"))
        }
    }
    let done = w.settle(c, v)?;
    w.progress(c, v, "as it arrives")?;
    if done.is_empty() {
        // others may not know what it already has, and it may not have what is before this
        if let Some(x) = &worth {
            let n = w.nodes[v].len(&w.ids[x.id].pre);
            if x.sn > n && c.src.chance(1, 3) {
                let pre = w.ids[x.id].pre.clone();
                let k = w.nodes[v].asked.entry((pre.clone(), n)).or_insert(0);
                *k += 1;
                if *k > 3 {
                    return Ok(());
                }
                send(c, net, v, from, M::Ask(pre, n));
            }
        }
    }
    for (id, sn) in done {
        keep(c, w, net, v, id, sn)?;
        if net.is_down(c, v) {
            return Ok(());
        }
        receipt(c, w, net, v, id, sn, None)?;
    }
    Ok(())
}

/// the event goes to disk, unless the node goes down
fn keep(c: &mut Ctx, w: &mut World, net: &mut Net<M>, v: usize, id: usize, sn: usize) -> R<()> {
    let pre = w.ids[id].pre.clone();
    let node = &w.nodes[v];
    let rec = must!(c, "c07/frame", "write a record", node.record(&pre, sn));
    if net.crashes(c) {
        let n = match c.src.below(3) {
            0 => 0,
            1 => {
                c.fault("torn write");
                c.src.us(rec.len())
            }
            _ => rec.len(),
        };
        c.ev(format!("node {v} goes down with {n} of {} bytes written", rec.len()));
        w.nodes[v].disk.extend_from_slice(&rec[..n]);
        down(c, w, net, v);
        return Ok(());
    }
    w.nodes[v].disk.extend(rec);
    Ok(())
}

fn down(c: &mut Ctx, w: &mut World, net: &mut Net<M>, v: usize) {
    let disk = std::mem::take(&mut w.nodes[v].disk);
    w.nodes[v] = Node { disk, ..Default::default() };
    w.low[v].clear();
    w.high[v].clear();
    net.crash(c, v, M::Up);
}

/// start again from what is on disk
fn up(c: &mut Ctx, w: &mut World, v: usize) -> R<()> {
    let mut disk = w.nodes[v].disk.clone();
    if w.rot && !disk.is_empty() && c.src.chance(1, 3) {
        c.fault("bit on disk flipped");
        let i = c.src.us(disk.len());
        disk[i] ^= 1 << c.src.below(8);
        // a witness that loses what it gave a receipt for can give one for another version
        w.forgot |= w.wkeys[v].is_some();
    }
    let mut at = 0;
    let me = if w.wkeys[v].is_some() { w.wit_text(v) } else { String::new() };
    let code = w.node_code();
    let mut node = Node::default();
    let mut good = 0;
    while at < disk.len() {
        let (r, used) = c.call("read a record", || node.take(&disk[at..], code))?;
        if used == 0 || matches!(r, Took::No(_)) {
            break;
        }
        let s = c.call("judge", || node.step(&me))?;
        if !matches!(s, Ok(Some(_))) {
            break;
        }
        at += used;
        good += 1;
    }
    c.ev(format!("node {v} up with {good} events in {at} of {} bytes", disk.len()));
    if at < disk.len() {
        c.probe("end of disk not usable");
    }
    node.partial.clear();
    disk.truncate(at);
    node.disk = disk;
    // what it has is what really happened
    for (pre, log) in &node.logs {
        for (sn, e) in log.iter().enumerate() {
            let raw = e.serder.raw();
            let ok = w.ids.iter().any(|x| x.pre == *pre && x.version(sn, &raw).is_some());
            ensure!(c, ok, "c07/restart", "node {v} starts with an event at {sn} of {pre} nobody made: {}", show(&raw));
        }
    }
    let had = w.nodes[v].disk.len();
    w.nodes[v] = node;
    w.low[v].clear();
    w.high[v].clear();
    c.probe("started from disk");
    let _ = had;
    Ok(())
}

/// a witness tells the controller, and others, what it has seen first
fn receipt(c: &mut Ctx, w: &World, net: &mut Net<M>, v: usize, id: usize, sn: usize, only_to: Option<usize>) -> R<()> {
    let Some(key) = &w.wkeys[v] else { return Ok(()) };
    let pre = w.ids[id].pre.clone();
    let e = &w.nodes[v].logs[&pre][sn];
    let raw = e.serder.raw();
    let Some(ev) = w.ids[id].version(sn, &raw).cloned() else { return Ok(()) };
    let Some(pos) = ev.wits.iter().position(|x| *x == v) else { return Ok(()) };
    let sg = must!(c, "c07/witness", "signer", Signer::new_with_raw(&key.seed, Some(false), Some(key.suite)));
    let only = c.src.chance(1, 2);
    let wig = must!(c, "c07/witness", "sign", sg.sign_indexed(&raw, only, pos as u32, None));
    let t = must!(c, "c07/witness", "signature", wig.qb64());
    let mut worth = w.worth(id, &ev, &[], &[t.clone()], false);
    let b = if w.code == "E" {
        let rs = must!(c, "c07/witness", "receipt", keride::receipting::sim_receipt(&pre, sn as u128, &ev.said, None, None));
        let want = refc_receipt(&pre, sn, &ev.said);
        let got = lib!(c, "raw", rs.raw());
        ensure!(c, got == want, "c07/witness", "receipt {} should be {}", show(&got), show(&want));
        worth.receipt = true;
        let r = c.call("frame a receipt", || es(keride::messaging::sim_messagize(&rs, None, None, Some(&[wig]), None)))?;
        match r {
            Ok(s) => s.into_bytes(),
            Err(e) => fail!(c, "c07/witness", "receipt cannot be framed: {e}"),
        }
    } else {
        message(c, w.code, &raw, &[], &[t], &[])?
    };
    if let Some(n) = only_to {
        send(c, net, v, n, M::Bytes(b, Some(worth), true));
        return Ok(());
    }
    let ctl = w.nodes.len() + id;
    send(c, net, v, ctl, M::Bytes(b.clone(), Some(worth.clone()), true));
    for n in 0..w.nodes.len() {
        if n != v && c.src.chance(1, 3) {
            send(c, net, v, n, M::Bytes(b.clone(), Some(worth.clone()), true));
        }
    }
    Ok(())
}

fn refc_receipt(pre: &str, sn: usize, said: &str) -> Vec<u8> {
    let mut j = obj(vec![("v", s("")), ("t", s("rct")), ("d", s(said)), ("i", s(pre)), ("s", s(&format!("{sn:x}")))]);
    refc::resize(&mut j, "KERI");
    j.text().into_bytes()
}

/// the controller of an identifier gets something: receipts
fn controller(c: &mut Ctx, w: &mut World, id: usize, b: &[u8], worth: &Option<Worth>, whole: bool) -> R<()> {
    let code = w.code;
    let r = c.call("read a receipt", || {
        let sd = es(Serder::new(Some(code), Some(b), None, None, None))?;
        let n = sd.raw().len();
        let (_, wigs, _, _) = attachments(&b[n..])?;
        let d = es(sd.said())?;
        Ok::<_, E>((d, wigs))
    })?;
    let Ok((said, wigs)) = r else {
        if whole && worth.is_some() {
            return c.done("c07/receipt", format!("receipt {} cannot be read: {}", show(b), r.err().unwrap()));
        }
        return Ok(());
    };
    for t in wigs {
        let wkeys = w.wkeys.clone();
        let x = &mut w.ids[id];
        let twin = x.twin.as_mut();
        let Some(e) = x.evs.iter_mut().chain(twin).find(|e| e.said == said) else { continue };
        let i = lib!(c, "index", t.index()) as usize;
        let Some(n) = e.wits.get(i) else { continue };
        let key = wkeys[*n].as_ref().unwrap();
        let v = must!(c, "c07/receipt", "witness key", Verfer::new_with_qb64(&key.text()));
        let ok = lib!(c, "verify", v.verify(&t.raw(), &e.bytes)).unwrap_or(false);
        if ok {
            let q = must!(c, "c07/receipt", "text", t.qb64());
            e.wigs.insert(i, q);
        }
        if whole && worth.as_ref().map(|w| w.wigs.contains(&i)).unwrap_or(false) {
            ensure!(c, ok, "c07/receipt", "receipt of witness {i} for {said} is refused");
        }
    }
    Ok(())
}

fn run(c: &mut Ctx) -> R<()> {
    let faults = Faults::swarm(c);
    // now and then a long history, long key lists, or many witnesses
    let size = c.src.weighted(&[80, 1, 1, 2]);
    let nv = 1 + c.src.us(if size == 0 { 4 } else { 2 });
    let nw = match size {
        1 => 0,
        3 => 5 + c.src.us(5),
        _ => c.src.us(4),
    };
    let nodes = nv + nw;
    let code = if c.src.chance(4, 5) { "E" } else { *c.src.pick(&["F", "G", "H", "I", "0D"]) };
    let mut w = World {
        code,
        ids: vec![],
        nodes: vec![Node::default(); nodes],
        wkeys: (0..nodes).map(|i| if i < nv { None } else { Some(Key::gen(c, false)) }).collect(),
        low: vec![Default::default(); nodes],
        high: vec![Default::default(); nodes],
        evil: vec![],
        memo: Default::default(),
        rot: c.src.chance(1, 3),
        forgot: false,
        many: if size == 2 { 60 + c.src.us(20) } else { 0 },
        crowd: size == 3,
    };
    w.evil = (0..2).map(|_| Key::gen(c, true)).collect();
    let nid = if size == 0 { 1 + c.src.us(3) } else { 1 + c.src.us(2) };
    for _ in 0..nid {
        c.src.begin();
        w.incept(c)?;
        c.src.end();
    }
    let nid = w.ids.len();
    let mut net: Net<M> = Net::new(nodes + nid, faults);
    if size == 1 && !w.ids[0].closed {
        // what happened before
        let n = 248 + c.src.us(12);
        for _ in 0..n {
            let e = w.event(c, 0, false, true, false)?;
            w.pointed(0, &e);
            w.ids[0].evs.push(e);
        }
        for sn in 0..w.ids[0].evs.len() {
            let e = w.ids[0].evs[sn].clone();
            for v in 0..nodes {
                if net.is_down(c, v) {
                    continue;
                }
                if let M::Bytes(b, worth, whole) = w.publish(c, 0, &e, true)? {
                    deliver(c, &mut w, &mut net, v, nodes, &b, worth, whole)?;
                }
            }
        }
        c.probe("long history");
    }
    let hostile = c.src.below(4);
    let budget = 4 + c.src.us(if c.thorough { 24 } else { 12 });
    let mut made = 0;
    for i in 0..nid {
        let t = MS * c.src.range(1, 50);
        net.after(c, nodes + i, t, M::Tick);
    }
    let mut steps = 0;
    let limit = 60 + budget * 12;
    while let Some((to, from, m)) = net.next(c) {
        steps += 1;
        if steps > limit {
            break;
        }
        c.src.begin();
        match m {
            M::Tick => {
                let id = to - nodes;
                tick(c, &mut w, &mut net, id, hostile, &mut made, budget)?;
                let t = MS * c.src.range(1, 200);
                net.after(c, to, t, M::Tick);
            }
            M::Up => up(c, &mut w, to)?,
            M::Ask(pre, n) => answer(c, &w, &mut net, to, from, &pre, n)?,
            M::Bytes(b, worth, whole) => {
                if to >= nodes {
                    controller(c, &mut w, to - nodes, &b, &worth, whole)?;
                } else {
                    deliver(c, &mut w, &mut net, to, from, &b, worth, whole)?;
                }
            }
        }
        c.src.end();
        agree(c, &w)?;
    }
    settle_down(c, &mut w, &mut net)?;
    let mut h = 0u64;
    for (i, n) in w.nodes.iter().enumerate() {
        for x in &w.ids {
            h = mix(h ^ ((i as u64) << 32) ^ n.len(&x.pre) as u64);
        }
    }
    c.state(h ^ c.hash);
    Ok(())
}

fn answer(c: &mut Ctx, w: &World, net: &mut Net<M>, at: usize, to: usize, pre: &str, n: usize) -> R<()> {
    let Some(id) = w.ids.iter().position(|x| x.pre == pre) else { return Ok(()) };
    if at >= w.nodes.len() {
        // the controller itself
        for sn in n..w.ids[id].evs.len().min(n + 4) {
            let e = w.ids[id].evs[sn].clone();
            let m = w.publish(c, id, &e, true)?;
            send(c, net, at, to, m);
        }
        return Ok(());
    }
    let len = w.nodes[at].len(pre);
    for sn in n..len.min(n + 4) {
        let b = must!(c, "c07/frame", "send a record", w.nodes[at].record(pre, sn));
        let e = &w.nodes[at].logs[pre][sn];
        let raw = e.serder.raw();
        let Some(ev) = w.ids[id].version(sn, &raw).cloned() else { continue };
        let texts = |v: &[Siger]| v.iter().map(|x| x.qb64().unwrap_or_default()).collect::<Vec<_>>();
        let right = ev.anchor.as_ref().map(|a| e.anchors.contains(&(a.0 as u128, a.1.clone()))).unwrap_or(false);
        let worth = w.worth(id, &ev, &texts(&e.sigs), &texts(&e.wigs), right);
        send(c, net, at, to, M::Bytes(b, Some(worth), true));
        c.probe("passed on");
        // a witness adds its own word
        receipt(c, w, net, at, id, sn, Some(to))?;
    }
    Ok(())
}

fn tick(c: &mut Ctx, w: &mut World, net: &mut Net<M>, id: usize, hostile: u64, made: &mut usize, budget: usize) -> R<()> {
    let nodes = w.nodes.len();
    let h = w.ids[id].head().clone();
    let sealed = h.anchor.as_ref().map(|a| !a.1.is_empty()).unwrap_or(!matches!(h.ilk, "dip" | "drt"));
    let ready = h.wigs.len() >= h.bt && sealed;
    let busy = !w.ids[id].todo.is_empty();
    if ready && !w.ids[id].closed && (*made < budget && c.src.chance(1, 2) || busy) {
        *made += 1;
        w.advance(c, id, false)?;
        let e = w.ids[id].head().clone();
        let n = e.wits.len();
        // the controller plays false: another version for some of the witnesses
        if n > 0 && e.bt > n / 2 && c.src.chance(1, 6) && !w.ids.iter().any(|x| x.deleg == Some(id)) && w.ids[id].deleg.is_none() {
            let t = w.event(c, id, false, true, true)?;
            if t.ilk == "ixn" && t.wits == e.wits && t.bt == e.bt {
                c.fault("two versions of an event");
                c.ev(format!("second version of {} of {id}: {}", t.sn, t.said));
                w.ids[id].twin = Some(t);
                w.ids[id].closed = true;
            }
        }
    }
    // send something to somebody
    let evs = w.ids[id].evs.len();
    for _ in 0..1 + c.src.us(nodes) {
        let to = c.src.us(nodes);
        let n = if c.src.chance(2, 3) { evs - 1 } else { c.src.us(evs) };
        let mut e = w.ids[id].evs[n].clone();
        if let Some(t) = &w.ids[id].twin {
            if t.sn == n && c.src.chance(1, 2) {
                e = t.clone();
            }
        }
        let m = w.publish(c, id, &e, false)?;
        send(c, net, nodes + id, to, m);
    }
    for _ in 0..c.src.us(1 + hostile as usize) {
        let to = c.src.us(nodes);
        if let Some(m) = w.forge(c, to)? {
            send(c, net, nodes + id, to, m);
        }
    }
    // nodes ask each other now and then
    if c.src.chance(1, 4) {
        let (a, b) = (c.src.us(nodes), c.src.us(nodes));
        let pre = w.ids[id].pre.clone();
        let n = w.nodes[a].len(&pre);
        if !net.is_down(c, a) && a != b {
            send(c, net, a, b, M::Ask(pre, n));
        }
    }
    // and go down when they are doing nothing
    if net.crashes(c) {
        let v = c.src.us(nodes);
        if !net.is_down(c, v) {
            c.ev(format!("node {v} goes down"));
            down(c, w, net, v);
        }
    }
    Ok(())
}

/// any two logs are one the beginning of the other
fn agree(c: &mut Ctx, w: &World) -> R<()> {
    for (id, x) in w.ids.iter().enumerate() {
        for (v, n) in w.nodes.iter().enumerate() {
            let Some(log) = n.logs.get(&x.pre) else { continue };
            c.checks += 1;
            ensure!(c, log.len() <= x.evs.len(), "c07/length", "node {v} has {} events of identifier {id}, which has {}", log.len(), x.evs.len());
            if let (Some(last), None) = (log.last(), &x.twin) {
                ensure!(c, last.said == x.evs[log.len() - 1].said, "c07/diverge", "node {v} has {} at {} of identifier {id} and not {}", last.said, log.len() - 1, x.evs[log.len() - 1].said);
            }
        }
    }
    Ok(())
}

/// faults stop; within a bounded number of rounds everybody has everything
fn settle_down(c: &mut Ctx, w: &mut World, net: &mut Net<M>) -> R<()> {
    let nodes = w.nodes.len();
    net.heal();
    // messages still under way, timers of nodes that are down
    drain(c, w, net)?;
    // delegators seal what is waiting
    for _ in 0..3 {
        for id in 0..w.ids.len() {
            if !w.ids[id].todo.is_empty() && !w.ids[id].closed {
                w.advance(c, id, false)?;
            }
        }
    }
    let stuck: Vec<bool> = {
        // a delegator that has given up seals nothing any more; of two versions perhaps none is accepted
        let mut v: Vec<bool> = w.ids.iter().map(|x| x.twin.is_some() || x.evs.iter().any(|e| matches!(e.ilk, "dip" | "drt") && e.anchor.as_ref().map(|a| a.1.is_empty()).unwrap_or(true))).collect();
        for _ in 0..w.ids.len() {
            for i in 0..v.len() {
                if let Some(d) = w.ids[i].deleg {
                    v[i] |= v[d];
                }
            }
        }
        v
    };
    let gossip = c.src.chance(1, 2);
    // a node that asks is sent four events at most
    let longest = w.ids.iter().map(|x| x.evs.len()).max().unwrap_or(0);
    let rounds = 2 + w.ids.len() * 2 + if gossip { longest / 4 + 1 } else { 0 };
    for round in 0..rounds {
        c.src.begin();
        for id in 0..w.ids.len() {
            // to the witnesses first, then to all, in any order
            let mut list: Vec<usize> = (0..w.ids[id].evs.len()).collect();
            c.src.shuffle(&mut list);
            for n in list {
                let e = w.ids[id].evs[n].clone();
                for v in 0..nodes {
                    // when nodes help each other, only one of them hears from the controller
                    if gossip && v != (id + round) % nodes && !e.wits.contains(&v) {
                        continue;
                    }
                    if w.nodes[v].len(&w.ids[id].pre) > n && (e.wigs.len() >= e.bt || !e.wits.contains(&v)) {
                        continue;
                    }
                    if w.nodes[v].len(&w.ids[id].pre) > n {
                        // it has it already, and says so again
                        receipt(c, w, net, v, id, n, None)?;
                        continue;
                    }
                    let m = w.publish(c, id, &e, true)?;
                    net.send(c, nodes + id, v, m);
                }
            }
        }
        drain(c, w, net)?;
        if gossip {
            for a in 0..nodes {
                for b in 0..nodes {
                    if a != b {
                        for id in 0..w.ids.len() {
                            let pre = w.ids[id].pre.clone();
                            let n = w.nodes[a].len(&pre);
                            if w.nodes[b].len(&pre) > n {
                                net.send(c, a, b, M::Ask(pre, n));
                            }
                        }
                    }
                }
            }
            drain(c, w, net)?;
        }
        c.src.end();
        agree(c, w)?;
    }
    for id in 0..w.ids.len() {
        if stuck[id] {
            continue;
        }
        let x = &w.ids[id];
        for v in 0..nodes {
            c.checks += 1;
            let n = w.nodes[v].len(&x.pre);
            if n != x.evs.len() {
                let e = &x.evs[n];
                return c.done(
                    "c07/stuck",
                    format!(
                        "{rounds} rounds after the last fault node {v} has {n} of {} events of identifier {id}; next is {} with {} of {} receipts, anchor {:?}; {}",
                        x.evs.len(),
                        e.ilk,
                        e.wigs.len(),
                        e.bt,
                        e.anchor,
                        w.why(v, &x.pre)
                    ),
                );
            }
        }
        c.probe("everybody has everything");
    }
    Ok(())
}

fn drain(c: &mut Ctx, w: &mut World, net: &mut Net<M>) -> R<()> {
    let nodes = w.nodes.len();
    let mut steps = 0;
    while let Some((to, from, m)) = net.next(c) {
        steps += 1;
        if steps > 20_000 {
            return c.done("c07/noise", "nodes never come to rest".into());
        }
        match m {
            M::Tick => {}
            M::Up => up(c, w, to)?,
            M::Ask(pre, n) => answer(c, w, net, to, from, &pre, n)?,
            M::Bytes(b, worth, whole) => {
                if to >= nodes {
                    controller(c, w, to - nodes, &b, &worth, whole)?;
                } else {
                    deliver(c, w, net, to, from, &b, worth, whole)?;
                }
            }
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    quick_runs: 3_000,
    quick_secs: 30,
    thorough_secs: 420,
    rule: "one run is up to three identifiers (one or several keys, integer or weighted thresholds, witnesses, delegation), up to five validators and three witnesses, up to sixteen events (in one run of 30 up to nine witnesses, key lists of up to 79 keys, or 260 events before it starts), and an adversary, over a faulty network with crashing nodes that start again from disk; then faults stop and all have to reach the end; distinct: different event log",
    real: &["Serder, Saider, Prefixer, Verfer, Diger, Siger, Tholder, Counter, Seqner, Signer, messagize, receipt"],
    stub: &["network, disk, clock; the rules that combine the library's answers into accepting an event are the simulator's, after sample/keri/kmi/verification.rs"],
    assumptions: &["a record counts as stored when it was written whole", "keys in force are not stolen (keys given up are), except in forgeries that must fail all the same", "witnesses are honest, a controller may not be"],
    findings: &[],
    reach: &[
        "inception accepted",
        "delegated inception accepted",
        "rotation accepted",
        "interaction accepted",
        "receipt",
        "started from disk",
        "end of disk not usable",
        "keys held in reserve",
        "keys not committed to before",
        "witnesses changed",
        "passed on",
        "everybody has everything",
    ],
};
