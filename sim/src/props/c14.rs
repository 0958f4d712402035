//! Indexed signatures: controllers with key lists sign for positions, relays carry them, verifiers
//! look the keys up by the positions they name.

use crate::codec::*;
use crate::ctx::*;
use crate::items::*;
use crate::msgs::Key;
use crate::mutate::*;
use crate::net::*;
use crate::props::c01::any_form;
use crate::refc;
use crate::runner::Prop;
use crate::src::{hash_str, mix};
use keride::cesr::{Indexer, Siger, Verfer};
use keride::signing::Signer;

/// A key list of any length over a few signers: position -> signer
#[derive(Clone)]
struct List {
    len: usize,
    seed: u64,
    m: usize,
}

impl List {
    fn at(&self, i: usize) -> Option<usize> {
        if i < self.len {
            Some((mix(self.seed ^ i as u64) % self.m as u64) as usize)
        } else {
            None
        }
    }
    /// a position of this signer
    fn find(&self, c: &mut Ctx, who: usize) -> Option<usize> {
        let p: Vec<usize> = (0..self.len).filter(|i| self.at(*i) == Some(who)).collect();
        if p.is_empty() {
            return None;
        }
        let edge: Vec<usize> = p.iter().copied().filter(|i| (60..68).contains(i) || *i >= 4090 || *i < 2).collect();
        if !edge.is_empty() && c.src.chance(1, 2) {
            Some(*c.src.pick(&edge))
        } else {
            Some(*c.src.pick(&p))
        }
    }
}

fn letter(suite: &str) -> &'static str {
    match suite {
        "A" => "AB",
        "J" => "CD",
        _ => "EF",
    }
}

/// the smallest form that carries these positions
fn smallest(suite: &str, index: u32, ondex: Option<u32>) -> Option<String> {
    let l = letter(suite);
    let (both, crt) = (&l[..1], &l[1..]);
    if index > 4095 || ondex.map(|o| o > 4095).unwrap_or(false) {
        return None;
    }
    Some(match ondex {
        None if index < 64 => crt.to_string(),
        None => format!("2{crt}"),
        Some(o) if o == index && index < 64 => both.to_string(),
        Some(_) => format!("2{both}"),
    })
}

/// does the code carry these positions?
fn carries(code: &str, index: u32, ondex: Option<u32>) -> bool {
    let Some(r) = row(INDEXER, code) else { return false };
    let ms = r.ss - r.os;
    if index as u64 >= 64u64.pow(ms as u32) {
        return false;
    }
    match ondex {
        None => true,
        Some(_) if IDX_CRT.contains(&code) => false,
        Some(o) if r.os == 0 => o == index,
        Some(o) => (o as u64) < 64u64.pow(r.os as u32),
    }
}

fn position(c: &mut Ctx) -> u32 {
    match c.src.below(4) {
        0 => c.src.small(10) as u32,
        1 => *c.src.pick(&[62u32, 63, 64, 65, 127, 128, 4094, 4095, 4096, 4097, 262_143, 262_144, u32::MAX - 1, u32::MAX, 1 << 24]),
        2 => c.src.below(4200) as u32,
        _ => (c.src.u64() >> (32 + c.src.below(32))) as u32,
    }
}

#[derive(Clone)]
struct Sent {
    text: String,
    code: String,
    index: u32,
    ondex: Option<u32>,
    who: usize,
    msg: usize,
    raw: Vec<u8>,
}

#[derive(Clone)]
enum M {
    Sig(usize, Form, Vec<u8>, bool),
    Up,
}

fn field(c: &mut Ctx, s: &Siger, want: &Sent, what: &str) -> R<()> {
    let od = match want.ondex {
        Some(o) => o,
        None => 0,
    };
    ensure!(c, s.code() == want.code && s.raw() == want.raw, "c14/form", "{what}: {} is {} and should be {}", s.code(), show(&s.raw()), want.code);
    ensure!(c, s.index() == want.index && s.ondex() == od, "c14/position", "{what}: names {} {} and was made for {} {:?}", s.index(), s.ondex(), want.index, want.ondex);
    Ok(())
}

/// codes with positions by themselves
fn direct(c: &mut Ctx) -> R<()> {
    let code = c.src.pick(INDEXER).code;
    let raw = c.src.random(row(INDEXER, code).unwrap().raw());
    let index = position(c);
    let ondex = match c.src.below(3) {
        0 => None,
        1 => Some(index),
        _ => Some(position(c)),
    };
    let ok = carries(code, index, ondex);
    let siger = IDX.contains(&code);
    let r = lib!(c, "indexed", {
        let x = <AnyI as Indexer>::new(Some(index), ondex, Some(code), Some(&raw), None, None, None);
        es(x).and_then(|x| Ok((x.index(), x.ondex(), es(x.qb64())?, es(x.qb64b())?, es(x.qb2())?)))
    });
    let r2 = lib!(c, "indexed", {
        let x = Siger::new_with_raw(&raw, None, Some(index), ondex, Some(code));
        es(x).and_then(|x| Ok((x.index(), x.ondex(), es(x.qb64())?, es(x.qb64b())?, es(x.qb2())?)))
    });
    for (r, ok) in [(r, ok), (r2, ok && siger)] {
        ensure!(c, r.is_ok() == ok, "c14/limits", "code {code} with {index} {ondex:?}: {r:?}");
        let Ok((i, o, t, tb, b)) = r else {
            c.probe("position refused");
            continue;
        };
        let od = if IDX_CRT.contains(&code) { 0 } else { ondex.unwrap_or(index) };
        let want = indexer_text(code, index, od, &raw);
        ensure!(c, i == index && o == od, "c14/position", "code {code} with {index} {ondex:?} names {i} {o}");
        ensure!(c, t == want && tb == want.as_bytes() && b == binary(&want), "c14/form", "code {code} with {index} {ondex:?} is {t}, should be {want}");
    }
    Ok(())
}

fn run(c: &mut Ctx) -> R<()> {
    let m = 2 + c.src.us(4);
    let keys: Vec<Key> = (0..m).map(|_| Key::gen(c, true)).collect();
    let lens = [1usize, 2, 3, 5, 63, 64, 65, 70, 200, 4095, 4096, 4097, 5000];
    let cur = List { len: *c.src.pick(&lens), seed: c.src.u64(), m };
    let prior = if c.src.chance(1, 3) { cur.clone() } else { List { len: *c.src.pick(&lens), seed: c.src.u64(), m } };
    let nm = 1 + c.src.us(3);
    let msgs: Vec<Vec<u8>> = (0..nm)
        .map(|_| {
            let n = c.src.small(200) as usize;
            c.src.blob(n)
        })
        .collect();
    let mut sent: Vec<Sent> = vec![];
    let n = 1 + c.src.small(10) as usize;
    for _ in 0..n {
        c.src.begin();
        direct(c)?;
        let who = c.src.us(m);
        let k = keys[who].clone();
        let signer = must!(c, "c14/signer", "signer", es(Signer::new_with_raw(&k.seed, Some(true), Some(k.suite))));
        // a place in the lists, or any place
        let (index, prior_at) = if c.src.chance(3, 4) {
            match (cur.find(c, who), prior.find(c, who)) {
                (Some(i), p) => (i as u32, p.map(|x| x as u32)),
                _ => (position(c), None),
            }
        } else {
            (position(c), Some(position(c)))
        };
        let only = c.src.chance(1, 3);
        // not given: the same position in both lists
        let given = if c.src.chance(1, 4) { None } else if c.src.chance(1, 4) { Some(index) } else { prior_at };
        let ondex = if only { None } else { Some(given.unwrap_or(index)) };
        let mi = c.src.us(nm);
        let r = lib!(c, "sign", es(signer.sign_indexed(&msgs[mi], only, index, given)));
        let want = smallest(k.suite, index, ondex);
        c.ev(format!("signer {who} {} signs {mi} only {only} at {index} {given:?}: {:?}", k.suite, r.as_ref().map(|x| x.code())));
        match (&r, &want) {
            (Err(_), None) => c.probe("signing for the position refused"),
            (Ok(s), Some(code)) => {
                let raw = s.raw();
                let x = Sent { text: indexer_text(code, index, ondex.unwrap_or(0), &raw), code: code.clone(), index, ondex, who, msg: mi, raw };
                field(c, s, &x, "made")?;
                let t = must!(c, "c14/form", "text", s.qb64());
                ensure!(c, t == x.text, "c14/form", "made as {t}, smallest is {}", x.text);
                ensure!(c, refc::verify(k.ver_code(), &k.public(), &msgs[mi], &x.raw), "c14/signature", "not a signature of its signer");
                c.state(mix(hash_str(code) ^ ((index as u64) << 8) ^ ((ondex.unwrap_or(99999) as u64) << 30)));
                sent.push(x);
            }
            _ => fail!(c, "c14/limits", "suite {} only {only} at {index} {given:?}: {:?}, should be {want:?}", k.suite, r.as_ref().map(|x| x.code())),
        }
        c.src.end();
    }
    if sent.is_empty() {
        return Ok(());
    }
    let relays = c.src.us(3);
    let f = Faults::swarm(c);
    let last = relays + 1;
    let mut net: Net<M> = Net::new(relays + 2, f);
    let mut disk: Vec<Vec<(usize, Form, Vec<u8>, bool)>> = vec![vec![]; relays + 2];
    let mut done = vec![false; sent.len()];
    for round in 0..12 {
        if done.iter().all(|x| *x) {
            break;
        }
        ensure!(c, round < 11, "c14/progress", "signatures never arrive {done:?}");
        if round == 5 {
            net.heal();
        }
        for i in 0..sent.len() {
            if !done[i] {
                c.src.begin();
                let form = any_form(c);
                let b = if form == Form::Bin { binary(&sent[i].text) } else { sent[i].text.clone().into_bytes() };
                net.send(c, 0, 1.min(last), M::Sig(i, form, b, false));
                c.src.end();
            }
        }
        while let Some((to, _, m)) = net.next(c) {
            c.src.begin();
            match m {
                M::Sig(i, form, mut b, mut bad) => {
                    if !net.quiet && net.f.corrupt > 0 && c.src.chance(net.f.corrupt, 1000) {
                        let old = b.clone();
                        if c.src.chance(1, 2) && form != Form::Bin {
                            // only what names the positions
                            let k = c.src.us(6.min(b.len()));
                            b[k] = B64[c.src.us(64)];
                            c.fault("position field damaged");
                        } else if c.src.chance(1, 3) && form == Form::Bin {
                            let k = c.src.us(5 * 8);
                            b[k / 8] ^= 1 << (k % 8);
                            c.fault("position field damaged");
                        } else {
                            b = mangle(c, &b);
                        }
                        bad = bad || b != old;
                    }
                    receive(c, &keys, &cur, &prior, &msgs, &sent[i], form, &b, bad)?;
                    if to == last {
                        if !bad {
                            done[i] = true;
                        }
                    } else {
                        // keeps and passes on what it could read
                        let x = parse_now(Siger, form, &b, "");
                        let f2 = any_form(c);
                        let b2 = match (&x, f2) {
                            (Ok(g), Form::Bin) => g.bin.clone(),
                            (Ok(g), Form::Bytes) => g.textb.clone(),
                            (Ok(g), Form::Text) => g.text.clone().into_bytes(),
                            (Err(_), _) => {
                                c.src.end();
                                continue;
                            }
                        };
                        disk[to].push((i, f2, b2.clone(), bad));
                        if net.crashes(c) {
                            net.crash(c, to, M::Up);
                        } else {
                            net.send(c, to, to + 1, M::Sig(i, f2, b2, bad));
                        }
                    }
                }
                M::Up => {
                    for (i, f2, b, bad) in std::mem::take(&mut disk[to]) {
                        net.send(c, to, to + 1, M::Sig(i, f2, b, bad));
                    }
                }
            }
            c.src.end();
        }
        c.advance(5000 * MS);
    }
    Ok(())
}

/// read, look the keys up at the positions named, verify
#[allow(clippy::too_many_arguments)]
fn receive(c: &mut Ctx, keys: &[Key], cur: &List, prior: &List, msgs: &[Vec<u8>], x: &Sent, form: Form, b: &[u8], bad: bool) -> R<()> {
    let lib = c.call("read", || -> Result<Siger, String> {
        match form {
            Form::Text => es(Siger::new_with_qb64(std::str::from_utf8(b).map_err(|e| e.to_string())?, None)),
            Form::Bytes => es(Siger::new_with_qb64b(b, None)),
            Form::Bin => es(Siger::new_with_qb2(b, None)),
        }
    })?;
    let text = if form == Form::Bin {
        // what these bytes say as text
        let k = b.len() / 3 * 3;
        enc(&b[..k]).into_bytes()
    } else {
        b.to_vec()
    };
    let tok = read(INDEXER, &text).filter(|t| IDX.contains(&t.code.as_str()) && !(IDX_CRT.contains(&t.code.as_str()) && t.ondex != 0));
    let tok = if form == Form::Text && std::str::from_utf8(b).is_err() { None } else { tok };
    match (&lib, &tok) {
        (Err(_), None) => {
            ensure!(c, bad, "c14/refused", "{} was not damaged", x.text);
            c.probe("damaged signature refused");
            return Ok(());
        }
        (Ok(s), Some(t)) => {
            let both = !IDX_CRT.contains(&t.code.as_str());
            let od = if !both { 0 } else if row(INDEXER, &t.code).unwrap().os > 0 { t.ondex } else { t.index };
            ensure!(c, s.code() == t.code && s.index() == t.index && s.ondex() == od && s.raw() == t.raw, "c14/position",
                "{} ({form:?}) is read as {} at {} {}", show(b), s.code(), s.index(), s.ondex());
        }
        _ => fail!(c, "c14/refused", "{} ({form:?}) is read as {:?}, should be {tok:?}", show(b), lib.map(|s| (s.code(), s.index(), s.ondex()))),
    }
    let s = lib.unwrap();
    if !bad {
        field(c, &s, x, "received")?;
    }
    // the key at the place it names, in both lists it names
    let mut places = vec![(cur.at(s.index() as usize), "current")];
    if !IDX_CRT.contains(&s.code().as_str()) {
        places.push((prior.at(s.ondex() as usize), "prior"));
    }
    let msg = &msgs[x.msg];
    for (who, list) in places {
        let Some(who) = who else {
            c.probe("no such position");
            continue;
        };
        let k = &keys[who];
        let v = must!(c, "c14/key", "key", Verfer::new_with_raw(&k.public(), Some(k.ver_code())));
        // with the key attached or beside it
        let got = if c.src.chance(1, 2) {
            let s2 = must!(c, "c14/key", "with key", Siger::new(Some(&v), Some(s.index()), if IDX_CRT.contains(&s.code().as_str()) { None } else { Some(s.ondex()) }, Some(&s.code()), Some(&s.raw()), None, None, None));
            ensure!(c, s2.index() == s.index() && s2.ondex() == s.ondex() && s2.raw() == s.raw(), "c14/position", "another position with its key");
            lib!(c, "verify", s2.verfer().verify(&s2.raw(), msg)).unwrap_or(false)
        } else {
            lib!(c, "verify", v.verify(&s.raw(), msg)).unwrap_or(false)
        };
        let want = refc::verify(k.ver_code(), &k.public(), msg, &s.raw());
        ensure!(c, got == want, "c14/verify", "at {list} position verifies {got}, reference {want}");
        // as sent, the key is that of the signer exactly where it is
        if !bad {
            ensure!(c, got == (who == x.who || k.public() == keys[x.who].public()), "c14/verify", "signature of {} verifies {got} for the key of {who} at {list} position", x.who);
            if got {
                c.probe("verified at its position");
            }
        } else if !got {
            c.probe("damaged position does not verify");
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    quick_runs: 12_000,
    quick_secs: 25,
    thorough_secs: 420,
    rule: "one run is one to eleven indexed signatures by several signers for positions in key lists of up to 5000 places, carried by relays in all forms with position fields damaged, and looked up by verifiers; distinct: different event log",
    real: &["Signer (indexed signing), Siger, Indexer codec, Verfer"],
    stub: &["network, relays, key lists"],
    assumptions: &["a place of a key list is the signer a fixed function of the place says"],
    findings: &[],
    reach: &["verified at its position", "damaged signature refused", "damaged position does not verify", "position refused", "signing for the position refused", "no such position"],
};
