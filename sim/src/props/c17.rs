//! Commitments: controllers commit to keys and other bytes with the algorithm of their release, nodes
//! keep the commitments on disks that damage them, and compare them when the bytes are revealed.

use crate::codec::*;
use crate::ctx::*;
use crate::items::{codes_of, Cls, Form, DIGS};
use crate::msgs::Key;
use crate::mutate::mangle;
use crate::net::*;
use crate::refc;
use crate::runner::Prop;
use crate::src::{hash_str, mix};
use keride::cesr::{Diger, Matter};

/// a digest as text the reference reads
fn tok(text: &[u8]) -> Option<Tok> {
    read(MATTER, text).filter(|t| codes_of(Cls::Diger).contains(&t.code.as_str()))
}

fn commits(code: &str, raw: &[u8], ser: &[u8]) -> bool {
    refc::digest(code, ser) == raw
}

/// do two commitments compare equal for these bytes?
fn same(a: &Tok, b: &Tok, ser: &[u8]) -> bool {
    if a.code == b.code {
        return a.raw == b.raw;
    }
    commits(&a.code, &a.raw, ser) && commits(&b.code, &b.raw, ser)
}

fn data(c: &mut Ctx) -> Vec<u8> {
    match c.src.weighted(&[4, 3, 2, 1]) {
        0 => Key::gen(c, true).text().into_bytes(),
        1 => {
            let n = c.src.small(300) as usize;
            c.src.blob(n)
        }
        2 => {
            // sizes around the blocks of the algorithms
            let n = *c.src.pick(&[0usize, 1, 55, 56, 63, 64, 65, 71, 72, 111, 112, 127, 128, 129, 135, 136, 137, 1023, 1024, 1025, 2048, 2049, 4097]);
            c.src.random(n)
        }
        _ => {
            let n = c.src.us(70_000);
            c.src.random(n)
        }
    }
}

/// other bytes, most of them close to these
fn near(c: &mut Ctx, b: &[u8]) -> Vec<u8> {
    match c.src.below(4) {
        0 => data(c),
        1 => {
            let mut v = b.to_vec();
            v.push(0);
            v
        }
        2 if !b.is_empty() => b[..b.len() - 1].to_vec(),
        _ => mangle(c, b),
    }
}

fn make(c: &mut Ctx, code: &str, ser: &[u8]) -> R<(Diger, Tok)> {
    let none = code == "E" && c.src.chance(1, 2);
    let d = must!(c, "c17/make", "commit", es(Diger::new_with_ser(ser, if none { None } else { Some(code) })));
    let raw = refc::digest(code, ser);
    ensure!(c, d.code() == code && d.raw() == raw, "c17/digest", "digest {code} of {} bytes is {} {}, should be {}", ser.len(), d.code(), hex(&d.raw()), hex(&raw));
    let t = must!(c, "c17/digest", "text", d.qb64());
    let want = matter_text(code, &raw).1;
    ensure!(c, t == want, "c17/digest", "text {t} should be {want}");
    Ok((d, tok(want.as_bytes()).unwrap()))
}

fn load(c: &mut Ctx, text: &[u8]) -> R<Option<(Diger, Tok)>> {
    let want = tok(text);
    let form = if want.is_some() { *c.src.pick(&[Form::Text, Form::Bytes, Form::Bin]) } else { Form::Bytes };
    let d = match form {
        Form::Text => {
            let t = String::from_utf8_lossy(&text[..want.as_ref().unwrap().len]).to_string();
            lib!(c, "load", es(Diger::new_with_qb64(&t)))
        }
        Form::Bytes => lib!(c, "load", es(Diger::new_with_qb64b(text))),
        Form::Bin => {
            let b = dec(&text[..want.as_ref().unwrap().len]).unwrap();
            lib!(c, "load", es(Diger::new_with_qb2(&b)))
        }
    };
    match (d, want) {
        (Ok(d), Some(t)) => {
            ensure!(c, d.code() == t.code && d.raw() == t.raw, "c17/load", "{} is read as {} {}", show(text), d.code(), hex(&d.raw()));
            Ok(Some((d, t)))
        }
        (Err(_), None) => {
            c.probe("damaged commitment refused");
            Ok(None)
        }
        (d, t) => fail!(c, "c17/load", "{} is read as {:?}, should be {t:?}", show(text), d.map(|d| d.code())),
    }
}

/// every way of asking about two commitments and some bytes
fn judge(c: &mut Ctx, a: &(Diger, Tok), b: &(Diger, Tok), ser: &[u8]) -> R<bool> {
    let va = must!(c, "c17/verify", "verify", es(a.0.verify(ser)));
    let wa = commits(&a.1.code, &a.1.raw, ser);
    ensure!(c, va == wa, "c17/verify", "{} {} verifies {}: {va}", a.1.code, hex(&a.1.raw), show(ser));
    let want = same(&a.1, &b.1, ser);
    let tb = matter_text(&b.1.code, &b.1.raw).1;
    let ta = matter_text(&a.1.code, &a.1.raw).1;
    let c1 = must!(c, "c17/compare", "compare", es(a.0.compare(ser, None, Some(&b.0))));
    let c2 = must!(c, "c17/compare", "compare", es(a.0.compare(ser, Some(tb.as_bytes()), None)));
    let c3 = must!(c, "c17/compare", "compare", es(b.0.compare(ser, Some(ta.as_bytes()), None)));
    let c4 = must!(c, "c17/compare", "compare", es(b.0.compare(ser, None, Some(&a.0))));
    ensure!(c, [c1, c2, c3, c4] == [want; 4], "c17/compare", "{ta} and {tb} for {}: {c1} {c2} {c3} {c4}, should be {want}", show(ser));
    // given both, the text is what counts
    let kind = (wa, commits(&b.1.code, &b.1.raw, ser), a.1.code == b.1.code, ta == tb);
    c.state(mix(hash_str(&format!("{kind:?}{}{}", a.1.code, b.1.code))));
    c.probe(match (want, kind.2) {
        (true, true) => "identical commitments",
        (true, false) => "two algorithms, same bytes",
        (false, true) => "one algorithm, different",
        (false, false) => "two algorithms, different",
    });
    Ok(want)
}

/// a text that is no digest is an error or unequal, whatever else is given
fn junk(c: &mut Ctx, d: &(Diger, Tok), ser: &[u8]) -> R<()> {
    let t = matter_text(&d.1.code, &d.1.raw).1;
    let bad = if c.src.chance(1, 2) {
        mangle(c, t.as_bytes())
    } else {
        let cls = *c.src.pick(crate::items::ALL);
        crate::items::gen(c, cls).text.into_bytes()
    };
    let want = tok(&bad);
    let r = lib!(c, "compare", es(d.0.compare(ser, Some(&bad), None)));
    match &want {
        // what follows a digest is not part of it: only identical text is the identical commitment
        Some(w) if w.len == bad.len() => {
            let s = same(&d.1, w, ser);
            ensure!(c, r == Ok(s), "c17/compare", "{t} and {} for {}: {r:?}, should be {s}", show(&bad), show(ser));
        }
        None => ensure!(c, r != Ok(true), "c17/junk", "{t} equals {}", show(&bad)),
        _ => {}
    }
    // given both a stored text and bytes, the stored text is what counts
    let r = lib!(c, "stored or made", es(Diger::new(Some(ser), None, None, Some(&bad), None, None)).map(|d| (d.code(), d.raw())));
    match want {
        Some(w) => ensure!(c, r == Ok((w.code.clone(), w.raw.clone())), "c17/stored", "stored {} with bytes is {r:?}", show(&bad)),
        None => ensure!(c, r.is_err(), "c17/stored", "stored {} that is no digest is {r:?}", show(&bad)),
    }
    let r = lib!(c, "compare", es(d.0.compare(ser, None, None)));
    ensure!(c, r.is_err(), "c17/none", "comparing with nothing is {r:?}");
    Ok(())
}

#[derive(Clone)]
enum M {
    /// commitment to slot, text
    Commit(usize, Vec<u8>),
    Reveal(usize, Vec<u8>),
    Up,
}

fn run(c: &mut Ctx) -> R<()> {
    // pairs alone
    for _ in 0..1 + c.src.small(6) {
        c.src.begin();
        let ser = data(c);
        let other = near(c, &ser);
        let (ca, cb) = (*c.src.pick(DIGS), *c.src.pick(DIGS));
        let a = make(c, ca, &ser)?;
        let b = if c.src.chance(1, 2) { make(c, cb, &ser)? } else { make(c, cb, &other)? };
        judge(c, &a, &b, &ser)?;
        judge(c, &a, &b, &other)?;
        // the same raw bytes under another algorithm of the same length
        if a.1.code.len() == cb.len() && a.1.code != cb {
            let x = must!(c, "c17/raw", "raw", es(Diger::new_with_raw(&a.1.raw, Some(cb))));
            let t = tok(matter_text(cb, &a.1.raw).1.as_bytes()).unwrap();
            ensure!(c, x.code() == cb, "c17/raw", "code is {}", x.code());
            judge(c, &a, &(x, t), &ser)?;
            c.fault("algorithm replaced");
        }
        junk(c, &a, &ser)?;
        c.src.end();
    }
    // a controller (node 0) commits and reveals; the others keep what they got
    let f = Faults::swarm(c);
    let n = 2 + c.src.us(4);
    let slots = 1 + c.src.us(5);
    let mut net: Net<M> = Net::new(n, f);
    let truth: Vec<Vec<u8>> = (0..slots).map(|_| data(c)).collect();
    // algorithm of each node
    let alg: Vec<&str> = (0..n).map(|_| *c.src.pick(DIGS)).collect();
    let mut disk: Vec<Vec<Option<Vec<u8>>>> = vec![vec![None; slots]; n];
    for i in 0..slots {
        // the controller may have changed its algorithm in between
        let code = if c.src.chance(1, 3) { *c.src.pick(DIGS) } else { alg[0] };
        let (d, _) = make(c, code, &truth[i])?;
        let t = must!(c, "c17/digest", "text", d.qb64b());
        for to in 1..n {
            net.send(c, 0, to, M::Commit(i, t.clone()));
        }
        for to in 1..n {
            let ser = if c.src.chance(1, 3) {
                c.fault("other bytes revealed");
                near(c, &truth[i])
            } else {
                truth[i].clone()
            };
            net.send(c, 0, to, M::Reveal(i, ser));
        }
    }
    let mut left = 120;
    while let Some((to, _, m)) = net.next(c) {
        left -= 1;
        if left == 0 {
            break;
        }
        c.src.begin();
        match m {
            M::Commit(i, mut t) => {
                if f.corrupt > 0 && c.src.chance(f.corrupt, 1000) {
                    t = mangle(c, &t);
                }
                if load(c, &t)?.is_some() && disk[to][i].is_none() {
                    disk[to][i] = Some(t);
                }
                if net.crashes(c) {
                    net.crash(c, to, M::Up);
                    // what is on disk may come back damaged
                    let k = c.src.us(slots);
                    if let Some(x) = disk[to][k].clone() {
                        if c.src.chance(1, 2) {
                            c.fault("record damaged on disk");
                            disk[to][k] = Some(mangle(c, &x));
                        }
                    }
                }
            }
            M::Reveal(i, ser) => {
                let Some(t) = disk[to][i].clone() else {
                    // not there yet: asked again later
                    if c.src.chance(1, 2) {
                        net.send(c, 0, to, M::Reveal(i, ser));
                    }
                    c.src.end();
                    continue;
                };
                let Some(kept) = load(c, &t)? else {
                    c.src.end();
                    continue;
                };
                // the node's own commitment to what is revealed, in its own algorithm
                let own = make(c, alg[to], &ser)?;
                let eq = judge(c, &kept, &own, &ser)?;
                let good = commits(&kept.1.code, &kept.1.raw, &ser);
                ensure!(c, eq == good, "c17/reveal", "revealed {} compares {eq}, committed {good}", show(&ser));
                c.probe(if eq { "reveal accepted" } else { "reveal refused" });
                c.ev(format!("node {to} slot {i} reveal {eq}"));
                junk(c, &kept, &ser)?;
            }
            M::Up => c.ev(format!("node {to} is back")),
        }
        c.src.end();
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    quick_runs: 30_000,
    quick_secs: 25,
    thorough_secs: 420,
    rule: "one run is commitments with all pairs of algorithms compared alone, and a controller that commits and reveals to nodes of other releases over a faulty network with crashes and damaged records; distinct: different event log",
    real: &["Diger (making, reading, verify, compare)", "digest dispatch"],
    stub: &["network, disks, controller"],
    assumptions: &["digests are computed by the same crates as in the code under test, called directly"],
    findings: &[],
    reach: &["identical commitments", "two algorithms, same bytes", "one algorithm, different", "two algorithms, different", "damaged commitment refused", "reveal accepted", "reveal refused"],
};
