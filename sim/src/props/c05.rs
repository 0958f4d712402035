//! Signatures, from signers that crash and come back from their seed, to verifiers who look keys up.

use crate::codec::*;
use crate::ctx::*;
use crate::items::*;
use crate::msgs::Key;
use crate::net::*;
use crate::refc;
use crate::runner::Prop;
use crate::src::{hash_str, mix};
use keride::cesr::{Cigar, Indexer, Matter, Siger, Verfer};
use keride::signing::Signer;

fn form(c: &mut Ctx) -> Form {
    crate::props::c01::any_form(c)
}

fn restore(c: &mut Ctx, k: &Key) -> R<Signer> {
    let text = matter_text(k.suite, &k.seed).1;
    let f = form(c);
    let t = if k.tr && c.src.chance(1, 3) { None } else { Some(k.tr) };
    let raw = c.src.chance(1, 4);
    let r = c.call("restore signer", || -> Result<Signer, String> {
        let r = if raw {
            Signer::new_with_raw(&k.seed, t, Some(k.suite))
        } else {
            match f {
                Form::Text => Signer::new_with_qb64(&text, t),
                Form::Bytes => Signer::new_with_qb64b(text.as_bytes(), t),
                Form::Bin => Signer::new_with_qb2(&binary(&text), t),
            }
        };
        r.map_err(|e| e.to_string())
    })?;
    match r {
        Ok(s) => {
            let v = s.verfer();
            c.checks += 1;
            if v.code() != k.ver_code() || v.raw() != k.public() {
                return c.done("c05/key", format!("seed {} of suite {} gives key {} {} and not {} {}", hex(&k.seed), k.suite, v.code(), hex(&v.raw()), k.ver_code(), hex(&k.public())));
            }
            Ok(s)
        }
        Err(e) => c.done("c05/restore", format!("seed {text} refused: {e}")),
    }
}

#[derive(Clone)]
struct Signed {
    who: usize,
    key: String,
    msg: Vec<u8>,
    /// raw signature
    sig: Vec<u8>,
    /// as it travels
    text: String,
    indexed: bool,
    /// made by the library (and not by the reference)
    lib: bool,
}

fn gen_payload(c: &mut Ctx) -> Vec<u8> {
    let n = match c.src.weighted(&[1, 6, 3, 1]) {
        0 => 0,
        1 => c.src.small(300) as usize,
        2 => *c.src.pick(&[31usize, 32, 33, 63, 64, 65, 127, 128, 129]),
        _ => c.src.usr(1000, 20_000),
    };
    c.src.blob(n)
}

fn sign(c: &mut Ctx, keys: &[Key], who: usize, signer: &Signer) -> R<Signed> {
    let k = &keys[who];
    let msg = gen_payload(c);
    let indexed = c.src.chance(1, 2);
    let lib = c.src.chance(3, 4);
    let index = c.src.small(300) as u32;
    let only = c.src.chance(1, 3);
    let ondex = if only || c.src.chance(1, 2) { None } else { Some(c.src.small(100) as u32) };
    let (sig, text) = if !lib {
        let sig = refc::sign(k.suite, &k.seed, &msg);
        if indexed {
            let (small, big) = match k.suite {
                "A" => ("A", "2A"),
                "J" => ("C", "2C"),
                _ => ("E", "2E"),
            };
            let text = if index < 64 { indexer_text(small, index, index, &sig) } else { indexer_text(big, index, index, &sig) };
            (sig, text)
        } else {
            let t = matter_text(refc::sig_code(k.suite), &sig).1;
            (sig, t)
        }
    } else if indexed {
        let s = must!(c, "c05/sign", "sign indexed", signer.sign_indexed(&msg, only, index, ondex));
        ensure!(c, s.verfer().code() == k.ver_code() && s.verfer().raw() == k.public(), "c05/key", "indexed signature names key {}", s.verfer().qb64().unwrap_or_default());
        let q = must!(c, "c05/sign", "signature text", s.qb64());
        (s.raw(), q)
    } else {
        let s = must!(c, "c05/sign", "sign", signer.sign_unindexed(&msg));
        ensure!(c, s.code() == refc::sig_code(k.suite), "c05/code", "signature of suite {} has code {}", k.suite, s.code());
        ensure!(c, s.verfer().code() == k.ver_code() && s.verfer().raw() == k.public(), "c05/key", "signature names key {}", s.verfer().qb64().unwrap_or_default());
        let q = must!(c, "c05/sign", "signature text", s.qb64());
        (s.raw(), q)
    };
    c.checks += 1;
    if !refc::verify(k.ver_code(), &k.public(), &msg, &sig) {
        return c.done("c05/invalid", format!("signature {} of suite {} over {} bytes is refused by an independent verifier", hex(&sig), k.suite, msg.len()));
    }
    Ok(Signed { who, key: k.text(), msg, sig, text, indexed, lib })
}

#[derive(Clone)]
enum M {
    /// record: which signing, key text, payload, signature text, form of the signature
    Post { id: usize, key: String, msg: Vec<u8>, text: String, indexed: bool, form: Form, trail: Vec<u8> },
    Up,
}

fn verify(c: &mut Ctx, all: &[Signed], m: &M) -> R<()> {
    let M::Post { id, key, msg, text, indexed, form, trail } = m else { return Ok(()) };
    let x = &all[*id];
    // the signature as it came
    let mut wire = match form {
        Form::Bin => binary(text),
        _ => text.clone().into_bytes(),
    };
    wire.extend_from_slice(trail);
    let attach = c.src.chance(1, 2);
    let kf = crate::props::c01::any_form(c);
    let r = c.call("verify signature", || -> Result<(bool, Vec<u8>, Vec<u8>, String, bool, Option<Vec<u8>>), String> {
        let v = es(match kf {
            Form::Text => Verfer::new_with_qb64(key),
            Form::Bytes => Verfer::new_with_qb64b(key.as_bytes()),
            Form::Bin => Verfer::new_with_qb2(&binary(key)),
        })?;
        let a = if attach { Some(&v) } else { None };
        let (raw, vv) = if *indexed {
            let s = es(match form {
                Form::Text => Siger::new_with_qb64(es(std::str::from_utf8(&wire))?, a),
                Form::Bytes => Siger::new_with_qb64b(&wire, a),
                Form::Bin => Siger::new_with_qb2(&wire, a),
            })?;
            (s.raw(), s.verfer())
        } else {
            let s = es(match form {
                Form::Text => Cigar::new_with_qb64(es(std::str::from_utf8(&wire))?, a),
                Form::Bytes => Cigar::new_with_qb64b(&wire, a),
                Form::Bin => Cigar::new_with_qb2(&wire, a),
            })?;
            (s.raw(), s.verfer())
        };
        let same = !attach || (vv.code() == v.code() && vv.raw() == v.raw());
        let v = if attach { vv } else { v };
        let ok = v.verify(&raw, msg).unwrap_or(false);
        // bytes of another length are no signature
        let wrong = [[&raw[..], &[0]].concat(), [&raw[..], &raw[..]].concat(), [&[0], &raw[..]].concat(), raw[..raw.len().saturating_sub(1)].to_vec(), raw[raw.len().min(1)..].to_vec(), vec![]];
        let wrong = wrong.iter().find(|w| v.verify(w, msg).unwrap_or(false)).cloned();
        Ok((ok, raw, v.raw(), v.code(), same, wrong))
    })?;
    let genuine = *key == x.key && *msg == x.msg && *text == x.text && *indexed == x.indexed;
    c.checks += 1;
    match r {
        Err(e) => {
            if genuine {
                return c.done("c05/refused", format!("genuine signature {text} under {key} refused: {e}"));
            }
            c.probe("refused");
        }
        Ok((ok, sig, kraw, kcode, same, wrong)) => {
            if let Some(w) = wrong {
                return c.done("c05/length", format!("{} bytes verify as a signature under {key}: {}", w.len(), hex(&w)));
            }
            if !same {
                return c.done("c05/attached", format!("key attached to {text} is not {key}"));
            }
            // a tuple someone really signed
            let signed = all.iter().any(|y| y.sig == sig && y.msg == *msg && refc::suite_of(&kcode) == refc::suite_of(&y_code(&y.key)) && read(MATTER, y.key.as_bytes()).map(|t| t.raw) == Some(kraw.clone()));
            if signed && !ok {
                return c.done("c05/refused", format!("genuine signature {text} under {key} over {} bytes does not verify ({form:?})", msg.len()));
            }
            if ok && !signed {
                return c.done("c05/accepted", format!("signature {text} verifies under {key} over {} which was never signed like that (signed: {} under {} over {})", show(msg), x.text, x.key, show(&x.msg)));
            }
            c.probe(if ok { if x.lib { "accepted" } else { "accepted, made by another implementation" } } else { "not verified" });
        }
    }
    Ok(())
}

fn y_code(text: &str) -> String {
    read(MATTER, text.as_bytes()).map(|t| t.code).unwrap_or_default()
}

fn flip(c: &mut Ctx, b: &mut [u8]) {
    if !b.is_empty() {
        let i = c.src.us(b.len());
        b[i] ^= 1 << c.src.below(8);
    }
}

/// keys that need no secret: a signature nobody made must not verify under one
const WEAK: &[&str] = &[
    "0100000000000000000000000000000000000000000000000000000000000000",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0000000000000000000000000000000000000000000000000000000000000080",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
    "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
    "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
    "0100000000000000000000000000000000000000000000000000000000000080",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
];

/// the same point written another way is another key
fn alias(c: &mut Ctx) -> R<()> {
    c.fault("key written another way");
    let mut k = Key::gen(c, true);
    k.suite = *c.src.pick(&["J", "Q"]);
    let msg = gen_payload(c);
    let sig = refc::sign(k.suite, &k.seed, &msg);
    let mut raw = k.public();
    let own = raw[0];
    for tag in 0..8u8 {
        raw[0] = tag;
        let text = crate::codec::matter_text(k.ver_code(), &raw).1;
        let got = match lib!(c, "key", es(Verfer::new_with_qb64(&text))) {
            Ok(v) => lib!(c, "verify", es(v.verify(&sig, &msg))),
            Err(e) => Err(e),
        };
        ensure!(c, (got == Ok(true)) == (tag == own), "c05/alias", "a signature of {} for {} verifies under {text}: {got:?}", k.text(), show(&msg));
    }
    c.probe("key written another way verifies nothing");
    Ok(())
}

fn weak(c: &mut Ctx) -> R<()> {
    c.fault("key of small order");
    let code = *c.src.pick(&["B", "D"]);
    let raw = unhex(c.src.pick(WEAK));
    let text = crate::codec::matter_text(code, &raw).1;
    c.ev(format!("key {text}"));
    let key = match lib!(c, "key", es(Verfer::new_with_qb64(&text))) {
        Ok(k) => k,
        Err(_) => {
            c.probe("key of small order refused");
            return Ok(());
        }
    };
    for _ in 0..1 + c.src.us(3) {
        let msg = gen_payload(c);
        for r in &WEAK[..8] {
            let mut sig = unhex(r);
            sig.resize(64, 0);
            let got = lib!(c, "verify", es(key.verify(&sig, &msg)));
            ensure!(c, got != Ok(true), "c05/weak", "a signature that no secret made, {}, verifies under {text} for {}", hex(&sig), show(&msg));
        }
    }
    c.probe("key of small order verifies nothing");
    Ok(())
}

fn run(c: &mut Ctx) -> R<()> {
    if c.src.chance(1, 20) {
        return if c.src.chance(1, 2) { weak(c) } else { alias(c) };
    }
    let n = 1 + c.src.us(4);
    let mut keys: Vec<Key> = vec![];
    for i in 0..n {
        let tr = c.src.chance(1, 2);
        let mut k = Key::gen(c, tr);
        // sometimes the same seed under another suite
        if i > 0 && c.src.chance(1, 4) {
            k.seed = keys[i - 1].seed.clone();
        }
        c.ev(format!("signer {i}: suite {} {}", k.suite, k.text()));
        keys.push(k);
    }
    let mut signers = vec![];
    for k in &keys {
        signers.push(restore(c, k)?);
    }
    let f = Faults::swarm(c);
    let verifier = n;
    let mut net: Net<M> = Net::new(n + 1, f);
    let mut all: Vec<Signed> = vec![];
    let swap = c.src.below(4);
    let count = 1 + c.src.small(10) as usize;
    for _ in 0..count {
        c.src.begin();
        let who = c.src.us(n);
        if net.crashes(c) {
            // only the seed survives
            c.fault("crash and restart");
            signers[who] = restore(c, &keys[who])?;
        }
        let x = sign(c, &keys, who, &signers[who])?;
        c.ev(format!("signed {}: {} over {} bytes by {who}", all.len(), x.text, x.msg.len()));
        all.push(x);
        let id = all.len() - 1;
        let x = &all[id];
        let (mut key, mut msg, mut text, mut indexed, fm) = (x.key.clone(), x.msg.clone(), x.text.clone(), x.indexed, form(c));
        let trail = if c.src.chance(1, 3) { c.src.pick(&["-AAB", "{\"v\":", "AAAA"]).as_bytes().to_vec() } else { vec![] };
        let trail = if fm == Form::Bin && !trail.is_empty() { vec![0xfb, 0xe0, 0x12] } else { trail };
        // as sent, and sometimes as an enemy or the line makes it
        net.send(c, who, verifier, M::Post { id, key: key.clone(), msg: msg.clone(), text: text.clone(), indexed, form: fm, trail: trail.clone() });
        for _ in 0..1 + c.src.us(3) {
            if !(net.f.corrupt > 0 && c.src.chance(net.f.corrupt, 500) || c.src.chance(swap, 5)) {
                continue;
            }
            c.src.begin();
            (key, msg, text, indexed) = (all[id].key.clone(), all[id].msg.clone(), all[id].text.clone(), all[id].indexed);
            match c.src.below(9) {
                0 => {
                    c.fault("payload bit flip");
                    flip(c, &mut msg);
                }
                1 => {
                    c.fault("payload cut or extended");
                    if c.src.chance(1, 2) && !msg.is_empty() {
                        let k = c.src.us(msg.len());
                        msg.truncate(k);
                    } else {
                        let b = c.src.below(3) as u8;
                        msg.push(b);
                    }
                }
                2 => {
                    c.fault("signature bit flip");
                    let mut raw = all[id].sig.clone();
                    flip(c, &mut raw);
                    let t = read(if indexed { INDEXER } else { MATTER }, text.as_bytes()).unwrap();
                    text = if indexed { indexer_text(&t.code, t.index, t.ondex, &raw) } else { matter_text(&t.code, &raw).1 };
                }
                3 => {
                    c.fault("signature of another message");
                    let o = c.src.us(all.len());
                    text = all[o].text.clone();
                    indexed = all[o].indexed;
                }
                4 => {
                    c.fault("key of another signer");
                    let o = c.src.us(n);
                    key = keys[o].text();
                }
                5 => {
                    c.fault("key bit flip");
                    let t = read(MATTER, key.as_bytes()).unwrap();
                    let mut raw = t.raw.clone();
                    flip(c, &mut raw);
                    key = matter_text(&t.code, &raw).1;
                }
                6 => {
                    // the same key bytes said to be of another suite of the same size
                    c.fault("suite of key replaced");
                    let t = read(MATTER, key.as_bytes()).unwrap();
                    let to = match t.code.as_str() {
                        "D" => "B",
                        "B" => "D",
                        "1AAA" | "1AAB" => *c.src.pick(&["1AAI", "1AAJ", "1AAA", "1AAB"]),
                        _ => *c.src.pick(&["1AAA", "1AAB", "1AAI", "1AAJ"]),
                    };
                    key = matter_text(to, &t.raw).1;
                }
                7 => {
                    // the same signature bytes said to be of another suite, or the other kind
                    c.fault("suite of signature replaced");
                    indexed = c.src.chance(1, 2);
                    text = if indexed { indexer_text(c.src.pick(&["A", "B", "C", "D", "E", "F"]), 0, 0, &all[id].sig) } else { matter_text(c.src.pick(SIGS), &all[id].sig).1 };
                }
                _ => {
                    c.fault("character replaced");
                    let mut b = text.clone().into_bytes();
                    let i = c.src.us(b.len());
                    b[i] = B64[c.src.us(64)];
                    text = String::from_utf8(b).unwrap();
                    if text == all[id].text {
                        c.probe("replaced by itself");
                    }
                }
            }
            let fm = if c.src.chance(1, 2) { fm } else { form(c) };
            c.ev(format!("altered {id}: {text} under {key}"));
            net.send(c, who, verifier, M::Post { id, key: key.clone(), msg: msg.clone(), text: text.clone(), indexed, form: fm, trail: vec![] });
            c.src.end();
        }
        let gap = c.src.below(30);
        c.advance(MS * gap);
        c.src.end();
    }
    // verifier records what it gets, and after a crash goes over its records again
    let mut log: Vec<M> = vec![];
    let mut steps = 0;
    while let Some((_, _, m)) = net.next(c) {
        steps += 1;
        if steps > 200 {
            break;
        }
        match m {
            M::Up => {
                for m in log.clone() {
                    verify(c, &all, &m)?;
                }
            }
            m => {
                if let M::Post { id, text, key, .. } = &m {
                    c.ev(format!("verify {id} {text}"));
                    c.state(mix(hash_str(&text[..2.min(text.len())]) ^ hash_str(&key[..4.min(key.len())]) ^ all[*id].msg.len() as u64));
                }
                verify(c, &all, &m)?;
                if log.len() < 30 {
                    log.push(m);
                }
                if net.crashes(c) {
                    net.crash(c, verifier, M::Up);
                }
            }
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    quick_runs: 12_000,
    quick_secs: 28,
    thorough_secs: 420,
    rule: "one run is one to four signers of mixed suites, up to eleven signatures, and a verifier that gets them as sent and altered in payload, key, signature, suite or form, with crashes of both; distinct: different event log",
    real: &["Signer, Verfer, Cigar, Siger, the signature suites"],
    stub: &["network, key directory, stores"],
    assumptions: &["the signature schemes are unforgeable; the reference verifier calls the same published curve crates directly", "the second valid form of an ECDSA signature (negated s) and keys of small order are outside the statement and not generated"],
    findings: &[],
    reach: &["accepted", "accepted, made by another implementation", "not verified", "refused", "key of small order verifies nothing", "key written another way verifies nothing"],
};
