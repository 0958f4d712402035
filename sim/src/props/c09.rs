//! Controllers that keep only a salt, a stem, a tier and indices on disk, and crash; peers that hold
//! the keys published before.

use crate::codec::*;
use crate::ctx::*;
use crate::items::*;
use crate::msgs::Key;
use crate::net::*;
use crate::refc;
use crate::runner::Prop;
use crate::src::{hash_str, mix};
use crate::seams;
use keride::cesr::{Indexer, Matter, Salter, Verfer};
use keride::signify::creating::SaltyCreator;
use keride::signing::Signer;

/// What is on disk
#[derive(Clone, Debug)]
struct Rec {
    salt: String,
    stem: String,
    tier: &'static str,
    temp: bool,
}

/// Which keys: enough to make them again
#[derive(Clone, Debug)]
struct Want {
    how: usize,
    codes: Vec<&'static str>,
    count: u16,
    /// stem given with the call
    stem: Option<String>,
    pidx: u16,
    ridx: u16,
    kidx: u16,
    tr: bool,
}

impl Want {
    /// derivation path of each key, with its suite
    fn paths(&self, r: &Rec) -> Vec<(String, &'static str)> {
        let n = if self.how == 0 && self.codes.len() > 1 { self.codes.len() } else { self.count as usize };
        let suite = |i: usize| if self.how == 0 && self.codes.len() > 1 { self.codes[i] } else { self.codes[0] };
        match self.how {
            0 => {
                let stem = if !r.stem.is_empty() {
                    r.stem.clone()
                } else if let Some(x) = &self.stem {
                    x.clone()
                } else {
                    format!("{:x}", self.pidx)
                };
                (0..n).map(|i| (format!("{stem}{:x}{:x}", self.ridx, self.kidx as usize + i), suite(i))).collect()
            }
            1 => {
                let p = format!("{}{:x}", r.stem, self.ridx);
                (0..n).map(|i| (format!("{p}{:x}", self.kidx as usize + i), suite(0))).collect()
            }
            _ => vec![(format!("{}/{}", r.stem, self.kidx), suite(0))],
        }
    }
}

fn raw_salt(r: &Rec) -> Vec<u8> {
    read(MATTER, r.salt.as_bytes()).map(|t| t.raw).unwrap_or_default()
}

fn expect(r: &Rec, w: &Want) -> Vec<Key> {
    let salt = raw_salt(r);
    let tier = if r.temp { "min" } else { r.tier };
    w.paths(r).into_iter().map(|(p, suite)| Key { suite, seed: refc::stretch(p.as_bytes(), &salt, 32, tier), tr: w.tr, pk: Default::default() }).collect()
}

/// a controller's memory
enum Mem {
    Creator(SaltyCreator),
    Salter(Salter),
}

fn wake(c: &mut Ctx, r: &Rec, salt: &str, tier: &str, how: usize) -> R<Result<Mem, String>> {
    let f = crate::props::c01::any_form(c);
    let via = c.src.below(3);
    let bin = if salt.len() % 4 == 0 { dec(salt.as_bytes()) } else { None };
    let raw = bin.is_some() && c.src.chance(1, 5) && read(MATTER, salt.as_bytes()).map(|t| t.code == "0A" && t.len == salt.len()).unwrap_or(false);
    let deft = tier == "low" && c.src.chance(1, 2);
    let t = if deft { None } else { Some(tier) };
    c.call("restore from salt", || {
        let salter = || {
            es(if raw {
                Salter::new_with_raw(&raw_salt(r), None, t)
            } else {
                match (f, &bin) {
                    (Form::Bin, Some(b)) => Salter::new_with_qb2(b, t),
                    (Form::Bytes, _) => Salter::new_with_qb64b(salt.as_bytes(), t),
                    _ => Salter::new_with_qb64(salt, t),
                }
            })
        };
        let stem = if r.stem.is_empty() { None } else { Some(r.stem.as_str()) };
        Ok(match (how, via) {
            (0, 0) => Mem::Creator(es(SaltyCreator::new(None, stem, None, Some(salter()?)))?),
            (0, _) => Mem::Creator(es(SaltyCreator::new(Some(salt), stem, t, None))?),
            _ => Mem::Salter(salter()?),
        })
    })
}

fn derive(c: &mut Ctx, m: &Mem, r: &Rec, w: &Want) -> R<Vec<Signer>> {
    let named = c.src.chance(1, 2);
    let defaults = c.src.chance(1, 2);
    let codes = if w.codes.len() > 1 || c.src.chance(1, 4) && w.count == 1 { Some(w.codes.clone()) } else { None };
    let code = if defaults && w.codes[0] == "A" { None } else { Some(w.codes[0]) };
    let tr = if defaults && w.tr { None } else { Some(w.tr) };
    let tier = if named { Some(r.tier) } else { None };
    let opt = |n: u16| if defaults && n == 0 { None } else { Some(n) };
    let paths = w.paths(r);
    let got = match m {
        Mem::Creator(x) => Ok(lib!(c, "create", x.create(codes.clone(), if w.count == 1 && defaults { None } else { Some(w.count) }, code, opt(w.pidx), opt(w.ridx), opt(w.kidx), w.stem.as_deref(), tr, r.temp))),
        Mem::Salter(x) if w.how == 1 => lib!(c, "signers", es(x.signers(if w.count == 1 && defaults { None } else { Some(w.count as usize) }, opt(w.kidx).map(|k| k as usize), Some(&format!("{}{:x}", r.stem, w.ridx)), code, tr, tier, Some(r.temp)))),
        Mem::Salter(x) => lib!(c, "signer", es(x.signer(code, tr, Some(&paths[0].0), tier, if defaults && !r.temp { None } else { Some(r.temp) })).map(|s| vec![s])),
    };
    match got {
        Ok(v) => Ok(v),
        Err(e) => c.done("c09/derive", format!("{r:?} {w:?}: {e}")),
    }
}

/// the keys have to be those, and their signatures accepted by who knows the published ones
fn compare(c: &mut Ctx, r: &Rec, w: &Want, want: &[Key], got: &[Signer], when: &str) -> R<()> {
    ensure!(c, want.len() == got.len(), "c09/count", "{} keys and not {} from {r:?} {w:?} ({when})", got.len(), want.len());
    let paths = w.paths(r);
    for (i, (k, s)) in want.iter().zip(got).enumerate() {
        let v = lib!(c, "key", s.verfer());
        let pk = must!(c, "c09/key", "key text", v.qb64());
        ensure!(
            c,
            s.raw() == k.seed && s.code() == k.suite && pk == k.text(),
            "c09/keys",
            "key {i} of path {:?} from {r:?} is {} seed {} and not {} seed {} ({when})",
            paths[i].0,
            pk,
            hex(&s.raw()),
            k.text(),
            hex(&k.seed)
        );
        if c.src.chance(1, 4) {
            let n = c.src.small(200) as usize;
            let msg = c.src.blob(n);
            let sig = if c.src.chance(1, 2) { must!(c, "c09/sign", "sign", s.sign_unindexed(&msg)).raw() } else { must!(c, "c09/sign", "sign", s.sign_indexed(&msg, false, 0, None)).raw() };
            let text = k.text();
            let peer = must!(c, "c09/peer", "published key", Verfer::new_with_qb64(&text));
            let ok = lib!(c, "verify", peer.verify(&sig, &msg)).unwrap_or(false);
            ensure!(c, ok && refc::verify(k.ver_code(), &k.public(), &msg, &sig), "c09/sign", "signature by key {i} of path {:?} is refused by a peer who holds {text} ({when})", paths[i].0);
            c.probe("signature accepted by peer");
        }
    }
    Ok(())
}

fn gen_stem(c: &mut Ctx) -> String {
    match c.src.below(6) {
        0 | 1 => String::new(),
        2 => "signify:aid".into(),
        3 => {
            let n = c.src.small(300) as usize;
            gen_b64(c, n)
        }
        4 => crate::json::gen_str(c),
        _ => format!("{:x}", c.src.small(40)),
    }
}

fn gen_idx(c: &mut Ctx) -> u16 {
    match c.src.below(5) {
        0 => 0,
        1 | 2 => c.src.small(40) as u16,
        3 => *c.src.pick(&[9u16, 10, 15, 16, 255, 256, 4095, 4096, 65534, 65535]),
        _ => c.src.below(65536) as u16,
    }
}

fn gen_want(c: &mut Ctx, how: usize, slow: bool) -> Want {
    let mut count = if slow { 1 } else { *c.src.pick(&[1u16, 1, 2, 3, 5]) };
    if !slow && c.src.chance(1, 12) {
        count = if how == 2 { 1 } else { *c.src.pick(&[0u16, 9, 12, 17, 20]) };
    }
    let several = how == 0 && !slow && c.src.chance(1, 3);
    let codes: Vec<&'static str> = if several { (0..if c.src.chance(1, 6) { 9 + c.src.us(8) } else { 2 + c.src.us(2) }).map(|_| *c.src.pick(SEEDS)).collect() } else { vec![*c.src.pick(&["A", "A", "J", "Q"])] };
    let stem = if how == 0 && c.src.chance(1, 2) { Some(gen_stem(c)) } else { None };
    Want { how, codes, count, stem, pidx: gen_idx(c), ridx: gen_idx(c), kidx: gen_idx(c), tr: c.src.chance(2, 3) }
}

/// what the disk gives back instead of the record; None: it is as written
fn spoil(c: &mut Ctx, r: &Rec) -> (String, String) {
    let mut salt = r.salt.clone();
    let mut tier = r.tier.to_string();
    match c.src.below(7) {
        0 => {
            c.fault("torn write of salt");
            let k = c.src.us(salt.len());
            salt.truncate(k);
        }
        1 => {
            c.fault("another record instead of salt");
            let cls = *c.src.pick(ALL);
            salt = gen(c, cls).text;
        }
        2 => {
            c.fault("salt under another code");
            let raw = raw_salt(r);
            let code = *c.src.pick(&["A", "E", "M", "N", "0H", "0B", "N", "H", "B", "D"]);
            let n = row(MATTER, code).map(|x| x.raw()).unwrap_or(16);
            let mut v = raw.clone();
            v.resize(n, 0);
            salt = matter_text(code, &v).1;
        }
        3 => {
            c.fault("invalid character in salt");
            let i = c.src.us(salt.len());
            let ch = *c.src.pick(&['=', '+', '/', ' ', '\n', '\u{0}', 'é', '.', '*']);
            salt.remove(i);
            salt.insert(i, ch);
        }
        4 => {
            c.fault("sector of zeros");
            let i = c.src.us(salt.len());
            let n = salt.len();
            salt.replace_range(i..n, &"\u{0}".repeat(n - i));
        }
        5 => {
            c.fault("unknown tier");
            tier = c.src.pick(&["", "lo", "LOW", "medium", "hig", "low ", "\u{0}", "0"]).to_string();
        }
        _ => {
            c.fault("code of salt changed");
            let ch = *c.src.pick(&['1', '4', '5', '9', '-', '_', 'A', 'E', '2']);
            salt.remove(0);
            salt.insert(0, ch);
        }
    }
    (salt, tier)
}

fn decodes(salt: &str, tier: &str) -> bool {
    read(MATTER, salt.as_bytes()).map(|t| t.code == "0A").unwrap_or(false) && ["min", "low", "med", "high"].contains(&tier)
}

fn run(c: &mut Ctx) -> R<()> {
    let slow = c.src.below(60) == 59;
    let n = if slow { 1 } else { 1 + c.src.us(3) };
    let mut recs: Vec<Rec> = vec![];
    for _ in 0..n {
        let raw = if recs.is_empty() || c.src.chance(3, 4) {
            c.src.blob(16)
        } else {
            raw_salt(&recs[0])
        };
        let tier = if slow { ["low", "med", "high"][c.src.weighted(&[7, 3, 2])] } else { *c.src.pick(&["low", "med", "high", "min"]) };
        let temp = !slow && !(tier == "min" && c.src.chance(1, 2));
        let stem = gen_stem(c);
        recs.push(Rec { salt: matter_text("0A", &raw).1, stem, tier, temp });
    }
    if slow {
        c.probe(match recs[0].tier {
            "low" => "tier low",
            "med" => "tier med",
            _ => "tier high",
        });
    }
    let crashy = c.src.below(4);
    let noisy = c.src.below(3);
    let mut mem: Vec<(usize, Mem)> = vec![];
    for r in &recs {
        let how = c.src.weighted(&[4, 2, 1]);
        let m = wake(c, r, &r.salt, r.tier, how)?;
        match m {
            Ok(m) => mem.push((how, m)),
            Err(e) => fail!(c, "c09/refused", "{r:?} refused: {e}"),
        }
        c.ev(format!("controller {r:?} how {how}"));
    }
    // what is published: which controller, what was asked for, the keys
    let mut book: Vec<(usize, Want, Vec<Key>)> = vec![];
    let steps = if slow { 2 } else { 2 + c.src.small(14) };
    for _ in 0..steps {
        c.src.begin();
        c.advance(MS * 50);
        let who = c.src.us(n);
        match c.src.weighted(&[4, 3 * crashy + 1, noisy, noisy, if slow { 0 } else { 1 }]) {
            0 => {
                let how = mem[who].0;
                let w = gen_want(c, how, slow);
                c.ev(format!("{who} derives {w:?}"));
                let got = derive(c, &mem[who].1, &recs[who], &w)?;
                let want = expect(&recs[who], &w);
                compare(c, &recs[who], &w, &want, &got, "first")?;
                c.state(mix(how as u64 ^ hash_str(w.codes[0]) ^ ((w.count as u64) << 8) ^ ((w.codes.len() as u64) << 16) ^ ((recs[who].stem.is_empty() as u64) << 20)));
                book.push((who, w, want));
            }
            1 => {
                // crash: everything but the record is gone; then come back, perhaps from a bad record
                c.fault("crash and restart");
                let r = recs[who].clone();
                let how = mem[who].0;
                if c.src.chance(1, 2) {
                    let (salt, tier) = spoil(c, &r);
                    let good = decodes(&salt, &tier);
                    let back = wake(c, &r, &salt, &tier, how)?;
                    c.ev(format!("{who} comes back from {salt:?} {tier:?}: {}", back.is_ok()));
                    c.checks += 1;
                    match back {
                        Ok(m) if !good => {
                            // a tier nobody knows may be found out when it is used
                            if decodes(&salt, "low") {
                                if let Mem::Salter(x) = &m {
                                    let g = lib!(c, "signer", es(x.signer(None, None, Some("x"), None, None)));
                                    ensure!(c, g.is_err(), "c09/bad-tier", "tier {tier:?} gives keys");
                                    c.probe("bad record refused");
                                } else {
                                    return c.done("c09/bad-tier", format!("tier {tier:?} accepted by creator"));
                                }
                            } else {
                                return c.done("c09/bad-salt", format!("stored salt {salt:?} (was {}) does not decode and is accepted", r.salt));
                            }
                        }
                        Ok(_) => c.probe("bad record still decodes"),
                        Err(_) if good && salt == r.salt => return c.done("c09/refused", format!("{salt:?} {tier:?} refused")),
                        Err(_) => c.probe("bad record refused"),
                    }
                }
                let how = if c.src.chance(3, 4) { how } else { how };
                match wake(c, &r, &r.salt, r.tier, how)? {
                    Ok(m) => mem[who] = (how, m),
                    Err(e) => fail!(c, "c09/refused", "{r:?} refused after crash: {e}"),
                }
                // the keys that were in use are made again
                let mine: Vec<usize> = (0..book.len()).filter(|i| book[*i].0 == who).collect();
                if !mine.is_empty() {
                    let k = mine[c.src.us(mine.len())];
                    let (_, w, want) = book[k].clone();
                    let got = derive(c, &mem[who].1, &r, &w)?;
                    compare(c, &r, &w, &want, &got, "after crash")?;
                    c.probe("keys regenerated after crash");
                }
            }
            2 => {
                // other things the process does
                if let (Mem::Salter(x), true) = (&mem[who].1, c.src.chance(1, 8)) {
                    // a tier nobody knows is never replaced by one that is
                    let t = *c.src.pick(&["", "lo", "LOW", "minimum", "low ", " low", "0"]);
                    c.fault("unknown tier");
                    c.checks += 1;
                    let g = lib!(c, "signer", es(x.signer(None, None, Some("x"), Some(t), None)));
                    ensure!(c, g.is_err(), "c09/bad-tier", "tier {t:?} named for one key of {:?} gives a key", recs[who]);
                    let g = lib!(c, "stretch", es(x.stretch(None, Some("x"), Some(t), None)));
                    ensure!(c, g.is_err(), "c09/bad-tier", "tier {t:?} named for one stretch of {:?} is taken", recs[who]);
                }
                c.fault("unrelated work");
                let k = c.src.below(4);
                let junk = c.src.pick(&["", "0A", "EAAA", "0AAAAAAAAAAAAAAAAAAAAAAA", "0AAAAAAAAAAAAAAAAAAAAAA="]).to_string();
                let _ = c.call("unrelated", || match k {
                    0 => drop(Salter::new_with_qb64(&junk, None)),
                    1 => drop(Salter::new_with_defaults(Some("high")).map(|s| s.signer(None, None, Some("00"), None, Some(true)))),
                    2 => drop(SaltyCreator::new(Some(&junk), Some("zz"), Some("high"), None)),
                    _ => drop(Signer::new_with_defaults(None, None)),
                })?;
            }
            3 => {
                // the entropy source misbehaves, which must not matter
                c.fault("entropy source repeats, is interrupted or short");
                let e = seams::entropy();
                e.repeat = if e.repeat.is_none() { Some([7; 64]) } else { None };
                e.plan.push_back(seams::Ent::Eintr);
                e.plan.push_back(seams::Ent::Give(3));
            }
            _ => {
                // raw stretching, of any length
                let r = recs[who].clone();
                let size = *c.src.pick(&[4usize, 16, 31, 32, 33, 64, 65, 128]);
                let path = gen_stem(c);
                if let Mem::Salter(x) = &mem[who].1 {
                    let tier = if r.temp { "min" } else { r.tier };
                    if tier == "min" {
                        let got = must!(c, "c09/stretch", "stretch", x.stretch(Some(size), Some(&path), Some("min"), Some(r.temp)));
                        let want = refc::stretch(path.as_bytes(), &raw_salt(&r), size, "min");
                        ensure!(c, got == want, "c09/stretch", "stretch of {path:?} to {size} is {} and not {}", hex(&got), hex(&want));
                    }
                }
            }
        }
        c.src.end();
    }
    // after the last fault every controller comes back with the keys it published last
    for (who, r) in recs.iter().enumerate() {
        if slow && book.iter().filter(|b| b.0 == who).count() == 0 {
            continue;
        }
        let Some((_, w, want)) = book.iter().rev().find(|b| b.0 == who).cloned() else { continue };
        match wake(c, r, &r.salt, r.tier, w.how)? {
            Ok(m) => {
                let got = derive(c, &m, r, &w)?;
                compare(c, r, &w, &want, &got, "at the end")?;
            }
            Err(e) => fail!(c, "c09/refused", "{r:?} refused at the end: {e}"),
        }
    }
    // nothing in common between what was derived from different salts, tiers or paths
    let mut seen: Vec<(Vec<u8>, String)> = vec![];
    for (who, w, keys) in &book {
        let r = &recs[*who];
        for ((p, _), k) in w.paths(r).iter().zip(keys) {
            let id = format!("{} {} {p}", r.salt, if r.temp { "min" } else { r.tier });
            c.checks += 1;
            if let Some((_, o)) = seen.iter().find(|x| x.0 == k.seed) {
                if *o != id {
                    return c.done("c09/shared", format!("{o:?} and {id:?} give the same seed"));
                }
            }
            seen.push((k.seed.clone(), id));
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    quick_runs: 3_500,
    quick_secs: 30,
    thorough_secs: 420,
    rule: "one run is one to three controllers who derive keys of any suite, path and index, crash, come back from their record or a spoiled one, and derive them again; one run in 60 at the full cost of tier low, med or high, others at that of min; distinct: different event log",
    real: &["SaltyCreator, Salter (stretch, signer, signers), Signer, argon2"],
    stub: &["disk, crashes, entropy source, peers"],
    assumptions: &["the reference calls the same published argon2 crate directly, with the documented parameters", "damage that leaves another valid salt cannot be told from it"],
    findings: &[],
    reach: &["keys regenerated after crash", "bad record refused", "signature accepted by peer", "tier low", "tier med", "tier high"],
};
