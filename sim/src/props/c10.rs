//! Keys and salts made without explicit material, while the entropy source is interrupted, short,
//! repeating or failing, on one thread or several.

use crate::ctx::*;
use crate::items::SEEDS;
use crate::refc;
use crate::runner::Prop;
use crate::seams::{self, Ent};
use crate::src::{hash_str, mix, Src};
use keride::cesr::{Indexer, Matter, Salter};
use keride::signify::creating::{RandyCreator, SaltyCreator};
use keride::signing::Signer;

#[derive(Clone, Debug)]
struct Ask {
    what: usize,
    codes: Vec<&'static str>,
    tr: bool,
    shape: u64,
    tier: Option<&'static str>,
    /// messages signed at once with the first key
    sign: Vec<Vec<u8>>,
}

/// what a call gives: secrets, a key derived from a secret one cannot see, signatures
#[derive(Clone, Debug, Default)]
struct Made {
    secrets: Vec<Vec<u8>>,
    derived: Vec<(String, Vec<u8>)>,
    public: Vec<(String, Vec<u8>)>,
    sigs: Vec<(String, Vec<u8>, Vec<u8>)>,
    lens: Vec<usize>,
}

const NAMES: &[&str] = &["Salter", "Signer", "RandyCreator", "SaltyCreator", "SaltyCreator default"];

fn gen_ask(s: &mut Src) -> Ask {
    let what = s.weighted(&[3, 5, 3, 1, 1]);
    let n = if what == 2 { if s.chance(1, 6) { 5 + s.us(60) } else { 1 + s.us(4) } } else { 1 };
    let codes = (0..n).map(|_| *s.pick(SEEDS)).collect();
    let tier = *s.pick(&[None, Some("low"), Some("high"), Some("med")]);
    let k = s.us(4);
    let sign = (0..k).map(|_| { let n = s.small(40) as usize; s.blob(n) }).collect();
    Ask { what, codes, tr: s.chance(1, 2), shape: s.below(4), tier, sign }
}

fn make(a: &Ask) -> Result<Made, String> {
    let mut m = Made::default();
    let tr = if a.tr && a.shape == 0 { None } else { Some(a.tr) };
    let code = if a.codes[0] == "A" && a.shape < 2 { None } else { Some(a.codes[0]) };
    let mut signers: Vec<Signer> = vec![];
    match a.what {
        0 => {
            let s = match a.shape {
                0 => es(Salter::new(a.tier, None, None, None, None, None))?,
                1 => es(Salter::new(a.tier, Some("0A"), None, None, None, None))?,
                _ => es(Salter::new_with_defaults(a.tier))?,
            };
            m.secrets.push(s.raw());
            m.lens.push(16);
        }
        1 => {
            let s = match a.shape {
                0 => es(Signer::new(tr, code, None, None, None, None))?,
                _ => es(Signer::new_with_defaults(tr, code))?,
            };
            signers.push(s);
        }
        2 => {
            let r = RandyCreator::sim_new();
            let v = if a.shape == 0 { r.sim_create(None, Some(a.codes.len() as u16), code, tr) } else { r.sim_create(Some(a.codes.clone()), None, None, tr) };
            if v.len() != a.codes.len() {
                return Err(format!("{} keys and not {}", v.len(), a.codes.len()));
            }
            signers.extend(v);
        }
        k => {
            let s = if k == 3 { es(SaltyCreator::new(None, Some("x"), a.tier, None))? } else { SaltyCreator::default() };
            let v = s.create(None, None, None, None, None, None, Some("x"), None, true);
            for x in v {
                m.derived.push(("x00".into(), x.raw()));
            }
        }
    }
    for s in &signers {
        m.secrets.push(s.raw());
        m.lens.push(32);
        m.public.push((s.verfer().code(), s.verfer().raw()));
    }
    Ok(m)
}

/// sign after, with the first key
fn sign(a: &Ask, seed: &[u8], code: &str) -> Result<Vec<(String, Vec<u8>, Vec<u8>)>, String> {
    let s = es(Signer::new_with_raw(seed, None, Some(code)))?;
    let id = format!("{code}{}", hex(seed));
    a.sign
        .iter()
        .enumerate()
        .map(|(i, x)| Ok((id.clone(), x.clone(), if i % 2 == 0 { es(s.sign_unindexed(x))?.raw() } else { es(s.sign_indexed(x, false, i as u32, None))?.raw() })))
        .collect()
}

fn find(hay: &[u8], needle: &[u8], from: usize) -> Option<usize> {
    if needle.is_empty() || hay.len() < needle.len() {
        return None;
    }
    (from..=hay.len() - needle.len()).find(|i| &hay[*i..*i + needle.len()] == needle)
}

/// every secret has to be taken, in full, from what this call drew, and from nothing else that was taken
fn origin(c: &mut Ctx, a: &Ask, m: &Made, drawn: &[u8]) -> R<()> {
    let mut pos = 0;
    for (i, s) in m.secrets.iter().enumerate() {
        ensure!(c, s.len() == m.lens[i], "c10/length", "{} gives a secret of {} bytes", NAMES[a.what], s.len());
        match find(drawn, s, pos) {
            Some(p) => pos = p + s.len(),
            None => fail!(c, "c10/origin", "secret {} of {} ({a:?}) is not from what was drawn for it, {}", hex(s), NAMES[a.what], hex(drawn)),
        }
    }
    for (path, key) in &m.derived {
        let ok = drawn.len() >= 16 && (0..=drawn.len() - 16).rev().any(|p| refc::stretch(path.as_bytes(), &drawn[p..p + 16], 32, "min") == *key);
        ensure!(c, ok, "c10/origin", "key {} of {} does not come from a salt drawn for it, {}", hex(key), NAMES[a.what], hex(drawn));
    }
    for ((code, pk), (seed, suite)) in m.public.iter().zip(m.secrets.iter().zip(suites(a))) {
        ensure!(c, *code == refc::ver_code(suite, a.tr) && *pk == refc::public(suite, seed), "c10/public", "key of seed {} of {suite} is {code} {}", hex(seed), hex(pk));
    }
    Ok(())
}

fn suites(a: &Ask) -> Vec<&'static str> {
    if a.what == 2 && a.shape == 0 {
        vec![a.codes[0]; a.codes.len()]
    } else {
        a.codes.clone()
    }
}

fn plan(c: &mut Ctx, level: u64) {
    let e = seams::entropy();
    if !c.src.chance(level, 4) {
        return;
    }
    for _ in 0..1 + c.src.us(4) {
        let x = match c.src.weighted(&[4, 4, 2, 1, 3]) {
            0 => {
                c.fault("entropy read interrupted");
                Ent::Eintr
            }
            1 => {
                c.fault("short entropy read");
                Ent::Give(1 + c.src.us(31))
            }
            2 => {
                c.fault("entropy source fails");
                Ent::Fail(*c.src.pick(&[libc::EIO, libc::EAGAIN, libc::ENOSYS, libc::EPERM, libc::EFAULT, libc::EINVAL]))
            }
            3 => {
                c.fault("entropy source ends");
                Ent::Zero
            }
            _ => Ent::Give(usize::MAX),
        };
        e.plan.push_back(x);
    }
}

fn run(c: &mut Ctx) -> R<()> {
    let level = c.src.below(4);
    let threads = c.src.chance(1, 3);
    let mut seen: Vec<(Vec<u8>, usize)> = vec![];
    let mut sigs: Vec<(String, Vec<u8>, Vec<u8>)> = vec![];
    let mut repeating = false;
    let rounds = 1 + c.src.us(6);
    for round in 0..rounds {
        c.src.begin();
        c.advance(1_000_000);
        if !threads && c.src.chance(1, 5) {
            // the source starts over again and again
            let e = seams::entropy();
            if e.repeat.is_none() {
                c.fault("entropy source repeats itself");
                let mut r = [0u8; 64];
                let b = c.src.blob(64);
                r.copy_from_slice(&b);
                // a source of zeros never gives a valid scalar, and nobody could make a key of it
                r[1] |= 1;
                r[0] &= 0x7f;
                r[31] |= 1;
                e.repeat = Some(r);
            } else {
                e.repeat = None;
            }
            repeating = e.repeat.is_some();
        }
        plan(c, level);
        if threads {
            let n = 2 + c.src.us(4);
            let mut jobs: Vec<Vec<Ask>> = vec![];
            for _ in 0..n {
                let k = 1 + c.src.us(3);
                jobs.push((0..k).map(|_| gen_ask(&mut c.src)).collect());
            }
            let mean = *c.src.pick(&[1u64, 4, 30]);
            let ss = c.src.u64();
            let before = seams::entropy().drawn.len();
            type Res = Vec<(Result<Made, String>, bool)>;
            let bodies: Vec<Box<dyn FnOnce() -> Res + Send>> = jobs
                .iter()
                .map(|j| {
                    let j = j.clone();
                    Box::new(move || {
                        j.iter()
                            .map(|a| {
                                let me = seams::my_thread();
                                let f = seams::entropy().fails[me];
                                let r = seams::guarded(|| make(a)).unwrap_or_else(Err);
                                (r, seams::entropy().fails[me] > f)
                            })
                            .collect()
                    }) as Box<dyn FnOnce() -> Res + Send>
                })
                .collect();
            let (res, sched) = seams::run_threads(Src::seeded(ss), mean, bodies);
            c.ev(format!("round {round}: {n} threads, {} switches, order {:x}", sched.switches, sched.hash));
            c.state(sched.hash);
            c.calls += res.iter().map(|r| r.len() as u64).sum::<u64>();
            if sched.switches > 0 {
                c.probe("threads interleaved");
            }
            let e = seams::entropy();
            for (t, (job, out)) in jobs.iter().zip(&res).enumerate() {
                let mine: Vec<u8> = (before..e.drawn.len()).filter(|i| e.tags[*i] == t as u8).map(|i| e.drawn[i]).collect();
                let mut rest: &[u8] = &mine;
                for (a, (r, failed)) in job.iter().zip(out) {
                    c.ev(format!("thread {t} {}: {}", NAMES[a.what], r.is_ok()));
                    c.checks += 1;
                    match r {
                        Ok(_) if *failed => return c.done("c10/failure", format!("{} ({a:?}) gives a key though the entropy source failed", NAMES[a.what])),
                        Err(e) if !*failed => return c.done("c10/refused", format!("{} ({a:?}) fails: {e}", NAMES[a.what])),
                        Err(_) => c.probe("no key as entropy failed"),
                        Ok(m) => {
                            // in what this thread drew, after what its earlier calls took
                            origin(c, a, m, rest)?;
                            if let Some(last) = m.secrets.last() {
                                let p = find(rest, last, 0).unwrap_or(0);
                                rest = &rest[p + last.len()..];
                            }
                            for s in &m.secrets {
                                seen.push((s.clone(), a.what));
                            }
                        }
                    }
                }
            }
        } else {
            let a = gen_ask(&mut c.src);
            let (d0, f0) = (seams::entropy().drawn.len(), seams::entropy().failed);
            let r = c.call_raw(|| make(&a)).unwrap_or_else(Err);
            let e = seams::entropy();
            let failed = e.failed > f0;
            let drawn = e.drawn[d0..].to_vec();
            c.ev(format!("round {round}: {} {:?} ok {} drew {}", NAMES[a.what], a.codes, r.is_ok(), drawn.len()));
            c.state(mix(a.what as u64 ^ hash_str(a.codes[0]) ^ ((drawn.len() as u64) << 8) ^ ((failed as u64) << 40) ^ ((repeating as u64) << 41)));
            c.checks += 1;
            match &r {
                Ok(_) if failed => return c.done("c10/failure", format!("{} ({a:?}) gives a key though the entropy source failed", NAMES[a.what])),
                Err(e) if !failed => return c.done("c10/refused", format!("{} ({a:?}) fails: {e}", NAMES[a.what])),
                Err(_) => c.probe("no key as entropy failed"),
                Ok(m) => {
                    origin(c, &a, m, &drawn)?;
                    c.probe("fresh secret");
                    if !repeating {
                        for s in &m.secrets {
                            seen.push((s.clone(), a.what));
                        }
                    }
                    if a.what == 1 || a.what == 2 {
                        // it signs, and after a restart signs other messages
                        for again in 0..1 + c.src.us(2) {
                            let mut b = a.clone();
                            for x in b.sign.iter_mut() {
                                x.push(again as u8 + 1);
                            }
                            let f0 = seams::entropy().failed;
                            let suite = suites(&a)[0];
                            let r = c.call_raw(|| sign(&b, &m.secrets[0], suite)).unwrap_or_else(Err);
                            let failed = seams::entropy().failed > f0;
                            match r {
                                Ok(v) => {
                                    for (_, msg, sig) in &v {
                                        ensure!(c, refc::verify(refc::ver_code(suite, true), &refc::public(suite, &m.secrets[0]), msg, sig), "c10/signature", "signature {} of suite {suite} is not valid", hex(sig));
                                    }
                                    sigs.extend(v);
                                }
                                Err(e) => ensure!(c, failed, "c10/signing", "signing fails: {e}"),
                            }
                        }
                    }
                }
            }
        }
        c.src.end();
    }
    let e = seams::entropy();
    for _ in 0..e.eintr {
        c.fault("interrupted read taken");
    }
    for _ in 0..e.short {
        c.fault("short read taken");
    }
    for _ in 0..e.failed {
        c.fault("failed read taken");
    }
    // none equal
    for i in 0..seen.len() {
        for k in 0..i {
            c.checks += 1;
            if find(&seen[i].0, &seen[k].0[..8], 0).is_some() || find(&seen[k].0, &seen[i].0[..8], 0).is_some() {
                return c.done("c10/equal", format!("secrets {} and {} have bytes in common", hex(&seen[i].0), hex(&seen[k].0)));
            }
        }
    }
    // no nonce twice for different messages
    for i in 0..sigs.len() {
        for k in 0..i {
            if (&sigs[i].0, &sigs[i].1) == (&sigs[k].0, &sigs[k].1) {
                continue;
            }
            c.checks += 1;
            if sigs[i].2[..32] == sigs[k].2[..32] {
                return c.done("c10/nonce", format!("signatures {} and {} over different messages have the same nonce", hex(&sigs[i].2), hex(&sigs[k].2)));
            }
            if repeating {
                c.probe("signed with repeating entropy");
            }
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    quick_runs: 30_000,
    quick_secs: 25,
    thorough_secs: 420,
    rule: "one run is up to six rounds of creating salters, signers and creators of every suite, alone or on up to five threads in lock step, with the entropy source interrupted, short, ended, failing or repeating, and signing with the keys; distinct: different event log",
    real: &["Salter, Signer, RandyCreator, SaltyCreator, rand_core OsRng, getrandom, the signature crates"],
    stub: &["the getrandom system call, thread scheduling"],
    assumptions: &["the simulated entropy source does not repeat itself unless told to", "a panic counts as reporting that there is no entropy, as rand_core has it", "the kernel has getrandom (the fallback of the getrandom crate to a file is not exercised)"],
    findings: &[],
    reach: &["fresh secret", "no key as entropy failed", "threads interleaved", "signed with repeating entropy"],
};
