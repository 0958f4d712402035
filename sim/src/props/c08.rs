//! Identifiers and the inception events they are derived from, published to verifiers that store and
//! read them back, against controllers who claim another's identifier.

use crate::codec::*;
use crate::ctx::*;
use crate::items::*;
use crate::json::*;
use crate::msgs::*;
use crate::mutate::*;
use crate::net::*;
use crate::refc;
use crate::runner::Prop;
use crate::src::{hash_str, mix};
use keride::cesr::{Matter, Saider, Serder};
use keride::prefexing::prefixer::Prefixer;

const BASIC: &[&str] = &["B", "1AAA", "1AAI", "D", "1AAB", "1AAJ"];

fn basic(code: &str) -> bool {
    BASIC.contains(&code)
}
fn nontrans(code: &str) -> bool {
    ["B", "1AAA", "1AAI"].contains(&code)
}

#[derive(Clone, Debug)]
struct Inc {
    j: J,
    bytes: Vec<u8>,
    pre: String,
    code: String,
}

impl Inc {
    fn brief(&self) -> String {
        format!("{} {} {} bytes", self.j.str("t").unwrap_or("-"), self.pre, self.bytes.len())
    }
}

/// the identifier some content derives to, computed independently. None: it does not derive
fn derives(j: &J, code: &str) -> Option<String> {
    if !["icp", "dip", "vcp"].contains(&j.str("t")?) {
        return None;
    }
    if basic(code) {
        let k = j.list("k")?;
        if k.len() != 1 {
            return None;
        }
        if nontrans(code) && committed(j) {
            return None;
        }
        let t = read(MATTER, k[0].as_bytes())?;
        if t.code != code || t.len != k[0].len() {
            return None;
        }
        Some(k[0].clone())
    } else {
        let mut k = j.clone();
        k.get("i")?;
        k.get("d")?;
        for l in ["d", "i"] {
            k.set(l, J::Str("#".repeat(refc::dig_len(code))));
        }
        let ident = j.str("v")?.get(..4)?.to_string();
        refc::resize(&mut k, &ident);
        Some(refc::dig_text(code, k.text().as_bytes()))
    }
}

fn committed(j: &J) -> bool {
    match j.get("n") {
        Some(J::Arr(a)) => !a.is_empty(),
        Some(J::Str(x)) => !x.is_empty(),
        _ => false,
    }
}

/// is the identifier bound to this content?
fn bound(pre: &str, j: &J, prefixed: bool) -> bool {
    let Some(t) = read(MATTER, pre.as_bytes()) else { return false };
    if t.len != pre.len() {
        return false;
    }
    match derives(j, &t.code) {
        Some(p) => p == pre && (!prefixed || j.str("i") == Some(pre)),
        None => false,
    }
}

fn author(c: &mut Ctx) -> R<Inc> {
    let code = if c.src.chance(1, 2) { *c.src.pick(BASIC) } else { *c.src.pick(DIGS) };
    let ilk = if basic(code) { *c.src.pick(&["icp", "icp", "dip"]) } else { *c.src.pick(&["icp", "icp", "dip", "vcp"]) };
    let nt = nontrans(code);
    let mut f: Vec<(&str, J)> = vec![("v", s("KERI10JSON000000_")), ("t", s(ilk)), ("d", s("")), ("i", s(""))];
    let nb = few(c, 3);
    let wits: Vec<String> = (0..nb).map(|_| Key::gen(c, false).text()).collect();
    let seals = |c: &mut Ctx| {
        let n = c.src.small(3) as usize;
        J::Arr((0..n).map(|_| gen_json(c, 2)).collect())
    };
    if ilk == "vcp" {
        f.push(("ii", J::Str(fake_dig(c, "E"))));
        f.push(("s", s("0")));
        f.push(("c", if c.src.chance(1, 2) { strs(&["NB"]) } else { J::Arr(vec![]) }));
        f.push(("bt", s(&format!("{nb:x}"))));
        f.push(("b", strs(&wits)));
        f.push(("n", J::Str(fake_dig(c, "E"))));
    } else {
        let mut keys: Vec<String> = vec![];
        if basic(code) {
            let suite = match code {
                "B" | "D" => "A",
                "1AAA" | "1AAB" => "J",
                _ => "Q",
            };
            let mut k = Key::gen(c, !nt);
            k.suite = suite;
            keys.push(k.text());
        } else {
            for _ in 0..1 + few(c, 3) {
                keys.push(Key::gen(c, true).text());
            }
        }
        let nn = if nt { 0 } else { few(c, 4) };
        let nxt: Vec<String> = (0..nn).map(|_| fake_dig(c, "E")).collect();
        f.push(("s", s("0")));
        f.push(("kt", gen_thold(c, keys.len())));
        f.push(("k", strs(&keys)));
        f.push(("nt", gen_thold(c, nn)));
        f.push(("n", if nn == 0 && c.src.chance(1, 3) { s("") } else { strs(&nxt) }));
        f.push(("bt", s(&format!("{nb:x}"))));
        f.push(("b", if nt { J::Arr(vec![]) } else { strs(&wits) }));
        f.push(("c", J::Arr(vec![])));
        f.push(("a", if nt { J::Arr(vec![]) } else { seals(c) }));
        if ilk == "dip" {
            f.push(("di", J::Str(fake_dig(c, "E"))));
        }
    }
    let mut j = obj(f);
    // what stands where the identifier goes does not matter
    let hint = match c.src.below(4) {
        0 => String::new(),
        1 => "#".repeat(refc::dig_len("E")),
        _ => {
            // of the kind it will be, so that the kind need not be said
            if basic(code) {
                let n = if code.len() == 1 { 32 } else { 33 };
                let r = c.src.random(n);
                matter_text(code, &r).1
            } else {
                fake_dig(c, code)
            }
        }
    };
    let said_code = hint.len() < 2 || hint.starts_with('#') || c.src.chance(1, 2);
    j.set("i", s(&hint));
    if c.src.chance(1, 3) {
        j.set("d", s(&hint));
    }
    let want = derives(&j, code);
    let Some(want) = want else { fail!(c, "harness", "reference cannot derive {}", j.text()) };
    let allows: Option<Vec<&str>> = match c.src.below(3) {
        0 => None,
        1 => Some(vec![]),
        _ => {
            let o = *c.src.pick(&["B", "E", "D"]);
            Some(vec![o, code])
        }
    };
    let v = j.value();
    let p = must!(c, "c08/derive", "derive", Prefixer::new_with_ked(&v, allows.as_deref(), if said_code { Some(code) } else { None }));
    let pre = must!(c, "c08/derive", "identifier text", p.qb64());
    ensure!(c, pre == want && p.code() == code, "c08/derive", "{} derives {pre} and not {want}", j.text());
    ensure!(c, p.transferable() != nontrans(code), "c08/derive", "identifier {pre} is transferable: {}", p.transferable());
    // a kind that is not allowed is refused
    if c.src.chance(1, 4) {
        let others: Vec<&str> = BASIC.iter().chain(DIGS).copied().filter(|x| *x != code).collect();
        let r = lib!(c, "derive", es(Prefixer::new_with_ked(&v, Some(&others), if said_code { Some(code) } else { None })));
        ensure!(c, r.is_err(), "c08/allows", "derivation by {code} is not in {others:?} and allowed");
    }
    j.set("i", s(&pre));
    let m = if basic(code) {
        // its own digest is the said
        let (r, bytes, said) = refc::seal(j.clone(), "KERI", "E", &["d"]);
        let (sd, ked) = must!(c, "c08/seal", "saidify", Saider::saidify(&j.value(), Some("E"), None, None, None));
        let q = must!(c, "c08/seal", "said", sd.qb64());
        ensure!(c, q == said, "c08/seal", "said {q} is not {said}");
        (r, bytes, ked)
    } else {
        j.set("d", s(&pre));
        refc::resize(&mut j, "KERI");
        let bytes = j.text().into_bytes();
        (j.clone(), bytes, j.value())
    };
    let sd = must!(c, "c08/seal", "serialize", Serder::new_with_ked(&m.2, Some(if basic(code) { "E" } else { code }), None));
    ensure!(c, sd.raw() == m.1, "c08/seal", "serialized as {} not {}", show(&sd.raw()), show(&m.1));
    let x = Inc { j: m.0, bytes: m.1, pre, code: code.to_string() };
    ensure!(c, bound(&x.pre, &x.j, true), "harness", "reference does not bind {} to {}", x.pre, x.j.text());
    Ok(x)
}

/// derivation from an inception that cannot bind the identifier is refused, from any other gives the one it binds
fn misderive(c: &mut Ctx, x: &Inc) -> R<()> {
    let mut j = x.j.clone();
    let mut code = x.code.clone();
    let full = |c: &mut Ctx, j: &mut J, l: &str| {
        let n = c.src.below(3);
        let v = match n {
            0 => J::Arr(vec![]),
            1 if l == "n" => s(&fake_dig(c, "E")),
            _ if l == "a" => J::Arr((0..n).map(|_| gen_json(c, 1)).collect()),
            _ => strs(&(0..n).map(|_| Key::gen(c, false).text()).collect::<Vec<_>>()),
        };
        j.set(l, v);
    };
    for _ in 0..1 + c.src.small(3) {
        match c.src.below(8) {
            0 => full(c, &mut j, "n"),
            1 => full(c, &mut j, "b"),
            2 => full(c, &mut j, "a"),
            3 => {
                let mut k = j.list("k").unwrap_or_default();
                let t = Key::gen(c, true).text();
                match c.src.below(4) {
                    0 => k.push(t),
                    1 => k.insert(0, t),
                    2 => k = vec![t],
                    _ => k.clear(),
                }
                j.set("k", strs(&k));
            }
            4 => {
                // the same key under another code
                if let Some(k) = j.list("k").filter(|k| !k.is_empty()) {
                    if let Some(t) = read(MATTER, k[0].as_bytes()) {
                        let o: Vec<&str> = BASIC.iter().copied().filter(|k| k.len() == t.code.len() && row(MATTER, k).map(|r| r.raw()) == Some(t.raw.len())).collect();
                        if !o.is_empty() {
                            let mut k = k.clone();
                            k[0] = matter_text(c.src.pick(&o), &t.raw).1;
                            j.set("k", strs(&k));
                        }
                    }
                }
            }
            5 => j.set("t", s(*c.src.pick(&["icp", "dip", "vcp", "rot", "drt", "ixn", "rct", ""]))),
            6 => code = if c.src.chance(1, 2) { c.src.pick(BASIC).to_string() } else { c.src.pick(DIGS).to_string() },
            _ => {
                if let Some(f) = j.fields_mut() {
                    f.retain(|f| f.0 != "k");
                }
            }
        }
    }
    let want = derives(&j, &code).filter(|_| {
        // nothing hangs on an identifier that cannot be rotated
        !nontrans(&code) || ["b", "a"].iter().all(|l| j.get(l).map_or(true, |v| matches!(v, J::Arr(a) if a.is_empty())))
    });
    let v = j.value();
    let allows = [code.as_str()];
    let allows: Option<&[&str]> = if c.src.chance(1, 2) { Some(&allows) } else { None };
    let r = c.call("derive", || es(Prefixer::new_with_ked(&v, allows, Some(&code))).and_then(|p| es(p.qb64()).map(|q| (q, es(p.verify(&v, Some(false))) == Ok(true)))))?;
    c.checks += 1;
    match (want, r) {
        (None, Ok((q, _))) => c.done("c08/misderived", format!("{q} is derived by {code} from {}, which cannot bind it", j.text())),
        (Some(w), Ok((q, ok))) => {
            ensure!(c, w == q, "c08/misderived", "{} derives {q} and not {w}", j.text());
            ensure!(c, ok, "c08/misderived", "{q} is derived from {} and not accepted for it", j.text());
            c.probe("derived from altered content");
            Ok(())
        }
        (Some(w), Err(e)) => c.done("c08/misderived", format!("{w} is not derived by {code} from {}: {e}", j.text())),
        (None, Err(_)) => {
            c.fault("inception that binds nothing");
            Ok(())
        }
    }
}

use keride::cesr::Sadder;

fn form(c: &mut Ctx) -> Form {
    crate::props::c01::any_form(c)
}

/// what a verifier concludes about an identifier and the bytes of an event
fn receive(c: &mut Ctx, x: &Inc, pre: &str, b: &[u8], what: &str) -> R<()> {
    let f = form(c);
    let asks = c.src.below(3);
    let prefixed = [None, Some(false), Some(true)][asks as usize];
    // the algorithm of the event's own identifier
    let dcode = std::str::from_utf8(b)
        .ok()
        .and_then(|t| t.find("\"d\":\"").and_then(|i| DIGS.iter().find(|k| t[i + 5..].starts_with(**k))))
        .map_or("E".to_string(), |k| k.to_string());
    let r = c.call("verify identifier", || -> Result<(bool, String, String, bool), String> {
        let p = es(match f {
            Form::Text => Prefixer::new_with_qb64(pre),
            Form::Bytes => Prefixer::new_with_qb64b(pre.as_bytes()),
            Form::Bin => {
                if pre.len() % 4 != 0 || dec(pre.as_bytes()).is_none() {
                    return Err("not binary".into());
                }
                Prefixer::new_with_qb2(&binary(pre))
            }
        })?;
        let m = es(Serder::new(Some(&dcode), Some(b), None, None, None))?;
        let ok = es(p.verify(&m.ked(), prefixed))?;
        let again = es(p.verify(&m.ked(), prefixed))?;
        if ok != again {
            return Err("second verification differs".into());
        }
        Ok((ok, es(p.qb64())?, m.pre().unwrap_or_default(), p.transferable() != read(MATTER, pre.as_bytes()).is_some_and(|t| nontrans(&t.code))))
    })?;
    let genuine = pre == x.pre && b.len() >= x.bytes.len() && b[..x.bytes.len()] == x.bytes[..];
    c.checks += 1;
    match r {
        Err(e) => {
            if genuine {
                return c.done("c08/refused", format!("{} is refused for its own event ({what}, {f:?}): {e}", x.brief()));
            }
            c.probe("refused");
        }
        Ok((ok, q, ipre, kind)) => {
            if !kind {
                return c.done("c08/transferable", format!("whether keys of {pre} may be changed is misread"));
            }
            if q != pre {
                // trailing characters are not part of it
                if !pre.starts_with(&q) {
                    return c.done("c08/text", format!("identifier {pre} is read as {q}"));
                }
            }
            if genuine && !ok {
                return c.done("c08/refused", format!("{} is not accepted for its own event ({what}, prefixed {prefixed:?})", x.brief()));
            }
            if genuine && ipre != x.pre {
                return c.done("c08/field", format!("{} says its identifier is {ipre}", x.brief()));
            }
            let size = crate::props::c04::independent_size(b).unwrap_or(0).min(b.len());
            let Some(g) = crate::json::parse(&b[..size]).map(|j| j.dedup()) else {
                if ok {
                    return c.done("c08/undetected", format!("{pre} is accepted for {}, which is no event ({what})", show(b)));
                }
                return Ok(());
            };
            let right = bound(&q, &g, prefixed.unwrap_or(false));
            // same content in another way of writing is the same content
            let same = q == x.pre && blank(&g).same(&blank(&x.j)) && (!prefixed.unwrap_or(false) || g.str("i") == Some(&q));
            if ok && !right && !same {
                return c.done("c08/undetected", format!("{pre} is accepted (prefixed {prefixed:?}) for {} ({what}), event of it: {}", g.text(), show(&x.bytes)));
            }
            c.probe(if ok {
                if genuine {
                    "accepted as published"
                } else {
                    "accepted, altered where it is not bound"
                }
            } else {
                "not accepted"
            });
        }
    }
    Ok(())
}

fn blank(j: &J) -> J {
    let mut j = j.clone();
    for l in ["d", "i", "v"] {
        j.set(l, s(""));
    }
    j
}

/// (identifier, event, what was done)
fn forge(c: &mut Ctx, x: &Inc, all: &[Inc]) -> (String, Vec<u8>, &'static str) {
    let mut j = x.j.clone();
    let mut pre = x.pre.clone();
    let what = match c.src.weighted(&[4, 3, 2, 2, 2, 2, 3, 2, 2, 2]) {
        0 => {
            mangle_json(c, &mut j);
            "content changed"
        }
        1 => {
            c.fault("key list changed");
            let mut k = j.list("k").unwrap_or_default();
            let nk = Key::gen(c, true).text();
            match c.src.below(4) {
                0 => k.push(nk),
                1 => k.insert(0, nk),
                2 => k = vec![nk],
                _ => {
                    if k.len() > 1 && c.src.chance(1, 2) {
                        k.reverse();
                    } else {
                        k.clear();
                    }
                }
            }
            j.set("k", strs(&k));
            "key list changed"
        }
        2 => {
            c.fault("next keys added");
            let d = fake_dig(c, "E");
            if c.src.chance(1, 3) {
                j.set("n", s(&d));
            } else {
                let mut n = j.list("n").unwrap_or_default();
                n.push(d);
                j.set("n", strs(&n));
            }
            "next keys added"
        }
        3 => {
            c.fault("kind of event changed");
            let t = c.src.pick(&["icp", "dip", "vcp", "rot", "drt", "ixn", "rct", "ksn", ""]).to_string();
            j.set("t", s(&t));
            "kind of event changed"
        }
        4 => {
            c.fault("identifier in event replaced");
            let d = fake_dig(c, "E");
            j.set("i", s(&d));
            "identifier in event replaced"
        }
        5 => {
            // someone else's event under this identifier
            c.fault("another event");
            let o = c.src.pick(all).clone();
            j = o.j;
            if c.src.chance(1, 2) {
                j.set("i", s(&x.pre));
                if c.src.chance(1, 2) {
                    j.set("d", s(&x.pre));
                }
            }
            "another event"
        }
        6 => {
            c.fault("identifier altered");
            let t = read(MATTER, pre.as_bytes()).unwrap();
            match c.src.below(4) {
                0 => {
                    let mut r = t.raw.clone();
                    let i = c.src.us(r.len());
                    r[i] ^= 1 << c.src.below(8);
                    pre = matter_text(&t.code, &r).1;
                }
                1 => {
                    let same: Vec<&str> = BASIC.iter().chain(DIGS).copied().filter(|k| k.len() == t.code.len() && *k != t.code && row(MATTER, k).map(|r| r.raw()) == Some(t.raw.len())).collect();
                    let k = *c.src.pick(&same);
                    pre = matter_text(k, &t.raw).1;
                }
                2 => {
                    let o = c.src.pick(all);
                    pre = o.pre.clone();
                }
                _ => {
                    let b = mangle(c, pre.as_bytes());
                    pre = String::from_utf8_lossy(&b).to_string();
                }
            }
            if c.src.chance(1, 2) {
                j.set("i", s(&pre));
                if c.src.chance(1, 2) {
                    j.set("d", s(&pre));
                }
            }
            "identifier altered"
        }
        7 => {
            c.fault("one field changed");
            let names: Vec<String> = j.fields().iter().map(|f| f.0.clone()).filter(|n| n != "v").collect();
            let n = c.src.pick(&names).clone();
            let v = odd(c, 1);
            j.set(&n, v);
            "one field changed"
        }
        8 => {
            c.fault("order of fields");
            if let Some(f) = j.fields_mut() {
                let a = 1 + c.src.us(f.len() - 1);
                let b = 1 + c.src.us(f.len() - 1);
                f.swap(a, b);
            }
            "order of fields"
        }
        _ => {
            c.fault("field added or removed");
            if let Some(f) = j.fields_mut() {
                if c.src.chance(1, 2) {
                    let at = 1 + c.src.us(f.len() - 1);
                    f.remove(at);
                } else {
                    let at = 1 + c.src.us(f.len());
                    let at = at.min(f.len());
                    let v = odd(c, 1);
                    f.insert(at, ("xx".into(), v));
                }
            }
            "field added or removed"
        }
    };
    // an attacker makes size and said fit again
    if j.get("v").is_some() {
        refc::resize(&mut j, "KERI");
    }
    if c.src.chance(1, 3) && j.get("d").is_some() {
        let (n, _, said) = refc::seal(j.clone(), "KERI", "E", &["d"]);
        let own = n;
        if c.src.chance(1, 2) {
            j = own;
        } else {
            let _ = said;
        }
    }
    (pre, j.text().into_bytes(), what)
}

#[derive(Clone)]
enum M {
    Post(usize, String, Vec<u8>, &'static str),
    Up,
}

fn run(c: &mut Ctx) -> R<()> {
    let n = 1 + c.src.us(4);
    let mut all: Vec<Inc> = vec![];
    for _ in 0..n {
        c.src.begin();
        let x = author(c)?;
        c.ev(format!("incepted {}: {}", x.brief(), show(&x.bytes)));
        if c.src.chance(1, 3) {
            misderive(c, &x)?;
        }
        all.push(x);
        c.src.end();
    }
    let vers = 1 + c.src.us(3);
    let f = Faults::swarm(c);
    let enemy = c.src.below(5);
    let mut net: Net<M> = Net::new(1 + vers, f);
    let mut disk: Vec<Vec<(usize, String, Vec<u8>)>> = vec![vec![]; vers + 1];
    for _ in 0..1 + c.src.us(3) {
        for i in 0..n {
            for v in 1..=vers {
                c.src.begin();
                net.send(c, 0, v, M::Post(i, all[i].pre.clone(), all[i].bytes.clone(), "as published"));
                for _ in 0..2 {
                    if c.src.chance(enemy, 5) {
                        let (p, b, w) = forge(c, &all[i], &all);
                        net.send(c, 0, v, M::Post(i, p, b, w));
                    }
                }
                c.src.end();
            }
        }
        c.advance(20 * MS);
    }
    let mut steps = 0;
    while let Some((to, _, m)) = net.next(c) {
        steps += 1;
        if steps > 300 {
            break;
        }
        c.src.begin();
        match m {
            M::Post(i, mut p, mut b, mut what) => {
                if net.f.corrupt > 0 && c.src.chance(net.f.corrupt, 1000) {
                    if c.src.chance(1, 3) {
                        p = String::from_utf8_lossy(&mangle(c, p.as_bytes())).to_string();
                    } else {
                        b = mangle(c, &b);
                    }
                    what = "damaged on the way";
                }
                c.ev(format!("verifier {to} gets {p} for {} ({what})", show(&b)));
                c.state(mix(hash_str(what) ^ hash_str(&all[i].code) ^ hash_str(all[i].j.str("t").unwrap_or(""))));
                receive(c, &all[i], &p, &b, what)?;
                if disk[to].len() < 20 {
                    disk[to].push((i, p, b));
                }
                if net.crashes(c) {
                    net.crash(c, to, M::Up);
                }
            }
            M::Up => {
                // checks its records again
                for (i, p, b) in disk[to].clone() {
                    let (mut p, mut b, mut what) = (p, b, "from disk");
                    match c.src.below(6) {
                        0 => {
                            c.fault("torn write");
                            let k = c.src.us(b.len() + 1);
                            b.truncate(k);
                            what = "torn on disk";
                        }
                        1 => {
                            c.fault("disk returns another record");
                            let k = c.src.us(disk[to].len());
                            p = disk[to][k].1.clone();
                            what = "another record";
                        }
                        2 => {
                            c.fault("disk returns damaged record");
                            b = mangle(c, &b);
                            what = "damaged on disk";
                        }
                        _ => {}
                    }
                    receive(c, &all[i], &p, &b, what)?;
                }
            }
        }
        c.src.end();
    }
    for x in &all {
        receive(c, x, &x.pre.clone(), &x.bytes.clone(), "after faults")?;
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    quick_runs: 20_000,
    quick_secs: 25,
    thorough_secs: 420,
    rule: "one run is one to four inceptions (plain, delegated, registry; every derivation code) published to one to three storing verifiers along with forged events and identifiers, over a faulty network; distinct: different event log",
    real: &["Prefixer (derivation, parsing, verify), Saider, Serder, Verfer"],
    stub: &["network, disks, enemy"],
    assumptions: &[
        "digest functions are collision resistant",
        "the size in the version string is filled in again when a prefix is checked; that it is right is checked when the event is read (C12)",
        "fields d and i are blanked together, as the protocol has it",
    ],
    findings: &[],
    reach: &["accepted as published", "not accepted", "refused", "accepted, altered where it is not bound"],
};
