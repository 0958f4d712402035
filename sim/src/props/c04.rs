//! Self-addressed messages on their way from author to receivers, through relays that store them.

use crate::ctx::*;
use crate::items::DIGS;
use crate::json::*;
use crate::msgs::*;
use crate::mutate::*;
use crate::net::*;
use crate::refc;
use crate::runner::Prop;
use crate::src::mix;
use keride::cesr::{Creder, Matter, Sadder, Saider, Serder};
use keride::data::Value;
use keride::prefexing::prefixer::Prefixer;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// message with version string and d
    Framed,
    /// inception whose identifier is its own digest
    Incept,
    /// a block without version string, with another label
    Block,
}

#[derive(Clone)]
struct Sealed {
    kind: Kind,
    j: J,
    bytes: Vec<u8>,
    said: String,
    code: String,
    label: &'static str,
    ignore: Vec<&'static str>,
    ident: &'static str,
}

impl Sealed {
    fn brief(&self) -> String {
        format!("{:?} {} {} {}", self.kind, self.label, self.code, &self.said[..8])
    }
}

const LABELS: &[&str] = &["d", "i", "$id", "@id", "id"];

/// the identifier of the content by definition: of the serialization with the field blanked
fn ref_said(j: &J, code: &str, label: &str, ignore: &[&str], ident: &str) -> (J, String) {
    let mut j = j.clone();
    j.set(label, J::Str("#".repeat(refc::dig_len(code))));
    if j.get("v").is_some() {
        refc::resize(&mut j, ident);
    }
    let mut k = j.clone();
    if let Some(f) = k.fields_mut() {
        f.retain(|(n, _)| !ignore.contains(&n.as_str()));
    }
    let said = refc::dig_text(code, k.text().as_bytes());
    j.set(label, J::Str(said.clone()));
    (j, said)
}

fn author(c: &mut Ctx) -> R<Sealed> {
    match c.src.weighted(&[4, 3, 4]) {
        0 => {
            let m = gen_msg(c);
            let own = m.labels.len() == 2;
            // as the author has it before it is sealed
            let mut j = m.j.clone();
            j.set("v", s(&format!("{}10JSON{}_", m.ident, c.src.pick(&["000000", "0000fb", "ffffff"]))));
            let junk = c.src.below(3);
            j.set("d", s(&match junk {
                0 => String::new(),
                1 => fake_dig(c, "E"),
                _ => gen_str(c),
            }));
            let ident = m.ident;
            if own {
                return incept(c, j, m.code.clone(), ident);
            }
            framed(c, j, m.code.clone(), ident, vec![])
        }
        1 => {
            // a content of its own order and labels
            let n = c.src.small(8) as usize;
            let mut f = vec![("v".to_string(), s("KERI10JSON000000_"))];
            let mut o = gen_obj(c, n, 3, &["v", "d"]);
            f.append(o.fields_mut().unwrap());
            let at = 1 + c.src.us(f.len());
            f.insert(at, ("d".to_string(), s("")));
            let code = c.src.pick(DIGS).to_string();
            let ident = *c.src.pick(&["KERI", "ACDC"]);
            if ident == "ACDC" {
                f[0].1 = s("ACDC10JSON000000_");
            }
            let names: Vec<String> = f.iter().map(|x| x.0.clone()).collect();
            let mut ig = vec![];
            if c.src.chance(1, 5) {
                for w in ["x", "y", "a", "i", "zz", "d", "v"] {
                    if names.iter().any(|n| n == w) && c.src.chance(1, 2) {
                        ig.push(w);
                    }
                }
            }
            framed(c, J::Obj(f), code, ident, ig)
        }
        _ => {
            let label = *c.src.pick(LABELS);
            let n = c.src.small(8) as usize;
            let mut o = gen_obj(c, n, 3, &["v", label]);
            let f = o.fields_mut().unwrap();
            let at = c.src.us(f.len() + 1);
            f.insert(at, (label.to_string(), J::Str(String::new())));
            if c.src.chance(1, 3) {
                let g = gen_str(c);
                f[at].1 = s(&g);
            }
            let mut ig = vec![];
            if c.src.chance(1, 5) {
                for w in ["x", "name", "u", "dt", "zz", label] {
                    if c.src.chance(1, 2) {
                        ig.push(w);
                    }
                }
            }
            let code = c.src.pick(DIGS).to_string();
            let (j, said) = ref_said(&o, &code, label, &ig, "");
            c.ev(format!("author seals {} {label} {code} {ig:?}", o.text()));
            let (sd, v) = must!(c, "c04/author", "saidify", Saider::saidify(&o.value(), Some(&code), None, Some(label), Some(&ig)));
            let x = Sealed { kind: Kind::Block, bytes: j.text().into_bytes(), j, said, code, label, ignore: ig, ident: "" };
            made(c, &x, &sd, &v)?;
            Ok(x)
        }
    }
}

fn made(c: &mut Ctx, x: &Sealed, sd: &Saider, v: &Value) -> R<()> {
    let text = must!(c, "c04/author", "to json", v.to_json());
    let q = must!(c, "c04/author", "identifier text", sd.qb64());
    ensure!(c, q == x.said, "c04/derivation", "{}: identifier {q} is not that of the serialization, {}", x.brief(), x.said);
    ensure!(c, text.as_bytes() == &x.bytes[..], "c04/derivation", "{}: sealed as {} not {}", x.brief(), show(text.as_bytes()), show(&x.bytes));
    // sealing again changes nothing
    if c.src.chance(1, 4) {
        let (s2, v2) = must!(c, "c04/author", "saidify", Saider::saidify(v, Some(&x.code), None, Some(x.label), Some(&x.ignore)));
        ensure!(c, s2.raw() == sd.raw() && v2.to_json().ok() == Some(text.clone()), "c04/again", "{}: sealed twice gives another", x.brief());
        let s3 = must!(c, "c04/author", "saider of content", Saider::new_with_sad(v, Some(x.label), None, Some(&x.ignore), None));
        ensure!(c, s3.raw() == sd.raw() && s3.code() == x.code, "c04/again", "{}: identifier derived again is another", x.brief());
    }
    Ok(())
}

fn framed(c: &mut Ctx, j: J, code: String, ident: &'static str, ignore: Vec<&'static str>) -> R<Sealed> {
    let (r, said) = ref_said(&j, &code, "d", &ignore, ident);
    let (sd, v) = must!(c, "c04/author", "saidify", Saider::saidify(&j.value(), Some(&code), None, None, Some(&ignore)));
    let x = Sealed { kind: Kind::Framed, bytes: r.text().into_bytes(), j: r, said, code, label: "d", ignore, ident };
    made(c, &x, &sd, &v)?;
    let raw = if ident == "KERI" {
        must!(c, "c04/author", "serialize", Serder::new_with_ked(&v, Some(&x.code), None)).raw()
    } else {
        must!(c, "c04/author", "serialize", Creder::new_with_ked(&v, Some(&x.code), None)).raw()
    };
    ensure!(c, raw == x.bytes, "c04/serialization", "{}: serialized as {} not {}", x.brief(), show(&raw), show(&x.bytes));
    Ok(x)
}

fn incept(c: &mut Ctx, mut j: J, code: String, ident: &'static str) -> R<Sealed> {
    j.set("i", s(""));
    j.set("d", s(""));
    let (r, bytes, said) = refc::seal(j.clone(), ident, &code, &["d", "i"]);
    let p = must!(c, "c04/author", "derive prefix", Prefixer::new_with_ked(&j.value(), None, Some(&code)));
    let pre = must!(c, "c04/author", "prefix text", p.qb64());
    ensure!(c, pre == said, "c04/derivation", "prefix {pre} is not that of the serialization, {said}");
    let mut k = j.clone();
    k.set("i", s(&pre));
    k.set("d", s(&pre));
    let sd = must!(c, "c04/author", "serialize", Serder::new_with_ked(&k.value(), Some(&code), None));
    ensure!(c, sd.raw() == bytes, "c04/serialization", "inception serialized as {} not {}", show(&sd.raw()), show(&bytes));
    Ok(Sealed { kind: Kind::Incept, j: r, bytes, said, code, label: "d", ignore: vec![], ident })
}

fn canonical_numbers(j: &J) -> bool {
    match j {
        J::Num(n) => {
            // what is written this way is read and written again this way
            !n.contains(['e', 'E']) && n.len() <= 16 && (!n.contains('.') || !n.ends_with('0')) && n != "-0" || n.parse::<i64>().map(|i| i.to_string() == *n).unwrap_or(false) || n.parse::<u64>().map(|i| i.to_string() == *n).unwrap_or(false)
        }
        J::Arr(a) => a.iter().all(canonical_numbers),
        J::Obj(o) => o.iter().all(|x| canonical_numbers(&x.1)),
        _ => true,
    }
}

fn without(j: &J, names: &[&str]) -> J {
    let mut j = j.clone();
    if let Some(f) = j.fields_mut() {
        f.retain(|(n, _)| !names.contains(&n.as_str()));
    }
    j
}

/// what a receiver that asked for the identifier concludes about the bytes it got
fn receive(c: &mut Ctx, x: &Sealed, b: &[u8], what: &str) -> R<()> {
    // reference reading: the message at the head
    let size = if x.ident.is_empty() {
        b.len()
    } else {
        match independent_size(b) {
            Some(n) if n <= b.len() => n,
            _ => 0,
        }
    };
    let seen = parse(&b[..size]).map(|j| j.dedup());
    // the library's reading
    let (ked, own, raw): (Option<Value>, Option<(Saider, String)>, Vec<u8>) = c.call("read", || {
        if x.ident.is_empty() {
            match serde_json::from_slice::<serde_json::Value>(b) {
                Ok(v) => (Some(Value::from(&v)), None, vec![]),
                Err(_) => (None, None, vec![]),
            }
        } else if x.ident == "KERI" {
            match Serder::new(Some(&x.code), Some(b), None, None, None) {
                Ok(m) => (Some(m.ked()), m.said().ok().map(|q| (m.saider(), q)), m.raw()),
                Err(_) => (None, None, vec![]),
            }
        } else {
            match Creder::new(Some(&x.code), Some(b), None, None, None) {
                Ok(m) => (Some(m.ked()), m.said().ok().map(|q| (m.saider(), q)), m.raw()),
                Err(_) => (None, None, vec![]),
            }
        }
    })?;
    let same_bytes = b.len() >= x.bytes.len() && b[..x.bytes.len()] == x.bytes[..];
    let unaltered = same_bytes && (!x.ident.is_empty() || b.len() == x.bytes.len());
    let (ked, raw) = match ked {
        Some(ked) => (ked, raw),
        None => {
            ensure!(c, !unaltered, "c04/refused", "{} was not altered but cannot be read ({what})", x.brief());
            c.probe("cannot be read");
            // a receiver that only needs the content
            match serde_json::from_slice::<serde_json::Value>(&b[..size]) {
                Ok(v) if seen.is_some() && v.is_object() && x.kind != Kind::Incept => (Value::from(&v), b[..size].to_vec()),
                _ => return Ok(()),
            }
        }
    };
    let named = must!(c, "c04/refused", "identifier", Saider::new_with_qb64(&x.said));
    // a receiver may name what is the default anyway
    let kind = if c.src.chance(1, 3) { Some("JSON") } else { None };
    let versioned = if c.src.chance(1, 3) { Some(true) } else { None };
    let accepted = match x.kind {
        Kind::Incept => {
            let p = must!(c, "c04/refused", "identifier", Prefixer::new_with_qb64(&x.said));
            lib!(c, "verify", p.verify(&ked, Some(true))).unwrap_or(false) && own.as_ref().map(|o| o.1 == x.said).unwrap_or(false)
        }
        _ => lib!(c, "verify", named.verify(&ked, Some(true), versioned, kind, Some(x.label), Some(&x.ignore))).unwrap_or(false),
    };
    let same = match (&seen, x.kind) {
        (None, _) => false,
        // the size is filled in when a prefix is derived
        (Some(g), Kind::Incept) => without(g, &["v"]).same(&without(&x.j, &["v"])),
        (Some(g), _) => without(g, &x.ignore).same(&without(&x.j, &x.ignore)),
    };
    c.checks += 1;
    if unaltered && !accepted {
        return c.done("c04/refused", format!("{} was not altered but does not verify ({what})", x.brief()));
    }
    if accepted && !same {
        return c.done("c04/undetected", format!("{} verifies as {} though it was sent as {} ({what})", x.brief(), show(b), show(&x.bytes)));
    }
    c.probe(if accepted { if unaltered { "accepted as sent" } else { "accepted though bytes differ" } } else { "alteration detected" });
    // whatever the receiver asks for
    if let (true, Some(g)) = (x.kind != Kind::Incept && (x.ident.is_empty() || size == raw.len()), &seen) {
        let v = g.get("v").map(|v| if let J::Str(t) = v { t.clone() } else { String::new() });
        let head = g.fields().first().is_some_and(|f| f.0 == "v");
        let known = v.as_ref().map(|v| head && v.is_ascii() && v.len() == 17 && ["KERI10JSON", "ACDC10JSON"].contains(&&v[..10]) && v[10..16].bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)) && v.ends_with('_'));
        if canonical_numbers(g) && known != Some(false) && matches!(g, J::Obj(_)) {
            let ident = v.as_ref().map_or("", |v| &v[..4]);
            let (full, want) = ref_said(g, &x.code, x.label, &x.ignore, ident);
            for _ in 0..2 {
                let prefixed = *c.src.pick(&[None, Some(false), Some(true)]);
                let versioned = *c.src.pick(&[None, Some(false), Some(true)]);
                let ok = lib!(c, "verify", named.verify(&ked, prefixed, versioned, kind, Some(x.label), Some(&x.ignore))).unwrap_or(false);
                let right = want == x.said && (versioned == Some(false) || full.get("v") == g.get("v")) && (prefixed != Some(true) || g.str(x.label) == Some(&x.said));
                c.checks += 1;
                if ok != right {
                    return c.done("c04/asked", format!("{} verifies as {}: {ok}, should {right} (prefixed {prefixed:?} versioned {versioned:?}, ignoring {:?}) ({what})", show(b), x.brief(), x.ignore));
                }
                c.probe(if ok { "holds as asked" } else { "does not hold as asked" });
            }
        }
    }
    // and by the identifier it carries itself
    if x.kind == Kind::Framed {
        if let (Some((sd, q)), Some(g)) = (own, seen) {
            let ok = lib!(c, "verify", sd.verify(&ked, Some(true), versioned, kind, None, Some(&x.ignore))).unwrap_or(false);
            if canonical_numbers(&g) && g.get("v").is_some() && size == raw.len() {
                let code = sd.code();
                let (full, want) = ref_said(&g, &code, "d", &x.ignore, x.ident);
                let right = want == q && full.get("v") == g.get("v") && g.str("d") == Some(&want);
                c.checks += 1;
                if ok != right {
                    return c.done("c04/own", format!("{} of {}: by its own identifier {q} verifies {ok}, should {right} (reference {want}) ({what})", show(b), x.brief()));
                }
                if ok && q != x.said {
                    c.probe("resealed by an enemy, another identifier");
                }
            }
        }
    }
    Ok(())
}

/// size in the version string of a message that starts here
pub fn independent_size(b: &[u8]) -> Option<usize> {
    let at = b.windows(8).take(30).position(|w| w == b"KERI10JS" || w == b"ACDC10JS")?;
    let h = std::str::from_utf8(b.get(at + 10..at + 16)?).ok()?;
    if *b.get(at + 16)? != b'_' || h.bytes().any(|x| !(x.is_ascii_digit() || (b'a'..=b'f').contains(&x))) {
        return None;
    }
    usize::from_str_radix(h, 16).ok()
}

/// an enemy's version of the message
fn forge(c: &mut Ctx, x: &Sealed, others: &[Sealed]) -> (Vec<u8>, &'static str) {
    let mut j = x.j.clone();
    match c.src.weighted(&[5, 2, 2, 2, 2, 2, 2, 2, 1]) {
        0 => {
            mangle_json(c, &mut j);
            if x.ident.is_empty() {
            } else if c.src.chance(1, 2) {
                refit(c, &mut j, x.ident);
            } else {
                refc::resize(&mut j, x.ident);
            }
            (j.text().into_bytes(), "content changed")
        }
        1 => {
            // only the identifier
            c.fault("identifier replaced");
            let d = fake_dig(c, if refc::dig_len(&x.code) == 44 { "E" } else { "0D" });
            j.set(x.label, s(&d));
            (j.text().into_bytes(), "identifier replaced")
        }
        2 => {
            // same bits under another algorithm
            c.fault("algorithm replaced");
            let same: Vec<&&str> = DIGS.iter().filter(|k| k.len() == x.code.len() && **k != x.code).collect();
            let k = **c.src.pick(&same);
            j.set(x.label, s(&format!("{k}{}", &x.said[k.len()..])));
            if x.kind == Kind::Incept && c.src.chance(1, 2) {
                let d = j.str("d").unwrap().to_string();
                j.set("i", s(&d));
            }
            (j.text().into_bytes(), "algorithm replaced")
        }
        3 => {
            c.fault("order of fields");
            if let Some(f) = j.fields_mut() {
                if f.len() > 2 {
                    let a = 1 + c.src.us(f.len() - 1);
                    let b = 1 + c.src.us(f.len() - 1);
                    f.swap(a, b);
                }
            }
            (j.text().into_bytes(), "order of fields")
        }
        4 if !others.is_empty() => {
            c.fault("another message");
            let o = c.src.pick(others).clone();
            if c.src.chance(1, 2) {
                return (o.bytes, "another message");
            }
            let mut k = o.j.clone();
            k.set(x.label, s(&x.said));
            if !o.ident.is_empty() {
                refc::resize(&mut k, o.ident);
            }
            (k.text().into_bytes(), "another message under the identifier")
        }
        5 => {
            // the same content in another way of writing
            c.fault("rewritten");
            let mut t = j.text();
            let at = t.char_indices().map(|x| x.0).filter(|i| matches!(t.as_bytes()[*i], b':' | b',' | b'{' | b'}')).collect::<Vec<_>>();
            let i = *c.src.pick(&at);
            t.insert(i + 1, *c.src.pick(&[' ', '\n', '\t']));
            if c.src.chance(1, 2) && !x.ident.is_empty() {
                t = t.replacen(&format!("JSON{:06x}_", x.bytes.len()), &format!("JSON{:06x}_", x.bytes.len() + 1), 1);
            }
            (t.into_bytes(), "rewritten")
        }
        8 => {
            c.fault("identifier taken out");
            if let Some(f) = j.fields_mut() {
                f.retain(|(n, _)| n != x.label);
            }
            if !x.ident.is_empty() {
                // as long as it says, or not
                let t = j.text().len() + if c.src.chance(1, 2) { 0 } else { c.src.us(90) };
                j.set("v", s(&format!("{}10JSON{t:06x}_", x.ident)));
            }
            let mut b = j.text().into_bytes();
            b.resize(b.len() + 100, b' ');
            if x.ident.is_empty() {
                b.truncate(j.text().len());
            }
            (b, "identifier taken out")
        }
        6 => {
            c.fault("version string changed");
            let v = c.src.pick(&["KERI10JSON000000_", "ACDC10JSON000000_", "KERI11JSON000000_", "KERI10CBOR000000_", "", "KERI10JSON0000000"]).to_string();
            if x.ident.is_empty() {
                if c.src.chance(1, 2) {
                    j.set("v", s(&v));
                }
            } else {
                let n = x.bytes.len() + c.src.us(3);
                j.set("v", s(&v.replace("000000", &format!("{n:06x}"))));
            }
            (j.text().into_bytes(), "version string changed")
        }
        _ => {
            c.fault("field added");
            if let Some(f) = j.fields_mut() {
                let at = 1 + c.src.us(f.len());
                let at = at.min(f.len());
                let v = odd(c, 1);
                let n = c.src.pick(&["x", "d", "i", "v", "", "dd", "s", "extra"]).to_string();
                f.insert(at, (n, v));
            }
            if !x.ident.is_empty() {
                refc::resize(&mut j, x.ident);
            }
            (j.text().into_bytes(), "field added")
        }
    }
}

#[derive(Clone)]
enum M {
    Post(usize, Vec<u8>, usize, &'static str),
    Up,
}

fn run(c: &mut Ctx) -> R<()> {
    let n = 1 + c.src.us(4);
    let mut all: Vec<Sealed> = vec![];
    for _ in 0..n {
        c.src.begin();
        let x = author(c)?;
        c.ev(format!("sealed {} {}", x.brief(), show(&x.bytes)));
        all.push(x);
        c.src.end();
    }
    // author 0, relays 1.., receiver last
    let relays = c.src.us(3);
    let f = Faults::swarm(c);
    let enemy = c.src.below(4);
    let last = relays + 1;
    let mut net: Net<M> = Net::new(relays + 2, f);
    let mut store: Vec<Vec<(usize, Vec<u8>, &'static str)>> = vec![vec![]; relays + 2];
    for round in 0..1 + c.src.us(3) {
        for i in 0..n {
            c.src.begin();
            let mut b = all[i].bytes.clone();
            if !all[i].ident.is_empty() && c.src.chance(1, 4) {
                b.extend_from_slice(b"-AABAABC");
            }
            let to = if relays > 0 { 1 } else { last };
            net.send(c, 0, to, M::Post(i, b, round, "as sent"));
            c.src.end();
        }
        c.advance(10 * MS);
    }
    let mut steps = 0;
    while let Some((to, _, m)) = net.next(c) {
        steps += 1;
        if steps > 300 {
            break;
        }
        c.src.begin();
        match m {
            M::Post(i, mut b, round, mut what) => {
                if net.f.corrupt > 0 && c.src.chance(net.f.corrupt, 1000) {
                    b = mangle(c, &b);
                    what = "damaged on the way";
                } else if c.src.chance(enemy, 8) {
                    let (g, w) = forge(c, &all[i], &all);
                    b = g;
                    what = w;
                }
                c.ev(format!("node {to} gets message {i} ({what}): {}", show(&b)));
                if to == last {
                    receive(c, &all[i], &b, what)?;
                    c.state(mix(all[i].kind as u64 ^ ((what.len() as u64) << 8) ^ ((all[i].code.as_bytes()[0] as u64) << 16) ^ ((b.len() as u64) << 24)));
                } else {
                    store[to].push((i, b.clone(), what));
                    net.send(c, to, to + 1, M::Post(i, b, round, what));
                    if net.crashes(c) {
                        net.crash(c, to, M::Up);
                    }
                }
            }
            M::Up => {
                // sends everything again from its disk
                let recs = store[to].clone();
                for (i, b, what) in recs {
                    let (mut b, mut what) = (b, what);
                    match c.src.below(6) {
                        0 => {
                            c.fault("disk returns damaged record");
                            b = mangle(c, &b);
                            what = "damaged on disk";
                        }
                        1 => {
                            c.fault("torn write");
                            let k = c.src.us(b.len() + 1);
                            b.truncate(k);
                            what = "torn on disk";
                        }
                        2 => {
                            c.fault("disk returns another record");
                            let k = c.src.us(store[to].len());
                            b = store[to][k].1.clone();
                            what = "another record";
                        }
                        _ => {}
                    }
                    net.send(c, to, to + 1, M::Post(i, b, 9, what));
                }
            }
        }
        c.src.end();
    }
    // once faults stop, everything is delivered as sent
    for x in &all {
        receive(c, x, &x.bytes, "after faults")?;
    }
    Ok(())
}

/// fractions of 17 digits are read one unit off (serde_json without float_roundtrip)
pub fn long_fraction(_c: &mut Ctx) -> Option<String> {
    let j = obj(vec![("d", s("")), ("x", J::Num("423.20917087271323".into()))]);
    let (sd, v) = Saider::saidify(&j.value(), None, None, None, None).ok()?;
    let text = v.to_json().ok()?;
    let got = Value::from(&serde_json::from_str::<serde_json::Value>(&text).ok()?);
    if sd.verify(&got, Some(true), None, None, None, None).unwrap_or(false) {
        None
    } else {
        Some(format!("{text} does not verify at its receiver, who reads it as {}", got.to_json().unwrap_or_default()))
    }
}

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    quick_runs: 30_000,
    quick_secs: 25,
    thorough_secs: 420,
    rule: "one run is one to four sealed messages of any content, algorithm and identifier field sent several times through storing relays that damage, forge, reorder and replace them, verified with any options; distinct: different event log",
    real: &["Saider (saidify, derivation, verify), Serder, Creder, Prefixer derivation and verification"],
    stub: &["network, relays, disks, enemy"],
    assumptions: &[
        "digest functions are collision resistant; the reference digests come from the same published crates called directly",
        "content that is equal as JSON values (escapes, number notation, repeated field names where the last counts) is not an alteration",
        "a receiver of a self-addressing inception checks prefix and said, as the two fields are blanked together",
    ],
    findings: &[("fraction-of-17-digits", long_fraction)],
    reach: &["accepted as sent", "holds as asked", "does not hold as asked", "alteration detected", "cannot be read", "resealed by an enemy, another identifier"],
};
