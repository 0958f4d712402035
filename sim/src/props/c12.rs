//! Streams of serialized messages: authors frame content, relays store and serialize it again,
//! receivers split the stream, enemies change version strings.

use crate::ctx::*;
use crate::items::DIGS;
use crate::json::*;
use crate::msgs::*;
use crate::mutate::*;
use crate::net::*;
use crate::props::c04::long_fraction;
use crate::refc;
use crate::runner::Prop;
use crate::src::mix;
use std::collections::HashMap;
use keride::cesr::common::{deversify, sizeify, sniff, versify, Version};
use keride::cesr::{Creder, Diger, Matter, Sadder, Serder, Verfer};
use keride::data::Value;

/// reference reading of the version string of the message at the head
#[derive(Clone, Debug, PartialEq)]
struct Vs {
    at: usize,
    ident: String,
    version: (u8, u8),
    kind: String,
    size: usize,
}

fn vs_at(b: &[u8], at: usize) -> Option<Vs> {
    let w = b.get(at..at + 17)?;
    let up = |x: &[u8]| x.iter().all(|c| c.is_ascii_uppercase());
    let hx = |x: &[u8]| x.iter().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(c));
    if !(up(&w[..4]) && hx(&w[4..6]) && up(&w[6..10]) && hx(&w[10..16]) && w[16] == b'_') {
        return None;
    }
    let t = |x: &[u8]| String::from_utf8(x.to_vec()).unwrap();
    let d = |x: u8| if x.is_ascii_digit() { x - b'0' } else { x - b'a' + 10 };
    Some(Vs { at, ident: t(&w[..4]), version: (d(w[4]), d(w[5])), kind: t(&w[6..10]), size: usize::from_str_radix(&t(&w[10..16]), 16).unwrap() })
}

fn read_vs(b: &[u8]) -> Option<Vs> {
    if b.len() < 29 {
        return None;
    }
    (0..b.len().min(12 + 17 + 1)).find_map(|i| vs_at(b, i)).filter(|v| v.at <= 12)
}

/// what an author's library object tells about itself
struct Seen {
    raw: Vec<u8>,
    ked: Value,
    ident: String,
    kind: String,
    size: u32,
    version: Version,
    said: Result<String, String>,
    code: String,
}

fn seen<S: Sadder>(s: &S) -> Seen {
    Seen {
        raw: s.raw(),
        ked: s.ked(),
        ident: s.ident(),
        kind: s.kind(),
        size: s.size(),
        version: s.version(),
        said: es(s.said()),
        code: s.code(),
    }
}

enum In<'a> {
    Raw(&'a [u8]),
    Ked(&'a Value, Option<&'a str>),
}

fn open(ident: &str, code: Option<&str>, x: In) -> Result<(Seen, Option<Serder>, Option<Creder>), String> {
    let (raw, ked, kind) = match x {
        In::Raw(b) => (Some(b), None, None),
        In::Ked(k, kind) => (None, Some(k), kind),
    };
    if ident == "KERI" {
        let s = match (raw, code) {
            (Some(b), None) => Serder::new_with_raw(b),
            (Some(_), _) => Serder::new(code, raw, kind, None, None),
            _ => Serder::new_with_ked(ked.unwrap(), code, kind),
        };
        let s = es(s)?;
        Ok((seen(&s), Some(s), None))
    } else {
        let s = match (raw, code) {
            (Some(b), None) => Creder::new_with_raw(b),
            (Some(_), _) => Creder::new(code, raw, kind, None, None),
            _ => Creder::new_with_ked(ked.unwrap(), code, kind),
        };
        let s = es(s)?;
        Ok((seen(&s), None, Some(s)))
    }
}

/// content of an application of its own: any fields after v, with a d somewhere
fn free(c: &mut Ctx) -> (J, &'static str, String, bool) {
    let ident = *c.src.pick(&["KERI", "ACDC"]);
    let n = c.src.small(8) as usize;
    let code = c.src.pick(DIGS).to_string();
    let mut f: Vec<(String, J)> = vec![];
    // now and then v is not the first field
    let late = c.src.chance(1, 8);
    if late {
        let n = c.src.usr(1, 6);
        let k = crate::items::gen_b64(c, n).to_lowercase();
        let k = if k == "v" || k == "d" { "w".to_string() } else { k };
        let v = c.src.pick(&[J::Null, s(""), J::Num("7".into()), J::Bool(true), strs::<&str>(&[])]).clone();
        f.push((k, v));
    }
    f.push(("v".into(), s("")));
    let mut o = gen_obj(c, n, 3, &["v", "d"]);
    o.fields_mut().unwrap().retain(|x| !f.iter().any(|y| y.0 == x.0));
    f.append(o.fields_mut().unwrap());
    let lo = if late { 2 } else { 1 };
    let at = lo + c.src.us(f.len() - lo + 1);
    let d = fake_dig(c, &code);
    f.insert(at, ("d".into(), J::Str(d)));
    let mut j = J::Obj(f);
    refc::resize(&mut j, ident);
    (j, ident, code, late)
}

#[derive(Clone)]
struct Made {
    j: J,
    bytes: Vec<u8>,
    ident: &'static str,
    code: String,
}

fn author(c: &mut Ctx) -> R<Option<Made>> {
    let (j, ident, code) = match c.src.weighted(&[6, 4, 1, 1]) {
        0 => {
            let m = gen_msg(c);
            (m.j, m.ident, m.code)
        }
        2 => {
            // a receipt made by the library
            let pre = match c.src.below(3) {
                0 => fake_dig(c, "E"),
                1 => Key::gen(c, true).text(),
                _ => gen_str(c),
            };
            let sn = match c.src.below(3) {
                0 => c.src.small(300) as u128,
                1 => c.src.u64() as u128,
                _ => ((c.src.u64() as u128) << 64) | c.src.u64() as u128,
            };
            let said = fake_dig(c, "E");
            let mut j = obj(vec![("v", s("")), ("t", s("rct")), ("d", s(&said)), ("i", s(&pre)), ("s", s(&format!("{sn:x}")))]);
            refc::resize(&mut j, "KERI");
            c.ev(format!("receipt {pre} {sn} {said}"));
            if c.src.chance(1, 6) {
                let v = Version { major: 1 + c.src.below(2) as u8, minor: c.src.below(3) as u8 };
                let kind = *c.src.pick(&["JSON", "CBOR", "MGPK", "json", ""]);
                let r = lib!(c, "receipt", es(keride::receipting::sim_receipt(&pre, sn, &said, Some(&v), Some(kind))));
                ensure!(c, r.is_ok() == (v.major == 1 && v.minor == 0 && kind == "JSON"), "c12/unsupported", "receipt of version {v:?} kind {kind}: {:?}", r.map(|x| show(&x.raw())));
            }
            let r = must!(c, "c12/author", "receipt", keride::receipting::sim_receipt(&pre, sn, &said, None, None));
            ensure!(c, r.raw() == j.text().as_bytes(), "c12/serialization", "receipt is {} not {}", show(&r.raw()), j.text());
            ensure!(c, r.sn().ok() == Some(sn) && r.pre().ok() == Some(pre.clone()), "c12/content", "receipt reads {:?} {:?}", es(r.sn()), es(r.pre()));
            c.probe("receipt");
            (j, "KERI", "E".to_string())
        }
        3 => {
            // a large one
            let mut f = vec![("v", s("")), ("d", J::Str(fake_dig(c, "E")))];
            let w = gen_str(c);
            let n = *c.src.pick(&[100usize, 3000, 60_000, 400_000]);
            let n = if w.is_empty() { 0 } else { n / w.len() };
            f.push(("x", J::Str(w.repeat(n))));
            let mut j = obj(f);
            refc::resize(&mut j, "ACDC");
            c.probe("large");
            (j, "ACDC", "E".to_string())
        }
        _ => {
            let (j, ident, code, late) = free(c);
            if late {
                c.probe("version not first");
                let bytes = j.text().into_bytes();
                let at = bytes.windows(17).position(|w| w.starts_with(ident.as_bytes()) && w[16] == b'_').unwrap_or(99);
                let r = c.call("serialize", || open(ident, Some(&code), In::Ked(&j.value(), None)).map(|x| x.0.raw))?;
                ensure!(c, r.is_ok() == (at <= 12), "c12/late", "{}: version at {at} gives {:?}", show(&bytes), r.map(|x| show(&x)));
                if at > 12 {
                    return Ok(None);
                }
            }
            (j, ident, code)
        }
    };
    let bytes = j.text().into_bytes();
    // the author has a placeholder or an old size in the version string
    let mut k = j.clone();
    let old = match c.src.below(4) {
        0 => 0,
        1 => bytes.len() as u64,
        2 => c.src.below(0x1000000),
        _ => 0xfb,
    };
    k.set("v", s(&format!("{ident}10JSON{old:06x}_")));
    let kind = if c.src.chance(1, 3) { Some("JSON") } else { None };
    let v = k.value();
    let cd = if code == "E" && c.src.chance(1, 2) { None } else { Some(code.as_str()) };
    let (a, sd, cr) = must!(c, "c12/author", "serialize", open(ident, cd, In::Ked(&v, kind)));
    ensure!(c, a.raw == bytes, "c12/serialization", "{} is serialized as {}, canonical is {}", k.text(), show(&a.raw), show(&bytes));
    about(c, &a, &j, &bytes, ident, &code)?;
    parts(c, &j, sd.as_ref(), cr.as_ref())?;
    if c.src.chance(1, 3) {
        // content put into an object that had another one
        let m2 = gen_msg(c);
        let n = sd.is_some();
        let r = c.call("serialize in place", || -> Result<Seen, String> {
            let mut k2 = k.clone();
            k2.set("v", s(&format!("{ident}10JSON000000_")));
            if n {
                let mut x = if m2.ident == "KERI" { es(Serder::new_with_raw(&m2.bytes)).unwrap_or_default() } else { Serder::default() };
                x.set_code(&code);
                x.set_ked(&k2.value());
                es(x.populate_from_kind_and_self("JSON"))?;
                Ok(seen(&x))
            } else {
                let mut x = if m2.ident == "ACDC" { es(Creder::new_with_raw(&m2.bytes)).unwrap_or_default() } else { Creder::default() };
                x.set_code(&code);
                x.set_ked(&k2.value());
                es(x.populate_from_kind_and_self("JSON"))?;
                Ok(seen(&x))
            }
        })?;
        match r {
            Err(e) => fail!(c, "c12/author", "{} is not serialized in place: {e}", k.text()),
            Ok(a) => {
                ensure!(c, a.raw == bytes, "c12/serialization", "{} is serialized in place as {}", k.text(), show(&a.raw));
                about(c, &a, &j, &bytes, ident, &code)?;
            }
        }
        c.probe("serialized in place");
    }
    let before = v.to_json().unwrap_or_default();
    ensure!(c, before == k.text(), "c12/argument", "content given was changed to {before}");
    if c.src.chance(1, 6) {
        // serializations and protocols nobody supports, and missing version
        let mut z = k.clone();
        let w = c.src.below(7);
        match w {
            0 => z.set("v", s(&format!("{ident}10{}{old:06x}_", c.src.pick(&["CBOR", "MGPK", "JSOM", "CESR"])))),
            1 => z.set("v", s(&format!("{ident}{}JSON{old:06x}_", c.src.pick(&["00", "11", "20", "01", "1a", "f0"])))),
            2 => z.set("v", s(&format!("{}10JSON{old:06x}_", c.src.pick(&["KERJ", "XXXX", "CRED", "ACDK"])))),
            3 => z.fields_mut().unwrap().retain(|x| x.0 != "v"),
            4 => z.set("v", s(*c.src.pick(&["", "KERI10JSON000000", "KERI10JSON00000_", "keri10json000000_", "KERI10JSON00000g_", "KERI10JSON00000A_", "xKERI10JSON000000_", "KERI10JSON000000_x", "KERI10JSON000000__", "KERI10JSON000000_KERI10JSON000000_"]))),
            5 => z.set("v", J::Num("1".into())),
            _ => z.set("v", J::Null),
        }
        let r = c.call("serialize", || open(ident, Some(&code), In::Ked(&z.value(), None)).map(|x| x.0.raw))?;
        ensure!(c, r.is_err(), "c12/unsupported", "{} is serialized as {:?}", z.text(), r.map(|x| show(&x)));
        let r = lib!(c, "sizeify", es(sizeify(&z.value(), None)));
        let ok = w == 2 && false;
        ensure!(c, r.is_ok() == ok, "c12/unsupported", "{} is sized as {:?}", z.text(), r.map(|x| show(&x.raw)));
        let bad = *c.src.pick(&["CBOR", "MGPK", "json", ""]);
        let r = c.call("serialize", || open(ident, Some(&code), In::Ked(&v, Some(bad))).map(|x| x.0.raw))?;
        ensure!(c, r.is_err(), "c12/unsupported", "serialized to kind {bad}");
        let other = if ident == "KERI" { "ACDC" } else { "KERI" };
        let r = c.call("serialize", || open(other, Some(&code), In::Ked(&v, None)).map(|x| x.0.raw))?;
        ensure!(c, r.is_err(), "c12/unsupported", "{ident} content is taken for {other}");
        c.probe("unsupported refused");
    }
    Ok(Some(Made { j, bytes, ident, code }))
}

fn about(c: &mut Ctx, a: &Seen, j: &J, bytes: &[u8], ident: &str, code: &str) -> R<()> {
    let k = must!(c, "c12/content", "to json", a.ked.to_json());
    ensure!(c, k.as_bytes() == bytes, "c12/content", "content reads {k}, should {}", show(bytes));
    ensure!(c, a.size as usize == bytes.len(), "c12/size", "size {} of {} bytes", a.size, bytes.len());
    ensure!(c, a.ident == ident && a.kind == "JSON" && a.version == Version { major: 1, minor: 0 } && a.code == code,
        "c12/content", "{} {} {:?} {} of {}", a.ident, a.kind, a.version, a.code, show(bytes));
    ensure!(c, a.said.as_deref().ok() == j.str("d"), "c12/content", "said {:?} of {}", a.said, show(bytes));
    Ok(())
}

fn texts<T, F: Fn(&T) -> keride::error::Result<String>>(r: keride::error::Result<Vec<T>>, f: F) -> Result<Vec<String>, String> {
    let v = es(r)?;
    v.iter().map(|x| es(f(x))).collect()
}

/// the accessors of an object against its content
fn parts(c: &mut Ctx, j: &J, sd: Option<&Serder>, cr: Option<&Creder>) -> R<()> {
    if let Some(m) = sd {
        let t = j.str("t").unwrap_or("-").to_string();
        let event = ["icp", "dip", "rot", "drt", "ixn", "rct"].contains(&t.as_str()) && j.str("i").is_some();
        if !event {
            return Ok(());
        }
        let r = lib!(c, "pre", es(m.pre()));
        ensure!(c, r.as_deref().ok() == j.str("i"), "c12/accessor", "pre {r:?} of {}", j.text());
        let r = lib!(c, "est", es(m.est()));
        ensure!(c, r == Ok(["icp", "dip", "rot", "drt"].contains(&t.as_str())), "c12/accessor", "est {r:?} of {t}");
        let r = lib!(c, "sn", es(m.sn()));
        ensure!(c, r.ok() == j.str("s").and_then(|x| u128::from_str_radix(x, 16).ok()), "c12/accessor", "sn of {}", j.text());
        let r = lib!(c, "verfers", texts(m.verfers(), |x: &Verfer| x.qb64()));
        ensure!(c, r == Ok(j.list("k").unwrap_or_default()), "c12/accessor", "verfers {r:?} of {}", j.text());
        let r = lib!(c, "digers", texts(m.digers(), |x: &Diger| x.qb64()));
        ensure!(c, r == Ok(j.list("n").unwrap_or_default()), "c12/accessor", "digers {r:?} of {}", j.text());
        let r = lib!(c, "werfers", texts(m.werfers(), |x: &Verfer| x.qb64()));
        ensure!(c, r == Ok(j.list("b").unwrap_or_default()), "c12/accessor", "werfers {r:?} of {}", j.text());
        for (l, r) in [("kt", lib!(c, "tholder", es(m.tholder()))), ("nt", lib!(c, "ntholder", es(m.ntholder())))] {
            let got = match r {
                Ok(None) => None,
                Ok(Some(t)) => Some(lib!(c, "sith", t.sith().and_then(|x| x.to_json())).unwrap_or_default()),
                Err(e) => Some(e.to_string()),
            };
            ensure!(c, got == j.get(l).map(|x| x.text()), "c12/accessor", "{l} {got:?} of {}", j.text());
        }
        c.probe("event accessors");
        // a peer that leaves a field out has left it out
        if c.src.chance(1, 6) {
            let l = *c.src.pick(&["k", "n", "b", "kt", "nt", "s", "nt", "n"]);
            let mut z = j.clone();
            z.fields_mut().unwrap().retain(|x| x.0 != l);
            let (z, bytes, _) = crate::refc::seal(z, "KERI", "E", &["d"]);
            let r = lib!(c, "read without a field", es(Serder::new_with_raw(&bytes)));
            if let Ok(x) = r {
                c.probe("a field left out");
                return parts(c, &z, Some(&x), None);
            }
        }
    }
    if let Some(m) = cr {
        if j.str("i").is_none() || j.str("s").is_none() || j.get("a").is_none() {
            return Ok(());
        }
        let js = |v: Value| v.to_json().unwrap_or_default();
        let got = c.call("credential", || (es(m.issuer()), es(m.schema()), js(m.subject()), es(m.status()), m.chains().map(js).unwrap_or_default(), js(m.crd())))?;
        let want = (
            Ok(j.str("i").unwrap().to_string()),
            Ok(j.str("s").unwrap().to_string()),
            j.get("a").unwrap().text(),
            Ok(j.str("ri").map(|x| x.to_string())),
            j.get("e").map(|x| x.text()).unwrap_or("{}".into()),
            j.text(),
        );
        if j.get("ri").is_none() || j.str("ri").is_some() {
            ensure!(c, got == want, "c12/accessor", "{got:?} of {}", j.text());
            c.probe("credential accessors");
        }
    }
    Ok(())
}

fn long_number(b: &[u8]) -> bool {
    // more digits than every implementation reads alike
    let mut n = 0;
    for x in b {
        if x.is_ascii_digit() || matches!(x, b'.' | b'e' | b'E' | b'-' | b'+') {
            n += 1;
            if n > 16 {
                return true;
            }
        } else {
            n = 0;
        }
    }
    false
}

/// a receiver with these bytes at the head of its buffer
fn receive(c: &mut Ctx, b: &[u8], sent: Option<&Made>, what: &str) -> R<()> {
    let rv = read_vs(b);
    let sn = lib!(c, "sniff", es(sniff(b)));
    let good = rv.as_ref().map(|v| v.kind == "JSON").unwrap_or(false);
    ensure!(c, sn.is_ok() == good, "c12/sniff", "{} ({what}): sniff {sn:?}, reference {rv:?}", show(b));
    if let (Ok(x), Some(v)) = (&sn, &rv) {
        ensure!(c, x.ident == v.ident && x.kind == v.kind && x.size as usize == v.size && (x.version.major, x.version.minor) == v.version,
            "c12/sniff", "{} ({what}): sniff {x:?}, reference {v:?}", show(b));
    }
    for ident in ["KERI", "ACDC"] {
        // the code an honest receiver uses is that of the said
        let size = rv.as_ref().map(|v| v.size).unwrap_or(0);
        let head = b.get(..size).and_then(crate::json::parse).map(|j| j.dedup());
        let code = head.as_ref().and_then(|j| j.str("d")).and_then(|d| DIGS.iter().find(|k| d.starts_with(**k) && d.len() == refc::dig_len(k))).copied();
        let code = if let Some(m) = sent { Some(m.code.as_str()) } else { code };
        let cd = match code {
            Some("E") if c.src.chance(1, 2) => None,
            x => x,
        };
        let r = c.call("read", || open(ident, cd, In::Raw(b)))?;
        let may = rv.as_ref().map(|v| v.kind == "JSON" && v.version == (1, 0) && v.ident == ident && v.size <= b.len()).unwrap_or(false) && head.is_some();
        if let Some(m) = sent {
            ensure!(c, r.is_ok() == (m.ident == ident), "c12/refused", "{} as {ident} ({what}): {:?}", show(b), r.map(|x| x.0.size));
        }
        let (a, sd, cr) = match r {
            Err(_) => continue,
            Ok(x) => x,
        };
        ensure!(c, may, "c12/unsupported", "{} is read as {ident} ({what}), reference {rv:?}", show(b));
        ensure!(c, a.raw == b[..size], "c12/frame", "{} ({what}): message is {}", show(b), show(&a.raw));
        ensure!(c, a.size as usize == size && a.kind == "JSON" && a.ident == ident, "c12/frame", "{} ({what}): {} {} {}", show(b), a.size, a.kind, a.ident);
        let text = must!(c, "c12/content", "to json", a.ked.to_json());
        let want = head.unwrap();
        if !long_number(&b[..size]) {
            let got = crate::json::parse(text.as_bytes());
            ensure!(c, got.map(|g| g.same(&want)).unwrap_or(false), "c12/content", "{} ({what}) is read as {text}", show(&b[..size]));
        }
        if let Some(m) = sent {
            about(c, &a, &m.j, &m.bytes, ident, &m.code)?;
            // a storing receiver serializes it again
            let (a2, _, _) = must!(c, "c12/refused", "serialize again", open(ident, Some(&m.code), In::Ked(&a.ked, None)));
            ensure!(c, a2.raw == m.bytes, "c12/again", "serialized again as {} not {}", show(&a2.raw), show(&m.bytes));
            parts(c, &m.j, sd.as_ref(), cr.as_ref())?;
            // a copy of the object is the same
            if let Some(x) = &sd {
                let y = must!(c, "c12/refused", "copy", Serder::new(Some(&m.code), None, None, None, Some(x)));
                ensure!(c, y == *x && y.raw() == m.bytes && x.clone() == *x, "c12/copy", "copy differs");
            }
            if let Some(x) = &cr {
                let y = must!(c, "c12/refused", "copy", Creder::new(Some(&m.code), None, None, None, Some(x)));
                ensure!(c, y == *x && y.raw() == m.bytes && x.clone() == *x, "c12/copy", "copy differs");
            }
            c.probe("message recovered");
        } else {
            c.probe("altered message read");
        }
    }
    Ok(())
}

fn version_strings(c: &mut Ctx) -> R<()> {
    let ident = *c.src.pick(&["KERI", "ACDC", "KERI", "ACDC", "XERI", "keri", "", "KERIX"]);
    let kind = *c.src.pick(&["JSON", "JSON", "JSON", "CBOR", "MGPK", "json", ""]);
    let pickn = |c: &mut Ctx| *c.src.pick(&[0u8, 1, 2, 9, 10, 15, 16, 31, 255]);
    let v = if c.src.chance(1, 2) { Version { major: 1, minor: 0 } } else { Version { major: pickn(c), minor: pickn(c) } };
    let size = match c.src.below(4) {
        0 => c.src.small(5000) as u32,
        1 => c.src.below(0x1000000) as u32,
        2 => *c.src.pick(&[0xffffffu32, 0x1000000, 0xfffffff, u32::MAX, 0xffff, 0x10000]),
        _ => c.src.below(1 << 32) as u32,
    };
    let def = c.src.chance(1, 5);
    let r = lib!(c, "versify", es(if def { versify(None, None, None, Some(size)) } else { versify(Some(ident), Some(&v), Some(kind), Some(size)) }));
    let (ident, kind, v) = if def { ("KERI", "JSON", Version { major: 1, minor: 0 }) } else { (ident, kind, v) };
    let fits = ["KERI", "ACDC"].contains(&ident) && kind == "JSON" && v.major < 16 && v.minor < 16 && size < 0x1000000;
    ensure!(c, r.is_ok() == fits, "c12/versify", "{ident} {v:?} {kind} {size} gives {r:?}");
    if let Ok(t) = r {
        let want = format!("{ident}{:x}{:x}{kind}{size:06x}_", v.major, v.minor);
        ensure!(c, t == want, "c12/versify", "{t} should be {want}");
        let d = must!(c, "c12/versify", "deversify", deversify(&t));
        ensure!(c, d.ident == ident && d.kind == kind && d.version == v && d.size == size, "c12/versify", "{t} reads {d:?}");
        c.probe("version string");
        // damaged
        let b = mangle(c, t.as_bytes());
        if let Ok(t2) = String::from_utf8(b) {
            let r = lib!(c, "deversify", es(deversify(&t2)));
            let w = vs_at(t2.as_bytes(), 0).filter(|x| t2.len() == 17 && x.kind == "JSON" && ["KERI", "ACDC"].contains(&x.ident.as_str()));
            match (&r, &w) {
                (Ok(d), Some(x)) => ensure!(c, d.ident == x.ident && d.size as usize == x.size && (d.version.major, d.version.minor) == x.version, "c12/versify", "{t2} reads {d:?}"),
                (Err(_), None) => {}
                _ => fail!(c, "c12/versify", "{t2} reads {r:?}, should {w:?}"),
            }
        }
    }
    Ok(())
}

fn altered(c: &mut Ctx, m: &Made) -> (Vec<u8>, &'static str) {
    let t = String::from_utf8(m.bytes.clone()).unwrap();
    let vs = format!("{}10JSON{:06x}_", m.ident, m.bytes.len());
    let n = m.bytes.len();
    match c.src.weighted(&[3, 2, 2, 2, 2, 2, 1, 2]) {
        0 => {
            // sizes that are not the length
            let k = match c.src.below(5) {
                0 => n as u64 + 1 + c.src.small(20),
                1 => (n as u64).saturating_sub(1 + c.src.small(20)),
                2 => 0,
                3 => 0xffffff,
                _ => c.src.below(2 * n as u64),
            };
            c.fault("wrong size");
            (t.replacen(&vs, &format!("{}10JSON{k:06x}_", m.ident), 1).into_bytes(), "wrong size")
        }
        1 => {
            c.fault("other version");
            let v = *c.src.pick(&["00", "11", "20", "01", "1f", "f0", "ff"]);
            (t.replacen(&vs, &format!("{}{v}JSON{n:06x}_", m.ident), 1).into_bytes(), "other version")
        }
        2 => {
            c.fault("other serialization");
            let v = *c.src.pick(&["CBOR", "MGPK", "CESR", "JSOM", "NOSJ"]);
            (t.replacen(&vs, &format!("{}10{v}{n:06x}_", m.ident), 1).into_bytes(), "other serialization")
        }
        3 => {
            c.fault("other protocol");
            let v = *c.src.pick(&["KERI", "ACDC", "CRED", "IREK", "XXXX"]);
            (t.replacen(&vs, &format!("{v}10JSON{n:06x}_"), 1).into_bytes(), "other protocol")
        }
        4 => {
            // version string moved or preceded by something
            c.fault("version string moved");
            let mut j = m.j.clone();
            let f = j.fields_mut().unwrap();
            let k = c.src.pick(&["a", "ab", "abc", "abcd", "abcdefg", "abcdefghijkl"]).to_string();
            let x = c.src.pick(&[J::Null, s(""), J::Num("1".into()), s("KERI10JSON000000_"), s("KERI10JSON0000ff_")]).clone();
            f.retain(|y| y.0 != k);
            f.insert(0, (k, x));
            let len = j.text().len();
            j.set("v", s(&format!("{}10JSON{len:06x}_", m.ident)));
            (j.text().into_bytes(), "version string moved")
        }
        5 => {
            c.fault("bytes before");
            let mut b = c.src.pick(&[" ", "\n\n", "{", "-AAB", "    ", "           ", "\u{feff}"]).as_bytes().to_vec();
            b.extend_from_slice(&m.bytes);
            (b, "bytes before")
        }
        6 => {
            c.fault("digits written otherwise");
            let up = vs.replace(&format!("{n:06x}_"), &format!("{n:06X}_"));
            (t.replacen(&vs, &up, 1).into_bytes(), "digits written otherwise")
        }
        _ => (mangle(c, &m.bytes), "damaged"),
    }
}

#[derive(Clone)]
enum M {
    Frame(Vec<usize>),
    Bad(usize),
    Up,
}

fn attachment(c: &mut Ctx) -> Vec<u8> {
    match c.src.weighted(&[3, 3, 2, 1]) {
        0 => vec![],
        1 => {
            let n = 4 * c.src.small(60) as usize;
            let mut v = b"-AAB".to_vec();
            v.extend(crate::items::gen_b64(c, n).into_bytes());
            v
        }
        2 => {
            let n = c.src.small(120) as usize;
            c.src.blob(n)
        }
        _ => b"{\"v\":\"KERI10JSON0000ff_\",\"t\"".to_vec(),
    }
}

/// what a value can be taken for, and nothing else
fn leaf(c: &mut Ctx, v: &Value, j: &J) -> R<()> {
    use std::convert::TryFrom;
    let int = match j {
        J::Num(t) => t.parse::<i128>().ok(),
        _ => None,
    };
    let num = match j {
        J::Num(t) => t.parse::<f64>().ok(),
        _ => None,
    };
    let i64s = (es(v.to_i64()).ok(), es(i64::try_from(v)).ok());
    let f64s = (es(v.to_f64()).ok(), es(f64::try_from(v)).ok());
    let strs = (es(v.to_string()).ok(), es(String::try_from(v)).ok());
    let bools = (es(v.to_bool()).ok(), es(bool::try_from(v)).ok());
    let vecs = (es(v.to_vec()).ok(), es(Vec::<Value>::try_from(v)).ok());
    let maps = es(v.to_map()).ok();
    c.checks += 1;
    match int {
        Some(i) => {
            let want = i64::try_from(i).ok();
            ensure!(c, i64s == (want, want), "c12/value", "the number {i} is taken for {i64s:?}");
            ensure!(c, f64s == (None, num), "c12/value", "the number {i} is taken for {f64s:?}");
        }
        None => {
            ensure!(c, i64s.0.is_none() && (num.is_some() || i64s.1.is_none()), "c12/value", "{} is taken for the number {i64s:?}", j.text());
            ensure!(c, f64s == (num, num), "c12/value", "{} is taken for the number {f64s:?}", j.text());
        }
    }
    let st = if let J::Str(t) = j { Some(t.clone()) } else { None };
    ensure!(c, strs == (st.clone(), st), "c12/value", "{} is taken for the text {strs:?}", j.text());
    let b = if let J::Bool(b) = j { Some(*b) } else { None };
    ensure!(c, bools == (b, b), "c12/value", "{} is taken for {bools:?}", j.text());
    let n = if let J::Arr(a) = j { Some(a.len()) } else { None };
    ensure!(c, (vecs.0.as_ref().map(|x| x.len()), vecs.1.as_ref().map(|x| x.len())) == (n, n), "c12/value", "{} is taken for a list", j.text());
    let n = if let J::Obj(o) = j { Some(o.iter().map(|x| x.0.clone()).collect::<Vec<_>>()) } else { None };
    let m = maps.map(|m| m.keys().cloned().collect::<Vec<_>>());
    ensure!(c, m == n, "c12/value", "{} is taken for a map of {m:?}", j.text());
    Ok(())
}

fn walk(c: &mut Ctx, v: &Value, j: &J) -> R<()> {
    leaf(c, v, j)?;
    match j {
        J::Arr(a) => {
            for (i, x) in a.iter().enumerate() {
                walk(c, &v[i], x)?;
            }
        }
        J::Obj(o) => {
            for (i, (k, x)) in o.iter().enumerate() {
                let y = if c.src.chance(1, 4) { &v[i] } else { &v[k.as_str()] };
                walk(c, y, x)?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// an application edits content in place, stores it now and then, and goes on from what is stored
fn edit(c: &mut Ctx) -> R<()> {
    let n = c.src.small(5) as usize;
    let mut j = gen_obj(c, n, 2, &[]);
    let mut v = j.value();
    let mut disk = (j.clone(), j.text());
    let other = v.clone();
    let (oj, steps) = (j.clone(), 1 + c.src.small(12));
    for _ in 0..steps {
        c.src.begin();
        // a place: existing fields and elements, or a field not there yet
        enum At {
            K(String),
            I(usize),
        }
        let mut path = vec![];
        {
            let mut at = &j;
            loop {
                match at {
                    J::Obj(o) => {
                        if o.is_empty() || c.src.chance(1, 3) {
                            path.push(At::K(format!("new {}", c.src.below(4))));
                            match o.iter().position(|x| matches!(path.last(), Some(At::K(k)) if *k == x.0)) {
                                Some(i) => at = &o[i].1,
                                None => break,
                            }
                        } else {
                            let i = c.src.us(o.len());
                            path.push(if c.src.chance(1, 6) { At::I(i) } else { At::K(o[i].0.clone()) });
                            at = &o[i].1;
                        }
                    }
                    J::Arr(a) if !a.is_empty() => {
                        let i = c.src.us(a.len());
                        path.push(At::I(i));
                        at = &a[i];
                    }
                    _ => break,
                }
                if c.src.chance(1, 3) {
                    break;
                }
            }
        }
        let new = gen_json(c, 2);
        let nv = new.value();
        let (new, nv) = match new {
            J::Bool(_) if c.src.chance(1, 2) => {
                let n = c.src.u64() >> c.src.below(64);
                match c.src.below(9) {
                    0 => (J::Num((n as i8).to_string()), Value::from(n as i8)),
                    1 => (J::Num((n as i16).to_string()), Value::from(n as i16)),
                    2 => (J::Num((n as i32).to_string()), Value::from(n as i32)),
                    3 => (J::Num((n as i64).to_string()), Value::from(n as i64)),
                    4 => (J::Num((n as u8).to_string()), Value::from(n as u8)),
                    5 => (J::Num((n as u16).to_string()), Value::from(n as u16)),
                    6 => (J::Num((n as u32).to_string()), Value::from(n as u32)),
                    7 => (J::Num(format!("{}.5", n as u16)), Value::from(n as u16 as f32 + 0.5)),
                    _ => (J::Num(format!("{}.25", n as u32)), Value::from(n as u32 as f64 + 0.25)),
                }
            }
            n => (n, nv),
        };
        let mut jj = &mut j;
        for p in &path {
            jj = match (jj, p) {
                (J::Obj(o), At::K(k)) => {
                    let i = o.iter().position(|x| x.0 == *k).unwrap_or(o.len());
                    if i == o.len() {
                        o.push((k.clone(), J::Null));
                    }
                    &mut o[i].1
                }
                (J::Obj(o), At::I(i)) => &mut o[*i].1,
                (J::Arr(a), At::I(i)) => &mut a[*i],
                (x, _) => x,
            };
        }
        *jj = new;
        lib!(c, "edit", {
            let mut vv = &mut v;
            for p in &path {
                vv = match p {
                    At::K(k) => &mut vv[k.as_str()],
                    At::I(i) => &mut vv[*i],
                };
            }
            *vv = nv.clone();
        });
        let t = lib!(c, "to json", es(v.to_json()));
        ensure!(c, t.as_deref() == Ok(&j.text()), "c12/edit", "after an edit the content reads {t:?}, should be {}", j.text());
        if c.src.chance(1, 4) {
            disk = (j.clone(), j.text());
        }
        if c.src.chance(1, 8) {
            c.fault("application restarts");
            j = disk.0.clone();
            v = j.value();
        }
        c.src.end();
    }
    walk(c, &v, &j)?;
    let shown = lib!(c, "display", format!("{v}"));
    ensure!(c, shown == j.text(), "c12/edit", "content is shown as {shown}, should be {}", j.text());
    // taken apart and put together
    let again = lib!(c, "map", es(keride::data::Object::try_from(&v)).map(|m| (m.len(), Value::from(&m).to_json().unwrap_or_default(), m.into_iter().collect::<HashMap<String, Value>>())));
    let Ok((n, same, h)) = again else { fail!(c, "c12/edit", "{} is no map", j.text()) };
    ensure!(c, n == j.fields().len() && same == j.text(), "c12/edit", "put together again the content reads {same}, should be {}", j.text());
    let any = lib!(c, "from a map", Value::from(&h));
    ensure!(c, lib!(c, "compare", any == v), "c12/edit", "{} is not the same as {any:?}, where only the order of its fields may differ", j.text());
    let t = lib!(c, "to json", es(other.to_json()));
    ensure!(c, t.as_deref() == Ok(&oj.text()), "c12/edit", "a copy made before reads {t:?}, should be {}", oj.text());
    c.probe("content edited");
    Ok(())
}

fn run(c: &mut Ctx) -> R<()> {
    if c.src.chance(1, 3) {
        edit(c)?;
    }
    let n = 1 + c.src.us(4);
    let mut all: Vec<(Made, Vec<u8>)> = vec![];
    for _ in 0..n {
        c.src.begin();
        let x = author(c)?;
        let att = attachment(c);
        if let Some(x) = x {
            c.ev(format!("message {} {}", x.ident, show(&x.bytes)));
            all.push((x, att));
        }
        version_strings(c)?;
        c.src.end();
    }
    if all.is_empty() {
        return Ok(());
    }
    let n = all.len();
    let relays = c.src.us(3);
    let f = Faults::swarm(c);
    let enemy = c.src.below(4);
    let last = relays + 1;
    let mut net: Net<M> = Net::new(relays + 2, f);
    let mut store: Vec<Vec<Vec<usize>>> = vec![vec![]; relays + 2];
    for _ in 0..1 + c.src.us(4) {
        c.src.begin();
        let to = if relays > 0 { 1 } else { last };
        if c.src.chance(enemy, 6) {
            let i = c.src.us(n);
            net.send(c, 0, to, M::Bad(i));
        } else {
            let k = 1 + c.src.us(4);
            let batch: Vec<usize> = (0..k).map(|_| c.src.us(n)).collect();
            net.send(c, 0, to, M::Frame(batch));
        }
        c.advance(10 * MS);
        c.src.end();
    }
    let mut steps = 0;
    let mut healed = false;
    loop {
        let Some((to, _, m)) = net.next(c) else {
            if healed {
                break;
            }
            healed = true;
            net.heal();
            let b: Vec<usize> = (0..n).collect();
            net.send(c, relays, last, M::Frame(b));
            continue;
        };
        steps += 1;
        if steps > 200 {
            break;
        }
        c.src.begin();
        match m {
            M::Bad(i) => {
                if to < last {
                    net.send(c, to, to + 1, M::Bad(i));
                } else {
                    let (mut b, what) = altered(c, &all[i].0);
                    if b == all[i].0.bytes {
                        c.src.end();
                        continue;
                    }
                    if c.src.chance(1, 3) {
                        b.extend_from_slice(&all[i].1);
                    }
                    c.ev(format!("node {to} gets {what}: {}", show(&b)));
                    receive(c, &b, None, what)?;
                    c.state(mix(what.len() as u64 ^ ((b.len() as u64) << 8)));
                }
            }
            M::Frame(batch) => {
                // the stream of these messages with their attachments
                let mut b = vec![];
                for i in &batch {
                    b.extend_from_slice(&all[*i].0.bytes);
                    b.extend_from_slice(&all[*i].1);
                }
                c.ev(format!("node {to} gets stream {batch:?} {} bytes", b.len()));
                let mut at = 0;
                for i in &batch {
                    let (m, att) = (&all[*i].0, &all[*i].1);
                    // the rest of the stream may not be there yet
                    let end = if c.src.chance(1, 2) { b.len() } else { at + m.bytes.len() + c.src.us(b.len() - at - m.bytes.len() + 1) };
                    if to == last {
                        receive(c, &b[at..end], Some(m), "as sent")?;
                    } else {
                        let (a, _, _) = must!(c, "c12/refused", "read", open(m.ident, Some(&m.code), In::Raw(&b[at..end])));
                        // what a relay keeps is what it serializes again
                        let (a2, _, _) = must!(c, "c12/refused", "serialize again", open(m.ident, Some(&m.code), In::Ked(&a.ked, None)));
                        ensure!(c, a.raw == m.bytes && a2.raw == m.bytes, "c12/again", "relay keeps {} of {}", show(&a2.raw), show(&m.bytes));
                    }
                    at += m.bytes.len() + att.len();
                }
                c.state(mix(batch.iter().fold(b.len() as u64, |a, i| a * 7 + *i as u64)));
                if to < last {
                    store[to].push(batch.clone());
                    net.send(c, to, to + 1, M::Frame(batch));
                    if net.crashes(c) {
                        net.crash(c, to, M::Up);
                    }
                }
            }
            M::Up => {
                for batch in store[to].clone() {
                    net.send(c, to, to + 1, M::Frame(batch));
                }
            }
        }
        c.src.end();
    }
    // longer than a version string can say
    if c.src.chance(1, 2000) {
        let j = obj(vec![("v", s("KERI10JSON000000_")), ("d", J::Str(fake_dig(c, "E"))), ("x", J::Str("x".repeat(0x1000000)))]);
        let r = c.call("serialize", || open("KERI", None, In::Ked(&j.value(), None)).map(|x| x.0.size))?;
        ensure!(c, r.is_err(), "c12/unsupported", "message of 16 MB has size {r:?}");
        c.probe("too long");
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    quick_runs: 20_000,
    quick_secs: 25,
    thorough_secs: 420,
    rule: "one run is one to four messages of any content with attachments, framed by their authors, sent as streams through relays that serialize them again, with altered version strings in between; distinct: different event log",
    real: &["versify, deversify, sizeify, sniff, Serder, Creder, Sadder, receipt, Value to and from JSON"],
    stub: &["network, relays, enemy"],
    assumptions: &[
        "canonical serialization is compact JSON in field order, with decimal fractions in shortest form and escapes as the JSON standard requires them",
        "content altered on the way is judged by a reader of its own; numbers of more than 16 characters in it are not compared",
    ],
    findings: &[("fraction-of-17-digits", long_fraction)],
    reach: &["message recovered", "altered message read", "unsupported refused", "event accessors", "credential accessors", "receipt", "version string", "version not first", "large", "content edited", "serialized in place"],
};
