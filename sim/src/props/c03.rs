//! Hostile and damaged bytes at every door of a node.

use crate::ctx::*;
use crate::items::*;
use crate::json::*;
use crate::msgs::*;
use crate::mutate::*;
use crate::net::*;
use crate::runner::Prop;
use crate::seams;
use crate::src::{hash_str, mix};
use keride::cesr::common::{deversify, sizeify, sniff, versify};
use keride::cesr::{Bext, Counter, Creder, Indexer, Matter, Sadder, Serder, Tholder};
use keride::data::Value;
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use keride::signing::Signer;

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}

macro_rules! use_all {
    ($($e:expr),* $(,)?) => {{ $( let _ = std::hint::black_box(&$e); )* }};
}

fn poke<M: Matter>(m: &M) {
    use_all!(m.code(), m.raw(), m.size(), m.qb64(), m.qb64b(), m.qb2(), m.full_size(), m.digestive(), m.transferable());
}
fn poke_i<M: Indexer>(m: &M) {
    use_all!(m.code(), m.raw(), m.index(), m.ondex(), m.qb64(), m.qb64b(), m.qb2(), m.full_size());
}
fn poke_c(m: &Counter) {
    use_all!(m.code(), m.count(), m.qb64(), m.qb64b(), m.qb2(), m.full_size());
    for l in [0usize, 1, 2, 5, 9, 100] {
        use_all!(m.count_as_b64(l));
    }
}
fn poke_t(t: &Tholder, idx: &[u32]) {
    use_all!(t.thold(), t.weighted(), t.size(), t.num(), t.number(), t.bexter(), t.limen(), t.sith(), t.to_json(), t.satisfy(idx), t.satisfy(&[]));
}

macro_rules! from_form {
    ($t:ty, $f:expr, $b:expr $(, $x:expr)*) => {
        match $f {
            Form::Text => <$t>::new_with_qb64(&lossy($b) $(, $x)*).ok(),
            Form::Bytes => <$t>::new_with_qb64b($b $(, $x)*).ok(),
            Form::Bin => <$t>::new_with_qb2($b $(, $x)*).ok(),
        }
    };
}

/// read it as an item of the class and ask the item everything
fn read_item(cls: Cls, f: Form, b: &[u8], b2: &[u8]) -> bool {
    use keride::cesr as k;
    match cls {
        Any => from_form!(AnyM, f, b).map(|m| poke(&m)).is_some(),
        AnyIdx => from_form!(AnyI, f, b).map(|m| poke_i(&m)).is_some(),
        Count => from_form!(k::Counter, f, b).map(|m| poke_c(&m)).is_some(),
        Cls::Verfer => from_form!(k::Verfer, f, b)
            .map(|m| {
                poke(&m);
                use_all!(m.verify(b2, b), m.verify(&b2[..b2.len().min(64)], b"x"));
            })
            .is_some(),
        Cls::Diger => from_form!(k::Diger, f, b)
            .map(|m| {
                poke(&m);
                use_all!(m.verify(b2), m.compare(b2, Some(b2), None), m.compare(b2, None, Some(&m)), m.compare(b2, None, None), m.compare(b2, Some(b), Some(&m)));
            })
            .is_some(),
        Cls::Cigar => from_form!(k::Cigar, f, b, None)
            .map(|m| {
                poke(&m);
                poke(&m.verfer());
                use_all!(m.verfer().verify(&m.raw(), b2));
            })
            .is_some(),
        Cls::Siger => from_form!(k::Siger, f, b, None)
            .map(|m| {
                poke_i(&m);
                poke(&m.verfer());
                use_all!(m.verfer().verify(&m.raw(), b2));
            })
            .is_some(),
        Cls::Signer => from_form!(Signer, f, b, Some(b2.len() % 2 == 0))
            .map(|m| {
                poke(&m);
                poke(&m.verfer());
                use_all!(m.sign_unindexed(b2), m.sign_indexed(b2, false, b2.len() as u32, Some(70)), m.sign_indexed(b2, true, 1, None));
            })
            .is_some(),
        Cls::Salter => from_form!(k::Salter, f, b, None)
            .map(|m| {
                poke(&m);
                use_all!(m.tier(), m.stretch(Some(32), Some(&lossy(b2)), None, Some(true)), m.signer(None, None, Some(&lossy(b2)), None, Some(true)));
            })
            .is_some(),
        Cls::Number => from_form!(k::Number, f, b)
            .map(|m| {
                poke(&m);
                use_all!(m.num(), m.numh(), m.positive());
            })
            .is_some(),
        Cls::Seqner => from_form!(k::Seqner, f, b)
            .map(|m| {
                poke(&m);
                use_all!(m.sn(), m.snh());
            })
            .is_some(),
        Cls::Dater => from_form!(k::Dater, f, b)
            .map(|m| {
                poke(&m);
                use_all!(m.dts(), m.dtsb());
            })
            .is_some(),
        Cls::Bexter => from_form!(k::Bexter, f, b)
            .map(|m| {
                poke(&m);
                use_all!(m.bext());
            })
            .is_some(),
        Cls::Pather => from_form!(Pather, f, b).map(|m| poke_path(&m, b2)).is_some(),
        Cls::Prefixer => from_form!(Prefixer, f, b)
            .map(|m| {
                poke(&m);
                let v = tree(b2).value();
                use_all!(m.verify(&v, None), m.verify(&v, Some(true)));
            })
            .is_some(),
        Cls::Saider => from_form!(k::Saider, f, b)
            .map(|m| {
                poke(&m);
                let v = tree(b2).value();
                use_all!(m.verify(&v, None, None, None, None, None), m.verify(&v, Some(true), Some(false), None, Some("i"), None));
            })
            .is_some(),
    }
}

/// content of a message, or what is nearest to it
fn tree(b: &[u8]) -> J {
    match serde_json::from_slice::<serde_json::Value>(b) {
        Ok(v) => from_serde(&v),
        Err(_) => {
            // the longest document at the head
            let mut it = serde_json::Deserializer::from_slice(b).into_iter::<serde_json::Value>();
            match it.next() {
                Some(Ok(v)) => from_serde(&v),
                _ => J::Str(lossy(b)),
            }
        }
    }
}

pub fn from_serde(v: &serde_json::Value) -> J {
    use serde_json::Value as V;
    match v {
        V::Null => J::Null,
        V::Bool(b) => J::Bool(*b),
        V::Number(n) => J::Num(n.to_string()),
        V::String(x) => J::Str(x.clone()),
        V::Array(a) => J::Arr(a.iter().map(from_serde).collect()),
        V::Object(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), from_serde(v))).collect()),
    }
}

fn poke_path(m: &Pather, b2: &[u8]) {
    poke(m);
    use_all!(m.bext(), m.path());
    let v = tree(b2).value();
    use_all!(m.resolve(&v));
    if let Ok(o) = Pather::new_with_bext(&lossy(b2)) {
        use_all!(m.root(&o), m.strip(&o), m.starts_with(&o), o.strip(m), o.root(m), o.starts_with(m));
    }
    use_all!(m.root(m), m.strip(m), m.starts_with(m));
    if let Ok(sd) = Serder::new(None, Some(b2), None, None, None) {
        use_all!(m.tail(&sd));
    }
}

fn poke_serder(x: &Serder, n: usize) {
    use_all!(x.raw(), x.ked(), x.ident(), x.kind(), x.size(), x.version(), x.saider(), x.said(), x.saidb(), x.code());
    use_all!(x.verfers(), x.digers(), x.werfers(), x.sner(), x.sn(), x.fner(), x._fn(), x.pre(), x.preb(), x.est());
    for s in [None, Some(0), Some(1), Some(n), Some(usize::MAX)] {
        use_all!(x.pretty(s));
    }
    for t in [x.tholder(), x.ntholder()].into_iter().flatten().flatten() {
        poke_t(&t, &[0, 1, 2, n as u32, u32::MAX, 0]);
    }
    use_all!(x.saider().verify(&x.ked(), None, None, None, None, None));
    if let Ok(p) = Prefixer::new(Some(&x.ked()), None, None, None, None, None, None) {
        poke(&p);
    }
    if let Ok(p) = x.pre().and_then(|p| Prefixer::new_with_qb64(&p)) {
        use_all!(p.verify(&x.ked(), Some(true)), p.verify(&x.ked(), None));
    }
    #[cfg(keride_sim)]
    {
        use keride::messaging::sim_messagize;
        if let Ok(sg) = keride::cesr::Siger::new_with_raw(&[7; 64], None, Some(n as u32 % 64), None, Some("A")) {
            let v = vec![sg];
            use_all!(sim_messagize(x, Some(&v), None, Some(&v), None), sim_messagize(x, None, None, None, None), sim_messagize(x, Some(&[]), None, Some(&[]), None));
        }
        if let (Ok(p), Ok(d), Ok(sn)) = (x.pre(), x.said(), x.sn()) {
            use_all!(keride::receipting::sim_receipt(&p, sn, &d, None, None));
        }
    }
}

fn poke_creder(x: &Creder, n: usize) {
    use_all!(x.raw(), x.ked(), x.ident(), x.kind(), x.size(), x.version(), x.saider(), x.said(), x.saidb(), x.code());
    use_all!(x.crd(), x.issuer(), x.schema(), x.subject(), x.status(), x.chains());
    for s in [None, Some(0), Some(1), Some(n), Some(usize::MAX)] {
        use_all!(x.pretty(s));
    }
}

const DOORS: usize = 14;
pub const DOOR: [&str; DOORS] = [
    "read item", "read event", "read credential", "read version", "read threshold", "verify content", "derive prefix", "read path", "verify signature",
    "compare digest", "read text value", "restore creator", "restore raw", "frame",
];

/// present a (and, where two things are needed, b) at a door of the node. true: something was accepted
fn door(c: &mut Ctx, d: usize, a: &[u8], b: &[u8]) -> R<bool> {
    let name = DOOR[d];
    let k = c.src.us(1000);
    let cls = ALL[k % ALL.len()];
    let form = [Form::Text, Form::Bytes, Form::Bin][(k / 16) % 3];
    let codes: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G", "A", "B", "D", "0A", "0B", "0C", "0I", "1AAA", "1AAI", "1AAG", "4A", "J", "Q", "M", "N", "0H", "2A", "3A", "K", "", "é", "--", "7AAB", "4", "5", "6", "7", "7A", "7AA", "8", "9AA", "1", "0", "1AA", "2AA"];
    let code = codes[k % codes.len()];
    let r = c.call(name, || -> bool {
        match d {
            0 => read_item(cls, form, a, b),
            1 => {
                let sd = if k % 4 == 0 { Serder::new(Some(code), Some(a), None, None, None) } else { Serder::new_with_raw(a) };
                if let Ok(x) = &sd {
                    poke_serder(x, k);
                }
                let v = tree(a).value();
                for r in [Serder::new_with_ked(&v, None, None), Serder::new_with_ked(&v, Some(code), Some("JSON")), Serder::new_with_ked(&v, None, Some("CBOR"))] {
                    if let Ok(x) = r {
                        poke_serder(&x, k);
                    }
                }
                sd.is_ok()
            }
            2 => {
                let sd = if k % 4 == 0 { Creder::new(Some(code), Some(a), None, None, None) } else { Creder::new_with_raw(a) };
                if let Ok(x) = &sd {
                    poke_creder(x, k);
                }
                let v = tree(a).value();
                for r in [Creder::new_with_ked(&v, None, None), Creder::new_with_ked(&v, Some(code), Some("MGPK"))] {
                    if let Ok(x) = r {
                        poke_creder(&x, k);
                    }
                }
                sd.is_ok()
            }
            3 => {
                let t = lossy(a);
                use_all!(sizeify(&tree(a).value(), None), sizeify(&tree(a).value(), Some(&t)), versify(Some(&t), None, Some("JSON"), Some(k as u32)), versify(None, None, Some(&t), Some(u32::MAX)));
                use_all!(Counter::sem_ver_str_to_b64(&t), Counter::sem_ver_str_to_b64(&lossy(b)), Counter::sem_ver_to_b64(k as u8, a.len() as u8, b.len() as u8));
                let h: String = t.chars().take(17).collect();
                sniff(a).is_ok() | deversify(&t).is_ok() | deversify(&h).is_ok()
            }
            4 => {
                let idx: Vec<u32> = b.chunks(2).take(40).map(|x| if x[0] < 200 { x[0] as u32 % 8 } else { u32::MAX - x[0] as u32 }).collect();
                let v = tree(a).value();
                let mut ok = false;
                for t in [Tholder::new_with_limen(a), Tholder::new_with_sith(&v), Tholder::new_with_sith(&Value::from(lossy(a).as_str())), Tholder::new_with_thold(&v), Tholder::new(Some(&v), Some(a), Some(&v))] {
                    if let Ok(t) = t {
                        ok = true;
                        poke_t(&t, &idx);
                    }
                }
                ok
            }
            5 => {
                use keride::cesr::Saider;
                let v = tree(a).value();
                let t = lossy(b);
                let labels = ["d", "i", "$id", "", "v"];
                let label = labels[k % 5];
                let kind = [None, Some("JSON"), Some("CBOR"), Some("x")][k % 4];
                let ig = [label, "a", "i"];
                let ignore: Option<&[&str]> = [None, Some(&ig[1..]), Some(&ig[..1]), Some(&[])][(k / 4) % 4];
                let mut ok = false;
                if let Ok((s, v2)) = Saider::saidify(&v, [None, Some(code)][k % 2], kind, Some(label), ignore) {
                    ok = true;
                    poke(&s);
                    use_all!(v2.to_json(), s.verify(&v2, None, None, kind, Some(label), ignore), s.verify(&v, Some(true), Some(true), kind, Some(label), ignore));
                }
                // an enemy seals what it likes, without the field or in any other shape
                let mut e = tree(a);
                if e.fields_mut().is_some() {
                    if k % 2 == 0 {
                        e.fields_mut().unwrap().retain(|x| x.0 != label);
                    }
                    let v = e.value();
                    let cd = ["E", "I", "0D"][k % 3];
                    e.set(label, J::Str("#".repeat(crate::refc::dig_len(cd))));
                    if let (true, Some(id)) = (label != "v", e.str("v").and_then(|x| x.get(..4)).map(|x| x.to_string())) {
                        crate::refc::resize(&mut e, &id);
                    }
                    let said = crate::refc::dig_text(cd, e.text().as_bytes());
                    if let Ok(s) = Saider::new_with_qb64(&said) {
                        use_all!(s.verify(&v, Some(true), None, None, Some(label), None), s.verify(&v, Some(true), Some(false), None, Some(label), None), s.verify(&v, None, None, None, Some(label), None));
                    }
                    if let Ok(s) = Prefixer::new_with_qb64(&said) {
                        use_all!(s.verify(&v, Some(true)));
                    }
                }
                if let Ok(s) = Saider::new_with_sad(&v, Some(label), kind, ignore, [None, Some(code)][k % 2]) {
                    poke(&s);
                    use_all!(s.verify(&v, None, None, None, Some(&t), None));
                }
                if let Ok(s) = Saider::new(Some(&v), Some(label), kind, ignore, None, None, None, Some(&t), None) {
                    poke(&s);
                    ok = true;
                }
                ok
            }
            6 => {
                let v = tree(a).value();
                let allow = ["E", "D", "B", code];
                let mut ok = false;
                for r in [
                    Prefixer::new_with_ked(&v, None, None),
                    Prefixer::new_with_ked(&v, None, Some(code)),
                    Prefixer::new_with_ked(&v, Some(&allow), Some("E")),
                    Prefixer::new(Some(&v), Some(&[]), None, None, None, Some(&lossy(b)), None),
                    Prefixer::new_with_qb64b(b),
                ] {
                    if let Ok(p) = r {
                        ok = true;
                        poke(&p);
                        use_all!(p.verify(&v, None), p.verify(&v, Some(true)), p.verify(&tree(b).value(), Some(false)));
                    }
                }
                ok
            }
            7 => {
                let mut ok = false;
                for p in [Pather::new_with_bext(&lossy(a)), Pather::new_with_path(&tree(a).value()), Pather::new_with_qb64b(a), Pather::new_with_qb2(a), Pather::new_with_qb64(&lossy(a)), Pather::new_with_raw(a, None), Pather::new_with_raw(a, Some(code))] {
                    if let Ok(p) = p {
                        ok = true;
                        poke_path(&p, b);
                    }
                }
                ok
            }
            8 => {
                use keride::cesr::{Cigar, Siger, Verfer};
                let mut ok = false;
                for v in [Verfer::new_with_qb64b(b).ok(), Verfer::new_with_raw(b, Some(code)).ok(), Verfer::new_with_raw(&b[..b.len().min(33)], Some("1AAA")).ok(), Verfer::new_with_raw(&b[..b.len().min(32)], None).ok(), Verfer::new_with_raw(&b[..b.len().min(33)], Some("1AAJ")).ok()].into_iter().flatten() {
                    ok = true;
                    poke(&v);
                    use_all!(v.verify(a, b), v.verify(&a[..a.len().min(64)], b), v.verify(&[], &[]));
                    if let Ok(s) = Siger::new_with_qb64b(a, Some(&v)) {
                        use_all!(s.verfer().verify(&s.raw(), b), v.verify(&s.raw(), b));
                    }
                    if let Ok(s) = Cigar::new_with_qb64b(a, Some(&v)) {
                        use_all!(s.verfer().verify(&s.raw(), b), v.verify(&s.raw(), b));
                    }
                }
                ok
            }
            9 => {
                use keride::cesr::Diger;
                let mut ok = false;
                for g in [Diger::new_with_qb64b(a), Diger::new_with_raw(a, Some(code)), Diger::new_with_ser(b, Some(code)), Diger::new_with_ser(b, None)] {
                    if let Ok(g) = g {
                        ok = true;
                        poke(&g);
                        use_all!(g.verify(b), g.compare(b, Some(a), None), g.compare(a, Some(b), None), g.compare(b, None, None));
                        if let Ok(h) = Diger::new_with_ser(a, Some("I")) {
                            use_all!(g.compare(b, None, Some(&h)), h.compare(a, None, Some(&g)), h.compare(a, Some(a), Some(&g)));
                        }
                    }
                }
                ok
            }
            10 => {
                use keride::cesr::{Bexter, Dater, Number, Seqner};
                let t = lossy(a);
                let mut ok = false;
                if let Ok(x) = Dater::new_with_dts(&t, [None, Some(code)][k % 2]) {
                    ok = true;
                    poke(&x);
                    use_all!(x.dts(), x.dtsb());
                }
                if let Ok(x) = Number::new_with_numh(&t) {
                    ok = true;
                    poke(&x);
                    use_all!(x.num(), x.numh(), x.positive());
                }
                if let Ok(x) = Seqner::new_with_snh(&t) {
                    ok = true;
                    poke(&x);
                    use_all!(x.sn(), x.snh());
                }
                if let Ok(x) = Bexter::new_with_bext(&t) {
                    ok = true;
                    poke(&x);
                    use_all!(x.bext());
                }
                if let Ok(x) = Counter::new(None, Some(&t), Some(code), None, None, None) {
                    poke_c(&x);
                }
                for (cd, n) in [(code, k as u32), (t.as_str(), 1), ("-A", u32::MAX), ("-0V", u32::MAX), ("-V", 4096)] {
                    if let Ok(x) = Counter::new_with_code_and_count(cd, n) {
                        poke_c(&x);
                    }
                }
                ok
            }
            11 => {
                use keride::signify::creating::SaltyCreator;
                let t = lossy(a);
                let u = lossy(b);
                let stem: String = u.chars().take(200).collect();
                let mut ok = false;
                let salters = [keride::cesr::Salter::new_with_qb64b(a, None).ok(), keride::cesr::Salter::new_with_raw(a, None, None).ok()];
                for (salt, tier, salter) in [(Some(t.as_str()), None, None), (Some(t.as_str()), Some("low"), keride::cesr::Salter::new_with_qb64b(a, None).ok()), (None, None, keride::cesr::Salter::new_with_raw(a, None, None).ok()), (Some(t.as_str()), Some(u.as_str()), None)] {
                    if let Ok(cr) = SaltyCreator::new(salt, Some(&stem), tier, salter) {
                        ok = true;
                        // a list of codes is the application's own
                        for s in cr.create(Some(vec![["A", "J", "Q"][k % 3]]), None, None, Some(k as u16 * 60), Some(a.len() as u16), Some(u16::MAX - k as u16 % 3), Some(&t), Some(k % 2 == 0), true) {
                            poke(&s);
                            poke(&s.verfer());
                            use_all!(s.sign_unindexed(a));
                        }
                    }
                }
                for x in salters.iter().flatten() {
                    use_all!(x.stretch(Some(a.len() % 80), Some(&u), None, Some(true)), x.signers(Some(k % 3), Some(k), Some(&stem), Some(code), None, None, Some(true)));
                }
                ok
            }
            12 => {
                use keride::cesr as q;
                let mut ok = 0;
                macro_rules! raws { ($($e:expr),*) => {{ $( if let Ok(m) = $e { ok += 1; poke(&m); } )* }}; }
                raws!(
                    q::Verfer::new_with_raw(a, Some(code)), q::Diger::new_with_raw(a, Some(code)), q::Saider::new_with_raw(a, Some(code)),
                    q::Cigar::new_with_raw(a, None, Some(code)), q::Salter::new_with_raw(a, Some(code), None), q::Number::new_with_raw(a, Some(code)),
                    q::Seqner::new_with_raw(a, Some(code)), q::Dater::new_with_raw(a, Some(code)), q::Bexter::new_with_raw(a, Some(code)),
                    Prefixer::new_with_raw(a, Some(code)), Signer::new_with_raw(a, None, Some(code)), Pather::new_with_raw(a, Some(code)),
                    <AnyM as Matter>::new_with_code_and_raw(code, a),
                    q::Number::new_with_raw(a, None), q::Seqner::new_with_raw(a, None), q::Dater::new_with_raw(a, None), q::Bexter::new_with_raw(a, None)
                );
                if let Ok(m) = q::Number::new_with_raw(a, Some(code)) {
                    use_all!(m.num(), m.numh(), m.positive());
                }
                if let Ok(m) = q::Seqner::new_with_raw(a, None) {
                    use_all!(m.sn(), m.snh());
                }
                if let Ok(m) = q::Dater::new_with_raw(a, None) {
                    use_all!(m.dts(), m.dtsb());
                }
                if let Ok(m) = q::Bexter::new_with_raw(a, Some(code)) {
                    use_all!(m.bext());
                }
                if let Ok(m) = q::Siger::new_with_raw(a, None, Some(k as u32), Some(b.len() as u32), Some(code)) {
                    ok += 1;
                    poke_i(&m);
                }
                if let Ok(m) = <AnyI as Indexer>::new(Some(u32::MAX - k as u32), Some(k as u32), Some(code), Some(a), None, None, None) {
                    poke_i(&m);
                }
                if let Ok(m) = <AnyI as Indexer>::new(Some(k as u32), None, Some(code), Some(a), None, None, None) {
                    ok += 1;
                    poke_i(&m);
                }
                ok > 0
            }
            _ => {
                #[cfg(keride_sim)]
                {
                    use_all!(keride::receipting::sim_receipt(&lossy(a), k as u128, &lossy(b), None, None), keride::receipting::sim_receipt(&lossy(a), u128::MAX, &lossy(b), None, Some("CBOR")));
                    if let Ok(sd) = Serder::new_with_raw(b) {
                        let (x, y) = (lossy(a), lossy(b));
                        let sg = keride::cesr::Siger::new_with_qb64b(a, None).ok();
                        let v: Vec<_> = sg.into_iter().collect();
                        use_all!(keride::messaging::sim_messagize(&sd, Some(&v), Some((&x, "1", &y, k % 2 == 0)), Some(&v), None));
                    }
                }
                true
            }
        }
    })?;
    let (n, bytes) = seams::last_work();
    let len = (a.len() + b.len()) as u64;
    ensure!(c, bytes <= 50_000_000 + 20_000 * len, "c03/work", "{name} allocated {bytes} bytes in {n} pieces for {len} bytes of input");
    Ok(r)
}

#[derive(Clone)]
enum Frame {
    Item(Item, Form),
    Msg(Msg),
    Raw(&'static str),
}

impl Frame {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Frame::Item(i, Form::Bin) => i.bin(),
            Frame::Item(i, _) => i.text.clone().into_bytes(),
            Frame::Msg(m) => m.bytes.clone(),
            Frame::Raw(t) => t.as_bytes().to_vec(),
        }
    }
}

const TEXTS: &[(&str, usize)] = &[
    ("2020-08-22T17:50:09.988921+00:00", 10),
    ("2020-08-22T17:50:09Z", 10),
    ("1a2b3c", 10),
    ("ffffffffffffffffffffffffffffffff", 10),
    ("@%$#", 10),
    ("-a-b-0-1", 7),
    ("[\"a\",0,\"b\"]", 7),
    ("-", 7),
    ("[\"1/2\",\"1/2\",\"1\"]", 4),
    ("[[\"1/2\",\"1/2\"],[\"1\",\"1\"]]", 4),
    ("2", 4),
    ("MAAC", 4),
    ("4AAFA1s2c1s2c1s4c1s4c1s4c1s4a1c1", 4),
    ("1.2.3", 3),
    ("KERI10JSON0000fb_", 3),
    ("ACDC10JSON000000_", 3),
    ("0AAwMTIzNDU2Nzg5YWJjZGVm", 11),
    ("0123456789abcdef", 11),
    ("EABC", 13),
];

fn gen_frame(c: &mut Ctx) -> (Frame, usize) {
    match c.src.weighted(&[6, 5, 3]) {
        0 => {
            let cls = *c.src.pick(ALL);
            let it = gen(c, cls);
            let f = crate::props::c01::any_form(c);
            let d = match cls {
                Cls::Siger | Cls::Cigar => *c.src.pick(&[0, 0, 8]),
                Cls::Diger => *c.src.pick(&[0, 9]),
                Cls::Verfer | Cls::Signer => *c.src.pick(&[0, 12]),
                Cls::Prefixer => *c.src.pick(&[0, 6]),
                Cls::Pather => *c.src.pick(&[0, 7]),
                Cls::Salter => *c.src.pick(&[0, 11]),
                Cls::Number | Cls::Bexter => *c.src.pick(&[0, 4]),
                _ => 0,
            };
            (Frame::Item(it, f), d)
        }
        1 => {
            let m = gen_msg(c);
            let d = if m.ident == "KERI" { *c.src.pick(&[1, 1, 1, 5, 6, 3]) } else { *c.src.pick(&[2, 2, 5, 3]) };
            (Frame::Msg(m), d)
        }
        _ => {
            let (t, d) = *c.src.pick(TEXTS);
            (Frame::Raw(t), d)
        }
    }
}

/// what arrives instead of a frame
fn hostile(c: &mut Ctx, f: &Frame) -> Vec<u8> {
    match c.src.weighted(&[6, 4, 1, 1]) {
        1 => {
            if let Frame::Msg(m) = f {
                let mut j = m.j.clone();
                mangle_json(c, &mut j);
                if c.src.chance(3, 4) {
                    refit(c, &mut j, m.ident);
                }
                let mut b = j.text().into_bytes();
                if c.src.chance(1, 10) {
                    b = mangle(c, &b);
                }
                return b;
            }
            if let Frame::Raw(t) = f {
                if let Some(mut j) = crate::json::parse(t.as_bytes()) {
                    mangle_json(c, &mut j);
                    return j.text().into_bytes();
                }
            }
            let b = f.bytes();
            mangle(c, &b)
        }
        2 => {
            let n = c.src.small(300) as usize;
            c.fault("noise");
            c.src.blob(n)
        }
        3 => forged(c),
        _ => {
            let b = f.bytes();
            mangle(c, &b)
        }
    }
}

#[derive(Clone)]
enum M {
    /// (door, what the honest peer sent, what goes with it, from an enemy)
    In(usize, Frame, Vec<u8>, bool),
    Up,
}

/// after anything at all, the node still reads valid input
fn control(c: &mut Ctx, it: &Item, m: &Msg) -> R<()> {
    let g = crate::items::parse(c, it.cls, Form::Bytes, it.text.as_bytes(), &it.meaning)?;
    match g {
        Ok(g) => {
            if let Some(d) = differs(it, &g) {
                return c.done("c03/control", format!("after hostile input: {d}"));
            }
        }
        Err(e) => return c.done("c03/control", format!("{} refused after hostile input: {e}", it.brief())),
    }
    let r = c.call("read message", || if m.ident == "KERI" {
        Serder::new(Some(&m.code), Some(&m.bytes), None, None, None).map(|x| x.raw())
    } else {
        Creder::new(Some(&m.code), Some(&m.bytes), None, None, None).map(|x| x.raw())
    })?;
    match r {
        Ok(r) if r == m.bytes => Ok(()),
        Ok(_) => c.done("c03/control", format!("{} misread after hostile input", m.brief())),
        Err(e) => c.done("c03/control", format!("{} refused after hostile input: {e}", m.brief())),
    }
}

/// input of a size an enemy affords: whatever it says, a node is done with it in reasonable time. What
/// is not done is ended by the processor-time limit of the run ("unbounded-time")
fn bulk(c: &mut Ctx) -> R<()> {
    let it = gen(c, Cls::Verfer);
    let cm = gen_msg(c);
    let n = if c.thorough { [500usize, 3000, 20000] } else { [500usize, 2000, 6000] }[c.src.us(3)];
    let kind = c.src.us(12);
    let odd = |i: usize| 2_147_483_647u32 - 2 * i as u32;
    let bext = |t: &str| {
        let (code, raw) = crate::codec::bext_raw(t);
        crate::codec::matter_text(&code, &raw).0.into_bytes()
    };
    let weights = |sep: &str| -> Vec<String> { (0..n).map(|i| format!("1{sep}{}", odd(i))).chain(["1".to_string()]).collect() };
    let event = |kt: J| {
        let mut j = J::Obj(cm.j.fields().iter().filter(|x| x.0 != "kt" && x.0 != "nt").cloned().collect());
        j.set("kt", kt.clone());
        j.set("nt", kt);
        if let Some(id) = j.str("v").and_then(|x| x.get(..4)).map(|x| x.to_string()) {
            crate::refc::resize(&mut j, &id);
        }
        j.text().into_bytes()
    };
    let strs = |v: Vec<String>| J::Arr(v.into_iter().map(J::Str).collect());
    let (name, a): (&str, Vec<u8>) = match kind {
        0 => ("weights of unlike denominators", strs(weights("/")).text().into_bytes()),
        1 => ("their byte form", bext(&weights("s").join("c"))),
        2 => ("an event of such weights", event(strs(weights("/")))),
        3 => ("groups of weights", J::Arr((0..n).map(|i| strs(vec![format!("1/{}", odd(i)), "1".to_string()])).collect()).text().into_bytes()),
        4 => ("their byte form as groups", bext(&(0..n).map(|i| format!("1s{}c1", odd(i))).collect::<Vec<_>>().join("a"))),
        5 => ("a list of numbers", J::Arr((0..n * 8).map(|i| J::Num(i.to_string())).collect()).text().into_bytes()),
        6 => ("a map of many labels", J::Obj((0..n * 4).map(|i| (format!("k{i}"), J::Num(i.to_string()))).collect()).text().into_bytes()),
        7 => ("a long path", format!("-{}", vec!["a"; n * 4].join("-")).into_bytes()),
        8 => ("a path in byte form", bext(&vec!["-0"; n * 4].join(""))),
        9 => ("version strings", "{\"v\":\"KERI10JSON0000fb_\",\"d\":\"".repeat(n).into_bytes()),
        10 => ("digits", "9".repeat(n * 10).into_bytes()),
        _ => ("one element of many said fields", {
            let mut j = cm.j.clone();
            j.set("a", J::Arr((0..n).map(|i| J::Obj(vec![("d".to_string(), J::Str(cm.said.clone())), ("n".to_string(), J::Num(i.to_string()))])).collect()));
            if let Some(id) = j.str("v").and_then(|x| x.get(..4)).map(|x| x.to_string()) {
                crate::refc::resize(&mut j, &id);
            }
            j.text().into_bytes()
        }),
    };
    let b = match c.src.us(4) {
        0 => a.clone(),
        1 => cm.bytes.clone(),
        2 => (0..n * 2).flat_map(|i| [(i % 8) as u8, 0]).collect(),
        _ => format!("-{}", vec!["0"; n].join("-")).into_bytes(),
    };
    c.fault("bulky input");
    c.ev(format!("{name}: {} bytes, besides {} bytes", a.len(), b.len()));
    c.state(mix(kind as u64 * 8 + n as u64));
    for d in 0..DOORS {
        door(c, d, &a, &b)?;
    }
    c.probe("bulky input");
    control(c, &it, &cm)
}

fn run(c: &mut Ctx) -> R<()> {
    if c.src.chance(1, 250) {
        return bulk(c);
    }
    let cls = *c.src.pick(ALL);
    let it = gen(c, cls);
    let cm = gen_msg(c);
    let f = Faults::swarm(c);
    let nodes = 2 + c.src.us(2);
    let mut net: Net<M> = Net::new(nodes + 1, f);
    let enemy = nodes;
    let hot = c.src.range(1, 4); // how much of the traffic is hostile
    // records a node has stored: (door, bytes)
    let mut disk: Vec<Vec<(usize, Vec<u8>)>> = vec![vec![]; nodes];
    let n = 4 + c.src.small(if c.thorough { 40 } else { 14 });
    for _ in 0..n {
        c.src.begin();
        let (fr, d) = gen_frame(c);
        let second = if c.src.chance(1, 2) {
            gen_frame(c).0.bytes()
        } else {
            let (g, _) = gen_frame(c);
            hostile(c, &g)
        };
        let from = if c.src.chance(hot, 5) { enemy } else { c.src.us(nodes) };
        let to = c.src.us(nodes);
        // sometimes at a door where nobody expects it
        let d = if c.src.chance(1, 4) { c.src.us(DOORS) } else { d };
        net.send(c, from, to, M::In(d, fr, second, from == enemy));
        let gap = c.src.below(20);
        c.advance(MS * gap);
        c.src.end();
    }
    let mut steps = 0;
    while let Some((to, _, m)) = net.next(c) {
        steps += 1;
        if steps > 400 {
            break;
        }
        match m {
            M::In(d, fr, second, enemy) => {
                c.src.begin();
                let bad = enemy || (net.f.corrupt > 0 && c.src.chance(net.f.corrupt, 1000));
                let a = if bad { hostile(c, &fr) } else { fr.bytes() };
                c.ev(format!("node {to}: {} {} <- {}{}", DOOR[d], a.len(), show(&a[..a.len().min(120)]), if bad { " (hostile)" } else { "" }));
                let ok = door(c, d, &a, &second)?;
                if bad {
                    c.probe(if ok { "hostile input accepted" } else { "hostile input refused" });
                } else {
                    c.probe("honest input");
                }
                c.state(mix(((d as u64) << 8) | ok as u64 | ((bad as u64) << 1)) ^ mix(hash_str(&lossy(&a[..a.len().min(2)]))) ^ mix(a.len() as u64 % 100));
                disk[to].push((d, a));
                control(c, &it, &cm)?;
                if net.crashes(c) {
                    net.crash(c, to, M::Up);
                    c.ev(format!("node {to} crashes"));
                }
                c.src.end();
            }
            M::Up => {
                // what it had stored, as the disk gives it back
                for i in 0..disk[to].len() {
                    c.src.begin();
                    let (d, mut b) = disk[to][i].clone();
                    let o = match c.src.below(6) {
                        0 => {
                            c.fault("disk returns damaged record");
                            b = mangle(c, &b);
                            vec![]
                        }
                        1 => {
                            // a record of another place
                            c.fault("disk returns another record");
                            let k = c.src.us(disk[to].len());
                            disk[to][k].1.clone()
                        }
                        2 => {
                            c.fault("torn write");
                            let k = c.src.us(b.len() + 1);
                            b.truncate(k);
                            vec![]
                        }
                        _ => b.clone(),
                    };
                    door(c, d, &b, &o)?;
                    c.src.end();
                }
                control(c, &it, &cm)?;
            }
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    quick_runs: 40_000,
    quick_secs: 25,
    thorough_secs: 420,
    rule: "one run is a few nodes and an enemy exchanging valid, damaged and forged input at fourteen kinds of parser or verifier, with restarts from damaged disks; distinct: different event log",
    real: &["all parsers, constructors from raw bytes, verifiers and accessors of the library, creators, pathing, thresholds, message framing (hooks)"],
    stub: &["network, disk and the choice of parser by the application"],
    assumptions: &["indexing a dynamic value with a label it does not have panics by its documented design and is not called on hostile content by the harness"],
    findings: &[],
    reach: &["hostile input accepted", "hostile input refused", "honest input", "bulky input"],
};
