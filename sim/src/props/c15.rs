//! Types: peers that swap valid items, disks that return the wrong record, and receivers that expect
//! one type of material. What is read is what the reference codec and the code lists of the type say.

use crate::codec::*;
use crate::ctx::*;
use crate::items::*;
use crate::json::{obj, s, strs};
use crate::msgs::{fake_dig, Key};
use crate::refc;
use crate::runner::Prop;
use crate::src::{hash_str, mix};
use keride::cesr::{Indexer, Matter, Sadder, Serder, Tholder};
use keride::prefexing::prefixer::Prefixer as Pre;
use keride::signify::creating::SaltyCreator;

fn table(cls: Cls) -> &'static [Row] {
    match cls {
        Count => COUNTER,
        Siger | AnyIdx => INDEXER,
        _ => MATTER,
    }
}

/// what a receiver expecting this type has to make of the text: nothing, or this
fn expected(cls: Cls, text: &[u8]) -> Option<Tok> {
    read(table(cls), text).filter(|t| codes_of(cls).contains(&t.code.as_str()))
}

/// the type says more than its code about what it accepts
fn beyond(cls: Cls, from: Cls, t: &Tok) -> bool {
    match cls {
        // a date, a seed, a path: any raw bytes of the code need not be one
        Dater => from != Dater,
        Signer => from != Signer || t.raw.is_empty(),
        Pather => from != Pather,
        Bexter => from != Bexter && from != Pather,
        // a current only code with a prior position
        Siger | AnyIdx => IDX_CRT.contains(&t.code.as_str()) && t.ondex != 0,
        _ => false,
    }
}

fn form_bytes(form: Form, text: &str) -> Vec<u8> {
    match form {
        Form::Bin => binary(text),
        _ => text.as_bytes().to_vec(),
    }
}

fn any_item(c: &mut Ctx) -> Item {
    let cls = *c.src.pick(ALL);
    gen(c, cls)
}

/// read the item where cls is expected
fn judge(c: &mut Ctx, cls: Cls, form: Form, text: &str, own: bool, from: Cls, hint: &str, how: &str) -> R<bool> {
    let b = form_bytes(form, text);
    let r = parse(c, cls, form, &b, hint)?;
    let head = if form == Form::Bin {
        // binary is read by what its first bytes say: the same code, as the text form
        expected(cls, text.as_bytes())
    } else {
        expected(cls, text.as_bytes())
    };
    let ok = r.is_ok();
    c.state(mix(hash_str(&format!("{cls:?}{form:?}{}{ok}", &text[..text.len().min(4)]))));
    match (&head, &r) {
        (None, Err(_)) => c.probe("other type refused"),
        (None, Ok(g)) => {
            fail!(c, "c15/accepted", "{how}: {} where {cls:?} is expected ({form:?}) is taken as code {} raw {}", show(text.as_bytes()), g.code, hex(&g.raw))
        }
        (Some(t), Ok(g)) => {
            ensure!(c, g.code == t.code && g.raw == t.raw, "c15/misread", "{how}: {} where {cls:?} is expected ({form:?}) is taken as {} {}", show(text.as_bytes()), g.code, hex(&g.raw));
            c.probe(if own { "own type accepted" } else { "shared code accepted" });
        }
        (Some(t), Err(e)) => {
            c.checks += 1;
            if own || !beyond(cls, from, t) {
                fail!(c, "c15/own", "{how}: {} is not read as {cls:?} ({form:?}): {e}", show(text.as_bytes()));
            }
        }
    }
    Ok(ok)
}

const FORMS: &[Form] = &[Form::Text, Form::Bytes, Form::Bin];

/// made from raw bytes under a code of another type
fn raw_code(c: &mut Ctx) -> R<()> {
    let cls = *c.src.pick(&[Verfer, Diger, Saider, Cigar, Siger, Signer, Salter, Number, Seqner, Dater, Bexter, Pather, Prefixer]);
    let t = if cls == Siger && c.src.chance(1, 2) { INDEXER } else { MATTER };
    let r = c.src.pick(t);
    let code = r.code;
    if codes_of(cls).contains(&code) {
        return Ok(());
    }
    let n = if r.var() { c.src.us(40) } else if c.src.chance(1, 4) { 64 } else { r.raw() };
    let raw = c.src.random(n);
    let raw = raw.as_slice();
    c.fault("code of another type");
    let got = c.call("construct", || -> Result<String, String> {
        let code = Some(code);
        Ok(match cls {
            Verfer => es(es(keride::cesr::Verfer::new_with_raw(raw, code))?.qb64())?,
            Diger => es(es(keride::cesr::Diger::new_with_raw(raw, code))?.qb64())?,
            Saider => es(es(keride::cesr::Saider::new_with_raw(raw, code))?.qb64())?,
            Cigar => es(es(keride::cesr::Cigar::new_with_raw(raw, None, code))?.qb64())?,
            Siger => es(Indexer::qb64(&es(keride::cesr::Siger::new_with_raw(raw, None, Some(1), None, code))?))?,
            Signer => es(es(keride::signing::Signer::new_with_raw(raw, Some(true), code))?.qb64())?,
            Salter => es(es(keride::cesr::Salter::new_with_raw(raw, code, None))?.qb64())?,
            Number => es(es(keride::cesr::Number::new(None, None, code, Some(raw), None, None, None))?.qb64())?,
            Seqner => es(es(keride::cesr::Seqner::new(None, None, code, Some(raw), None, None, None))?.qb64())?,
            Dater => es(es(keride::cesr::Dater::new_with_raw(raw, code))?.qb64())?,
            Bexter => es(es(keride::cesr::Bexter::new_with_raw(raw, code))?.qb64())?,
            Pather => es(es(keride::pathing::pather::Pather::new_with_raw(raw, code))?.qb64())?,
            _ => es(es(Pre::new_with_raw(raw, code))?.qb64())?,
        })
    })?;
    ensure!(c, got.is_err(), "c15/raw", "{cls:?} made of {} bytes under code {code}: {got:?}", raw.len());
    c.probe("raw under another code refused");
    Ok(())
}

/// a store of typed records on a disk that may return or overwrite the wrong one
fn store(c: &mut Ctx) -> R<()> {
    let n = 2 + c.src.us(8);
    // what the node means to keep, and what is on disk: (text, class, hint)
    let mut meant: Vec<Item> = (0..n)
        .map(|_| {
            let mut it = any_item(c);
            while matches!(it.cls, Any | AnyIdx) {
                it = any_item(c);
            }
            it
        })
        .collect();
    let mut disk: Vec<Item> = meant.clone();
    let steps = 2 + c.src.small(14);
    for _ in 0..steps {
        c.src.begin();
        c.advance(1_000_000);
        let k = c.src.us(n);
        match c.src.weighted(&[6, 2, 2]) {
            0 => {
                // read: as stored, or another record by mistake
                let at = if c.src.chance(1, 3) {
                    c.fault("misdirected read");
                    c.src.us(n)
                } else {
                    k
                };
                let form = *c.src.pick(FORMS);
                let cls = meant[k].cls;
                let (text, from) = (disk[at].text.clone(), disk[at].cls);
                let own = disk[at] == meant[k];
                let hint = meant[k].meaning.clone();
                judge(c, cls, form, &text, own, from, &hint, "read from the store")?;
            }
            1 => {
                // write a new value of the same type; it may land elsewhere, or not at all
                let it = gen(c, meant[k].cls);
                meant[k] = it.clone();
                match c.src.below(6) {
                    0 => {
                        c.fault("misdirected write");
                        let at = c.src.us(n);
                        disk[at] = it;
                    }
                    1 => c.fault("lost write"),
                    _ => disk[k] = it,
                }
            }
            _ => {
                // crash: what the node means is what the disk has where it is of the type
                c.fault("crash and restart");
                for i in 0..n {
                    if disk[i].cls == meant[i].cls {
                        meant[i] = disk[i].clone();
                    }
                }
            }
        }
        c.src.end();
    }
    Ok(())
}

/// groups on the wire as the receiver expects them, with items exchanged
fn wire(c: &mut Ctx) -> R<()> {
    let plans: &[&[Cls]] = &[
        &[Verfer, Cigar],
        &[Prefixer, Seqner, Saider],
        &[Seqner, Diger],
        &[Prefixer, Seqner, Diger, Siger],
        &[Seqner, Dater],
        &[Count, Siger, Siger],
        &[Salter, Signer],
        &[Diger, Verfer, Number],
        &[Pather, Saider, Bexter],
        &[Dater, Number, Verfer, Cigar, Siger],
    ];
    let plan = *c.src.pick(plans);
    let mut items: Vec<Item> = plan.iter().map(|k| gen(c, *k)).collect();
    match c.src.below(4) {
        0 => {}
        1 => {
            c.fault("items swapped");
            let (i, j) = (c.src.us(items.len()), c.src.us(items.len()));
            items.swap(i, j);
        }
        2 => {
            c.fault("item replaced");
            let i = c.src.us(items.len());
            items[i] = any_item(c);
        }
        _ => {
            c.fault("item dropped");
            let i = c.src.us(items.len());
            items.remove(i);
        }
    }
    let text: String = items.iter().map(|i| i.text.as_str()).collect();
    let bin = c.src.chance(1, 3);
    let mut at = 0;
    c.ev(format!("expects {plan:?}, gets {}", show(text.as_bytes())));
    for (i, cls) in plan.iter().enumerate() {
        if at >= text.len() {
            break;
        }
        let form = if bin { Form::Bin } else { *c.src.pick(&[Form::Text, Form::Bytes]) };
        let from = items.get(i).map(|x| x.cls).unwrap_or(Any);
        let hint = items.get(i).map(|x| x.meaning.clone()).unwrap_or_default();
        let rest = text[at..].to_string();
        if !judge(c, *cls, form, &rest, false, from, &hint, "on the wire")? {
            c.probe("group refused");
            break;
        }
        at += expected(*cls, rest.as_bytes()).map(|t| t.len).unwrap_or(rest.len());
    }
    Ok(())
}

fn ok_all(v: &[String], cls: Cls) -> bool {
    v.iter().all(|x| expected(cls, x.as_bytes()).is_some())
}

/// values exchanged between fields of events; the event itself is sealed again, as a peer may
fn events(c: &mut Ctx) -> R<()> {
    let nk = 1 + c.src.us(3);
    let mut k: Vec<String> = (0..nk).map(|_| Key::gen(c, true).text()).collect();
    let mut n: Vec<String> = (0..c.src.us(3)).map(|_| fake_dig(c, "E")).collect();
    let mut b: Vec<String> = (0..c.src.us(3)).map(|_| Key::gen(c, false).text()).collect();
    let mut other = || -> String {
        loop {
            let it = any_item(c);
            if !matches!(it.cls, Siger | AnyIdx) {
                return it.text;
            }
        }
    };
    let foreign = [other(), other(), other()];
    for f in foreign {
        match c.src.below(6) {
            0 => {
                let i = c.src.us(nk);
                k[i] = f;
            }
            1 if !n.is_empty() => {
                let i = c.src.us(n.len());
                n[i] = f;
            }
            2 if !b.is_empty() => {
                let i = c.src.us(b.len());
                b[i] = f;
            }
            3 if !n.is_empty() => {
                let (i, j) = (c.src.us(nk), c.src.us(n.len()));
                std::mem::swap(&mut k[i], &mut n[j]);
            }
            _ => continue,
        }
        c.fault("field of another type");
    }
    let j = obj(vec![
        ("v", s("")),
        ("t", s("icp")),
        ("d", s("")),
        ("i", s("")),
        ("s", s("0")),
        ("kt", s("1")),
        ("k", strs(&k)),
        ("nt", s("0")),
        ("n", strs(&n)),
        ("bt", s("0")),
        ("b", strs(&b)),
        ("c", strs::<&str>(&[])),
        ("a", strs::<&str>(&[])),
    ]);
    let (mut j, bytes, said) = refc::seal(j, "KERI", "E", &["d", "i"]);
    let serder = must!(c, "c15/event", "event", es(Serder::new_with_raw(&bytes)));
    let v = lib!(c, "keys", es(serder.verfers()));
    let d = lib!(c, "next", es(serder.digers()));
    let w = lib!(c, "witnesses", es(serder.werfers()));
    ensure!(c, v.is_ok() == ok_all(&k, Verfer), "c15/keys", "keys {k:?}: {:?}", v.as_ref().map(|x| x.len()));
    ensure!(c, d.is_ok() == ok_all(&n, Diger), "c15/next", "next {n:?}: {:?}", d.as_ref().map(|x| x.len()));
    ensure!(c, w.is_ok() == ok_all(&b, Verfer), "c15/witnesses", "witnesses {b:?}: {:?}", w.as_ref().map(|x| x.len()));
    if v.is_err() || d.is_err() || w.is_err() {
        c.probe("field refused");
    }
    // the key of a basic identifier
    if nk == 1 {
        let v = j.value();
        let p = lib!(c, "identifier", es(Pre::new_with_ked(&v, None, None)));
        // without a code the identifier in the event says which derivation: it is a digest here
        if let Ok(p) = &p {
            ensure!(c, DIGS.contains(&p.code().as_str()), "c15/prefix", "{} of code {}", k[0], p.code());
        }
        let mut one = j.clone();
        one.set("i", s(&k[0]));
        one.set("n", strs::<&str>(&[]));
        one.set("b", strs::<&str>(&[]));
        let v = one.value();
        let code = expected(Prefixer, k[0].as_bytes()).map(|t| t.code);
        for want in KEYS {
            let p = lib!(c, "identifier", es(Pre::new_with_ked(&v, None, Some(want))));
            let good = code.as_deref() == Some(*want);
            ensure!(c, p.is_ok() == good, "c15/prefix", "key {} as identifier of code {want}: {:?}", k[0], p.map(|x| x.code()));
        }
    }
    // the identifier of the event is another item
    let it = any_item(c);
    if it.text != said {
        c.fault("field of another type");
        j.set("d", s(&it.text));
        refc::resize(&mut j, "KERI");
        let r = lib!(c, "event", es(Serder::new_with_raw(j.text().as_bytes())));
        let dig = expected(Saider, it.text.as_bytes()).filter(|t| t.code == "E").is_some();
        ensure!(c, r.is_ok() == dig, "c15/said", "event whose identifier is {}: {:?}", it.text, r.map(|x| x.code()));
        let v = j.value();
        let r = lib!(c, "said of an event", es(keride::cesr::Saider::new(Some(&v), None, None, None, None, None, None, None, None)));
        if let Ok(x) = r {
            // made, not read: the identifier is that of the content
            ensure!(c, expected(Saider, it.text.as_bytes()).is_some() || x.code() == "E", "c15/said", "{} is taken as {}", it.text, x.code());
        }
    }
    Ok(())
}

/// material given to what is made of it
fn users(c: &mut Ctx) -> R<()> {
    let it = any_item(c);
    let idx = matches!(it.cls, Siger | AnyIdx);
    let tok = expected(Salter, it.text.as_bytes());
    let r = lib!(c, "creator", es(SaltyCreator::new(Some(&it.text), Some("s"), None, None)).map(|_| ()));
    if !(idx && tok.is_some()) {
        ensure!(c, r.is_ok() == tok.is_some(), "c15/creator", "key creator given {}: {r:?}", it.text);
    }
    c.probe(if r.is_ok() { "salt taken" } else { "not a salt" });
    // a threshold is a number or a text
    let b = it.text.as_bytes();
    let code = read(MATTER, b).map(|t| t.code);
    let r = lib!(c, "limen", es(Tholder::new_with_limen(b)).map(|t| (t.weighted(), t.num().ok().flatten())));
    let good = matches!(&code, Some(x) if NUMS.contains(&x.as_str()) || BEXTS.contains(&x.as_str()));
    if !good {
        ensure!(c, r.is_err(), "c15/threshold", "threshold made of {}: {r:?}", it.text);
        c.probe("not a threshold");
    }
    // numbers of an event given as primitives
    let v = it.text.as_str();
    let n = lib!(c, "first seen", {
        let j = obj(vec![("v", s("")), ("t", s("ixn")), ("d", s("")), ("i", s("")), ("s", s("1")), ("f", s(v)), ("p", s("")), ("a", strs::<&str>(&[]))]);
        let (_, bytes, _) = refc::seal(j, "KERI", "E", &["d"]);
        es(Serder::new_with_raw(&bytes)).and_then(|x| es(x.fner()).map(|n| (n.map(|n| n.code()), x._fn().ok())))
    });
    // the number of a type's own code, and nothing for another's
    let want = expected(Number, b).map(|t| (Some(t.code.clone()), Some(t.raw.iter().fold(0u128, |a, x| (a << 8) | *x as u128))));
    ensure!(c, n.is_ok() == want.is_some() && want.is_none_or(|w| n.as_ref() == Ok(&w)), "c15/number", "first seen number {}: {n:?}", it.text);
    Ok(())
}

/// the names an application makes messages with
fn names(c: &mut Ctx) -> R<()> {
    use keride::cesr::common::{Ids, Ilkage, Identage, Serialage, Tierage};
    macro_rules! same { ($m:ident: $($n:ident)*) => {[$((stringify!($m), Some(stringify!($n)), $m::$n)),*].to_vec()}; }
    let mut all = same!(Ilkage: icp rot ixn dip drt rct ksn qry rpy exn pro bar vcp vrt iss rev bis brv);
    all.extend(same!(Identage: ACDC KERI));
    all.extend(same!(Serialage: JSON));
    all.extend(same!(Tierage: low med high));
    all.extend(same!(Ids: id i d t k n b a s f v kt nt di));
    all.push(("Ids", Some("$id"), Ids::dollar));
    all.push(("Ids", Some("@id"), Ids::at));
    for (m, n, v) in all {
        c.checks += 1;
        ensure!(c, n == Some(v), "c15/name", "{m} {n:?} is written {v}");
    }
    Ok(())
}

fn run(c: &mut Ctx) -> R<()> {
    names(c)?;
    let n = 1 + c.src.small(10);
    for _ in 0..n {
        c.src.begin();
        let cls = *c.src.pick(ALL);
        let it = any_item(c);
        let form = *c.src.pick(FORMS);
        let mut text = it.text.clone();
        // something follows
        if c.src.chance(1, 3) {
            text.push_str(&any_item(c).text);
        }
        c.ev(format!("{} where {cls:?} is expected", it.brief()));
        judge(c, cls, form, &text, it.cls == cls, it.cls, &it.meaning, "alone")?;
        raw_code(c)?;
        c.src.end();
    }
    store(c)?;
    wire(c)?;
    events(c)?;
    users(c)
}

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    quick_runs: 60_000,
    quick_secs: 25,
    thorough_secs: 420,
    rule: "one run is items of any type read where another is expected, a typed store on a disk that misplaces records, attached groups and event fields with items exchanged, all in all forms; distinct: different event log",
    real: &["every primitive type's constructors and parsers", "Serder field accessors", "SaltyCreator, Tholder, Prefixer as users of primitives"],
    stub: &["store and disk, peers"],
    assumptions: &["codes of indexed signatures and of other material are separate tables: what is read is what the head of the text says in the table of the expected type"],
    findings: &[],
    reach: &["other type refused", "own type accepted", "shared code accepted", "raw under another code refused", "group refused", "field refused", "not a salt", "salt taken", "not a threshold"],
};
