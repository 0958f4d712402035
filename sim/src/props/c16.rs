//! Paths: authors point at a block of a nested document, relays put the document into outer ones and
//! take it out again, and everyone resolves the path that travels with it.

use crate::codec::*;
use crate::ctx::*;
use crate::items::{codes_of, gen_b64, Cls, Form};
use crate::json::{gen_json, gen_obj, obj, s, J};
use crate::msgs::gen_msg;
use crate::mutate::mangle;
use crate::net::*;
use crate::runner::Prop;
use crate::src::{hash_str, mix};
use keride::cesr::{Bext, Matter, Serder};
use keride::data::{dat, Value};
use keride::pathing::pather::Pather;

type Segs = Vec<String>;

fn plain(l: &str) -> bool {
    l.bytes().all(|b| B64.contains(&b))
}

/// the label stands for itself in a path
fn names(l: &str) -> bool {
    !l.is_empty() && plain(l) && !l.contains('-') && l.parse::<u64>().is_err()
}

/// text of a path from its segments
fn text_of(segs: &[String]) -> String {
    format!("-{}", segs.join("-"))
}

/// the segments of the text of a path
fn segs_of(bext: &str) -> Option<Segs> {
    let rest = bext.strip_prefix('-')?;
    let v: Segs = rest.split('-').map(|x| x.to_string()).collect();
    Some(if v[0].is_empty() { vec![] } else { v })
}

/// the block at the place, or nothing
fn at(j: &J, segs: &[String]) -> Option<J> {
    let Some(s) = segs.first() else { return Some(j.clone()) };
    let n: Option<usize> = if s.bytes().all(|b| b.is_ascii_digit()) { s.parse().ok() } else { None };
    let next = match (j, n) {
        (J::Obj(o), Some(i)) => &o.get(i)?.1,
        // a trailing mark: the map itself
        (J::Obj(_), None) if s.is_empty() => return Some(j.clone()),
        (J::Obj(o), None) => &o.iter().find(|(k, _)| k == s)?.1,
        (J::Arr(a), Some(i)) => a.get(i)?,
        _ => return None,
    };
    at(next, &segs[1..])
}

/// text of path characters for the raw bytes a primitive carries
fn derawify(code: &str, raw: &[u8]) -> Option<String> {
    let ls = "456789".find(&code[..1])? % 3;
    let mut b = vec![0; ls];
    b.extend_from_slice(raw);
    let t = enc(&b);
    let ws = if ls == 0 && !t.is_empty() {
        usize::from(t.starts_with('A'))
    } else {
        (ls + 1) % 4
    };
    t.get(if t.is_empty() { 0 } else { ws }..).map(|x| x.to_string())
}

/// a random place in the document: its segments, as the author gives them, and the block
fn place(c: &mut Ctx, j: &J, deep: usize) -> (Segs, Vec<bool>, J) {
    let (mut segs, mut ints, mut cur) = (vec![], vec![], j.clone());
    for _ in 0..deep {
        let far = deep > 20;
        if c.src.chance(1, if far { 60 } else { 6 }) {
            break;
        }
        let next = match &cur {
            J::Obj(o) if !o.is_empty() => {
                let i = if far && o.len() == 2 { 1 } else { c.src.us(o.len()) };
                let l = &o[i].0;
                if names(l) && c.src.chance(2, 3) {
                    segs.push(l.clone());
                    ints.push(false);
                } else {
                    segs.push(i.to_string());
                    ints.push(c.src.chance(1, 2));
                }
                o[i].1.clone()
            }
            J::Arr(a) if !a.is_empty() => {
                let i = if far && a.len() == 2 { 1 } else { c.src.us(a.len()) };
                segs.push(i.to_string());
                ints.push(c.src.chance(1, 2));
                a[i].clone()
            }
            _ => break,
        };
        cur = next;
    }
    (segs, ints, cur)
}

/// put the document into an outer one; the outer path says where it is
fn embed(c: &mut Ctx, inner: J, used: &[String]) -> (J, Segs) {
    let mut j = inner;
    let mut segs: Segs = vec![];
    for k in 0..1 + c.src.small(4) as usize {
        if c.src.chance(1, 3) {
            let n = if c.src.chance(1, 40) { 200 + c.src.us(1000) } else { c.src.us(4) };
            let mut a: Vec<J> = (0..n).map(|_| gen_json(c, 1)).collect();
            let i = c.src.us(n + 1);
            a.insert(i, j);
            segs.insert(0, i.to_string());
            j = J::Arr(a);
        } else {
            // often under a name that is in the path already
            let name = match c.src.below(4) {
                0 | 1 if !used.is_empty() => used[k % used.len()].clone(),
                2 => c.src.pick(&["a", "e", "exn", "b", "0", "1", "path_to", "", "x-y"]).to_string(),
                _ => {
                    let n = 1 + c.src.us(6);
                    gen_b64(c, n)
                }
            };
            let n = c.src.us(4);
            let J::Obj(mut o) = gen_obj(c, n, 1, &[name.as_str()]) else { unreachable!() };
            let i = c.src.us(o.len() + 1);
            segs.insert(0, if names(&name) && c.src.chance(3, 4) { name.clone() } else { i.to_string() });
            o.insert(i, (name, j));
            j = J::Obj(o);
        }
    }
    (j, segs)
}

/// a list or a map of hundreds of elements
fn wide(c: &mut Ctx) -> J {
    let n = 200 + c.src.us(1000);
    let inner = |c: &mut Ctx, i: usize| if i % 97 == 5 { gen_json(c, 2) } else { J::Num(i.to_string()) };
    let big = if c.src.chance(2, 3) {
        J::Arr((0..n).map(|i| inner(c, i)).collect())
    } else {
        J::Obj((0..n).map(|i| (format!("k{i}"), inner(c, i))).collect())
    };
    if c.src.chance(1, 2) {
        big
    } else {
        obj(vec![("x", big)])
    }
}

/// a document of many levels
fn deep(c: &mut Ctx) -> J {
    let mut j = gen_json(c, 1);
    for _ in 0..10 + c.src.us(60) {
        j = if c.src.chance(1, 2) {
            J::Arr(vec![J::Null, j])
        } else {
            let l = *c.src.pick(&["x", "a", "name", "0", "e"]);
            obj(vec![("first", s("")), (l, j)])
        };
    }
    j
}

fn value_of(segs: &[String], ints: &[bool]) -> Value {
    let v: Vec<Value> = segs.iter().enumerate().map(|(i, s)| if ints.get(i) == Some(&true) { dat!(s.parse::<i64>().unwrap()) } else { dat!(s.as_str()) }).collect();
    dat!(v.as_slice())
}

/// through text or binary
fn relay(c: &mut Ctx, p: &Pather, want: &str) -> R<Pather> {
    let form = *c.src.pick(&[Form::Text, Form::Bytes, Form::Bin]);
    let text = matter_text("4A", &bext_raw(want).1).1;
    let got = must!(c, "c16/form", "text", p.qb64());
    ensure!(c, got == text, "c16/form", "path {want} travels as {got}, should be {text}");
    let q = match form {
        Form::Text => must!(c, "c16/form", "read", es(Pather::new_with_qb64(&text))),
        Form::Bytes => must!(c, "c16/form", "read", es(p.qb64b().and_then(|b| Pather::new_with_qb64b(&b)))),
        Form::Bin => must!(c, "c16/form", "read", es(p.qb2().and_then(|b| Pather::new_with_qb2(&b)))),
    };
    let b = must!(c, "c16/form", "path text", q.bext());
    ensure!(c, b == want, "c16/form", "path {want} is {b} after transport");
    Ok(q)
}

/// what the path selects is what its segments say
fn resolves(c: &mut Ctx, p: &Pather, bext: &str, doc: &J) -> R<Option<J>> {
    let want = segs_of(bext).and_then(|s| at(doc, &s));
    let v = doc.value();
    let got = lib!(c, "resolve", es(p.resolve(&v)).and_then(|x| es(x.to_json())));
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            ensure!(c, *g == w.text(), "c16/resolve", "{bext} selects {} in {}, should be {}", show(g.as_bytes()), show(doc.text().as_bytes()), show(w.text().as_bytes()))
        }
        (None, Err(_)) => c.probe("unresolvable path is an error"),
        _ => fail!(c, "c16/resolve", "{bext} in {}: {got:?}, should be {:?}", show(doc.text().as_bytes()), want.map(|w| w.text())),
    }
    Ok(want)
}

#[derive(Clone)]
struct Pack {
    doc: J,
    bext: String,
    /// segments of the outer documents, outermost last
    outer: Vec<Segs>,
    hops: u32,
}

/// adding, removing and comparing fronts
fn fronts(c: &mut Ctx, segs: &Segs, other: &Segs) -> R<()> {
    let (a, b) = (text_of(segs), text_of(other));
    let p = must!(c, "c16/make", "path", es(Pather::new_with_bext(&a)));
    let q = must!(c, "c16/make", "path", es(Pather::new_with_bext(&b)));
    let front = segs.starts_with(other);
    let sw = must!(c, "c16/starts", "starts with", es(p.starts_with(&q)));
    ensure!(c, sw == front, "c16/starts", "{a} starts with {b}: {sw}");
    let st = must!(c, "c16/strip", "strip", es(p.strip(&q)).and_then(|x| es(x.bext())));
    let want = if front { text_of(&segs[other.len()..]) } else { a.clone() };
    ensure!(c, st == want, "c16/strip", "{a} without {b} is {st}, should be {want}");
    let rt = must!(c, "c16/root", "root", es(p.root(&q)));
    let rb = must!(c, "c16/root", "path text", rt.bext());
    let mut both = other.clone();
    both.extend(segs.iter().cloned());
    ensure!(c, rb == text_of(&both), "c16/root", "{a} under {b} is {rb}");
    let back = must!(c, "c16/root", "strip", es(rt.strip(&q)).and_then(|x| es(x.bext())));
    ensure!(c, back == a, "c16/root", "{a} under {b} and out again is {back}");
    let still = must!(c, "c16/root", "path text", p.bext());
    ensure!(c, still == a, "c16/changed", "{a} became {still}");
    c.probe(if front { "front removed" } else { "front not there" });
    Ok(())
}

fn hop(c: &mut Ctx, m: &Pack, block: &str, how: usize) -> R<Pack> {
    let mut m = m.clone();
    m.hops += 1;
    let p = must!(c, "c16/make", "path", es(Pather::new_with_bext(&m.bext)));
    let p = relay(c, &p, &m.bext)?;
    let segs = segs_of(&m.bext).unwrap();
    let got = resolves(c, &p, &m.bext, &m.doc)?;
    ensure!(c, got.map(|g| g.text()).as_deref() == Some(block), "c16/model", "reference lost the block");
    if how == 0 || m.outer.is_empty() {
        // into an outer document
        let (doc, front) = embed(c, m.doc.clone(), &segs);
        let root = must!(c, "c16/make", "path", es(Pather::new_with_path(&value_of(&front, &[]))));
        let fb = must!(c, "c16/make", "path text", root.bext());
        ensure!(c, fb == text_of(&front), "c16/make", "{front:?} is {fb}");
        let q = must!(c, "c16/root", "root", es(p.root(&root)));
        let mut all = front.clone();
        all.extend(segs);
        let b = must!(c, "c16/root", "path text", q.bext());
        ensure!(c, b == text_of(&all), "c16/root", "{} under {fb} is {b}", m.bext);
        m.doc = doc;
        m.bext = b;
        m.outer.push(front);
        c.probe("embedded");
    } else {
        // out of it
        let front = m.outer.pop().unwrap();
        let root = must!(c, "c16/make", "path", es(Pather::new_with_bext(&text_of(&front))));
        let root = relay(c, &root, &text_of(&front))?;
        let sw = must!(c, "c16/starts", "starts with", es(p.starts_with(&root)));
        ensure!(c, sw, "c16/starts", "{} does not start with {}", m.bext, text_of(&front));
        let inner = resolves(c, &root, &text_of(&front), &m.doc)?;
        let q = must!(c, "c16/strip", "strip", es(p.strip(&root)));
        let b = must!(c, "c16/strip", "path text", q.bext());
        ensure!(c, b == text_of(&segs[front.len()..]), "c16/strip", "{} without {} is {b}", m.bext, text_of(&front));
        m.doc = inner.unwrap();
        m.bext = b;
        c.probe("extracted");
    }
    let p = must!(c, "c16/make", "path", es(Pather::new_with_bext(&m.bext)));
    let got = resolves(c, &p, &m.bext, &m.doc)?;
    ensure!(c, got.map(|g| g.text()).as_deref() == Some(block), "c16/model", "reference lost the block");
    Ok(m)
}

/// a path altered on the way, in its text or its encoded form
fn damaged(c: &mut Ctx, bext: &str, doc: &J) -> R<()> {
    let (p, text) = if c.src.chance(1, 2) {
        let b = mangle(c, bext.as_bytes());
        let Ok(t) = String::from_utf8(b) else { return Ok(()) };
        let ok = plain(&t);
        let p = lib!(c, "path", es(Pather::new_with_bext(&t)));
        ensure!(c, p.is_ok() == ok, "c16/chars", "path of {t:?}: {:?}", p.map(|_| ()));
        let Ok(p) = p else {
            c.probe("damaged path refused");
            return Ok(());
        };
        // what cannot be told from padding is listed as a limit of the format
        if t.starts_with('A') && t.len() % 4 == 0 {
            return Ok(());
        }
        (p, t)
    } else {
        let b = mangle(c, matter_text("4A", &bext_raw(bext).1).1.as_bytes());
        let tok = read(MATTER, &b).filter(|t| codes_of(Cls::Pather).contains(&t.code.as_str()));
        let p = lib!(c, "path", es(Pather::new_with_qb64b(&b)));
        ensure!(c, p.is_ok() == tok.is_some(), "c16/damaged", "path of {}: {:?}", show(&b), p.map(|_| ()));
        let Ok(p) = p else {
            c.probe("damaged path refused");
            return Ok(());
        };
        let tok = tok.unwrap();
        let Some(t) = derawify(&tok.code, &tok.raw) else { return Ok(()) };
        (p, t)
    };
    let got = lib!(c, "path text", es(p.bext()));
    ensure!(c, got.as_deref() == Ok(text.as_str()), "c16/damaged", "path text is {got:?}, should be {text}");
    let segs = lib!(c, "segments", es(p.path()).and_then(|v| es(v.to_vec())).map(|v| v.iter().map(|x| x.to_string().unwrap_or_default()).collect::<Segs>()));
    ensure!(c, segs.clone().ok() == segs_of(&text), "c16/segments", "segments of {text} are {segs:?}");
    resolves(c, &p, &text, doc)?;
    c.probe("damaged path read");
    Ok(())
}

/// the end of a path in an event: an identifier or a block
fn tails(c: &mut Ctx) -> R<()> {
    let mut m = gen_msg(c);
    while m.ident != "KERI" || m.code != "E" || m.j.str("t") == Some("rct") {
        m = gen_msg(c);
    }
    let serder = must!(c, "c16/event", "event", es(Serder::new_with_raw(&m.bytes)));
    for _ in 0..3 {
        let (segs, ints, block) = place(c, &m.j, 5);
        let p = must!(c, "c16/make", "path", es(Pather::new_with_path(&value_of(&segs, &ints))));
        let got = lib!(c, "tail", es(p.tail(&serder)));
        let want = match &block {
            J::Str(x) => read(MATTER, x.as_bytes()).filter(|t| codes_of(Cls::Saider).contains(&t.code.as_str())).map(|_| x.clone()),
            J::Arr(_) | J::Obj(_) => Some(block.text()),
            _ => None,
        };
        ensure!(c, got.clone().ok() == want, "c16/tail", "tail of {} in {} is {got:?}, should be {want:?}", text_of(&segs), m.brief());
        c.probe(if want.is_some() { "tail" } else { "no tail" });
    }
    Ok(())
}

fn run(c: &mut Ctx) -> R<()> {
    let f = Faults::swarm(c);
    let n = 2 + c.src.us(4);
    let mut net: Net<(usize, Pack)> = Net::new(n, f);
    let mut blocks: Vec<(String, Pack)> = vec![];
    let nd = 1 + c.src.us(3);
    for id in 0..nd {
        c.src.begin();
        let k = 1 + c.src.us(6);
        let kind = c.src.weighted(&[60, 1, 1]);
        let doc = match kind {
            0 => gen_obj(c, k, 4, &[]),
            1 => wide(c),
            _ => deep(c),
        };
        let (segs, ints, block) = place(c, &doc, if kind == 0 { 6 } else { 90 });
        if kind > 0 {
            c.probe("big document");
        }
        let p = must!(c, "c16/make", "path", es(Pather::new_with_path(&value_of(&segs, &ints))));
        let b = must!(c, "c16/make", "path text", p.bext());
        ensure!(c, b == text_of(&segs), "c16/make", "{segs:?} is {b}");
        let sg = must!(c, "c16/make", "segments", es(p.path()).and_then(|v| es(v.to_json())));
        let want = crate::json::strs(&segs).text();
        ensure!(c, sg == want, "c16/segments", "{b} has segments {sg}, should be {want}");
        resolves(c, &p, &b, &doc)?;
        let pack = Pack { doc: doc.clone(), bext: b.clone(), outer: vec![], hops: 0 };
        c.ev(format!("document {id} {} path {b}", show(doc.text().as_bytes())));
        // other paths in front and not in front
        let (o, _, _) = place(c, &doc, 3);
        fronts(c, &segs, &o)?;
        let cut = c.src.us(segs.len() + 1);
        let mut part = segs[..cut].to_vec();
        fronts(c, &segs, &part.clone())?;
        if let Some(l) = part.last_mut() {
            // an element that only begins the same
            if l.len() > 1 && c.src.chance(1, 2) {
                l.pop();
            } else {
                l.push('0');
            }
            fronts(c, &segs, &part)?;
        }
        for _ in 0..2 {
            damaged(c, &b, &doc)?;
        }
        let to = c.src.us(n);
        net.send(c, 0, to, (id, pack.clone()));
        blocks.push((block.text(), pack));
        c.src.end();
    }
    let mut left = 60;
    let most = if c.src.chance(1, 15) { 25 } else { 6 };
    while let Some((to, _, (id, pack))) = net.next(c) {
        if left == 0 {
            break;
        }
        left -= 1;
        c.src.begin();
        let how = c.src.us(2);
        let out = hop(c, &pack, &blocks[id].0, how)?;
        c.ev(format!("node {to} document {id} {} {}", if how == 0 { "in" } else { "out" }, out.bext));
        c.state(mix(hash_str(&out.bext)));
        if c.src.chance(f.corrupt, 1000) {
            damaged(c, &out.bext, &out.doc)?;
        }
        if out.hops > most {
            // the last node takes everything off
            let mut last = out;
            while !last.outer.is_empty() {
                last = hop(c, &last, &blocks[id].0, 1)?;
            }
            let orig = &blocks[id].1;
            ensure!(c, last.bext == orig.bext && last.doc == orig.doc, "c16/origin", "{} is not {} at the end", last.bext, orig.bext);
            c.probe("back to the original");
        } else {
            let next = c.src.us(n);
            net.send(c, to, next, (id, out));
        }
        c.src.end();
    }
    tails(c)
}

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    quick_runs: 12_000,
    quick_secs: 25,
    thorough_secs: 420,
    rule: "one run is one to three nested documents (1 in 30 of hundreds of elements or tens of levels) with a path each, carried by relays that put them into outer documents and take them out again over a network with loss, duplication, delay and reordering, paths damaged on the way; distinct: different event log",
    real: &["Pather (construction, text, binary, root, strip, starts_with, resolve, tail)", "data::Value navigation", "Serder (tail)"],
    stub: &["network, relays, outer documents"],
    assumptions: &["segments of digits are positions, an empty segment is the map it is reached at: both are the format's rules"],
    findings: &[],
    reach: &["embedded", "extracted", "back to the original", "front removed", "front not there", "unresolvable path is an error", "damaged path refused", "damaged path read", "tail", "no tail", "big document"],
};
