//! Isolation: every operation is executed alone in a process forked for it, which gives its result;
//! then by several users of one process, over shared objects, after all kinds of other calls, and on
//! threads that the scheduler switches at any allocation, lock or system call.

use crate::ctx::*;
use crate::items::*;
use crate::json::{s, strs};
use crate::msgs::{fake_dig, gen_msg, gen_thold, Key, Msg};
use crate::mutate::{forged, mangle};
use crate::refc;
use crate::runner::Prop;
use crate::seams;
use crate::src::{mix, Src};
use keride::cesr::common::{deversify, sniff, versify};
use keride::cesr::{Bext, Creder, Diger, Indexer, Matter, Sadder, Saider, Salter, Serder, Siger, Tholder, Verfer};
use keride::data::Value;
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use keride::signify::creating::SaltyCreator;
use keride::signing::Signer;
use std::sync::Arc;

enum Obj {
    Free,
    Verfer(Verfer),
    Signer(Signer),
    Siger(Siger),
    Serder(Serder),
    Creder(Creder),
    Tholder(Tholder),
    Salter(Salter),
    Creator(SaltyCreator),
    Diger(Diger),
    Saider(Saider),
    Pather(Pather),
    Prefixer(Prefixer),
    Value(Value),
}

type Make = Arc<dyn Fn() -> Result<Obj, String> + Send + Sync>;
type Act = Arc<dyn Fn(&Obj) -> String + Send + Sync>;

struct Op {
    name: &'static str,
    on: usize,
    act: Act,
}

/// everything an object shows of itself
fn snap(o: &Obj) -> String {
    fn m<M: Matter>(x: &M) -> String {
        format!("{} {} {} {:?} {:?} {:?}", x.code(), x.size(), hex(&x.raw()), x.qb64().ok(), x.qb64b().ok().map(|b| hex(&b)), x.qb2().ok().map(|b| hex(&b)))
    }
    match o {
        Obj::Free => String::new(),
        Obj::Verfer(x) => m(x),
        Obj::Signer(x) => format!("{} {}", m(x), m(&x.verfer())),
        Obj::Siger(x) => format!("{} {} {} {} {:?} {}", x.code(), x.index(), x.ondex(), hex(&x.raw()), x.qb64().ok(), m(&x.verfer())),
        Obj::Serder(x) => serder(x),
        Obj::Creder(x) => creder(x),
        Obj::Tholder(x) => thold(x),
        Obj::Salter(x) => format!("{} {:?}", m(x), x.tier()),
        Obj::Creator(x) => format!("{:?}", x),
        Obj::Diger(x) => m(x),
        Obj::Saider(x) => m(x),
        Obj::Pather(x) => format!("{} {:?} {:?}", m(x), x.bext().ok(), x.path().ok()),
        Obj::Prefixer(x) => m(x),
        Obj::Value(x) => format!("{:?} {:?}", x, x.to_json().ok()),
    }
}

fn twin(o: &Obj) -> Option<Obj> {
    Some(match o {
        Obj::Verfer(x) => Obj::Verfer(x.clone()),
        Obj::Signer(x) => Obj::Signer(x.clone()),
        Obj::Siger(x) => Obj::Siger(x.clone()),
        Obj::Serder(x) => Obj::Serder(x.clone()),
        Obj::Creder(x) => Obj::Creder(x.clone()),
        Obj::Tholder(x) => Obj::Tholder(x.clone()),
        Obj::Salter(x) => Obj::Salter(x.clone()),
        Obj::Diger(x) => Obj::Diger(x.clone()),
        Obj::Saider(x) => Obj::Saider(x.clone()),
        Obj::Pather(x) => Obj::Pather(x.clone()),
        Obj::Prefixer(x) => Obj::Prefixer(x.clone()),
        Obj::Value(x) => Obj::Value(x.clone()),
        Obj::Free | Obj::Creator(_) => return None,
    })
}

/// its owner changes it
fn change(o: &mut Obj) {
    fn m<M: Matter>(x: &mut M) {
        let mut r = x.raw();
        r.reverse();
        r.push(1);
        x.set_raw(&r);
        x.set_size(77);
        x.set_code("0A");
    }
    match o {
        Obj::Verfer(x) => m(x),
        Obj::Signer(x) => m(x),
        Obj::Siger(x) => {
            x.set_raw(b"none");
            x.set_index(9);
            x.set_ondex(8);
            Indexer::set_code(x, "B");
        }
        Obj::Serder(x) => {
            x.set_raw(b"{}");
            x.set_ked(&keride::data::dat!({}));
            x.set_size(1);
        }
        Obj::Creder(x) => {
            x.set_raw(b"{}");
            x.set_ked(&keride::data::dat!({}));
        }
        Obj::Salter(x) => m(x),
        Obj::Diger(x) => m(x),
        Obj::Saider(x) => m(x),
        Obj::Pather(x) => m(x),
        Obj::Prefixer(x) => m(x),
        Obj::Value(x) => {
            if x.to_map().is_ok() {
                x["d"] = keride::data::dat!(1);
            }
        }
        Obj::Tholder(_) | Obj::Free | Obj::Creator(_) => {}
    }
}

fn texts<M: Matter>(v: Result<Vec<M>, impl std::fmt::Display>) -> String {
    match v {
        Ok(v) => v.iter().map(|x| format!("{:?},", x.qb64().ok())).collect(),
        Err(e) => format!("error {e}"),
    }
}

fn serder(x: &Serder) -> String {
    format!(
        "{} {} {} {} {:?} {:?} {} {:?} k {} n {} b {} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
        show(&x.raw()),
        x.ident(),
        x.kind(),
        x.size(),
        x.version(),
        x.ked(),
        x.code(),
        x.said().ok(),
        texts(x.verfers()),
        texts(x.digers()),
        texts(x.werfers()),
        es(x.tholder()),
        es(x.ntholder()),
        es(x.sn()),
        es(x.fner()),
        es(x.pre()),
        es(x.est()),
        es(x.pretty(Some(40))),
    )
}

fn creder(x: &Creder) -> String {
    format!("{} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", show(&x.raw()), x.said().ok(), es(x.issuer()), es(x.schema()), x.subject(), es(x.status()), x.chains(), x.crd())
}

fn thold(x: &Tholder) -> String {
    format!("{:?} {:?} {:?} {} {} {:?}", es(x.sith()), es(x.limen()), es(x.num()), x.size(), x.weighted(), es(x.to_json()))
}

macro_rules! on {
    ($k:ident, $x:ident, $e:expr) => {
        Arc::new(move |o: &Obj| -> String {
            match o {
                Obj::$k($x) => $e,
                _ => "not made".to_string(),
            }
        }) as Act
    };
}

/// a few of each kind of argument, close to one another, so that operations can be mixed up
struct Pool {
    keys: Vec<Key>,
    bytes: Vec<Vec<u8>>,
    msgs: Vec<Msg>,
    items: Vec<Item>,
}

fn near(c: &mut Ctx, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match c.src.below(4) {
        0 => v.push(b'x'),
        1 if !v.is_empty() => {
            let n = v.len();
            v[n - 1] ^= 1;
        }
        2 if !v.is_empty() => {
            let i = c.src.us(v.len());
            v[i] ^= 1;
        }
        _ => {}
    }
    v
}

fn pool(c: &mut Ctx) -> Pool {
    let keys: Vec<Key> = (0..3)
        .map(|_| {
            let tr = c.src.chance(1, 2);
            Key::gen(c, tr)
        })
        .collect();
    // texts alike at length, or short ones
    let n = if c.src.chance(1, 3) { 60 + c.src.us(300) } else { c.src.small(80) as usize };
    let first = c.src.blob(n);
    let mut bytes = vec![first];
    for _ in 0..3 {
        let b = near(c, &bytes[0].clone());
        bytes.push(b);
    }
    let mut msgs = vec![];
    for _ in 0..3 {
        let m = gen_msg(c);
        // the same message with one value changed, its identifier fitting or not
        let mut j = m.j.clone();
        if let Some(f) = j.fields_mut() {
            let k = f.len();
            f[k - 1].1 = s("changed");
        }
        let (j2, b2, d2) = refc::seal(j.clone(), m.ident, &m.code, &m.labels);
        msgs.push(Msg { j: j2, bytes: b2, said: d2, ..m.clone() });
        refc::resize(&mut j, m.ident);
        msgs.push(Msg { bytes: j.text().into_bytes(), j, ..m.clone() });
        msgs.push(m);
    }
    let mut items = vec![];
    for _ in 0..4 {
        let cls = *c.src.pick(ALL);
        items.push(gen(c, cls));
        items.push(gen(c, cls));
    }
    Pool { keys, bytes, msgs, items }
}

fn key_text(k: &Key) -> String {
    k.text()
}

/// one operation, and the object it is on if it needs one that lives longer
fn op(c: &mut Ctx, p: &Pool, makes: &mut Vec<Make>) -> Op {
    let k = c.src.pick(&p.keys).clone();
    let b = c.src.pick(&p.bytes).clone();
    let b2 = c.src.pick(&p.bytes).clone();
    let m = c.src.pick(&p.msgs).clone();
    let it = c.src.pick(&p.items).clone();
    let mut put = |f: Make| -> usize {
        makes.push(f);
        makes.len() - 1
    };
    let free = |a: Act, name: &'static str| Op { name, on: 0, act: a };
    match c.src.below(32) {
        0 => {
            let form = *c.src.pick(&[Form::Text, Form::Bytes, Form::Bin]);
            let cls = if c.src.chance(3, 4) { it.cls } else { *c.src.pick(ALL) };
            let mut x = if form == Form::Bin { it.bin() } else { it.text.clone().into_bytes() };
            if c.src.chance(1, 3) {
                x = mangle(c, &x);
            }
            let h = it.meaning.clone();
            free(Arc::new(move |_| format!("{:?}", parse_now(cls, form, &x, &h))), "parse")
        }
        1 => {
            let x = forged(c);
            let cls = *c.src.pick(ALL);
            free(Arc::new(move |_| format!("{:?}", parse_now(cls, Form::Bytes, &x, ""))), "parse junk")
        }
        2 => {
            let x = if c.src.chance(1, 2) { mangle(c, &m.bytes) } else { m.bytes.clone() };
            let cr = m.ident == "ACDC";
            let code = m.code.clone();
            free(
                Arc::new(move |_| {
                    if cr {
                        es(Creder::new(Some(&code), Some(&x), None, None, None)).map(|x| creder(&x)).unwrap_or_else(|e| format!("error {e}"))
                    } else {
                        es(Serder::new(Some(&code), Some(&x), None, None, None)).map(|x| serder(&x)).unwrap_or_else(|e| format!("error {e}"))
                    }
                }),
                "event",
            )
        }
        3 | 4 => {
            let (code, bytes) = (m.code.clone(), m.bytes.clone());
            if m.ident == "ACDC" {
                let on = put(Arc::new(move || es(Creder::new(Some(&code), Some(&bytes), None, None, None)).map(Obj::Creder)));
                Op { name: "credential", on, act: on!(Creder, x, creder(x)) }
            } else {
                let on = put(Arc::new(move || es(Serder::new(Some(&code), Some(&bytes), None, None, None)).map(Obj::Serder)));
                let n = c.src.small(300) as usize;
                let w = c.src.below(8);
                Op {
                    name: "event accessors",
                    on,
                    act: on!(Serder, x, match w {
                        0 => serder(x),
                        1 => texts(x.verfers()),
                        2 => texts(x.digers()),
                        3 => format!("{:?}", es(x.tholder())),
                        4 => format!("{:?} {:?}", es(x.sner()), es(x.pre())),
                        5 => format!("{:?}", es(x.pretty(Some(n)))),
                        6 => format!("{:?}", es(x.saider().verify(&x.ked(), Some(true), None, None, None, None))),
                        _ => format!("{:?} {:?}", x.ked(), x.said().ok()),
                    }),
                }
            }
        }
        5 | 6 => {
            let t = matter(&m.code, &m.said);
            let (j, l) = (m.j.value(), m.labels[0]);
            let pre = c.src.chance(1, 2);
            if c.src.chance(1, 2) {
                let on = put(Arc::new(move || es(Saider::new_with_qb64(&t)).map(Obj::Saider)));
                Op { name: "identifier", on, act: on!(Saider, x, format!("{:?}", es(x.verify(&j, Some(pre), None, None, Some(l), None)))) }
            } else {
                let code = c.src.pick(DIGS).to_string();
                free(Arc::new(move |_| format!("{:?}", es(Saider::saidify(&j, Some(&code), None, Some(l), None)).map(|(s, v)| (s.qb64().ok(), v)))), "identify")
            }
        }
        7 | 8 | 9 => {
            let other = c.src.pick(&p.keys).clone();
            let sig = refc::sign(other.suite, &other.seed, &b2);
            let t = key_text(&k);
            let on = put(Arc::new(move || es(Verfer::new_with_qb64(&t)).map(Obj::Verfer)));
            Op { name: "verify", on, act: on!(Verfer, x, format!("{:?} {}", es(x.verify(&sig, &b)), x.transferable())) }
        }
        10 | 11 => {
            let on_k = k.clone();
            let on = put(Arc::new(move || es(Signer::new_with_raw(&on_k.seed, Some(on_k.tr), Some(on_k.suite))).map(Obj::Signer)));
            let (i, o, only) = (c.src.below(100) as u32, c.src.below(100) as u32, c.src.chance(1, 2));
            let idx = c.src.chance(1, 2);
            Op {
                name: "sign",
                on,
                // signatures of one bytes differ by nonce: whether it verifies does not
                act: on!(Signer, x, {
                    let key = x.verfer().raw();
                    if idx {
                        match es(x.sign_indexed(&b, only, i, Some(o))) {
                            Ok(s) => format!("{} {} {} {}", s.code(), s.index(), s.ondex(), refc::verify(&x.verfer().code(), &key, &b, &s.raw())),
                            Err(e) => e,
                        }
                    } else {
                        match es(x.sign_unindexed(&b)) {
                            Ok(s) => format!("{} {} {:?}", s.code(), refc::verify(&x.verfer().code(), &key, &b, &s.raw()), s.verfer().qb64().ok()),
                            Err(e) => e,
                        }
                    }
                }),
            }
        }
        12 | 13 => {
            let n = 1 + c.src.us(5);
            let g = gen_thold(c, n);
            let g = if c.src.chance(1, 5) { strs(&["1/2", "1/2", "1/3"]) } else { g };
            let v = g.value();
            let on = put(Arc::new(move || es(Tholder::new_with_sith(&v)).map(Obj::Tholder)));
            let set: Vec<u32> = (0..c.src.us(6)).map(|_| c.src.below(6) as u32).collect();
            let all = c.src.chance(1, 3);
            Op { name: "threshold", on, act: on!(Tholder, x, if all { thold(x) } else { format!("{:?}", es(x.satisfy(&set))) }) }
        }
        14 | 15 => {
            let salt = p.keys[0].seed[..16].to_vec();
            let alt = c.src.chance(1, 2);
            let on = put(Arc::new(move || {
                let mut s = salt.clone();
                s[15] ^= alt as u8;
                es(Salter::new_with_raw(&s, None, None)).map(Obj::Salter)
            }));
            let path = c.src.pick(&["", "a", "b", "0", "00"]).to_string();
            let (w, tr) = (c.src.below(3), c.src.chance(1, 2));
            let size = *c.src.pick(&[16usize, 32, 64]);
            let code = *c.src.pick(SEEDS);
            Op {
                name: "stretch",
                on,
                act: on!(Salter, x, match w {
                    0 => format!("{:?}", es(x.stretch(Some(size), Some(&path), None, Some(true)))),
                    1 => format!("{:?}", es(x.signer(Some(code), Some(tr), Some(&path), None, Some(true))).map(|s| (s.raw(), s.verfer().qb64().ok()))),
                    _ => format!("{:?}", es(x.signers(Some(2), Some(1), Some(&path), Some(code), Some(tr), None, Some(true))).map(|v| v.iter().map(|s| s.raw()).collect::<Vec<_>>())),
                }),
            }
        }
        16 | 17 => {
            let salt = crate::codec::matter_text("0A", &p.keys[1].seed[..16]).1;
            let stem = if c.src.chance(1, 2) { Some(c.src.pick(&["s", "t", ""]).to_string()) } else { None };
            let on = put(Arc::new(move || es(SaltyCreator::new(Some(&salt), stem.as_deref(), None, None)).map(Obj::Creator)));
            let (pi, ri, ki) = (c.src.below(3) as u16, c.src.below(3) as u16, c.src.below(3) as u16);
            let n = 1 + c.src.below(2) as u16;
            let st = if c.src.chance(1, 3) { Some("q".to_string()) } else { None };
            let code = *c.src.pick(SEEDS);
            Op { name: "create", on, act: on!(Creator, x, format!("{:?}", x.create(None, Some(n), Some(code), Some(pi), Some(ri), Some(ki), st.as_deref(), None, true).iter().map(|s| (s.raw(), s.verfer().qb64().ok())).collect::<Vec<_>>())) }
        }
        18 | 19 => {
            let code = |c: &mut Ctx| if c.src.chance(1, 2) { DIGS[0] } else { *c.src.pick(DIGS) };
            let (ca, cb) = (code(c), code(c));
            let (ta, tb) = (refc::dig_text(ca, &b), refc::dig_text(cb, &b2));
            let on = put(Arc::new(move || es(Diger::new_with_qb64(&ta)).map(Obj::Diger)));
            let ser = c.src.pick(&p.bytes).clone();
            Op { name: "digest", on, act: on!(Diger, x, format!("{:?} {:?} {:?}", es(x.verify(&ser)), es(x.compare(&ser, Some(tb.as_bytes()), None)), es(Diger::new_with_ser(&ser, Some(cb))).map(|d| d.raw()))) }
        }
        20 | 21 => {
            let v = m.j.value();
            let path = c.src.pick(&["-", "-d", "-a", "-k-0", "-i", "-0", "-a-0", "-zz", "-1-1"]).to_string();
            let root = c.src.pick(&["-", "-a", "-a-0", "-k"]).to_string();
            let on = put(Arc::new(move || es(Pather::new_with_bext(&path)).map(Obj::Pather)));
            Op {
                name: "path",
                on,
                act: on!(Pather, x, {
                    let r = Pather::new_with_bext(&root).unwrap();
                    format!("{:?} {:?} {:?} {:?}", es(x.resolve(&v)), es(x.root(&r)).map(|x| x.bext().ok()), es(x.strip(&r)).map(|x| x.bext().ok()), es(x.starts_with(&r)))
                }),
            }
        }
        22 | 23 => {
            let v = m.j.value();
            let code = *c.src.pick(&["E", "D", "B", "F", "1AAA", "1AAB"]);
            if c.src.chance(1, 2) {
                free(Arc::new(move |_| format!("{:?}", es(Prefixer::new_with_ked(&v, None, Some(code))).map(|p| p.qb64().ok()))), "derive prefix")
            } else {
                let t = if c.src.chance(1, 2) { m.said.clone() } else { k.text() };
                let on = put(Arc::new(move || es(Prefixer::new_with_qb64(&t)).map(Obj::Prefixer)));
                let pre = c.src.chance(1, 2);
                Op { name: "verify prefix", on, act: on!(Prefixer, x, format!("{:?}", es(x.verify(&v, Some(pre))))) }
            }
        }
        24 => {
            let n = c.src.below(70_000) as u32;
            let v = if c.src.chance(1, 2) { m.j.str("v").unwrap_or("").to_string() } else { String::from_utf8_lossy(&forged(c)).to_string() };
            free(Arc::new(move |_| format!("{:?} {:?}", es(versify(None, None, None, Some(n))), es(deversify(&v)))), "version string")
        }
        25 => {
            let x = if c.src.chance(1, 3) { mangle(c, &m.bytes) } else { m.bytes.clone() };
            free(Arc::new(move |_| format!("{:?}", es(sniff(&x)))), "sniff")
        }
        26 => {
            let (bytes, code) = (m.bytes.clone(), m.code.clone());
            let raw = c.src.random(64);
            let (i, d) = (fake_dig(c, "E"), fake_dig(c, "E"));
            let last = c.src.chance(1, 2);
            let n = 1 + c.src.us(3);
            free(
                Arc::new(move |_| {
                    let sg: Vec<Siger> = (0..n).filter_map(|i| Siger::new_with_raw(&raw, None, Some(i as u32), None, Some("B")).ok()).collect();
                    match Serder::new(Some(&code), Some(&bytes), None, None, None) {
                        Ok(x) => format!("{:?}", es(keride::messaging::sim_messagize(&x, Some(&sg), Some((&i, "1", &d, last)), None, None))),
                        Err(e) => format!("error {e}"),
                    }
                }),
                "frame",
            )
        }
        27 => {
            let t = m.j.value();
            let on = put(Arc::new(move || Ok(Obj::Value(t.clone()))));
            Op { name: "value", on, act: on!(Value, x, format!("{:?} {:?} {:?}", x.to_json().ok(), x.to_map().map(|m| m.len()).ok(), x.to_string().ok())) }
        }
        28 => {
            let raw = refc::sign(k.suite, &k.seed, &b);
            let code = match k.suite {
                "A" => "A",
                "J" => "C",
                _ => "E",
            };
            let i = c.src.below(60) as u32;
            let t = key_text(&k);
            let on = put(Arc::new(move || {
                let v = es(Verfer::new_with_qb64(&t))?;
                es(Siger::new_with_raw(&raw, Some(&v), Some(i), None, Some(code))).map(Obj::Siger)
            }));
            Op { name: "indexed signature", on, act: on!(Siger, x, format!("{:?} {}", es(x.verfer().verify(&x.raw(), &b2)), x.index())) }
        }
        29 | 30 => {
            let (w, x) = (c.src.below(WRONGS), c.src.below(1 << 20));
            let (v, t) = (m.j.value(), key_text(&k));
            free(Arc::new(move |_| wrong(w, x, &v, &t)), "wrong arguments")
        }
        _ => {
            let pre = fake_dig(c, "E");
            let d = fake_dig(c, "E");
            let n = c.src.below(20) as u128;
            free(Arc::new(move |_| format!("{:?}", es(keride::receipting::sim_receipt(&pre, n, &d, None, None)).map(|x| show(&x.raw())))), "receipt")
        }
    }
}

fn matter(_code: &str, said: &str) -> String {
    said.to_string()
}

fn do_op(o: &Obj, op: &Op) -> String {
    match seams::guarded(|| (op.act)(o)) {
        Ok(s) => s,
        Err(p) => format!("panic {p}"),
    }
}

/// in a process of its own, that has done nothing before
fn alone(make: &Make, op: &Op) -> Option<String> {
    let mut fd = [0i32; 2];
    unsafe {
        if libc::pipe(fd.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid < 0 {
            return None;
        }
        if pid == 0 {
            libc::close(fd[0]);
            let r = match seams::guarded(|| make()) {
                Ok(Ok(o)) => {
                    let a = do_op(&o, op);
                    format!("{a}\u{1}{}", seams::guarded(|| snap(&o)).unwrap_or_default())
                }
                Ok(Err(e)) => format!("not made: {e}"),
                Err(p) => format!("panic {p}"),
            };
            let mut b = r.as_bytes();
            while !b.is_empty() {
                let n = libc::write(fd[1], b.as_ptr() as *const libc::c_void, b.len());
                if n <= 0 {
                    break;
                }
                b = &b[n as usize..];
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut out = vec![];
        let mut buf = [0u8; 8192];
        loop {
            let n = libc::read(fd[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if !libc::WIFEXITED(st) {
            return None;
        }
        Some(String::from_utf8_lossy(&out).to_string())
    }
}

fn split(r: &str) -> (String, Option<String>) {
    match r.split_once('\u{1}') {
        Some((a, b)) => (a.to_string(), Some(b.to_string())),
        None => (r.to_string(), None),
    }
}

fn cut(s: &str) -> String {
    s.chars().take(400).collect()
}

fn build(c: &mut Ctx, mk: &Make, want: &str) -> R<Option<Arc<Obj>>> {
    let mk = mk.clone();
    match c.call_raw(move || mk()) {
        Ok(Ok(o)) => Ok(Some(Arc::new(o))),
        Ok(Err(e)) => {
            ensure!(c, want == format!("not made: {e}"), "c18/made", "object is refused with {e}, alone: {}", cut(want));
            Ok(None)
        }
        Err(p) => {
            ensure!(c, want == format!("panic {p}"), "c18/made", "object panics with {p}, alone: {}", cut(want));
            Ok(None)
        }
    }
}

/// a process that has been busy for long: thousands of operations with ever new arguments, some again and
/// again, some that must fail, on objects as old as the process and on new ones; each has to be right
const WRONGS: u64 = 18;

/// a call with an argument that it must refuse
fn wrong(w: u64, x: u64, v: &Value, key: &str) -> String {
    let name = ["CBOR", "MGPK", "", "json", "X", "é"][x as usize % 6];
    match w {
        0 => format!("{:?}", es(Serder::new(None, None, Some(name), Some(v), None)).map(|x| x.raw())),
        1 => format!("{:?}", es(Saider::saidify(v, None, Some(name), None, None)).map(|x| x.1)),
        2 => format!("{:?}", es(versify(Some(name), None, None, Some(10)))),
        3 => format!("{:?}", es(versify(None, None, Some(name), Some(10)))),
        4 => format!("{:?}", es(versify(None, None, None, Some((1 << 24) + x as u32)))),
        5 => format!("{:?}", es(Saider::saidify(v, Some(name), None, None, None)).map(|x| x.1)),
        6 => format!("{:?}", es(Signer::new_with_raw(&[7; 12], None, Some(["A", "J", "Q", "B"][x as usize % 4]))).map(|x| x.raw())),
        7 => format!("{:?}", es(Salter::new_with_raw(&[7; 9], None, Some(name))).map(|x| x.raw())),
        8 => format!("{:?}", es(Tholder::new_with_sith(&strs(&["1/2", ["1/3", "2", "x", "-1", "1/0", ""][x as usize % 6]]).value())).map(|x| thold(&x))),
        9 => format!("{:?}", es(Tholder::new_with_limen(key.as_bytes())).map(|x| thold(&x))),
        10 => format!("{:?}", es(Pather::new_with_bext(["", "a", "-a b", "é"][x as usize % 4])).and_then(|p| es(p.resolve(v)))),
        11 => format!("{:?}", es(Pather::new_with_bext(&format!("-zz-{x}"))).and_then(|p| es(p.resolve(v)))),
        12 => format!("{:?}", es(keride::cesr::Counter::new_with_code_and_count(["-A", "-V", "-0V", "-Z"][x as usize % 4], 1 << 31)).map(|x| x.count())),
        13 => format!("{:?}", es(Siger::new_with_raw(&[9; 64], None, Some(64 + x as u32), None, Some("A"))).map(|x| x.index())),
        14 => format!("{:?}", es(Verfer::new_with_qb64(key)).and_then(|k| es(k.verify(&vec![3; x as usize % 80], b"text")))),
        15 => format!("{:?}", es(Diger::new_with_ser(b"text", Some(name))).map(|x| x.raw())),
        16 => format!("{:?}", es(Prefixer::new_with_ked(v, None, Some(name))).map(|x| x.raw())),
        _ => format!("{:?}", es(keride::cesr::Dater::new_with_dts(&format!("2020-{x}-41T00:00:00.000000+00:00"), None)).map(|x| x.raw())),
    }
}

fn busy(c: &mut Ctx) -> R<()> {
    let kind = c.src.below(9);
    let n = match kind {
        3 => 50 << c.src.below(4),
        6 => 50 << c.src.below(5),
        _ => 100u64 << c.src.below(6),
    } as usize;
    let k = Key::gen(c, true);
    let code = *c.src.pick(DIGS);
    let base = {
        let n = c.src.small(100) as usize;
        c.src.blob(n)
    };
    let mut r = Src::seeded(c.src.u64());
    let ser = |i: usize| {
        let mut b = base.clone();
        b.extend((i as u32).to_be_bytes());
        b
    };
    c.fault("long-lived process");
    c.ev(format!("process busy: kind {kind}, {n} times, {code}, {} bytes", base.len()));
    // the next one is new or was there before
    let mut made = 0;
    let (doc, key) = (gen_msg(c).j.value(), key_text(&k));
    let errs = c.src.chance(1, 2);
    if errs {
        c.fault("refused calls");
    }
    let kinds = [0; 3].map(|_| r.below(WRONGS));
    let mut turn = move |r: &mut Src| -> (usize, usize) {
        if errs && r.chance(1, 2) {
            let (w, x) = (*r.pick(&kinds), r.below(1 << 20));
            let _ = seams::guarded(|| wrong(w, x, &doc, &key));
        }
        let i = if made == 0 || r.chance(2, 3) {
            made += 1;
            made - 1
        } else if r.chance(1, 2) {
            made - 1 - r.us(made.min(4))
        } else {
            r.us(made)
        };
        // the same or another one
        let j = if r.chance(1, 2) { i } else { r.us(made) };
        (i, j)
    };
    let mut sigs: Vec<Vec<u8>> = vec![];
    let mut items: Vec<Item> = vec![];
    let mut tholds: Vec<(crate::props::c06::T, Value, Option<Tholder>)> = vec![];
    let salt = c.src.random(16);
    match kind {
        0 => {
            let old = must!(c, "c18/busy", "digest", Diger::new(Some(&ser(0)), Some(code), None, None, None, None));
            for _ in 0..n {
                let (i, j) = turn(&mut r);
                let (a, b) = (ser(i), ser(j));
                let d = must!(c, "c18/busy", "digest", Diger::new(Some(&a), Some(code), None, None, None, None));
                let got = (es(d.qb64()), es(d.verify(&b)), es(old.verify(&b)), es(old.compare(&b, None, Some(&d))));
                let want = (Ok(refc::dig_text(code, &a)), Ok(i == j), Ok(j == 0), Ok(i == 0));
                ensure!(c, got == want, "c18/busy", "after {i} others: digests give {got:?}, should {want:?}");
            }
        }
        1 | 2 => {
            let v0 = must!(c, "c18/busy", "key", Verfer::new_with_qb64(&k.text()));
            let s0 = must!(c, "c18/busy", "signer", Signer::new_with_raw(&k.seed, Some(true), Some(k.suite)));
            for _ in 0..n / 2 {
                let (i, j) = turn(&mut r);
                let (a, b) = (ser(i), ser(j));
                if sigs.len() <= i {
                    let g = if kind == 1 { refc::sign(k.suite, &k.seed, &a) } else { must!(c, "c18/busy", "sign", s0.sign_unindexed(&a)).raw() };
                    ensure!(c, kind == 1 || refc::verify(k.ver_code(), &k.public(), &a, &g), "c18/busy", "signature {i} is not one");
                    sigs.push(g);
                }
                let got = lib!(c, "verify", es(v0.verify(&sigs[i], &b)));
                ensure!(c, got == Ok(i == j), "c18/busy", "after {i} others: a signature of {i} verifies for {j}: {got:?}");
                if r.chance(1, 4) {
                    let v = must!(c, "c18/busy", "key", Verfer::new_with_qb64(&k.text()));
                    let got = lib!(c, "verify", es(v.verify(&sigs[i], &b)));
                    ensure!(c, got == Ok(i == j), "c18/busy", "after {i} others: a signature of {i} verifies for {j}: {got:?}");
                }
            }
        }
        3 => {
            for _ in 0..n {
                let (i, j) = turn(&mut r);
                if items.len() <= i {
                    let cls = *c.src.pick(ALL);
                    items.push(gen(c, cls));
                }
                let x = &items[i];
                let form = if x.text.len() % 4 == 0 { *r.pick(&[Form::Text, Form::Bytes, Form::Bin]) } else { Form::Bytes };
                let b = if form == Form::Bin { x.bin() } else { x.text.clone().into_bytes() };
                if i != j {
                    // something damaged before
                    let mut b = items[j].text.clone().into_bytes();
                    let at = r.us(b.len());
                    b[at] ^= 1 << r.us(7);
                    let cls = x.cls;
                    let _ = c.call_raw(|| drop(parse_now(cls, Form::Bytes, &b, "")));
                }
                match parse(c, x.cls, form, &b, &x.meaning)? {
                    Ok(g) => {
                        if let Some(d) = differs(x, &g) {
                            fail!(c, "c18/busy", "after {i} others: {d}");
                        }
                    }
                    Err(e) => fail!(c, "c18/busy", "after {i} others: {} is refused: {e:?}", x.brief()),
                }
            }
        }
        4 => {
            let j0 = |i: usize| crate::json::obj(vec![("d", s("")), ("n", crate::json::J::Num(i.to_string())), ("x", s(&hex(&base)))]);
            for _ in 0..n / 2 {
                let (i, j) = turn(&mut r);
                let (_, _, want) = refc::seal(j0(i), "KERI", code, &["d"]);
                let (sd, ked) = must!(c, "c18/busy", "seal", Saider::saidify(&j0(i).value(), Some(code), None, None, None));
                let mut other = j0(j).value();
                if r.chance(1, 2) {
                    other["d"] = Value::from(&want);
                }
                let got = lib!(c, "verify", (es(sd.qb64()), es(sd.verify(&ked, Some(true), None, None, None, None)), es(sd.verify(&other, None, None, None, None, None))));
                ensure!(c, got == (Ok(want), Ok(true), Ok(i == j)), "c18/busy", "after {i} others: identifier of {i} and for {j}: {got:?}");
            }
        }
        5 => {
            for _ in 0..n {
                let (i, j) = turn(&mut r);
                if tholds.len() <= i {
                    let size = 1 + c.src.us(6);
                    let t = crate::props::c07::gen_t(c, size);
                    let v = t.written(c).value();
                    tholds.push((t, v, None));
                }
                let seen: Vec<u32> = (0..7).filter(|_| r.chance(1, 2)).collect();
                for at in [i, j] {
                    let (t, v, o) = &mut tholds[at];
                    if o.is_none() || r.chance(1, 2) {
                        let x = must!(c, "c18/busy", "threshold", Tholder::new_with_sith(v));
                        let l = must!(c, "c18/busy", "stored form", x.limen());
                        *o = Some(if r.chance(1, 2) { x } else { must!(c, "c18/busy", "read back", Tholder::new_with_limen(&l)) });
                    }
                    let got = lib!(c, "satisfy", es(o.as_ref().unwrap().satisfy(&seen)));
                    ensure!(c, got == Ok(t.satisfied(&seen)), "c18/busy", "after {i} others: {t:?} by {seen:?}: {got:?}");
                }
            }
        }
        6 => {
            let s0 = must!(c, "c18/busy", "salt", Salter::new_with_raw(&salt, None, Some("low")));
            let text = must!(c, "c18/busy", "salt", s0.qb64());
            let c0 = must!(c, "c18/busy", "creator", SaltyCreator::new(Some(&text), None, Some("low"), None));
            for _ in 0..n {
                let (i, j) = turn(&mut r);
                let i = i * 7;
                let path = format!("{i:x}{:x}{:x}", j, 0);
                let want = hex(&refc::stretch(path.as_bytes(), &salt, 32, "min"));
                let a = must!(c, "c18/busy", "derive", s0.signer(Some(k.suite), None, Some(&path), None, Some(true)));
                ensure!(c, hex(&a.raw()) == want, "c18/busy", "after {i} others: key of path {path:?} is another");
                let b = lib!(c, "derive", c0.create(None, Some(1), Some(k.suite), Some(i as u16), Some(j as u16), Some(0), None, None, true));
                ensure!(c, b.len() == 1 && hex(&b[0].raw()) == want, "c18/busy", "after {i} others: key of path {path:?} of a creator is another");
            }
        }
        7 => {
            let mut msgs: Vec<Msg> = vec![];
            let mut seen: Vec<String> = vec![];
            for _ in 0..n / 4 {
                let (i, j) = turn(&mut r);
                if msgs.len() <= i {
                    let m = gen_msg(c);
                    let (j, bytes, said) = refc::seal(m.j.clone(), m.ident, &m.code, &m.labels);
                    msgs.push(Msg { j, bytes, said, ..m });
                }
                for at in [i, j] {
                    let m = msgs[at].clone();
                    let read = r.chance(1, 2);
                    let kind = if r.chance(1, 2) { None } else { Some("JSON") };
                    let tail = r.chance(1, 2);
                    let got = lib!(c, "event", {
                        let v = m.j.value();
                        let mut b = m.bytes.clone();
                        if tail {
                            b.extend(b"-AAB");
                        }
                        let (raw, ked) = if read { (Some(&b[..]), None) } else { (None, Some(&v)) };
                        if m.ident == "ACDC" {
                            es(Creder::new(Some(&m.code), raw, kind, ked, None)).map(|x| (x.raw(), es(x.said()), creder(&x), es(x.saider().verify(&x.crd(), None, None, None, Some(m.labels[0]), None))))
                        } else {
                            es(Serder::new(Some(&m.code), raw, kind, ked, None)).map(|x| (x.raw(), es(x.said()), serder(&x), es(x.saider().verify(&x.ked(), None, None, None, Some(m.labels[0]), None))))
                        }
                    });
                    let (raw, said, all, fits) = match got {
                        Ok(g) => g,
                        Err(e) => fail!(c, "c18/busy", "after {i} others: {} is refused: {e}", m.brief()),
                    };
                    ensure!(c, raw == m.bytes && said.as_ref() == Ok(&m.said), "c18/busy", "after {i} others: {} reads {said:?} {}", m.brief(), show(&raw));
                    if m.labels.len() == 1 {
                        ensure!(c, fits == Ok(true), "c18/busy", "after {i} others: {} does not hold: {fits:?}", m.brief());
                    }
                    if seen.len() == at {
                        seen.push(all);
                    } else {
                        ensure!(c, seen[at] == all, "c18/busy", "after {i} others: {} is {all}, was {}", m.brief(), seen[at]);
                    }
                }
            }
        }
        _ => {
            let s0 = must!(c, "c18/busy", "signer", Signer::new_with_raw(&k.seed, Some(true), Some(k.suite)));
            let table = must!(c, "c18/busy", "key", Verfer::new_with_qb64(&k.text()));
            for _ in 0..n / 4 {
                let (i, j) = turn(&mut r);
                let (a, b) = (ser(i), ser(j));
                let only = r.chance(1, 3);
                let at = r.us(4096) as u32;
                let ondex = if only { None } else { Some(r.us(4096) as u32) };
                let g = must!(c, "c18/busy", "sign", s0.sign_indexed(&a, only, at, ondex));
                let t = must!(c, "c18/busy", "text", g.qb64());
                let x = must!(c, "c18/busy", "read", Siger::new_with_qb64(&t, None));
                let got = (x.index(), x.ondex(), x.raw() == g.raw(), lib!(c, "verify", es(table.verify(&x.raw(), &b))));
                let want = (at, if only { 0 } else { ondex.unwrap() }, true, Ok(i == j));
                ensure!(c, got == want, "c18/busy", "after {i} others: signature {t} of {i} at {at} {ondex:?} reads {got:?} for {j}");
            }
        }
    }
    c.probe("long-lived process");
    Ok(())
}

fn run(c: &mut Ctx) -> R<()> {
    let p = pool(c);
    let mut makes: Vec<Make> = vec![Arc::new(|| Ok(Obj::Free))];
    let mut ops: Vec<Op> = vec![];
    let n = 2 + c.src.small(12) as usize;
    for _ in 0..n {
        c.src.begin();
        let o = op(c, &p, &mut makes);
        ops.push(o);
        c.src.end();
    }
    // some operations on an object another one has
    for i in 0..ops.len() {
        if ops[i].on != 0 && c.src.chance(1, 3) {
            let j = c.src.us(ops.len());
            if ops[j].name == ops[i].name {
                ops[i].on = ops[j].on;
            }
        }
    }
    // the results when nothing else happens; entropy and clock are others each time
    let mut want: Vec<String> = vec![];
    for o in &ops {
        seams::entropy_seed(c.src.u64());
        seams::set_clock(c.src.below(4_000_000_000) as i64, 0);
        match alone(&makes[o.on], o) {
            Some(w) => want.push(w),
            None => {
                ensure!(c, false, "c18/died", "{} ends the process", o.name);
            }
        }
    }
    let total: u64 = want.iter().map(|w| crate::src::hash_str(w)).fold(0, |a, b| mix(a ^ b));
    c.ev(format!("{:?} give {total:x} alone", ops.iter().map(|o| o.name).collect::<Vec<_>>()));
    seams::entropy_seed(c.src.u64());
    seams::set_clock(c.src.below(4_000_000_000) as i64, 0);
    if c.src.chance(1, 60) {
        busy(c)?;
    }
    // objects that live on
    let mut objs: Vec<Option<Arc<Obj>>> = vec![None; makes.len()];
    let rounds = 1 + c.src.small(30);
    for _ in 0..rounds {
        c.src.begin();
        c.advance(1_000_000);
        let i = c.src.us(ops.len());
        let at = ops[i].on;
        // a new object, or the one that was used before
        if objs[at].is_none() || c.src.chance(1, 4) {
            objs[at] = build(c, &makes[at], &want[i])?;
        }
        let Some(o) = objs[at].clone() else {
            c.src.end();
            continue;
        };
        let (w, sn) = split(&want[i]);
        match c.src.below(6) {
            0 => {
                // a clone does the work and is changed, the original stays
                if let Some(mut t) = lib!(c, "clone", twin(&o)) {
                    let got = do_op(&t, &ops[i]);
                    ensure!(c, got == w, "c18/clone", "{} by a clone: {} alone: {}", ops[i].name, cut(&got), cut(&w));
                    lib!(c, "change", change(&mut t));
                    c.probe("clone changed");
                }
            }
            1 => {
                // the original is changed, its clone stays
                if let Some(mut t) = lib!(c, "clone", twin(&o)) {
                    if let Some(t2) = lib!(c, "clone", twin(&t)) {
                        lib!(c, "change", change(&mut t));
                        drop(t);
                        let got = lib!(c, "look", snap(&t2));
                        ensure!(c, Some(&got) == sn.as_ref(), "c18/clone", "clone is {}, original was {:?}", cut(&got), sn.map(|x| cut(&x)));
                    }
                }
            }
            2 => {
                // time passes, entropy is drawn, other things fail
                seams::set_clock(c.src.below(4_000_000_000) as i64, 5);
                let k = c.src.below(4);
                let junk = forged(c);
                let _ = c.call_raw(move || match k {
                    0 => drop(Signer::new_with_defaults(None, None)),
                    1 => drop(Salter::new_with_defaults(None)),
                    2 => drop(keride::cesr::Dater::new(None, None, None, None, None, None)),
                    _ => drop((Serder::new_with_raw(&junk), Verfer::new_with_qb64b(&junk), Tholder::new_with_limen(&junk))),
                });
                c.fault("other users' calls");
            }
            _ => {}
        }
        let got = do_op(&o, &ops[i]);
        c.calls += 1;
        ensure!(c, got == w, "c18/history", "{}: {} alone: {}", ops[i].name, cut(&got), cut(&w));
        if got.contains("rror") || got.contains("Err(") {
            c.probe("failed the same");
        }
        if let Some(sn) = &sn {
            let now = lib!(c, "look", snap(&o));
            ensure!(c, now == *sn, "c18/object", "{} left {} where there was {}", ops[i].name, cut(&now), cut(sn));
        }
        c.src.end();
    }
    // several users at once, on the same objects and on their own
    let nt = 2 + c.src.us(3);
    let shared: Arc<Vec<Op>> = Arc::new(ops);
    let makes: Arc<Vec<Make>> = Arc::new(makes);
    let mut common: Vec<Option<Arc<Obj>>> = vec![None; makes.len()];
    for (i, o) in shared.iter().enumerate() {
        if common[o.on].is_none() && split(&want[i]).1.is_some() && c.src.chance(2, 3) {
            common[o.on] = build(c, &makes[o.on], &want[i])?;
        }
    }
    let common = Arc::new(common);
    let mean = [3u64, 20, 150][c.src.us(3)];
    let seed = c.src.u64();
    let mut bodies: Vec<Box<dyn FnOnce() -> Vec<(usize, String, Option<String>)> + Send>> = vec![];
    for _ in 0..nt {
        let list: Vec<usize> = (0..1 + c.src.small(8)).map(|_| c.src.us(shared.len())).collect();
        let (shared, makes, common) = (shared.clone(), makes.clone(), common.clone());
        bodies.push(Box::new(move || {
            list.into_iter()
                .map(|i| {
                    let op = &shared[i];
                    let o = match &common[op.on] {
                        Some(o) => o.clone(),
                        None => match seams::guarded(|| makes[op.on]()) {
                            Ok(Ok(o)) => Arc::new(o),
                            Ok(Err(e)) => return (i, format!("not made: {e}"), None),
                            Err(p) => return (i, format!("panic {p}"), None),
                        },
                    };
                    let r = do_op(&o, op);
                    let sn = seams::guarded(|| snap(&o)).ok();
                    (i, r, sn)
                })
                .collect()
        }));
    }
    let (res, sched) = seams::run_threads(Src::seeded(seed), mean, bodies);
    c.ev(format!("{nt} threads, {} switches, order {:x}", sched.switches, sched.hash));
    c.state(sched.hash);
    if sched.switches > 0 {
        c.probe("threads interleaved");
    }
    for (t, list) in res.into_iter().enumerate() {
        for (i, r, sn) in list {
            let (w, ws) = split(&want[i]);
            c.calls += 1;
            ensure!(c, r == w, "c18/threads", "{} on thread {t}: {} alone: {}", shared[i].name, cut(&r), cut(&w));
            ensure!(c, sn == ws, "c18/object", "{} on thread {t} left {:?} where there was {:?}", shared[i].name, sn.map(|x| cut(&x)), ws.map(|x| cut(&x)));
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    quick_runs: 12_000,
    quick_secs: 28,
    thorough_secs: 420,
    rule: "one run is two to fourteen operations with arguments close to one another, each executed in a process of its own and then in a history on long-lived objects and on two to four threads in lock step switched at allocations and locks, or (1 in 60) a long-lived process doing hundreds to thousands of operations of one kind with refused calls in between, each compared with the reference; distinct: different event log (operations, results and order of switches)",
    real: &["all public operations of the library except those that only create random values"],
    stub: &["thread scheduler, entropy, clock"],
    assumptions: &["a process forked before the library is used is the pristine state", "threads switch at allocations, locks and system calls of the library, not between other instructions"],
    findings: &[],
    reach: &["threads interleaved", "long-lived process", "clone changed", "failed the same"],
};
