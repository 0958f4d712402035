//! Primitives through relays: a sender, a chain of relays that convert and regroup, a receiver.

use crate::ctx::*;
use crate::items::*;
use crate::net::*;
use crate::runner::Prop;
use crate::src::{hash_str, mix};
use keride::cesr::{Bext, Matter};

#[derive(Clone, Debug)]
enum M {
    /// items a..b in this form, noise after them
    Frame { a: usize, b: usize, form: Form, bytes: Vec<u8>, noise: usize },
    Ack { a: usize, b: usize },
    Tick,
    Back,
}

pub fn any_form(c: &mut Ctx) -> Form {
    *c.src.pick(&[Form::Text, Form::Bytes, Form::Bin])
}

/// read items a..b from the bytes as a node does: one after the other from the head of what is left
pub fn read_frame(c: &mut Ctx, items: &[Item], a: usize, b: usize, form: Form, bytes: &[u8], noise: usize) -> R<Vec<Got>> {
    let mut pos = 0;
    let mut out = vec![];
    for it in &items[a..b] {
        let mut cls = it.cls;
        // a reader that only knows the families
        if !matches!(cls, Count | Siger | AnyIdx) && c.src.chance(1, 8) {
            cls = Any;
        }
        if cls == Siger && c.src.chance(1, 8) {
            cls = AnyIdx;
        }
        let mut want = it.clone();
        if cls != it.cls {
            want.cls = cls;
            want.meaning = String::new();
        }
        let got = parse(c, cls, form, &bytes[pos..], &it.meaning)?;
        c.checks += 1;
        match got {
            Err(e) => return c.done("c01/refused", format!("{} in {form:?} as {cls:?}: {e}", it.brief())),
            Ok(g) => {
                if let Some(d) = differs(&want, &g) {
                    return c.done("c01/changed", format!("{form:?}: {d}"));
                }
                pos += if form == Form::Bin { g.bin.len() } else { g.len };
                out.push(g);
            }
        }
    }
    ensure!(c, pos + noise == bytes.len(), "c01/consumed", "consumed {pos} of {}", bytes.len() - noise);
    Ok(out)
}

fn write_frame(c: &mut Ctx, gots: &[&Got], form: Form) -> (Vec<u8>, usize) {
    let mut out = vec![];
    for g in gots {
        match form {
            Form::Text => out.extend_from_slice(g.text.as_bytes()),
            Form::Bytes => out.extend_from_slice(&g.textb),
            Form::Bin => out.extend_from_slice(&g.bin),
        }
    }
    // what follows on the stream is none of a reader's business
    let mut noise = 0;
    if c.src.chance(1, 4) {
        let n = if form == Form::Text {
            c.src.pick(&["", "é", "A", "-", "{\"v\"", "世界", "\u{0}", "====", "AAAA\n"]).as_bytes().to_vec()
        } else {
            let k = 1 + c.src.small(20) as usize;
            c.src.blob(k)
        };
        noise = n.len();
        out.extend_from_slice(&n);
    }
    (out, noise)
}

fn run(c: &mut Ctx) -> R<()> {
    let relays = c.src.us(4);
    let last = relays + 1;
    let f = Faults::swarm(c);
    let mut net: Net<M> = Net::new(last + 1, f);
    let n = 1 + c.src.small(24) as usize;
    let mut items = vec![];
    let mut built = vec![];
    for _ in 0..n {
        c.src.begin();
        let cls = *c.src.pick(ALL);
        let it = gen(c, cls);
        match build(c, &it)? {
            Err(e) => fail!(c, "c01/construct", "{} cannot be made: {e}", it.brief()),
            Ok(g) => {
                c.checks += 1;
                if let Some(d) = differs(&it, &g) {
                    fail!(c, "c01/encode", "{d}");
                }
                built.push(g)
            }
        }
        c.ev(format!("item {} {} {}", items.len(), it.brief(), it.meaning));
        c.state(mix(hash_str(&it.code) ^ it.raw.len() as u64 ^ ((it.cls as u64) << 40)));
        items.push(it);
        c.src.end();
    }
    if c.src.chance(1, 8) {
        // what is not Base64 is not taken for it
        let it = gen(c, Bexter);
        let mut t: Vec<char> = it.meaning.chars().collect();
        let at = c.src.us(t.len() + 1);
        t.insert(at, *c.src.pick(&['=', '+', '/', '\n', ' ', '.', 'é', '\0', '~']));
        let t: String = t.into_iter().collect();
        let r = c.call_raw(|| es(keride::cesr::Bexter::new_with_bext(&t)).and_then(|b| es(b.qb64())));
        c.fault("text that is not Base64");
        c.checks += 1;
        if let Ok(Ok(x)) = r {
            fail!(c, "c01/invalid", "{t:?} is not Base64 and becomes {x}");
        }
    }
    // what each node holds: durable at relays, by item
    let mut disk: Vec<Vec<(usize, usize, Form, Vec<u8>, usize)>> = vec![vec![]; last + 1];
    let mut have: Vec<Option<Got>> = vec![None; n];
    let mut acked = vec![false; n];
    let mut rounds = 0u64;
    net.after(c, 0, 0, M::Tick);
    let mut steps = 0;
    while let Some((to, from, m)) = net.next(c) {
        steps += 1;
        if steps == 300 {
            net.heal();
        }
        c.src.begin();
        match m {
            M::Tick => {
                // the sender sends what is not acknowledged, in frames of its choosing
                rounds += 1;
                if rounds > 40 {
                    net.heal();
                }
                ensure!(c, rounds < 60, "c01/progress", "items {:?} never arrive", acked);
                let mut a = 0;
                while a < n {
                    if acked[a] {
                        a += 1;
                        continue;
                    }
                    let b = (a + 1 + c.src.small(8) as usize).min(n);
                    let form = any_form(c);
                    let gots: Vec<&Got> = built[a..b].iter().collect();
                    let (bytes, noise) = write_frame(c, &gots, form);
                    c.ev(format!("send {a}..{b} {form:?}"));
                    net.send(c, 0, 1, M::Frame { a, b, form, bytes, noise });
                    a = b;
                }
                if acked.iter().any(|x| !x) {
                    net.after(c, 0, 5000 * MS, M::Tick);
                }
            }
            M::Frame { a, b, form, bytes, noise } => {
                let gots = read_frame(c, &items, a, b, form, &bytes, noise)?;
                c.ev(format!("node {to} read {a}..{b} {form:?}"));
                c.state(mix((to as u64) << 48 ^ (a as u64) << 24 ^ (b as u64) << 8 ^ form as u64));
                if to == last {
                    for (i, g) in (a..b).zip(gots) {
                        if have[i].is_some() {
                            c.probe("received again");
                        }
                        have[i] = Some(g);
                    }
                    net.send(c, to, 0, M::Ack { a, b });
                } else {
                    // convert, regroup, store, pass on
                    let mut at = a;
                    while at < b {
                        let e = if c.src.chance(1, 2) { b } else { (at + 1 + c.src.us(b - at)).min(b) };
                        let f2 = any_form(c);
                        if f2 != form {
                            c.probe("domain changed");
                        }
                        let gs: Vec<&Got> = gots[at - a..e - a].iter().collect();
                        let (by, noise) = write_frame(c, &gs, f2);
                        disk[to].push((at, e, f2, by.clone(), noise));
                        if net.crashes(c) {
                            c.ev(format!("node {to} crashes"));
                            net.crash(c, to, M::Back);
                            break;
                        }
                        net.send(c, to, to + 1, M::Frame { a: at, b: e, form: f2, bytes: by, noise });
                        at = e;
                    }
                }
                let _ = from;
            }
            M::Ack { a, b } => {
                for x in &mut acked[a..b] {
                    *x = true;
                }
            }
            M::Back => {
                // only what is on disk is left; all of it is read again and passed on
                c.ev(format!("node {to} restarts"));
                for (a, b, form, bytes, noise) in disk[to].clone() {
                    let gots = read_frame(c, &items, a, b, form, &bytes, noise)?;
                    let gs: Vec<&Got> = gots.iter().collect();
                    let f2 = any_form(c);
                    let (by, noise) = write_frame(c, &gs, f2);
                    net.send(c, to, to + 1, M::Frame { a, b, form: f2, bytes: by, noise });
                }
                disk[to].clear();
                c.probe("read back after a crash");
            }
        }
        c.src.end();
    }
    for i in 0..n {
        match &have[i] {
            Some(g) => ensure!(c, g.text == items[i].text, "c01/end", "item {i} arrived as {g:?}"),
            None => fail!(c, "c01/progress", "item {i} never arrived"),
        }
    }
    Ok(())
}

fn leading_a(_c: &mut Ctx) -> Option<String> {
    // text that starts with A and fills whole quadlets
    let b = keride::cesr::Bexter::new_with_bext("AAAB").ok()?;
    let back = b.bext().ok()?;
    if back == "AAAB" {
        None
    } else {
        Some(format!("text \"AAAB\" comes back as {back:?}: a leading A of whole quadlets is taken for padding"))
    }
}

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    quick_runs: 60_000,
    quick_secs: 20,
    thorough_secs: 420,
    rule: "one run is one sender, up to three relays and one receiver exchanging up to 25 items of all classes and codes in text, byte and binary frames over the simulated network; non trivial: more than two events or any fault; distinct: different event log",
    real: &["every Matter, Indexer and Counter type and its text/bytes/binary codec"],
    stub: &["network, relay disks and sender retransmission are the simulator's"],
    assumptions: &["the code tables of the independent codec in sim/src/codec.rs are those of the CESR draft at this version"],
    findings: &[("bext-leading-a", leading_a)],
    reach: &["domain changed", "read back after a crash", "received again"],
};
