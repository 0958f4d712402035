//! Nodes with clocks that are skewed, step and jump, who stamp, send, store and compare times.

use crate::codec::*;
use crate::ctx::*;
use crate::items::*;
use crate::json::*;
use crate::net::*;
use crate::runner::Prop;
use crate::seams;
use crate::src::{hash_str, mix};
use keride::cesr::{Dater, Matter, Serder};

const SEC: i128 = 1_000_000_000;
/// first instant of year 10000
const END: i128 = 253_402_300_800 * SEC;

/// calendar text of an instant, ns since 1970, computed independently
pub fn civil(ns: i128) -> String {
    let us = ns.div_euclid(1000);
    let secs = us.div_euclid(1_000_000);
    let frac = us.rem_euclid(1_000_000);
    let days = secs.div_euclid(86_400);
    let sod = secs.rem_euclid(86_400);
    // count days from the years and months, one after the other
    let leap = |y: i128| y % 4 == 0 && y % 100 != 0 || y % 400 == 0;
    let mut y = 1970i128;
    let mut d = days;
    // 400 years always have 146097 days
    while d >= 146_097 {
        d -= 146_097;
        y += 400;
    }
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n {
            break;
        }
        d -= n;
        y += 1;
    }
    let mut m = 0usize;
    loop {
        let n = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m];
        if d < n {
            break;
        }
        d -= n;
        m += 1;
    }
    format!("{y:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{frac:06}+00:00", m + 1, d + 1, sod / 3600, sod / 60 % 60, sod % 60)
}

fn gen_instant(c: &mut Ctx) -> i128 {
    let s: i128 = match c.src.below(6) {
        0 => c.src.below(4_000_000_000) as i128,
        1 => *c.src.pick(&[0i128, 951_782_400, 951_868_800, 1_709_164_800, 1_709_251_200, 2_147_483_648, 4_102_444_800, 4_107_542_400, 4_107_456_000, 4_294_967_296, 253_402_300_799, 253_402_214_400, 32_503_680_000, 13_574_563_200]),
        2 => {
            // around the turn of a year
            let y = c.src.range(1970, 9998) as i128;
            let mut s = 0i128;
            for k in 1970..=y {
                s += if k % 4 == 0 && k % 100 != 0 || k % 400 == 0 { 366 } else { 365 };
            }
            s * 86_400
        }
        3 => c.src.below(253_402_300_799) as i128,
        // around midnight
        4 => c.src.below(60_000) as i128 * 86_400,
        _ => 1_700_000_000 + c.src.below(100_000_000) as i128,
    };
    let ns: i128 = match c.src.below(5) {
        0 => 0,
        1 => -1,
        2 => c.src.pick(&[999i128, 1000, 1001, 999_999, 1_000_000, 999_999_999, 999_999_000, 100_000, 10_000]).to_owned(),
        _ => c.src.below(1_000_000_000) as i128,
    };
    (s * SEC + ns).clamp(0, END - 1)
}

fn put(ns: i128) {
    seams::set_clock(ns.div_euclid(SEC) as i64, ns.rem_euclid(SEC) as u32);
}
fn at() -> i128 {
    let (s, n) = seams::clock();
    s as i128 * SEC + n as i128
}

struct Node {
    /// what its clock is ahead of simulated time
    skew: i128,
    zone: &'static str,
    disk: Vec<(usize, String)>,
}

#[derive(Clone)]
struct Stamp {
    text: String,
    qb64: String,
    /// ns, if taken from a clock
    taken: Option<i128>,
}

#[derive(Clone)]
enum M {
    Post(usize, Form),
    InMessage(usize, Vec<u8>),
    Up,
}

fn clockset(c: &Ctx, n: &Node) {
    put((c.now as i128 + n.skew).clamp(0, END - 1));
}

fn now(c: &mut Ctx, n: &mut Node) -> R<Stamp> {
    clockset(c, n);
    std::env::set_var("TZ", n.zone);
    let step: i64 = match c.src.below(5) {
        0 => 1,
        1 => 1000,
        2 => *c.src.pick(&[1_000_000i64, 999_999_999, 1_000_000_001, 60_000_000_000]),
        3 if at() > 100 * SEC => -(c.src.below(60_000_000_000) as i64),
        _ => 0,
    };
    if step != 0 {
        c.fault(if step > 0 { "clock moves on between readings" } else { "clock is set back between readings" });
    }
    seams::set_clock_step(step);
    let first = at();
    let deft = c.src.chance(1, 2);
    let d = must!(c, "c11/now", "timestamp", Dater::new(None, if deft { None } else { Some("1AAG") }, None, None, None, None));
    seams::set_clock_step(0);
    let after = at();
    let text = must!(c, "c11/now", "text", d.dts());
    let qb64 = must!(c, "c11/now", "text", d.qb64());
    // it is one of the readings
    let n = if step == 0 { 1 } else { ((after - first) / step as i128).max(1) };
    let ok = (0..n.min(64)).find(|k| civil(first + k * step as i128) == text);
    c.checks += 1;
    let Some(k) = ok else {
        return c.done("c11/now", format!("timestamp {text} taken at {} ({first} ns, zone {:?}, {n} readings {step} ns apart)", civil(first), n_zone(&std::env::var("TZ").unwrap_or_default())));
    };
    ensure!(c, text.len() == 32, "c11/form", "timestamp {text} is not of 32 characters");
    let want = matter_text("1AAG", &dts_raw(&text)).1;
    ensure!(c, qb64 == want, "c11/text", "timestamp {text} travels as {qb64} and not {want}");
    Ok(Stamp { text, qb64, taken: Some(first + k * step as i128) })
}

fn n_zone(z: &str) -> String {
    z.to_string()
}

/// a time given by the user, perhaps one that does not fit
fn given(c: &mut Ctx) -> R<Option<Stamp>> {
    let good = gen_dts(c);
    let mut t = good.clone();
    let odd = c.src.chance(1, 2);
    if odd {
        match c.src.below(9) {
            0 => t.insert_str(26, "123"),
            1 => t = format!("{}Z", &t[..26]),
            2 => t = format!("{}{}", &t[..19], &t[26..]),
            3 => t = t.replace('+', "p").replace('-', "m"),
            4 => t = t.replace(':', "c"),
            5 => t.push(*c.src.pick(&['0', 'A', 'Z', ' ', '-'])),
            6 => t = t.replace('T', " "),
            7 => {
                let i = c.src.us(t.len() + 1);
                t.insert(i, *c.src.pick(&['d', 'p', 'c', '0', 'é', '/', '=']));
                if c.src.chance(1, 2) && t.is_ascii() {
                    t.pop();
                }
            }
            _ => {
                let k = c.src.us(32);
                t.truncate(k);
            }
        }
        c.fault("unusual time text");
    }
    let code = if c.src.chance(1, 2) { None } else { Some("1AAG") };
    let r = lib!(c, "timestamp", es(Dater::new_with_dts(&t, code)));
    c.checks += 1;
    match r {
        Err(e) => {
            if t == good {
                return c.done("c11/given", format!("time {t} refused: {e}"));
            }
            c.probe("time that does not fit refused");
            Ok(None)
        }
        Ok(d) => {
            let text = must!(c, "c11/given", "text", d.dts());
            ensure!(c, text == t, "c11/given", "time {t:?} reads back as {text:?}");
            let b = must!(c, "c11/given", "text", d.dtsb());
            ensure!(c, b == t.as_bytes(), "c11/given", "time {t:?} reads back as {}", show(&b));
            let qb64 = must!(c, "c11/given", "text", d.qb64());
            Ok(Some(Stamp { text, qb64, taken: None }))
        }
    }
}

fn read(c: &mut Ctx, st: &Stamp, form: Form, trail: &[u8]) -> R<Dater> {
    let mut b = match form {
        Form::Bin => binary(&st.qb64),
        _ => st.qb64.clone().into_bytes(),
    };
    b.extend_from_slice(trail);
    let raw = c.src.chance(1, 6);
    let d = must!(c, "c11/read", "read timestamp", {
        if raw {
            es(Dater::new_with_raw(&dts_raw(&st.text), None))
        } else {
            match form {
                Form::Text => es(Dater::new_with_qb64(std::str::from_utf8(&b).unwrap())),
                Form::Bytes => es(Dater::new_with_qb64b(&b)),
                Form::Bin => es(Dater::new_with_qb2(&b)),
            }
        }
    });
    let text = must!(c, "c11/read", "text", d.dts());
    let q = must!(c, "c11/read", "text", d.qb64());
    let bts = must!(c, "c11/read", "text", d.dtsb());
    ensure!(c, text == st.text && q == st.qb64 && bts == st.text.as_bytes(), "c11/read", "timestamp {} is read as {text} ({form:?})", st.text);
    Ok(d)
}

fn run(c: &mut Ctx) -> R<()> {
    let n = 1 + c.src.us(3);
    let mut nodes: Vec<Node> = vec![];
    for _ in 0..n {
        let skew = gen_instant(c);
        let zone = *c.src.pick(&["", "UTC0", "AAA5", "BBB-5:30", "CCC-14", "DDD12", "EST5EDT,M3.2.0,M11.1.0"]);
        nodes.push(Node { skew, zone, disk: vec![] });
    }
    let f = Faults::swarm(c);
    let mut net: Net<M> = Net::new(n, f);
    let mut all: Vec<Stamp> = vec![];
    let jumpy = c.src.below(4);
    for _ in 0..2 + c.src.small(12) {
        c.src.begin();
        let who = c.src.us(n);
        let wait = match c.src.below(4) {
            0 => 0,
            1 => c.src.below(2000),
            2 => c.src.below(2_000_000_000),
            _ => c.src.below(100) * 1_000_000_000,
        };
        c.advance(wait);
        if c.src.chance(jumpy, 6) {
            match c.src.below(3) {
                0 => {
                    c.fault("clock jumps");
                    nodes[who].skew = gen_instant(c);
                }
                1 => {
                    c.fault("clock stepped back");
                    nodes[who].skew -= c.src.below(10_000_000_000_000) as i128;
                }
                _ => {
                    c.fault("clock skewed");
                    nodes[who].skew += c.src.below(10_000_000_000_000) as i128;
                }
            }
        }
        let st = if c.src.chance(2, 3) { Some(now(c, &mut nodes[who])?) } else { given(c)? };
        if let Some(st) = st {
            c.ev(format!("node {who} stamps {}", st.text));
            c.state(mix(hash_str(&st.text[..4]) ^ hash_str(nodes[who].zone)));
            all.push(st);
            let id = all.len() - 1;
            nodes[who].disk.push((id, all[id].qb64.clone()));
            for to in 0..n {
                let form = crate::props::c01::any_form(c);
                if c.src.chance(1, 4) {
                    // as a field of a message
                    let st = all[id].clone();
                    let j = obj(vec![("v", s("")), ("t", s("rpy")), ("d", s("")), ("dt", s(&st.text)), ("r", s("/x")), ("a", J::Obj(vec![]))]);
                    let (_, b, _) = crate::refc::seal(j, "KERI", "E", &["d"]);
                    net.send(c, who, to, M::InMessage(id, b));
                } else {
                    net.send(c, who, to, M::Post(id, form));
                }
            }
        }
        if net.crashes(c) {
            net.crash(c, who, M::Up);
        }
        c.src.end();
    }
    let mut steps = 0;
    let mut got: Vec<Vec<(usize, Dater)>> = (0..n).map(|_| vec![]).collect();
    while let Some((to, _, m)) = net.next(c) {
        steps += 1;
        if steps > 200 {
            break;
        }
        // the receiver's clock does not matter
        clockset(c, &nodes[to]);
        match m {
            M::Post(id, form) => {
                let st = all[id].clone();
                let trail: &[u8] = if c.src.chance(1, 3) { if form == Form::Bin { b"\xd4\x01\x00" } else { b"-AAB" } } else { b"" };
                let d = read(c, &st, form, trail)?;
                c.ev(format!("node {to} reads {}", st.text));
                got[to].push((id, d));
            }
            M::InMessage(id, b) => {
                let st = all[id].clone();
                let t = c.call("read message", || -> Result<String, String> {
                    use keride::cesr::Sadder;
                    let m = es(Serder::new_with_raw(&b))?;
                    es(m.ked()["dt"].to_string())
                })?;
                ensure!(c, t.as_ref() == Ok(&st.text), "c11/message", "time {} in a message is read as {t:?}", st.text);
                let d = must!(c, "c11/message", "timestamp", Dater::new_with_dts(&t.unwrap(), None));
                let q = must!(c, "c11/message", "text", d.qb64());
                ensure!(c, q == st.qb64, "c11/message", "time {} in a message becomes {q}", st.text);
                got[to].push((id, d));
            }
            M::Up => {
                let recs = nodes[to].disk.clone();
                for (id, q) in recs {
                    ensure!(c, q == all[id].qb64, "harness", "disk");
                    let form = crate::props::c01::any_form(c);
                    let st = all[id].clone();
                    let d = read(c, &st, form, b"")?;
                    c.probe("read after restart");
                    got[to].push((id, d));
                }
            }
        }
    }
    // any two parties order any two of them alike, as they were taken
    for g in &got {
        for i in 0..g.len() {
            for k in 0..i {
                let (a, b) = (&all[g[i].0], &all[g[k].0]);
                if let (Some(x), Some(y)) = (a.taken, b.taken) {
                    let (tx, ty) = (must!(c, "c11/order", "text", g[i].1.dts()), must!(c, "c11/order", "text", g[k].1.dts()));
                    let (x, y) = (x.div_euclid(1000), y.div_euclid(1000));
                    ensure!(c, tx.cmp(&ty) == x.cmp(&y), "c11/order", "{tx} and {ty} are ordered otherwise than {x} and {y}");
                    c.probe("two times ordered");
                }
            }
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    quick_runs: 60_000,
    quick_secs: 20,
    thorough_secs: 300,
    rule: "one run is one to three nodes in several zones whose clocks are skewed, jump and move between readings from 1970 to 9999, who stamp events and read each other's times in every form, from messages and from disk; distinct: different event log",
    real: &["Dater, Matter codec, chrono, Serder"],
    stub: &["clock (clock_gettime), zone, network, disk"],
    assumptions: &["a clock before 1970 or after 9999 is outside the fixed form", "fractions of a microsecond are cut off"],
    findings: &[],
    reach: &["two times ordered", "read after restart", "time that does not fit refused"],
};
