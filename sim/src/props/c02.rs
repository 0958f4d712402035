//! Streams that arrive in pieces.

use crate::ctx::*;
use crate::items::*;
use crate::msgs::*;
use crate::net::MS;
use crate::runner::Prop;
use crate::src::{hash_str, mix};
use keride::cesr::{Creder, Sadder, Serder};

enum El {
    Item(Item),
    Msg(Msg),
    /// a threshold in its byte form
    Limen(String, String),
}

impl El {
    fn bytes(&self, form: Form) -> Vec<u8> {
        match self {
            El::Item(i) if form == Form::Bin => i.bin(),
            El::Item(i) => i.text.clone().into_bytes(),
            El::Msg(m) => m.bytes.clone(),
            El::Limen(l, _) => l.clone().into_bytes(),
        }
    }
    fn brief(&self) -> String {
        match self {
            El::Item(i) => i.brief(),
            El::Msg(m) => m.brief(),
            El::Limen(l, _) => format!("threshold({l})"),
        }
    }
}

/// Try to read the element from the head of what has arrived. None: refused. With less than the
/// whole element the reason has to be that it is short
fn try_read(c: &mut Ctx, e: &El, form: Form, buf: &[u8]) -> R<Option<usize>> {
    let short = |c: &mut Ctx, why: String| -> R<()> {
        let need = e.bytes(form).len();
        if !buf.is_empty() && buf.len() < need {
            c.checks += 1;
            if !why.starts_with(SHORT) {
                return c.done("c02/reason", format!("{} of {need} bytes of {} ({form:?}) are not reported as short: {why}", buf.len(), e.brief()));
            }
        }
        Ok(())
    };
    match e {
        El::Item(it) => {
            if form == Form::Text && std::str::from_utf8(buf).is_err() {
                return Ok(None);
            }
            match parse(c, it.cls, form, buf, &it.meaning)? {
                Err(x) => short(c, x).map(|_| None),
                Ok(g) => {
                    c.checks += 1;
                    if let Some(d) = differs(it, &g) {
                        return c.done("c02/misread", format!("{} of {} bytes {form:?}: {d}", buf.len(), e.bytes(form).len()));
                    }
                    Ok(Some(if form == Form::Bin { g.bin.len() } else { g.len }))
                }
            }
        }
        El::Msg(m) => {
            if let Ok(sn) = lib!(c, "sniff", keride::cesr::common::sniff(buf)) {
                ensure!(c, sn.size as usize == m.bytes.len() && sn.ident == m.ident && sn.kind == "JSON",
                    "c02/sniff", "{} sniffed as {sn:?}", m.brief());
            }
            let code = Some(m.code.as_str());
            let r = c.call("read message", || -> Result<(Vec<u8>, String, String, u32), String> {
                if m.ident == "KERI" {
                    let x = esh(Serder::new(code, Some(buf), None, None, None))?;
                    Ok((x.raw(), esh(x.ked().to_json())?, esh(x.said())?, x.size()))
                } else {
                    let x = esh(Creder::new(code, Some(buf), None, None, None))?;
                    Ok((x.raw(), esh(x.ked().to_json())?, esh(x.said())?, x.size()))
                }
            })?;
            match r {
                Err(x) => short(c, x).map(|_| None),
                Ok((raw, json, said, size)) => {
                    ensure!(c, raw == m.bytes && json.as_bytes() == &m.bytes[..] && said == m.said && size as usize == raw.len(),
                        "c02/misread", "{} read from {} bytes as {}", m.brief(), buf.len(), show(&raw));
                    Ok(Some(raw.len()))
                }
            }
        }
        El::Limen(l, want) => {
            // a record of its own, nothing follows it
            let buf = &buf[..buf.len().min(l.len())];
            let r = c.call("read threshold", || -> Result<(Vec<u8>, String), String> {
                let t = keride::cesr::Tholder::new(None, Some(buf), None).map_err(|e| e.to_string())?;
                Ok((t.limen().map_err(|e| e.to_string())?, t.sith().map_err(|e| e.to_string())?.to_json().map_err(|e| e.to_string())?))
            })?;
            match r {
                Err(_) => Ok(None),
                Ok((lim, sith)) => {
                    ensure!(c, lim == l.as_bytes() && sith == *want, "c02/misread", "threshold {l} read as {} {sith}", show(&lim));
                    Ok(Some(l.len()))
                }
            }
        }
    }
}

fn gen_limen(c: &mut Ctx) -> R<El> {
    let n = 1 + c.src.us(4);
    let j = gen_thold(c, n);
    let t = must!(c, "c02/threshold", "make threshold", keride::cesr::Tholder::new_with_sith(&j.value()));
    let l = must!(c, "c02/threshold", "threshold limen", t.limen());
    let s = must!(c, "c02/threshold", "threshold sith", t.sith().and_then(|s| s.to_json()));
    Ok(El::Limen(String::from_utf8(l).unwrap_or_default(), s))
}

fn run(c: &mut Ctx) -> R<()> {
    let form = crate::props::c01::any_form(c);
    let n = 1 + c.src.small(10) as usize;
    let mut els = vec![];
    for _ in 0..n {
        c.src.begin();
        let e = match c.src.weighted(&[8, if form == Form::Bin { 0 } else { 3 }, if form == Form::Bin { 0 } else { 1 }]) {
            0 => {
                let cls = *c.src.pick(ALL);
                El::Item(gen(c, cls))
            }
            1 => El::Msg(gen_msg(c)),
            _ => gen_limen(c)?,
        };
        c.ev(format!("element {} {}", els.len(), e.brief()));
        els.push(e);
        c.src.end();
    }
    let wire: Vec<Vec<u8>> = els.iter().map(|e| e.bytes(form)).collect();
    // one element is also cut at every place
    let one = c.src.us(n);
    let step = if wire[one].len() > 600 { 1 + wire[one].len() / 300 } else { 1 };
    for k in (0..wire[one].len()).step_by(step) {
        c.fault("cut short");
        if let Some(_) = try_read(c, &els[one], form, &wire[one][..k])? {
            return c.done("c02/early", format!("{} read from {k} of {} bytes ({form:?})", els[one].brief(), wire[one].len()));
        }
        c.checks += 1;
    }
    // the stream, chunk by chunk
    let mut got = 0usize; // elements accepted, durable
    let mut buf: Vec<u8> = vec![];
    let mut sent = 0usize; // byte offset in the rest of the stream
    let rest = |got: usize| -> Vec<u8> { wire[got..].concat() };
    let mut stream = rest(0);
    let mut chunks = 0;
    let bound = 4000;
    let style = c.src.us(4);
    while got < n {
        chunks += 1;
        ensure!(c, chunks < bound, "c02/progress", "stuck at element {got} {}", els[got].brief());
        c.src.begin();
        // faults only for so long
        if chunks < 400 {
            match c.src.weighted(&[60, 3, 2, 2, 2]) {
                1 => {
                    // connection lost: the buffer is gone, the peer sends again from the last accepted element
                    c.fault("connection reset");
                    c.ev(format!("reset with {} bytes buffered", buf.len()));
                    buf.clear();
                    stream = rest(got);
                    sent = 0;
                }
                2 => {
                    // crash: only part of the buffer had reached the disk
                    let k = c.src.us(buf.len() + 1);
                    c.fault("crash with torn buffer");
                    c.ev(format!("crash, {k} of {} buffered bytes are left", buf.len()));
                    buf.truncate(k);
                    stream = rest(got);
                    sent = k;
                    // the receiver looks at what it has found
                }
                3 => {
                    c.fault("stall");
                    c.advance(1000 * MS);
                }
                4 => {
                    // tries again though nothing came
                    c.fault("retry without data");
                }
                _ => {}
            }
        }
        let left = stream.len() - sent;
        let k = match style {
            0 => 1 + c.src.us(3),
            1 => 1 + c.src.small(60) as usize,
            2 => 1 + c.src.small(1500) as usize,
            _ => {
                // up to just around an element boundary
                let need = wire[got].len().saturating_sub(buf.len());
                (need + c.src.us(3)).saturating_sub(1)
            }
        };
        // long elements in long pieces
        let k = k.max(left / 300).min(left);
        buf.extend_from_slice(&stream[sent..sent + k]);
        sent += k;
        c.advance(MS);
        // read as far as possible
        while got < n {
            let need = wire[got].len();
            let r = try_read(c, &els[got], form, &buf)?;
            c.checks += 1;
            match r {
                None => {
                    // form Text needs characters: all of them are ASCII here except inside messages
                    let split = form == Form::Text && std::str::from_utf8(&buf).is_err() && !matches!(els[got], El::Msg(_));
                    if buf.len() >= need && !split {
                        return c.done("c02/refused", format!("{} is complete but refused ({form:?}, {} bytes buffered)", els[got].brief(), buf.len()));
                    }
                    if buf.len() >= need {
                        c.probe("text cut inside a character");
                    } else if !buf.is_empty() {
                        c.probe("short and refused");
                    }
                    break;
                }
                Some(used) => {
                    if buf.len() < need {
                        return c.done("c02/early", format!("{} read from {} of {need} bytes ({form:?})", els[got].brief(), buf.len()));
                    }
                    ensure!(c, used == need, "c02/length", "{} consumed {used} of {need} bytes", els[got].brief());
                    buf.drain(..used);
                    c.ev(format!("accepted {got}, {} bytes over", buf.len()));
                    got += 1;
                    c.state(mix(hash_str(&els[got - 1].brief()[..4]) ^ buf.len() as u64 ^ ((form as u64) << 50)));
                }
            }
        }
        c.src.end();
    }
    ensure!(c, buf.is_empty() && sent == stream.len() || got == n, "c02/end", "bytes left over");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    quick_runs: 30_000,
    quick_secs: 25,
    thorough_secs: 420,
    rule: "one run is a stream of up to eleven primitives, count codes, thresholds and messages in one domain, delivered in chunks with connection resets, torn buffers, stalls and retries, plus every cut of one element; distinct: different event log",
    real: &["all Matter, Indexer, Counter, Tholder, Serder and Creder parsers and sniff"],
    stub: &["connection, buffer and its persistence"],
    assumptions: &["the receiver knows which kind of element comes next, as the count codes and message fields of the protocol tell it"],
    findings: &[],
    reach: &["short and refused"],
};
