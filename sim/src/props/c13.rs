//! Messages with groups of attachments, on streams in pieces and through relays that count again.

use crate::codec::*;
use crate::ctx::*;
use crate::items::*;
use crate::msgs::*;
use crate::mutate::*;
use crate::net::*;
use crate::props::c01::any_form;
use crate::runner::Prop;
use crate::src::{hash_str, mix};
use keride::cesr::{Counter, Sadder, Serder, Siger};

fn count_item(code: &str, n: u32) -> Item {
    let r = row(COUNTER, code).unwrap();
    Item {
        cls: Count,
        code: code.into(),
        raw: vec![],
        index: 0,
        ondex: 0,
        count: n,
        meaning: int64(n as u64, r.ss),
        text: counter_text(code, n),
    }
}

/// what belongs to one unit of a group: items, or a counted group inside (its code)
enum Part {
    I(Cls),
    G(&'static str),
}
use Part::*;

fn unit(code: &str) -> &'static [Part] {
    match code {
        "-A" | "-B" => &[I(Siger)],
        "-C" => &[I(Verfer), I(Cigar)],
        "-D" => &[I(Prefixer), I(Seqner), I(Saider), I(Siger)],
        "-E" => &[I(Seqner), I(Dater)],
        "-F" => &[I(Prefixer), I(Seqner), I(Saider), G("-A")],
        "-G" => &[I(Seqner), I(Diger)],
        "-H" => &[I(Prefixer), G("-A")],
        "-I" => &[I(Prefixer), I(Seqner), I(Diger)],
        "-J" => &[I(Pather), G("-F")],
        "-K" => &[I(Pather), G("-J")],
        _ => &[],
    }
}

fn windowed(code: &str) -> bool {
    matches!(code, "-V" | "-0V" | "-L")
}

struct Frame {
    m: Msg,
    sigs: Option<Vec<Item>>,
    seal: Option<(Item, Item, Item, bool)>,
    wigs: Option<Vec<Item>>,
    /// all that is attached, counters included, in order
    att: Vec<Item>,
}

fn group_size(c: &mut Ctx) -> usize {
    match c.src.weighted(&[30, 8, 1]) {
        0 => c.src.small(5) as usize,
        1 => c.src.small(70) as usize,
        _ => *c.src.pick(&[63usize, 64, 65, 200, 700]),
    }
}

fn sigs(c: &mut Ctx, n: usize) -> Vec<Item> {
    // a long list is of one kind
    if n > 80 {
        let it = gen(c, Siger);
        return (0..n)
            .map(|_| {
                let mut x = it.clone();
                x.raw = c.src.random(64);
                x.text = indexer_text(&x.code, x.index, x.ondex, &x.raw);
                x
            })
            .collect();
    }
    (0..n).map(|_| gen(c, Siger)).collect()
}

fn siger(it: &Item, how: bool) -> Result<Siger, String> {
    if how {
        let on = if IDX_CRT.contains(&it.code.as_str()) { None } else { Some(it.ondex) };
        es(Siger::new_with_raw(&it.raw, None, Some(it.index), on, Some(&it.code)))
    } else {
        es(Siger::new_with_qb64(&it.text, None))
    }
}

fn gen_group(c: &mut Ctx, code: &'static str, deep: bool, out: &mut Vec<Item>) {
    let n = if deep || matches!(code, "-J" | "-K") { c.src.below(3) as usize } else { c.src.small(12) as usize };
    out.push(count_item(code, n as u32));
    for _ in 0..n {
        for p in unit(code) {
            match p {
                I(k) => {
                    let it = gen(c, *k);
                    out.push(it);
                }
                G(g) => gen_group(c, g, true, out),
            }
        }
    }
}

fn quadlets(items: &[Item]) -> usize {
    items.iter().map(|i| i.text.len()).sum::<usize>() / 4
}

/// the groups messagize makes, by its description
fn framed(sigs: &Option<Vec<Item>>, seal: &Option<(Item, Item, Item, bool)>, wigs: &Option<Vec<Item>>) -> Vec<Item> {
    let mut att = vec![];
    if let Some(x) = sigs {
        if let Some((i, s, d, last)) = seal {
            if *last {
                att.push(count_item("-H", 1));
                att.push(i.clone());
            } else {
                att.push(count_item("-F", 1));
                att.extend([i.clone(), s.clone(), d.clone()]);
            }
        }
        att.push(count_item("-A", x.len() as u32));
        att.extend(x.iter().cloned());
    }
    if let Some(x) = wigs {
        att.push(count_item("-B", x.len() as u32));
        att.extend(x.iter().cloned());
    }
    att
}

fn author(c: &mut Ctx) -> R<Frame> {
    let mut m = gen_msg(c);
    while m.ident != "KERI" {
        m = gen_msg(c);
    }
    let huge = c.src.chance(1, 400);
    let mut sg = None;
    let mut wg = None;
    if !c.src.chance(1, 5) {
        let n = if huge { *c.src.pick(&[4094usize, 4095]) } else { group_size(c) };
        sg = Some(sigs(c, n));
    }
    if c.src.chance(1, 2) {
        let n = if huge && c.src.chance(1, 2) { 4095 } else { group_size(c) };
        wg = Some(sigs(c, n));
    }
    let seal = if sg.is_some() && c.src.chance(1, 2) {
        let (mut i, n, d) = (gen(c, Prefixer), gen(c, Seqner), gen(c, Saider));
        if c.src.chance(1, 3) {
            // sealed by an inception: the identifier of the event is the prefix
            i = Item { cls: Prefixer, meaning: "t=true".into(), ..d.clone() };
            c.probe("seal of an inception");
        }
        Some((i, n, d, c.src.chance(1, 2)))
    } else {
        None
    };
    let mut att = framed(&sg, &seal, &wg);
    let how = c.src.chance(1, 2);
    let sd = must!(c, "c13/author", "serder", Serder::new(Some(&m.code), Some(&m.bytes), None, None, None));
    let so = must!(c, "c13/author", "signatures", sg.as_ref().map(|v| v.iter().map(|i| siger(i, how)).collect::<Result<Vec<_>, _>>()).transpose());
    let wo = must!(c, "c13/author", "signatures", wg.as_ref().map(|v| v.iter().map(|i| siger(i, how)).collect::<Result<Vec<_>, _>>()).transpose());
    let r = c.call("messagize", || {
        let snh = seal.as_ref().map(|s| s.1.meaning.split(' ').nth(1).unwrap().to_string()).unwrap_or_default();
        let sl = seal.as_ref().map(|(i, _, d, last)| (i.text.as_str(), snh.as_str(), d.text.as_str(), *last));
        es(keride::messaging::sim_messagize(&sd, so.as_deref(), sl, wo.as_deref(), None))
    })?;
    if sg.is_none() && wg.is_none() {
        ensure!(c, r.is_err(), "c13/nothing", "framed with no signatures");
        c.probe("nothing to attach");
    } else {
        let got = match r {
            Ok(g) => g,
            Err(e) => fail!(c, "c13/author", "{} sigs, {} wigs, seal {}: {e}", sg.as_ref().map(|x| x.len()).unwrap_or(0), wg.as_ref().map(|x| x.len()).unwrap_or(0), seal.is_some()),
        };
        let want = format!("{}{}", String::from_utf8_lossy(&m.bytes), att.iter().map(|i| i.text.as_str()).collect::<String>());
        ensure!(c, got == want, "c13/framing", "framed {} should be {}", show(&got.as_bytes()[m.bytes.len().min(got.len())..]), show(&want.as_bytes()[m.bytes.len()..]));
        if seal.is_some() {
            c.probe("source seal");
        }
    }
    // one signature more than can be counted
    if huge {
        let a = sigs(c, 81);
        let x = must!(c, "c13/author", "signatures", siger(&a[0], true));
        let v: Vec<Siger> = (0..4096 + c.src.us(3)).map(|_| x.clone()).collect();
        let r = if c.src.chance(1, 2) {
            lib!(c, "messagize", es(keride::messaging::sim_messagize(&sd, Some(&v), None, None, None)))
        } else {
            lib!(c, "messagize", es(keride::messaging::sim_messagize(&sd, None, None, Some(&v), None)))
        };
        ensure!(c, r.is_err(), "c13/overflow", "{} signatures are framed", v.len());
        c.probe("too many to count");
    }
    // groups other parts of a system attach
    for _ in 0..c.src.small(3) {
        let code = *c.src.pick(&["-C", "-D", "-E", "-G", "-I", "-F", "-H", "-J", "-K", "-A", "-B"]);
        gen_group(c, code, false, &mut att);
    }
    if c.src.chance(1, 4) {
        // a path and its material, as one window
        let mut inner = vec![gen(c, Pather)];
        gen_group(c, "-F", true, &mut inner);
        let q = quadlets(&inner);
        if q < 4096 {
            att.push(count_item("-L", q as u32));
            att.extend(inner);
        }
    }
    if c.src.chance(1, 3) {
        let q = quadlets(&att);
        let code = if q < 4096 && c.src.chance(2, 3) { "-V" } else { "-0V" };
        att.insert(0, count_item(code, q as u32));
        c.probe("wrapped");
    }
    Ok(Frame { m, sigs: sg, seal, wigs: wg, att })
}

/// counters as the library makes them, items as they were
fn emit(c: &mut Ctx, att: &[Item], form: Form) -> R<Vec<u8>> {
    let mut out = vec![];
    for it in att {
        if it.cls == Count {
            let k = must!(c, "c13/count", "count code", Counter::new_with_code_and_count(&it.code, it.count));
            ensure!(c, k.code() == it.code && k.count() == it.count, "c13/count", "{} {} made as {k:?}", it.code, it.count);
            let b = match form {
                Form::Text => must!(c, "c13/count", "count text", k.qb64()).into_bytes(),
                Form::Bytes => must!(c, "c13/count", "count bytes", k.qb64b()),
                Form::Bin => must!(c, "c13/count", "count binary", k.qb2()),
            };
            let want = if form == Form::Bin { it.bin() } else { it.text.clone().into_bytes() };
            ensure!(c, b == want, "c13/count", "{} {} written {} should be {}", it.code, it.count, hex(&b), hex(&want));
            out.extend(b);
        } else if form == Form::Bin {
            out.extend(it.bin());
        } else {
            out.extend_from_slice(it.text.as_bytes());
        }
    }
    Ok(out)
}

struct Walk<'a> {
    b: &'a [u8],
    pos: usize,
    form: Form,
    got: Vec<(Cls, Got)>,
}

/// None: more bytes are needed (or the bytes are refused)
fn take(c: &mut Ctx, w: &mut Walk, cls: Cls) -> R<Option<Got>> {
    let end = w.b.len().min(w.pos + 17_000);
    // items of fixed size do not need a long look
    let end = if matches!(cls, Siger | Count) { end.min(w.pos + 240) } else { end };
    let mut b = &w.b[w.pos..end];
    if w.form == Form::Text {
        // as far as it is text
        if let Err(e) = std::str::from_utf8(b) {
            b = &b[..e.valid_up_to()];
        }
    }
    match parse(c, cls, w.form, b, "")? {
        Err(_) => Ok(None),
        Ok(g) => {
            w.pos += if w.form == Form::Bin { g.bin.len() } else { g.len };
            w.got.push((cls, g.clone()));
            Ok(Some(g))
        }
    }
}

/// one group, as a reader does that knows only the codes
fn group(c: &mut Ctx, w: &mut Walk, depth: usize) -> R<bool> {
    let Some(k) = take(c, w, Count)? else { return Ok(false) };
    if windowed(&k.code) {
        let len = k.count as usize * if w.form == Form::Bin { 3 } else { 4 };
        let end = w.pos + len;
        if w.b.len() < end {
            return Ok(false);
        }
        let b = w.b;
        w.b = &b[..end];
        if k.code == "-L" {
            if take(c, w, Pather)?.is_none() {
                fail!(c, "c13/window", "no path in its window");
            }
        }
        while w.pos < end {
            if depth > 5 || !group(c, w, depth + 1)? {
                fail!(c, "c13/window", "group in the window of {} {} is not whole", k.code, k.count);
            }
        }
        ensure!(c, w.pos == end, "c13/window", "window of {} {} ends inside a group", k.code, k.count);
        w.b = b;
        return Ok(true);
    }
    for _ in 0..k.count {
        for p in unit(&k.code) {
            match p {
                I(x) => {
                    if take(c, w, *x)?.is_none() {
                        return Ok(false);
                    }
                }
                G(_) => {
                    if !group(c, w, depth + 1)? {
                        return Ok(false);
                    }
                }
            }
        }
    }
    Ok(true)
}

/// compare what was read with what was attached from item k on
fn compare(c: &mut Ctx, f: &Frame, k: usize, got: &[(Cls, Got)], form: Form) -> R<()> {
    for (i, (cls, g)) in got.iter().enumerate() {
        c.checks += 1;
        let Some(want) = f.att.get(k + i) else {
            fail!(c, "c13/extra", "{} attached, {} read ({form:?})", f.att.len(), k + got.len());
        };
        if *cls != want.cls {
            fail!(c, "c13/split", "item {} is {} but read as {cls:?}", k + i, want.brief());
        }
        if let Some(d) = differs(want, g) {
            fail!(c, "c13/split", "item {} ({form:?}): {d}", k + i);
        }
    }
    Ok(())
}

#[derive(Clone)]
enum M {
    Frame(usize, Form, Vec<u8>),
    Up,
}

/// a receiver of a stream of all frames in pieces
fn stream(c: &mut Ctx, fr: &[Frame], wire: &[(Form, Vec<u8>)]) -> R<()> {
    let n = fr.len();
    // durable: frame reached
    let mut at = 0usize;
    let rest = |at: usize| -> Vec<u8> {
        let mut v = vec![];
        for i in at..n {
            v.extend_from_slice(&fr[i].m.bytes);
            v.extend_from_slice(&wire[i].1);
        }
        v
    };
    let mut s = rest(0);
    let mut sent = 0;
    let mut buf: Vec<u8> = vec![];
    // read of the current frame: message yet? attachments read
    let mut head = false;
    let mut k = 0usize;
    let style = c.src.us(3);
    let mut chunks = 0;
    while at < n {
        chunks += 1;
        ensure!(c, chunks < 3000, "c13/progress", "stuck at frame {at}");
        c.src.begin();
        if chunks < 200 {
            match c.src.weighted(&[50, 2, 2]) {
                1 => {
                    c.fault("connection reset");
                    buf.clear();
                    s = rest(at);
                    sent = 0;
                    head = false;
                    k = 0;
                }
                2 => {
                    c.fault("stall");
                    c.advance(1000 * MS);
                }
                _ => {}
            }
        }
        let left = s.len() - sent;
        let z = match style {
            0 => 1 + c.src.us(9),
            1 => 1 + c.src.small(3000) as usize,
            _ => left,
        };
        let z = z.max(left / if s.len() > 60_000 { 3 } else { 25 }).min(left);
        buf.extend_from_slice(&s[sent..sent + z]);
        sent += z;
        c.advance(MS);
        loop {
            if at >= n {
                break;
            }
            let f = &fr[at];
            if !head {
                let r = lib!(c, "read message", es(Serder::new(Some(&f.m.code), Some(&buf), None, None, None)));
                match r {
                    Ok(m) => {
                        ensure!(c, m.raw() == f.m.bytes, "c13/message", "message {at} is {}", show(&m.raw()));
                        buf.drain(..f.m.bytes.len());
                        head = true;
                        k = 0;
                    }
                    Err(e) => {
                        ensure!(c, buf.len() < f.m.bytes.len() || buf.len() < 29, "c13/message", "message {at} is refused: {e}");
                        break;
                    }
                }
                continue;
            }
            if buf.is_empty() {
                // the last frame has no more
                if sent == s.len() {
                    ensure!(c, k == f.att.len() && at + 1 == n, "c13/lost", "frame {at}: {k} of {} attached items", f.att.len());
                    at += 1;
                }
                break;
            }
            if buf[0] == b'{' {
                ensure!(c, k == f.att.len(), "c13/lost", "frame {at}: next message after {k} of {} attached items", f.att.len());
                at += 1;
                head = false;
                continue;
            }
            let form = wire[at].0;
            let mut w = Walk { b: &buf, pos: 0, form, got: vec![] };
            let ok = group(c, &mut w, 0)?;
            let (pos, got) = (w.pos, w.got);
            // also what is only partly there has to be right
            compare(c, f, k, &got, form)?;
            if !ok {
                if sent == s.len() {
                    fail!(c, "c13/refused", "frame {at}: group at item {k} cannot be read, {} bytes left ({form:?})", buf.len());
                }
                break;
            }
            k += got.len();
            buf.drain(..pos);
            c.state(mix(hash_str(&got[0].1.text) ^ ((form as u64) << 40)));
        }
        c.src.end();
    }
    ensure!(c, buf.is_empty(), "c13/extra", "{} bytes left over", buf.len());
    c.probe("stream split");
    Ok(())
}

/// count codes by themselves
fn counters(c: &mut Ctx) -> R<()> {
    let r = c.src.pick(COUNTER);
    let max = 64u64.pow(r.ss as u32) - 1;
    let n = match c.src.below(5) {
        0 => max,
        1 => max + 1 + c.src.small(70),
        2 => c.src.small(max),
        3 => c.src.below(1 << 32),
        _ => c.src.below(max + 1),
    }
    .min(u32::MAX as u64);
    let made = lib!(c, "count code", es(Counter::new_with_code_and_count(r.code, n as u32)));
    let made2 = lib!(c, "count code", es(Counter::new(Some(n as u32), None, Some(r.code), None, None, None)));
    // by its base 64 text, with leading zeros perhaps
    let len = 1 + c.src.us(12);
    let big = if c.src.chance(1, 3) { c.src.u64() >> c.src.below(64) } else { n };
    let digits = (1..12).find(|k| *k == 11 || 64u128.pow(*k as u32) > big as u128).unwrap();
    let t = int64(big, len.max(digits));
    let made3 = lib!(c, "count code", es(Counter::new(None, Some(&t), Some(r.code), None, None, None)));
    // one, unless said otherwise
    let made4 = lib!(c, "count code", es(Counter::new(None, None, Some(r.code), None, None, None)));
    for (x, v) in [(made, n), (made2, n), (made3, big), (made4, 1)] {
        ensure!(c, x.is_ok() == (v <= max), "c13/overflow", "count {v} (text {t}) of {} with at most {max}: {x:?}", r.code);
        let Ok(k) = x else {
            c.probe("count refused");
            continue;
        };
        let want = count_item(r.code, v as u32);
        for form in [Form::Text, Form::Bytes, Form::Bin] {
            let b = emit(c, &[want.clone()], form)?;
            let mut b2 = b.clone();
            let tail = c.src.small(8) as usize;
            if form == Form::Text {
                b2.extend(gen_b64(c, tail).into_bytes());
            } else {
                b2.extend(c.src.blob(tail));
            }
            let g = must!(c, "c13/count", "read count", parse_now(Count, form, &b2, ""));
            if let Some(d) = differs(&want, &g) {
                fail!(c, "c13/count", "{form:?}: {d}");
            }
            for cut in 0..b.len() {
                let r = parse(c, Count, form, &b[..cut], "")?;
                ensure!(c, r.is_err(), "c13/count", "{cut} of {} bytes are read as a count ({form:?})", b.len());
            }
            // damaged: read as the reference reads it
            let x = mangle(c, &b);
            if x.len() < 400 && form != Form::Bin {
                let want = read(COUNTER, &x).filter(|_| std::str::from_utf8(&x).is_ok() || form == Form::Bytes);
                let got = parse(c, Count, form, &x, "")?;
                match (&got, &want) {
                    (Err(_), None) => c.probe("damaged count refused"),
                    (Ok(g), Some(t)) => {
                        ensure!(c, g.code == t.code && g.count == t.count, "c13/count", "{} is read as {} {}", show(&x), g.code, g.count)
                    }
                    _ => fail!(c, "c13/count", "{} is read as {got:?}, should {want:?}", show(&x)),
                }
            }
        }
        // fewer characters than the count needs is nothing to ask for
        let l = c.src.us(9);
        let digits = (1..7).find(|d| 64u64.pow(*d as u32) > v).unwrap();
        let l = if l == 0 { 0 } else { l.max(digits) };
        let s = must!(c, "c13/count", "count text", k.count_as_b64(l));
        let w = if l == 0 { r.ss } else { l };
        ensure!(c, s == int64(v, w), "c13/count", "count {v} in {l} characters is {s}");
    }
    // versions
    let p: Vec<u64> = (0..3).map(|_| *c.src.pick(&[0u64, 1, 2, 9, 10, 61, 62, 63, 64, 99, 127, 128, 255, 300])).collect();
    let k = 1 + c.src.us(4);
    let mut parts: Vec<String> = (0..k).map(|i| p.get(i).map(|x| x.to_string()).unwrap_or("1".into())).collect();
    let mut vals: Vec<Option<u64>> = parts.iter().map(|x| x.parse().ok()).collect();
    if c.src.chance(1, 3) {
        let i = c.src.us(k);
        let (a, b): (&str, Option<u64>) = *c.src.pick(&[("", Some(0)), ("007", Some(7)), ("x", None), ("-1", None), (" 1", None), ("1 ", None), ("1e1", None), ("٣", None), ("0x1", None), ("-", None)]);
        parts[i] = a.into();
        vals[i] = b;
    }
    let text = parts.join(".");
    let good = k <= 3 && vals.iter().all(|v| v.map(|x| x < 64).unwrap_or(false));
    let mut v3: Vec<u64> = vals.iter().map(|x| x.unwrap_or(0)).collect();
    v3.resize(3, 0);
    let want: String = v3.iter().take(3).map(|x| int64(x & 63, 1)).collect();
    let r = lib!(c, "version", es(Counter::sem_ver_str_to_b64(&text)));
    ensure!(c, r.is_ok() == good, "c13/version", "version {text:?}: {r:?}");
    if let Ok(t) = r {
        ensure!(c, t == want, "c13/version", "version {text:?} is {t}, should {want}");
        let k = must!(c, "c13/version", "version code", Counter::new(None, Some(&t), Some("--AAA"), None, None, None));
        let form = any_form(c);
        let b = emit(c, &[count_item("--AAA", k.count())], form)?;
        let g = must!(c, "c13/version", "version code", parse_now(Count, form, &b, ""));
        ensure!(c, g.code == "--AAA" && g.meaning == t && g.count == ((v3[0] << 12) | (v3[1] << 6) | v3[2]) as u32, "c13/version", "version {text} arrives as {g:?}");
        c.probe("version carried");
    }
    if p.iter().all(|x| *x < 256) {
        let r = lib!(c, "version", es(Counter::sem_ver_to_b64(p[0] as u8, p[1] as u8, p[2] as u8)));
        let good = p.iter().all(|x| *x < 64);
        let want: String = p.iter().map(|x| int64(x & 63, 1)).collect();
        ensure!(c, if good { r == Ok(want.clone()) } else { r.is_err() }, "c13/version", "version {p:?} is {r:?}, should {want}");
    }
    Ok(())
}

fn run(c: &mut Ctx) -> R<()> {
    let n = 1 + c.src.us(4);
    let mut fr: Vec<Frame> = vec![];
    for _ in 0..n {
        c.src.begin();
        let f = author(c)?;
        c.ev(format!("frame {} with {} signatures, {} of witnesses, seal {}, {} items attached, {} bytes", f.m.brief(),
            f.sigs.as_ref().map(|x| x.len() as i64).unwrap_or(-1), f.wigs.as_ref().map(|x| x.len() as i64).unwrap_or(-1), f.seal.is_some(), f.att.len(), quadlets(&f.att) * 4));
        fr.push(f);
        counters(c)?;
        c.src.end();
    }
    // through relays that take it apart, keep it and count again
    let relays = c.src.us(3);
    let f = Faults::swarm(c);
    let last = relays + 1;
    let mut net: Net<M> = Net::new(relays + 2, f);
    let mut disk: Vec<Vec<(usize, Form, Vec<u8>)>> = vec![vec![]; relays + 2];
    let mut wire: Vec<Option<(Form, Vec<u8>)>> = (0..n).map(|_| None).collect();
    for round in 0..30 {
        if wire.iter().all(|x| x.is_some()) {
            break;
        }
        ensure!(c, round < 29, "c13/progress", "frames never arrive");
        if round == 8 {
            net.heal();
        }
        for i in 0..n {
            if wire[i].is_none() {
                c.src.begin();
                let form = any_form(c);
                let b = emit(c, &fr[i].att, form)?;
                net.send(c, 0, 1.min(last), M::Frame(i, form, b));
                c.src.end();
            }
        }
        while let Some((to, _, m)) = net.next(c) {
            c.src.begin();
            match m {
                M::Frame(i, form, b) => {
                    if to == last {
                        wire[i] = Some((form, b));
                    } else {
                        disk[to].push((i, form, b.clone()));
                        let mut w = Walk { b: &b, pos: 0, form, got: vec![] };
                        while w.pos < b.len() {
                            if !group(c, &mut w, 0)? {
                                fail!(c, "c13/refused", "relay cannot read frame {i} from {} of {} ({form:?})", w.pos, b.len());
                            }
                        }
                        let got = w.got;
                        compare(c, &fr[i], 0, &got, form)?;
                        ensure!(c, got.len() == fr[i].att.len(), "c13/lost", "{} of {} items", got.len(), fr[i].att.len());
                        let f2 = any_form(c);
                        if f2 != form {
                            c.probe("domain changed");
                        }
                        let b2 = emit(c, &fr[i].att, f2)?;
                        if net.crashes(c) {
                            net.crash(c, to, M::Up);
                        } else {
                            net.send(c, to, to + 1, M::Frame(i, f2, b2));
                        }
                    }
                }
                M::Up => {
                    for (i, form, b) in std::mem::take(&mut disk[to]) {
                        net.send(c, to, to + 1, M::Frame(i, form, b));
                    }
                }
            }
            c.src.end();
        }
        c.advance(5000 * MS);
    }
    let wire: Vec<(Form, Vec<u8>)> = wire.into_iter().map(|x| x.unwrap()).collect();
    stream(c, &fr, &wire)?;
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    quick_runs: 6_000,
    quick_secs: 30,
    thorough_secs: 420,
    rule: "one run is one to four messages with groups of attachments of all codes and sizes, counted again by relays in either domain and split by a receiver from a stream in pieces, and count codes by themselves; distinct: different event log",
    real: &["messagize, Counter, Siger and all other attached types, Serder"],
    stub: &["network, relays, connection, receiver's walk over the groups"],
    assumptions: &["the units of each group code are those the CESR and KERI drafts name"],
    findings: &[],
    reach: &["stream split", "domain changed", "source seal", "seal of an inception", "wrapped", "too many to count", "count refused", "damaged count refused", "version carried", "nothing to attach"],
};
