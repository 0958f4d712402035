//! What a hostile peer, a noisy line or a failing disk turns bytes and content into.

use crate::codec::*;
use crate::ctx::Ctx;
use crate::items::gen_b64;
use crate::json::*;
use crate::refc;

const BYTES: &[u8] = &[0, 1, 0x20, b'-', b'_', b'=', b'"', b'{', b'}', b'[', b'A', b'0', b'1', b'4', b'9', 0x7f, 0x80, 0xc3, 0xe2, 0xf0, 0xff, b'+', b'/', b'.'];
const CHUNKS: &[&[u8]] = &[
    b"\xc3\xa9", "世".as_bytes(), "😀".as_bytes(), b"\xff\xfe", b"", b"-", b"--", b"----", b"-A", b"-AAB", b"-VAA", b"--VAAAAA", b"1AAG", b"4A", b"0A", b"7AAA", b"9AAB____",
    b"KERI10JSON0000fb_", b"ACDC10JSON000000_", b"KERI10JSONffffff_", b"KERI10CBOR0000fb_", b"KERI10MGPK0000fb_", b"KERIffJSON0000fb_",
    b"\"v\":", b"{\"v\":\"", b"null", b"1e999", b"-0", b"\\u0000", b"\\ud800", b"s", b"c", b"a", b"1s2c1s2a1", b"0s0", b"1s0",
];

/// change bytes in one to a few places
pub fn mangle(c: &mut Ctx, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = 1 + c.src.small(5);
    for _ in 0..n {
        c.src.begin();
        let len = v.len();
        // often near the head, where codes and sizes are
        let at = if c.src.chance(1, 2) { c.src.us(len.min(24) + 1) } else { c.src.us(len + 1) };
        match c.src.weighted(&[6, 5, 4, 4, 3, 4, 2, 2, 3]) {
            0 => {
                if at < len {
                    v[at] ^= 1 << c.src.below(8);
                }
                c.fault("bit flip");
            }
            1 => {
                if at < len {
                    v[at] = *c.src.pick(BYTES);
                }
                c.fault("byte replaced");
            }
            2 => {
                let ch = c.src.pick(CHUNKS).to_vec();
                v.splice(at..at, ch);
                c.fault("bytes inserted");
            }
            3 => {
                let k = (1 + c.src.small(40) as usize).min(len - at);
                v.drain(at..at + k);
                c.fault("bytes lost");
            }
            4 => {
                let k = c.src.small(60) as usize;
                let piece: Vec<u8> = v[at..(at + k).min(len)].to_vec();
                let to = c.src.us(len + 1);
                v.splice(to..to, piece);
                c.fault("bytes repeated");
            }
            5 => {
                v.truncate(at);
                c.fault("cut short");
            }
            6 => {
                let k = (c.src.small(64) as usize).min(len - at);
                let r = c.src.blob(k);
                v[at..at + k].copy_from_slice(&r);
                c.fault("sector of other bytes");
            }
            7 => {
                let k = (c.src.small(64) as usize).min(len - at);
                for x in &mut v[at..at + k] {
                    *x = 0;
                }
                c.fault("sector of zeros");
            }
            _ => {
                // one base64 character for another
                if at < len {
                    v[at] = B64[c.src.us(64)];
                }
                c.fault("character replaced");
            }
        }
        c.src.end();
    }
    v
}

/// text that starts like something from the code tables
pub fn forged(c: &mut Ctx) -> Vec<u8> {
    c.fault("forged item");
    let mut t = match c.src.below(5) {
        0 => c.src.pick(MATTER).code.to_string(),
        1 => c.src.pick(INDEXER).code.to_string(),
        2 => c.src.pick(COUNTER).code.to_string(),
        3 => c.src.pick(&["-", "--", "---", "_", "=", "0", "1A", "1AA", "4", "7A", "9AA", "3", "0Z", "1ZZZ", "5Z", "7ZZZ", "2Z", "-Z", "--Z", "-0", "-00", "-0V", "-0Z", "é", "0é", "1AAé", "+", "/"]).to_string(),
        _ => {
            let n = c.src.small(6) as usize;
            gen_b64(c, n)
        }
    };
    // soft part
    match c.src.below(5) {
        0 => {}
        1 => t.push_str("AAAA"),
        2 => t.push_str("____"),
        3 => t.push_str(&"AAAAAAAAAAA"[..c.src.us(12)]),
        _ => {
            let n = c.src.us(9);
            t.push_str(&gen_b64(c, n));
        }
    }
    let n = match c.src.below(4) {
        0 => 0,
        1 => c.src.us(100),
        2 => *c.src.pick(&[1usize, 3, 4, 21, 22, 23, 40, 42, 43, 44, 64, 84, 86, 87, 88, 132, 156]),
        _ => c.src.small(2000) as usize,
    };
    if c.src.chance(1, 4) {
        t.push_str(&"A".repeat(n));
    } else {
        t.push_str(&gen_b64(c, n));
    }
    if c.src.chance(1, 3) {
        // the binary form of it
        let k = t.len() / 4 * 4;
        if let Some(b) = t.get(..k).and_then(|x| dec(x.as_bytes())) {
            return b;
        }
    }
    t.into_bytes()
}

/// a value nobody expects
pub fn odd(c: &mut Ctx, depth: usize) -> J {
    match c.src.below(16) {
        0 => J::Null,
        1 => J::Bool(c.src.chance(1, 2)),
        2 => J::Num(c.src.pick(&["0", "-1", "1", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1.5", "1e300", "4294967296", "2147483648", "-0.0"]).to_string()),
        3 => J::Arr(vec![]),
        4 => J::Obj(vec![]),
        5 => s(""),
        6 => strs(&["1/2", "1/2"]),
        7 => s(c.src.pick(&["1/0", "0/0", "-1", "1/-1", "0x1", "ffffffffffffffffffffffffffffffffffffffff", "g", "+1", "1/2/3", "/", "1/", "/1", " 1", "99999999999999999999999999/3", "-"])),
        8 => s(c.src.pick(CHUNKS).iter().map(|b| *b as char).collect::<String>().as_str()),
        9 => J::Arr(vec![J::Arr(vec![]), J::Arr(vec![s("1")])]),
        10 => J::Arr(vec![s("0"), s("1/0"), s("1")]),
        11 => J::Arr(vec![J::Arr(vec![s("1/2"), J::Num("1".into())]), J::Null]),
        12 => {
            let b = forged(c);
            s(&String::from_utf8_lossy(&b))
        }
        13 => J::Arr((0..c.src.us(4)).map(|_| s("DKxy2sgzfplyr-tgwIxS19f2OchFHtLwPWD3v4oYimBx")).collect()),
        _ => gen_json(c, depth),
    }
}

fn count(j: &J) -> usize {
    1 + match j {
        J::Arr(a) => a.iter().map(count).sum(),
        J::Obj(o) => o.iter().map(|x| count(&x.1)).sum(),
        _ => 0,
    }
}
fn at<'a>(j: &'a mut J, n: &mut usize) -> Option<&'a mut J> {
    if *n == 0 {
        return Some(j);
    }
    *n -= 1;
    match j {
        J::Arr(a) => a.iter_mut().find_map(|x| at(x, n)),
        J::Obj(o) => o.iter_mut().find_map(|x| at(&mut x.1, n)),
        _ => None,
    }
}

/// change content of a tree somewhere
pub fn mangle_json(c: &mut Ctx, j: &mut J) {
    let n = 1 + c.src.small(3);
    for _ in 0..n {
        c.src.begin();
        // fields of the top level more often than others
        let top = c.src.chance(2, 3);
        let total = count(j);
        let mut k = c.src.us(total);
        let spot = match j {
            J::Obj(o) if top && !o.is_empty() => {
                let i = c.src.us(o.len());
                &mut o[i].1
            }
            _ => at(j, &mut k).unwrap(),
        };
        match c.src.weighted(&[6, 3, 3, 2]) {
            0 => {
                *spot = odd(c, 2);
                c.fault("value replaced");
            }
            1 => match spot {
                J::Str(x) => {
                    let b = mangle(c, x.as_bytes());
                    *x = String::from_utf8_lossy(&b).to_string();
                }
                J::Arr(a) => {
                    let v = odd(c, 1);
                    let i = c.src.us(a.len() + 1);
                    a.insert(i, v);
                    c.fault("element inserted");
                }
                x => *x = odd(c, 1),
            },
            2 => {
                // a field of the object goes, or comes twice
                if let J::Obj(o) = j {
                    if !o.is_empty() {
                        let i = c.src.us(o.len());
                        if c.src.chance(2, 3) {
                            o.remove(i);
                            c.fault("field removed");
                        } else {
                            let x = o[i].clone();
                            o.push(x);
                            c.fault("field twice");
                        }
                    }
                }
            }
            _ => {
                if let J::Obj(o) = j {
                    if o.len() > 1 {
                        let i = c.src.us(o.len());
                        let k = c.src.us(o.len());
                        if c.src.chance(1, 2) {
                            o.swap(i, k);
                        } else {
                            let v = o[k].1.clone();
                            o[i].1 = v;
                        }
                        c.fault("fields swapped");
                    }
                }
            }
        }
        c.src.end();
    }
}

/// make size, and perhaps identifier, fit the content again, as an attacker does
pub fn refit(c: &mut Ctx, j: &mut J, ident: &str) {
    if let Some(d) = j.str("d").map(|x| x.to_string()) {
        if c.src.chance(1, 2) && (d.len() == 44 || d.len() == 88) {
            let code = d.get(..d.len() / 44).unwrap_or("").to_string();
            if crate::items::DIGS.contains(&code.as_str()) {
                let own = j.str("i") == Some(d.as_str());
                let labels: &[&str] = if own { &["d", "i"] } else { &["d"] };
                let (n, _, _) = refc::seal(j.clone(), ident, &code, labels);
                *j = n;
                return;
            }
        }
    }
    if j.get("v").is_some() {
        refc::resize(j, ident);
    }
}
