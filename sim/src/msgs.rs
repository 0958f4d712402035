//! Keys, events and credentials as their authors mean them, sealed by the reference implementation.

use crate::codec::matter_text;
use crate::ctx::Ctx;
use crate::items::DIGS;
use crate::json::*;
use crate::refc;

#[derive(Clone, Debug)]
pub struct Key {
    pub suite: &'static str,
    pub seed: Vec<u8>,
    pub tr: bool,
    pub pk: std::cell::OnceCell<Vec<u8>>,
}

impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.suite == o.suite && self.seed == o.seed && self.tr == o.tr
    }
}

impl Key {
    pub fn gen(c: &mut Ctx, tr: bool) -> Key {
        let suite = *c.src.pick(&["A", "A", "J", "Q"]);
        let mut seed = c.src.random(32);
        seed[0] &= 0x7f;
        seed[31] |= 1;
        // no two keys of a run are the same, also not in a minimised one
        for (b, n) in seed[1..9].iter_mut().zip((c.src.rec.len() as u64).to_be_bytes()) {
            *b ^= n;
        }
        Key { suite, seed, tr, pk: Default::default() }
    }
    pub fn ver_code(&self) -> &'static str {
        refc::ver_code(self.suite, self.tr)
    }
    pub fn public(&self) -> Vec<u8> {
        self.pk.get_or_init(|| refc::public(self.suite, &self.seed)).clone()
    }
    pub fn text(&self) -> String {
        matter_text(self.ver_code(), &self.public()).1
    }
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub j: J,
    pub bytes: Vec<u8>,
    pub said: String,
    pub ident: &'static str,
    pub code: String,
    pub labels: Vec<&'static str>,
}

impl Msg {
    pub fn brief(&self) -> String {
        format!("{}({} {} {} bytes)", self.ident, self.j.str("t").unwrap_or("-"), self.code, self.bytes.len())
    }
}

pub fn fake_dig(c: &mut Ctx, code: &str) -> String {
    let n = if code.len() == 1 { 32 } else { 64 };
    let r = c.src.random(n);
    matter_text(code, &r).1
}

fn hexn(c: &mut Ctx) -> String {
    let v = match c.src.below(4) {
        0 => 0,
        1 => c.src.small(20),
        2 => c.src.small(5000),
        _ => c.src.u64(),
    };
    format!("{v:x}")
}

pub fn gen_thold(c: &mut Ctx, n: usize) -> J {
    if c.src.chance(1, 2) || n == 0 {
        s(&format!("{:x}", 1 + c.src.below(n.max(1) as u64)))
    } else {
        // weights that can reach one
        let d = 1 + c.src.below(n as u64);
        let w: Vec<String> = (0..n).map(|_| if d == 1 { "1".to_string() } else { format!("1/{d}") }).collect();
        strs(&w)
    }
}

/// how many items a list has: few, now and then many
pub fn few(c: &mut Ctx, n: usize) -> usize {
    if c.src.chance(1, 24) {
        4 + c.src.us(16)
    } else {
        c.src.us(n)
    }
}

/// a key event or other message of the event protocol, or a credential, with arbitrary content
pub fn gen_msg(c: &mut Ctx) -> Msg {
    let code = DIGS[c.src.weighted(&[8, 1, 1, 1, 1, 1, 1, 1, 1])].to_string();
    let code = code.as_str();
    let kind = c.src.weighted(&[3, 2, 2, 2, 1, 3, 4]);
    if kind == 6 {
        let i = fake_dig(c, "E");
        let sch = fake_dig(c, "E");
        let mut f = vec![("v", s("")), ("d", s("")), ("i", s(&i))];
        if c.src.chance(1, 2) {
            f.push(("ri", J::Str(fake_dig(c, "E"))));
        }
        f.push(("s", s(&sch)));
        let n = c.src.small(6) as usize;
        // compact, the attributes are their identifier
        f.push(("a", match c.src.below(6) {
            0 => J::Str(fake_dig(c, "E")),
            1 => gen_json(c, 1),
            _ => gen_obj(c, n, 2, &[]),
        }));
        if c.src.chance(1, 2) {
            let n = c.src.small(3) as usize;
            f.push(("e", if c.src.chance(1, 4) { J::Str(fake_dig(c, "E")) } else { gen_obj(c, n, 2, &[]) }));
        }
        if c.src.chance(1, 3) {
            f.push(("r", gen_json(c, 1)));
        }
        return finish(obj(f), "ACDC", code, &["d"]);
    }
    let nk = few(c, 4);
    let keys: Vec<String> = (0..nk).map(|_| Key::gen(c, true).text()).collect();
    let nn = few(c, 3);
    let nxt: Vec<String> = (0..nn).map(|_| fake_dig(c, "E")).collect();
    let nb = few(c, 3);
    let wits: Vec<String> = (0..nb).map(|_| Key::gen(c, false).text()).collect();
    let seals = |c: &mut Ctx| {
        let n = c.src.small(3) as usize;
        J::Arr((0..n).map(|_| gen_json(c, 2)).collect())
    };
    let pre = fake_dig(c, "E");
    let mut labels = vec!["d"];
    let f: Vec<(&str, J)> = match kind {
        0 | 1 => {
            let own = c.src.chance(2, 3);
            if own {
                labels = vec!["d", "i"];
            }
            let mut f = vec![
                ("v", s("")),
                ("t", s(if kind == 0 { "icp" } else { "dip" })),
                ("d", s("")),
                ("i", s(&if own { pre.clone() } else { keys.first().cloned().unwrap_or(pre.clone()) })),
                ("s", s("0")),
                ("kt", gen_thold(c, nk)),
                ("k", strs(&keys)),
                ("nt", gen_thold(c, nn)),
                ("n", strs(&nxt)),
                ("bt", s(&format!("{nb:x}"))),
                ("b", strs(&wits)),
                ("c", strs::<&str>(&[])),
                ("a", seals(c)),
            ];
            if kind == 1 {
                f.push(("di", J::Str(fake_dig(c, "E"))));
            }
            f
        }
        2 => vec![
            ("v", s("")),
            ("t", s(if c.src.chance(1, 2) { "rot" } else { "drt" })),
            ("d", s("")),
            ("i", s(&pre)),
            ("s", s(&hexn(c))),
            ("p", J::Str(fake_dig(c, "E"))),
            ("kt", gen_thold(c, nk)),
            ("k", strs(&keys)),
            ("nt", gen_thold(c, nn)),
            ("n", strs(&nxt)),
            ("bt", s("0")),
            ("br", strs::<&str>(&[])),
            ("ba", strs(&wits)),
            ("a", seals(c)),
        ],
        3 => vec![
            ("v", s("")),
            ("t", s("ixn")),
            ("d", s("")),
            ("i", s(&pre)),
            ("s", s(&hexn(c))),
            ("p", J::Str(fake_dig(c, "E"))),
            ("a", seals(c)),
        ],
        4 => {
            // d of a receipt is not its own
            vec![("v", s("")), ("t", s("rct")), ("d", s("")), ("i", s(&pre)), ("s", s(&hexn(c)))]
        }
        _ => {
            let mut f = vec![
                ("v", s("")),
                ("t", s(*c.src.pick(&["rpy", "exn", "qry", "ksn", "bar", "pro"]))),
                ("d", s("")),
                ("dt", s("2022-01-20T12:57:59.823350+00:00")),
                ("r", s("/x")),
            ];
            f.push(("a", gen_json(c, 3)));
            f
        }
    };
    finish(obj(f), "KERI", code, &labels)
}

pub fn finish(j: J, ident: &'static str, code: &str, labels: &[&'static str]) -> Msg {
    let (j, bytes, said) = refc::seal(j, ident, code, labels);
    Msg { j, bytes, said, ident, code: code.to_string(), labels: labels.to_vec() }
}
