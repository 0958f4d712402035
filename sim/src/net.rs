//! The simulated network and its faults: loss, duplication, delay and reordering, partitions, nodes
//! that are down. One queue of events ordered by simulated time.

use crate::ctx::Ctx;
use std::collections::BTreeMap;

pub const MS: u64 = 1_000_000;

#[derive(Clone, Copy, Debug, Default)]
pub struct Faults {
    /// per mille
    pub loss: u64,
    pub dup: u64,
    /// longest extra delay, ms
    pub jitter: u64,
    pub cut: u64,
    pub crash: u64,
    pub corrupt: u64,
}

impl Faults {
    /// Which faults this run has: each kind is absent, rare or frequent. One run in six has none
    pub fn swarm(c: &mut Ctx) -> Faults {
        let mut f = Faults::default();
        if c.src.chance(1, 6) {
            return f;
        }
        let lv = [0u64, 0, 30, 150, 400];
        f.loss = lv[c.src.us(5)];
        f.dup = lv[c.src.us(5)];
        f.jitter = [0u64, 5, 100, 2000][c.src.us(4)];
        f.cut = [0u64, 0, 20, 60][c.src.us(4)];
        f.crash = [0u64, 0, 20, 80][c.src.us(4)];
        f.corrupt = lv[c.src.us(5)];
        f
    }
}

pub struct Net<M> {
    q: BTreeMap<(u64, u64), (usize, usize, M)>,
    seq: u64,
    pub nodes: usize,
    pub f: Faults,
    pub quiet: bool,
    /// nodes with the same side can talk
    side: Vec<u8>,
    cut_until: u64,
    /// a node is down until then
    down: Vec<u64>,
    latest: u64,
}

impl<M: Clone> Net<M> {
    pub fn new(nodes: usize, f: Faults) -> Net<M> {
        Net {
            q: BTreeMap::new(),
            seq: 0,
            nodes,
            f,
            quiet: false,
            side: vec![0; nodes],
            cut_until: 0,
            down: vec![0; nodes],
            latest: 0,
        }
    }
    fn put(&mut self, at: u64, to: usize, from: usize, m: M) {
        self.seq += 1;
        self.q.insert((at, self.seq), (to, from, m));
    }
    /// a timer of the node itself: never lost
    pub fn after(&mut self, c: &Ctx, node: usize, delay: u64, m: M) {
        self.put(c.now + delay, node, node, m);
    }
    pub fn send(&mut self, c: &mut Ctx, from: usize, to: usize, m: M) {
        if self.quiet {
            self.put(c.now + MS, to, from, m);
            return;
        }
        if c.now < self.cut_until && self.side[from] != self.side[to] {
            c.fault("partition drop");
            return;
        }
        if self.f.cut > 0 && c.now >= self.cut_until && c.src.chance(self.f.cut, 1000) {
            for s in self.side.iter_mut() {
                *s = c.src.below(2) as u8;
            }
            self.cut_until = c.now + MS * c.src.range(10, 3000);
            c.fault("partition");
            c.ev(format!("partition {:?}", self.side));
        }
        if self.f.loss > 0 && c.src.chance(self.f.loss, 1000) {
            c.fault("message lost");
            return;
        }
        let mut copies = 1;
        if self.f.dup > 0 && c.src.chance(self.f.dup, 1000) {
            copies = 2;
            c.fault("message duplicated");
        }
        for _ in 0..copies {
            let d = if self.f.jitter > 0 { c.src.below(self.f.jitter + 1) } else { 0 };
            if d > 0 {
                c.fault("message delayed");
            }
            let at = c.now + MS * (1 + d);
            if self.latest > at {
                c.fault("message reordered");
            }
            self.latest = self.latest.max(at);
            self.put(at, to, from, m.clone());
        }
    }
    /// the node goes down and comes back after a while
    pub fn crash(&mut self, c: &mut Ctx, node: usize, back: M) -> u64 {
        let d = MS * c.src.range(1, 2000);
        self.down[node] = c.now + d;
        self.put(c.now + d, node, node, back);
        c.fault("crash and restart");
        d
    }
    pub fn is_down(&self, c: &Ctx, node: usize) -> bool {
        c.now < self.down[node]
    }
    /// should the node crash here?
    pub fn crashes(&mut self, c: &mut Ctx) -> bool {
        !self.quiet && self.f.crash > 0 && c.src.chance(self.f.crash, 1000)
    }
    pub fn next(&mut self, c: &mut Ctx) -> Option<(usize, usize, M)> {
        loop {
            let k = *self.q.keys().next()?;
            let (to, from, m) = self.q.remove(&k).unwrap();
            if k.0 > c.now {
                c.advance(k.0 - c.now);
            }
            if c.now < self.down[to] {
                c.fault("delivered to a node that is down");
                continue;
            }
            return Some((to, from, m));
        }
    }
    pub fn idle(&self) -> bool {
        self.q.is_empty()
    }
    /// no more faults from here on
    pub fn heal(&mut self) {
        self.quiet = true;
        self.cut_until = 0;
    }
}
