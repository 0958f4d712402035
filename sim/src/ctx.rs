//! What a run carries around: choices, simulated time, the event log, and what was reached.

use crate::seams;
use crate::src::{mix, Src};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type R<T> = Result<T, Violation>;

pub struct Ctx {
    pub src: Src,
    /// simulated time, ns
    pub now: u64,
    pub thorough: bool,
    pub hash: u64,
    pub trace: Option<Vec<String>>,
    pub nev: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub checks: u64,
    pub calls: u64,
    pub known: Vec<String>,
    pub sim_ns: u64,
}

impl Ctx {
    pub fn new(src: Src, thorough: bool, trace: bool) -> Ctx {
        Ctx {
            src,
            now: 0,
            thorough,
            hash: 0x1234_5678_9abc_def1,
            trace: if trace { Some(vec![]) } else { None },
            nev: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            states: BTreeSet::new(),
            checks: 0,
            calls: 0,
            known: vec![],
            sim_ns: 0,
        }
    }
    /// Append to the event log. Never draws and never reads a clock
    pub fn ev(&mut self, s: String) {
        self.nev += 1;
        let mut h = self.hash ^ mix(self.now);
        for ch in s.as_bytes().chunks(8) {
            let mut b = [0u8; 8];
            b[..ch.len()].copy_from_slice(ch);
            h = mix(h ^ u64::from_le_bytes(b)).wrapping_add(ch.len() as u64);
        }
        self.hash = h;
        let now = self.now;
        if let Some(t) = &mut self.trace {
            if t.len() < 20_000 {
                t.push(format!("t={}us {}", now / 1000, s));
            }
        }
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    pub fn state(&mut self, d: u64) {
        if self.states.len() < 20_000 {
            self.states.insert(d);
        }
    }
    pub fn advance(&mut self, ns: u64) {
        self.now += ns;
        self.sim_ns += ns;
    }
    /// Call into the code under test; unwinding out of it is a violation
    pub fn call<T>(&mut self, name: &'static str, f: impl FnOnce() -> T) -> R<T> {
        self.calls += 1;
        match seams::guarded(f) {
            Ok(t) => Ok(t),
            Err(p) => Err(Violation {
                class: format!("panic/{name}"),
                msg: format!("{name} panicked: {p}"),
            }),
        }
    }
    /// As call, but the caller decides what a panic means
    pub fn call_raw<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.calls += 1;
        seams::guarded(f)
    }
    pub fn done<T>(&mut self, class: &str, msg: String) -> R<T> {
        self.ev(format!("VIOLATION {class}: {msg}"));
        Err(Violation { class: class.to_string(), msg })
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(e) => {
            let what = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let at = seams::last_panic();
            Err(format!("{what} at {at}"))
        }
    }
}

/// check a condition; the property is broken when it does not hold
#[macro_export]
macro_rules! ensure {
    ($c:expr, $cond:expr, $class:expr, $($arg:tt)*) => {{
        $c.checks += 1;
        if !($cond) {
            return $c.done($class, format!($($arg)*));
        }
    }};
}

#[macro_export]
macro_rules! fail {
    ($c:expr, $class:expr, $($arg:tt)*) => {
        return $c.done($class, format!($($arg)*))
    };
}

/// call the library: lib!(c, "name", expr) gives what expr gives, a panic is a violation
#[macro_export]
macro_rules! lib {
    ($c:expr, $name:expr, $e:expr) => {
        $c.call($name, || $e)?
    };
}

/// call the library where it has to succeed
#[macro_export]
macro_rules! must {
    ($c:expr, $class:expr, $name:expr, $e:expr) => {{
        $c.checks += 1;
        match $c.call($name, || $e)? {
            Ok(v) => v,
            Err(e) => return $c.done($class, format!("{} failed: {}", $name, e)),
        }
    }};
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

pub fn show(b: &[u8]) -> String {
    let s: String = b
        .iter()
        .take(300)
        .map(|x| if (32..127).contains(x) { (*x as char).to_string() } else { format!("\\x{x:02x}") })
        .collect();
    if b.len() > 300 {
        format!("{s}... ({} bytes)", b.len())
    } else {
        s
    }
}

pub fn es<T, X: std::fmt::Display>(r: Result<T, X>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}
