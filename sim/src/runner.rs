//! Runs, workers, minimisation, replay files and evidence.
//! Every run is executed in a process forked for it, so it starts from the pristine state of the
//! program and its outcome is a function of its choices and the code only.

use crate::ctx::{Ctx, Violation, R};
use crate::seams;
use crate::src::{hash_str, mix, Src};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R<()>,
    pub quick_runs: u64,
    pub quick_secs: u64,
    pub thorough_secs: u64,
    /// what a run is, and when it counts as non trivial
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// known findings: key, and a probe that says what still fails
    pub findings: &'static [(&'static str, fn(&mut Ctx) -> Option<String>)],
    /// probes that have to be reached in every batch of a reasonable size
    pub reach: &'static [&'static str],
}

#[derive(Default)]
pub struct Out {
    pub violation: Option<Violation>,
    pub choices: Vec<u64>,
    pub spans: Vec<(u32, u32)>,
    pub hash: u64,
    pub nev: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub checks: u64,
    pub calls: u64,
    pub sim_ns: u64,
    pub trace: Vec<String>,
    pub known: Vec<String>,
    /// the process of the run ended by itself
    pub died: bool,
}

const SHM: usize = 48 << 20;
const SPILL_AT: usize = 44 << 20;

pub struct Shm {
    base: *mut u8,
}

impl Shm {
    pub fn new(size: usize) -> Shm {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                size,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        if p == libc::MAP_FAILED {
            eprintln!("ksim: no shared memory");
            std::process::exit(3);
        }
        Shm { base: p as *mut u8 }
    }
    fn word(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(i * 8) as *const AtomicU64) }
    }
    unsafe fn put(&self, at: usize, b: &[u8]) {
        std::ptr::copy_nonoverlapping(b.as_ptr(), self.base.add(at), b.len());
    }
    unsafe fn get(&self, at: usize, n: usize) -> &[u8] {
        std::slice::from_raw_parts(self.base.add(at), n)
    }
}

pub enum Job<'a> {
    Seed(u64),
    Choices(&'a [u64]),
}

/// Execute one run in this process
fn execute(prop: &Prop, src: Src, thorough: bool, trace: bool, which: Option<fn(&mut Ctx) -> Option<String>>) -> Out {
    seams::install_panic_hook();
    seams::set_alloc_limit(6 << 30);
    let mut c = Ctx::new(src, thorough, trace);
    let es = c.src.u64();
    seams::entropy_seed(es);
    seams::set_clock(1_700_000_000, 123_456_789);
    let f = prop.run;
    let r = match which {
        Some(p) => {
            let mut known = vec![];
            let r = crate::ctx::catch(|| p(&mut c));
            match r {
                Ok(Some(k)) => known.push(k),
                Ok(None) => {}
                Err(e) => known.push(format!("panics: {e}")),
            }
            c.known = known;
            Ok(())
        }
        None => match crate::ctx::catch(|| f(&mut c)) {
            Ok(r) => r,
            Err(p) => Err(Violation { class: "panic".into(), msg: format!("panicked: {p}") }),
        },
    };
    Out {
        violation: r.err(),
        hash: c.hash ^ mix(c.src.rec.len() as u64),
        nev: c.nev,
        faults: c.faults.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        probes: c.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        states: c.states.iter().copied().collect(),
        checks: c.checks,
        calls: c.calls,
        sim_ns: c.sim_ns,
        trace: c.trace.take().unwrap_or_default(),
        known: c.known.clone(),
        spans: c.src.spans.clone(),
        choices: std::mem::take(&mut c.src.rec),
        died: false,
    }
}

fn put_map(v: &BTreeMap<String, u64>) -> Value {
    let mut m = Map::new();
    for (k, n) in v {
        m.insert(k.clone(), json!(n));
    }
    Value::Object(m)
}
fn get_map(v: &Value) -> BTreeMap<String, u64> {
    v.as_object()
        .map(|o| o.iter().map(|(k, n)| (k.clone(), n.as_u64().unwrap_or(0))).collect())
        .unwrap_or_default()
}

fn words(out: &mut Vec<u8>, ws: impl ExactSizeIterator<Item = u64>) {
    out.extend((ws.len() as u32).to_le_bytes());
    for w in ws {
        out.extend(w.to_le_bytes());
    }
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.bytes(4).try_into().unwrap())
    }
    fn words(&mut self) -> Vec<u64> {
        let n = self.u32() as usize;
        (0..n).map(|_| u64::from_le_bytes(self.bytes(8).try_into().unwrap())).collect()
    }
}

impl Out {
    fn encode(&self) -> Vec<u8> {
        let v = json!({
            "v": self.violation.as_ref().map(|v| json!([v.class, v.msg])),
            "h": self.hash, "n": self.nev, "f": put_map(&self.faults), "p": put_map(&self.probes),
            "c": self.checks, "l": self.calls, "t": self.sim_ns, "x": self.trace, "k": self.known,
        });
        let s = v.to_string();
        let mut out = vec![];
        out.extend((s.len() as u32).to_le_bytes());
        out.extend(s.as_bytes());
        words(&mut out, self.states.iter().copied());
        words(&mut out, self.choices.iter().copied());
        words(&mut out, self.spans.iter().map(|(a, b)| ((*a as u64) << 32) | *b as u64));
        out
    }
    fn decode(b: &[u8]) -> Out {
        let mut r = Rd(b);
        let n = r.u32() as usize;
        let v: Value = serde_json::from_slice(r.bytes(n)).unwrap_or(Value::Null);
        let strs = |v: &Value| -> Vec<String> {
            v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default()
        };
        Out {
            violation: v["v"].as_array().map(|a| Violation {
                class: a[0].as_str().unwrap_or("").into(),
                msg: a[1].as_str().unwrap_or("").into(),
            }),
            hash: v["h"].as_u64().unwrap_or(0),
            nev: v["n"].as_u64().unwrap_or(0),
            faults: get_map(&v["f"]),
            probes: get_map(&v["p"]),
            checks: v["c"].as_u64().unwrap_or(0),
            calls: v["l"].as_u64().unwrap_or(0),
            sim_ns: v["t"].as_u64().unwrap_or(0),
            trace: strs(&v["x"]),
            known: strs(&v["k"]),
            states: r.words(),
            choices: r.words(),
            spans: r.words().into_iter().map(|w| ((w >> 32) as u32, w as u32)).collect(),
            died: false,
        }
    }
}

pub struct Exec {
    shm: Shm,
    pub thorough: bool,
    pub cpu: u64,
}

impl Exec {
    pub fn new(thorough: bool) -> Exec {
        Exec { shm: Shm::new(SHM), thorough, cpu: if thorough { 100 } else { 40 } }
    }

    /// Execute one run in a process of its own
    pub fn go(&self, prop: &Prop, job: Job, trace: bool, which: Option<fn(&mut Ctx) -> Option<String>>) -> Out {
        self.shm.word(0).store(0, SeqCst);
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            eprintln!("ksim: cannot fork");
            std::process::exit(3);
        }
        if pid == 0 {
            unsafe {
                let lim = libc::rlimit { rlim_cur: self.cpu, rlim_max: self.cpu + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
            }
            let src = match job {
                Job::Seed(s) => Src::seeded(s),
                Job::Choices(ch) => Src::replaying(ch.to_vec()),
            };
            let mut src = src;
            src.spilled = true;
            crate::src::spill_to(unsafe { self.shm.base.add(SPILL_AT) } as *mut u64);
            let out = execute(prop, src, self.thorough, trace, which);
            let mut b = out.encode();
            if b.len() + 16 > SPILL_AT {
                b = Out { violation: out.violation, hash: out.hash, ..Default::default() }.encode();
            }
            unsafe {
                self.shm.put(16, &b);
                self.shm.word(1).store(b.len() as u64, SeqCst);
                self.shm.word(0).store(1, SeqCst);
                libc::_exit(0);
            }
        }
        let mut st: i32 = 0;
        unsafe {
            while libc::waitpid(pid, &mut st, 0) < 0 {
                if *libc::__errno_location() != libc::EINTR {
                    break;
                }
            }
        }
        if self.shm.word(0).load(SeqCst) == 1 {
            let n = self.shm.word(1).load(SeqCst) as usize;
            return Out::decode(unsafe { self.shm.get(16, n) });
        }
        let (class, msg) = if libc::WIFEXITED(st) {
            match libc::WEXITSTATUS(st) {
                seams::EXIT_UNBOUNDED => ("unbounded-memory", "a call allocated without bound".to_string()),
                78 => ("deadlock", "threads wait for each other for ever".to_string()),
                n => ("exit", format!("the process of the run exited with {n}")),
            }
        } else {
            match libc::WTERMSIG(st) {
                libc::SIGXCPU | libc::SIGKILL => ("unbounded-time", "a run did not end within its processor time".to_string()),
                n => ("abort", format!("the process of the run was ended by signal {n}")),
            }
        };
        let w = SPILL_AT / 8;
        let n = self.shm.word(w).load(SeqCst) as usize;
        let choices = (0..n.min(crate::src::MAX_DRAWS)).map(|i| self.shm.word(w + 1 + i).load(SeqCst)).collect();
        Out {
            violation: Some(Violation { class: class.into(), msg }),
            died: true,
            choices,
            ..Default::default()
        }
    }
}

#[derive(Default)]
pub struct Agg {
    pub runs: u64,
    pub nontrivial: u64,
    pub hashes: HashSet<u64>,
    pub states: HashSet<u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub faulty_runs: u64,
    pub checks: u64,
    pub calls: u64,
    pub events: u64,
    pub sim_ns: u64,
}

impl Agg {
    fn add(&mut self, o: &Out) {
        self.runs += 1;
        let nt = !o.faults.is_empty() || o.nev > 2;
        if nt {
            self.nontrivial += 1;
            self.hashes.insert(o.hash);
        }
        if !o.faults.is_empty() {
            self.faulty_runs += 1;
        }
        if self.states.len() < 4_000_000 {
            self.states.extend(o.states.iter());
        }
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        self.checks += o.checks;
        self.calls += o.calls;
        self.events += o.nev;
        self.sim_ns += o.sim_ns;
    }
    fn encode(&self) -> Vec<u8> {
        let s = json!({"r": self.runs, "n": self.nontrivial, "f": put_map(&self.faults), "p": put_map(&self.probes),
            "u": self.faulty_runs, "c": self.checks, "l": self.calls, "e": self.events, "t": self.sim_ns})
        .to_string();
        let mut out = vec![];
        out.extend((s.len() as u32).to_le_bytes());
        out.extend(s.as_bytes());
        words(&mut out, self.hashes.iter().copied().collect::<Vec<_>>().into_iter());
        words(&mut out, self.states.iter().copied().collect::<Vec<_>>().into_iter());
        out
    }
    fn merge(&mut self, b: &[u8]) {
        let mut r = Rd(b);
        let n = r.u32() as usize;
        let v: Value = serde_json::from_slice(r.bytes(n)).unwrap_or(Value::Null);
        let g = |k: &str| v[k].as_u64().unwrap_or(0);
        self.runs += g("r");
        self.nontrivial += g("n");
        self.faulty_runs += g("u");
        self.checks += g("c");
        self.calls += g("l");
        self.events += g("e");
        self.sim_ns += g("t");
        for (k, n) in get_map(&v["f"]) {
            *self.faults.entry(k).or_insert(0) += n;
        }
        for (k, n) in get_map(&v["p"]) {
            *self.probes.entry(k).or_insert(0) += n;
        }
        self.hashes.extend(r.words());
        self.states.extend(r.words());
    }
}

pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop)).wrapping_add(i))
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub runs: Option<u64>,
    pub secs: Option<u64>,
    pub workers: u64,
    pub evidence: String,
    pub replays: String,
    pub findings: String,
}

fn write_file(path: &str, b: &[u8]) {
    if let Err(e) = std::fs::write(path, b) {
        eprintln!("ksim: cannot write {path}: {e}");
        std::process::exit(3);
    }
}

pub fn check(prop: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let thorough = o.tier == "thorough";
    let secs = o.secs.unwrap_or(if thorough { prop.thorough_secs } else { prop.quick_secs });
    let runs = o.runs.unwrap_or(if thorough { u64::MAX / 2 } else { prop.quick_runs });
    let tmp = format!("/tmp/ksim.{}.{}", prop.id, std::process::id());
    let _ = std::fs::create_dir_all(&tmp);

    // known findings first
    let ex = Exec::new(thorough);
    let listed = std::fs::read_to_string(&o.findings).unwrap_or_default();
    let mut found_known = vec![];
    let mut failed: Option<(u64, Out)> = None;
    for (key, probe) in prop.findings {
        let out = ex.go(prop, Job::Choices(&[]), false, Some(*probe));
        let still = if out.died { Some("ends the process".to_string()) } else { out.known.first().cloned() };
        if let Some(what) = still {
            let tag = format!("finding: property={} key={}", prop.id, key);
            if listed.lines().any(|l| l.starts_with(&tag)) {
                println!("KNOWN-FINDING: property={} {}: {}", prop.id, key, what);
                found_known.push(format!("{key}: {what}"));
            } else {
                failed = Some((
                    0,
                    Out {
                        violation: Some(Violation { class: format!("finding/{key}"), msg: what }),
                        died: true,
                        ..Default::default()
                    },
                ));
            }
        }
    }

    // workers
    let ctl = Shm::new(4096);
    ctl.word(0).store(u64::MAX, SeqCst); // lowest violating run
    ctl.word(1).store(0, SeqCst); // stop
    let mut pids = vec![];
    for w in 0..o.workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let mut agg = Agg::default();
            let ex = Exec::new(thorough);
            let mut i = w;
            while i < runs && ctl.word(1).load(SeqCst) == 0 && i < ctl.word(0).load(SeqCst) {
                let out = ex.go(prop, Job::Seed(run_seed(o.seed, prop.id, i)), false, None);
                agg.add(&out);
                if out.violation.is_some() {
                    ctl.word(0).fetch_min(i, SeqCst);
                    write_file(&format!("{tmp}/v{i}"), &out.encode());
                    if out.died {
                        write_file(&format!("{tmp}/d{i}"), b"1");
                    }
                    break;
                }
                i += o.workers;
            }
            write_file(&format!("{tmp}/w{w}"), &agg.encode());
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    let deadline = t0 + Duration::from_secs(secs);
    let mut bad_worker = false;
    let mut left: Vec<i32> = pids;
    while !left.is_empty() {
        left.retain(|p| {
            let mut st = 0;
            let r = unsafe { libc::waitpid(*p, &mut st, libc::WNOHANG) };
            if r == *p {
                if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                    bad_worker = true;
                }
                return false;
            }
            true
        });
        if Instant::now() > deadline {
            ctl.word(1).store(1, SeqCst);
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    if bad_worker {
        eprintln!("ksim: a worker of the harness failed");
        let _ = std::fs::remove_dir_all(&tmp);
        return 3;
    }
    let mut agg = Agg::default();
    for w in 0..o.workers {
        agg.merge(&std::fs::read(format!("{tmp}/w{w}")).unwrap_or_default());
    }
    let search_s = t0.elapsed().as_secs_f64();
    let min = ctl.word(0).load(SeqCst);
    if failed.is_none() && min != u64::MAX {
        let mut out = Out::decode(&std::fs::read(format!("{tmp}/v{min}")).unwrap_or_default());
        out.died = std::path::Path::new(&format!("{tmp}/d{min}")).exists();
        failed = Some((min, out));
    }
    let _ = std::fs::remove_dir_all(&tmp);

    // determinism: some runs again, their event logs must come out the same
    let again = 24.min(agg.runs);
    let mut differ = 0u64;
    if failed.is_none() {
        for i in 0..again {
            let s = run_seed(o.seed, prop.id, i);
            let a = ex.go(prop, Job::Seed(s), false, None);
            let b = ex.go(prop, Job::Choices(&a.choices), false, None);
            if a.hash != b.hash || a.choices != b.choices {
                differ += 1;
            }
        }
    }

    // samples, written out
    let mut samples = vec![];
    for i in 0..3u64.min(agg.runs) {
        let s = ex.go(prop, Job::Seed(run_seed(o.seed, prop.id, i)), true, None);
        samples.push(json!({"run": i, "run_seed": run_seed(o.seed, prop.id, i), "choices": s.choices.len(),
            "faults": put_map(&s.faults), "events": s.trace.iter().take(40).map(|x| x.chars().take(240).collect::<String>()).collect::<Vec<_>>()}));
    }

    let mut code = 0;
    let mut reported = Value::Null;
    if let Some((i, out)) = &failed {
        let v = out.violation.clone().unwrap();
        let _ = std::fs::create_dir_all(&o.replays);
        let path = format!("{}/{}-{}-{}.json", o.replays, prop.id, o.seed, i);
        let (choices, tried) = if v.class == "unbounded-time" || v.class.starts_with("finding/") {
            (None, 0)
        } else {
            let (c, n) = shrink(prop, &ex, out, if thorough { 60 } else { 20 });
            (Some(c), n)
        };
        let (last, mode) = match &choices {
            Some(ch) => (ex.go(prop, Job::Choices(ch), true, None), "choices"),
            None => (ex.go(prop, Job::Seed(run_seed(o.seed, prop.id, *i)), true, None), "seed"),
        };
        let lv = last.violation.clone().unwrap_or(v.clone());
        let rec = json!({
            "property": prop.id, "tier": o.tier, "seed": o.seed, "run": i, "run_seed": run_seed(o.seed, prop.id, *i),
            "mode": if v.class.starts_with("finding/") { "finding" } else { mode },
            "class": lv.class, "message": lv.msg, "choices": choices.clone().unwrap_or_default(),
            "choices_before_minimising": out.choices.len(), "candidates_tried": tried,
            "hash": last.hash, "trace": last.trace,
        });
        write_file(&path, serde_json::to_string_pretty(&rec).unwrap().as_bytes());
        println!("{}: {}", lv.class, lv.msg);
        for t in last.trace.iter().rev().take(25).collect::<Vec<_>>().iter().rev() {
            println!("  {}", t.chars().take(300).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", prop.id, path);
        reported = json!({"class": lv.class, "message": lv.msg, "replay": path});
        code = 1;
    }

    let wall = t0.elapsed().as_secs_f64();
    let hours = search_s / 3600.0;
    let missed: Vec<&str> = prop.reach.iter().copied().filter(|p| !agg.probes.contains_key(*p)).collect();
    let ev = json!({
        "property": prop.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "wall_s": wall, "violations": if code == 1 { 1 } else { 0 },
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.hashes.len(),
            "rule": prop.rule,
            "samples": samples,
            "simulated_runs": agg.runs,
            "runs_per_hour": (agg.runs as f64 / hours) as u64,
            "seeds_per_hour": (agg.runs as f64 / hours) as u64,
            "simulated_seconds": agg.sim_ns as f64 / 1e9,
            "simulated_events": agg.events,
            "faults_injected": put_map(&agg.faults),
            "runs_with_faults": agg.faulty_runs,
            "runs_without_faults": agg.runs - agg.faulty_runs,
            "distinct_interleavings": agg.hashes.len(),
            "distinct_states": agg.states.len(),
            "state_measure": "distinct digests of what the nodes held after a step, and of full event logs (interleavings)",
            "oracle_checks": agg.checks,
            "library_calls": agg.calls,
            "probes": put_map(&agg.probes),
            "probes_not_reached": missed,
            "real_components": prop.real,
            "stub_components": prop.stub,
            "determinism_runs_repeated": if code == 0 { again } else { 0 },
            "determinism_mismatches": differ,
            "workers": o.workers,
            "known_findings": found_known,
            "violation": reported,
        },
        "assumptions": prop.assumptions,
    });
    if let Some(d) = std::path::Path::new(&o.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    write_file(&o.evidence, serde_json::to_string_pretty(&ev).unwrap().as_bytes());
    println!(
        "{} {}: {} runs ({} distinct, {} with faults), {} oracle checks, {} states, {:.1} simulated s, {:.1}s, determinism mismatches {}{}",
        prop.id,
        o.tier,
        agg.runs,
        agg.hashes.len(),
        agg.faulty_runs,
        agg.checks,
        agg.states.len(),
        agg.sim_ns as f64 / 1e9,
        wall,
        differ,
        if missed.is_empty() { String::new() } else { format!(", not reached: {missed:?}") }
    );
    code
}

/// Make the failing list of choices shorter and simpler while the class of the violation stays
fn shrink(prop: &Prop, ex: &Exec, out: &Out, secs: u64) -> (Vec<u64>, u64) {
    let class = out.violation.as_ref().unwrap().class.clone();
    let t0 = Instant::now();
    let mut best = out.choices.clone();
    let mut spans = out.spans.clone();
    let mut tried = 0u64;
    let budget = Duration::from_secs(secs);
    let try_it = |cand: &[u64], tried: &mut u64| -> Option<(Vec<u64>, Vec<(u32, u32)>)> {
        *tried += 1;
        let o = ex.go(prop, Job::Choices(cand), false, None);
        match o.violation {
            Some(v) if v.class == class => Some((o.choices, o.spans)),
            _ => None,
        }
    };
    // shorter, or same length and lexicographically smaller
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let start = best.clone();
        // delete whole spans, large ones first
        let mut i = 0;
        let mut order: Vec<(u32, u32)> = spans.clone();
        order.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
        while i < order.len() && t0.elapsed() < budget {
            let (a, b) = (order[i].0 as usize, order[i].1 as usize);
            if b <= best.len() && a < b {
                let mut cand = best[..a].to_vec();
                cand.extend_from_slice(&best[b..]);
                if let Some((ch, sp)) = try_it(&cand, &mut tried) {
                    if better(&ch, &best) {
                        best = ch;
                        spans = sp;
                        order = spans.clone();
                        order.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
                        i = 0;
                        continue;
                    }
                }
            }
            i += 1;
        }
        // delete chunks
        let mut k = best.len() / 2;
        while k >= 1 && t0.elapsed() < budget {
            let mut at = 0;
            while at + k <= best.len() && t0.elapsed() < budget {
                let mut cand = best[..at].to_vec();
                cand.extend_from_slice(&best[at + k..]);
                match try_it(&cand, &mut tried) {
                    Some((ch, sp)) if better(&ch, &best) => {
                        best = ch;
                        spans = sp;
                    }
                    _ => at += k,
                }
            }
            if k > 8 && best.len() > 400 && k < 16 {
                break;
            }
            k /= 2;
        }
        // zero chunks
        let mut k = best.len();
        while k >= 1 && t0.elapsed() < budget {
            let mut at = 0;
            while at < best.len() && t0.elapsed() < budget {
                let e = (at + k).min(best.len());
                if best[at..e].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[at..e] {
                        *x = 0;
                    }
                    if let Some((ch, sp)) = try_it(&cand, &mut tried) {
                        if better(&ch, &best) {
                            best = ch;
                            spans = sp;
                        }
                    }
                }
                at += k;
            }
            k /= 2;
        }
        // lower single values
        let mut at = 0;
        while at < best.len() && t0.elapsed() < budget {
            for f in [0u8, 1, 2] {
                if at >= best.len() {
                    break;
                }
                let v = best[at];
                let n = match f {
                    0 => 1,
                    1 => v / 2,
                    _ => v.saturating_sub(1),
                };
                if n < v {
                    let mut cand = best.clone();
                    cand[at] = n;
                    if let Some((ch, sp)) = try_it(&cand, &mut tried) {
                        if better(&ch, &best) {
                            best = ch;
                            spans = sp;
                        }
                    }
                }
            }
            at += 1;
        }
        if best == start || t0.elapsed() >= budget {
            return (best, tried);
        }
    }
}

/// Run a replay file; 1 when it fails the same way
pub fn replay(props: &[Prop], path: &str) -> i32 {
    let v: Value = match std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            eprintln!("ksim: cannot read {path}");
            return 3;
        }
    };
    let id = v["property"].as_str().unwrap_or("");
    let prop = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("ksim: no property {id}");
            return 3;
        }
    };
    let ex = Exec::new(v["tier"] == "thorough");
    let choices: Vec<u64> = v["choices"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let out = match v["mode"].as_str() {
        Some("choices") => ex.go(prop, Job::Choices(&choices), true, None),
        Some("seed") => ex.go(prop, Job::Seed(v["run_seed"].as_u64().unwrap_or(0)), true, None),
        _ => {
            let mut bad = 0;
            for (key, probe) in prop.findings {
                let o = ex.go(prop, Job::Choices(&[]), false, Some(*probe));
                if o.died || !o.known.is_empty() {
                    println!("{key}: {:?}", o.known);
                    bad = 1;
                }
            }
            return bad;
        }
    };
    for t in &out.trace {
        println!("{t}");
    }
    match out.violation {
        Some(x) => {
            println!("{}: {}", x.class, x.msg);
            let same = x.class == v["class"].as_str().unwrap_or("") && (out.died || Some(out.hash) == v["hash"].as_u64());
            println!("event log {} the recorded one", if same { "equals" } else { "differs from" });
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("the replay does not fail");
            0
        }
    }
}

/// Run seeds several times over, in separate processes at different worker counts, and compare
pub fn determinism(prop: &Prop, seed: u64, runs: u64, times: u64) -> i32 {
    let ex = Exec::new(false);
    let mut bad = 0;
    for i in 0..runs {
        let s = run_seed(seed, prop.id, i);
        let a = ex.go(prop, Job::Seed(s), false, None);
        for _ in 0..times {
            let b = ex.go(prop, Job::Seed(s), false, None);
            let r = ex.go(prop, Job::Choices(&a.choices), false, None);
            if a.hash != b.hash || a.choices != b.choices || (!a.died && a.hash != r.hash) {
                bad += 1;
                println!("{} run {i}: {:x} {:x} {:x}", prop.id, a.hash, b.hash, r.hash);
            }
        }
    }
    println!("{} determinism: {runs} runs x {times}, {bad} mismatches", prop.id);
    if bad > 0 {
        1
    } else {
        0
    }
}

pub fn trace(prop: &Prop, seed: u64, run: u64, thorough: bool) -> i32 {
    let ex = Exec::new(thorough);
    let out = ex.go(prop, Job::Seed(run_seed(seed, prop.id, run)), true, None);
    for t in &out.trace {
        println!("{t}");
    }
    println!("faults {:?}\nprobes {:?}\nchecks {} calls {} draws {}", out.faults, out.probes, out.checks, out.calls, out.choices.len());
    if let Some(v) = out.violation {
        println!("{}: {}", v.class, v.msg);
        return 1;
    }
    0
}
