//! Searches over seeds: forks one cold process per run, collects what each run covered, minimises and
//! confirms what fails, writes replay and evidence files.
#![allow(static_mut_refs)]

use crate::exec;
use crate::faults::*;
use crate::plan::*;
use crate::rng::hash;
use crate::shm::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn prctl(o: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
}

const CPU_LIMIT: u64 = 60;
const WALL_LIMIT: u32 = 240;
const MEM_LIMIT: u64 = 6 << 30;

#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub status: u32,
    pub class: String,
    pub msg: String,
    pub log: u64,
    pub switch: u64,
    pub steps: u64,
    pub switches: u64,
    pub clock: u64,
    pub n_fault: u32,
}

impl Out {
    pub fn bad(&self) -> bool {
        self.status == ST_VIOL
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    pub log_hash: String,
    pub found_by: String,
    pub plan: Plan,
}

fn limits() {
    unsafe {
        setrlimit(0, &[CPU_LIMIT, CPU_LIMIT + 5]);
        setrlimit(4, &[0, 0]);
        setrlimit(9, &[MEM_LIMIT, MEM_LIMIT]);
        alarm(WALL_LIMIT);
        prctl(1, 9, 0, 0, 0); // die with the worker
    }
}

/// Forks, runs `f` in the child, and reports how the child ended (None: normally).
fn forked(f: impl FnOnce() -> ()) -> Option<i32> {
    unsafe {
        let p = fork();
        if p == 0 {
            limits();
            f();
            crate::rt::exit_group(99);
        }
        if p < 0 {
            eprintln!("sim: fork failed");
            std::process::exit(2);
        }
        let mut st = 0;
        while waitpid(p, &mut st, 0) < 0 {}
        if st & 127 != 0 {
            return Some(st & 127);
        }
        if (st >> 8) & 255 != 0 {
            return Some(1000 + ((st >> 8) & 255));
        }
        None
    }
}

pub struct Bench {
    pub shm: *mut Shm,
    cache: BTreeMap<String, Option<String>>,
    pub references: u64,
    pub skipped: u64,
}

impl Bench {
    pub fn new() -> Bench {
        Bench { shm: Shm::new(), cache: BTreeMap::new(), references: 0, skipped: 0 }
    }

    fn reference(&mut self, c: &Call) -> Option<String> {
        let k = serde_json::to_string(c).unwrap();
        if let Some(r) = self.cache.get(&k) {
            return r.clone();
        }
        unsafe {
            let keep = (*self.shm).cnt;
            (*self.shm).reset();
            let shm = self.shm;
            let sig = forked(|| exec::reference_child(c, shm));
            (*self.shm).cnt = keep;
            self.references += 1;
            let r = if sig.is_none() && (*shm).status == ST_OK {
                let n = (*shm).out_len as usize;
                Some(String::from_utf8_lossy(&(&(*shm).out)[..n]).into_owned())
            } else {
                None
            };
            if self.cache.len() > 40_000 {
                self.cache.clear();
            }
            self.cache.insert(k, r.clone());
            r
        }
    }

    /// Executes one plan in a cold process. None: not judged, because a call it makes ends a fresh
    /// process all by itself (no property about histories or interleavings is at stake).
    pub fn exec(&mut self, p: &Plan, verbose: bool) -> Option<Out> {
        let mut refs = BTreeMap::new();
        if !matches!(p.prop.as_str(), "C04" | "C10" | "C20" | "C27") {
            for (id, c) in exec::plan_calls(p) {
                match self.reference(&c) {
                    Some(r) => {
                        refs.insert(id, r);
                    }
                    None => {
                        self.skipped += 1;
                        return None;
                    }
                }
            }
        } else {
            for (id, c) in exec::plan_calls(p) {
                if let Some(r) = self.reference(&c) {
                    refs.insert(id, r);
                }
            }
        }
        unsafe {
            (*self.shm).reset();
            let shm = self.shm;
            let sig = forked(|| exec::child(p.clone(), refs, shm, verbose));
            let m = &mut *self.shm;
            if m.status == ST_RUNNING {
                let at = m.where_str();
                m.status = ST_VIOL;
                match sig {
                    Some(24) | Some(14) | Some(9) => {
                        m.set_class("hang");
                        m.set_msg(&format!("the run did not finish (ended by signal {}) while at {}", sig.unwrap(), at));
                    }
                    Some(s) if s < 1000 => {
                        m.set_class("abort");
                        m.set_msg(&format!("the process died by signal {} at {}", s, at));
                    }
                    s => {
                        m.set_class("exit");
                        m.set_msg(&format!("the process ended itself ({:?}) at {}", s, at));
                    }
                }
            }
            Some(Out {
                status: m.status,
                class: m.class_str(),
                msg: m.msg_str(),
                log: m.log_hash,
                switch: m.switch_hash,
                steps: m.steps,
                switches: m.switches,
                clock: m.clock,
                n_fault: m.n_fault,
            })
        }
    }

    /// The plan with every decision and fault of the last execution made explicit.
    pub fn pinned(&self, p: &Plan) -> Plan {
        let mut q = p.clone();
        unsafe {
            let m = &*self.shm;
            q.decisions = Some(m.dec[..m.n_dec as usize].iter().map(|d| [d.task, d.op, d.step, d.next]).collect());
            q.faults = Some(m.faults[..m.n_fault as usize].iter().map(|f| (f.task, f.op, f.io, f.kind, f.a)).collect());
        }
        q
    }
}

// ---------------------------------------------------------------- minimisation

struct Min<'a> {
    b: &'a mut Bench,
    class: String,
    best: Plan,
    out: Out,
    left: u32,
    t0: Instant,
}

impl<'a> Min<'a> {
    fn attempt(&mut self, q: Plan) -> bool {
        if self.left == 0 || self.t0.elapsed().as_secs() > 90 {
            return false;
        }
        self.left -= 1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.b.exec(&q, false)));
        if let Ok(Some(o)) = r {
            if o.bad() && o.class == self.class {
                self.best = q;
                self.out = o;
                return true;
            }
        }
        false
    }

    /// Removes chunks of a list while the failure stays.
    fn list<T: Clone>(&mut self, get: impl Fn(&Plan) -> Vec<T>, set: impl Fn(&mut Plan, Vec<T>)) {
        let mut v = get(&self.best);
        if v.is_empty() {
            return;
        }
        let mut q = self.best.clone();
        set(&mut q, vec![]);
        if self.attempt(q) {
            return;
        }
        let mut k = v.len().div_ceil(2);
        loop {
            let mut i = 0;
            while i < v.len() {
                let mut w = v.clone();
                w.drain(i..(i + k).min(w.len()));
                let mut q = self.best.clone();
                set(&mut q, w.clone());
                if self.attempt(q) {
                    v = w;
                } else {
                    i += k;
                }
            }
            if k == 1 {
                break;
            }
            k = k.div_ceil(2);
        }
    }

    fn change(&mut self, f: impl Fn(&mut Plan)) {
        let mut q = self.best.clone();
        f(&mut q);
        self.attempt(q);
    }

    fn all(&mut self) {
        for t in 0..self.best.tasks.len() {
            self.list(|p| p.tasks[t].clone(), |p, v| p.tasks[t] = v);
        }
        self.list(|p| p.last.clone(), |p, v| p.last = v);
        self.list(|p| p.faults.clone().unwrap_or_default(), |p, v| p.faults = Some(v));
        self.list(|p| p.decisions.clone().unwrap_or_default(), |p, v| p.decisions = Some(v));
        self.change(|p| {
            p.regime.slice = 0;
            p.regime.latency = 0;
        });
        self.change(|p| p.regime.latency = 0);
        self.change(|p| p.persist = None);
        self.change(|p| p.alias = vec![]);
        for i in 0..self.best.files.len() {
            for g in 0..self.best.files[i].gens.len() {
                self.list(|p| p.files[i].gens[g].dmg.clone(), |p, v| p.files[i].gens[g].dmg = v);
                for _ in 0..8 {
                    let before = self.best.files[i].gens[g].doc.n_pk;
                    self.change(|p| p.files[i].gens[g].doc.n_pk /= 2);
                    if self.best.files[i].gens[g].doc.n_pk == before {
                        break;
                    }
                }
                for _ in 0..8 {
                    let before = self.best.files[i].gens[g].doc.n_pkc;
                    self.change(|p| p.files[i].gens[g].doc.n_pkc /= 2);
                    if self.best.files[i].gens[g].doc.n_pkc == before {
                        break;
                    }
                }
                self.change(|p| p.files[i].gens[g].doc.n_removed = 0);
            }
        }
        self.change(|p| p.versions = vec![]);
        self.texts();
    }

    /// Shortens the texts that operations are given.
    fn texts(&mut self) {
        for t in 0..self.best.tasks.len() {
            for i in 0..self.best.tasks[t].len() {
                let get = |p: &Plan| match p.tasks.get(t).and_then(|x| x.get(i)) {
                    Some((_, Op::Probe(Call::Tree(s) | Call::Spec(s) | Call::AnySpec(s)) | Op::Vers(s, _))) => s.chars().collect::<Vec<char>>(),
                    Some((_, Op::Custom { text, .. })) => text.chars().collect(),
                    _ => vec![],
                };
                let set = |p: &mut Plan, v: Vec<char>| match &mut p.tasks[t][i].1 {
                    Op::Probe(Call::Tree(s) | Call::Spec(s) | Call::AnySpec(s)) | Op::Vers(s, _) => *s = v.into_iter().collect(),
                    Op::Custom { text, .. } => *text = v.into_iter().collect(),
                    _ => {}
                };
                self.list(get, set);
                let get = |p: &Plan| match p.tasks.get(t).and_then(|x| x.get(i)) {
                    Some((_, Op::Each { texts, .. })) => texts.clone(),
                    _ => vec![],
                };
                let set = |p: &mut Plan, v: Vec<String>| {
                    if let Op::Each { texts, .. } = &mut p.tasks[t][i].1 {
                        *texts = v
                    }
                };
                self.list(get, set);
            }
        }
    }
}

fn replay_of(b: &mut Bench, seed: u64, run: u64, thorough: bool, first: &Out) -> Option<Replay> {
    let prop_plan = |prop: &str| make(prop, seed, run, thorough);
    let prop = unsafe { PROP.clone() };
    let p = prop_plan(&prop);
    // again from the seed
    let o = b.exec(&p, false)?;
    if !o.bad() || o.class != first.class {
        return None;
    }
    let pinned = b.pinned(&p);
    let found_by = format!("VERIF_SEED={} run {}{}", seed, run, if thorough { " (thorough)" } else { "" });
    let full = b.exec(&pinned, false);
    let (plan, out) = match full {
        Some(f) if f.bad() && f.class == o.class => {
            let mut m = Min { b, class: o.class.clone(), best: pinned, out: f, left: 500, t0: Instant::now() };
            if m.class == "hang" {
                m.left = 12;
            }
            m.all();
            let (best, out) = (m.best, m.out);
            (best, out)
        }
        // too many decisions to record: the seed itself is the replay
        _ => (p, o),
    };
    Some(Replay {
        property: prop,
        class: out.class.clone(),
        message: out.msg.clone(),
        log_hash: format!("{:016x}", out.log),
        found_by,
        plan,
    })
}

static mut PROP: String = String::new();

// ---------------------------------------------------------------- the search

#[repr(C)]
struct Rec {
    log: u64,
    switch: u64,
    steps: u64,
    clock: u64,
    done: u32,
    faulty: u32,
}

struct Board {
    next: &'static AtomicU64,
    fail: &'static AtomicU64,
    harness: &'static AtomicU64,
    refs: &'static AtomicU64,
    skipped: &'static AtomicU64,
    recs: *mut Rec,
}

fn board(from: u64, runs: u64) -> Board {
    let a = alloc_shared(4096) as *const AtomicU64;
    let recs = alloc_shared(runs as usize * std::mem::size_of::<Rec>()) as *mut Rec;
    unsafe {
        (*a).store(from, Ordering::SeqCst);
        (*a.add(8)).store(u64::MAX, Ordering::SeqCst);
        Board { next: &*a, fail: &*a.add(8), harness: &*a.add(16), refs: &*a.add(24), skipped: &*a.add(32), recs }
    }
}

pub struct Res {
    pub runs: u64,
    pub fail: Option<u64>,
    pub harness: bool,
    pub sched: BTreeSet<u64>,
    pub hist: BTreeSet<u64>,
    pub cov: Vec<bool>,
    pub cnt: [u64; N_CNT],
    pub sim_ns: u128,
    pub steps: u64,
    pub with_faults: u64,
    pub refs: u64,
    pub skipped: u64,
    pub logs: Vec<u64>,
    pub wall: f64,
}

/// Executes runs 0..runs of the property's plans over `workers` processes.
pub fn search(prop: &str, seed: u64, from: u64, runs: u64, thorough: bool, workers: usize, deadline: f64, stop: bool) -> Res {
    let t0 = Instant::now();
    let bd = board(from, runs);
    let mut pids = vec![];
    let mut shms = vec![];
    for _ in 0..workers {
        let shm = Shm::new();
        shms.push(shm);
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            let mut b = Bench { shm, cache: BTreeMap::new(), references: 0, skipped: 0 };
            loop {
                let i = bd.next.fetch_add(1, Ordering::SeqCst);
                if i >= runs || i > bd.fail.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > deadline {
                    break;
                }
                let p = make(prop, seed, i, thorough);
                let injected = |b: &Bench| -> u64 {
                    let c = unsafe { &(*b.shm).cnt };
                    KINDS.iter().map(|k| c[k.0 as usize]).sum::<u64>() + (0..N_DMG).map(|i| c[DMG0 as usize + i]).sum::<u64>()
                };
                let before = injected(&b);
                let o = b.exec(&p, false);
                let r = unsafe { &mut *bd.recs.add(i as usize) };
                r.done = 1;
                r.faulty = (injected(&b) > before) as u32;
                if let Some(o) = o {
                    r.log = o.log;
                    r.switch = o.switch;
                    r.steps = o.steps;
                    r.clock = o.clock;
                    r.done = 2;
                    if o.status == ST_HARNESS {
                        eprintln!("sim: run {} of {}: the harness is at fault: {}", i, prop, o.msg);
                        bd.harness.fetch_add(1, Ordering::SeqCst);
                    }
                    if o.bad() {
                        if stop {
                            bd.fail.fetch_min(i, Ordering::SeqCst);
                        } else {
                            eprintln!("run {}: {}: {}", i, o.class, o.msg);
                        }
                    }
                }
            }
            bd.refs.fetch_add(b.references, Ordering::SeqCst);
            bd.skipped.fetch_add(b.skipped, Ordering::SeqCst);
            crate::rt::exit_group(0);
        }
        pids.push(pid);
    }
    let mut died = false;
    for p in pids {
        unsafe {
            let mut st = 0;
            while waitpid(p, &mut st, 0) < 0 {}
            if st != 0 {
                died = true;
                eprintln!("sim: a worker process ended with status {:#x}", st);
            }
        }
    }
    let mut cnt = [0u64; N_CNT];
    let mut cov = vec![false; MAX_COV];
    for s in shms {
        unsafe {
            for i in 0..N_CNT {
                if i >= 140 {
                    cnt[i] = cnt[i].max((*s).cnt[i]);
                } else {
                    cnt[i] += (*s).cnt[i];
                }
            }
            for i in 0..MAX_COV {
                cov[i] |= (*s).cov[i] != 0;
            }
        }
    }
    let (mut sched, mut hist) = (BTreeSet::new(), BTreeSet::new());
    let (mut n, mut ns, mut steps, mut wf) = (0, 0u128, 0, 0);
    let mut logs = vec![];
    for i in from..runs {
        let r = unsafe { &*bd.recs.add(i as usize) };
        if r.done == 2 {
            n += 1;
            sched.insert(r.switch);
            hist.insert(r.log);
            ns += r.clock as u128;
            steps += r.steps;
            if r.faulty > 0 {
                wf += 1;
            }
        }
        logs.push(r.log);
    }
    let f = bd.fail.load(Ordering::SeqCst);
    Res {
        runs: n,
        fail: if f == u64::MAX { None } else { Some(f) },
        harness: died || bd.harness.load(Ordering::SeqCst) > 0,
        sched,
        hist,
        cnt,
        cov,
        sim_ns: ns,
        steps,
        with_faults: wf,
        refs: bd.refs.load(Ordering::SeqCst),
        skipped: bd.skipped.load(Ordering::SeqCst),
        logs,
        wall: t0.elapsed().as_secs_f64(),
    }
}

/// Runs of the quick tier.
fn runs_of(prop: &str) -> u64 {
    match prop {
        "C01" => 60_000,
        "C02" => 60_000,
        "C03" => 100_000,
        "C04" => 20_000,
        "C05" => 12_000,
        "C06" => 10_000,
        "C07" => 40_000,
        "C08" => 20_000,
        "C09" => 12_000,
        "C10" => 60_000,
        "C20" => 20_000,
        "C21" => 18_000,
        "C22" => 30_000,
        "C23" => 4_000,
        "C24" => 6_000,
        "C25" => 40_000,
        "C26" => 12_000,
        "C27" => 40_000,
        _ => 40_000,
    }
}

pub fn check(prop: &str, tier: &str, seed: u64, workers: usize, root: &str, runs: Option<u64>) -> i32 {
    unsafe { PROP = prop.to_string() };
    let thorough = tier == "thorough";
    let runs = runs.unwrap_or(runs_of(prop) * if thorough { 60 } else { 1 });
    let deadline = if thorough { 6.0 * 3600.0 } else { 420.0 };
    let t0 = Instant::now();
    let mut r = search(prop, seed, 0, runs, thorough, workers, deadline, true);
    let mut code = 0;
    let mut violations = 0;
    let mut unconfirmed = 0u64;
    let mut sample = vec![];
    while let Some(i) = r.fail {
        let mut b = Bench::new();
        let mut confirmed = None;
        for _ in 0..3 {
            let p = make(prop, seed, i, thorough);
            if let Some(o) = b.exec(&p, false) {
                if o.bad() {
                    if let Some(x) = replay_of(&mut b, seed, i, thorough, &o) {
                        confirmed = Some(x);
                        break;
                    }
                }
            }
        }
        if let Some(rep) = confirmed {
            let dir = format!("{}/replays", root);
            std::fs::create_dir_all(&dir).unwrap();
            let path = format!("{}/{}-{}-{}.json", dir, prop, seed, i);
            std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
            // a separate process must fail in the same way from the file alone
            let ok = (0..2).any(|_| {
                let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &path]).output();
                matches!(&o, Ok(o) if o.status.code() == Some(1))
            });
            if ok {
                println!("{}: {} (run {} of seed {})", rep.class, rep.message, i, seed);
                println!("VIOLATION property={} replay={}", prop, path);
                violations = 1;
                code = 1;
                break;
            }
        }
        // Not repeatable, so not a finding about the library: say so and go on.
        unconfirmed += 1;
        println!("sim: run {} of seed {} failed, but not again; it is not reported", i, seed);
        if unconfirmed > 5 {
            code = 2;
            break;
        }
        let mut n = search(prop, seed, i + 1, runs, thorough, workers, deadline - t0.elapsed().as_secs_f64(), true);
        let keep = r.logs[..=i as usize].to_vec();
        n.logs.splice(0..0, keep);
        n.runs += r.runs;
        n.sched.append(&mut r.sched);
        n.hist.append(&mut r.hist);
        for k in 0..N_CNT {
            n.cnt[k] = if k >= 140 { n.cnt[k].max(r.cnt[k]) } else { n.cnt[k] + r.cnt[k] };
        }
        for k in 0..MAX_COV {
            n.cov[k] |= r.cov[k];
        }
        n.sim_ns += r.sim_ns;
        n.steps += r.steps;
        n.with_faults += r.with_faults;
        n.refs += r.refs;
        n.skipped += r.skipped;
        n.wall += r.wall;
        n.harness |= r.harness;
        r = n;
    }
    if code == 0 && r.harness {
        code = 2;
    }
    for i in 0..3u64.min(runs) {
        let p = make(prop, seed, i, thorough);
        let mut s = serde_json::to_string(&p).unwrap();
        if s.len() > 1800 {
            let mut k = 1800;
            while !s.is_char_boundary(k) {
                k -= 1
            }
            s.truncate(k);
            s.push('…');
        }
        sample.push(serde_json::json!({"run": i, "plan": s, "log_hash": format!("{:016x}", r.logs[i as usize])}));
    }
    write_evidence(prop, tier, seed, &r, sample, violations, unconfirmed, t0.elapsed().as_secs_f64(), root);
    println!(
        "{} {}: {} runs, {} distinct histories, {} distinct schedules, {} with faults, {:.1} s; exit {}",
        prop, tier, r.runs, r.hist.len(), r.sched.len(), r.with_faults, r.wall, code
    );
    code
}

fn stubs(prop: &str) -> serde_json::Value {
    let mut stub: Vec<&str> = vec!["thread scheduler (baton over real threads, seeded)", "futex waits and wakes", "clocks and sleeps", "randomness (getrandom)"];
    let mut real: Vec<&str> = vec!["libronda core crate (all of it, built from /repo/core)", "Rust std", "regex", "lazy_static"];
    if matches!(prop, "C01" | "C02" | "C03" | "C05" | "C06" | "C07" | "C11" | "C08" | "C09" | "C21" | "C22" | "C24" | "C25" | "C26" | "C27") {
        real.push("serde, serde_json");
        stub.push("file system and its system calls (open, read, stat, seek, close, mmap refused)");
    }
    if prop == "C11" || prop == "C22" {
        stub.push("network between coordinator and workers");
    }
    serde_json::json!({"real": real, "stub": stub})
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "Each run: 1-3 generated indexes, 1-3 threads loading them, one regime of open/read/stat/seek/close errors, interruptions, premature ends, read slicing; every case differs in documents, fault places or schedule. Distinct and non-trivial: a recorded history (every scheduling switch, storage call result, injected fault and outcome) not seen in another run of this check.",
        "C02" => "Each run: 1-2 valid indexes in a random legal JSON encoding, loaded by 1-3 threads while storage slices, interrupts and delays reads and misreports sizes. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C03" => "Each run: 1-4 indexes, each damaged at rest by 1-3 of 24 damage kinds (or flipped or cut in flight), loaded and compared with an independent reading of the damaged bytes. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C04" => "Each run: 1-3 threads turning damaged constraint texts into trees, single constraints and combined trees, between undamaged ones whose answers are compared with a fresh process. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C05" => "Each run: 1-3 files with 2-6 generations, loader threads, a replacing thread per file, clock jumps, slow and sliced reads, equal sizes, times and inodes. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C06" => "Each run: loads under errors, damage and replacement in 1-3 threads, then faults stop and every file is loaded again; some runs are failure storms or heap probes of 60 loads. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C07" => "Each run: loads of one file while one kind of failure persists at one stage, or during a finite burst of interruptions, with steps, allocations and storage calls bounded. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C08" => "Each run: 2-4 threads of 1-5 calls each on shared and own objects, in a cold process, preempted at any edge, load, store or blocking call; each answer is compared with that of the same call alone in a fresh process. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C09" => "Each run: histories of 4-30 calls per thread (sometimes thousands) with repeats, refusals and panics; each answer is compared with that of the same call alone in a fresh process. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C10" => "Each run: 1-3 threads parsing with caller-supplied parsers that return parts, fail, panic, stall or call the library again. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C20" => "Each run: 1-3 threads parsing damaged version texts and using what is accepted in every way, between undamaged ones whose answers are compared with a fresh process. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C21" => "Each run: 1-3 indexes read as streams in ten ways (any reader, buffers, text, JSON values) by 1-3 threads while the source slices, interrupts, delays, breaks off or damages the stream. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C22" => "Each run: an index of up to 60 dotted-number versions from which 1-3 constraint expressions select, evaluated by 1-3 workers over a network that loses, duplicates, delays and partitions messages and workers that crash; compared with an independent evaluation. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C23" => "Each run: hundreds to thousands of calls with distinct texts (accepted, refused or ended by a panic) in 1-2 threads, with the library's net heap use of every call recorded. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C24" => "Each run: threads that begin, call the library, hand objects over and end (some by a panic), with calls from thread-local destructors and on objects whose makers have ended; each answer is compared with that of the same call alone in a fresh process. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C25" => "Each run: calls under random environment variables, working directory, wall clock and clock jumps, thread names, heap addresses and hash keys; each answer is compared with that of the same call in a fresh process with none of these. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C26" => "Each run: 1-3 threads loading files that other threads rewrite in place piece by piece; each accepted index is compared with an independent reading of the bytes that load was given. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        "C27" => "Each run: 1-3 threads loading indexes (by path or as streams) with grown numbers and other damage while storage slices, breaks off and misreports sizes, or turning texts with grown numbers into versions and constraints and using them; the most memory the library holds at once in each call is compared with the length of the data. Distinct and non-trivial: a recorded history not seen in another run of this check.",
        _ => "Each run: an index of up to 120 dotted-number versions ranked by 1-4 workers over a network that loses, duplicates, delays and partitions messages and workers that crash. Distinct and non-trivial: a recorded history not seen in another run of this check.",
    }
}

fn write_evidence(prop: &str, tier: &str, seed: u64, r: &Res, samples: Vec<serde_json::Value>, violations: u64, unconfirmed: u64, wall: f64, root: &str) {
    let mut faults = serde_json::Map::new();
    for (k, n) in KINDS.iter() {
        if r.cnt[*k as usize] > 0 {
            faults.insert(n.to_string(), r.cnt[*k as usize].into());
        }
    }
    for i in 0..N_DMG {
        let c = r.cnt[DMG0 as usize + i];
        if c > 0 {
            faults.insert(format!("stored_{}", DMG_NAMES[i]), c.into());
        }
    }
    let mut errnos = serde_json::Map::new();
    for (i, e) in OPEN_ERRNOS.iter().enumerate() {
        if r.cnt[E0 + i] > 0 {
            errnos.insert(format!("open:{}", errno_name(*e)), r.cnt[E0 + i].into());
        }
    }
    for (i, e) in READ_ERRNOS.iter().enumerate() {
        if r.cnt[R0 + i] > 0 {
            errnos.insert(format!("read:{}", errno_name(*e)), r.cnt[R0 + i].into());
        }
    }
    let mut probes = serde_json::Map::new();
    for (i, n) in PROBES.iter() {
        if r.cnt[*i] > 0 {
            probes.insert(n.to_string(), r.cnt[*i].into());
        }
    }
    for (i, n) in exec::exec_probe_names().iter().enumerate() {
        if r.cnt[140 + i] > 0 {
            probes.insert(n.to_string(), r.cnt[140 + i].into());
        }
    }
    let hours = r.wall / 3600.0;
    let edges = unsafe { crate::rt::N_GUARDS };
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": r.runs,
            "distinct_nontrivial": r.hist.len(),
            "rule": rule(prop),
            "samples": samples,
            "simulated_runs": r.runs,
            "seeds_per_hour": (r.runs as f64 / hours) as u64,
            "simulated_seconds": r.sim_ns as f64 / 1e9,
            "scheduling_steps": r.steps,
            "distinct_schedules": r.sched.len(),
            "distinct_schedules_measure": "hash of the sequence of (task, operation, step, next task) switches",
            "runs_with_injected_faults": r.with_faults,
            "faults_injected": faults,
            "errnos_injected": errnos,
            "observed": probes,
            "fresh_process_references": r.refs,
            "runs_not_judged_reference_died": r.skipped,
            "edges_reached_in_library_and_driver": r.cov.iter().filter(|x| **x).count(),
            "edges_instrumented": edges,
            "components": stubs(prop),
        },
        "assumptions": [
            "memory is sequentially consistent between scheduling points (edges, loads, stores and blocking calls of instrumented code)",
            "code inside regex, serde and std that is not instantiated in the library crate runs without preemption between its blocking calls",
            "the harness's independent reading of JSON, and its numeric order, are right"
        ],
        "wall_s": wall,
        "violations": violations,
        "failures_that_did_not_repeat": unconfirmed,
    });
    let dir = format!("{}/evidence", root);
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
}

pub fn replay(path: &str, verbose: bool) -> i32 {
    let rep: Replay = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    unsafe { PROP = rep.property.clone() };
    let mut b = Bench::new();
    match b.exec(&rep.plan, verbose) {
        Some(o) if o.bad() && o.class == rep.class => {
            let exact = format!("{:016x}", o.log) == rep.log_hash;
            println!("{}: {}", o.class, o.msg);
            println!("history hash {:016x} ({})", o.log, if exact { "as recorded" } else { "differs from the recorded one" });
            println!("VIOLATION property={} replay={}", rep.property, path);
            1
        }
        o => {
            println!("not reproduced: {:?}", o.map(|o| (o.class, o.msg)));
            0
        }
    }
}

/// One run, with a trace on standard error.
pub fn show(prop: &str, seed: u64, run: u64, thorough: bool, verbose: bool) -> i32 {
    unsafe { PROP = prop.to_string() };
    let p = make(prop, seed, run, thorough);
    if verbose {
        eprintln!("{}", serde_json::to_string_pretty(&p).unwrap());
    }
    let mut b = Bench::new();
    let t = Instant::now();
    let o = b.exec(&p, verbose);
    println!("{:?} in {:?}", o, t.elapsed());
    0
}

/// The same seeds must give the same histories, run after run and however many workers share them; and
/// replaying a run from its recorded decisions must give the same history as the run itself.
pub fn selftest(seed: u64) -> i32 {
    let mut bad = 0;
    for prop in PROPS {
        let n = 150;
        let a = search(prop, seed, 0, n, false, 8, 600.0, false);
        let b = search(prop, seed, 0, n, false, 3, 600.0, false);
        let diff = (0..n as usize).filter(|&i| a.logs[i] != b.logs[i]).count();
        let mut be = Bench::new();
        let mut rdiff = 0;
        for i in 0..60 {
            let p = make(prop, seed, i, false);
            if let Some(o) = be.exec(&p, false) {
                let full = unsafe { ((*be.shm).n_dec as usize) < MAX_DEC && ((*be.shm).n_fault as usize) < MAX_FAULT };
                if !full {
                    continue;
                }
                let q = be.pinned(&p);
                let o2 = be.exec(&q, false).unwrap();
                if o2.log != o.log {
                    rdiff += 1;
                    eprintln!("{} run {}: the replayed history differs", prop, i);
                }
            }
        }
        println!("{}: {} runs twice, {} differ; 60 replays, {} differ", prop, n, diff, rdiff);
        bad += diff + rdiff;
    }
    (bad > 0) as i32
}

#[allow(dead_code)]
fn unused() -> u64 {
    hash(&[1])
}

/// Executes the same runs and their replays over and over (development: hunts for anything left
/// outside the simulator's control).
pub fn stress(prop: &str, seed: u64, from: u64, runs: u64, times: u64) -> i32 {
    let mut be = Bench::new();
    let mut bad = 0;
    for i in from..from + runs {
        let p = make(prop, seed, i, false);
        let first = match be.exec(&p, false) {
            Some(o) => o,
            None => continue,
        };
        if unsafe { (*be.shm).n_dec as usize >= MAX_DEC || (*be.shm).n_fault as usize >= MAX_FAULT } {
            continue;
        }
        let q = be.pinned(&p);
        if times == 0 {
            be.exec(&p, true);
            eprintln!("==== replay");
            be.exec(&q, true);
        }
        for k in 0..times {
            for (what, x) in [("run", &p), ("replay", &q)] {
                let o = be.exec(x, false).unwrap();
                if o.log != first.log {
                    bad += 1;
                    println!("{} run {} {} {}: differs ({:?} / {:?})", prop, i, what, k, o.class, first.class);
                }
            }
        }
    }
    println!("{} differ", bad);
    (bad > 0) as i32
}
