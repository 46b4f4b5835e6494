//! The simulated runtime: baton scheduler over real threads, virtual clock, futexes, thread creation.
#![allow(static_mut_refs)]

use crate::rng::{hash, Rng};
use crate::shm::*;
use crate::vfs::Vfs;
use std::arch::asm;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Runnable,
    Futex(usize, Option<u64>),
    Sleep(u64),
    Join(usize),
    Finished,
}

pub struct Task {
    pub word: AtomicU32,
    pub st: St,
    pub timed_out: bool,
    pub op: u32,
    pub step: u32,
    pub io: u32,
    pub prio: i64,
    pub next_dec: u32,
    pub dec_q: Vec<(u32, u32)>,
    pub os: usize,
    pub loading: bool,
    pub owner: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Strat {
    /// No preemption except where a task blocks.
    Coop,
    /// Preempt on average every `mean` steps.
    Random { mean: u64 },
    /// Random priorities with `depth` demotions within the first `len` steps.
    Pct { depth: u64, len: u64 },
}

pub struct Sim {
    pub shm: *mut Shm,
    pub tasks: Vec<Box<Task>>,
    pub cur: usize,
    pub clock: u64,
    pub skew: i64,
    /// What the process is told about the machine it runs on; 0: the usual things.
    pub machine: u64,
    pub stall: u64,
    pub stalls: u64,
    pub seed: u64,
    pub rng: Rng,
    pub frng: Rng,
    pub hash_rng: Rng,
    pub strat: Strat,
    pub io_pct: u64,
    pub countdown: u64,
    pub change_points: Vec<u64>,
    pub low_prio: i64,
    pub replay: bool,
    pub decs: BTreeMap<(u32, u32), Vec<(u32, u32)>>,
    pub faults: BTreeMap<(u32, u32, u32), (u32, i64)>,
    pub steps: u64,
    pub budget: u64,
    pub op_budget: u64,
    /// Steps added to both budgets because storage makes the work harder.
    pub granted: u64,
    pub op_steps: u64,
    pub log: u64,
    pub vfs: Vfs,
    pub spurious_pct: u64,
    pub wakes: u64,
    pub verbose: bool,
    pub quiet_faults: bool,
    pub key: u32,
    pub net: crate::net::Net,
}

pub static mut SIM: *mut Sim = std::ptr::null_mut();

thread_local! {
    /// Index of the simulated task running on this thread, or -1.
    pub static TASK: Cell<i32> = const { Cell::new(-1) };
    /// Set while harness code runs inside a library call (hooks must not recurse, nor count).
    pub static IN_RT: Cell<bool> = const { Cell::new(false) };
    /// Heap accounting for library calls: (enabled, net bytes).
    pub static HEAP_ON: Cell<bool> = const { Cell::new(false) };
    pub static HEAP_NET: Cell<i64> = const { Cell::new(0) };
    pub static HEAP_TOTAL: Cell<i64> = const { Cell::new(0) };
    pub static HEAP_PEAK: Cell<i64> = const { Cell::new(0) };
}

// ---------------------------------------------------------------- raw system calls

pub unsafe fn raw6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
    fn pthread_key_create(k: *mut u32, d: extern "C" fn(*mut u8)) -> i32;
    fn pthread_setspecific(k: u32, v: *const u8) -> i32;
}

pub unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}

pub unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub const SYS_FUTEX: usize = 202;
pub const SYS_EXIT_GROUP: usize = 231;

unsafe fn park(t: *const Task) {
    loop {
        if (*t).word.swap(0, Ordering::AcqRel) == 1 {
            return;
        }
        raw6(SYS_FUTEX, &(*t).word as *const _ as usize, 128, 0, 0, 0, 0);
    }
}

unsafe fn unpark(t: *const Task) {
    (*t).word.store(1, Ordering::Release);
    raw6(SYS_FUTEX, &(*t).word as *const _ as usize, 129, 1, 0, 0, 0);
}

pub fn exit_group(code: usize) -> ! {
    unsafe {
        raw6(SYS_EXIT_GROUP, code, 0, 0, 0, 0, 0);
    }
    loop {}
}

// ---------------------------------------------------------------- logging and failing

pub fn active() -> bool {
    TASK.with(|t| t.get()) >= 0
}

pub fn log(words: &[u64]) {
    unsafe {
        (*SIM).log = hash(&[(*SIM).log, hash(words)]);
    }
}

pub fn note(f: impl FnOnce() -> String) {
    unsafe {
        if (*SIM).verbose {
            let s = f();
            let t = TASK.with(|t| t.get());
            let line = format!("[t{} {:>9} ns] {}\n", t, (*SIM).clock, s);
            raw6(1, 2, line.as_ptr() as usize, line.len(), 0, 0, 0);
        }
    }
}

pub fn count(i: usize) {
    unsafe {
        (*(*SIM).shm).cnt[i] += 1;
    }
}

pub fn count_by(i: usize, n: u64) {
    unsafe {
        (*(*SIM).shm).cnt[i] += n;
    }
}

pub fn sync_shm() {
    unsafe {
        let s = &*SIM;
        let m = &mut *s.shm;
        m.log_hash = s.log;
        m.steps = s.steps;
        m.clock = s.clock;
    }
}

/// Ends the run with a violation.
pub fn fail(class: &str, msg: &str) -> ! {
    IN_RT.with(|r| r.set(true));
    HEAP_ON.with(|h| h.set(false));
    unsafe {
        if !SIM.is_null() {
            sync_shm();
            let m = &mut *(*SIM).shm;
            m.set_class(class);
            m.set_msg(msg);
            m.status = ST_VIOL;
        }
    }
    exit_group(0)
}

/// Ends the run because the harness itself is at fault.
pub fn harness_error(msg: &str) -> ! {
    unsafe {
        if !SIM.is_null() {
            let m = &mut *(*SIM).shm;
            m.set_class("harness");
            m.set_msg(msg);
            m.status = ST_HARNESS;
        }
    }
    exit_group(0)
}

// ---------------------------------------------------------------- scheduler

pub fn cur() -> &'static mut Task {
    unsafe {
        let i = (*SIM).cur;
        &mut *(&mut *(&mut (*SIM).tasks)[i] as *mut Task)
    }
}

unsafe fn record(next: usize) {
    let s = &mut *SIM;
    let m = &mut *s.shm;
    let t = &s.tasks[s.cur];
    if (m.n_dec as usize) < MAX_DEC {
        m.dec[m.n_dec as usize] = Dec { task: s.cur as u32, op: t.op, step: t.step, next: next as u32 };
        m.n_dec += 1;
    }
}

unsafe fn wake_sleepers() {
    let now = (*SIM).clock;
    for t in (*SIM).tasks.iter_mut() {
        match t.st {
            St::Sleep(u) if u <= now => t.st = St::Runnable,
            St::Futex(_, Some(d)) if d <= now => {
                t.st = St::Runnable;
                t.timed_out = true;
            }
            _ => {}
        }
    }
}

unsafe fn runnable() -> Vec<usize> {
    wake_sleepers();
    let mut v = Vec::with_capacity(8);
    for (i, t) in (*SIM).tasks.iter().enumerate() {
        if t.st == St::Runnable {
            v.push(i);
        }
    }
    v
}

unsafe fn next_timer() -> Option<u64> {
    let mut best = None;
    for t in (*SIM).tasks.iter() {
        let d = match t.st {
            St::Sleep(u) => u,
            St::Futex(_, Some(d)) => d,
            _ => continue,
        };
        best = Some(match best {
            None => d,
            Some(b) if d < b => d,
            Some(b) => b,
        });
    }
    best
}

unsafe fn choose(v: &[usize]) -> usize {
    let s = &mut *SIM;
    match s.strat {
        Strat::Pct { .. } => {
            let mut b = v[0];
            for &i in v {
                if s.tasks[i].prio > s.tasks[b].prio {
                    b = i;
                }
            }
            b
        }
        _ => v[s.rng.below(v.len() as u64) as usize],
    }
}

unsafe fn switch_to(next: usize, from_finished: bool) {
    let s = SIM;
    let me = (*s).cur;
    if next == me {
        return;
    }
    let sw = [me as u64, cur().op as u64, cur().step as u64, next as u64];
    log(&sw);
    let m = (*s).shm;
    (*m).switches += 1;
    (*m).switch_hash = hash(&[(*m).switch_hash, hash(&sw)]);
    let mine: *const Task = &*(&(*s).tasks)[me];
    let other: *const Task = &*(&(*s).tasks)[next];
    (*s).cur = next;
    unpark(other);
    if !from_finished {
        park(mine);
    }
}

fn dump_states() -> String {
    unsafe {
        let mut o = String::new();
        for (i, t) in (*SIM).tasks.iter().enumerate() {
            o.push_str(&format!("task {}: {:?} in op {}; ", i, t.st, t.op));
        }
        o
    }
}

/// The current task cannot go on: run somebody else, advancing the clock if needed.
unsafe fn block(finished: bool) {
    loop {
        let v = runnable();
        if v.is_empty() {
            match next_timer() {
                Some(d) => {
                    if d > (*SIM).clock {
                        (*SIM).clock = d;
                    }
                    continue;
                }
                None => {
                    if finished && (*SIM).tasks.iter().all(|t| t.st == St::Finished) {
                        return;
                    }
                    fail("deadlock", &format!("no task can run: {}", dump_states()));
                }
            }
        }
        // (a step of its own, so that every decision has one)
        cur().step += 1;
        let n = if v.len() == 1 {
            v[0]
        } else if (*SIM).replay {
            let step = cur().step;
            match take_dec(step) {
                Some(n) if v.contains(&(n as usize)) => n as usize,
                _ => v[0],
            }
        } else {
            let n = choose(&v);
            if n != v[0] {
                record(n);
            }
            n
        };
        switch_to(n, finished);
        return;
    }
}

unsafe fn take_dec(step: u32) -> Option<u32> {
    let t = cur();
    while let Some(&(st, n)) = t.dec_q.last() {
        if st < step {
            t.dec_q.pop();
            continue;
        }
        if st == step {
            t.dec_q.pop();
            t.next_dec = t.dec_q.last().map_or(u32::MAX, |d| d.0);
            return Some(n);
        }
        break;
    }
    t.next_dec = t.dec_q.last().map_or(u32::MAX, |d| d.0);
    None
}

/// A scheduling point. `io` marks system calls, which are preempted more readily.
unsafe fn point(io: bool) {
    let s = &mut *SIM;
    s.steps += 1;
    s.op_steps += 1;
    let t = cur();
    t.step += 1;
    if s.steps > s.budget || s.op_steps > s.op_budget {
        fail(
            "hang",
            &format!("step budget exhausted after {} steps ({} since the last call began): {}", s.steps, s.op_steps, dump_states()),
        );
    }
    if s.replay {
        if t.step >= t.next_dec {
            if let Some(n) = take_dec(t.step) {
                let v = runnable();
                if v.contains(&(n as usize)) {
                    switch_to(n as usize, false);
                }
            }
        }
        return;
    }
    let mut go = false;
    match s.strat {
        Strat::Coop => {}
        Strat::Random { mean } => {
            s.countdown = s.countdown.wrapping_sub(1);
            if s.countdown == 0 {
                // (a very long run ever more rarely: it has to come to its end)
                let m = &*s.shm;
                s.countdown = 1 + s.rng.below((2 * mean) << (m.switches / 65_536).min(12));
                go = true;
            }
        }
        Strat::Pct { .. } => {
            if s.change_points.last() == Some(&s.steps) {
                s.change_points.pop();
                s.low_prio -= 1;
                t.prio = s.low_prio;
                go = true;
            }
        }
    }
    if io && !go && s.io_pct > 0 && s.rng.below(100) < s.io_pct {
        go = true;
    }
    if go {
        let mut v = runnable();
        let me = s.cur;
        let n = match s.strat {
            Strat::Pct { .. } => choose(&v),
            _ => {
                v.retain(|&i| i != me);
                if v.is_empty() {
                    return;
                }
                choose(&v)
            }
        };
        if n != me {
            record(n);
            switch_to(n, false);
        }
    }
}

/// Called from instrumented code.
#[inline(always)]
fn hook(key: u32) {
    if TASK.with(|t| t.get()) < 0 || IN_RT.with(|r| r.get()) {
        return;
    }
    IN_RT.with(|r| r.set(true));
    unsafe {
        if key != 0 {
            let k = key as usize % MAX_COV;
            (*(*SIM).shm).cov[k] = 1;
        }
        point(false);
    }
    IN_RT.with(|r| r.set(false));
}

/// Runs harness code inside a library call.
pub fn enter<R>(f: impl FnOnce() -> R) -> R {
    let old = IN_RT.with(|r| r.replace(true));
    let r = f();
    IN_RT.with(|x| x.set(old));
    r
}

pub fn io_point() {
    enter(|| unsafe { point(true) })
}

pub fn point_io() {
    unsafe { point(true) }
}

pub fn in_rt() -> bool {
    IN_RT.with(|r| r.get())
}

pub fn owner() -> usize {
    cur().owner
}

pub fn is_replay() -> bool {
    unsafe { (*SIM).replay }
}

pub fn frng() -> &'static mut Rng {
    unsafe { &mut (*SIM).frng }
}

pub fn faults_quiet() -> bool {
    unsafe { (*SIM).quiet_faults }
}

pub fn sleep_inner(ns: u64) {
    unsafe {
        cur().step += 1;
        (*SIM).steps += 1;
        let until = (*SIM).clock + ns;
        cur().st = St::Sleep(until);
        block(false);
    }
}

pub fn yield_now() {
    enter(|| unsafe {
        let v = runnable();
        if v.len() > 1 {
            let s = &mut *SIM;
            let t = cur();
            t.step += 1;
            s.steps += 1;
            if s.replay {
                if let Some(n) = take_dec(t.step) {
                    if v.contains(&(n as usize)) {
                        switch_to(n as usize, false);
                    }
                }
            } else {
                let n = choose(&v);
                if n != s.cur {
                    record(n);
                    switch_to(n, false);
                }
            }
        }
    })
}

pub fn sleep(ns: u64) {
    enter(|| unsafe {
        if ns == 0 {
            return;
        }
        cur().step += 1;
        (*SIM).steps += 1;
        let until = (*SIM).clock + ns;
        cur().st = St::Sleep(until);
        block(false);
    })
}

/// In a replay: queues the recorded decisions of the operation the task has begun.
unsafe fn load_decs(t: &mut Task, id: u32) {
    if (*SIM).replay {
        let mut q = (*SIM).decs.get(&(id, t.op)).cloned().unwrap_or_default();
        // (several decisions can fall on one step: their order counts)
        q.sort_by_key(|d| d.0);
        q.reverse();
        t.next_dec = q.last().map_or(u32::MAX, |d| d.0);
        t.dec_q = q;
    }
}

pub fn begin_op(op: u32) {
    enter(|| unsafe {
        let t = cur();
        t.op = op;
        t.step = 0;
        t.io = 0;
        (*SIM).op_steps = 0;
        let id = (*SIM).cur as u32;
        load_decs(t, id);
        log(&[1, id as u64, op as u64]);
    })
}

pub fn task_id() -> usize {
    unsafe { (*SIM).cur }
}

pub fn now() -> u64 {
    unsafe { (*SIM).clock }
}

pub fn vfs() -> &'static mut Vfs {
    unsafe { &mut (*SIM).vfs }
}

pub fn op_key() -> (u32, u32) {
    (task_id() as u32, cur().op)
}

pub fn step_count() -> u64 {
    unsafe { (*SIM).steps }
}

/// Allows for the work that an interruption or a short read causes.
pub fn grant(n: u64) {
    unsafe {
        let s = &mut *SIM;
        if s.granted < 1_500_000_000 {
            s.granted += n;
            s.op_budget += n;
            s.budget += n;
        }
    }
}

pub fn restart_op_steps() {
    unsafe {
        (*SIM).op_steps = 0;
    }
}

pub fn reset_op_steps(budget: u64) {
    unsafe {
        (*SIM).op_steps = 0;
        (*SIM).op_budget = budget;
    }
}

pub fn next_io() -> u32 {
    let t = cur();
    t.io += 1;
    t.io
}

/// Looks up (replay) or asks `draw` for (search) the fault to inject at this I/O call.
pub fn fault_at(io: u32, draw: impl FnOnce(&mut Rng) -> Option<(u32, i64)>) -> Option<(u32, i64)> {
    unsafe {
        let (task, op) = op_key();
        let s = &mut *SIM;
        if s.quiet_faults {
            return None;
        }
        let f = if s.replay { s.faults.get(&(task, op, io)).cloned() } else { draw(&mut s.frng) };
        if let Some((kind, a)) = f {
            let m = &mut *s.shm;
            if (m.n_fault as usize) < MAX_FAULT {
                m.faults[m.n_fault as usize] = FaultRec { task, op, io, kind, a };
                m.n_fault += 1;
            }
            m.cnt[kind as usize] += 1;
            log(&[2, task as u64, op as u64, io as u64, kind as u64, a as u64]);
        }
        f
    }
}

fn new_task() -> Box<Task> {
    Box::new(Task {
        word: AtomicU32::new(0),
        st: St::Runnable,
        timed_out: false,
        op: u32::MAX,
        step: 0,
        io: 0,
        prio: 0,
        next_dec: u32::MAX,
        dec_q: vec![],
        os: 0,
        loading: false,
        owner: 0,
    })
}

/// Makes the calling thread task 0 of a fresh simulation.
pub fn start(mut sim: Box<Sim>) {
    unsafe {
        sim.tasks.push(new_task());
        let prio = sim.rng.below(1 << 30) as i64;
        sim.tasks[0].prio = prio;
        if let Strat::Random { mean } = sim.strat {
            sim.countdown = 1 + sim.rng.below(2 * mean);
        }
        if let Strat::Pct { depth, len } = sim.strat {
            let mut v: Vec<u64> = (0..depth).map(|_| 1 + sim.rng.below(len)).collect();
            v.sort();
            v.dedup();
            v.reverse();
            sim.change_points = v;
        }
        let mut k = 0u32;
        pthread_key_create(&mut k, task_dtor);
        sim.key = k;
        SIM = Box::into_raw(sim);
        TASK.with(|t| t.set(0));
        load_decs(cur(), 0);
    }
}

// ---------------------------------------------------------------- instrumentation callbacks

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    hook(unsafe { *g });
}

pub static mut N_GUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    if a == b || *a != 0 {
        return;
    }
    while p < b {
        N_GUARDS += 1;
        *p = N_GUARDS;
        p = p.add(1);
    }
}

macro_rules! ls { ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(_p: usize) { hook(0) })* } }
ls! { __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16 }

// ---------------------------------------------------------------- threads

struct Start {
    f: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
    id: usize,
    task: *const Task,
}

type CreateFn = unsafe extern "C" fn(*mut usize, *const u8, extern "C" fn(*mut u8) -> *mut u8, *mut u8) -> i32;
type JoinFn = unsafe extern "C" fn(usize, *mut *mut u8) -> i32;

unsafe fn real(name: &str) -> *mut u8 {
    // name is NUL-terminated; RTLD_NEXT = -1
    let p = dlsym(-1isize as *mut u8, name.as_ptr());
    if p.is_null() {
        harness_error("missing symbol");
    }
    p
}

extern "C" fn trampoline(p: *mut u8) -> *mut u8 {
    unsafe {
        let st = Box::from_raw(p as *mut Start);
        // nothing shared may be touched before this thread has the baton
        park(st.task);
        TASK.with(|t| t.set(st.id as i32));
        pthread_setspecific((*SIM).key, 3 as *const u8);
        let (f, arg) = (st.f, st.arg);
        IN_RT.with(|r| r.set(true));
        drop(st);
        IN_RT.with(|r| r.set(false));
        f(arg)
    }
}

/// Runs when a thread exits, after the destructors of thread-local variables; re-armed twice so that
/// other keys' destructors run first.
extern "C" fn task_dtor(v: *mut u8) {
    unsafe {
        let n = v as usize;
        if n > 1 {
            pthread_setspecific((*SIM).key, (n - 1) as *const u8);
            return;
        }
        if TASK.with(|t| t.get()) <= 0 {
            return;
        }
        IN_RT.with(|r| r.set(true));
        let me = (*SIM).cur;
        (&mut (*SIM).tasks)[me].st = St::Finished;
        for t in (*SIM).tasks.iter_mut() {
            if t.st == St::Join(me) {
                t.st = St::Runnable;
            }
        }
        cur().step += 1;
        TASK.with(|t| t.set(-1));
        block(true);
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut usize,
    attr: *const u8,
    f: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
) -> i32 {
    let real: CreateFn = std::mem::transmute(real("pthread_create\0"));
    if !active() {
        return real(th, attr, f, arg);
    }
    let r = enter(|| {
        let id = (*SIM).tasks.len();
        let mut t = new_task();
        t.prio = (*SIM).rng.below(1 << 30) as i64;
        t.owner = id;
        if cur().loading {
            // a thread the library starts works for the load that started it
            t.owner = cur().owner;
            t.op = cur().op;
            t.loading = true;
        }
        load_decs(&mut t, id as u32);
        let task: *const Task = &*t;
        (*SIM).tasks.push(t);
        let st = Box::into_raw(Box::new(Start { f, arg, id, task }));
        let r = real(th, attr, trampoline, st as *mut u8);
        if r != 0 {
            harness_error("pthread_create failed");
        }
        (&mut (*SIM).tasks)[id].os = *th;
        log(&[3, id as u64]);
        r
    });
    io_point();
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: usize, rv: *mut *mut u8) -> i32 {
    let real: JoinFn = std::mem::transmute(real("pthread_join\0"));
    if active() {
        enter(|| {
            let id = (*SIM).tasks.iter().position(|t| t.os == th && t.os != 0);
            if let Some(id) = id {
                if (&(*SIM).tasks)[id].st != St::Finished {
                    cur().step += 1;
                    cur().st = St::Join(id);
                    block(false);
                }
                (&mut (*SIM).tasks)[id].os = 0;
            }
        });
    }
    real(th, rv)
}

// ---------------------------------------------------------------- futex and other raw system calls

unsafe fn futex(addr: usize, op: usize, val: usize, timeout: usize, _a2: usize, _v3: usize) -> isize {
    let cmd = op & 127;
    match cmd {
        0 | 9 => {
            point(true);
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val as u32 {
                return -11;
            }
            let io = next_io();
            let sp = (*SIM).spurious_pct;
            if fault_at(io, |r| if sp > 0 && r.below(100) < sp { Some((crate::faults::SPURIOUS, 0)) } else { None })
                .is_some()
            {
                return 0;
            }
            let dl = if timeout == 0 {
                None
            } else {
                let ts = timeout as *const i64;
                let ns = (*ts).max(0) as u64 * 1_000_000_000 + *ts.add(1) as u64;
                Some(if cmd == 0 { (*SIM).clock + ns } else { ns })
            };
            let me = (*SIM).cur;
            (&mut (*SIM).tasks)[me].timed_out = false;
            (&mut (*SIM).tasks)[me].st = St::Futex(addr, dl);
            count(crate::faults::P_FUTEX_WAIT);
            block(false);
            if (&(*SIM).tasks)[me].timed_out {
                -110
            } else {
                0
            }
        }
        1 | 10 => {
            let mut n = 0;
            while n < val as u32 {
                let w: Vec<usize> = (*SIM)
                    .tasks
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| matches!(t.st, St::Futex(a, _) if a == addr))
                    .map(|(i, _)| i)
                    .collect();
                if w.is_empty() {
                    break;
                }
                (*SIM).wakes += 1;
                let k = hash(&[(*SIM).seed, 77, (*SIM).wakes]) as usize % w.len();
                (&mut (*SIM).tasks)[w[k]].st = St::Runnable;
                n += 1;
            }
            point(true);
            n as isize
        }
        _ => -38,
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if active() {
        match n {
            SYS_FUTEX => return ret(enter(|| futex(a, b, c, d, e, f))),
            318 => return getrandom(a as *mut u8, b, c as u32),
            39 => return getpid() as isize,
            110 => return getppid() as isize,
            186 => return gettid() as isize,
            102 | 107 => return getuid() as isize,
            204 => return sched_getaffinity(a as i32, b, c as *mut u8) as isize,
            _ => {}
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if active() {
        return enter(|| {
            for i in 0..n {
                *p.add(i) = (*SIM).hash_rng.next() as u8;
            }
            count(crate::faults::P_GETRANDOM);
            n as isize
        });
    }
    ret(raw6(318, p as usize, n, flags as usize, 0, 0, 0))
}

// ---------------------------------------------------------------- machine

fn machine(what: u64, usual: u64, other: &[u64]) -> Option<u64> {
    if !active() {
        return None;
    }
    Some(enter(|| unsafe {
        let m = (*SIM).machine;
        if m == 0 {
            return usual;
        }
        count(crate::faults::MACHINE as usize);
        other[(crate::rng::hash(&[m, what]) % other.len() as u64) as usize]
    }))
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    machine(1, 4242, &[1, 2, 4243, 99_999, 4_194_303]).map_or_else(|| raw6(39, 0, 0, 0, 0, 0, 0) as i32, |v| v as i32)
}

#[no_mangle]
pub unsafe extern "C" fn getppid() -> i32 {
    machine(2, 4000, &[0, 1, 7]).map_or_else(|| raw6(110, 0, 0, 0, 0, 0, 0) as i32, |v| v as i32)
}

#[no_mangle]
pub unsafe extern "C" fn gettid() -> i32 {
    if active() {
        let t = enter(|| task_id()) as i32;
        return getpid() + t;
    }
    raw6(186, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getuid() -> u32 {
    machine(3, 1000, &[0, 1001, 65534]).map_or_else(|| raw6(102, 0, 0, 0, 0, 0, 0) as u32, |v| v as u32)
}

#[no_mangle]
pub unsafe extern "C" fn geteuid() -> u32 {
    machine(3, 1000, &[0, 1001, 65534]).map_or_else(|| raw6(107, 0, 0, 0, 0, 0, 0) as u32, |v| v as u32)
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    match machine(4, 0, &[0, 1]) {
        Some(v) => v as i32,
        None => {
            let mut t = [0u64; 16];
            (raw6(16, fd as usize, 0x5401, t.as_mut_ptr() as usize, 0, 0, 0) == 0) as i32
        }
    }
}

fn cpus() -> Option<u64> {
    machine(5, 8, &[1, 2, 3, 64, 512])
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, p: *mut u8) -> i32 {
    match cpus() {
        Some(k) => {
            for i in 0..n {
                *p.add(i) = 0;
            }
            for c in 0..(k as usize).min(n * 8) {
                *p.add(c / 8) |= 1 << (c % 8);
            }
            0
        }
        None => ret(raw6(204, pid as usize, n, p as usize, 0, 0, 0)).min(0) as i32,
    }
}

#[no_mangle]
pub unsafe extern "C" fn sysconf(name: i32) -> i64 {
    if name == 83 || name == 84 {
        if let Some(k) = cpus() {
            return k as i64;
        }
    }
    static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut f = REAL.load(std::sync::atomic::Ordering::Relaxed);
    if f == 0 {
        f = dlsym(usize::MAX as *mut u8, b"sysconf\0".as_ptr()) as usize;
        REAL.store(f, std::sync::atomic::Ordering::Relaxed);
    }
    let f: extern "C" fn(i32) -> i64 = std::mem::transmute(f);
    f(name)
}

#[no_mangle]
pub unsafe extern "C" fn gethostname(p: *mut u8, n: usize) -> i32 {
    let k = match machine(6, 0, &[1, 2, 3]) {
        Some(k) => k as usize,
        None => 0,
    };
    let name = [&b"localhost\0"[..], b"\0", b"build-7.example.org\0", b"\xff\xfe\0"][k];
    for (i, c) in name.iter().take(n).enumerate() {
        *p.add(i) = *c;
    }
    0
}

// ---------------------------------------------------------------- clock

#[repr(C)]
pub struct Ts {
    pub s: i64,
    pub n: i64,
}

pub const EPOCH0: i64 = 1_600_000_000;

pub fn wall_now() -> (i64, i64) {
    unsafe {
        let c = (*SIM).clock as i64;
        let ns = c + (*SIM).skew;
        (EPOCH0 + ns.div_euclid(1_000_000_000), ns.rem_euclid(1_000_000_000))
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Ts) -> i32 {
    if active() {
        (*SIM).clock += 40;
        if (*SIM).stall > 0 {
            (*SIM).stalls += 1;
            let h = crate::rng::hash(&[(*SIM).seed, 77, (*SIM).stalls]);
            if h % 4 == 0 {
                (*SIM).clock += (h >> 8) % (*SIM).stall;
                count(crate::faults::STALL as usize);
            }
        }
        count(crate::faults::P_CLOCK);
        if id == 0 || id == 5 {
            let (s, n) = wall_now();
            (*ts).s = s;
            (*ts).n = n;
        } else {
            let c = (*SIM).clock as i64;
            (*ts).s = 1000 + c / 1_000_000_000;
            (*ts).n = c % 1_000_000_000;
        }
        return 0;
    }
    ret(raw6(228, id as usize, ts as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut ts = Ts { s: 0, n: 0 };
    clock_gettime(0, &mut ts);
    if !p.is_null() {
        *p = ts.s;
    }
    ts.s
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Ts, rem: *mut Ts) -> i32 {
    if active() {
        sleep(((*req).s as u64) * 1_000_000_000 + (*req).n as u64);
        return 0;
    }
    ret(raw6(35, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const Ts, rem: *mut Ts) -> i32 {
    if active() {
        let mut ns = ((*req).s as u64) * 1_000_000_000 + (*req).n as u64;
        if flags & 1 != 0 {
            let now = if id == 0 {
                let (s, n) = wall_now();
                s as u64 * 1_000_000_000 + n as u64
            } else {
                1_000_000_000_000 + (*SIM).clock
            };
            ns = ns.saturating_sub(now);
        }
        sleep(ns);
        return 0;
    }
    -(raw6(230, id as usize, flags as usize, req as usize, rem as usize, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if active() {
        yield_now();
        return 0;
    }
    ret(raw6(24, 0, 0, 0, 0, 0, 0)) as i32
}

// ---------------------------------------------------------------- heap accounting

/// No call of any run has data that would need this much.
const HELD_LIMIT: i64 = 512 << 20;

pub struct Heap;

unsafe impl std::alloc::GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        acct(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        acct(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        acct(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        acct(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
}

#[inline(always)]
fn acct(n: i64) {
    if HEAP_ON.with(|h| h.get()) && !IN_RT.with(|r| r.get()) {
        let net = HEAP_NET.with(|h| {
            h.set(h.get() + n);
            h.get()
        });
        HEAP_PEAK.with(|h| h.set(h.get().max(net)));
        if net > HELD_LIMIT {
            fail("memory-beyond-data", &format!("a call holds {} bytes of memory at once", net));
        }
        if n > 0 {
            HEAP_TOTAL.with(|h| h.set(h.get() + n));
        }
    }
}
