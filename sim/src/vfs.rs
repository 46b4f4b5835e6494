//! The simulated disk: every file-related libc call made by library code lands here. Paths under
//! /simdisk and descriptors from SIM_FD up are simulated; anything else goes to the kernel, except
//! that library code may not change anything there (the attempt is recorded and refused).
#![allow(static_mut_refs)]

use crate::faults::*;
use crate::rng::{hash, Rng};
use crate::rt::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub const SIM_FD: i32 = 0x4000_0000;
pub const ROOT: &str = "/simdisk";

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Regime {
    // per mille, per opportunity
    pub open_err: u16,
    pub open_eintr: u16,
    pub read_err: u16, // per handle
    pub eintr: u16,    // per handle: bursts
    pub eintr_each: u16,
    pub short: u16,
    pub early_eof: u16, // per handle
    pub stat_err: u16,
    pub stat_lie: u16,
    pub seek_err: u16,
    pub close_err: u16,
    pub latency: u16,
    pub flip: u16, // per handle
    /// 0 whole, 1 fixed, 2 random up to, 3 aimed at the inside of characters and escapes
    pub slice: u8,
    pub slice_n: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Persist {
    /// 0 open, 1 stat, 2 read at or after `off`, 3 everything
    pub stage: u8,
    pub errno: i32,
    pub off: u64,
}

pub struct Gen {
    pub bytes: &'static [u8],
    pub ino: u64,
    pub mtime: i64,
    pub from: u64,
    pub to: u64,
}

pub struct FileEnt {
    pub gens: Vec<Gen>,
    pub cur: usize,
}

pub struct Handle {
    pub path: String,
    pub gen: usize,
    pub dir: bool,
    pub off: usize,
    pub planned: Vec<(usize, u32, i64)>,
    pub served: Vec<u8>,
    pub owner: usize,
    pub op: u32,
    pub id: usize,
    pub eof: bool,
    pub cut: bool,
}

/// What one load did to storage.
#[derive(Default, Clone)]
pub struct OpIo {
    pub opens: u64,
    pub reads: u64,
    pub stats: u64,
    pub calls: u64,
    pub eintr: u64,
    pub sliced: u64,
    pub hard: u64,
    pub cuts: u64,
    pub flips: u64,
    pub ev: u64,
    pub last_hard: u64,
    pub last_good_eof: u64,
    pub after_eof: u64,
    pub served: Vec<(String, usize, Vec<u8>, bool)>, // path, generation, bytes, reached its end
    pub first_error: String,
}

#[derive(Default)]
pub struct Vfs {
    pub files: BTreeMap<String, FileEnt>,
    pub alias: BTreeMap<String, String>,
    pub dirs: Vec<String>,
    pub fds: BTreeMap<i32, Handle>,
    pub io: BTreeMap<usize, OpIo>,
    pub mutations: Vec<String>,
    pub regime: Regime,
    pub persist: Option<Persist>,
    pub seq: u64,
    pub handles: usize,
    pub seed: u64,
    pub forced: Option<(usize, u32, i64)>,
    /// Size of the largest file, when the number of calls of a load is judged (0: not).
    pub call_limit: u64,
    /// See `EnvP::ghost`; and the paths that are what they are.
    pub ghost: u8,
    pub named: BTreeSet<String>,
}

pub const GHOSTS: u8 = 5;

pub fn normalise(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

pub fn is_sim(p: &str) -> bool {
    p == ROOT || p.starts_with("/simdisk/")
}

impl Vfs {
    fn resolve(&self, p: &str) -> String {
        let n = normalise(p);
        match self.alias.get(&n) {
            Some(t) => t.clone(),
            None => n,
        }
    }

    /// Makes paths that the plan does not name exist.
    pub fn haunt(&mut self, p: &crate::plan::Plan) {
        use crate::plan::Op;
        self.ghost = p.env.ghost;
        let mut named: BTreeSet<String> = self.files.keys().chain(self.alias.keys()).chain(&self.dirs).cloned().collect();
        for (_, o) in p.tasks.iter().flatten().chain(&p.last) {
            if let Op::Load { path, .. } = o {
                named.insert(normalise(path.split('\0').next().unwrap()));
            }
        }
        for p in crate::plan::NOT_THERE {
            named.insert(p.to_string());
        }
        self.named = named;
    }

    fn haunted(&self, p: &str) -> bool {
        self.ghost > 0 && (!p.starts_with('/') || is_sim(p) || ["/etc/", "/opt/", "/var/", "/home/", "/root/", "/tmp/", "/srv/", "/mnt/"].iter().any(|d| p.starts_with(d) && !p.starts_with("/etc/ld.so")))
    }

    /// If nobody named `p` and it is not there, it may be there nevertheless.
    fn conjure(&mut self, p: &str) {
        if self.ghost == 0 || self.files.contains_key(p) || self.named.contains(p) || self.dirs.iter().any(|d| d == p) {
            return;
        }
        // (nothing lies below a file)
        let mut up = p.to_string();
        while let Some(i) = up.rfind('/') {
            up.truncate(i);
            if self.files.contains_key(&up) {
                return;
            }
        }
        let h = p.bytes().fold(self.seed, |h, b| hash(&[h, b as u64]));
        if h % 4 == 0 {
            return;
        }
        let bytes: Vec<u8> = match self.ghost {
            1 | 2 => {
                let d = crate::doc::DocP { seed: h >> 8, n_pk: 1 + (h >> 4) as u32 % 3, n_pkc: 1, n_removed: 0, style: 0, pad: 0, dict: Default::default(), twist: 0 };
                d.encode().out
            }
            3 => b"mode = strict\nlocale = tr_TR\n".to_vec(),
            4 => b"1\n".to_vec(),
            _ => vec![],
        };
        self.files.insert(p.to_string(), FileEnt { gens: vec![Gen { bytes: Box::leak(bytes.into_boxed_slice()), ino: 900 + h % 1000, mtime: EPOCH0 + 5, from: 0, to: u64::MAX }], cur: 0 });
    }

    pub fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }

    /// Atomically makes `gen` the current content of `path`.
    pub fn install(&mut self, path: &str, gen: usize) {
        let s = self.tick();
        let f = self.files.get_mut(path).unwrap();
        let cur = f.cur;
        f.gens[cur].to = s;
        f.cur = gen;
        f.gens[gen].from = s;
        f.gens[gen].to = u64::MAX;
    }

    fn io(&mut self) -> &mut OpIo {
        let o = owner();
        self.io.entry(o).or_default()
    }

    fn free_fd(&self) -> i32 {
        let mut f = SIM_FD;
        while self.fds.contains_key(&f) {
            f += 1;
        }
        f
    }
}

fn permille(r: &mut Rng, p: u16) -> bool {
    p > 0 && r.below(1000) < p as u64
}

fn hard(e: i32, what: &str) -> isize {
    let v = vfs();
    let io = v.io();
    io.hard += 1;
    io.ev += 1;
    io.last_hard = io.ev;
    if io.first_error.is_empty() {
        io.first_error = format!("{} on {}", errno_name(e), what);
    }
    -(e as isize)
}

fn begin_call() -> u32 {
    let v = vfs();
    v.io().calls += 1;
    if v.call_limit > 0 {
        // judged while the load runs, so that one that never ends is stopped early
        let size = v.call_limit;
        let io = v.io();
        let lim = 64 + 2 * size + 3 * (io.eintr + io.sliced);
        if io.calls > lim && cur().loading {
            let m = format!("a load has made {} storage calls and goes on (largest file {} bytes, interruptions {}, hard errors {} [{}])", io.calls, size, io.eintr, io.hard, io.first_error);
            fail("unbounded-calls", &m);
        }
    }
    let n = next_io();
    let (t, op) = op_key();
    let r = &v.regime;
    if r.latency > 0 && !faults_quiet() {
        let h = hash(&[v.seed, 91, t as u64, op as u64, n as u64]);
        if h % 1000 < r.latency as u64 {
            count(LATENCY as usize);
            let max = [1_000u64, 100_000, 10_000_000, 2_000_000_000][((h >> 20) % 4) as usize];
            sleep_inner(1 + (h >> 24) % max);
        }
    }
    n
}

unsafe fn cpath(p: *const u8) -> String {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    text(std::slice::from_raw_parts(p, n))
}

/// Bytes of a file name as text: those that are not UTF-8 become U+F700 + the byte.
pub fn text(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.utf8_chunks() {
        o.push_str(c.valid());
        for x in c.invalid() {
            o.push(char::from_u32(0xf700 + *x as u32).unwrap());
        }
    }
    o
}

/// The file name such a text stands for.
pub fn name(s: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut b = vec![];
    let mut buf = [0; 4];
    for c in s.chars() {
        match c as u32 {
            u @ 0xf780..=0xf7ff => b.push((u - 0xf700) as u8),
            _ => b.extend(c.encode_utf8(&mut buf).as_bytes()),
        }
    }
    std::ffi::OsString::from_vec(b)
}

fn do_open(path: &str, flags: i32) -> isize {
    point_io();
    let v = vfs();
    v.io().opens += 1;
    count(P_OPENS);
    let n = begin_call();
    note(|| format!("open {} flags {:#x}", path, flags));
    if flags & 3 != 0 || flags & 0o100 != 0 || flags & 0o1000 != 0 || flags & 0o20000000 != 0 {
        v.mutations.push(format!("open for writing: {}", path));
        return -30;
    }
    if let Some(p) = &v.persist {
        if (p.stage == 0 || p.stage == 3) && !faults_quiet() {
            count(PERSIST_HIT as usize);
            return hard(p.errno, "open");
        }
    }
    let rg = v.regime.clone();
    let f = fault_at(n, |r| {
        if permille(r, rg.open_err) {
            return Some((OPEN_ERR, *r.pick(&OPEN_ERRNOS) as i64));
        }
        if permille(r, rg.open_eintr) {
            return Some((EINTR_OPEN, 0));
        }
        None
    });
    match f {
        Some((OPEN_ERR, e)) => {
            if let Some(i) = OPEN_ERRNOS.iter().position(|x| *x as i64 == e) {
                count(E0 + i);
            }
            return hard(e as i32, "open");
        }
        Some((EINTR_OPEN, _)) => {
            v.io().eintr += 1;
            grant(2000);
            return -4;
        }
        _ => {}
    }
    let p = v.resolve(path);
    v.conjure(&p);
    let dir = v.dirs.contains(&p);
    if !dir && !v.files.contains_key(&p) {
        // a path that goes through a file is ENOTDIR
        let mut up = p.clone();
        while let Some(i) = up.rfind('/') {
            up.truncate(i);
            if v.files.contains_key(&up) {
                return hard(20, "open");
            }
        }
        return hard(2, "open");
    }
    if !dir && flags & 0o200000 != 0 {
        return hard(20, "open");
    }
    let gen = if dir { 0 } else { v.files[&p].cur };
    let len = if dir { 0 } else { v.files[&p].gens[gen].bytes.len() };
    let mut planned = vec![];
    if let Some((o, k, a)) = v.forced.take() {
        planned.push((o.min(len), k, a));
    }
    if !is_replay() && !faults_quiet() {
        let r = frng();
        if permille(r, rg.read_err) {
            let o = match r.below(4) {
                0 => 0,
                1 => len,
                _ => r.below(len as u64 + 1) as usize,
            };
            planned.push((o, READ_ERR, *r.pick(&READ_ERRNOS) as i64));
        }
        if permille(r, rg.eintr) {
            let k = if r.chance(1, 6) { r.log(2000) } else { r.log(24) };
            for _ in 0..r.range(1, 3) {
                let o = match r.below(4) {
                    0 => 0,
                    1 => len,
                    _ => r.below(len as u64 + 1) as usize,
                };
                for _ in 0..k {
                    planned.push((o, EINTR_READ, 0));
                }
            }
        }
        if permille(r, rg.early_eof) {
            planned.push((r.below(len as u64 + 1) as usize, EARLY_EOF, 0));
        }
        if permille(r, rg.flip) {
            for _ in 0..r.range(1, 2) {
                planned.push((r.below(len as u64 + 1) as usize, FLIP, r.below(1 << 20) as i64));
            }
        }
        planned.sort();
        planned.reverse();
    }
    let fd = v.free_fd();
    v.handles += 1;
    let id = v.handles;
    let (_, op) = op_key();
    v.fds.insert(
        fd,
        Handle { path: p, gen, dir, off: 0, planned, served: vec![], owner: owner(), op, id, eof: false, cut: false },
    );
    let io = v.io();
    io.ev += 1;
    log(&[10, fd as u64, gen as u64]);
    fd as isize
}

fn slice_limit(rg: &Regime, seed: u64, id: usize, off: usize, bytes: &[u8]) -> usize {
    let n = rg.slice_n.max(1) as usize;
    match rg.slice {
        1 => n,
        2 => 1 + (hash(&[seed, 17, id as u64, off as u64]) % n as u64) as usize,
        3 => {
            // end inside a multi-byte character or an escape if one is near
            let want = off + 1 + (hash(&[seed, 18, id as u64, off as u64]) % n as u64) as usize;
            let mut e = want;
            while e < bytes.len() && e < want + 4 * n + 64 {
                if bytes[e] & 0xc0 == 0x80 || bytes[e - 1] == b'\\' {
                    return e - off;
                }
                e += 1;
            }
            want - off
        }
        _ => usize::MAX,
    }
}

unsafe fn do_read(fd: i32, buf: *mut u8, len: usize, at: Option<usize>) -> isize {
    point_io();
    count(P_READS);
    {
        vfs().io().reads += 1;
    }
    let n = begin_call();
    let v = vfs();
    let rg = v.regime.clone();
    let seed = v.seed;
    let persist = v.persist.clone();
    let h = match v.fds.get_mut(&fd) {
        Some(h) => h as *mut Handle,
        None => return -9,
    };
    let h = &mut *h;
    if h.dir {
        return hard(21, "read");
    }
    let off = at.unwrap_or(h.off);
    if let Some(p) = &persist {
        if (p.stage == 2 || p.stage == 3) && off as u64 >= p.off && !faults_quiet() {
            count(PERSIST_HIT as usize);
            return hard(p.errno, "read");
        }
    }
    let bytes = v.files[&h.path].gens[h.gen].bytes;
    let f = fault_at(n, |r| {
        if let Some(&(o, k, a)) = h.planned.last() {
            if off >= o {
                h.planned.pop();
                return Some((k, a));
            }
        }
        if permille(r, rg.eintr_each) {
            return Some((EINTR_READ, 0));
        }
        if permille(r, rg.short) {
            return Some((SHORT, r.log(64) as i64));
        }
        None
    });
    let mut lim = slice_limit(&rg, seed, h.id, off, bytes);
    let mut flip = None;
    match f {
        Some((READ_ERR, e)) => {
            if let Some(i) = READ_ERRNOS.iter().position(|x| *x as i64 == e) {
                count(R0 + i);
            }
            note(|| format!("read fd at {} -> {}", off, errno_name(e as i32)));
            return hard(e as i32, &format!("read at byte {}", off));
        }
        Some((EINTR_READ, _)) => {
            v.io().eintr += 1;
            grant(2000);
            note(|| format!("read at {} -> EINTR", off));
            return -4;
        }
        Some((SHORT, k)) => lim = lim.min(k.max(1) as usize),
        Some((EARLY_EOF, _)) => {
            h.cut = true;
        }
        Some((FLIP, a)) => flip = Some(a as usize),
        _ => {}
    }
    if h.cut {
        v.io().cuts += 1;
        note(|| format!("read at {} -> premature end", off));
        return 0;
    }
    if len == 0 {
        return 0;
    }
    let avail = bytes.len().saturating_sub(off);
    let k = avail.min(len).min(lim);
    if k == 0 {
        h.eof = true;
        let io = v.io();
        io.ev += 1;
        io.last_good_eof = io.ev;
        note(|| format!("read at {} -> end of file", off));
        return 0;
    }
    if lim < avail.min(len) {
        count(SLICED as usize);
        v.io().sliced += 1;
        grant(2000);
    }
    if h.eof {
        // the file grew after the reader had been told that this was its end
        v.io().after_eof += 1;
    }
    std::ptr::copy_nonoverlapping(bytes.as_ptr().add(off), buf, k);
    if let Some(a) = flip {
        let i = (a >> 3) % k;
        *buf.add(i) ^= 1 << (a & 7);
        v.io().flips += 1;
    }
    let end = off + k;
    if end < bytes.len() {
        if bytes[end] & 0xc0 == 0x80 {
            count(P_UTF8_SPLIT);
        }
        if bytes[end - 1] == b'\\' {
            count(P_ESC_SPLIT);
        }
    }
    if at.is_none() {
        h.off = end;
    }
    // what was given out, at its place in the file (a place read twice: as read last)
    if h.served.len() < end {
        h.served.resize(end, 0);
    }
    h.served[off..end].copy_from_slice(std::slice::from_raw_parts(buf, k));
    count_by(P_BYTES, k as u64);
    log(&[11, h.id as u64, off as u64, k as u64]);
    note(|| format!("read {} bytes at {} (asked {})", k, off, len));
    k as isize
}

fn do_close(fd: i32) -> isize {
    point_io();
    let n = begin_call();
    let v = vfs();
    let h = match v.fds.remove(&fd) {
        Some(h) => h,
        None => return -9,
    };
    log(&[12, h.id as u64]);
    let io = v.io.entry(h.owner).or_default();
    io.served.push((h.path, h.gen, h.served, h.eof));
    let p = v.regime.close_err;
    if fault_at(n, |r| if permille(r, p) { Some((CLOSE_ERR, 5)) } else { None }).is_some() {
        return -5;
    }
    0
}

struct StInfo {
    dir: bool,
    size: u64,
    ino: u64,
    mtime: i64,
}

/// Locks on files: granted, unless whoever holds them keeps them.
fn do_lock(fd: i32, unlock: bool, nonblocking: bool) -> isize {
    point_io();
    begin_call();
    let v = vfs();
    if !v.fds.contains_key(&fd) {
        return -9;
    }
    if let Some(p) = &v.persist {
        if (p.stage == 4 || p.stage == 3) && !unlock && !faults_quiet() {
            count(PERSIST_HIT as usize);
            return hard(if nonblocking { 11 } else { 37 }, "lock");
        }
    }
    0
}

/// An open directory stream.
#[repr(C)]
pub struct Dir {
    fd: i32,
    names: Vec<(String, bool)>,
    at: usize,
    ent: [u64; 40],
}

/// What lies in a directory.
fn listing(p: &str) -> Vec<(String, bool)> {
    let v = vfs();
    if v.ghost > 0 {
        // among it things that nobody named
        for n in [".index", "repodata.json.bak", "repodata2.json", "current_repodata.json", "a.json", "zz.json", "conda.lock"] {
            v.conjure(&format!("{}/{}", p, n));
        }
    }
    let mut out = vec![(".".to_string(), true), ("..".to_string(), true)];
    let below = |q: &str| q.rsplit_once('/').filter(|(d, _)| *d == p).map(|(_, n)| n.to_string());
    out.extend(v.dirs.iter().filter_map(|d| below(d)).map(|n| (n, true)));
    out.extend(v.files.keys().chain(v.alias.keys()).filter_map(|d| below(d)).map(|n| (n, false)));
    // (in no particular order)
    let seed = v.seed;
    out.sort_by_key(|(n, _)| n.bytes().fold(seed, |h, b| hash(&[h, b as u64])));
    out
}

/// Common part of all the stat calls.
fn do_stat(path: Option<&str>, fd: i32) -> Result<StInfo, isize> {
    point_io();
    count(P_STATS);
    vfs().io().stats += 1;
    let n = begin_call();
    let v = vfs();
    if let Some(p) = &v.persist {
        if (p.stage == 1 || p.stage == 3) && !faults_quiet() {
            count(PERSIST_HIT as usize);
            return Err(-(p.errno as isize));
        }
    }
    let rg = v.regime.clone();
    let f = fault_at(n, |r| {
        if permille(r, rg.stat_err) {
            return Some((STAT_ERR, *r.pick(&[5i64, 116, 75, 12, 2, 13])));
        }
        if permille(r, rg.stat_lie) {
            return Some((STAT_LIE, r.below(8) as i64));
        }
        None
    });
    let mut lie = None;
    match f {
        Some((STAT_ERR, e)) => return Err(-(e as isize)),
        Some((STAT_LIE, a)) => lie = Some(a),
        _ => {}
    }
    let (p, gen) = match path {
        Some(p) => {
            let p = v.resolve(p);
            v.conjure(&p);
            if v.dirs.contains(&p) {
                return Ok(StInfo { dir: true, size: 4096, ino: 2, mtime: EPOCH0 });
            }
            match v.files.get(&p) {
                Some(f) => (p.clone(), f.cur),
                None => return Err(-2),
            }
        }
        None => match v.fds.get(&fd) {
            Some(h) if h.dir => return Ok(StInfo { dir: true, size: 4096, ino: 2, mtime: EPOCH0 }),
            Some(h) => (h.path.clone(), h.gen),
            None => return Err(-9),
        },
    };
    let g = &v.files[&p].gens[gen];
    let mut size = g.bytes.len() as u64;
    if let Some(a) = lie {
        size = match a {
            0 => 0,
            1 => 1,
            2 => size / 2,
            3 => size.saturating_sub(1),
            4 => size + 1,
            5 => size + 32,
            6 => size * 2 + 7,
            _ => size + 100_000,
        };
    }
    Ok(StInfo { dir: false, size, ino: g.ino, mtime: g.mtime })
}

unsafe fn fill_stat(b: *mut u8, s: &StInfo) {
    std::ptr::write_bytes(b, 0, 144);
    let p = b as *mut u64;
    *p = 0x51; // dev
    *p.add(1) = s.ino;
    *p.add(2) = 1; // nlink
    *(b.add(24) as *mut u32) = if s.dir { 0o40755 } else { 0o100644 };
    *p.add(6) = s.size;
    *p.add(7) = 4096;
    *p.add(8) = (s.size + 511) / 512;
    *p.add(9) = s.mtime as u64;
    *p.add(11) = s.mtime as u64;
    *p.add(13) = s.mtime as u64;
}

unsafe fn fill_statx(b: *mut u8, s: &StInfo) {
    std::ptr::write_bytes(b, 0, 256);
    *(b as *mut u32) = 0x7ff; // basic stats, no birth time
    *(b.add(4) as *mut u32) = 4096;
    *(b.add(16) as *mut u32) = 1;
    *(b.add(28) as *mut u16) = if s.dir { 0o40755 } else { 0o100644 };
    *(b.add(32) as *mut u64) = s.ino;
    *(b.add(40) as *mut u64) = s.size;
    *(b.add(48) as *mut u64) = (s.size + 511) / 512;
    for o in [64usize, 96, 112] {
        *(b.add(o) as *mut i64) = s.mtime;
    }
    *(b.add(136) as *mut u32) = 0;
    *(b.add(140) as *mut u32) = 0x51;
}

// ---------------------------------------------------------------- interposed calls

/// Is this call made by library code (rather than by the harness)?
fn lib() -> bool {
    active() && !in_rt()
}

fn simfd(fd: i32) -> bool {
    fd >= SIM_FD
}

unsafe fn open_any(p: *const u8, flags: i32, mode: i32) -> isize {
    if lib() {
        let r = enter(|| {
            let s = cpath(p);
            if is_sim(&normalise(&s)) && s.starts_with('/') || flags & 3 == 0 && vfs().haunted(&s) {
                return Some(do_open(&s, flags));
            }
            if flags & 3 != 0 || flags & 0o100 != 0 {
                vfs().mutations.push(format!("open for writing: {}", s));
                return Some(-30);
            }
            count(P_PASSTHROUGH);
            None
        });
        if let Some(r) = r {
            return ret(r);
        }
    }
    ret(raw6(257, -100isize as usize, p as usize, flags as usize, mode as usize, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: i32) -> i32 {
    open_any(p, flags, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const u8, flags: i32, mode: i32) -> i32 {
    open_any(p, flags, mode) as i32
}

unsafe fn openat_any(d: i32, p: *const u8, flags: i32, mode: i32) -> i32 {
    if lib() && *p == b'/' {
        return open_any(p, flags, mode) as i32;
    }
    if lib() && (flags & 3 != 0 || flags & 0o100 != 0) {
        enter(|| vfs().mutations.push("openat for writing".to_string()));
        return ret(-30) as i32;
    }
    ret(raw6(257, d as usize, p as usize, flags as usize, mode as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const u8, flags: i32, mode: i32) -> i32 {
    openat_any(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const u8, flags: i32, mode: i32) -> i32 {
    openat_any(d, p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if simfd(fd) && active() {
        return ret(enter(|| do_read(fd, b, n, None)));
    }
    ret(raw6(0, fd as usize, b as usize, n, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, off: i64) -> isize {
    if simfd(fd) && active() {
        return ret(enter(|| do_read(fd, b, n, Some(off as usize))));
    }
    ret(raw6(17, fd as usize, b as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: i32, b: *mut u8, n: usize, off: i64) -> isize {
    pread64(fd, b, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const usize, n: i32) -> isize {
    if simfd(fd) && active() {
        // storage may always answer a vectored read with a short count: use the first non-empty buffer
        for i in 0..n as usize {
            let (b, l) = (*iov.add(2 * i), *iov.add(2 * i + 1));
            if l > 0 {
                return read(fd, b as *mut u8, l);
            }
        }
        return 0;
    }
    ret(raw6(19, fd as usize, iov as usize, n as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if simfd(fd) && active() {
        return ret(enter(|| do_close(fd))) as i32;
    }
    ret(raw6(3, fd as usize, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, b: *mut u8) -> i32 {
    if simfd(fd) && active() {
        return ret(enter(|| match do_stat(None, fd) {
            Ok(s) => {
                fill_stat(b, &s);
                0
            }
            Err(e) => e,
        })) as i32;
    }
    ret(raw6(5, fd as usize, b as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, b: *mut u8) -> i32 {
    fstat64(fd, b)
}

unsafe fn sim_path(p: *const u8) -> Option<String> {
    if p.is_null() || !lib() {
        return None;
    }
    enter(|| {
        let s = cpath(p);
        if s.starts_with('/') && is_sim(&normalise(&s)) || vfs().haunted(&s) {
            Some(s)
        } else {
            None
        }
    })
}

unsafe fn stat_any(n: usize, p: *const u8, b: *mut u8) -> i32 {
    if let Some(s) = sim_path(p) {
        return ret(enter(|| {
            let r = match do_stat(Some(&s), -1) {
                Ok(i) => {
                    fill_stat(b, &i);
                    0
                }
                Err(e) => e,
            };
            drop(s);
            r
        })) as i32;
    }
    ret(raw6(n, p as usize, b as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const u8, b: *mut u8) -> i32 {
    stat_any(4, p, b)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const u8, b: *mut u8) -> i32 {
    stat_any(4, p, b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const u8, b: *mut u8) -> i32 {
    stat_any(6, p, b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const u8, b: *mut u8) -> i32 {
    stat_any(6, p, b)
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, p: *const u8, flags: i32, mask: u32, b: *mut u8) -> i32 {
    if simfd(d) && active() && !p.is_null() && *p != 0 {
        // below a directory that is open
        return ret(enter(|| {
            let q = match vfs().fds.get(&d) {
                Some(h) if h.dir => format!("{}/{}", h.path, cpath(p)),
                _ => return -20,
            };
            match do_stat(Some(&q), -1) {
                Ok(s) => {
                    fill_statx(b, &s);
                    0
                }
                Err(e) => e,
            }
        })) as i32;
    }
    if simfd(d) && active() {
        return ret(enter(|| match do_stat(None, d) {
            Ok(s) => {
                fill_statx(b, &s);
                0
            }
            Err(e) => e,
        })) as i32;
    }
    if let Some(s) = sim_path(p) {
        return ret(enter(|| {
            let r = match do_stat(Some(&s), -1) {
                Ok(i) => {
                    fill_statx(b, &i);
                    0
                }
                Err(e) => e,
            };
            drop(s);
            r
        })) as i32;
    }
    ret(raw6(332, d as usize, p as usize, flags as usize, mask as usize, b as usize, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, wh: i32) -> i64 {
    if simfd(fd) && active() {
        return ret(enter(|| {
            point_io();
            let n = begin_call();
            let v = vfs();
            let pm = v.regime.seek_err;
            let f = fault_at(n, |r| if permille(r, pm) { Some((SEEK_ERR, 29)) } else { None });
            if let Some((_, e)) = f {
                return -(e as isize);
            }
            let len = match v.fds.get(&fd) {
                Some(h) if h.dir => 0,
                Some(h) => v.files[&h.path].gens[h.gen].bytes.len() as i64,
                None => return -9,
            };
            let h = v.fds.get_mut(&fd).unwrap();
            let to = match wh {
                0 => off,
                1 => h.off as i64 + off,
                2 => len + off,
                _ => return -22,
            };
            if to < 0 {
                return -22;
            }
            if to as usize != h.off {
                // a second pass over the file starts a new record of what was served
                let eof = h.eof;
                let served = std::mem::take(&mut h.served);
                let (p, g, o) = (h.path.clone(), h.gen, h.owner);
                h.off = to as usize;
                h.eof = false;
                v.io.entry(o).or_default().served.push((p, g, served, eof));
            }
            to as isize
        })) as i64;
    }
    ret(raw6(8, fd as usize, off as usize, wh as usize, 0, 0, 0)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, wh: i32) -> i64 {
    lseek64(fd, off, wh)
}

unsafe fn fcntl_any(fd: i32, cmd: i32, arg: usize) -> i32 {
    if simfd(fd) && active() {
        return match cmd {
            1 => 1,
            3 => 0o100000,
            0 | 1030 => enter(|| {
                // a duplicate shares nothing but the content here; it must be closed like any other
                let v = vfs();
                if !v.fds.contains_key(&fd) {
                    return ret(-9) as i32;
                }
                let nf = v.free_fd();
                let h = &v.fds[&fd];
                let d = Handle {
                    path: h.path.clone(),
                    gen: h.gen,
                    dir: h.dir,
                    off: h.off,
                    planned: vec![],
                    served: vec![],
                    owner: h.owner,
                    op: h.op,
                    id: h.id,
                    eof: false,
                    cut: false,
                };
                v.fds.insert(nf, d);
                nf
            }),
            6 | 37 => ret(enter(|| do_lock(fd, false, true))) as i32,
            7 | 38 => ret(enter(|| do_lock(fd, false, false))) as i32,
            _ => 0,
        };
    }
    ret(raw6(72, fd as usize, cmd as usize, arg, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl_any(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl_any(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: i32, a: i64, b: i64, c: i32) -> i32 {
    if simfd(fd) && active() {
        return 0;
    }
    -(raw6(221, fd as usize, a as usize, b as usize, c as usize, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(fd: i32, a: i64, b: i64, c: i32) -> i32 {
    posix_fadvise64(fd, a, b, c)
}

unsafe fn mmap_any(a: usize, l: usize, p: usize, f: usize, fd: i32, o: usize) -> usize {
    if simfd(fd) && active() {
        set_errno(19);
        return usize::MAX;
    }
    ret(raw6(9, a, l, p, f, fd as isize as usize, o)) as usize
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: usize, l: usize, p: i32, f: i32, fd: i32, o: i64) -> usize {
    mmap_any(a, l, p as usize, f as usize, fd, o as usize)
}

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const u8) -> *mut Dir {
    extern "C" {
        fn dlsym(h: usize, n: *const u8) -> usize;
    }
    if let Some(s) = sim_path(p) {
        return enter(|| {
            let fd = do_open(&s, 0o200000);
            if fd < 0 {
                drop(s);
                set_errno(-fd as i32);
                return std::ptr::null_mut();
            }
            let d = vfs().resolve(&s);
            drop(s);
            Box::into_raw(Box::new(Dir { fd: fd as i32, names: listing(&d), at: 0, ent: [0; 40] }))
        });
    }
    let real: unsafe extern "C" fn(*const u8) -> *mut Dir = std::mem::transmute(dlsym(usize::MAX, b"opendir\0".as_ptr()));
    real(p)
}

/// Streams of simulated directories begin with a simulated descriptor; those of the C library with a real one.
unsafe fn simdir(d: *mut Dir) -> bool {
    simfd(*(d as *const i32))
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut Dir) -> *mut u8 {
    extern "C" {
        fn dlsym(h: usize, n: *const u8) -> usize;
    }
    if simdir(d) && active() {
        return enter(|| {
            point_io();
            begin_call();
            let d = &mut *d;
            if d.at >= d.names.len() {
                return std::ptr::null_mut();
            }
            let (n, dir) = &d.names[d.at];
            d.at += 1;
            let e = d.ent.as_mut_ptr() as *mut u8;
            *(e as *mut u64) = 100 + d.at as u64;
            *(e.add(8) as *mut u64) = d.at as u64;
            *(e.add(16) as *mut u16) = 300;
            *e.add(18) = if *dir { 4 } else { 8 };
            let b = std::os::unix::ffi::OsStringExt::into_vec(name(n));
            let k = b.len().min(255);
            std::ptr::copy_nonoverlapping(b.as_ptr(), e.add(19), k);
            *e.add(19 + k) = 0;
            e
        });
    }
    let real: unsafe extern "C" fn(*mut Dir) -> *mut u8 = std::mem::transmute(dlsym(usize::MAX, b"readdir64\0".as_ptr()));
    real(d)
}

#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut Dir) -> i32 {
    // (the first field of both kinds)
    *(d as *const i32)
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut Dir) -> i32 {
    extern "C" {
        fn dlsym(h: usize, n: *const u8) -> usize;
    }
    if simdir(d) && active() {
        return enter(|| {
            let b = Box::from_raw(d);
            vfs().fds.remove(&b.fd);
            0
        });
    }
    let real: unsafe extern "C" fn(*mut Dir) -> i32 = std::mem::transmute(dlsym(usize::MAX, b"closedir\0".as_ptr()));
    real(d)
}

#[no_mangle]
pub unsafe extern "C" fn access(p: *const u8, m: i32) -> i32 {
    if let Some(s) = sim_path(p) {
        return ret(enter(|| {
            let r = match do_stat(Some(&s), -1) {
                Ok(_) if m & 2 != 0 => -30,
                Ok(_) => 0,
                Err(e) => e,
            };
            drop(s);
            r
        })) as i32;
    }
    ret(raw6(21, p as usize, m as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const u8, b: *mut u8, n: usize) -> isize {
    if let Some(s) = sim_path(p) {
        return ret(enter(|| {
            let r = match do_stat(Some(&s), -1) {
                Ok(_) => -22,
                Err(e) => e,
            };
            drop(s);
            r
        }));
    }
    ret(raw6(89, p as usize, b as usize, n, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const u8, out: *mut u8) -> *mut u8 {
    extern "C" {
        fn malloc(n: usize) -> *mut u8;
        fn __realpath_chk(p: *const u8, out: *mut u8, n: usize) -> *mut u8;
    }
    if let Some(s) = sim_path(p) {
        return enter(|| {
            let r = match do_stat(Some(&s), -1) {
                Ok(_) => {
                    let mut b = vfs().resolve(&s).into_bytes();
                    b.push(0);
                    let o = if out.is_null() { malloc(b.len()) } else { out };
                    std::ptr::copy_nonoverlapping(b.as_ptr(), o, b.len());
                    o
                }
                Err(e) => {
                    set_errno(-e as i32);
                    std::ptr::null_mut()
                }
            };
            drop(s);
            r
        });
    }
    if out.is_null() {
        let o = malloc(4097);
        return __realpath_chk(p, o, 4097);
    }
    __realpath_chk(p, out, 4097)
}

/// Calls that change something: recorded and refused when library code makes them.
unsafe fn mutating(name: &str, p: *const u8) -> bool {
    if !lib() {
        return false;
    }
    enter(|| {
        let s = if p.is_null() { String::new() } else { cpath(p) };
        vfs().mutations.push(format!("{} {}", name, s));
    });
    set_errno(30);
    true
}

macro_rules! mutators {
    ($($name:ident $nr:literal ($($a:ident),*) $path:ident;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: usize),*) -> i32 {
            if mutating(stringify!($name), $path as *const u8) { return -1; }
            let v = [$($a),*];
            let g = |i: usize| if i < v.len() { v[i] } else { 0 };
            ret(raw6($nr, g(0), g(1), g(2), g(3), g(4), g(5))) as i32
        } )* };
}
mutators! {
    unlink 87 (a) a;
    unlinkat 263 (a, b, c) b;
    rename 82 (a, b) a;
    renameat 264 (a, b, c, d) b;
    renameat2 316 (a, b, c, d, e) b;
    mkdir 83 (a, b) a;
    mkdirat 258 (a, b, c) b;
    rmdir 84 (a) a;
    link 86 (a, b) b;
    linkat 265 (a, b, c, d, e) d;
    symlink 88 (a, b) b;
    symlinkat 266 (a, b, c) c;
    truncate 76 (a, b) a;
    truncate64 76 (a, b) a;
    chmod 90 (a, b) a;
    fchmodat 268 (a, b, c, d) b;
    chown 92 (a, b, c) a;
    lchown 94 (a, b, c) a;
    utimensat 280 (a, b, c, d) b;
    creat 85 (a, b) a;
    creat64 85 (a, b) a;
    setxattr 188 (a, b, c, d, e) a;
    chdir 80 (a) a;
}

macro_rules! fd_mutators {
    ($($name:ident $nr:literal ($($a:ident),*);)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: i32, $($a: usize),*) -> isize {
            if simfd(fd) && active() && mutating(stringify!($name), std::ptr::null()) { return -1; }
            let v = [$($a),*];
            let g = |i: usize| if i < v.len() { v[i] } else { 0 };
            ret(raw6($nr, fd as usize, g(0), g(1), g(2), g(3), 0))
        } )* };
}
fd_mutators! {
    write 1 (b, c);
    writev 20 (b, c);
    pwrite64 18 (b, c, d);
    ftruncate 77 (b);
    ftruncate64 77 (b);
    fchmod 91 (b);
    fallocate 285 (b, c, d);
    futimens 280 (b);
}

#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
    if simfd(fd) && active() {
        return ret(enter(|| do_lock(fd, op & 8 != 0, op & 4 != 0))) as i32;
    }
    ret(raw6(73, fd as usize, op as usize, 0, 0, 0, 0)) as i32
}
