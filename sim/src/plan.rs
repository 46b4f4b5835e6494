//! A run's plan: what the simulated users do, what is stored, and which faults may happen. Plans are
//! drawn from the seed; a replay file holds one plan together with every decision taken in the run.
use crate::doc::{random_damage, Dmg, DocP};
use crate::dict;
use crate::rng::{hash, Rng};
use crate::texts;
use crate::vfs::{Persist, Regime};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Obj {
    pub t: String,
    /// Slot of a shared object built from `t`, or -1 to build one on the spot.
    #[serde(default = "minus")]
    pub s: i32,
    /// Use a clone of the shared object.
    #[serde(default)]
    pub c: bool,
}

fn minus() -> i32 {
    -1
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum PartP {
    Epoch(i16),
    Int(i32),
    Lex(String),
    Pep(String),
    Empty,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum ErrP {
    Message(String),
    Disallowed,
    DupEpoch,
    DupLocal,
    Unknown,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Custom {
    Parts(Vec<PartP>),
    Fail(ErrP),
    Panic(String),
    Conda,
    Stall(u64, Box<Custom>),
    Reenter(Vec<Call>, Box<Custom>),
    /// the parser parses the text with itself, so many levels deep
    Nest(u32, Box<Custom>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Call {
    Parse(String),
    ParseFrom(String),
    Raw(String),
    With(String, Custom),
    Render(Obj),
    Debug(Obj),
    Part(Obj, u32),
    Cmp(Obj, Obj),
    CmpStr(Obj, String),
    Partial(Obj, Obj),
    Eq(Obj, Obj),
    Starts(Obj, Obj),
    Test(Obj, Obj, u8),
    TestStr(Obj, String, u8),
    OpInfo(u8),
    OpSign(String),
    OpName(String),
    Tree(String),
    TreeShow(Obj),
    TreeMatch(Obj, Obj),
    TreeMatchStr(Obj, String),
    TreeEq(Obj, Obj),
    Spec(String),
    SpecShow(Obj),
    SpecMatch(Obj, Obj),
    AnySpec(String),
    AnyMatch(String, String),
    VecTree(Vec<String>),
    FromJson(String),
    /// Loads a fixed index (by document) from storage; the answer is a digest of everything in it.
    LoadDoc(DocP),
    /// Asks for a file that is not there.
    LoadNone(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Call(Call),
    /// A call whose outcome must not be a crash; nothing else is judged.
    Probe(Call),
    /// `n` distinct uses nobody checks, to age whatever the library may remember.
    Fill { seed: u64, n: u32, kind: u8 },
    Load {
        path: String,
        keep: bool,
        /// How the index arrives: 0 the library's own load, else `driver::VIAS`.
        #[serde(default)]
        via: u8,
    },
    /// The file is rewritten in place, `chunk` bytes at a time: emptied first (0), written over from
    /// the front (1), or block by block in any order (2).
    Rewrite { path: String, gen: u32, chunk: u32, way: u8 },
    /// Parses both texts and uses whatever is accepted in every way; nothing may crash.
    Vers(String, String),
    /// Everything the matching records' selection depends on.
    Select { path: String, expr: String, workers: u32, parts: u32, way: u8 },
    Retain {
        seed: u64,
        n: u32,
        kind: u8,
        /// If any: these calls with ever new texts (instead of calls of a kind).
        #[serde(default)]
        calls: Vec<Call>,
    },
    /// One object and, one after the other in the same place, the texts (or what is made of them) it
    /// is used with; nothing else happens in between.
    Each { kind: u8, held: String, texts: Vec<String> },
    Life(Life),
    Replace { path: String, gen: u32 },
    Jump(i64),
    Sleep(u64),
    Yield,
    Custom { text: String, custom: Custom },
    /// Faults stop here (used by the final task).
    Quiet,
    LeakProbe { path: String, n: u32, #[serde(default)] way: u8 },
    Recheck,
    Rank { path: String, workers: u32, parts: u32 },
    Forced { off: u64, kind: u32, a: i64 },
}

/// A thread that lives and ends within one operation.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Life {
    pub name: String,
    /// Calls made by thread-local destructors: of values registered before the thread first used the
    /// library (`early`), and after it last did (`late`).
    pub early: Vec<(u32, Call)>,
    pub late: Vec<(u32, Call)>,
    pub calls: Vec<(u32, Call)>,
    /// Objects the thread makes and hands to its parent.
    pub versions: Vec<String>,
    pub trees: Vec<String>,
    pub specs: Vec<String>,
    /// The thread ends by a panic (after handing over).
    pub panic: bool,
    /// Calls on those objects once the thread has ended, by the parent or by new threads.
    pub after: Vec<(u32, Call)>,
    pub heirs: u32,
    /// The objects are dropped by another thread.
    pub far_drop: bool,
    /// How many more threads live the same life (without handing anything over), one after the other.
    #[serde(default)]
    pub again: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct GenP {
    pub doc: DocP,
    #[serde(default)]
    pub dmg: Vec<Dmg>,
    pub ino: u64,
    pub mtime: i64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FileP {
    pub path: String,
    pub gens: Vec<GenP>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct NetP {
    pub loss: u16,
    pub dup: u16,
    pub delay: u16,
    pub max_delay: u64,
    pub crash: u16,
    pub partition: u16,
    pub heal_at: u64,
}

/// What surrounds the process: nothing an answer may depend on.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct EnvP {
    pub vars: Vec<(String, String)>,
    pub cwd: String,
    /// Wall clock at the start, relative to the usual one (seconds).
    pub skew: i64,
    /// Names of the tasks' threads.
    pub names: Vec<String>,
    /// Memory taken before the library is first used (moves every later address).
    pub junk: u32,
    /// The longest pause between two readings of the clock (ns): a stalled machine.
    pub stall: u64,
    /// Not 0: most paths that nobody names exist (neighbours, caches, configuration files), with
    /// content of this kind.
    pub ghost: u8,
    /// Not 0: another machine (number of processors, user, process, terminal, host name).
    #[serde(default)]
    pub machine: u64,
    /// What the program was started with.
    #[serde(default)]
    pub args: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum StratP {
    Coop,
    Random(u64),
    Pct(u64, u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub hash_seed: u64,
    pub strat: StratP,
    pub io_pct: u64,
    pub spurious_pct: u64,
    #[serde(default)]
    pub regime: Regime,
    #[serde(default)]
    pub persist: Option<Persist>,
    #[serde(default)]
    pub files: Vec<FileP>,
    #[serde(default)]
    pub alias: Vec<(String, String)>,
    #[serde(default)]
    pub versions: Vec<String>,
    #[serde(default)]
    pub trees: Vec<String>,
    #[serde(default)]
    pub specs: Vec<String>,
    #[serde(default)]
    pub net: NetP,
    #[serde(default)]
    pub env: EnvP,
    pub tasks: Vec<Vec<(u32, Op)>>,
    /// Runs alone after all tasks have finished.
    #[serde(default)]
    pub last: Vec<(u32, Op)>,
    /// Present in a replay file: (task, op, step, next).
    #[serde(default)]
    pub decisions: Option<Vec<[u32; 4]>>,
    /// Present in a replay file: (task, op, io call, fault kind, argument).
    #[serde(default)]
    pub faults: Option<Vec<(u32, u32, u32, u32, i64)>>,
}

pub const PROPS: [&str; 19] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
];

struct B {
    r: Rng,
    next: u32,
}

impl B {
    fn op(&mut self, o: Op) -> (u32, Op) {
        self.next += 1;
        (self.next, o)
    }
    fn number(&mut self, ops: Vec<Op>) -> Vec<(u32, Op)> {
        ops.into_iter().map(|o| self.op(o)).collect()
    }
}

fn strat(r: &mut Rng, len: u64, coop: u64) -> StratP {
    if r.below(100) < coop {
        return StratP::Coop;
    }
    if r.chance(1, 2) {
        StratP::Random(*r.pick(&[2u64, 4, 10, 30, 100, 300, 1000, 5000]))
    } else {
        StratP::Pct(r.range(1, 5), r.log(len))
    }
}

fn slices(r: &mut Rng, g: &mut Regime, len: u64) {
    g.slice = r.below(4) as u8;
    g.slice_n = match r.below(4) {
        0 => r.range(1, 4) as u32,
        1 => r.range(5, 64) as u32,
        _ => r.log(len.max(2)) as u32,
    };
    if let Some(n) = dict::num(r, 4, len.max(2)) {
        g.slice_n = n as u32;
    }
    if g.slice != 0 && (g.slice_n as u64) * 6000 < len {
        g.slice_n = (len / 6000 + 1) as u32;
    }
    if r.chance(1, 2) {
        g.stat_lie = *r.pick(&[0u16, 200, 1000]);
        g.stat_err = *r.pick(&[0u16, 0, 200, 1000]);
        g.seek_err = *r.pick(&[0u16, 0, 300]);
    }
    if r.chance(1, 3) {
        g.latency = *r.pick(&[20u16, 200, 1000]);
    }
}

fn paths(i: usize) -> String {
    ["/simdisk/repodata.json", "/simdisk/win-64/current_repodata.json", "/simdisk/noarch/repodata.json", "/simdisk/win-64/repodata.json"][i % 4]
        .to_string()
}

/// Another spelling of the same path.
fn spell(r: &mut Rng, p: &str) -> String {
    match r.below(6) {
        0 => p.replacen("/simdisk/", "/simdisk/./", 1),
        1 => p.replacen("/simdisk/", "/simdisk//", 1),
        2 => p.replacen("/simdisk/", "/simdisk/x/../", 1),
        _ => p.to_string(),
    }
}

fn file(r: &mut Rng, path: String, doc: DocP) -> FileP {
    FileP { path, gens: vec![GenP { doc, dmg: vec![], ino: 100 + r.below(900), mtime: 1_599_000_000 + r.below(1_000_000) as i64 }] }
}

fn doc_len(d: &DocP) -> u64 {
    if !d.dict.is_empty() || d.pad > 0 {
        return d.encode().out.len() as u64;
    }
    400 + (d.n_pk + d.n_pkc) as u64 * 700
}

fn empty(prop: &str, seed: u64, run: u64, r: &mut Rng) -> Plan {
    Plan {
        prop: prop.to_string(),
        seed,
        run,
        hash_seed: r.next() >> 1,
        strat: StratP::Coop,
        io_pct: 0,
        spurious_pct: 0,
        regime: Regime::default(),
        persist: None,
        files: vec![],
        alias: vec![],
        versions: vec![],
        trees: vec![],
        specs: vec![],
        net: NetP::default(),
        env: EnvP::default(),
        tasks: vec![],
        last: vec![],
        decisions: None,
        faults: None,
    }
}

pub fn make(prop: &str, seed: u64, run: u64, thorough: bool) -> Plan {
    let n: u64 = prop[1..].parse().unwrap();
    let mut b = B { r: Rng(hash(&[seed, n, run, 1])), next: 0 };
    let mut p = empty(prop, seed, run, &mut b.r);
    dict::with(dict::source(), || fill_in(prop, &mut b, &mut p, thorough));
    p
}

fn fill_in(prop: &str, b: &mut B, p: &mut Plan, thorough: bool) {
    match prop {
        "C01" => c01(b, p),
        "C02" => c02(b, p),
        "C03" => c03(b, p),
        "C04" => c04(b, p),
        "C05" => c05(b, p),
        "C06" => c06(b, p),
        "C07" => c07(b, p),
        "C08" => c08(b, p),
        "C09" => c09(b, p, thorough),
        "C10" => c10(b, p),
        "C11" => c11(b, p),
        "C20" => c20(b, p),
        "C21" => c21(b, p),
        "C22" => c22(b, p),
        "C23" => c23(b, p),
        "C24" => c24(b, p),
        "C25" => c25(b, p),
        "C26" => c26(b, p),
        "C27" => c27(b, p),
        _ => panic!("unknown property"),
    }
    rename(&mut b.r, p);
    if prop == "C25" || b.r.chance(1, 12) {
        surround(&mut b.r, p);
    }
}

/// Gives the process of a run other surroundings.
fn surround(r: &mut Rng, p: &mut Plan) {
    const NAMES: [&str; 16] = [
        "LC_ALL", "LANG", "TZ", "HOME", "TMPDIR", "XDG_CACHE_HOME", "CONDA_PREFIX", "CONDA_SUBDIR", "CONDA_PKGS_DIRS", "RONDA_CACHE", "RONDA_DEBUG",
        "RUST_LOG", "RUST_BACKTRACE", "NO_COLOR", "DEBUG", "CI",
    ];
    const VALUES: [&str; 15] =
        ["", "0", "1", "true", "off", "tr_TR.UTF-8", "C", "/simdisk", "/nonexistent", "debug", "win-64", "4", "/simdisk/m", "/simdisk/m/cache.json", "/simdisk/noarch"];
    let e = &mut p.env;
    for _ in 0..r.range(1, 6) {
        let n = match dict::word(r, 2) {
            Some(w) => w,
            None => r.pick(&NAMES).to_string(),
        };
        let v = match dict::word(r, 6) {
            Some(w) => w,
            None => r.pick(&VALUES).to_string(),
        };
        if !n.is_empty() && !n.contains(['=', '\0']) && !v.contains('\0') {
            e.vars.push((n, v));
        }
    }
    if r.chance(1, 4) {
        // a process set up for another language, time zone or user throughout
        let l = *r.pick(&["tr_TR.UTF-8", "az_AZ.UTF-8", "lt_LT", "de_DE@euro", "sv_SE.UTF-8", "ja_JP.SJIS", "ar_EG.UTF-8", "C", "POSIX", "C.UTF-8", "en_US.UTF-8", "zh_CN.GBK"]);
        for n in ["LC_ALL", "LANG", "LANGUAGE", "LC_CTYPE", "LC_COLLATE", "LC_NUMERIC", "LC_TIME", "LC_MESSAGES"] {
            e.vars.push((n.to_string(), l.to_string()));
        }
        e.vars.push(("TZ".to_string(), r.pick(&["UTC", "Asia/Tokyo", "America/St_Johns", ":/nonexistent", "XXX-25"]).to_string()));
    }
    e.cwd = r.pick(&["", "/", "/usr", "/proc", "/dev"]).to_string();
    e.skew = *r.pick(&[0i64, 0, -1_600_000_000, -2_000_000_000, -86_400, 3600, 40_000_000, 600_000_000, 2_600_000_000, 7_000_000_000]);
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 4) {
            let n = match dict::word(r, 3) {
                Some(w) => w.chars().filter(|c| *c != '\0').collect(),
                None => r.pick(&["main", "worker", "", "tokio-runtime-worker", "é"]).to_string(),
            };
            e.names.push(n);
        }
    }
    e.stall = *r.pick(&[0u64, 0, 1_000_000, 300_000_000, 100_000_000_000]);
    e.junk = if r.chance(1, 2) { r.log(1 << 20) as u32 } else { 0 };
    e.machine = if r.chance(1, 2) { r.range(1, 1 << 30) } else { 0 };
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 2) {
            let a = match dict::word(r, 2) {
                Some(w) => w.replace('\0', ""),
                None => r.pick(&["--debug", "--offline", "-v", "--strict", "--test", "1.0", "--json", "test", "bench", "--color=always", "--lenient"]).to_string(),
            };
            e.args.push(a);
        }
    }
    e.ghost = if r.chance(1, 2) { r.range(1, crate::vfs::GHOSTS as u64) as u8 } else { 0 };
}

/// Gives the files of some runs other names.
fn rename(r: &mut Rng, p: &mut Plan) {
    if p.files.is_empty() || !r.chance(1, 6) {
        return;
    }
    let name = match dict::word(r, 2) {
        Some(w) => {
            let w: String = w.chars().filter(|c| c.is_ascii_alphanumeric() || ".-_".contains(*c)).collect();
            match r.below(3) {
                0 => format!("i-{}", w),
                1 => format!("{}.json", w),
                _ => format!("repodata.json{}", w),
            }
        }
        None => r
            .pick(&["repodata.json.zst", "repodata.json.bz2", "repodata_from_packages.json", "ré 中.json", ".json", "REPODATA.JSON", "index", "r\u{f7e9}podata.json", "\u{f7ff}\u{f7fe}", "%s{}\n.json", "a#b?c%20.json", "repodata.json.lock", "n.json"])
            .to_string(),
    };
    let name = if r.chance(1, 20) { format!("{}{}", "n".repeat(240), name.chars().take(5).collect::<String>()) } else { name };
    if name.is_empty() || name == "." || name == ".." {
        return;
    }
    let new = |s: &mut String| *s = s.replace("repodata.json", &name);
    for f in p.files.iter_mut() {
        new(&mut f.path);
    }
    for (a, b) in p.alias.iter_mut() {
        new(a);
        new(b);
    }
    for t in p.tasks.iter_mut().chain(std::iter::once(&mut p.last)) {
        for (_, o) in t.iter_mut() {
            match o {
                Op::Load { path, .. }
                | Op::Replace { path, .. }
                | Op::Rewrite { path, .. }
                | Op::LeakProbe { path, .. }
                | Op::Rank { path, .. }
                | Op::Select { path, .. } => new(path),
                _ => {}
            }
        }
    }
}

fn max_records(r: &mut Rng) -> u64 {
    match r.below(400) {
        0 => 2500,
        1..=10 => 400,
        11..=50 => 60,
        _ => 10,
    }
}

fn c01(b: &mut B, p: &mut Plan) {
    let r = &mut b.r;
    let nf = r.range(1, 3) as usize;
    let mut len = 0;
    for i in 0..nf {
        let m = max_records(r);
        let d = DocP::random(r, m);
        len = len.max(doc_len(&d));
        let f = file(r, paths(i), d);
        p.files.push(f);
    }
    let mut g = Regime::default();
    slices(r, &mut g, len);
    match r.below(6) {
        0 => g.open_err = 600,
        1 | 2 => g.read_err = 800,
        3 => {
            g.read_err = 400;
            g.open_err = 200;
            g.eintr = 300;
        }
        4 => {
            g.early_eof = 500;
            g.read_err = 200;
        }
        _ => {
            g.stat_err = 500;
            g.seek_err = 500;
            g.close_err = 500;
            g.open_eintr = 300;
            g.read_err = 300;
        }
    }
    p.regime = g;
    if r.chance(1, 6) {
        // the failure goes on for as long as anybody tries
        let stage = if r.chance(1, 15) { 4 } else { r.below(4) as u8 };
        let errno = if stage == 0 { *r.pick(&crate::faults::OPEN_ERRNOS) } else { *r.pick(&crate::faults::READ_ERRNOS) };
        let off = if r.chance(1, 2) { 0 } else { r.below(len.max(1)) };
        p.persist = Some(Persist { stage, errno, off });
    }
    p.strat = strat(r, 100_000, 50);
    p.io_pct = *r.pick(&[0u64, 10, 40]);
    let nt = if r.chance(2, 3) { 1 } else { r.range(2, 3) };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..b.r.range(1, 4) {
            let r = &mut b.r;
            let path = match r.below(16) {
                0 => "/simdisk/missing.json".to_string(),
                1 => "/simdisk".to_string(),
                2 if r.chance(1, 2) => format!("/simdisk/{}.json", r.pick(&["\u{f7ff}", "ab\u{f7c3}", "\u{f7e9}t\u{f7e9}", "\u{f7f0}\u{f79f}\u{f780}", "{}{:?}%s%n", "\u{202e}a\n\u{7}"])),
                2 => "/simdisk/repodata.json/x".to_string(),
                3 => r.pick(&["", "/simdisk/nul\u{0}.json", "/simdisk/repodata.json/"]).to_string(),
                4 => format!("/simdisk/{}", "d/".repeat(r.below(300) as usize)),
                _ => {
                    let q = paths(r.below(nf as u64) as usize);
                    spell(r, &q)
                }
            };
            if r.chance(1, 8) {
                // a fault exactly at, or one byte around, the end of the file
                ops.push(Op::Forced { off: *r.pick(&[u64::MAX, u64::MAX, 0, 1]), kind: crate::faults::READ_ERR, a: *r.pick(&crate::faults::READ_ERRNOS) as i64 });
            }
            ops.push(Op::Load { path, keep: false, via: 0 });
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
}

fn c02(b: &mut B, p: &mut Plan) {
    let r = &mut b.r;
    let nf = r.range(1, 2) as usize;
    let mut len = 0;
    for i in 0..nf {
        let m = max_records(r);
        let mut d = DocP::random(r, m);
        if d.style & 64 != 0 && r.chance(1, 2) {
            d.style |= 512;
        }
        len = len.max(doc_len(&d));
        let f = file(r, paths(i), d);
        p.files.push(f);
    }
    let mut g = Regime::default();
    slices(r, &mut g, len);
    g.eintr = *r.pick(&[0u16, 500, 1000]);
    g.eintr_each = *r.pick(&[0u16, 0, 50, 300]);
    g.open_eintr = *r.pick(&[0u16, 0, 300]);
    g.short = *r.pick(&[0u16, 0, 100, 500]);
    p.regime = g;
    p.strat = strat(r, 100_000, 60);
    p.io_pct = *r.pick(&[0u64, 10, 40]);
    let nt = if r.chance(3, 4) { 1 } else { r.range(2, 3) };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..b.r.range(1, 2) {
            let q = paths(b.r.below(nf as u64) as usize);
            let path = spell(&mut b.r, &q);
            ops.push(Op::Load { path, keep: false, via: 0 });
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
}

fn c03(b: &mut B, p: &mut Plan) {
    let r = &mut b.r;
    let nf = r.range(1, 4) as usize;
    let mut len = 0;
    for i in 0..nf {
        let m = if r.chance(1, 30) { 60 } else { 6 };
        let mut d = DocP::random(r, m);
        if d.n_pk + d.n_pkc == 0 {
            d.n_pk = 1;
        }
        len = len.max(doc_len(&d));
        let mut f = file(r, paths(i), d);
        if !r.chance(1, 10) {
            f.gens[0].dmg = random_damage(r);
        }
        p.files.push(f);
    }
    let mut g = Regime::default();
    if r.chance(1, 3) {
        slices(r, &mut g, len);
    }
    if r.chance(1, 4) {
        g.flip = 700;
    }
    if r.chance(1, 6) {
        g.early_eof = 700;
    }
    p.regime = g;
    p.strat = strat(r, 100_000, 80);
    p.io_pct = *r.pick(&[0u64, 10]);
    let mut ops = vec![];
    for i in 0..nf {
        ops.push(Op::Load { path: paths(i), keep: false, via: 0 });
        if b.r.chance(1, 6) {
            ops.push(Op::Load { path: paths(i), keep: false, via: 0 });
        }
    }
    if b.r.chance(1, 5) && ops.len() > 1 {
        let h = ops.split_off(ops.len() / 2);
        let h = b.number(h);
        p.tasks.push(h);
    }
    let ops = b.number(ops);
    p.tasks.push(ops);
}

fn c05(b: &mut B, p: &mut Plan) {
    let r = &mut b.r;
    let nf = r.range(1, 3) as usize;
    let m = match r.below(12) {
        0 => 60,
        1..=3 => 12,
        _ => 3,
    };
    let mut len = 0;
    for i in 0..nf {
        let base = DocP::random(r, m);
        let ng = r.range(2, 6) as usize;
        let same_size = r.chance(1, 2);
        let same_time = r.chance(1, 2);
        let same_ino = r.chance(1, 2);
        let mut docs: Vec<DocP> = (0..ng)
            .map(|_| {
                let mut d = base.clone();
                d.seed = r.next() >> 8;
                if !same_size && r.chance(1, 2) {
                    d.n_pk = r.below(m + 1) as u32;
                }
                d
            })
            .collect();
        if r.chance(1, 3) {
            // they differ in one number only
            for k in 1..ng {
                docs[k] = docs[k - 1].clone();
                docs[k].twist = k as u32 * r.range(1, 3) as u32;
            }
        }
        if ng > 2 && r.chance(1, 4) {
            // an older content comes back
            docs[ng - 1] = docs[0].clone();
        }
        if same_size {
            let max = docs.iter().map(|d| d.encode().out.len()).max().unwrap();
            for d in docs.iter_mut() {
                d.pad = max as u32;
            }
        }
        let t0 = 1_599_000_000 + r.below(1_000_000) as i64;
        let gens = docs
            .into_iter()
            .enumerate()
            .map(|(k, doc)| {
                len = len.max(doc_len(&doc));
                GenP {
                    doc,
                    dmg: vec![],
                    ino: if same_ino { 100 + (k as u64 % 2) } else { 100 + k as u64 },
                    mtime: if same_time { t0 } else { t0 + k as i64 * if r.chance(1, 4) { -1000 } else { 60 } },
                }
            })
            .collect();
        p.files.push(FileP { path: paths(i), gens });
        if r.chance(1, 3) {
            p.alias.push((format!("/simdisk/link{}.json", i), paths(i)));
        }
    }
    let mut g = Regime::default();
    if r.chance(2, 3) {
        slices(r, &mut g, len);
        g.stat_err = 0;
    }
    if r.chance(1, 4) {
        g.eintr = 300;
    }
    p.regime = g;
    p.strat = strat(r, 60_000, 10);
    p.io_pct = *r.pick(&[5u64, 20, 50]);
    p.spurious_pct = *r.pick(&[0u64, 0, 20]);
    let nl = r.range(1, 3);
    for _ in 0..nl {
        let mut ops = vec![];
        for _ in 0..b.r.range(2, 6) {
            let r = &mut b.r;
            let i = r.below(nf as u64) as usize;
            let mut path = spell(r, &paths(i));
            if let Some(a) = p.alias.iter().find(|a| a.1 == paths(i)) {
                if r.chance(1, 3) {
                    path = a.0.clone();
                }
            }
            ops.push(Op::Load { path, keep: r.chance(1, 3), via: 0 });
            match r.below(8) {
                0 => ops.push(Op::Sleep(r.log(3_000_000_000))),
                1 => ops.push(Op::Yield),
                2 => ops.push(Op::Jump(r.range(0, 7200) as i64 * 1_000_000_000 - 3_600_000_000_000)),
                _ => {}
            }
        }
        ops.push(Op::Recheck);
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
    // the tool that replaces files: one task per file, sometimes interleaved with a load of its own
    for i in 0..nf {
        let ng = p.files[i].gens.len();
        let mut ops = vec![];
        for g in 1..ng {
            match b.r.below(4) {
                0 => ops.push(Op::Sleep(b.r.log(3_000_000_000))),
                1 => {
                    for _ in 0..b.r.range(1, 6) {
                        ops.push(Op::Yield)
                    }
                }
                _ => {}
            }
            ops.push(Op::Replace { path: paths(i), gen: g as u32 });
            if b.r.chance(1, 2) {
                ops.push(Op::Load { path: paths(i), keep: false, via: 0 });
            }
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
    let mut ops = vec![];
    for i in 0..nf {
        ops.push(Op::Load { path: paths(i), keep: false, via: 0 });
    }
    p.last = b.number(ops);
}

fn c06(b: &mut B, p: &mut Plan) {
    let r = &mut b.r;
    let nf = r.range(1, 3) as usize;
    let mut len = 0;
    for i in 0..nf {
        let m = if r.chance(1, 20) { 40 } else { 5 };
        let d = DocP::random(r, m);
        len = len.max(doc_len(&d));
        let mut f = file(r, paths(i), d.clone());
        for _ in 0..r.below(3) {
            let mut d2 = d.clone();
            d2.seed = r.next() >> 8;
            let dmg = if r.chance(1, 2) { random_damage(r) } else { vec![] };
            f.gens.push(GenP { doc: d2, dmg, ino: 100 + r.below(3), mtime: f.gens[0].mtime });
        }
        // the last generation is sound again
        let mut d3 = d.clone();
        d3.seed = r.next() >> 8;
        f.gens.push(GenP { doc: d3, dmg: vec![], ino: 105, mtime: f.gens[0].mtime });
        p.files.push(f);
    }
    let mut g = Regime::default();
    slices(r, &mut g, len);
    g.open_err = *r.pick(&[0u16, 100, 500]);
    g.read_err = *r.pick(&[0u16, 300, 900]);
    g.early_eof = *r.pick(&[0u16, 0, 300]);
    g.eintr = *r.pick(&[0u16, 300]);
    g.close_err = *r.pick(&[0u16, 0, 300]);
    g.stat_err = *r.pick(&[0u16, 0, 300]);
    p.regime = g;
    p.strat = strat(r, 100_000, 40);
    p.io_pct = *r.pick(&[0u64, 10, 40]);
    let leak = r.chance(1, 8);
    let way = r.below(crate::exec::LEAK_WAYS as u64) as u8;
    if leak && way >= 4 {
        let f = &mut p.files[0];
        for _ in 0..3 {
            let mut d = f.gens[0].doc.clone();
            d.seed = r.next() >> 8;
            let g = GenP { doc: d, dmg: random_damage(r), ino: 100 + r.below(3), mtime: f.gens[0].mtime };
            f.gens.insert(1, g);
        }
    }
    let storm = !leak && r.chance(1, 8);
    let nt = r.range(1, 3);
    for t in 0..nt {
        let mut ops = vec![];
        let n = if storm { b.r.range(40, 120) } else { b.r.range(1, 6) };
        let n = if storm { dict::num(&mut b.r, 2, 260).map_or(n, |n| n + 6) } else { n };
        for _ in 0..n {
            let r = &mut b.r;
            let i = r.below(nf as u64) as usize;
            let ng = p.files[i].gens.len() as u64;
            if t == 0 && r.chance(1, 4) {
                ops.push(Op::Replace { path: paths(i), gen: r.below(ng) as u32 });
            }
            if r.chance(1, 12) {
                ops.push(Op::Load { path: "/simdisk/missing.json".into(), keep: false, via: 0 });
            } else {
                ops.push(Op::Load { path: paths(i), keep: false, via: 0 });
            }
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
    let mut ops = vec![Op::Quiet];
    for i in 0..nf {
        ops.push(Op::Replace { path: paths(i), gen: p.files[i].gens.len() as u32 - 1 });
    }
    for i in 0..nf {
        ops.push(Op::Load { path: paths(i), keep: false, via: 0 });
    }
    if leak {
        ops.push(Op::LeakProbe { path: paths(0), n: 200, way });
    }
    p.last = b.number(ops);
}

fn c07(b: &mut B, p: &mut Plan) {
    let r = &mut b.r;
    let m = match r.below(120) {
        0 => 2500,
        1..=12 => 250,
        13..=48 => 60,
        _ => 10,
    };
    let mut d = DocP::random(r, m);
    if m == 2500 {
        d.n_pk = r.range(600, m) as u32;
        d.n_removed = r.below(m) as u32;
    }
    if r.chance(1, 1000) {
        // a whole channel
        d = DocP { n_pk: r.range(5_000, 16_000) as u32, n_pkc: r.below(4_000) as u32, n_removed: r.below(9_000) as u32, pad: 0, ..d };
    }
    let len = doc_len(&d);
    let f = file(r, paths(0), d);
    p.files.push(f);
    let mut g = Regime::default();
    slices(r, &mut g, len);
    if r.chance(2, 5) {
        let stage = if r.chance(1, 15) { 4 } else { r.below(4) as u8 };
        let errno = if stage == 0 { *r.pick(&crate::faults::OPEN_ERRNOS) } else { *r.pick(&crate::faults::READ_ERRNOS) };
        let off = if r.chance(1, 2) { 0 } else { r.below(len) };
        p.persist = Some(Persist { stage, errno, off });
    } else {
        // a finite burst of interruptions
        g.eintr = 1000;
        g.eintr_each = *r.pick(&[0u16, 200, 600, if len < 20_000 { 900 } else { 500 }, if len < 4_000 { 990 } else { 500 }]);
        g.open_eintr = *r.pick(&[0u16, 500, 900, 995]);
        if r.chance(1, 4) {
            g.read_err = 300;
        }
    }
    p.regime = g;
    p.strat = strat(r, 100_000, 70);
    p.io_pct = *r.pick(&[0u64, 10]);
    let nt = if r.chance(3, 4) { 1 } else { 2 };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..b.r.range(1, 3) {
            ops.push(Op::Load { path: paths(0), keep: false, via: 0 });
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
}

// ---------------------------------------------------------------- calls

fn pick_obj(r: &mut Rng, pool: &[String], shared: usize) -> Obj {
    let i = r.below(pool.len() as u64) as usize;
    let s = if i < shared && r.chance(3, 4) { i as i32 } else { -1 };
    Obj { t: pool[i].clone(), s, c: s >= 0 && r.chance(1, 5) }
}

pub struct Pools<'a> {
    pub vs: &'a [String],
    pub any: &'a [String],
    pub trees: &'a [String],
    pub specs: &'a [String],
    pub bad: &'a [String],
    pub sv: usize,
    pub st: usize,
    pub ss: usize,
}

fn small_doc(r: &mut Rng, k: u64) -> DocP {
    let i = r.below(k);
    DocP { seed: 1000 + i, n_pk: 1 + (i % 3) as u32, n_pkc: (i % 2) as u32, n_removed: 1, style: (i * 37 % 512) as u32 & !128 | if i % 5 == 4 { 1024 } else { 0 }, pad: 0, dict: Default::default(), twist: 0 }
}

pub fn part(r: &mut Rng) -> PartP {
    match r.below(5) {
        0 => PartP::Epoch(*r.pick(&[0i16, 1, -1, i16::MAX, i16::MIN])),
        1 => PartP::Int(*r.pick(&[0i32, 1, 2, -1, i32::MAX, i32::MIN, 42])),
        2 => PartP::Lex(texts::odd_text(r)),
        3 => PartP::Pep(r.pick(&["rc", "dev", "post", "Alpha", "b", "z"]).to_string()),
        _ => PartP::Empty,
    }
}

fn errp(r: &mut Rng) -> ErrP {
    match r.below(5) {
        0 => ErrP::Message(texts::odd_text(r)),
        1 => ErrP::Disallowed,
        2 => ErrP::DupEpoch,
        3 => ErrP::DupLocal,
        _ => ErrP::Unknown,
    }
}

pub fn custom(r: &mut Rng, q: &Pools, depth: u32) -> Custom {
    match r.below(if depth == 0 { 6 } else { 10 }) {
        9 => {
            let n = r.log(40);
            let n = dict::num(r, 3, 150).unwrap_or(n);
            Custom::Nest(n as u32, Box::new(custom(r, q, 0)))
        }
        0 | 1 => {
            let n = r.small(5);
            let n = if r.chance(1, 60) { r.log(20_000) } else { n };
            let n = dict::num(r, 10, 20_000).unwrap_or(n);
            Custom::Parts((0..n).map(|_| part(r)).collect())
        }
        2 => Custom::Fail(errp(r)),
        3 => Custom::Panic(format!("caller {}", r.below(5))),
        4 => Custom::Conda,
        5 => Custom::Parts(vec![]),
        6 => Custom::Stall(r.log(5_000_000_000), Box::new(custom(r, q, depth - 1))),
        _ => {
            let n = r.range(1, 3);
            let calls = (0..n).map(|_| call(r, q, 0)).collect();
            Custom::Reenter(calls, Box::new(custom(r, q, depth - 1)))
        }
    }
}

pub const NOT_THERE: [&str; 4] = ["/simdisk/none.json", "/simdisk/noarch/none.json", "/simdisk/x/y/none.json", "/simdisk/doc-none.json"];

pub fn call(r: &mut Rng, q: &Pools, depth: u32) -> Call {
    let v = |r: &mut Rng| pick_obj(r, q.vs, q.sv);
    let t = |r: &mut Rng| pick_obj(r, q.trees, q.st);
    let s = |r: &mut Rng| pick_obj(r, q.specs, q.ss);
    let a = |r: &mut Rng| r.pick(q.any).clone();
    match r.below(34) {
        0 | 1 | 2 => Call::Parse(a(r)),
        3 => Call::ParseFrom(a(r)),
        4 => Call::Raw(a(r)),
        5 if depth > 0 => {
            let x = a(r);
            let c = custom(r, q, depth);
            Call::With(x, c)
        }
        5 | 6 => Call::Render(v(r)),
        7 => Call::Debug(v(r)),
        8 => Call::Part(v(r), r.below(7) as u32),
        9 | 10 | 11 => Call::Cmp(v(r), v(r)),
        12 => Call::CmpStr(v(r), a(r)),
        13 | 14 => Call::Partial(v(r), v(r)),
        15 => Call::Eq(v(r), v(r)),
        16 | 17 => Call::Starts(v(r), v(r)),
        18 => Call::Test(v(r), v(r), r.below(10) as u8),
        19 => Call::TestStr(v(r), a(r), r.below(10) as u8),
        20 => match r.below(3) {
            0 => match dict::word(r, 2) {
                Some(w) => {
                    if r.chance(1, 2) {
                        Call::OpSign(w)
                    } else {
                        Call::OpName(w)
                    }
                }
                None => Call::OpInfo(r.below(10) as u8),
            },
            1 => Call::OpSign(r.pick(&["==", "=", "!=", "<=", " >= ", "~=", "!~=", "<>", "", "!=startswith"]).to_string()),
            _ => Call::OpName(r.pick(&["eq", "NE", "lt", "startswith", " Le ", "x", "", "compatible"]).to_string()),
        },
        21 | 22 => Call::Tree(r.pick(q.trees).clone()),
        23 => Call::TreeShow(t(r)),
        24 | 25 => Call::TreeMatch(t(r), v(r)),
        26 => Call::TreeMatchStr(t(r), a(r)),
        27 => Call::TreeEq(t(r), t(r)),
        28 => Call::Spec(r.pick(q.specs).clone()),
        29 => Call::SpecMatch(s(r), v(r)),
        30 => Call::SpecShow(s(r)),
        31 => match r.below(3) {
            0 => Call::AnySpec(r.pick(q.specs).clone()),
            1 => Call::AnyMatch(r.pick(q.specs).clone(), r.pick(q.vs).clone()),
            _ => Call::VecTree(vec![r.pick(&[",", "|"]).to_string(), r.pick(q.specs).clone(), r.pick(q.specs).clone()]),
        },
        32 => match r.below(3) {
            0 => Call::FromJson(format!("{{\"version\":\"1.{}\",\"parts\":[{{\"Integer\":1}},{{\"Integer\":{}}}]}}", r.below(3), r.below(3))),
            1 if r.chance(1, 2) => Call::LoadNone(r.pick(&NOT_THERE).to_string()),
            _ => Call::LoadDoc(small_doc(r, 6)),
        },
        _ => match r.below(3) {
            0 => Call::Tree(r.pick(q.bad).clone()),
            1 => Call::Spec(r.pick(q.bad).clone()),
            _ => Call::AnySpec(r.pick(q.bad).clone()),
        },
    }
}

/// A tight row of uses of one object.
fn each(r: &mut Rng, u: &Texts) -> Op {
    let kind = r.below(9) as u8;
    let n = r.range(2, 12);
    let mut texts: Vec<String> = vec![];
    for _ in 0..n {
        let last = texts.last().cloned();
        let t = match (kind, last) {
            // texts of the same length follow each other where they can
            (4 | 8, _) => r.pick(&u.specs).clone(),
            (6, _) => r.pick(&u.trees).clone(),
            (_, Some(t)) if r.chance(2, 3) => {
                let same: Vec<&String> = u.vs.iter().filter(|x| x.len() == t.len() && **x != t).collect();
                match same.is_empty() {
                    true => digits_moved(r, &t),
                    false => r.pick(&same).to_string(),
                }
            }
            _ => r.pick(&u.vs).clone(),
        };
        texts.push(t);
    }
    let held = match kind {
        0 | 3 => match r.chance(1, 2) {
            true => r.pick(&u.trees).clone(),
            false => format!("{}{}", r.pick(&[">=", "<", "==", "!=", "<=", ">"]), r.pick(&texts)),
        },
        1 => format!("{}{}", r.pick(&[">=", "<", "==", "!=", "<=", ">", "="]), r.pick(&texts)),
        _ => r.pick(&u.vs).clone(),
    };
    let ok = match kind {
        0 | 3 => tree_acceptable(&held),
        1 => spec_acceptable(&held),
        _ => true,
    };
    Op::Each { kind, held: if ok { held } else { ">=1.0".into() }, texts }
}

/// The text with one digit changed to another.
fn digits_moved(r: &mut Rng, t: &str) -> String {
    let at: Vec<usize> = t.bytes().enumerate().filter(|(_, c)| (b'1'..=b'8').contains(c)).map(|x| x.0).collect();
    let mut b = t.as_bytes().to_vec();
    if !at.is_empty() {
        let i = *r.pick(&at);
        b[i] = if b[i] == b'5' { b'2' } else { b'0' + (b[i] - b'0' + 4) % 9 + 1 };
        b[i] = b[i].min(b'9');
    }
    String::from_utf8(b).unwrap()
}

/// Texts for one run, from a limited universe so that answers of fresh processes can be reused.
struct Texts {
    vs: Vec<String>,
    any: Vec<String>,
    trees: Vec<String>,
    specs: Vec<String>,
    bad: Vec<String>,
}

fn universe(r: &mut Rng, nv: usize, ns: usize) -> Texts {
    let fam = |r: &mut Rng| Rng(hash(&[4242, r.below(300)]));
    let mut vs = vec![];
    while vs.len() < nv {
        let mut f = fam(r);
        let v = texts::version(&mut f);
        let mut near = vec![v.clone()];
        for _ in 0..3 {
            let x = texts::near(&mut f, &v);
            // only texts the parser accepts are built into objects
            if acceptable(&x) {
                near.push(x);
            }
        }
        for x in near {
            if vs.len() < nv && !vs.contains(&x) && r.chance(2, 3) {
                vs.push(x);
            }
        }
    }
    let mut any = vs.clone();
    for _ in 0..nv.div_ceil(2) {
        let mut f = fam(r);
        any.push(texts::any_version(&mut f));
    }
    let mut trees = vec![];
    let mut specs = vec![];
    let mut bad = vec![];
    for _ in 0..ns {
        let mut f = fam(r);
        trees.push(texts::expr(&mut f, 2));
        if f.chance(1, 4) {
            // same alternatives, other order
            let t = trees.last().unwrap().clone();
            trees.push(format!("{}|0.1", t));
            trees.push(format!("0.1|{}", t));
        }
        specs.push(texts::term(&mut f));
        let v = r.pick(&vs).clone();
        specs.push(format!("{}{}", r.pick(&texts::SIGNS), v));
        bad.push(texts::bad_spec(&mut f));
    }
    specs.retain(|s| spec_acceptable(s));
    if specs.is_empty() {
        specs.push("==1.0".into());
    }
    trees.retain(|t| tree_acceptable(t));
    if trees.is_empty() {
        trees.push("1.0|2.0".into());
    }
    Texts { vs, any, trees, specs, bad }
}

/// Texts that are surely accepted: at most one epoch mark after plain digits, at most one local mark.
pub fn acceptable(t: &str) -> bool {
    let e: Vec<&str> = t.split('!').collect();
    if e.len() > 2 || t.split('+').count() > 2 {
        return false;
    }
    if e.len() == 2 {
        return !e[0].is_empty() && e[0].len() <= 4 && e[0].bytes().all(|c| c.is_ascii_digit());
    }
    true
}

/// Constraint texts surely accepted (used only to build shared objects).
pub fn spec_acceptable(t: &str) -> bool {
    if t.is_empty() || !t.is_ascii() || t.contains([' ', '(', ')', '|', ',']) || t.contains("~=") {
        return false;
    }
    if t.starts_with('^') {
        return t.ends_with('$') && t.len() > 2 && !t.contains(['!', '+']);
    }
    let v = t.trim_start_matches(['=', '<', '>', '!']);
    !v.is_empty() && acceptable(v) && v.bytes().all(|c| c.is_ascii_alphanumeric() || b"._-*@!+".contains(&c)) && !v.starts_with(['*', '@', '.'])
}

fn tree_acceptable(t: &str) -> bool {
    t.split(['(', ')', '|', ',']).map(|x| x.trim()).filter(|x| !x.is_empty()).all(|x| x == "*" || spec_acceptable(x))
}

fn c04(b: &mut B, p: &mut Plan) {
    let u = universe(&mut b.r, 4, 4);
    let r = &mut b.r;
    p.strat = strat(r, 20_000, 40);
    p.versions = u.vs.iter().take(2).cloned().collect();
    p.trees = u.trees.iter().take(2).cloned().collect();
    let nt = if r.chance(1, 2) { 1 } else { r.range(2, 3) };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..b.r.range(2, 12) {
            let r = &mut b.r;
            if r.chance(1, 6) {
                // damaged variants of one text, then (or before, or between) the text itself
                let g = match r.below(3) {
                    0 => r.pick(&u.trees).clone(),
                    1 => r.pick(&u.specs).clone(),
                    _ => format!("{}{}!{}.{}.{}.{}.{}", r.pick(&[">=", "<", "==", "!="]), r.range(1, 3), r.below(4), r.below(4), r.below(9), r.below(4), r.below(90)),
                };
                let form = r.below(3);
                let mk = |t: String| match form {
                    0 => Call::Tree(t),
                    1 => Call::Spec(t),
                    _ => Call::AnySpec(t),
                };
                if r.chance(1, 3) {
                    ops.push(Op::Call(mk(g.clone())));
                }
                for _ in 0..r.range(1, 4) {
                    let t = match r.below(4) {
                        0 => texts::corrupt(r, &g),
                        1 => texts::near(r, &g),
                        _ => texts::overwrite(r, &g),
                    };
                    ops.push(Op::Probe(mk(t)));
                }
                ops.push(Op::Call(mk(g)));
            } else if r.chance(3, 4) {
                let t = texts::bad_spec(r);
                ops.push(Op::Probe(match r.below(8) {
                    0 | 1 | 2 => Call::Tree(t),
                    3 | 4 => Call::Spec(t),
                    5 | 6 => Call::AnySpec(t),
                    _ => match r.below(6) {
                        0 => Call::VecTree(vec![]),
                        1 => Call::VecTree(vec![t]),
                        2 => Call::VecTree(vec![r.pick(&[",", "|"]).to_string()]),
                        3 => Call::VecTree(vec![r.pick(&[",", "|"]).to_string(), t]),
                        _ => Call::VecTree(vec![r.pick(&[",", "|", "", "x"]).to_string(), t, r.pick(&u.specs).clone()]),
                    },
                }));
            } else {
                let (sv, st) = (p.versions.len(), p.trees.len());
                let v = pick_obj(r, &u.vs, sv);
                let c = match r.below(5) {
                    0 => Call::Tree(r.pick(&u.trees).clone()),
                    1 => Call::TreeShow(pick_obj(r, &u.trees, st)),
                    2 => Call::TreeMatch(pick_obj(r, &u.trees, st), v),
                    3 => Call::Spec(r.pick(&u.specs).clone()),
                    _ => Call::SpecMatch(Obj { t: r.pick(&u.specs).clone(), s: -1, c: false }, v),
                };
                ops.push(Op::Call(c));
            }
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
}

fn c08(b: &mut B, p: &mut Plan) {
    let nv = b.r.range(2, 6) as usize;
    let u = universe(&mut b.r, nv, 3);
    let r = &mut b.r;
    p.strat = match r.below(10) {
        0 => StratP::Coop,
        1..=5 => StratP::Random(*r.pick(&[1u64, 2, 3, 5, 10, 30, 100, 400])),
        _ => StratP::Pct(r.range(1, 6), r.log(8000)),
    };
    p.io_pct = *r.pick(&[5u64, 50]);
    p.spurious_pct = *r.pick(&[0u64, 0, 30]);
    let (sv, st, ss) = (r.below(nv as u64 + 1) as usize, r.below(3) as usize, r.below(3) as usize);
    p.versions = u.vs.iter().take(sv).cloned().collect();
    p.trees = u.trees.iter().take(st).cloned().collect();
    p.specs = u.specs.iter().take(ss).cloned().collect();
    let (st, ss) = (p.trees.len(), p.specs.len());
    let q = Pools { vs: &u.vs, any: &u.any, trees: &u.trees, specs: &u.specs, bad: &u.bad, sv, st, ss };
    let nt = r.range(2, 4);
    // now and then more threads than anybody reserved places for
    let crowd = r.chance(1, 15);
    let nt = if crowd { dict::num(r, 3, 40).unwrap_or_else(|| 0).max(r.range(5, 36)) } else { nt };
    // calls of a run come from a few themes, so that threads meet in the same code
    let themes: Vec<Call> = (0..r.range(1, 5)).map(|_| call(r, &q, 1)).collect();
    let free = r.chance(1, 3);
    let alike = if r.chance(1, if crowd { 2 } else { 12 }) { Some(r.below(6)) } else { None };
    let fam = (r.below(3), r.below(3));
    let own = |t: String| Obj { t, s: -1, c: false };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..b.r.range(1, if crowd { 2 } else { 5 }) {
            let r = &mut b.r;
            let c = match alike {
                // the same kind of call for all, on texts alike but for the letters in them
                Some(k) => {
                    let mut v = || format!("{}.{}{}{}", fam.0, fam.1, "abcdefgh".chars().cycle().skip(r.below(8) as usize).take(r.range(1, 6) as usize).collect::<String>(), r.below(3));
                    let (a, c) = (v(), v());
                    match k {
                        0 => Call::CmpStr(own(a), c),
                        1 => Call::Cmp(own(a), own(c)),
                        2 => Call::AnyMatch(format!("<{}", a), c),
                        3 => Call::AnyMatch(format!("{}.*", a), c),
                        4 => Call::Parse(a),
                        _ => Call::Tree(format!("<{}|{}", a, c)),
                    }
                }
                None if free || r.chance(1, 4) => call(r, &q, 1),
                None => r.pick(&themes).clone(),
            };
            ops.push(Op::Call(c));
        }
        if alike.is_none() && b.r.chance(1, if crowd { 30 } else { 6 }) {
            ops.push(each(&mut b.r, &u));
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
}

fn c09(b: &mut B, p: &mut Plan, thorough: bool) {
    let nv = b.r.range(2, 10) as usize;
    let u = universe(&mut b.r, nv, 4);
    let r = &mut b.r;
    p.strat = strat(r, 20_000, 75);
    p.io_pct = *r.pick(&[0u64, 5]);
    let (sv, st, ss) = (r.below(nv as u64 + 1) as usize, r.below(4) as usize, r.below(4) as usize);
    p.versions = u.vs.iter().take(sv).cloned().collect();
    p.trees = u.trees.iter().take(st).cloned().collect();
    p.specs = u.specs.iter().take(ss).cloned().collect();
    let (st, ss) = (p.trees.len(), p.specs.len());
    let q = Pools { vs: &u.vs, any: &u.any, trees: &u.trees, specs: &u.specs, bad: &u.bad, sv, st, ss };
    let nt = if r.chance(2, 3) { 1 } else { r.range(2, 3) };
    let long = r.chance(1, 40);
    for t in 0..nt {
        let mut ops: Vec<Op> = vec![];
        let n = b.r.range(4, 30);
        let mut asked: Vec<Call> = vec![];
        for _ in 0..n {
            let r = &mut b.r;
            let c = match r.below(10) {
                // something that ends by a panic, half-way through library code
                0 => match r.below(6) {
                    0 => Call::With(r.pick(&u.any).clone(), Custom::Panic("caller".into())),
                    1 => Call::ParseFrom(r.pick(&["1!2!3", "1+2+3", "a!1", "!"]).to_string()),
                    2 => Call::Test(pick_obj(r, q.vs, sv), pick_obj(r, q.vs, sv), 8 + r.below(2) as u8),
                    3 => Call::CmpStr(pick_obj(r, q.vs, sv), "1!2!3".into()),
                    4 => Call::AnyMatch("^1.*$".into(), r.pick(&u.vs).clone()),
                    _ => Call::TreeMatchStr(pick_obj(r, q.trees, st), "1+2+3".into()),
                },
                1 | 2 | 3 if !asked.is_empty() => r.pick(&asked).clone(),
                _ => call(r, &q, 1),
            };
            asked.push(c.clone());
            if r.chance(1, 40) {
                // one and the same call, over and over
                let n = r.range(8, 80);
                for _ in 0..dict::num(r, 2, 200).unwrap_or(n) {
                    ops.push(Op::Call(c.clone()));
                }
            }
            ops.push(Op::Call(c));
            if r.chance(1, 15) {
                ops.push(each(r, &u));
            }
            if r.chance(1, 20) {
                let n = r.range(10, 200);
                let n = dict::num(r, 2, 1200).map_or(n, |n| n + 3);
                ops.push(Op::Fill { seed: r.below(1000), n: n as u32, kind: r.below(crate::exec::FILLS as u64) as u8 });
            }
        }
        if long && t == 0 {
            let r = &mut b.r;
            let at = r.below(ops.len() as u64 + 1) as usize;
            let n = if thorough { r.range(1000, 70000) } else { r.range(1000, 5000) };
            let kind = r.below(crate::exec::FILLS as u64) as u8;
            let n = if kind >= 2 { n / 4 } else { n };
            let n = dict::num(r, 2, 20_000).map_or(n, |x| if x < 100 { n } else { x + 10 });
            ops.insert(at, Op::Fill { seed: r.below(1000), n: n as u32, kind });
            for _ in 0..6 {
                ops.push(Op::Call(r.pick(&asked).clone()));
            }
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
    // what was built at the start still answers the same
    let mut ops = vec![];
    for (i, t) in p.versions.iter().enumerate() {
        ops.push(Op::Call(Call::Debug(Obj { t: t.clone(), s: i as i32, c: i % 2 == 1 })));
        ops.push(Op::Call(Call::Cmp(Obj { t: t.clone(), s: i as i32, c: false }, Obj { t: u.vs[0].clone(), s: -1, c: false })));
    }
    for (i, t) in p.trees.iter().enumerate() {
        ops.push(Op::Call(Call::TreeShow(Obj { t: t.clone(), s: i as i32, c: i % 2 == 1 })));
    }
    for (i, t) in p.specs.iter().enumerate() {
        ops.push(Op::Call(Call::SpecMatch(Obj { t: t.clone(), s: i as i32, c: i % 2 == 1 }, Obj { t: u.vs[0].clone(), s: -1, c: false })));
    }
    p.last = b.number(ops);
}

fn c10(b: &mut B, p: &mut Plan) {
    let u = universe(&mut b.r, 4, 2);
    let r = &mut b.r;
    p.strat = strat(r, 20_000, 30);
    p.versions = u.vs.iter().take(2).cloned().collect();
    let q = Pools { vs: &u.vs, any: &u.any, trees: &u.trees, specs: &u.specs, bad: &u.bad, sv: 2, st: 0, ss: 0 };
    let nt = if r.chance(1, 2) { 1 } else { r.range(2, 3) };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..b.r.range(1, 6) {
            let r = &mut b.r;
            if r.chance(4, 5) {
                let text = match r.below(4) {
                    0 => r.pick(&u.vs).clone(),
                    1 => r.pick(&u.any).clone(),
                    _ => texts::odd_text(r),
                };
                let custom = custom(r, &q, 2);
                let n = if r.chance(1, 12) { r.log(70) } else { 1 };
                for _ in 0..n {
                    ops.push(Op::Custom { text: text.clone(), custom: custom.clone() });
                }
            } else {
                let c = match r.below(3) {
                    0 => Call::Parse(r.pick(&u.any).clone()),
                    1 => Call::Cmp(pick_obj(r, q.vs, 2), pick_obj(r, q.vs, 2)),
                    _ => Call::Tree(r.pick(&u.trees).clone()),
                };
                ops.push(Op::Call(c));
            }
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
}

fn faulty_net(r: &mut Rng, p: &mut Plan) {
    p.net = NetP {
        loss: *r.pick(&[0u16, 50, 200, 400]),
        dup: *r.pick(&[0u16, 100, 300]),
        delay: *r.pick(&[0u16, 200, 700]),
        max_delay: r.log(20_000_000_000),
        crash: *r.pick(&[0u16, 100, 400]),
        partition: *r.pick(&[0u16, 0, 30]),
        heal_at: r.log(60_000_000_000),
    };
}

fn c11(b: &mut B, p: &mut Plan) {
    let r = &mut b.r;
    let n = match r.below(10) {
        0 => r.range(0, 2),
        1..=7 => r.range(2, 30),
        8 => r.range(20, 60),
        _ => r.range(40, 120),
    };
    let n = dict::num(r, 8, 200).unwrap_or(n);
    let a = r.below(n + 1);
    let d = DocP { seed: r.next() >> 8, n_pk: a as u32, n_pkc: (n - a) as u32, n_removed: 0, style: 128 | (r.below(4) as u32), pad: 0, dict: dict::some(r), twist: 0 };
    let f = file(r, paths(0), d);
    p.files.push(f);
    if r.chance(3, 4) {
        faulty_net(r, p);
    }
    p.strat = strat(r, 50_000, 30);
    p.io_pct = *r.pick(&[5u64, 30]);
    let workers = r.range(1, 4) as u32;
    let parts = r.range(1, 8) as u32;
    let op = b.op(Op::Rank { path: paths(0), workers, parts });
    p.tasks.push(vec![op]);
}

fn c20(b: &mut B, p: &mut Plan) {
    let u = universe(&mut b.r, 5, 1);
    let r = &mut b.r;
    p.strat = strat(r, 20_000, 40);
    p.versions = u.vs.iter().take(2).cloned().collect();
    let nt = if r.chance(1, 2) { 1 } else { r.range(2, 3) };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..b.r.range(2, 12) {
            let r = &mut b.r;
            match r.below(8) {
                0..=4 => {
                    // damaged variants of one text against it and against each other
                    let g = r.pick(&u.vs).clone();
                    let d = |r: &mut Rng| match r.below(8) {
                        0 | 1 => texts::corrupt(r, &g),
                        2 | 3 => texts::overwrite(r, &g),
                        4 => texts::near(r, &g),
                        5 => texts::odd_text(r),
                        6 => texts::long_version(r),
                        _ => texts::any_version(r),
                    };
                    let a = d(r);
                    let c = if r.chance(1, 2) { g.clone() } else { d(r) };
                    ops.push(if r.chance(1, 2) { Op::Vers(a, c) } else { Op::Vers(c, a) });
                }
                _ => {
                    let v = pick_obj(r, &u.vs, 2);
                    let w = pick_obj(r, &u.vs, 2);
                    ops.push(Op::Call(match r.below(7) {
                        0 | 1 => Call::Parse(r.pick(&u.any).clone()),
                        2 => Call::Raw(r.pick(&u.any).clone()),
                        3 => Call::Cmp(v, w),
                        4 => Call::Starts(v, w),
                        5 => Call::Debug(v),
                        _ => Call::Render(v),
                    }));
                }
            }
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
}

fn c21(b: &mut B, p: &mut Plan) {
    let r = &mut b.r;
    let nf = r.range(1, 3) as usize;
    let mut len = 0;
    for i in 0..nf {
        let m = if r.chance(1, 200) { 400 } else { max_records(r).min(60) };
        let d = DocP::random(r, m);
        len = len.max(doc_len(&d));
        let mut f = file(r, paths(i), d);
        if r.chance(1, 6) {
            f.gens[0].dmg = random_damage(r);
        }
        p.files.push(f);
    }
    let mut g = Regime::default();
    slices(r, &mut g, len);
    g.eintr = *r.pick(&[0u16, 300, 1000]);
    g.eintr_each = *r.pick(&[0u16, 0, 50, 300]);
    g.short = *r.pick(&[0u16, 0, 100, 500]);
    match r.below(4) {
        0 => g.read_err = 600,
        1 => g.early_eof = 600,
        2 => {
            g.read_err = 200;
            g.early_eof = 200;
            g.flip = 200;
        }
        _ => {}
    }
    p.regime = g;
    p.strat = strat(r, 60_000, 50);
    p.io_pct = *r.pick(&[0u64, 10, 40]);
    let nt = if r.chance(2, 3) { 1 } else { r.range(2, 3) };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..b.r.range(1, 4) {
            let r = &mut b.r;
            let path = paths(r.below(nf as u64) as usize);
            ops.push(Op::Load { path, keep: false, via: 1 + r.below(crate::exec::VIAS - 1) as u8 });
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
}

/// Damaged numbers, broken-off and sliced data, claimed sizes: what may decide how much memory is taken.
fn c27(b: &mut B, p: &mut Plan) {
    let u = universe(&mut b.r, 4, 3);
    let r = &mut b.r;
    let loads = r.chance(2, 3);
    let texts_too = !loads || r.chance(1, 3);
    p.strat = strat(r, 60_000, 50);
    let mut nf = 0;
    if loads {
        nf = r.range(1, 3) as usize;
        let mut len = 0;
        for i in 0..nf {
            let m = if r.chance(1, 200) { 400 } else { max_records(r).min(60) };
            let mut d = DocP::random(r, m);
            if d.n_pk + d.n_pkc == 0 && r.chance(3, 4) {
                d.n_pk = r.range(1, 4) as u32;
            }
            len = len.max(doc_len(&d));
            let mut f = file(r, paths(i), d);
            f.gens[0].dmg = match r.below(8) {
                0 => vec![],
                1 | 2 => random_damage(r),
                _ => {
                    let n = if r.chance(2, 3) { 1 } else { r.range(2, 3) };
                    (0..n).map(|_| Dmg { kind: 24, a: r.next() >> 8, b: r.next() >> 8, c: r.next() >> 8 }).collect()
                }
            };
            p.files.push(f);
        }
        let mut g = Regime::default();
        slices(r, &mut g, len);
        g.eintr = *r.pick(&[0u16, 0, 300, 1000]);
        g.eintr_each = *r.pick(&[0u16, 0, 0, 50, 300]);
        g.short = *r.pick(&[0u16, 0, 100, 500]);
        g.stat_lie = *r.pick(&[0u16, 0, 500, 1000]);
        g.stat_err = *r.pick(&[0u16, 0, 0, 300]);
        match r.below(6) {
            0 => g.read_err = 600,
            1 => g.early_eof = 600,
            2 => g.flip = 600,
            _ => {}
        }
        p.regime = g;
        p.io_pct = *r.pick(&[0u64, 10, 40]);
    }
    let nt = if r.chance(2, 3) { 1 } else { r.range(2, 3) };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..b.r.range(1, 8) {
            let r = &mut b.r;
            if loads && (!texts_too || r.chance(1, 2)) {
                let path = paths(r.below(nf as u64) as usize);
                let via = if r.chance(1, 2) { 0 } else { 1 + r.below(crate::exec::VIAS - 1) as u8 };
                ops.push(Op::Load { path, keep: false, via });
                continue;
            }
            let d = |r: &mut Rng, t: &String| match r.below(8) {
                0..=4 => texts::with_grown(r, t),
                5 => texts::corrupt(r, t),
                6 => texts::long_version(r),
                _ => texts::near(r, t),
            };
            let t = r.pick(&u.vs).clone();
            let a = d(r, &t);
            ops.push(match r.below(6) {
                0 => Op::Vers(a, t),
                1 | 2 => {
                    let c = d(r, &t);
                    Op::Vers(a, c)
                }
                3 => Op::Probe(Call::Raw(a)),
                4 => {
                    let t = r.pick(&u.trees).clone();
                    let c = texts::with_grown(r, &t);
                    Op::Probe(if r.chance(1, 2) { Call::Tree(c) } else { Call::AnySpec(c) })
                }
                _ => {
                    let t = r.pick(&u.specs).clone();
                    let c = texts::with_grown(r, &t);
                    Op::Probe(if r.chance(1, 2) { Call::Tree(c) } else { Call::Spec(c) })
                }
            });
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
}

/// One constraint on dotted-number versions, close to those given.
fn num_term(r: &mut Rng, vs: &[String]) -> String {
    let v = match r.below(4) {
        _ if vs.is_empty() => texts::numeric(r),
        0 | 1 => r.pick(vs).clone(),
        _ => {
            let b = r.pick(vs).clone();
            texts::numeric_near(r, &b)
        }
    };
    match r.below(16) {
        0 => "*".into(),
        1 | 2 => format!("{}.*", v),
        3 => format!("!={}.*", v),
        4 => format!("={}", v),
        5 => v,
        6 => format!("!={}", v),
        7 => format!("=={}", v),
        8 | 9 => format!("<{}", v),
        10 => format!("<={}", v),
        11 | 12 => format!(">{}", v),
        _ => format!(">={}", v),
    }
}

/// Two constraints of which one, followed by one of the versions, reads like the other followed by another.
fn twin_terms(r: &mut Rng, vs: &[String]) -> Option<String> {
    let pairs: Vec<&str> = vs
        .iter()
        .flat_map(|a| vs.iter().filter(move |b| a.len() > b.len() && a.ends_with(b.as_str())).map(move |b| &a[..a.len() - b.len()]))
        .filter(|d| d.bytes().all(|c| c.is_ascii_digit()) && d.len() < 3)
        .collect();
    if pairs.is_empty() {
        return None;
    }
    let d = *r.pick(&pairs);
    let s = *r.pick(&["==", "=", "!=", "<", "<=", ">", ">="]);
    let x = r.range(1, 3);
    let y = *r.pick(&["", "", "", "0.", "1."]);
    let (a, b) = (format!("{}{}{}", s, y, x), format!("{}{}{}{}", s, y, x, d));
    let o = r.pick(&["|", ","]);
    Some(if r.chance(1, 2) { format!("{}{}{}", a, o, b) } else { format!("{}{}{}", b, o, a) })
}

fn num_expr(r: &mut Rng, vs: &[String], depth: u32) -> String {
    if depth == 0 || r.chance(1, 4) {
        if r.chance(1, 6) {
            if let Some(t) = twin_terms(r, vs) {
                return t;
            }
        }
        return num_term(r, vs);
    }
    let n = r.range(2, 4);
    let n = dict::num(r, 30, 70).unwrap_or(n);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(*r.pick(&[",", "|", ",", "|", ", ", " |", " , "]));
        }
        let e = num_expr(r, vs, depth - 1);
        match r.below(6) {
            0 | 1 => s.push_str(&format!("({})", e)),
            2 => s.push_str(&format!("( {} )", e)),
            _ => s.push_str(&e),
        }
    }
    s
}

fn c22(b: &mut B, p: &mut Plan) {
    let r = &mut b.r;
    let n = match r.below(10) {
        0 => r.range(0, 2),
        1..=7 => r.range(2, 24),
        _ => r.range(20, 60),
    };
    let a = r.below(n + 1);
    let d = DocP { seed: r.next() >> 8, n_pk: a as u32, n_pkc: (n - a) as u32, n_removed: 0, style: 128 | (r.below(4) as u32), pad: 0, dict: dict::some(r), twist: 0 };
    let m = d.model();
    let vs: Vec<String> = m.packages.iter().chain(m.packages_conda.iter()).map(|x| x.1[0].version.clone()).collect();
    let f = file(r, paths(0), d);
    p.files.push(f);
    if r.chance(2, 3) {
        faulty_net(r, p);
    }
    p.strat = strat(r, 50_000, 30);
    p.io_pct = *r.pick(&[5u64, 30]);
    for _ in 0..b.r.range(1, 3) {
        let r = &mut b.r;
        let depth = r.below(4) as u32;
        let mut expr = num_expr(r, &vs, depth);
        if r.chance(1, 5) {
            expr = format!("({})", expr);
        }
        let (workers, parts, way) = (r.range(1, 3) as u32, r.range(1, 5) as u32, r.below(6) as u8);
        let op = b.op(Op::Select { path: paths(0), expr, workers, parts, way });
        if p.tasks.is_empty() {
            p.tasks.push(vec![]);
        }
        p.tasks[0].push(op);
    }
}

fn c23(b: &mut B, p: &mut Plan) {
    let r = &mut b.r;
    p.strat = strat(r, 20_000, 80);
    let nt = if r.chance(5, 6) { 1 } else { 2 };
    for _ in 0..nt {
        let mut ops = vec![];
        let r = &mut b.r;
        let kind = r.below(crate::exec::KINDS_KEPT as u64) as u8;
        let mut calls = vec![];
        if r.chance(1, 2) {
            let u = universe(r, 4, 3);
            let q = Pools { vs: &u.vs, any: &u.any, trees: &u.trees, specs: &u.specs, bad: &u.bad, sv: 0, st: 0, ss: 0 };
            for _ in 0..r.range(1, 5) {
                let c = call(r, &q, 0);
                if !matches!(c, Call::LoadDoc(_) | Call::OpInfo(_)) {
                    calls.push(c);
                }
            }
        }
        let n = if crate::exec::slow_fill(kind) || !calls.is_empty() { r.range(200, 900) } else { r.range(1500, 5000) };
        let n = dict::num(r, 3, 20_000).map_or(n, |x| (2 * x + 100).max(n));
        let n = if crate::exec::slow_fill(kind) || !calls.is_empty() { n.min(3000) } else { n };
        ops.push(Op::Retain { seed: r.below(1 << 20), n: n as u32, kind, calls });
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
}

fn c24(b: &mut B, p: &mut Plan) {
    let nv = b.r.range(2, 6) as usize;
    let u = universe(&mut b.r, nv, 3);
    let r = &mut b.r;
    p.strat = strat(r, 20_000, 40);
    p.io_pct = *r.pick(&[5u64, 50]);
    let (sv, st, ss) = (r.below(3) as usize, r.below(2) as usize, r.below(2) as usize);
    p.versions = u.vs.iter().take(sv).cloned().collect();
    p.trees = u.trees.iter().take(st).cloned().collect();
    p.specs = u.specs.iter().take(ss).cloned().collect();
    let (st, ss) = (p.trees.len(), p.specs.len());
    let nt = if r.chance(1, 2) { 1 } else { r.range(2, 3) };
    let many = r.chance(1, 30);
    let crowd = if r.chance(1, 150) { *r.pick(&[300u32, 1_100, 2_200, 4_200]) } else { 0 };
    let nt = if crowd > 0 { 1 } else { nt };
    for _ in 0..nt {
        let mut ops = vec![];
        if crowd > 0 {
            // many threads that do little, one after the other
            let q = Pools { vs: &u.vs, any: &u.any, trees: &u.trees, specs: &u.specs, bad: &u.bad, sv, st, ss };
            let mut l = Life { again: crowd, ..Life::default() };
            for _ in 0..b.r.range(1, 3) {
                b.next += 1;
                l.calls.push((b.next, call(&mut b.r, &q, 1)));
            }
            l.panic = b.r.chance(1, 8);
            ops.push(Op::Life(l));
        }
        let n = if many { b.r.range(20, 80) } else { b.r.range(1, 4) };
        for _ in 0..n {
            let q = Pools { vs: &u.vs, any: &u.any, trees: &u.trees, specs: &u.specs, bad: &u.bad, sv, st, ss };
            let some = |b: &mut B, q: &Pools, k: u64| -> Vec<(u32, Call)> {
                (0..k)
                    .map(|_| {
                        b.next += 1;
                        (b.next, call(&mut b.r, q, 1))
                    })
                    .collect()
            };
            let mut l = Life::default();
            if b.r.chance(2, 3) {
                let k = b.r.below(4);
                l.calls = some(b, &q, k);
            }
            if b.r.chance(1, 2) {
                let k = b.r.range(1, 3);
                l.early = some(b, &q, k);
            }
            if b.r.chance(1, 3) {
                let k = b.r.range(1, 3);
                l.late = some(b, &q, k);
            }
            if !l.calls.is_empty() && b.r.chance(1, 3) {
                // the destructor asks what the thread asked before
                for x in [&mut l.early, &mut l.late] {
                    for (_, c) in x.iter_mut() {
                        if b.r.chance(1, 2) {
                            *c = b.r.pick(&l.calls).1.clone();
                        }
                    }
                }
            }
            if b.r.chance(1, 2) {
                l.versions = u.vs.iter().rev().take(b.r.range(1, 3) as usize).cloned().collect();
                if b.r.chance(1, 2) {
                    l.trees = u.trees.iter().rev().take(1).cloned().collect();
                }
                if b.r.chance(1, 2) {
                    l.specs = u.specs.iter().rev().take(2).cloned().collect();
                }
                let q = Pools {
                    vs: &l.versions.clone(),
                    any: &u.any,
                    trees: if l.trees.is_empty() { &u.trees } else { &l.trees.clone() },
                    specs: if l.specs.is_empty() { &u.specs } else { &l.specs.clone() },
                    bad: &u.bad,
                    sv: l.versions.len(),
                    st: l.trees.len(),
                    ss: l.specs.len(),
                };
                let k = b.r.range(1, 4);
                l.after = some(b, &q, k);
                l.heirs = if b.r.chance(1, 2) { 0 } else { b.r.range(1, 2) as u32 };
                l.far_drop = b.r.chance(1, 3);
            }
            l.panic = b.r.chance(1, 6);
            if b.r.chance(1, 4) {
                l.name = b.r.pick(&["pool-1", "a", "main"]).to_string();
            }
            ops.push(Op::Life(l));
            if b.r.chance(1, 3) {
                let c = call(&mut b.r, &q, 1);
                ops.push(Op::Call(c));
            }
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
}

fn c25(b: &mut B, p: &mut Plan) {
    let nv = b.r.range(2, 6) as usize;
    let u = universe(&mut b.r, nv, 3);
    let r = &mut b.r;
    p.strat = strat(r, 20_000, 70);
    let q = Pools { vs: &u.vs, any: &u.any, trees: &u.trees, specs: &u.specs, bad: &u.bad, sv: 0, st: 0, ss: 0 };
    let nt = if r.chance(3, 4) { 1 } else { 2 };
    let mut themes: Vec<Call> = (0..r.range(1, 4)).map(|_| call(r, &q, 1)).collect();
    if r.chance(1, 3) {
        themes.push(Call::LoadNone(r.pick(&NOT_THERE).to_string()));
    }
    if r.chance(1, 3) {
        let mut d = small_doc(r, 6);
        if r.chance(1, 6) {
            // a big one
            d.pad = dict::num(r, 1, 300_000).unwrap_or_else(|| 0).max(r.log(150_000)) as u32;
            d.n_pk = r.log(60) as u32;
            d.seed = 5000 + d.pad as u64 * 64 + d.n_pk as u64;
        }
        themes.push(Call::LoadDoc(d));
    }
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..b.r.range(2, 10) {
            let r = &mut b.r;
            let c = if r.chance(1, 2) { call(r, &q, 1) } else { r.pick(&themes).clone() };
            ops.push(Op::Call(c));
            match r.below(6) {
                2 => ops.push(each(r, &u)),
                0 => ops.push(Op::Jump((r.log(400_000_000) as i64 - if r.chance(1, 2) { 200_000_000 } else { 0 }) * 1_000_000_000)),
                1 => ops.push(Op::Sleep(if r.chance(1, 2) { r.log(90_000_000_000_000) } else { r.log(100_000_000_000_000_000) })),
                _ => {}
            }
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
}

fn c26(b: &mut B, p: &mut Plan) {
    let r = &mut b.r;
    let nf = r.range(1, 2) as usize;
    let m = if r.chance(1, 12) { 40 } else { 5 };
    let mut len = 0;
    for i in 0..nf {
        let base = DocP::random(r, m);
        let ng = r.range(2, 4) as usize;
        let same_size = r.chance(1, 2);
        let mut docs: Vec<DocP> = (0..ng)
            .map(|_| {
                let mut d = base.clone();
                d.seed = r.next() >> 8;
                if !same_size && r.chance(1, 2) {
                    d.n_pk = r.below(m + 1) as u32;
                }
                d
            })
            .collect();
        if r.chance(1, 4) {
            for k in 1..ng {
                docs[k] = docs[k - 1].clone();
                docs[k].twist = k as u32;
            }
        }
        if same_size {
            let max = docs.iter().map(|d| d.encode().out.len()).max().unwrap();
            for d in docs.iter_mut() {
                d.pad = max as u32;
            }
        }
        len = docs.iter().map(doc_len).max().unwrap().max(len);
        let t0 = 1_599_000_000 + r.below(1_000_000) as i64;
        let gens = docs.into_iter().map(|doc| GenP { doc, dmg: vec![], ino: 100, mtime: t0 }).collect();
        p.files.push(FileP { path: paths(i), gens });
    }
    let mut g = Regime::default();
    slices(r, &mut g, len);
    g.stat_err = 0;
    if r.chance(1, 4) {
        g.eintr = 300;
    }
    if r.chance(1, 4) {
        g.short = 300;
    }
    if g.slice == 0 && r.chance(1, 2) {
        g.slice = 2;
        g.slice_n = (len / 8 + 1) as u32;
    }
    p.regime = g;
    p.strat = strat(r, 60_000, 10);
    p.io_pct = *r.pick(&[20u64, 50, 80]);
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![];
        for _ in 0..b.r.range(1, 6) {
            let path = paths(b.r.below(nf as u64) as usize);
            ops.push(Op::Load { path, keep: b.r.chance(1, 3), via: 0 });
        }
        ops.push(Op::Recheck);
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
    for i in 0..nf {
        let ng = p.files[i].gens.len();
        let mut ops = vec![];
        for g in 1..ng {
            let r = &mut b.r;
            let chunk = match r.below(3) {
                0 => r.range(1, 20),
                1 => 512,
                _ => r.log(len) + 1,
            };
            let chunk = chunk.max(len / 200 + 1) as u32;
            ops.push(Op::Rewrite { path: paths(i), gen: g as u32, chunk, way: r.below(3) as u8 });
            if r.chance(1, 3) {
                ops.push(Op::Load { path: paths(i), keep: false, via: 0 });
            }
        }
        let ops = b.number(ops);
        p.tasks.push(ops);
    }
    let mut ops = vec![];
    for i in 0..nf {
        ops.push(Op::Load { path: paths(i), keep: false, via: 0 });
    }
    p.last = b.number(ops);
}
