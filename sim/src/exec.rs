//! Executes a plan inside the simulation (in a forked child) and checks the invariants as it goes.
#![allow(static_mut_refs)]

use crate::doc::damage;
use crate::faults::*;
use crate::json::{self, Index, Says};
use crate::net::{self, Msg};
use crate::plan::*;
use crate::rng::{hash, Rng};
use crate::rt::*;
use crate::shm::*;
use crate::texts;
use crate::vfs::*;
use ronda_driver as lib;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
/// The ways an index can arrive (see the driver).
pub const VIAS: u64 = lib::VIA_NAMES.len() as u64;

// ---------------------------------------------------------------- shared objects

pub struct World {
    pub versions: Vec<Option<lib::Version>>,
    pub trees: Vec<Option<lib::ConstraintTree>>,
    pub specs: Vec<Option<lib::VersionSpec>>,
}

/// Are the library's types usable from several threads at once? If not, each task gets its own.
struct W<T>(std::marker::PhantomData<T>);
trait NotShared {
    const SHARED: bool = false;
}
impl<T> NotShared for W<T> {}
#[allow(dead_code)]
impl<T: Send + Sync> W<T> {
    const SHARED: bool = true;
}
pub const SHARED: bool = W::<lib::Version>::SHARED && W::<lib::ConstraintTree>::SHARED && W::<lib::VersionSpec>::SHARED;

static mut WORLD: *const World = std::ptr::null();

thread_local! {
    static MINE: Cell<*const World> = const { Cell::new(std::ptr::null()) };
}

fn build_world(p: &Plan) -> *const World {
    make_world(&p.versions, &p.trees, &p.specs)
}

fn make_world(vs: &[String], ts: &[String], ss: &[String]) -> *const World {
    // A text the library refuses leaves its slot empty; the calls on it build (and fail) on the spot.
    fn each<T>(texts: &[String], f: impl Fn(&str) -> Result<T, String>) -> Vec<Option<T>> {
        texts.iter().map(|t| catch_unwind(AssertUnwindSafe(|| f(t))).ok().and_then(|r| r.ok())).collect()
    }
    let w = World {
        versions: each(vs, |t| lib::parse(t).map_err(|e| e.to_string())),
        trees: each(ts, |t| lib::tree(t).map_err(|e| e.to_string())),
        specs: each(ss, |t| lib::spec(t).map_err(|e| e.to_string())),
    };
    Box::into_raw(Box::new(w))
}

struct Ctx<'a> {
    plan: Option<&'a Plan>,
    /// Objects made by another thread, instead of the run's shared ones.
    own: Option<&'static World>,
}

impl<'a> Ctx<'a> {
    fn world(&self) -> Option<&'static World> {
        if self.own.is_some() {
            return self.own;
        }
        let p = self.plan?;
        unsafe {
            if SHARED {
                if WORLD.is_null() {
                    return None;
                }
                return Some(&*WORLD);
            }
            let mut w = MINE.with(|m| m.get());
            if w.is_null() {
                w = build_world(p);
                MINE.with(|m| m.set(w));
            }
            Some(&*w)
        }
    }
}

enum H<'a, T> {
    Ref(&'a T),
    Own(T),
}
impl<'a, T> std::ops::Deref for H<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        match self {
            H::Ref(r) => r,
            H::Own(o) => o,
        }
    }
}

macro_rules! getter {
    ($name:ident, $ty:ty, $field:ident, $make:path) => {
        fn $name(c: &Ctx, o: &Obj) -> Result<H<'static, $ty>, String> {
            if o.s >= 0 {
                if let Some(w) = c.world() {
                    if let Some(Some(x)) = w.$field.get(o.s as usize) {
                        return Ok(if o.c { H::Own(x.clone()) } else { H::Ref(x) });
                    }
                }
            }
            $make(&o.t).map(H::Own).map_err(|e| format!("cannot build: {}", e))
        }
    };
}
getter!(ver, lib::Version, versions, lib::parse);
getter!(tre, lib::ConstraintTree, trees, lib::tree);
getter!(spe, lib::VersionSpec, specs, lib::spec);

fn make_part(p: &PartP) -> lib::VersionPart {
    match p {
        PartP::Epoch(i) => lib::VersionPart::Epoch(*i),
        PartP::Int(i) => lib::VersionPart::Integer(*i),
        PartP::Lex(s) => lib::VersionPart::LexicographicString(s.clone()),
        PartP::Pep(s) => serde_json::from_str::<lib::VersionPart>(&format!("{{\"PEP440String\":{{\"alpha\":{:?}}}}}", s)).unwrap(),
        PartP::Empty => lib::VersionPart::Empty,
    }
}

fn part_text(p: &PartP) -> String {
    match p {
        PartP::Epoch(i) => format!("Epoch({})", i),
        PartP::Int(i) => format!("Integer({})", i),
        PartP::Lex(s) => format!("LexicographicString({})", s),
        PartP::Pep(s) => format!("PEP440String({})", s),
        PartP::Empty => "Empty".into(),
    }
}

fn make_err(e: &ErrP) -> lib::VersionParsingError {
    use lib::VersionParsingError as E;
    match e {
        ErrP::Message(s) => E::Message(s.clone()),
        ErrP::Disallowed => E::DisallowedCharacter,
        ErrP::DupEpoch => E::DuplicatedEpochCharacter,
        ErrP::DupLocal => E::DuplicatedLocalSeparatorCharacter,
        ErrP::Unknown => E::UnknownParseError,
    }
}

/// Behaves as the caller-supplied parser `c` would; inner answers go to `inner`.
fn behave(cx: &Ctx, c: &Custom, text: &str, inner: &RefCell<Vec<String>>) -> Result<Vec<lib::VersionPart>, lib::VersionParsingError> {
    match c {
        Custom::Parts(p) => Ok(p.iter().map(make_part).collect()),
        Custom::Fail(e) => {
            probe(PARSER_FAIL as usize);
            Err(make_err(e))
        }
        Custom::Panic(m) => {
            probe(PARSER_PANIC as usize);
            panic!("{}", m.clone())
        }
        Custom::Conda => lib::raw_conda(text),
        Custom::Stall(ns, c) => {
            probe(PARSER_STALL as usize);
            if active() {
                sleep(*ns);
            }
            behave(cx, c, text, inner)
        }
        Custom::Nest(n, c) => {
            probe(PARSER_REENTER as usize);
            nest(cx, *n, c, text, inner)
        }
        Custom::Reenter(calls, c) => {
            probe(PARSER_REENTER as usize);
            for k in calls {
                let o = answer(cx, k);
                inner.borrow_mut().push(o);
            }
            behave(cx, c, text, inner)
        }
    }
}

fn described(r: &Result<Vec<lib::VersionPart>, lib::VersionParsingError>) -> String {
    match r {
        Ok(p) => p.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(";"),
        Err(e) => format!("err {:?}", e),
    }
}

const NESTED: &str = "NESTED";

/// The parser parses the text with itself and then goes on as `c`.
fn nest(cx: &Ctx, n: u32, c: &Custom, text: &str, inner: &RefCell<Vec<String>>) -> Result<Vec<lib::VersionPart>, lib::VersionParsingError> {
    if n > 0 {
        let made = RefCell::new(vec![]);
        let r = lib::parse_with(text, &|s| {
            let o = nest(cx, n - 1, c, s, inner);
            made.borrow_mut().push(described(&o));
            o
        });
        let made = made.into_inner();
        let got = match &r {
            Ok(v) => v.parts().iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(";"),
            Err(e) => format!("err {:?}", e),
        };
        if made.len() != 1 || made[0] != got || r.map_or(false, |v| v.as_str() != text) {
            inner.borrow_mut().push(format!("{} at level {} the parser gave {:?} and the call {:?}", NESTED, n, made, got));
        }
    }
    behave(cx, c, text, inner)
}

fn probe(i: usize) {
    if active() {
        enter(|| count(i));
    }
}

fn digest(r: &lib::Repodata) -> String {
    let mut o = format!("{} v{} removed {:?}", r.info.subdir, r.repodata_version, r.removed);
    for m in [&r.packages, &r.packages_conda] {
        let mut names: Vec<&String> = m.keys().collect();
        names.sort();
        for n in names {
            let x = &m[n];
            o.push_str(&format!(
                "\n{:?} {:?} {} {:?} {:?} {:?} {:?} {} {} {} {:?}",
                n, x.build, x.build_number, x.depends, x.md5, x.name, x.sha256, x.size, x.timestamp, x.version, x.version
            ));
        }
    }
    o
}

pub fn doc_path(d: &crate::doc::DocP) -> String {
    format!("/simdisk/doc-{}-{}-{}.json", d.seed, d.n_pk, d.n_pkc)
}

/// Makes one call into the library and describes the outcome.
fn ask(cx: &Ctx, c: &Call) -> Result<String, String> {
    Ok(match c {
        Call::Parse(t) => match lib::parse(t) {
            Ok(v) => format!("ok {}", lib::show_version(&v)),
            Err(e) => format!("err {}", e),
        },
        Call::ParseFrom(t) => format!("ok {}", lib::show_version(&lib::parse_from(t))),
        Call::Raw(t) => format!("{:?}", lib::raw_conda(t)),
        Call::With(t, cu) => {
            let inner = RefCell::new(vec![]);
            let r = lib::parse_with(t, &|s| behave(cx, cu, s, &inner));
            let r = match r {
                Ok(v) => format!("ok {}", lib::show_version(&v)),
                Err(e) => format!("err {:?}", e),
            };
            format!("{} inner {:?}", r, inner.into_inner())
        }
        Call::Render(a) => lib::render(&*ver(cx, a)?),
        Call::Debug(a) => lib::debug(&*ver(cx, a)?),
        Call::Part(a, i) => lib::part(&*ver(cx, a)?, *i as usize),
        Call::Cmp(a, b) => lib::cmp(&*ver(cx, a)?, &*ver(cx, b)?),
        Call::CmpStr(a, t) => lib::cmp_str(&*ver(cx, a)?, t),
        Call::Partial(a, b) => format!("{:?}", lib::partial(&*ver(cx, a)?, &*ver(cx, b)?)),
        Call::Eq(a, b) => format!("{:?}", lib::eq(&*ver(cx, a)?, &*ver(cx, b)?)),
        Call::Starts(a, b) => format!("{:?}", lib::starts(&*ver(cx, a)?, &*ver(cx, b)?)),
        Call::Test(a, b, o) => format!("{:?}", lib::test(&*ver(cx, a)?, &*ver(cx, b)?, *o)),
        Call::TestStr(a, t, o) => format!("{:?}", lib::test_str(&*ver(cx, a)?, t, *o)),
        Call::OpInfo(o) => lib::op_info(*o),
        Call::OpSign(t) => lib::op_sign(t),
        Call::OpName(t) => lib::op_name(t),
        Call::Tree(t) => match lib::tree(t) {
            Ok(t) => {
                probe(P_TREES);
                format!("ok {}", lib::tree_text(&t))
            }
            Err(e) => {
                probe(P_REFUSED);
                format!("err {}", e)
            }
        },
        Call::TreeShow(a) => lib::tree_text(&*tre(cx, a)?),
        Call::TreeMatch(a, b) => format!("{:?}", lib::tree_match(&*tre(cx, a)?, &*ver(cx, b)?)),
        Call::TreeMatchStr(a, t) => format!("{:?}", lib::tree_match_str(&*tre(cx, a)?, t)),
        Call::TreeEq(a, b) => format!("{:?}", *tre(cx, a)? == *tre(cx, b)?),
        Call::Spec(t) => match lib::spec(t) {
            Ok(s) => format!("ok {}", lib::spec_text(&s)),
            Err(e) => {
                probe(P_REFUSED);
                format!("err {}", e)
            }
        },
        Call::SpecShow(a) => lib::spec_text(&*spe(cx, a)?),
        Call::SpecMatch(a, b) => format!("{:?}", lib::spec_match(&*spe(cx, a)?, &*ver(cx, b)?)),
        Call::AnySpec(t) => match lib::any_spec(t) {
            Ok(s) => {
                probe(P_TREES);
                format!("ok {}", lib::any_text(&s))
            }
            Err(e) => {
                probe(P_REFUSED);
                format!("err {}", e)
            }
        },
        Call::AnyMatch(t, v) => match lib::any_spec(t) {
            Ok(s) => format!("{:?}", lib::any_match(&s, v)),
            Err(e) => format!("err {}", e),
        },
        Call::VecTree(v) => match lib::vec_tree(v) {
            Ok(t) => {
                probe(P_TREES);
                format!("ok {}", lib::tree_text(&t))
            }
            Err(e) => {
                probe(P_REFUSED);
                format!("err {}", e)
            }
        },
        Call::FromJson(t) => match lib::from_json(t) {
            Ok(v) => format!("ok {}", lib::show_version(&v)),
            Err(e) => format!("err {}", e),
        },
        Call::LoadDoc(d) => match lib::load(doc_path(d).as_ref()) {
            Ok(r) => format!("ok {}", digest(&r)),
            Err(e) => format!("err {}", e),
        },
        Call::LoadNone(p) => match lib::load(p.as_ref()) {
            Ok(r) => format!("ok {}", digest(&r)),
            Err(e) => format!("err {}", e),
        },
    })
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

fn answer(cx: &Ctx, c: &Call) -> String {
    match catch_unwind(AssertUnwindSafe(|| ask(cx, c))) {
        Ok(Ok(s)) => s,
        Ok(Err(s)) => s,
        Err(e) => {
            probe(CALL_PANIC as usize);
            format!("panic: {}", panic_text(&*e))
        }
    }
}

// ---------------------------------------------------------------- history shared by the tasks of a run

pub struct FileM {
    pub path: String,
    pub models: Vec<Result<Index, ()>>, // Err: damaged
    pub dmg: Vec<bool>,
}

struct Run {
    plan: Plan,
    refs: BTreeMap<u32, String>,
    files: Vec<FileM>,
}

static mut RUN: *const Run = std::ptr::null();
static mut KEPT: Vec<(usize, lib::Repodata, String)> = vec![];

fn run() -> &'static Run {
    unsafe { &*RUN }
}

fn want(prop: &str) -> Want {
    let mut w = Want::default();
    match prop {
        "C01" => {
            w.content = true;
            w.err_seen = true;
            w.must_ok = true;
        }
        "C02" => {
            w.content = true;
            w.must_ok = true;
            w.parts = true;
        }
        "C03" => w.says = true,
        "C05" => {
            w.content = true;
            w.must_ok = true;
        }
        "C06" => {
            w.content = true;
            w.must_ok = true;
            w.clean = true;
        }
        "C07" => {
            w.content = true;
            w.must_ok = true;
            w.bound = true;
        }
        "C26" => {
            w.says = true;
            w.torn = true;
        }
        "C27" => w.peak = true,
        _ => {
            w.content = true;
            w.must_ok = true;
        }
    }
    w
}

#[derive(Default)]
struct Want {
    content: bool,
    must_ok: bool,
    err_seen: bool,
    says: bool,
    parts: bool,
    clean: bool,
    bound: bool,
    peak: bool,
    /// Files are rewritten in place: what counts is the bytes a load was given.
    torn: bool,
    /// Read into a general JSON value first, which settles repeated fields before the library sees them.
    lenient: bool,
}

fn find_file(path: &str) -> Option<&'static FileM> {
    let p = normalise(path);
    let p = match run().plan.alias.iter().find(|a| a.0 == p) {
        Some(a) => a.1.clone(),
        None => p,
    };
    run().files.iter().find(|f| f.path == p)
}

/// Loads an index under the current faults and judges everything about it.
fn do_load(path: &str, keep: bool, via: u8) {
    let prop = run().plan.prop.clone();
    let mut w = want(&prop);
    let me = task_id();
    let (_, op) = op_key();
    let quiet = faults_quiet();
    let seq_a = enter(|| {
        count(P_LOADS);
        vfs().io.insert(me, OpIo::default());
        vfs().tick()
    });
    let muts = vfs().mutations.len();
    let steps0 = step_count();
    HEAP_TOTAL.with(|h| h.set(0));
    HEAP_NET.with(|h| h.set(0));
    HEAP_PEAK.with(|h| h.set(0));
    cur().loading = true;
    HEAP_ON.with(|h| h.set(true));
    let os = enter(|| name(path));
    let r = catch_unwind(AssertUnwindSafe(|| if via == 0 { lib::load(&os) } else { lib::load_via(&os, via) }));
    HEAP_ON.with(|h| h.set(false));
    cur().loading = false;
    let my_steps = step_count() - steps0;
    let total = HEAP_TOTAL.with(|h| h.get());
    let peak = HEAP_PEAK.with(|h| h.get());
    enter(|| {
        let seq_b = vfs().tick();
        let io = vfs().io[&me].clone();
        let f = find_file(path);
        if via > 0 {
            count(P_STREAMED);
            if prop != "C27" && (io.flips > 0 || f.map_or(true, |f| f.dmg[0])) {
                w = Want { says: true, lenient: via >= lib::VIA_VALUE, ..Want::default() };
            }
        }
        let ctx = || {
            format!(
                "loading {:?}{} (opens {}, reads {}, interruptions {}, hard errors {} [{}], premature ends {}, flips {})",
                path, if via > 0 { format!(" as a stream ({})", lib::VIA_NAMES[via as usize]) } else { String::new() }, io.opens, io.reads, io.eintr, io.hard, io.first_error, io.cuts, io.flips
            )
        };
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                count(CALL_PANIC as usize);
                fail("load-panics", &format!("{} panicked: {}", ctx(), panic_text(&*e)))
            }
        };
        match &r {
            Ok(_) => count(P_LOAD_OK),
            Err(_) => count(P_LOAD_ERR),
        }
        note(|| format!("load {} -> {}", path, r.as_ref().map(|_| "ok".to_string()).unwrap_or_else(|e| format!("error {}", e))));
        log(&[20, r.is_ok() as u64]);

        // which generations were current at some moment of the call
        let mut current: Vec<usize> = vec![];
        if let Some(f) = f {
            let ent = &vfs().files[&f.path];
            for (i, g) in ent.gens.iter().enumerate() {
                if g.from <= seq_b && g.to >= seq_a {
                    current.push(i);
                }
            }
            if current.len() > 1 {
                count(P_OVERLAP);
            }
        }

        if let Ok(x) = &r {
            if w.says {
                // what the served bytes say
                let flips = io.flips > 0 || io.cuts > 0 || w.torn;
                let bytes: Vec<Vec<u8>> = if flips {
                    io.served.iter().map(|s| s.2.clone()).collect()
                } else {
                    match f {
                        Some(f) => current.iter().map(|&g| vfs().files[&f.path].gens[g].bytes.to_vec()).collect(),
                        None => vec![],
                    }
                };
                let mut why = "nothing was read".to_string();
                let mut fine = w.lenient;
                for b in &bytes {
                    match json::says(b) {
                        Says::Index(ix) => match json::differs(&ix, x) {
                            None => {
                                fine = true;
                                let damaged = flips || f.map_or(false, |f| current.iter().any(|&g| f.dmg[g]));
                                if damaged {
                                    count(P_DMG_ACCEPTED);
                                }
                            }
                            Some(d) => why = format!("the reported index is not what the bytes say: {}", d),
                        },
                        Says::Invalid(m) => why = format!("the bytes are not a complete index ({}) but were accepted", m),
                        Says::Unclear(_) => fine = true,
                    }
                    if fine {
                        break;
                    }
                }
                if !fine {
                    fail("damage-accepted", &format!("{}: {}", ctx(), why));
                }
                if let Some(m) = with_lib(|| json::version_parts(x)) {
                    fail("damage-accepted", &format!("{}: {}", ctx(), m));
                }
            }
            if w.content {
                match f {
                    None => fail("invented-index", &format!("{}: reported success, but there is no such file", ctx())),
                    Some(f) => {
                        let mut why = "every generation current during the call was damaged".to_string();
                        let mut hit = None;
                        for &g in &current {
                            match &f.models[g] {
                                Ok(m) => match json::differs(m, x) {
                                    None => {
                                        hit = Some(g);
                                        break;
                                    }
                                    Some(d) => why = d,
                                },
                                Err(()) => {
                                    // a damaged generation may be reported, if as stored
                                    match json::says(vfs().files[&f.path].gens[g].bytes) {
                                        Says::Index(ix) => match json::differs(&ix, x) {
                                            None => {
                                                hit = Some(g);
                                                break;
                                            }
                                            Some(d) => why = d,
                                        },
                                        Says::Invalid(_) => {}
                                        Says::Unclear(_) => {
                                            hit = Some(g);
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                        match hit {
                            Some(g) => {
                                if Some(&g) != current.last() && current.len() > 1 {
                                    count(P_OLD_GEN);
                                }
                            }
                            None => {
                                let mut also = String::new();
                                for f2 in &run().files {
                                    for (g, m) in f2.models.iter().enumerate() {
                                        if let Ok(m) = m {
                                            if json::differs(m, x).is_none() {
                                                also = format!("; it equals generation {} of {}", g, f2.path);
                                            }
                                        }
                                    }
                                }
                                fail("wrong-content", &format!("{}: success, but the result is not the content of the file at any moment of the call (current generations {:?}): {}{}", ctx(), current, why, also))
                            }
                        }
                    }
                }
                if w.parts {
                    if let Some(m) = with_lib(|| json::version_parts(x)) {
                        fail("wrong-content", &format!("{}: {}", ctx(), m));
                    }
                }
            }
            if w.err_seen && io.last_hard > io.last_good_eof {
                fail("error-swallowed", &format!("{}: storage reported an error and the file was never read to its end afterwards, yet the load reports success", ctx()));
            }
        } else if w.must_ok {
            let sound = match f {
                Some(f) => current.iter().all(|&g| f.models[g].is_ok()) && !path.ends_with('/') && !path.contains('\0'),
                None => false,
            };
            if sound && io.hard == 0 && io.cuts == 0 && io.flips == 0 && path.len() < 4000 {
                fail("refused-valid", &format!("{}: no storage fault and a valid file, yet the load failed: {}", ctx(), r.as_ref().err().unwrap()));
            }
        } else if w.torn {
            // every content the load read was a whole one: then it has no reason to fail
            let whole = |b: &Vec<u8>| f.map_or(false, |f| {
                let gens = &vfs().files[&f.path].gens;
                // (the last one is the content as it is now, part of a rewrite perhaps)
                gens.iter().zip(&f.models).take(gens.len() - 1).any(|(g, m)| m.is_ok() && g.bytes == &b[..])
            });
            if io.hard == 0 && io.after_eof == 0 && !io.served.is_empty() && io.served.iter().all(|s| whole(&s.2) && s.3) {
                fail("refused-valid", &format!("{}: what was read was a whole index, yet the load failed: {}", ctx(), r.as_ref().err().unwrap()));
            }
            count(P_DMG_REJECTED);
        } else if w.says {
            if io.hard == 0 {
                count(P_DMG_REJECTED);
            }
        }
        if w.clean {
            let open: Vec<i32> = vfs().fds.iter().filter(|(_, h)| h.owner == me).map(|(f, _)| *f).collect();
            if !open.is_empty() {
                fail("file-left-open", &format!("{}: {} descriptor(s) still open after the load returned", ctx(), open.len()));
            }
            if vfs().mutations.len() > muts {
                fail("storage-changed", &format!("{}: the load tried to change storage: {}", ctx(), vfs().mutations[muts]));
            }
            if quiet {
                count(P_RECOVERY);
            }
        }
        if w.bound {
            let size = f.map_or(0, |f| vfs().files[&f.path].gens.iter().map(|g| g.bytes.len()).max().unwrap_or(0)) as u64;
            let served: u64 = io.served.iter().map(|s| s.2.len() as u64).sum();
            let seen = size.min(served.max(1));
            let calls = io.calls;
            let lim = 64 + 2 * seen + 3 * (io.eintr + io.sliced);
            if calls > lim {
                fail("unbounded-calls", &format!("{}: {} storage calls for {} bytes (limit {})", ctx(), calls, seen, lim));
            }
            if served > 4 * size + 65536 {
                fail("unbounded-reading", &format!("{}: read {} bytes of a {}-byte file", ctx(), served, size));
            }
            let lim = STEP_A + STEP_B * size + STEP_C * (io.eintr + io.sliced);
            if run().plan.tasks.len() == 1 && my_steps > lim {
                fail("unbounded-work", &format!("{}: {} steps for {} bytes (limit {})", ctx(), my_steps, size, lim));
            }
            let lim = HEAP_A + HEAP_B * size as i64 + 4096 * (io.eintr + io.sliced) as i64;
            if total > lim {
                fail("unbounded-memory", &format!("{}: {} bytes allocated for a {}-byte file (limit {})", ctx(), total, size, lim));
            }
            stat_max(0, my_steps / (size + 1000));
            stat_max(1, total as u64 / (size + 1000));
        }
        if w.peak {
            let size = f.map_or(0, |f| vfs().files[&f.path].gens.iter().map(|g| g.bytes.len()).max().unwrap_or(0)) as i64;
            // (storage may claim up to twice the size and some more, and be believed)
            stat_max(4, peak as u64 / (size as u64 + 2000));
            let lim = PEAK_A + PEAK_B * size;
            if peak > lim {
                fail("memory-beyond-data", &format!("{}: {} bytes of memory held at once for a {}-byte file (limit {})", ctx(), peak, size, lim));
            }
        }
        if let Ok(x) = r {
            if keep {
                let d = digest(&x);
                unsafe { KEPT.push((me, x, d)) };
            } else {
                with_lib(|| lib::drop_index(x));
            }
        }
    });
    let _ = op;
}

pub const STEP_A: u64 = 200_000;
pub const STEP_B: u64 = 150;
pub const STEP_C: u64 = 3_000;
pub const HEAP_A: i64 = 4 << 20;
pub const HEAP_B: i64 = 400;
pub const PEAK_A: i64 = 1 << 20;
pub const PEAK_TA: i64 = 5 << 20;
pub const PEAK_B: i64 = 250;
pub const PEAK_T: i64 = 800;

fn stat_max(i: usize, v: u64) {
    unsafe {
        let m = &mut (*(*SIM).shm).cnt[140 + i];
        if v > *m {
            *m = v
        }
    }
}

/// Runs library code from inside harness code without scheduling points.
fn with_lib<R>(f: impl FnOnce() -> R) -> R {
    f()
}

fn do_custom(text: &str, cu: &Custom) {
    let cx = Ctx { plan: Some(&run().plan), own: None };
    let me = task_id();
    let th = std::thread::current().id();
    let calls = RefCell::new(Vec::<(String, bool)>::new());
    let inner = RefCell::new(vec![]);
    let produced = RefCell::new(None::<Result<String, lib::VersionParsingError>>);
    enter(|| count(P_CUSTOM));
    let r = catch_unwind(AssertUnwindSafe(|| {
        lib::parse_with(text, &|s| {
            let here = TASK.with(|t| t.get()) == me as i32 && std::thread::current().id() == th;
            calls.borrow_mut().push((s.to_string(), here));
            let out = behave(&cx, cu, s, &inner);
            *produced.borrow_mut() = Some(match &out {
                Ok(p) => Ok(p.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(";")),
                Err(e) => Err(e.clone()),
            });
            out
        })
    }));
    enter(|| {
        let calls = calls.into_inner();
        let d = format!("parsing {:?} with a caller-supplied parser {:?}", trim(text), trim(&format!("{:?}", cu)));
        if calls.len() != 1 {
            fail("parser-calls", &format!("{}: the parser was called {} times", d, calls.len()));
        }
        if calls[0].0 != text {
            fail("parser-text", &format!("{}: the parser was given {:?}", d, trim(&calls[0].0)));
        }
        if !calls[0].1 {
            fail("parser-thread", &format!("{}: the parser ran in another thread", d));
        }
        if let Some(x) = inner.borrow().iter().find(|x| x.starts_with(NESTED)) {
            fail("parser-nested", &format!("{}: {}", d, trim(x)));
        }
        let want = outcome_of(cu);
        match (r, want) {
            (Err(e), OutP::Panic(m)) => {
                let t = panic_text(&*e);
                if t != m {
                    fail("parser-panic", &format!("{}: the panic became {:?}", d, t));
                }
            }
            (Err(e), _) => fail("parse-panics", &format!("{}: panicked: {}", d, panic_text(&*e))),
            (Ok(_), OutP::Panic(_)) => fail("parser-panic", &format!("{}: the parser's panic did not reach the caller", d)),
            (Ok(Ok(v)), w) => {
                if v.as_str() != text || v.to_string() != text {
                    fail("parser-outcome", &format!("{}: the version's text is {:?}", d, trim(v.as_str())));
                }
                let got = v.parts().iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(";");
                let expect = match w {
                    OutP::Parts(p) => p.iter().map(part_text).collect::<Vec<_>>().join(";"),
                    _ => match produced.into_inner() {
                        Some(Ok(p)) => p,
                        _ => fail("parser-outcome", &format!("{}: success, but the parser had failed", d)),
                    },
                };
                if got != expect || v.part_count() != v.parts().len() {
                    fail("parser-outcome", &format!("{}: parts are {}, the parser gave {}", d, trim(&got), trim(&expect)));
                }
            }
            (Ok(Err(e)), w) => {
                let expect = match w {
                    OutP::Err(e) => e,
                    _ => match produced.into_inner() {
                        Some(Err(e)) => e,
                        _ => fail("parser-outcome", &format!("{}: failed with {:?}, but the parser had succeeded", d, e)),
                    },
                };
                if e != expect {
                    fail("parser-outcome", &format!("{}: error is {:?}, the parser gave {:?}", d, e, expect));
                }
            }
        }
    });
}

fn trim(s: &str) -> String {
    if s.chars().count() > 200 {
        format!("{}…", s.chars().take(200).collect::<String>())
    } else {
        s.to_string()
    }
}

enum OutP {
    Parts(Vec<PartP>),
    Err(lib::VersionParsingError),
    Panic(String),
    Conda,
}

fn outcome_of(c: &Custom) -> OutP {
    match c {
        Custom::Parts(p) => OutP::Parts(p.clone()),
        Custom::Fail(e) => OutP::Err(make_err(e)),
        Custom::Panic(m) => OutP::Panic(m.clone()),
        Custom::Conda => OutP::Conda,
        Custom::Stall(_, c) => outcome_of(c),
        Custom::Reenter(_, c) => outcome_of(c),
        Custom::Nest(_, c) => outcome_of(c),
    }
}

pub const FILLS: u8 = 14;

fn fill(seed: u64, n: u32, kind: u8) {
    let mut r = Rng(hash(&[seed, 999]));
    let cx = Ctx { plan: None, own: None };
    for i in 0..n {
        let c = enter(|| fill_call(&mut r, i, kind));
        answer(&cx, &c);
    }
}

fn fill_call(r: &mut Rng, i: u32, kind: u8) -> Call {
    let v = format!("{}.{}.{}{}", r.below(50), i, r.below(9), r.pick(&["", "a", "rc1", ".post2", ".0"]));
    let o = |t: String| Obj { t, s: -1, c: false };
    match kind {
        0 => Call::Parse(v),
        1 => Call::Cmp(o(v.clone()), o(format!("{}.1", v))),
        2 => Call::Spec(format!("{}{}", r.pick(&["==", ">=", "<", "!="]), v)),
        3 => Call::Tree(format!("{}|>{},<{}.9", v, v, v)),
        4 => Call::AnySpec(format!("{}.*", v)),
        // refused, or ended by a panic, each time
        6 => Call::Tree(format!("{}{}", v, r.pick(&["(", ",", "|)", "))", ",|", "((,"]))),
        7 => Call::Spec(format!("{}{}", r.pick(&["~=", "<>", "=*", "^", ">=~"]), v)),
        8 => Call::Parse(format!("{}{}", v, r.pick(&["!!", "+1+2", "!1!2"]))),
        9 => Call::With(v, if i % 2 == 0 { Custom::Panic("caller".into()) } else { Custom::Fail(ErrP::Unknown) }),
        10 => Call::Test(o(v.clone()), o(v), 8 + r.below(2) as u8),
        11 => Call::TreeMatchStr(o(format!(">={}", v)), "1+2+3".into()),
        12 => Call::AnySpec(format!("{}{}", r.pick(&["(", "^(", "~", "!=="]), v)),
        _ => Call::ParseFrom(if i % 3 == 0 { format!("{}!!{}", i, v) } else { v }),
    }
}

/// How every third load of a heap probe fails.
pub const LEAK_WAYS: u8 = 6;

fn leak_probe(path: &str, n: u32, way: u8) {
    let mut net: Vec<i64> = vec![];
    let mut end = n;
    let mut stage = 0;
    let mut i = 0;
    loop {
        if i == end {
            // at each suspicion look longer: a bounded store fills up
            let tail = &net[net.len() / 2..];
            let kept = tail.iter().sum::<i64>() > 0 && tail.iter().filter(|x| **x > 0).count() >= 5;
            if kept && stage < 2 && (stage == 0 || keeps_growing(&net, true)) {
                stage += 1;
                end = if stage == 1 { (n * 4).max(1200) } else { end * 4 };
                continue;
            }
            break;
        }
        let mut p = path.to_string();
        enter(|| {
            count(P_LEAK_LOADS);
            // another content each time, of the same shape
            let f = find_file(path).unwrap();
            let k = vfs().files[&f.path].gens.len();
            let (sound, bad): (Vec<usize>, Vec<usize>) = (0..k).partition(|g| f.models[*g].is_ok());
            let mut g = sound[i as usize % sound.len()];
            vfs().persist = None;
            if i % 3 == 2 {
                let w = if way == 5 { (i / 3 % 5) as u8 } else { way };
                let es = &OPEN_ERRNOS;
                let rs = &READ_ERRNOS;
                let len = vfs().files[&f.path].gens[g].bytes.len() as u64;
                let j = (i / 3) as usize;
                match w {
                    1 => p = format!("{}-{}", path, i),
                    2 => vfs().persist = Some(Persist { stage: 0, errno: es[j % es.len()], off: 0 }),
                    3 => vfs().persist = Some(Persist { stage: 2, errno: rs[j % rs.len()], off: hash(&[vfs().seed, 5, i as u64]) % len }),
                    4 if !bad.is_empty() => g = bad[j % bad.len()],
                    _ => p = "/simdisk/missing.json".into(),
                }
            }
            vfs().install(&f.path, g);
            if let Some(h) = vfs().files.get_mut(&f.path) {
                h.gens[g].mtime += 1 + i as i64;
                h.gens[g].ino += 1;
            }
            let me = task_id();
            vfs().io.insert(me, OpIo::default());
            unsafe { (*SIM).quiet_faults = vfs().persist.is_none() };
            restart_op_steps();
        });
        let os = enter(|| name(&p));
        HEAP_NET.with(|h| h.set(0));
        HEAP_ON.with(|h| h.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let r = lib::load(&os);
            if let Ok(x) = r {
                lib::drop_index(x)
            }
        }));
        HEAP_ON.with(|h| h.set(false));
        if let Err(e) = r {
            enter(|| fail("load-panics", &format!("loading {:?} panicked: {}", p, panic_text(&*e))));
        }
        net.push(HEAP_NET.with(|h| h.get()));
        i += 1;
    }
    enter(|| {
        vfs().persist = None;
        unsafe { (*SIM).quiet_faults = true };
        let tail = &net[net.len() / 2..];
        let sum: i64 = tail.iter().sum();
        let ups = tail.iter().filter(|x| **x > 0).count();
        if stage == 2 && keeps_growing(&net, true) {
            fail("memory-retained", &format!("{} loads of {:?} (failures: {}) keep retaining memory: {} of the last {} loads left more behind, {} bytes in all (per load: {:?})", end, path, ["a missing file", "missing files", "failing opens", "failing reads", "damaged content", "of every kind"][way as usize % 6], ups, tail.len(), sum, &tail[tail.len() - 6..]));
        }
    });
}

fn recheck() {
    enter(|| {
        let me = task_id();
        let mine: Vec<usize> = unsafe { (0..KEPT.len()).filter(|&i| KEPT[i].0 == me).collect() };
        for i in mine {
            let now = unsafe { digest(&KEPT[i].1) };
            if now != unsafe { KEPT[i].2.clone() } {
                fail("result-changed", "an index returned earlier has changed since");
            }
        }
    })
}

// ---------------------------------------------------------------- C11: ranking through a faulty network

fn key(t: &str) -> (u64, Vec<u64>) {
    let (e, rest) = match t.split_once('!') {
        Some((e, r)) => (e.parse().unwrap(), r),
        None => (0, t),
    };
    let mut v: Vec<u64> = rest.split(['.', '-', '_']).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    while v.last() == Some(&0) {
        v.pop();
    }
    (e, v)
}

fn worker(node: usize) {
    begin_op(1_000_000 + node as u32);
    loop {
        let m = match net::recv(node, now() + 3_600_000_000_000) {
            Some(m) => m,
            None => continue,
        };
        match m {
            Msg::Stop => return,
            Msg::Done { .. } => {}
            Msg::Job { part, items, expr, way, .. } => {
                let p = unsafe { (*SIM).net.p.clone() };
                let crash = enter(|| {
                    let io = next_io();
                    fault_at(io, |r| {
                        if now() < p.heal_at && p.crash > 0 && r.below(1000) < p.crash as u64 {
                            Some((WORKER_CRASH, r.below(2 * items.len() as u64 + 2) as i64))
                        } else {
                            None
                        }
                    })
                });
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if let Some((_, 0)) = crash {
                        panic!("sim: worker crash");
                    }
                    if let Some(e) = &expr {
                        return select(e, &items, way, crash.map(|c| c.1 as usize));
                    }
                    let mut v: Vec<(lib::Version, usize)> = vec![];
                    for (i, t) in &items {
                        v.push((lib::parse(t).unwrap(), *i as usize));
                    }
                    lib::rank(&mut v, crash.map(|c| c.1 as u64));
                    v.into_iter().map(|x| x.1 as u32).collect::<Vec<u32>>()
                }));
                match r {
                    Ok(order) => net::send(0, Msg::Done { part, order }),
                    Err(e) => {
                        if panic_text(&*e) != "sim: worker crash" {
                            let (class, what) = if expr.is_some() { ("select-panics", "selecting from") } else { ("rank-panics", "ranking") };
                            enter(|| fail(class, &format!("{} {:?} panicked: {}", what, trim(&format!("{:?} {:?}", expr, items)), panic_text(&*e))));
                        }
                        // the worker restarts with nothing
                        sleep(1_000_000);
                    }
                }
            }
        }
    }
}

/// The worker's part of a selection: which items the constraint matches.
fn select(expr: &str, items: &[(u32, String)], way: u8, crash: Option<usize>) -> Vec<u32> {
    enum Way {
        Tree(lib::ConstraintTree),
        Spec(lib::VersionSpec),
        Any(lib::VersionSpecOrConstraintTree),
    }
    let single = !expr.contains(['(', ')', ',', '|', ' ']);
    let mk = |t: &str| -> Result<Way, String> {
        Ok(match way % 3 {
            1 if single => Way::Spec(lib::spec(t)?),
            2 if single => Way::Any(lib::any_spec(t)?),
            _ => Way::Tree(lib::tree(t)?),
        })
    };
    let k = mk(expr).unwrap_or_else(|e| panic!("{:?} was refused: {}", expr, e));
    let mut out = vec![];
    for (n, (i, t)) in items.iter().enumerate() {
        if crash == Some(n + 1) {
            panic!("sim: worker crash");
        }
        let hit = if way & 1 == 0 {
            match &k {
                Way::Tree(x) => lib::tree_match_str(x, t),
                Way::Spec(x) => lib::spec_match(x, &lib::parse(t).unwrap()),
                Way::Any(x) => lib::any_match(x, t),
            }
        } else {
            let v = lib::parse(t).unwrap();
            match &k {
                Way::Tree(x) => lib::tree_match(x, &v),
                Way::Spec(x) => lib::spec_match(x, &v),
                Way::Any(x) => lib::any_match_version(x, &v),
            }
        };
        if hit {
            out.push(*i);
        }
    }
    out
}

/// Loads an index and gives the versions of its records in the order of the library's maps.
fn versions_of(path: &str) -> Vec<lib::Version> {
    let os = enter(|| name(path));
    let ix = match lib::load(&os) {
        Ok(x) => x,
        Err(e) => enter(|| fail("refused-valid", &format!("loading {:?} failed: {}", path, e))),
    };
    let lib::Repodata { packages, packages_conda, .. } = ix;
    let out: Vec<lib::Version> = packages.into_iter().chain(packages_conda.into_iter()).map(|x| x.1.version).collect();
    enter(|| {
        let f = find_file(path).unwrap();
        let m = f.models[0].as_ref().unwrap();
        let mut want: Vec<&str> = m.packages.iter().chain(m.packages_conda.iter()).map(|x| x.1[0].version.as_str()).collect();
        let mut got: Vec<&str> = out.iter().map(|v| v.as_str()).collect();
        want.sort();
        got.sort();
        if want != got {
            fail("wrong-content", "the loaded index does not hold the stored versions");
        }
    });
    out
}

/// Hands parts of the work to workers over the network until every part is done; returns the results
/// and the order in which they arrived.
fn distribute(
    texts: &[String],
    workers: u32,
    parts: u32,
    job: &dyn Fn(u32, u32, Vec<(u32, String)>) -> Msg,
    again: &dyn Fn(u32, &[u32], &[u32]),
) -> (BTreeMap<u32, Vec<u32>>, Vec<u32>) {
    let mut hs = vec![];
    let first = enter(|| unsafe {
        // workers of an earlier operation are gone; these are other nodes
        let n = &mut (*SIM).net;
        n.next_node += workers as usize;
        1 + n.next_node - workers as usize
    });
    for w in 0..workers {
        let node = first + w as usize;
        hs.push(std::thread::spawn(move || worker(node)));
    }
    let mut done: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    let mut arrival: Vec<u32> = vec![];
    let jobs: Vec<Vec<(u32, String)>> = (0..parts)
        .map(|p| (0..texts.len() as u32).filter(|i| i % parts == p).map(|i| (i, texts[i as usize].clone())).collect())
        .collect();
    let mut attempt = 0;
    while (done.len() as u32) < parts {
        attempt += 1;
        if attempt > 400 {
            enter(|| harness_error("distributed work does not finish"));
        }
        for p in 0..parts {
            if !done.contains_key(&p) {
                let w = (p + attempt) % workers;
                net::send(first + w as usize, job(p, attempt, jobs[p as usize].clone()));
            }
        }
        let deadline = now() + 500_000_000;
        while let Some(m) = net::recv(0, deadline) {
            if let Msg::Done { part, order } = m {
                if let Some(old) = done.get(&part) {
                    // a part done twice (duplicate, or recomputed after a crash) must come out the same
                    again(part, old, &order);
                } else {
                    done.insert(part, order);
                    arrival.push(part);
                }
                if done.len() as u32 == parts {
                    break;
                }
            }
        }
    }
    for w in 0..workers {
        enter(|| unsafe { (*SIM).net.p.heal_at = 0 });
        net::send(first + w as usize, Msg::Stop);
    }
    for h in hs {
        let _ = h.join();
    }
    enter(|| unsafe {
        // what is still under way is lost with the connection
        let n = &mut (*SIM).net;
        n.queues.remove(&0);
        n.p.heal_at = run().plan.net.heal_at;
    });
    (done, arrival)
}

fn do_rank(path: &str, workers: u32, parts: u32) {
    let vs = versions_of(path);
    let texts: Vec<String> = vs.iter().map(|v| v.as_str().to_string()).collect();
    let items: Vec<(lib::Version, usize)> = vs.into_iter().enumerate().map(|(i, v)| (v, i)).collect();
    let parts = parts.max(1);
    let (done, arrival) = distribute(
        &texts,
        workers,
        parts,
        &|part, attempt, items| Msg::Job { part, attempt, items, expr: None, way: 0 },
        &|part, old, new| {
            let (a, b): (Vec<_>, Vec<_>) = (old.iter().map(|i| key(&texts[*i as usize])).collect(), new.iter().map(|i| key(&texts[*i as usize])).collect());
            if a != b {
                enter(|| fail("rank-differs", &format!("part {} was ranked differently the second time", part)));
            }
        },
    );
    // merge in order of arrival
    let newest = lib::newest(&items);
    let mut slots: Vec<Option<(lib::Version, usize)>> = items.into_iter().map(Some).collect();
    let mut all: Vec<(lib::Version, usize)> = vec![];
    for p in &arrival {
        let part: Vec<(lib::Version, usize)> = done[p].iter().map(|i| slots[*i as usize].take().unwrap()).collect();
        all = match catch_unwind(AssertUnwindSafe(|| lib::merge(all, part))) {
            Ok(a) => a,
            Err(e) => enter(|| fail("rank-panics", &format!("merging panicked: {}", panic_text(&*e)))),
        };
    }
    enter(|| {
        count(P_RANKED);
        if all.len() != texts.len() {
            fail("rank-wrong", &format!("{} of {} records were ranked", all.len(), texts.len()));
        }
        for w in all.windows(2) {
            let (a, b) = (&texts[w[0].1], &texts[w[1].1]);
            if key(a) < key(b) {
                fail("rank-wrong", &format!("the ranking puts {:?} before {:?}, which is newer", a, b));
            }
        }
        if let Some(n) = newest {
            let best = texts.iter().map(|t| key(t)).max().unwrap();
            if key(&texts[n]) != best {
                fail("rank-wrong", &format!("{:?} was found newest, but {:?} is newer", texts[n], all.first().map(|x| &texts[x.1])));
            }
        }
        // which of the equal ones comes first may differ, but equal they must be
        for (i, a) in all.iter().enumerate().take(40) {
            for b in all.iter().skip(i).take(12) {
                let want = key(&texts[a.1]).cmp(&key(&texts[b.1]));
                if lib::partial(&a.0, &b.0) != Some(want) || lib::partial(&b.0, &a.0) != Some(want.reverse()) {
                    fail("rank-wrong", &format!("{:?} against {:?} compares as {:?}/{:?}, numerically {:?}", texts[a.1], texts[b.1], lib::partial(&a.0, &b.0), lib::partial(&b.0, &a.0), want));
                }
            }
        }
        log(&[30, hash(&all.iter().map(|x| hash(&key(&texts[x.1]).1)).collect::<Vec<_>>())]);
    });
}


// ---------------------------------------------------------------- C22: selecting by a constraint

struct NumV {
    epoch: u64,
    comps: Vec<u64>,
}

fn numv(t: &str) -> NumV {
    let (epoch, rest) = match t.split_once('!') {
        Some((e, r)) => (e.parse().unwrap(), r),
        None => (0, t),
    };
    NumV { epoch, comps: rest.split(['.', '-', '_']).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
}

/// Does version `t` meet one constraint? None where dotted numbers leave it open (a prefix whose
/// missing components would have to be zeros).
fn meets(term: &str, t: &str) -> Option<bool> {
    if term == "*" {
        return Some(true);
    }
    let n = term.find(|c: char| c.is_ascii_digit()).unwrap();
    let (sign, v) = term.split_at(n);
    if let Some(s) = v.strip_suffix(".*").or(if sign == "=" { Some(v) } else { None }) {
        let (s, v) = (numv(s), numv(t));
        let k = s.comps.len().min(v.comps.len());
        let hit = if s.epoch != v.epoch || s.comps[..k] != v.comps[..k] {
            Some(false)
        } else if v.comps.len() >= s.comps.len() {
            Some(true)
        } else if s.comps[k..].iter().all(|c| *c == 0) {
            None
        } else {
            Some(false)
        };
        return if sign == "!=" { hit.map(|h| !h) } else { hit };
    }
    let o = key(t).cmp(&key(v));
    Some(match sign {
        "" | "==" => o.is_eq(),
        "!=" => o.is_ne(),
        "<" => o.is_lt(),
        "<=" => o.is_le(),
        ">" => o.is_gt(),
        ">=" => o.is_ge(),
        _ => enter(|| harness_error(&format!("no meaning for {:?}", term))),
    })
}

/// The reference meaning of an expression: ',' is "and" and binds tighter than '|', "or".
fn evaluate(b: &[u8], i: &mut usize, t: &str) -> Option<bool> {
    let mut any = Some(false);
    loop {
        let mut all = Some(true);
        loop {
            while *i < b.len() && b[*i] == b' ' {
                *i += 1;
            }
            let x = if *i < b.len() && b[*i] == b'(' {
                *i += 1;
                let x = evaluate(b, i, t);
                *i += 1; // ')'
                x
            } else {
                let s = *i;
                while *i < b.len() && !b"(),|".contains(&b[*i]) {
                    *i += 1;
                }
                meets(std::str::from_utf8(&b[s..*i]).unwrap().trim(), t)
            };
            all = match (all, x) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            };
            while *i < b.len() && b[*i] == b' ' {
                *i += 1;
            }
            if *i < b.len() && b[*i] == b',' {
                *i += 1;
                continue;
            }
            break;
        }
        any = match (any, all) {
            (Some(true), _) | (_, Some(true)) => Some(true),
            (Some(false), Some(false)) => Some(false),
            _ => None,
        };
        if *i < b.len() && b[*i] == b'|' {
            *i += 1;
            continue;
        }
        return any;
    }
}

fn do_select(path: &str, expr: &str, workers: u32, parts: u32, way: u8) {
    let texts: Vec<String> = versions_of(path).iter().map(|v| v.as_str().to_string()).collect();
    let parts = parts.max(1);
    // the constraint as given, or as the coordinator writes it after reading it
    let sent = if way & 4 != 0 {
        match lib::tree(expr).and_then(|t| lib::tree_render(&t)) {
            Ok(t) => t,
            Err(e) => enter(|| fail("select-refused", &format!("{:?} could not be read and written again: {}", expr, e))),
        }
    } else {
        expr.to_string()
    };
    let (done, _) = distribute(
        &texts,
        workers,
        parts,
        &|part, attempt, items| Msg::Job { part, attempt, items, expr: Some(sent.clone()), way },
        &|part, old, new| {
            if old != new {
                enter(|| fail("select-differs", &format!("{:?}: part {} selected {:?}, and {:?} the second time", expr, part, old, new)));
            }
        },
    );
    enter(|| {
        count(P_SELECTED);
        let mut hits: Vec<bool> = vec![false; texts.len()];
        for i in done.values().flatten() {
            hits[*i as usize] = true;
        }
        for (t, hit) in texts.iter().zip(&hits) {
            if let Some(w) = evaluate(expr.as_bytes(), &mut 0, t) {
                if w != *hit {
                    let how = if sent != expr { format!(" (sent to the workers as {:?})", sent) } else { String::new() };
                    fail("select-wrong", &format!("{:?}{} {} version {:?}, which it {}", expr, how, if *hit { "selected" } else { "left out" }, t, if w { "admits" } else { "rules out" }));
                }
            }
        }
        log(&[31, hash(&hits.iter().map(|h| *h as u64).collect::<Vec<_>>())]);
    });
}

// ---------------------------------------------------------------- C23: what calls leave behind

pub const KINDS_KEPT: u8 = FILLS + 4;

/// Kinds that compile something at every call.
pub fn slow_fill(kind: u8) -> bool {
    !matches!(kind, 0 | 1 | 8 | 9 | 10 | 13) && kind < FILLS || kind >= FILLS + 2
}

/// Calls of a kind, or the calls given with ever new texts, as long as it takes to see whether what they
/// leave on the heap keeps growing.
/// Does what is kept grow with every call? What grows for ever has at the end always more than it ever
/// had in the first half, and grew twice as much in the last half as in the quarter before. A store of
/// bounded size fills up first, or is emptied at times; a scratch space grows a few times, ever more rarely.
fn keeps_growing(net: &[i64], often: bool) -> bool {
    let len = net.len();
    let sum = |a: usize, b: usize| net[a..b].iter().sum::<i64>();
    let ups = |a: usize, b: usize| net[a..b].iter().filter(|x| **x > 0).count();
    let (before, last) = (sum(len / 4, len / 2), sum(len / 2, len));
    let mut total = 0;
    let mut most = i64::MIN;
    let mut least = i64::MAX;
    for (i, x) in net.iter().enumerate() {
        total += x;
        if i >= len / 8 && i < len / 2 {
            most = most.max(total);
        }
        if i >= len - len / 8 {
            least = least.min(total);
        }
    }
    last >= len as i64 / 2
        && least > most
        && before * 8 >= last
        && last * 2 >= before
        && (!often || ups(len / 4, len / 2) >= 5 && ups(len / 2, len) >= 5)
}

const STEPS_KEPT: u64 = 900_000_000;

fn retain(seed: u64, n: u32, kind: u8, calls: &[Call]) {
    let steps0 = step_count();
    let mut r = Rng(hash(&[seed, 998]));
    let cx = Ctx { plan: None, own: None };
    let mut net: Vec<i64> = vec![];
    let mut end = n;
    let mut stage = 0;
    let mut i = 0;
    loop {
        if i == end {
            let len = net.len();
            let sum = |a: usize, b: usize| net[a..b].iter().sum::<i64>();
            let (before, last) = (sum(len / 4, len / 2), sum(len / 2, len));
            // at each suspicion look longer: a bounded store fills up
            let go_on = match stage {
                0 => last >= len as i64 / 8,
                _ => keeps_growing(&net, false),
            };
            let more = if stage == 0 { (n * 6).max(16_000) } else { end * 3 };
            let cost = (step_count() - steps0) / end as u64 * more as u64;
            if go_on && stage < 3 && cost < STEPS_KEPT {
                stage += 1;
                end = more;
                continue;
            }
            // (what is too slow to be called that often stays undecided)
            let grows = stage >= 2 && go_on;
            enter(|| {
                count_by(P_LEAK_CALLS, end as u64);
                log(&[33, last as u64, n as u64, kind as u64]);
                note(|| format!("{} calls of kind {}: {} bytes kept by the last half, {} by the quarter before", end, kind, last, before));
                if grows {
                    let what = if calls.is_empty() { fill_name(kind) } else { format!("{:?} with other texts each time", calls) };
                    fail("memory-retained", &format!("{} calls ({}) keep retaining memory: {} bytes more after the last {}", end, what, last, len / 2));
                }
            });
            return;
        }
        restart_op_steps();
        i += 1;
        let c = enter(|| match kind.checked_sub(FILLS) {
            _ if !calls.is_empty() => {
                let k = i as usize % calls.len();
                let mut at = 0;
                with_texts(&calls[k], &mut |t| {
                    at += 1;
                    let h = hash(&[seed, k as u64, at, if r.chance(1, 8) { i as u64 } else { 0 }]);
                    fresh(t, i, h)
                })
            }
            None => fill_call(&mut r, i, kind),
            Some(k) => {
                let v = format!("{}.{}.{}{}", r.below(50), i, r.below(9), r.pick(&["", "a", "rc1", ".post2", "+l"]));
                let o = |t: String| Obj { t, s: -1, c: false };
                match k {
                    0 => Call::Starts(o(v.clone()), o(format!("{}.1", v))),
                    1 => Call::Debug(o(v)),
                    2 => Call::SpecMatch(o(format!("=={}", v)), o(v)),
                    _ => Call::TreeMatch(o(format!("{}|<{}", v, v)), o(v)),
                }
            }
        });
        HEAP_NET.with(|h| h.set(0));
        HEAP_ON.with(|h| h.set(true));
        let a = answer(&cx, &c);
        drop(a);
        HEAP_ON.with(|h| h.set(false));
        net.push(HEAP_NET.with(|h| h.get()));
    }
}

/// `t` with one of its numbers or words replaced by the `i`th new one.
fn fresh(t: &str, i: u32, h: u64) -> String {
    let b = t.as_bytes();
    let class = |c: u8| if c.is_ascii_digit() { 1 } else if c.is_ascii_alphabetic() { 2 } else { 0 };
    let mut tokens = vec![];
    let mut p = 0;
    while p < b.len() {
        let k = class(b[p]);
        let s = p;
        while p < b.len() && class(b[p]) == k {
            p += 1;
        }
        if k > 0 {
            tokens.push((s, p, k));
        }
    }
    let mut word = String::new();
    let mut x = i;
    for _ in 0..4 {
        word.push((b'a' + (x % 26) as u8) as char);
        x /= 26;
    }
    if tokens.is_empty() {
        return if h % 2 == 0 { format!("{}{}", t, i) } else { format!("{}{}", t, word) };
    }
    let (s, e, k) = tokens[h as usize % tokens.len()];
    match (k, (h >> 32) % 4) {
        (1, 0) => format!("{}{}{}", &t[..e], word, &t[e..]),
        (1, _) => format!("{}{}{}", &t[..s], i, &t[e..]),
        (_, 0) => format!("{}{}{}", &t[..e], i, &t[e..]),
        _ => format!("{}{}{}", &t[..e], word, &t[e..]),
    }
}

/// `c` with other texts.
fn with_texts(c: &Call, f: &mut dyn FnMut(&str) -> String) -> Call {
    fn o(o: &Obj, f: &mut dyn FnMut(&str) -> String) -> Obj {
        Obj { t: f(&o.t), s: -1, c: false }
    }
    match c {
        Call::Parse(t) => Call::Parse(f(t)),
        Call::ParseFrom(t) => Call::ParseFrom(f(t)),
        Call::Raw(t) => Call::Raw(f(t)),
        Call::With(t, c) => Call::With(f(t), c.clone()),
        Call::Render(a) => Call::Render(o(a, f)),
        Call::Debug(a) => Call::Debug(o(a, f)),
        Call::Part(a, n) => Call::Part(o(a, f), *n),
        Call::Cmp(a, b) => Call::Cmp(o(a, f), o(b, f)),
        Call::CmpStr(a, b) => Call::CmpStr(o(a, f), f(b)),
        Call::Partial(a, b) => Call::Partial(o(a, f), o(b, f)),
        Call::Eq(a, b) => Call::Eq(o(a, f), o(b, f)),
        Call::Starts(a, b) => Call::Starts(o(a, f), o(b, f)),
        Call::Test(a, b, n) => Call::Test(o(a, f), o(b, f), *n),
        Call::TestStr(a, b, n) => Call::TestStr(o(a, f), f(b), *n),
        Call::OpInfo(n) => Call::OpInfo(*n),
        Call::OpSign(t) => Call::OpSign(f(t)),
        Call::OpName(t) => Call::OpName(f(t)),
        Call::Tree(t) => Call::Tree(f(t)),
        Call::TreeShow(a) => Call::TreeShow(o(a, f)),
        Call::TreeMatch(a, b) => Call::TreeMatch(o(a, f), o(b, f)),
        Call::TreeMatchStr(a, b) => Call::TreeMatchStr(o(a, f), f(b)),
        Call::TreeEq(a, b) => Call::TreeEq(o(a, f), o(b, f)),
        Call::Spec(t) => Call::Spec(f(t)),
        Call::SpecShow(a) => Call::SpecShow(o(a, f)),
        Call::SpecMatch(a, b) => Call::SpecMatch(o(a, f), o(b, f)),
        Call::AnySpec(t) => Call::AnySpec(f(t)),
        Call::AnyMatch(a, b) => Call::AnyMatch(f(a), f(b)),
        Call::VecTree(v) => Call::VecTree(v.iter().map(|t| if t == "," || t == "|" { t.clone() } else { f(t) }).collect()),
        Call::FromJson(t) => Call::FromJson(f(t)),
        Call::LoadDoc(_) | Call::LoadNone(_) => c.clone(),
    }
}

fn fill_name(kind: u8) -> String {
    let mut r = Rng(7);
    if kind < FILLS {
        format!("such as {:?}", fill_call(&mut r, 1, kind))
    } else {
        ["prefix tests", "debug texts", "single constraints matched", "trees matched"][(kind - FILLS) as usize % 4].to_string()
    }
}

// ---------------------------------------------------------------- C24: threads that come and go

/// Calls made while the thread's locals are destroyed; true if these were there before the library's.
struct Last(&'static [(u32, Call)], bool);

const LAST_WORDS: &str = "in the last thread-local destructor of an ending thread";

// The regex library keeps a thread-local of its own, which is gone when destructors registered before
// it run: a call that searches a text there may be refused (by a panic that says so), not answered
// wrongly. Comparing, parsing and matching all search.

impl Drop for Last {
    fn drop(&mut self) {
        for (id, c) in self.0 {
            let cx = Ctx { plan: Some(&run().plan), own: None };
            enter(|| count(P_DTOR_CALLS));
            do_call(&cx, *id, c, if self.1 { LAST_WORDS } else { "in a thread-local destructor of an ending thread" });
        }
    }
}

thread_local! {
    static EARLY: RefCell<Option<Last>> = const { RefCell::new(None) };
    static LATE: RefCell<Option<Last>> = const { RefCell::new(None) };
}

/// Something handed to another thread. (Only used for the library's objects if these may be.)
struct Given<T>(T);
unsafe impl<T> Send for Given<T> {}

fn spawn_named<T: Send + 'static>(name: &str, f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    let mut b = std::thread::Builder::new();
    if !name.is_empty() && !name.contains('\0') {
        b = b.name(name.to_string());
    }
    b.spawn(f).expect("spawn")
}

fn do_life(op: u32, l: &'static Life) {
    let give = SHARED && l.versions.len() + l.trees.len() + l.specs.len() > 0;
    enter(|| count(P_LIVES));
    let h = spawn_named(&l.name, move || {
        begin_op(op);
        if !l.early.is_empty() {
            EARLY.with(|g| *g.borrow_mut() = Some(Last(&l.early, true)));
        }
        let cx = Ctx { plan: Some(&run().plan), own: None };
        for (id, c) in &l.calls {
            do_call(&cx, *id, c, "in a short-lived thread");
        }
        begin_op(op | 1 << 30);
        let w = if give { make_world(&l.versions, &l.trees, &l.specs) } else { std::ptr::null() };
        if !l.late.is_empty() {
            LATE.with(|g| *g.borrow_mut() = Some(Last(&l.late, false)));
        }
        if l.panic {
            // what it made survives it
            HANDED.with(|_| ());
            enter(|| unsafe {
                LEFT.push((op, w));
            });
            panic!("the thread ends by a panic");
        }
        Given(w)
    });
    let got = h.join();
    for _ in 0..l.again {
        enter(|| count(P_LIVES));
        let _ = spawn_named(&l.name, move || {
            begin_op(op);
            let cx = Ctx { plan: Some(&run().plan), own: None };
            for (id, c) in &l.calls {
                do_call(&cx, *id, c, "in one of many short-lived threads");
            }
            if l.panic {
                panic!("the thread ends by a panic");
            }
        })
        .join();
    }
    let w = match got {
        Ok(g) => g.0,
        Err(_) => enter(|| unsafe { LEFT.iter().find(|x| x.0 == op).map_or(std::ptr::null(), |x| x.1) }),
    };
    if w.is_null() {
        // nothing was handed over: the calls build their own objects
        let cx = Ctx { plan: None, own: None };
        for (id, c) in &l.after {
            do_call(&cx, *id, c, "after a thread has ended");
        }
        return;
    }
    let own: &'static World = unsafe { &*w };
    if l.heirs == 0 {
        let cx = Ctx { plan: None, own: Some(own) };
        for (id, c) in &l.after {
            do_call(&cx, *id, c, "on objects made by a thread that has ended");
        }
    } else {
        let mut hs = vec![];
        for k in 0..l.heirs {
            let own = Given(own);
            hs.push(spawn_named("", move || {
                let g = own;
                let cx = Ctx { plan: None, own: Some(g.0) };
                for (n, (id, c)) in l.after.iter().enumerate() {
                    if n as u32 % l.heirs == k {
                        do_call(&cx, *id, c, "on objects made by a thread that has ended");
                    }
                }
            }));
        }
        for h in hs {
            if let Err(e) = h.join() {
                enter(|| harness_error(&format!("heir panicked: {}", panic_text(&*e))));
            }
        }
    }
    begin_op(op | 1 << 30);
    let g = Given(w as *mut World);
    let drop_it = move || {
        let g = g;
        catch_unwind(AssertUnwindSafe(|| drop(unsafe { Box::from_raw(g.0) }))).is_ok()
    };
    let ok = if l.far_drop {
        spawn_named("", move || {
            begin_op(op);
            drop_it()
        })
        .join()
        .unwrap_or(false)
    } else {
        drop_it()
    };
    if !ok {
        enter(|| fail("call-crashed", "dropping objects made by a thread that has ended panicked"));
    }
}

static mut LEFT: Vec<(u32, *const World)> = vec![];

thread_local! {
    static HANDED: Cell<bool> = const { Cell::new(false) };
}

// ---------------------------------------------------------------- C20: damaged version text

fn use_versions(a: &str, b: &str) -> String {
    let mut out = String::new();
    let mut vs: Vec<(lib::Version, &str)> = vec![];
    for t in [a, b] {
        match lib::parse(t) {
            Ok(v) => vs.push((v, t)),
            Err(e) => out.push_str(&format!("{} ", e)),
        }
    }
    for (v, t) in &vs {
        if v.as_str() != *t || v.to_string() != *t {
            enter(|| fail("text-changed", &format!("{:?} was accepted, but its text is {:?}, written {:?}", trim(t), trim(v.as_str()), trim(&v.to_string()))));
        }
        let k = v.part_count();
        let fits = k == v.parts().len() && (0..k).all(|i| v.part(i).is_ok()) && v.part(k).is_err() && v.part(usize::MAX).is_err();
        if !fits {
            enter(|| fail("parts-differ", &format!("{:?}: {} parts by count, {} in the list", trim(t), k, v.parts().len())));
        }
        out.push_str(&lib::debug(v));
        out.push_str(&lib::part(&v.clone(), k / 2));
    }
    for (v, _) in &vs {
        for (w, _) in &vs {
            out.push_str(&format!("{}{:?}{}{}", lib::cmp(v, w), lib::partial(v, w), lib::eq(v, w), lib::starts(v, w)));
            for o in 0..8 {
                out.push_str(&format!("{}", lib::test(v, w, o) as u8));
            }
            if let Ok(s) = lib::spec(&format!(">={}", w.as_str())) {
                out.push_str(&format!("{}", lib::spec_match(&s, v)));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- tasks

/// Makes a call and compares the answer with that of the same call alone in a fresh process.
fn do_call(cx: &Ctx, id: u32, c: &Call, place: &str) {
    begin_op(id);
    enter(|| count(P_CALLS));
    let got = answer(cx, c);
    enter(|| {
        log(&[21, hash_str(&got)]);
        note(|| format!("{:?} -> {}", c, trim(&got)));
        if let Some(w) = run().refs.get(&id) {
            count(P_CHECKED);
            let refused = got.contains("cannot access a Thread Local Storage value");
            if *w != got && !(place == LAST_WORDS && refused) {
                let class = if got.starts_with("panic: ") { "call-crashed" } else { "wrong-answer" };
                let at = (0..got.len().min(w.len())).find(|i| got.as_bytes()[*i] != w.as_bytes()[*i]).unwrap_or(got.len().min(w.len()));
                fail(class, &format!("{:?}{}{} answered {:?}; alone in a fresh process it answers {:?}", c, if place.is_empty() { "" } else { " " }, place, about(&got, at), about(w, at)));
            }
        }
    });
}

fn each_id(op: u32, i: usize) -> u32 {
    1 << 29 | op << 8 | i as u32
}

/// One use of an `Op::Each` as a call of its own.
fn each_call(kind: u8, held: &str, text: &str) -> Call {
    let o = |t: &str| Obj { t: t.to_string(), s: -1, c: false };
    match kind {
        0 => Call::TreeMatch(o(held), o(text)),
        1 => Call::SpecMatch(o(held), o(text)),
        2 => Call::Cmp(o(held), o(text)),
        3 => Call::TreeMatchStr(o(held), text.to_string()),
        4 => Call::SpecMatch(o(text), o(held)),
        5 => Call::CmpStr(o(held), text.to_string()),
        6 => Call::TreeMatch(o(text), o(held)),
        7 => Call::Starts(o(held), o(text)),
        _ => Call::Spec(text.to_string()),
    }
}

/// The uses follow each other without anything of the simulator's in between, so that the next object
/// gets the place of the one before, and the texts are handed over in one and the same buffer.
fn each(cx: &Ctx, id: u32, kind: u8, held: &str, texts: &[String]) {
    let o = |t: &str| Obj { t: t.to_string(), s: -1, c: false };
    let ho = o(held);
    let mut got: Vec<Result<String, String>> = Vec::with_capacity(texts.len());
    let mut buf = String::with_capacity(texts.iter().map(|t| t.len()).max().unwrap_or(0));
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        let tree = match kind {
            0 | 3 => Some(tre(cx, &ho)?),
            _ => None,
        };
        let spec = match kind {
            1 => Some(spe(cx, &ho)?),
            _ => None,
        };
        let version = match kind {
            2 | 4 | 5 | 6 | 7 => Some(ver(cx, &ho)?),
            _ => None,
        };
        for t in texts {
            buf.clear();
            buf.push_str(t);
            let b = &buf[..];
            let one = || -> Result<String, String> {
                let v = || match lib::parse(b) {
                    Ok(v) => Ok(v),
                    Err(_) => Err(String::new()),
                };
                Ok(match kind {
                    0 => format!("{:?}", lib::tree_match(tree.as_ref().unwrap(), &v()?)),
                    1 => format!("{:?}", lib::spec_match(spec.as_ref().unwrap(), &v()?)),
                    2 => lib::cmp(version.as_ref().unwrap(), &v()?),
                    3 => format!("{:?}", lib::tree_match_str(tree.as_ref().unwrap(), b)),
                    4 => format!("{:?}", lib::spec_match(&lib::spec(b).map_err(|_| String::new())?, version.as_ref().unwrap())),
                    5 => lib::cmp_str(version.as_ref().unwrap(), b),
                    6 => format!("{:?}", lib::tree_match(&lib::tree(b).map_err(|_| String::new())?, version.as_ref().unwrap())),
                    7 => format!("{:?}", lib::starts(version.as_ref().unwrap(), &v()?)),
                    _ => match lib::spec(b) {
                        Ok(s) => format!("ok {}", lib::spec_text(&s)),
                        Err(e) => format!("err {}", e),
                    },
                })
            };
            match catch_unwind(AssertUnwindSafe(one)) {
                Ok(a) => got.push(a),
                Err(e) => got.push(Ok(format!("panic: {}", panic_text(&*e)))),
            }
        }
        Ok(())
    }));
    enter(|| {
        if let Err(e) = r {
            fail("call-crashed", &format!("building {:?} panicked: {}", held, panic_text(&*e)));
        }
        for (i, g) in got.iter().enumerate() {
            count(P_CALLS);
            let g = match g {
                Ok(g) => g,
                Err(_) => continue,
            };
            log(&[21, hash_str(g)]);
            note(|| format!("{:?} -> {}", each_call(kind, held, &texts[i]), trim(g)));
            if let Some(w) = run().refs.get(&each_id(id, i)) {
                count(P_CHECKED);
                if w != g {
                    let class = if g.starts_with("panic: ") { "call-crashed" } else { "wrong-answer" };
                    fail(class, &format!("{:?} right after {} answered {:?}; alone in a fresh process it answers {:?}", each_call(kind, held, &texts[i]), if i > 0 { format!("the same with {:?}", texts[i - 1]) } else { "nothing".into() }, trim(g), trim(w)));
                }
            }
        }
    });
}

/// The part of a long text around byte `at`.
fn about(s: &str, at: usize) -> String {
    if s.chars().count() <= 200 {
        return s.to_string();
    }
    let mut i = at.saturating_sub(60).min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}{}", if i > 0 { "…" } else { "" }, trim(&s[i..]))
}

/// Runs something that must neither crash nor work longer than its text's length justifies.
fn bounded(what: &str, f: &dyn Fn() -> String) {
    enter(|| count(BAD_TEXT as usize));
    let s0 = step_count();
    HEAP_TOTAL.with(|h| h.set(0));
    HEAP_NET.with(|h| h.set(0));
    HEAP_PEAK.with(|h| h.set(0));
    HEAP_ON.with(|h| h.set(true));
    let got = f();
    HEAP_ON.with(|h| h.set(false));
    let total = HEAP_TOTAL.with(|h| h.get());
    let peak = HEAP_PEAK.with(|h| h.get());
    let steps = step_count() - s0;
    enter(|| {
        log(&[22, hash_str(&got)]);
        note(|| format!("{} -> {}", trim(what), trim(&got)));
        if got.starts_with("panic: ") {
            fail("text-crashes", &format!("{} panicked: {}", trim(what), trim(&got[7..])));
        }
        let len = what.len() as u64;
        if run().plan.prop == "C27" {
            stat_max(5, peak as u64 / (len + 1000));
            stat_max(6, peak as u64);
            let lim = PEAK_TA + PEAK_T * len as i64;
            if peak > lim {
                fail("memory-beyond-data", &format!("{}: {} bytes of memory held at once for {} characters (limit {})", trim(what), peak, len, lim));
            }
        } else if run().plan.tasks.len() == 1 {
            stat_max(2, steps / (len + 100));
            stat_max(3, total as u64 / (len + 100));
            let lim = if run().plan.prop == "C20" { 300_000 + 3_000 * len } else { 300_000 + 3_000 * len + 60 * len * len };
            if steps > lim {
                fail("unbounded-work", &format!("{}: {} steps for {} characters (limit {})", trim(what), steps, len, lim));
            }
        }
    });
}

/// Changes a file's content in place, a piece at a time.
fn rewrite(path: &str, gen: usize, chunk: usize, way: u8) {
    let to: &'static [u8] = enter(|| {
        count(REWRITE as usize);
        let f = vfs().files.get(path).unwrap();
        f.gens[gen].bytes
    });
    let mut now: Vec<u8> = enter(|| {
        let f = vfs().files.get(path).unwrap();
        f.gens[f.cur].bytes.to_vec()
    });
    let put = |b: &[u8]| {
        io_point();
        enter(|| {
            let b: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
            let f = vfs().files.get_mut(path).unwrap();
            // (the content under way belongs to no generation: handles all point at this slot)
            let live = f.gens.len() - 1;
            f.gens[live].bytes = b;
            log(&[24, b.len() as u64]);
            note(|| format!("{} rewritten in place, now {} bytes", path, b.len()));
        });
        io_point();
    };
    // (every content on the way is kept)
    let chunk = chunk.max(to.len() / 200 + 1);
    let n = to.len().div_ceil(chunk);
    match way {
        0 => {
            put(&[]);
            for k in 0..n {
                put(&to[..((k + 1) * chunk).min(to.len())]);
            }
        }
        1 => {
            for k in 0..n {
                let (a, b) = (k * chunk, ((k + 1) * chunk).min(to.len()));
                if now.len() < b {
                    now.resize(b, 0);
                }
                now[a..b].copy_from_slice(&to[a..b]);
                put(&now);
            }
            if now.len() > to.len() {
                now.truncate(to.len());
                put(&now);
            }
        }
        _ => {
            now.resize(to.len(), 0);
            put(&now);
            let mut order: Vec<usize> = (0..n).collect();
            let mut r = Rng(hash(&[run().plan.seed, run().plan.run, gen as u64, 8]));
            for i in (1..order.len()).rev() {
                order.swap(i, r.below(i as u64 + 1) as usize);
            }
            for k in order {
                let (a, b) = (k * chunk, ((k + 1) * chunk).min(to.len()));
                now[a..b].copy_from_slice(&to[a..b]);
                put(&now);
            }
        }
    }
    put(to);
}

fn do_op(id: u32, o: &'static Op) {
    begin_op(id);
    enter(|| unsafe {
        (*(*SIM).shm).set_where(&trim(&format!("task {} op {}: {:?}", task_id(), id, o)));
    });
    let cx = Ctx { plan: Some(&run().plan), own: None };
    match o {
        Op::Call(c) => do_call(&cx, id, c, ""),
        Op::Probe(c) => bounded(&format!("{:?}", c), &|| answer(&cx, c)),
        Op::Vers(a, b) => bounded(&format!("Versions({:?}, {:?})", a, b), &|| match catch_unwind(AssertUnwindSafe(|| use_versions(a, b))) {
            Ok(s) => s,
            Err(e) => format!("panic: {}", panic_text(&*e)),
        }),
        Op::Fill { seed, n, kind } => fill(*seed, *n, *kind),
        Op::Load { path, keep, via } => do_load(path, *keep, *via),
        Op::Rewrite { path, gen, chunk, way } => rewrite(path, *gen as usize, *chunk as usize, *way),
        Op::Select { path, expr, workers, parts, way } => do_select(path, expr, *workers, *parts, *way),
        Op::Retain { seed, n, kind, calls } => retain(*seed, *n, *kind, calls),
        Op::Each { kind, held, texts } => each(&cx, id, *kind, held, texts),
        Op::Life(l) => do_life(id, l),
        Op::Replace { path, gen } => {
            io_point();
            enter(|| {
                vfs().install(path, *gen as usize);
                count(REPLACE as usize);
                log(&[23, *gen as u64]);
                note(|| format!("{} replaced by generation {}", path, gen));
            });
            io_point();
        }
        Op::Jump(d) => enter(|| unsafe {
            (*SIM).skew += d;
            count(CLOCK_JUMP as usize);
        }),
        Op::Sleep(ns) => sleep(*ns),
        Op::Yield => yield_now(),
        Op::Custom { text, custom } => do_custom(text, custom),
        Op::Quiet => enter(|| unsafe { (*SIM).quiet_faults = true }),
        Op::LeakProbe { path, n, way } => leak_probe(path, *n, *way),
        Op::Recheck => recheck(),
        Op::Rank { path, workers, parts } => do_rank(path, *workers, *parts),
        Op::Forced { off, kind, a } => enter(|| {
            vfs().forced = Some(((*off).min(usize::MAX as u64 / 2) as usize, *kind, *a));
        }),
    }
    enter(|| {
        // an operation's storage must be released when its task moves on
        unsafe { (*(*SIM).shm).where_len = 0 }
    });
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    hash(&[h])
}

fn task_main(ops: &'static [(u32, Op)]) {
    for (id, o) in ops {
        do_op(*id, o);
    }
    begin_op(u32::MAX - 1);
}

/// Silences panic messages: panics are outcomes here.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn build_vfs(p: &Plan) -> (Vfs, Vec<FileM>) {
    let mut v = Vfs { regime: p.regime.clone(), persist: p.persist.clone(), seed: hash(&[p.seed, p.run, 55]), ..Default::default() };
    v.dirs = vec!["/simdisk".into(), "/simdisk/win-64".into(), "/simdisk/noarch".into(), "/simdisk/x".into()];
    let mut fm = vec![];
    for f in &p.files {
        let mut gens = vec![];
        let mut models = vec![];
        let mut dmg = vec![];
        for g in &f.gens {
            let bytes = damage(&g.doc, &g.dmg);
            gens.push(Gen { bytes: Box::leak(bytes.into_boxed_slice()), ino: g.ino, mtime: g.mtime, from: u64::MAX, to: 0 });
            models.push(if g.dmg.is_empty() { Ok(g.doc.model()) } else { Err(()) });
            dmg.push(!g.dmg.is_empty());
        }
        gens[0].from = 0;
        gens[0].to = u64::MAX;
        let mut cur = 0;
        if p.prop == "C26" {
            // the content as it changes in place
            let g = &gens[0];
            cur = gens.len();
            let live = Gen { bytes: g.bytes, ino: g.ino, mtime: g.mtime, from: 0, to: u64::MAX };
            gens.push(live);
            models.push(Err(()));
            dmg.push(false);
        }
        v.files.insert(f.path.clone(), FileEnt { gens, cur });
        fm.push(FileM { path: f.path.clone(), models, dmg });
    }
    if p.prop == "C07" {
        v.call_limit = v.files.values().flat_map(|f| &f.gens).map(|g| g.bytes.len() as u64).max().unwrap_or(0);
    }
    for (a, b) in &p.alias {
        v.alias.insert(a.clone(), b.clone());
    }
    (v, fm)
}

fn visit_calls<'a>(ops: &'a [(u32, Op)], f: &mut dyn FnMut(u32, &'a Call)) {
    for (id, o) in ops {
        match o {
            Op::Call(c) => f(*id, c),
            Op::Life(l) => {
                for (id, c) in l.calls.iter().chain(&l.early).chain(&l.late).chain(&l.after) {
                    f(*id, c)
                }
            }
            _ => {}
        }
    }
}

fn docs_of(c: &Call, out: &mut Vec<crate::doc::DocP>) {
    match c {
        Call::LoadDoc(d) => out.push(d.clone()),
        Call::With(_, cu) => {
            let mut cu = cu;
            loop {
                match cu {
                    Custom::Stall(_, c) | Custom::Nest(_, c) => cu = c,
                    Custom::Reenter(k, c) => {
                        for x in k {
                            docs_of(x, out)
                        }
                        cu = c;
                    }
                    _ => break,
                }
            }
        }
        _ => {}
    }
}

pub fn plan_calls(p: &Plan) -> Vec<(u32, Call)> {
    let mut v = vec![];
    for t in p.tasks.iter().chain(std::iter::once(&p.last)) {
        visit_calls(t, &mut |id, c| v.push((id, c.clone())));
        for (id, o) in t {
            if let Op::Each { kind, held, texts } = o {
                for (i, x) in texts.iter().enumerate() {
                    v.push((each_id(*id, i), each_call(*kind, held, x)));
                }
            }
        }
    }
    v
}

/// In-memory files for the fixed documents that calls load.
fn add_docs(v: &mut Vfs, calls: &[&Call]) {
    let mut docs = vec![];
    for c in calls {
        docs_of(c, &mut docs);
    }
    for d in docs {
        let b = d.encode().out;
        v.files.insert(doc_path(&d), FileEnt { gens: vec![Gen { bytes: Box::leak(b.into_boxed_slice()), ino: 7, mtime: EPOCH0, from: 0, to: u64::MAX }], cur: 0 });
    }
}

fn new_sim(p: &Plan, shm: *mut Shm, vfs: Vfs, verbose: bool) -> Box<Sim> {
    let mut decs: BTreeMap<(u32, u32), Vec<(u32, u32)>> = BTreeMap::new();
    for d in p.decisions.iter().flatten() {
        decs.entry((d[0], d[1])).or_default().push((d[2], d[3]));
    }
    let mut faults = BTreeMap::new();
    for f in p.faults.iter().flatten() {
        faults.insert((f.0, f.1, f.2), (f.3, f.4));
    }
    let s = hash(&[p.seed, p.run]);
    Box::new(Sim {
        shm,
        tasks: vec![],
        cur: 0,
        clock: 0,
        skew: 0,
        machine: 0,
        stall: 0,
        stalls: 0,
        seed: s,
        rng: Rng(hash(&[s, 2])),
        frng: Rng(hash(&[s, 3])),
        hash_rng: Rng(p.hash_seed),
        strat: match p.strat {
            StratP::Coop => Strat::Coop,
            StratP::Random(m) => Strat::Random { mean: m },
            StratP::Pct(d, l) => Strat::Pct { depth: d, len: l },
        },
        io_pct: p.io_pct,
        countdown: 1,
        change_points: vec![],
        low_prio: 0,
        replay: p.decisions.is_some(),
        decs,
        faults,
        steps: 0,
        budget: 2_000_000_000,
        op_budget: 300_000_000,
        granted: 0,
        op_steps: 0,
        log: 0,
        vfs,
        spurious_pct: p.spurious_pct,
        wakes: 0,
        verbose,
        quiet_faults: false,
        key: 0,
        net: crate::net::Net { p: p.net.clone(), ..Default::default() },
    })
}

/// Runs the plan in this (forked) process; never returns.
pub fn child(p: Plan, refs: BTreeMap<u32, String>, shm: *mut Shm, verbose: bool) -> ! {
    quiet_panics();
    let (mut v, fm) = build_vfs(&p);
    let calls = plan_calls(&p);
    let cs: Vec<&Call> = calls.iter().map(|c| &c.1).collect();
    add_docs(&mut v, &cs);
    let mut sim = new_sim(&p, shm, v, verbose);
    sim.skew = p.env.skew * 1_000_000_000;
    sim.stall = p.env.stall;
    sim.machine = p.env.machine;
    if p.env.ghost > 0 && !p.tasks.iter().flatten().any(|(_, o)| matches!(o, Op::LeakProbe { .. })) {
        sim.vfs.haunt(&p);
    }
    for d in p.files.iter().flat_map(|f| &f.gens).flat_map(|g| &g.dmg) {
        unsafe {
            (*shm).cnt[crate::faults::DMG0 as usize + d.kind as usize % crate::faults::N_DMG] += 1;
        }
    }
    unsafe {
        RUN = Box::into_raw(Box::new(Run { plan: p, refs, files: fm }));
    }
    surroundings(&run().plan.env);
    start(sim);
    let pl = &run().plan;
    // Building shared objects is part of the run only as far as the library is concerned: the first
    // use of the library happens in the tasks when nothing is shared.
    if SHARED && pl.versions.len() + pl.trees.len() + pl.specs.len() > 0 {
        let h = std::thread::spawn(|| {
            begin_op(0);
            let w = build_world(&run().plan);
            unsafe { WORLD = w };
        });
        if let Err(e) = h.join() {
            fail("setup-panics", &format!("building the shared objects panicked: {}", panic_text(&*e)));
        }
    }
    let mut hs = vec![];
    for (i, ops) in pl.tasks.iter().enumerate() {
        let ops: &'static [(u32, Op)] = ops;
        let name = if pl.env.names.is_empty() { "" } else { pl.env.names[i % pl.env.names.len()].as_str() };
        hs.push(spawn_named(name, move || task_main(ops)));
    }
    for h in hs {
        if let Err(e) = h.join() {
            harness_error(&format!("task panicked: {}", panic_text(&*e)));
        }
    }
    if !pl.last.is_empty() {
        let ops: &'static [(u32, Op)] = &pl.last;
        if let Err(e) = std::thread::spawn(move || task_main(ops)).join() {
            harness_error(&format!("task panicked: {}", panic_text(&*e)));
        }
    }
    enter(|| {
        if run().plan.prop == "C06" {
            if !vfs().fds.is_empty() {
                fail("file-left-open", "descriptors still open at the end of the run");
            }
            if let Some(m) = vfs().mutations.first() {
                fail("storage-changed", &format!("the library tried to change storage: {}", m));
            }
        }
    });
    sync_shm();
    unsafe {
        (*shm).status = ST_OK;
    }
    exit_group(0)
}

extern "C" {
    fn chdir(p: *const u8) -> i32;
}

static mut ARGV: (i32, *mut *const u8) = (0, std::ptr::null_mut());

extern "C" fn args_given(n: i32, v: *mut *const u8) {
    unsafe { ARGV = (n, v) };
}

#[used]
#[link_section = ".init_array"]
static AT_START: extern "C" fn(i32, *mut *const u8) = args_given;

/// What the process was started with: never what the simulator was.
fn command_line(args: &[String]) {
    unsafe {
        let (n, v) = ARGV;
        for i in 0..n as usize {
            *v.add(i) = match i {
                0 => b"/usr/bin/program\0".as_ptr(),
                _ if i <= args.len() && i < 3 => Box::leak(format!("{}\0", args[i - 1]).into_boxed_str()).as_ptr(),
                _ => std::ptr::null(),
            };
        }
    }
}

fn surroundings(e: &EnvP) {
    command_line(&e.args);
    for (k, _) in std::env::vars_os().collect::<Vec<_>>() {
        std::env::remove_var(k);
    }
    for (k, v) in &e.vars {
        std::env::set_var(k, v);
    }
    if !e.cwd.is_empty() {
        unsafe {
            chdir(format!("{}\0", e.cwd).as_ptr());
        }
    }
    if e.junk > 0 {
        std::mem::forget(vec![1u8; e.junk as usize]);
    }
}

/// Makes one call as the only one in this fresh process and leaves the answer in shared memory.
pub fn reference_child(c: &Call, shm: *mut Shm) -> ! {
    quiet_panics();
    let mut r = Rng(1);
    let mut p = make_blank(&mut r);
    p.strat = StratP::Coop;
    let mut v = Vfs { seed: 1, ..Default::default() };
    v.dirs = vec!["/simdisk".into()];
    add_docs(&mut v, &[c]);
    let sim = new_sim(&p, shm, v, false);
    for (k, _) in std::env::vars_os().collect::<Vec<_>>() {
        std::env::remove_var(k);
    }
    command_line(&[]);
    start(sim);
    let c: &'static Call = Box::leak(Box::new(c.clone()));
    let h = std::thread::spawn(move || {
        begin_op(1);
        let cx = Ctx { plan: None, own: None };
        answer(&cx, c)
    });
    let out = h.join().unwrap_or_else(|_| "harness".into());
    unsafe {
        let b = out.as_bytes();
        let n = b.len().min(1 << 20);
        (&mut (*shm).out)[..n].copy_from_slice(&b[..n]);
        (*shm).out_len = n as u32;
        (*shm).status = ST_OK;
    }
    exit_group(0)
}

fn make_blank(_r: &mut Rng) -> Plan {
    serde_json::from_str(
        "{\"prop\":\"C08\",\"seed\":1,\"run\":0,\"hash_seed\":1,\"strat\":\"Coop\",\"io_pct\":0,\"spurious_pct\":0,\"tasks\":[]}",
    )
    .unwrap()
}

pub fn exec_probe_names() -> &'static [&'static str] {
    &["max_steps_per_byte", "max_bytes_allocated_per_byte", "max_steps_per_character_of_constraint", "max_bytes_allocated_per_character", "max_bytes_held_per_byte", "max_bytes_held_per_character", "max_bytes_held_for_a_text"]
}

#[allow(dead_code)]
fn unused() {
    let _ = texts::SIGNS;
}
