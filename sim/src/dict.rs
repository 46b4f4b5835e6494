//! Words and numbers that occur as literals in the library's own (non-test) source. They only steer
//! generation towards inputs the code treats specially; no check's verdict looks at them.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
#[serde(default)]
pub struct Dict {
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub words: Vec<String>,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub nums: Vec<u64>,
}

impl Dict {
    pub fn is_empty(&self) -> bool {
        self.words.is_empty() && self.nums.is_empty()
    }
}

thread_local! {
    static CUR: Cell<*const Dict> = const { Cell::new(std::ptr::null()) };
}

/// Runs `f` with `d` as the dictionary that generators draw from.
pub fn with<T>(d: &Dict, f: impl FnOnce() -> T) -> T {
    struct Back(*const Dict);
    impl Drop for Back {
        fn drop(&mut self) {
            CUR.with(|c| c.set(self.0));
        }
    }
    let _back = Back(CUR.with(|c| c.replace(d)));
    f()
}

fn cur() -> Option<&'static Dict> {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        unsafe { Some(&*p) }
    }
}

/// One in `den` times, a word. Draws nothing from `r` when there are no words.
pub fn word(r: &mut Rng, den: u64) -> Option<String> {
    let d = cur()?;
    if d.words.is_empty() || !r.chance(1, den) {
        return None;
    }
    Some(r.pick(&d.words).clone())
}

/// One in `den` times, a number at or next to one of the source's, at most `max`.
pub fn num(r: &mut Rng, den: u64, max: u64) -> Option<u64> {
    let d = cur()?;
    if d.nums.is_empty() || !r.chance(1, den) {
        return None;
    }
    let ok: Vec<u64> = d.nums.iter().cloned().filter(|n| *n <= max).collect();
    if ok.is_empty() {
        return None;
    }
    let n = *r.pick(&ok);
    Some(match r.below(4) {
        0 => n - 1,
        1 => (n + 1).min(max),
        _ => n,
    })
}

/// A few words and numbers to take along (with an index document, whose content must not depend on
/// anything but its own description).
pub fn some(r: &mut Rng) -> Dict {
    let mut o = Dict::default();
    if let Some(d) = cur() {
        if !d.is_empty() && r.chance(1, 2) {
            for _ in 0..r.range(1, 4) {
                if !d.words.is_empty() {
                    o.words.push(r.pick(&d.words).clone());
                }
                if !d.nums.is_empty() {
                    o.nums.push(*r.pick(&d.nums));
                }
            }
        }
    }
    o
}

pub fn source() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| read("/repo/core/src"))
}

fn files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = match std::fs::read_dir(dir) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    v.sort();
    for p in v {
        if p.is_dir() {
            // (directories that are not part of the crate have nothing to say)
            let n = p.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
            if n != "test_tools" && n != "graph" && n != "resolve" {
                files(&p, out);
            }
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}

fn read(root: &str) -> Dict {
    let mut fs = vec![];
    files(std::path::Path::new(root), &mut fs);
    let mut words = BTreeSet::new();
    let mut nums = BTreeSet::new();
    for f in fs {
        if let Ok(t) = std::fs::read_to_string(&f) {
            let toks = lex(&t);
            collect(&toks, &mut words, &mut nums);
        }
    }
    let mut words: Vec<String> = words.into_iter().collect();
    words.truncate(2000);
    let mut nums: Vec<u64> = nums.into_iter().collect();
    nums.truncate(2000);
    Dict { words, nums }
}

#[derive(Debug, PartialEq)]
enum Tok {
    Str(String),
    Num(u64),
    Id(String),
    P(char),
}

fn lex(t: &str) -> Vec<Tok> {
    let c: Vec<char> = t.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    let at = |i: usize| c.get(i).cloned().unwrap_or('\0');
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            let mut d = 0;
            loop {
                if i >= c.len() {
                    break;
                }
                if c[i] == '/' && at(i + 1) == '*' {
                    d += 1;
                    i += 2;
                } else if c[i] == '*' && at(i + 1) == '/' {
                    d -= 1;
                    i += 2;
                    if d == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
        } else if (x == 'r' || (x == 'b' && at(i + 1) == 'r')) && {
            let mut j = i + if x == 'b' { 2 } else { 1 };
            while at(j) == '#' {
                j += 1;
            }
            at(j) == '"'
        } {
            i += if x == 'b' { 2 } else { 1 };
            let mut h = 0;
            while at(i) == '#' {
                h += 1;
                i += 1;
            }
            i += 1;
            let mut s = String::new();
            while i < c.len() && !(c[i] == '"' && (0..h).all(|k| at(i + 1 + k) == '#')) {
                s.push(c[i]);
                i += 1;
            }
            i += 1 + h;
            o.push(Tok::Str(s));
        } else if x == '"' || (x == 'b' && at(i + 1) == '"') {
            i += if x == 'b' { 2 } else { 1 };
            let mut s = String::new();
            while i < c.len() && c[i] != '"' {
                s.push(one(&c, &mut i));
            }
            i += 1;
            o.push(Tok::Str(s));
        } else if x == '\'' || (x == 'b' && at(i + 1) == '\'') {
            let mut j = i + if x == 'b' { 2 } else { 1 };
            if at(j) != '\0' {
                let ch = one(&c, &mut j);
                if at(j) == '\'' {
                    o.push(Tok::Str(ch.to_string()));
                    i = j + 1;
                    continue;
                }
            }
            i += 1; // a lifetime
        } else if x.is_ascii_digit() {
            let mut s = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' || (at(i) == '.' && at(i + 1).is_ascii_digit()) {
                s.push(c[i]);
                i += 1;
            }
            let s = s.replace('_', "");
            let n = if let Some(h) = s.strip_prefix("0x") {
                let e = h.find(|c: char| !c.is_ascii_hexdigit()).unwrap_or(h.len());
                u64::from_str_radix(&h[..e], 16).ok()
            } else if let Some(h) = s.strip_prefix("0b") {
                let e = h.find(|c: char| c != '0' && c != '1').unwrap_or(h.len());
                u64::from_str_radix(&h[..e], 2).ok()
            } else if s.contains('.') {
                None
            } else {
                let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
                s[..e].parse().ok()
            };
            if let Some(n) = n {
                o.push(Tok::Num(n));
            }
        } else if x.is_alphabetic() || x == '_' {
            let mut s = String::new();
            while at(i).is_alphanumeric() || at(i) == '_' {
                s.push(c[i]);
                i += 1;
            }
            o.push(Tok::Id(s));
        } else {
            o.push(Tok::P(x));
            i += 1;
        }
    }
    o
}

fn one(c: &[char], i: &mut usize) -> char {
    let x = c[*i];
    *i += 1;
    if x != '\\' || *i >= c.len() {
        return x;
    }
    let y = c[*i];
    *i += 1;
    match y {
        'n' => '\n',
        't' => '\t',
        'r' => '\r',
        '0' => '\0',
        'x' => {
            let s: String = c[*i..(*i + 2).min(c.len())].iter().collect();
            *i = (*i + 2).min(c.len());
            u8::from_str_radix(&s, 16).map(|b| b as char).unwrap_or('x')
        }
        'u' if c.get(*i) == Some(&'{') => {
            let mut s = String::new();
            *i += 1;
            while *i < c.len() && c[*i] != '}' {
                s.push(c[*i]);
                *i += 1;
            }
            *i = (*i + 1).min(c.len());
            u32::from_str_radix(&s, 16).ok().and_then(char::from_u32).unwrap_or('u')
        }
        z => z,
    }
}

fn collect(t: &[Tok], words: &mut BTreeSet<String>, nums: &mut BTreeSet<u64>) {
    let mut i = 0;
    let p = |i: usize, c: char| t.get(i) == Some(&Tok::P(c));
    let id = |i: usize, s: &str| matches!(t.get(i), Some(Tok::Id(x)) if x == s);
    while i < t.len() {
        // #[cfg(test)] item: skip to its end
        if p(i, '#') && p(i + 1, '[') && id(i + 2, "cfg") && p(i + 3, '(') && id(i + 4, "test") {
            let mut d = 0i32;
            i += 7;
            while i < t.len() {
                match &t[i] {
                    Tok::P('{') => d += 1,
                    Tok::P('}') => {
                        d -= 1;
                        if d <= 0 {
                            break;
                        }
                    }
                    Tok::P(';') if d == 0 => break,
                    _ => {}
                }
                i += 1;
            }
        }
        match &t[i.min(t.len() - 1)] {
            Tok::Str(s) => {
                if !s.is_empty() && s.chars().count() <= 16 && !s.contains("{}") && !s.contains("{:?}") {
                    words.insert(s.clone());
                }
            }
            Tok::Num(n) => {
                let mut v = vec![*n];
                if let (true, Some(Tok::Num(m))) = (p(i + 1, '*'), t.get(i + 2)) {
                    v.extend(n.checked_mul(*m));
                }
                if let (true, true, Some(Tok::Num(m))) = (p(i + 1, '<'), p(i + 2, '<'), t.get(i + 3)) {
                    v.extend(1u64.checked_shl(*m as u32).and_then(|x| x.checked_mul(*n)));
                }
                for x in v {
                    if (3..=1 << 32).contains(&x) {
                        nums.insert(x);
                    }
                }
            }
            _ => {}
        }
        i += 1;
    }
}
