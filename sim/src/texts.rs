//! Version and constraint texts: families with near collisions, and damaged ones.
use crate::dict;
use crate::rng::Rng;

pub const SEPS: [&str; 3] = [".", "-", "_"];

pub fn numeric(r: &mut Rng) -> String {
    let n = match dict::num(r, 40, 60) {
        Some(n) => n.max(1),
        None => 1 + r.small(6),
    };
    let mut s = String::new();
    if r.chance(1, 6) {
        let e = *r.pick(&[1u64, 1, 2, 3, 10, 255, 256, 32767]);
        let e = dict::num(r, 4, 32767).unwrap_or(e);
        s.push_str(&format!("{}!", e.max(1)));
    }
    for i in 0..n {
        if i > 0 {
            s.push_str(if r.chance(4, 5) { "." } else { *r.pick(&SEPS) });
        }
        let v = match r.below(8) {
            0 => 0,
            1 => r.below(4),
            2 => r.below(30),
            3 => *r.pick(&[9u64, 10, 11, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536]),
            4 => *r.pick(&[2147483647u64, 2147483646, 1 << 30, 16777216, 16777217, 20190101]),
            _ => r.below(12),
        };
        let v = dict::num(r, 12, 2147483647).unwrap_or(v);
        if r.chance(1, 12) {
            let n = if r.chance(2, 3) { 1 } else if r.chance(7, 8) { r.range(2, 12) } else { r.range(10, 40) };
            s.push_str(&"0".repeat(n as usize));
        }
        s.push_str(&v.to_string());
    }
    s
}

/// Dotted numbers, many of them close to `base`: trailing zeros, one component changed, other separators.
pub fn numeric_near(r: &mut Rng, base: &str) -> String {
    let mut t = if r.chance(1, 3) { numeric(r) } else { base.to_string() };
    for _ in 0..r.below(3) {
        match r.below(7) {
            0 => t.push_str(".0"),
            // another number in front, or none
            5 if !t.contains('!') && t.len() > 1 && t.as_bytes()[1].is_ascii_digit() && t.as_bytes()[0] != b'0' && r.chance(1, 2) => t = t[1..].to_string(),
            5 if !t.contains('!') && t.find(['.', '-', '_']).unwrap_or(t.len()) < 5 => t = format!("{}{}", r.range(1, 3), t),
            1 => t.push_str(&format!(".0.{}", r.below(3))),
            2 => t.push_str(&format!("{}{}", r.pick(&SEPS), r.below(3))),
            3 => {
                if let Some(i) = t.rfind(['.', '-', '_']) {
                    t.truncate(i);
                }
            }
            4 => {
                if let Some(i) = t.rfind(['.', '-', '_', '!']) {
                    t.truncate(i + 1);
                    let v = r.below(13);
                    t.push_str(&dict::num(r, 3, 2147483647).unwrap_or(v).to_string());
                }
            }
            _ => {
                if let Some(i) = t.find('!') {
                    if r.chance(1, 2) {
                        t = t[i + 1..].to_string();
                    } else {
                        t = format!("{}!{}", r.range(1, 300), &t[i + 1..]);
                    }
                } else if r.chance(1, 3) {
                    t = format!("{}!{}", r.range(1, 300), t);
                }
            }
        }
    }
    t
}

const TAGS: [&str; 22] = [
    "a", "b", "rc", "alpha", "beta", "dev", "post", "pre", "c", "A", "RC", "Beta", "DEV", "POST", "z", "g1abc", "x", "p",
    "final", "ab", "ba", "Z",
];

/// A word made of letters and digits only, as may stand inside a version.
fn alnum(w: &str) -> bool {
    !w.is_empty() && w.bytes().all(|c| c.is_ascii_alphanumeric())
}

/// A version text the parser accepts.
pub fn version(r: &mut Rng) -> String {
    let mut s = numeric(r);
    if let Some(w) = dict::word(r, 6) {
        if alnum(&w) {
            match r.below(4) {
                0 => s.push_str(&w),
                1 => s.push_str(&format!("{}{}", w, r.below(12))),
                2 => s.push_str(&format!("{}{}{}", r.pick(&SEPS), w, r.below(3))),
                _ => s.push_str(&format!("+{}", w)),
            }
            return s;
        }
    }
    match r.below(10) {
        0 | 1 => {}
        2 => s.push_str(*r.pick(&TAGS)),
        3 => s.push_str(&format!("{}{}", r.pick(&TAGS), r.below(12))),
        4 => s.push_str(&format!(".{}{}", r.pick(&TAGS), r.below(12))),
        5 => s.push_str(&format!("{}{}{}", r.pick(&SEPS), r.pick(&TAGS), r.below(3))),
        6 => s.push_str(&format!("+{}", r.pick(&["local", "abc.1", "1", "0", "LOCAL", "ubuntu-1"]))),
        7 => s.push_str(".0"),
        8 => s.push_str(&format!("{}{}.{}{}", r.pick(&TAGS), r.below(3), r.pick(&TAGS), r.below(3))),
        _ => s.push_str(&format!("_{}", r.pick(&TAGS))),
    }
    s
}

/// A text close to `t`: likely to be confused with it by anything that keys on less than the text.
pub fn near(r: &mut Rng, t: &str) -> String {
    let cs: Vec<char> = t.chars().collect();
    if cs.is_empty() {
        return " ".into();
    }
    if let Some(w) = dict::word(r, 8) {
        return match r.below(3) {
            0 => format!("{}{}", t, w),
            1 => format!("{}{}", w, t),
            _ => {
                let i = r.below(cs.len() as u64 + 1) as usize;
                cs[..i].iter().cloned().chain(w.chars()).chain(cs[i..].iter().cloned()).collect()
            }
        };
    }
    if let Some(n) = dict::num(r, 10, 300) {
        return stretch(r, t, n as usize);
    }
    match r.below(17) {
        14 | 15 => {
            // the case of one letter, or of all of one letter
            let ls: Vec<usize> = (0..cs.len()).filter(|i| cs[*i].is_alphabetic()).collect();
            if ls.is_empty() {
                return format!("{}{}", t, r.pick(&["rc1", "I", "i", "DEV", "Post"]));
            }
            let i = *r.pick(&ls);
            let all = r.chance(1, 2);
            if r.chance(1, 3) {
                // letters that are the same when case is ignored, though not in length
                let with = match cs[i].to_ascii_lowercase() {
                    's' => *r.pick(&["\u{17f}", "ß", "ẞ", "ss"]),
                    'k' => "\u{212a}",
                    'f' => "\u{fb00}",
                    'å' => "\u{212b}",
                    'ß' => "ss",
                    'i' => *r.pick(&["\u{130}", "\u{131}", "i\u{307}"]),
                    't' => "\u{fb06}",
                    _ => *r.pick(&["ß", "s", "\u{17f}t", "k", "\u{390}", "\u{1fb3}"]),
                };
                return cs.iter().enumerate().map(|(k, c)| if k == i { with.to_string() } else { c.to_string() }).collect();
            }
            let other = |c: char| -> String { if c.is_uppercase() { c.to_lowercase().collect() } else { c.to_uppercase().collect() } };
            cs.iter().enumerate().map(|(k, c)| if k == i || all && *c == cs[i] { other(*c) } else { c.to_string() }).collect()
        }
        0 => format!("{}.0", t),
        1 => t.to_uppercase(),
        2 => t.to_lowercase(),
        3 => t.replace('.', "-"),
        4 => t.replace('.', "_"),
        5 => format!("{} ", t),
        6 => format!(" {}", t),
        7 => cs.iter().rev().collect(),
        8 => {
            let mut c = cs.clone();
            let (i, j) = (r.below(c.len() as u64) as usize, r.below(c.len() as u64) as usize);
            c.swap(i, j);
            c.into_iter().collect()
        }
        9 => {
            let mut c = cs.clone();
            let i = r.below(c.len() as u64) as usize;
            c[i] = *r.pick(&['0', '1', '9', 'a', 'A', '.', 'z']);
            c.into_iter().collect()
        }
        10 => t.trim_end_matches('0').trim_end_matches('.').to_string(),
        11 => {
            // same long prefix, different end
            let mut p = t.to_string();
            while p.len() < 70 {
                p.push_str(".1");
            }
            format!("{}.{}", p, r.below(4))
        }
        12 => format!("{}{}", t, r.pick(&["a", "b", "dev", "post", "1", "0", "+1"])),
        13 => {
            // same head and tail, different middle
            let mut p = t.to_string();
            p.push('.');
            p.push_str(&r.below(100).to_string());
            p.push_str(".7.7.7.7.7.7");
            p
        }
        _ => format!("1!{}", t.split('!').last().unwrap_or("")),
    }
}

/// `t` made exactly `n` bytes long (unless it is longer).
pub fn stretch(r: &mut Rng, t: &str, n: usize) -> String {
    let mut s = t.to_string();
    while s.len() + 1 < n {
        s.push_str(".1");
    }
    while s.len() < n {
        s.push_str(*r.pick(&["0", "1", "7"]));
    }
    s
}

const ODD: [&str; 40] = [
    "", " ", "!", "+", "1!", "!1", "a!1.0", "1!2!3", "1+2+3", "-1!1.0", "99999!1", "32768!1", "1!+", "+!", "..", "-", "_", "1..2",
    "1.0 ", "1.0\n", "1.0\t.2", "é", "1.é.2", "１.２", "١.٢", "1.0\u{0}", "\u{feff}1.0", "𝟙.0", "1.0𝄞", "99999999999", "2147483648",
    "1.2147483648.3", "00000000000000000001", "+1!1.0", " 1!1.0", "1 !1", "1.0!2", "0x1!1", "1e3!1", "dev!1.0",
];

/// Any text at all: accepted or not.
pub fn any_version(r: &mut Rng) -> String {
    match r.below(8) {
        0 => r.pick(&ODD).to_string(),
        1 => {
            let v = version(r);
            corrupt(r, &v)
        }
        2 => {
            let v = version(r);
            near(r, &v)
        }
        3 => {
            let n = r.range(40, 400);
            let n = dict::num(r, 3, 5000).unwrap_or(n);
            (0..n).map(|_| *r.pick(&['1', '.', 'a', '0', '-'])).collect()
        }
        _ => version(r),
    }
}

const NASTY: [&str; 44] = [
    "!", "+", "*", "^", "$", "(", ")", "|", ",", ".", "-", "_", "=", "<", ">", "~", "@", "\\", "[", "]", "{", "}", "?", "#", " ",
    "\t", "\n", "\r", "\u{0}", "é", "β", "中", "𝄞", "\u{a0}", "\u{feff}", "\u{200b}", "'", "\"", ":", ";", "/", "%", "0", "a",
];

/// What storage damage can make of a text that is still text.
pub fn corrupt(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 3) {
        let n = c.len() as u64;
        let i = r.below(n + 1) as usize;
        if let Some(w) = dict::word(r, 8) {
            for (k, ch) in w.chars().enumerate() {
                if i + k < c.len() && n % 2 == 0 {
                    c[i + k] = ch;
                } else {
                    c.insert((i + k).min(c.len()), ch);
                }
            }
            continue;
        }
        match r.below(9) {
            0 => c.truncate(i),
            1 => {
                c.drain(..i.min(c.len()));
            }
            2 | 3 => {
                if i < c.len() {
                    c[i] = r.pick(&NASTY).chars().next().unwrap();
                }
            }
            4 => {
                let x: Vec<char> = r.pick(&NASTY).chars().collect();
                for (k, ch) in x.into_iter().enumerate() {
                    c.insert(i + k, ch);
                }
            }
            5 => {
                if i < c.len() {
                    c.remove(i);
                }
            }
            6 => {
                // one flipped bit of an ASCII character
                if i < c.len() && c[i].is_ascii() {
                    c[i] = ((c[i] as u8) ^ (1 << r.below(7))) as char;
                }
            }
            7 => {
                let j = (i + r.below(8) as usize).min(c.len());
                let piece: Vec<char> = c[i.min(c.len())..j].to_vec();
                let at = r.below(c.len() as u64 + 1) as usize;
                for (k, ch) in piece.into_iter().enumerate() {
                    c.insert(at + k, ch);
                }
            }
            _ => {
                if c.len() > 1 {
                    let j = r.below(c.len() as u64) as usize;
                    let i = i.min(c.len() - 1);
                    c.swap(i, j);
                }
            }
        }
    }
    c.into_iter().collect()
}

pub const SIGNS: [&str; 9] = ["", "==", "!=", "<", "<=", ">", ">=", "=", "~="];

/// One well-formed constraint.
pub fn term(r: &mut Rng) -> String {
    let v = match r.below(4) {
        0 => version(r),
        _ => numeric(r),
    };
    let v = match dict::num(r, 30, 300) {
        Some(n) => stretch(r, &v, n as usize),
        None => v,
    };
    match r.below(12) {
        0 => "*".into(),
        1 => format!("{}.*", v),
        2 => format!("{}*", v),
        3 => format!("^{}$", v.replace('.', r"\.").replace('+', r"\+")),
        4 => format!("^[0-{}].*$", r.range(1, 9)),
        5 => format!("{}.*.{}", r.below(4), r.below(4)),
        6 => format!("{}@b{}", v, r.below(3)),
        7 => format!("!={}.*", v),
        8 => format!("={}", v),
        _ => format!("{}{}", r.pick(&["==", "!=", "<", "<=", ">", ">=", "", ">=", "<"]), v),
    }
}

/// A well-formed constraint expression.
pub fn expr(r: &mut Rng, depth: u32) -> String {
    if depth == 0 || r.chance(1, 3) {
        return term(r);
    }
    let n = r.range(2, 4);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(*r.pick(&[",", "|", ",", "|", ", ", " |", " , "]));
        }
        let e = expr(r, depth - 1);
        if r.chance(1, 3) {
            s.push_str(&format!("({})", e));
        } else {
            s.push_str(&e);
        }
    }
    s
}

const BAD_SPECS: [&str; 78] = [
    "", " ", "(", ")", "()", "(())", ",", "|", ",,", "||", "1.5||1.6", "1.5,,1.6", "(1.5", "1.5)", "^", "$", "^$", "^1.5", "1.5$", "^(1.5$",
    "^[1$", "^*$", "^a{99999}$", "^(a{1000}){1000}$", "^\\$", "^(?P<n>1)$", "^(?=1)$", "^1$|", "|^1$", "!", "~", "=", "<", ">", "!!", "~~", "==",
    "!=", "<=", ">=", "~=", "!1", "~1", "~1.0", "!1.0", "!=.*", "==.*", "=.*", "~=1.*", "===1", ">>1", "<>1", ">=1!2!3", "==a!1", ">a!1", "a!1", "a!1*", "1!2!3",
    "1+2+3", "1+2+3*", "*.*", "**", "***", "1.*.*", "1*2(", "é", "é.*", "=é", "^é$", "1.é*", "(é|1)", "1.[*.2", "1.(*.2", "@", "1@", "@1", "!=startswith1",
    ">= 1.0",
];

/// One of the pieces constraint texts are made of.
fn token(r: &mut Rng) -> String {
    if let Some(w) = dict::word(r, 4) {
        return w;
    }
    match r.below(10) {
        0 | 1 => r.pick(&SIGNS).to_string(),
        2 => r.pick(&TAGS).to_string(),
        3 => ((b'a' + r.below(26) as u8) as char).to_string(),
        4 => ((b'A' + r.below(26) as u8) as char).to_string(),
        5 => r.below(20).to_string(),
        6 => r.pick(&SEPS).to_string(),
        7 => numeric(r),
        _ => r.pick(&NASTY).to_string(),
    }
}

/// The same text with one to three of its characters overwritten, as long as before.
pub fn overwrite(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 3) {
        if c.is_empty() {
            break;
        }
        // rather structure than digits
        let marks: Vec<usize> = (0..c.len()).filter(|&i| !c[i].is_ascii_alphanumeric()).collect();
        let i = if !marks.is_empty() && r.chance(2, 3) { *r.pick(&marks) } else { r.below(c.len() as u64) as usize };
        c[i] = *r.pick(&['!', '!', '+', '+', '(', ')', '|', ',', '*', '^', '$', '.', '=', '~', '\\', '[', '0', 'x', ' ', '\0']);
    }
    c.into_iter().collect()
}

/// A large number: as wide as the integer types and the amounts of memory there are.
pub fn grown(r: &mut Rng) -> String {
    match r.below(5) {
        0 => r.pick(&["255", "32767", "65535", "2147483647", "4294967295", "9223372036854775807", "18446744073709551615"]).to_string(),
        1 => (1u64 << r.range(8, 63)).to_string(),
        2 => format!("{}{}", r.range(1, 9), "0".repeat(r.range(3, 18) as usize)),
        3 => (r.next() >> r.range(1, 50)).to_string(),
        _ => r.log(2_000_000_000).to_string(),
    }
}

/// The text with one or two of its numbers grown.
pub fn with_grown(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 2) {
        let starts: Vec<usize> = (0..c.len()).filter(|&i| c[i].is_ascii_digit() && (i == 0 || !c[i - 1].is_ascii_digit())).collect();
        let new: Vec<char> = grown(r).chars().collect();
        if starts.is_empty() {
            let at = r.below(c.len() as u64 + 1) as usize;
            c.splice(at..at, new);
        } else {
            let s = *r.pick(&starts);
            let e = (s..c.len()).find(|&k| !c[k].is_ascii_digit()).unwrap_or(c.len());
            c.splice(s..e, new);
        }
    }
    c.into_iter().collect()
}

/// Constraint text as damaged storage may hold it.
pub fn bad_spec(r: &mut Rng) -> String {
    let s = bad_spec_any(r);
    if s.len() > 4000 {
        return s.chars().take(1000).collect();
    }
    s
}

fn bad_spec_any(r: &mut Rng) -> String {
    match r.below(13) {
        10 => {
            let n = r.range(1, 7);
            (0..n).map(|_| token(r)).collect()
        }
        11 => {
            // an operator, a short run of letters, something that is not ASCII
            let mut s = r.pick(&SIGNS).to_string();
            for _ in 0..r.below(3) {
                s.push((if r.chance(3, 4) { b'a' } else { b'A' } + r.below(26) as u8) as char);
            }
            s.push_str(*r.pick(&["é", "β", "中", "𝄞", "\u{a0}", "\u{feff}", "İ", "ß", "ſ", "K", "٣", "ǆ"]));
            if r.chance(1, 2) {
                s.push_str(&token(r));
            }
            s
        }
        12 => {
            let e = expr(r, 2);
            overwrite(r, &e)
        }
        0 | 1 => r.pick(&BAD_SPECS).to_string(),
        2 => {
            let e = expr(r, 2);
            let b = r.pick(&BAD_SPECS).to_string();
            match r.below(4) {
                0 => format!("{},{}", e, b),
                1 => format!("{}|{}", b, e),
                2 => format!("({})|({})", e, b),
                _ => format!("{}{}", e, b),
            }
        }
        3 => {
            let t = term(r);
            corrupt(r, &t)
        }
        4 => {
            let n = r.range(1, 14);
            (0..n).map(|_| *r.pick(&NASTY)).collect::<Vec<_>>().concat()
        }
        5 => {
            let o = r.below(60);
            let o = dict::num(r, 3, 200).unwrap_or(o) as usize;
            let e = expr(r, 1);
            match r.below(4) {
                0 => format!("{}{}", "(".repeat(o), e),
                1 => format!("{}{}", e, ")".repeat(o)),
                2 => format!("{}{}{}", "(".repeat(o), e, ")".repeat(o)),
                _ => {
                    let mut s = e;
                    for i in 0..o {
                        s = format!("({}{}{})", s, if i % 2 == 0 { "," } else { "|" }, i);
                    }
                    s
                }
            }
        }
        6 => {
            // two texts run together, as after a torn write
            let (a, b) = (expr(r, 2), expr(r, 2));
            let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
            let i = r.below(a.len() as u64 + 1) as usize;
            let j = r.below(b.len() as u64 + 1) as usize;
            a[..i].iter().chain(b[j..].iter()).collect()
        }
        7 => {
            let e = expr(r, 2);
            let n = r.range(1, 40);
            let n = dict::num(r, 3, 400).unwrap_or(n) as usize;
            e.repeat(n)
        }
        _ => {
            let e = expr(r, 2);
            corrupt(r, &e)
        }
    }
}

pub fn odd_text(r: &mut Rng) -> String {
    if let Some(w) = dict::word(r, 6) {
        return match r.below(3) {
            0 => w,
            1 => format!("{}{}", w, numeric(r)),
            _ => format!("{}{}", version(r), w),
        };
    }
    match r.below(5) {
        0 => r.pick(&ODD).to_string(),
        1 => r.pick(&NASTY).to_string(),
        2 => {
            let n = r.range(0, 30);
            (0..n).map(|_| *r.pick(&NASTY)).collect::<Vec<_>>().concat()
        }
        3 => {
            let n = r.log(5000);
            "x".repeat(dict::num(r, 3, 5000).unwrap_or(n) as usize)
        }
        _ => any_version(r),
    }
}

/// A long version text of one shape, as nothing sensible writes but storage may hold.
pub fn long_version(r: &mut Rng) -> String {
    let n = match r.below(3) {
        0 => r.log(200),
        1 => r.log(2000),
        _ => r.log(20_000),
    };
    let n = dict::num(r, 3, 20_000).unwrap_or(n) as usize + 1;
    let unit = *r.pick(&["1", ".", "1.", "a", "1a", "0", "9", "-", "_", "!", "+", "é", "1é", " ", "a.1", "post", "dev.", "1.0+", "中1", "\u{0}", "中", "𝄞", "é𝄞", "zé", "\u{301}"]);
    let mut s = unit.repeat(n / unit.len() + 1);
    if r.chance(1, 2) {
        // characters at every alignment
        s.insert_str(0, &"xyz"[..r.below(4) as usize]);
    }
    match r.below(9) {
        8 => {
            // first one thing for long, then another
            let other = *r.pick(&["1.", "a1", ".", "0", "1", "a", "_", "é", "x.", " "]);
            s = format!("{}{}", other.repeat(n / other.len() + 1), s)
        }
        6 => s = format!("1.0.{}", s),
        7 => s = format!("{}{}", version(r), s),
        0 => s.push_str("!1"),
        1 => s = format!("1!{}", s),
        2 => s.push_str("+x"),
        3 => s = format!("1.0+{}", s),
        4 => s.push_str(*r.pick(&NASTY)),
        _ => {}
    }
    s
}
