//! Index documents: a model, its encodings as JSON, and storage damage to the encoded bytes.
use crate::dict::{self, Dict};
use crate::json::{Index, Rec};
use crate::rng::{hash, Rng};
use crate::texts;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct DocP {
    pub seed: u64,
    pub n_pk: u32,
    pub n_pkc: u32,
    pub n_removed: u32,
    /// bits: 1 indent, 2 no white space, 4 escapes everywhere, 8 some escapes, 16 multi-byte text,
    /// 32 shuffled fields, 64 unknown fields, 128 numeric versions only, 256 odd strings,
    /// 512 unknown values of every legal form, 1024 files named after what they hold
    pub style: u32,
    /// Another content of the same length: one number is changed.
    #[serde(default)]
    pub twist: u32,
    /// Encoded length to pad to with white space (0: none).
    pub pad: u32,
    /// Literals of the library's source that occur in this document.
    #[serde(default, skip_serializing_if = "Dict::is_empty")]
    pub dict: Dict,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Dmg {
    pub kind: u32,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sp {
    Version,
    Str,
    Num,
    Key,
    Record,
}

pub struct Enc {
    pub out: Vec<u8>,
    pub spans: Vec<(Sp, usize, usize)>,
    r: Rng,
    style: u32,
    depth: usize,
}

const WORDS: [&str; 16] = [
    "numpy", "python", "openssl", "libcurl", "zlib", "ca-certificates", "vc", "ucrt", "tk", "sqlite", "r-base", "_libgcc_mutex", "xz",
    "pip", "m2w64-gcc-libs", "blas",
];

const MULTI: [&str; 10] = ["é", "ß", "β", "中文", "日本", "𝄞", "😀", "Ω", "ñandú", "ключ"];
const ODDCH: [&str; 14] = ["\"", "\\", "/", "\n", "\t", "\r", "\u{8}", "\u{c}", "\u{1}", "\u{1f}", "\u{7f}", "\u{2028}", "\u{fffd}", "\u{feff}"];

fn word(r: &mut Rng, style: u32) -> String {
    let mut s = r.pick(&WORDS).to_string();
    if let Some(w) = dict::word(r, 5) {
        match r.below(3) {
            0 => s = w,
            1 => s.push_str(&w),
            _ => s.insert_str(0, &w),
        }
    }
    if let Some(n) = dict::num(r, 10, 70_000) {
        // few of the longest
        let n = if n > 5000 && !r.chance(1, 10) { 40 } else { n as usize };
        while s.len() < n {
            s.push((b'a' + (s.len() % 26) as u8) as char);
        }
    }
    if style & 16 != 0 && r.chance(1, 2) {
        s.push_str(*r.pick(&MULTI));
        if r.chance(1, 2) {
            s.push_str(*r.pick(&MULTI));
        }
    }
    if style & 256 != 0 && r.chance(1, 2) {
        s.push_str(*r.pick(&ODDCH));
        s.push_str(&r.below(10).to_string());
    }
    if style & 256 != 0 && r.chance(1, 16) {
        return String::new();
    }
    if style & 256 != 0 {
        match r.below(10) {
            0 => s = format!("{}{}", s, r.pick(&[" ", "  ", "\n", "\t", "\u{a0}", "\u{3000}"])),
            1 => s = format!("{}{}", r.pick(&[" ", "\n", "\u{feff}", "\u{2003}"]), s),
            2 => s = s.to_uppercase(),
            3 => s = s.replace('-', "_"),
            4 => s = r.pick(&["null", "NaN", "None", "true", "0", "-1", "1e3", "{}", "[]", "\"\"", "\u{0}", "e\u{301}", "\u{212b}", "ﬁ"]).to_string(),
            _ => {}
        }
    }
    s
}

fn big(r: &mut Rng) -> u64 {
    if let Some(n) = dict::num(r, 4, u64::MAX) {
        return n;
    }
    match r.below(6) {
        0 => 0,
        1 => *r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 53, (1 << 53) + 1, 1 << 32, u32::MAX as u64, 10000000000000000000]),
        2 => r.next(),
        3 => r.below(256),
        _ => 1_500_000_000_000 + r.below(1 << 36),
    }
}

fn hex(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| *r.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f'])).collect()
}

fn record(r: &mut Rng, style: u32, base: &str) -> Rec {
    let nd = r.small(5);
    let nd = dict::num(r, 30, 300).unwrap_or(nd);
    let bn = dict::num(r, 4, 65535);
    let mut rec = Rec {
        build: if style & 256 != 0 && r.chance(1, 4) { word(r, style) } else { format!("py{}{}_{}", r.range(2, 3), r.below(9), word(r, style)) },
        build_number: match r.below(4) {
            _ if bn.is_some() => bn.unwrap(),
            0 => 0,
            1 => *r.pick(&[255u64, 256, 32767, 32768, 65534, 65535]),
            _ => r.below(1200),
        },
        depends: (0..nd)
            .map(|_| match r.below(4) {
                0 => word(r, style),
                _ => format!("{} {}", word(r, style), texts::expr(r, 1)),
            })
            .collect(),
        md5: hex(r, 32),
        name: word(r, style),
        sha256: hex(r, 64),
        size: big(r),
        timestamp: big(r),
        version: if style & 128 != 0 {
            texts::numeric_near(r, base)
        } else if style & 16 != 0 && r.chance(1, 4) {
            let v = texts::numeric(r);
            format!("{}{}", v, r.pick(&MULTI))
        } else {
            let v = texts::version(r);
            if style & 256 != 0 && r.chance(1, 6) {
                format!("{}{}", v, r.pick(&ODDCH))
            } else {
                v
            }
        },
    };
    if style & 256 != 0 {
        // sums that are not sums, dependencies given twice or out of order
        if r.chance(1, 8) {
            rec.md5 = if r.chance(1, 2) { rec.md5.to_uppercase() } else { word(r, style) };
        }
        if r.chance(1, 8) {
            rec.sha256 = if r.chance(1, 2) { rec.sha256.to_uppercase() } else { word(r, style) };
        }
        if rec.depends.len() > 0 && r.chance(1, 6) {
            let x = r.pick(&rec.depends).clone();
            rec.depends.push(x);
        }
    }
    rec
}

impl DocP {
    pub fn random(r: &mut Rng, max_records: u64) -> DocP {
        let d = dict::some(r);
        let total = match r.below(10) {
            _ if !d.nums.is_empty() && r.chance(1, 20) => dict::with(&d, || dict::num(r, 1, (max_records * 20).min(2600)).unwrap_or(1)),
            0 => 0,
            1..=6 => r.log(max_records.min(12).max(1)),
            _ => r.log(max_records),
        };
        let a = r.below(total + 1);
        let mut style = 0;
        for b in [0, 1, 2, 3, 4, 5, 6, 8, 10] {
            if r.chance(1, 3) {
                style |= 1 << b;
            }
        }
        let mut n_removed = r.small(5) as u32;
        let mut pad = 0;
        if !d.nums.is_empty() {
            dict::with(&d, || {
                if let Some(n) = dict::num(r, 12, 3000) {
                    n_removed = n as u32;
                }
                if let Some(n) = dict::num(r, 6, 300_000) {
                    pad = n as u32;
                }
            });
        } else if r.chance(1, 12) {
            // lengths at and around the sizes of buffers
            pad = (512u32 << r.below(9)) + r.below(5) as u32 - 2;
        }
        DocP { seed: r.next() >> 8, n_pk: a as u32, n_pkc: (total - a) as u32, n_removed, style, pad, dict: d, twist: 0 }
    }

    pub fn model(&self) -> Index {
        dict::with(&self.dict, || self.model_in())
    }

    pub fn encode(&self) -> Enc {
        dict::with(&self.dict, || self.encode_in())
    }

    fn model_in(&self) -> Index {
        let base = texts::numeric(&mut Rng(hash(&[self.seed, 9])));
        let sec = |which: u64, n: u32, ext: &str| -> Vec<(String, Vec<Rec>)> {
            let mut v: Vec<(String, Vec<Rec>)> = (0..n)
                .map(|i| {
                    let mut r = Rng(hash(&[self.seed, which, i as u64]));
                    let mut x = record(&mut r, self.style, &base);
                    if self.style & 1024 != 0 {
                        // files named after what they hold, as in a real channel; some packages in both forms
                        let mut q = Rng(hash(&[self.seed, 1, i as u64]));
                        let y = record(&mut q, self.style, &base);
                        let mut s = Rng(hash(&[self.seed, 5, i as u64 / 4]));
                        let name = word(&mut s, self.style & !256);
                        let few = texts::numeric_near(&mut s, &base);
                        if which == 1 || i < self.n_pk && r.chance(1, 2) {
                            x.version = if q.chance(1, 2) { few } else { y.version };
                            x.build = format!("{}_{}", if q.chance(1, 2) { "py36".to_string() } else { y.build }, i);
                        } else {
                            x.version = if r.chance(1, 2) { few } else { x.version };
                            x.build = format!("h{}_{}", hex(&mut r, 7), i);
                        }
                        if r.chance(1, 3) {
                            x.build_number = i as u64;
                        }
                        x.name = name;
                        let ext = match r.below(24) {
                            0 => ".conda",
                            1 => ".tar.bz2",
                            _ => ext,
                        };
                        return (format!("{}-{}-{}{}", x.name, x.version, x.build, ext), vec![x]);
                    }
                    let stem = if self.style & 256 != 0 { x.name.clone() } else { r.pick(&WORDS).to_string() };
                    (format!("{}-{}-{}{}", stem, i, x.build, ext), vec![x])
                })
                .collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            v
        };
        let mut r = Rng(hash(&[self.seed, 3]));
        let mut m = Index {
            subdir: if self.style & (16 | 256) != 0 { word(&mut r, self.style) } else { r.pick(&["win-64", "linux-64", "noarch", "osx-64"]).to_string() },
            packages: sec(1, self.n_pk, ".tar.bz2"),
            packages_conda: sec(2, self.n_pkc, ".conda"),
            removed: (0..self.n_removed).map(|i| format!("{}-{}.tar.bz2", word(&mut r, self.style), i)).collect(),
            repodata_version: match r.below(4) {
                0 => *r.pick(&[0u64, 2, 255, 127, 128]),
                _ => 1,
            },
        };
        if self.style & 256 != 0 {
            // what is removed is listed all the same, or listed as removed twice; one record under two names
            let mut r = Rng(hash(&[self.seed, 4]));
            for i in 0..m.removed.len() {
                match r.below(6) {
                    0 if !m.packages.is_empty() => m.removed[i] = r.pick(&m.packages).0.clone(),
                    1 => m.removed[i] = r.pick(&m.removed).clone(),
                    2 => m.removed[i] = String::new(),
                    _ => {}
                }
            }
            if r.chance(1, 3) && !m.packages.is_empty() && !m.packages_conda.is_empty() {
                let x = r.pick(&m.packages).1.clone();
                let k = r.below(m.packages_conda.len() as u64) as usize;
                m.packages_conda[k].1 = x;
            }
        }
        if self.style & 1024 != 0 {
            // what was removed is in one of the sections in another form
            let mut r = Rng(hash(&[self.seed, 6]));
            for i in 0..m.removed.len() {
                if r.chance(1, 3) && !m.packages_conda.is_empty() {
                    m.removed[i] = r.pick(&m.packages_conda).0.replace(".conda", ".tar.bz2");
                }
            }
        }
        if self.twist > 0 {
            let mut r = Rng(hash(&[self.seed, self.twist as u64, 77]));
            let step = |v: u64| if v % 10 == 0 { v + 1 } else { v - 1 };
            let (a, b) = (m.packages.len() as u64, m.packages_conda.len() as u64);
            let k = match r.below(4) {
                0 => a + b,
                1 => (a + b).saturating_sub(1),
                _ => r.below(a + b + 1),
            };
            let x = if k < a { m.packages.get_mut(k as usize) } else { m.packages_conda.get_mut((k - a) as usize) };
            match x {
                Some((_, v)) => match r.below(3) {
                    0 => v[0].build_number = step(v[0].build_number),
                    1 => v[0].size = step(v[0].size),
                    _ => v[0].timestamp = step(v[0].timestamp),
                },
                None => m.repodata_version = step(m.repodata_version),
            }
        }
        m
    }

    fn encode_in(&self) -> Enc {
        let m = self.model();
        let mut e = Enc { out: vec![], spans: vec![], r: Rng(hash(&[self.seed, 4])), style: self.style, depth: 0 };
        e.index(&m);
        let want = self.pad as usize;
        if e.out.len() < want {
            // white space before the last brace, so that a cut anywhere is still a cut
            let last = e.out.pop().unwrap();
            e.out.resize(want - 1, b' ');
            e.out.push(last);
        }
        e
    }
}

impl Enc {
    fn ws(&mut self) {
        if self.style & 2 != 0 {
            return;
        }
        if self.style & 1 != 0 {
            self.out.push(b'\n');
            for _ in 0..self.depth {
                self.out.extend_from_slice(b"  ");
            }
        } else if self.r.chance(1, 3) {
            let w = *self.r.pick(&[&b" "[..], b"  ", b"\t", b"\r\n", b"\n"]);
            self.out.extend_from_slice(w);
        }
    }

    fn uesc(&mut self, c: char) {
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
            let s = if self.r.chance(1, 2) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) };
            self.out.extend_from_slice(s.as_bytes());
        }
    }

    fn str(&mut self, s: &str, sp: Sp) {
        self.out.push(b'"');
        let start = self.out.len();
        for c in s.chars() {
            let p = if self.style & 4 != 0 {
                2
            } else if self.style & 8 != 0 {
                20
            } else {
                0
            };
            if p > 0 && self.r.chance(1, p) {
                if c == '/' && self.r.chance(1, 2) {
                    self.out.extend_from_slice(b"\\/");
                } else {
                    self.uesc(c);
                }
                continue;
            }
            match c {
                '"' => self.out.extend_from_slice(b"\\\""),
                '\\' => self.out.extend_from_slice(b"\\\\"),
                '\n' => self.out.extend_from_slice(b"\\n"),
                '\r' => self.out.extend_from_slice(b"\\r"),
                '\t' => self.out.extend_from_slice(b"\\t"),
                '\u{8}' => self.out.extend_from_slice(b"\\b"),
                '\u{c}' => self.out.extend_from_slice(b"\\f"),
                c if (c as u32) < 0x20 => self.uesc(c),
                c => {
                    let mut t = [0u8; 4];
                    self.out.extend_from_slice(c.encode_utf8(&mut t).as_bytes())
                }
            }
        }
        self.spans.push((sp, start, self.out.len()));
        self.out.push(b'"');
    }

    fn num(&mut self, n: u64) {
        let s = self.out.len();
        self.out.extend_from_slice(n.to_string().as_bytes());
        self.spans.push((Sp::Num, s, self.out.len()));
    }

    fn strs(&mut self, v: &[String]) {
        self.out.push(b'[');
        self.depth += 1;
        for (i, s) in v.iter().enumerate() {
            if i > 0 {
                self.out.push(b',');
            }
            self.ws();
            self.str(s, Sp::Str);
        }
        self.depth -= 1;
        self.ws();
        self.out.push(b']');
    }

    fn unknown_value(&mut self, depth: u32) {
        if let Some(w) = dict::word(&mut self.r, 4) {
            return self.str(&w, Sp::Str);
        }
        if self.style & 512 != 0 && self.r.chance(1, 3) {
            return match self.r.below(8) {
                0 => self.out.extend_from_slice(b"1e999"),
                1 => self.out.extend_from_slice(b"-17.50E+4000"),
                2 => self.out.extend_from_slice(b"0.0E-99999"),
                3 => self.out.extend_from_slice(b"-0"),
                4 => self.out.extend_from_slice(b"false"),
                5 => {
                    let n = self.r.range(5, 60) as usize;
                    self.out.extend(std::iter::repeat(b'[').take(n));
                    self.out.extend(std::iter::repeat(b']').take(n));
                }
                6 => {
                    let n = self.r.log(3000) as usize;
                    let w: String = std::iter::repeat("long} \"").take(n / 7 + 1).collect();
                    self.str(&w, Sp::Str)
                }
                _ => self.out.extend_from_slice(b"[1e400,{\"a\":-0.0e-0,\"a\":18446744073709551616}]"),
            };
        }
        match self.r.below(if depth == 0 { 7 } else { 9 }) {
            0 => self.out.extend_from_slice(b"null"),
            1 => self.out.extend_from_slice(b"true"),
            2 => self.out.extend_from_slice(b"-1.25e-3"),
            3 => self.out.extend_from_slice(b"123456789012345678901234567890"),
            4 => self.str("x\"y\\z 中", Sp::Str),
            5 => self.out.extend_from_slice(b"[]"),
            6 => self.out.extend_from_slice(b"{}"),
            7 => {
                self.out.push(b'[');
                for i in 0..3 {
                    if i > 0 {
                        self.out.push(b',');
                    }
                    self.ws();
                    self.unknown_value(depth - 1);
                }
                self.out.push(b']');
            }
            _ => {
                self.out.push(b'{');
                for (i, k) in ["version", "packages", "u"].iter().enumerate() {
                    if i > 0 {
                        self.out.push(b',');
                    }
                    self.ws();
                    self.str(k, Sp::Str);
                    self.out.push(b':');
                    self.ws();
                    self.unknown_value(depth - 1);
                }
                self.out.push(b'}');
            }
        }
    }

    /// Writes an object whose members are produced by `f(self, i)`.
    fn obj(&mut self, names: &[&str], mut f: impl FnMut(&mut Enc, usize)) {
        let own = if self.style & 64 != 0 { dict::word(&mut self.r, 3) } else { None };
        let mut order: Vec<usize> = (0..names.len()).collect();
        if self.style & 32 != 0 {
            for i in (1..order.len()).rev() {
                let j = self.r.below(i as u64 + 1) as usize;
                order.swap(i, j);
            }
        }
        let mut extra: Vec<&str> = vec![];
        if self.style & 64 != 0 {
            for n in ["license", "license_family", "arch", "platform", "track_features", "constrains", "legacy_bz2_md5", "Version", "é", "x-\u{1}"] {
                if self.r.chance(1, 4) && !names.contains(&n) {
                    extra.push(n);
                }
            }
        }
        if let Some(w) = &own {
            if !names.contains(&w.as_str()) && !extra.contains(&w.as_str()) {
                extra.push(w);
            }
        }
        self.out.push(b'{');
        self.depth += 1;
        let n = order.len();
        let mut slots: Vec<Result<usize, &str>> = order.into_iter().map(Ok).collect();
        for x in extra {
            let at = self.r.below(n as u64 + 1) as usize;
            slots.insert(at, Err(x));
        }
        for (k, s) in slots.into_iter().enumerate() {
            if k > 0 {
                self.out.push(b',');
            }
            self.ws();
            match s {
                Ok(i) => {
                    self.str(names[i], Sp::Key);
                    self.colon();
                    f(self, i);
                }
                Err(x) => {
                    self.str(x, Sp::Key);
                    self.colon();
                    self.unknown_value(3);
                }
            }
        }
        self.depth -= 1;
        self.ws();
        self.out.push(b'}');
    }

    fn colon(&mut self) {
        if self.style & 2 == 0 && self.r.chance(1, 6) {
            self.out.push(b' ');
        }
        self.out.push(b':');
        if self.style & 2 == 0 {
            self.out.push(b' ');
        }
    }

    fn section(&mut self, v: &[(String, Vec<Rec>)]) {
        self.out.push(b'{');
        self.depth += 1;
        let mut order: Vec<usize> = (0..v.len()).collect();
        if self.style & 32 != 0 {
            for i in (1..order.len()).rev() {
                let j = self.r.below(i as u64 + 1) as usize;
                order.swap(i, j);
            }
        }
        for (k, i) in order.into_iter().enumerate() {
            if k > 0 {
                self.out.push(b',');
            }
            self.ws();
            let (name, recs) = &v[i];
            let x = &recs[0];
            self.str(name, Sp::Key);
            self.colon();
            let s = self.out.len();
            self.obj(
                &["build", "build_number", "depends", "md5", "name", "sha256", "size", "timestamp", "version"],
                |e, i| match i {
                    0 => e.str(&x.build, Sp::Str),
                    1 => e.num(x.build_number),
                    2 => e.strs(&x.depends),
                    3 => e.str(&x.md5, Sp::Str),
                    4 => e.str(&x.name, Sp::Str),
                    5 => e.str(&x.sha256, Sp::Str),
                    6 => e.num(x.size),
                    7 => e.num(x.timestamp),
                    _ => e.str(&x.version, Sp::Version),
                },
            );
            let t = self.out.len();
            self.spans.push((Sp::Record, s, t));
        }
        self.depth -= 1;
        self.ws();
        self.out.push(b'}');
    }

    fn index(&mut self, m: &Index) {
        self.obj(&["info", "packages", "packages.conda", "removed", "repodata_version"], |e, i| match i {
            0 => e.obj(&["subdir"], |e, _| e.str(&m.subdir, Sp::Str)),
            1 => e.section(&m.packages),
            2 => e.section(&m.packages_conda),
            3 => e.strs(&m.removed),
            _ => e.num(m.repodata_version),
        });
    }
}

// ---------------------------------------------------------------- damage

const NASTY_BYTES: [u8; 26] = [
    b'"', b'\\', b'{', b'}', b'[', b']', b',', b':', b'0', b'9', b'-', b'e', b'.', b'!', b'+', b'*', 0, 0xff, 0x80, 0xc3, 0xed, 0x1f, b'n', b't', b' ', b'\n',
];

const BAD_VERSIONS: [&str; 26] = [
    "a!1.0", "1!2!3", "1+2+3", "!1", "!", "+", "", "1!!2", "99999!1", "-1!1", "\\u0021\\u0021", "\\u0031!\\u0032", "1.0\\n", "1.0\\u0000", "\\ud800", "\\ud800\\ud800", "\\udc00",
    "\\x", "1.0\\", "é", "1.0\\\"", "𝄞!1", "1.0+", "1!", "x!", "32768!1.0",
];

const BAD_NUMBERS: [&str; 20] = [
    "65536", "-1", "1.5", "1.0", "1e2", "1E0", "18446744073709551616", "18446744073709551615", "007", "-0", "256", "null", "\"1\"", "true", "1e999", "", "+1", "0x1", "99999999999999999999999999",
    "[1]",
];

const VALUES: [&str; 14] =
    ["null", "[]", "{}", "\"x\"", "0", "true", "-1", "1e3", "[[]]", "{\"subdir\":\"y\"}", "{\"version\":\"1.0\"}", "\"\"", "[null]", "[\"a\"]"];

fn splice(b: &mut Vec<u8>, s: usize, e: usize, with: &[u8]) {
    let tail = b.split_off(e.min(b.len()));
    b.truncate(s.min(b.len()));
    b.extend_from_slice(with);
    b.extend_from_slice(&tail);
}

/// Applies damage to the encoded bytes of `doc`. Spans refer to the undamaged encoding, so span-based
/// damage comes first in a list of damages.
pub fn damage(doc: &DocP, dmg: &[Dmg]) -> Vec<u8> {
    let enc = doc.encode();
    let mut b = enc.out;
    for (i, d) in dmg.iter().enumerate() {
        let len = b.len().max(1);
        let pos = (d.a % len as u64) as usize;
        let spans = |k: &dyn Fn(Sp) -> bool| -> Option<(usize, usize)> {
            if i > 0 {
                return None;
            }
            let v: Vec<_> = enc.spans.iter().filter(|s| k(s.0)).collect();
            if v.is_empty() {
                None
            } else {
                let s = v[(d.a % v.len() as u64) as usize];
                Some((s.1, s.2))
            }
        };
        let other = || -> Vec<u8> {
            let mut o = doc.clone();
            o.seed = hash(&[doc.seed, 77, d.c]) >> 8;
            o.encode().out
        };
        match d.kind {
            0 => {
                if !b.is_empty() {
                    b[pos] ^= 1 << (d.b & 7)
                }
            }
            1 => {
                if !b.is_empty() {
                    b[pos] = NASTY_BYTES[(d.b % 26) as usize]
                }
            }
            2 => {
                let n = if d.b % 3 == 0 { len - 1 - (d.a % 12.min(len as u64)) as usize } else { pos };
                b.truncate(n)
            }
            3 => {
                // the first sectors are new, the rest is the previous content
                let o = other();
                let sector = [64usize, 512, 4096][(d.b % 3) as usize];
                let cut = pos / sector * sector;
                b.truncate(cut);
                if o.len() > cut {
                    b.extend_from_slice(&o[cut..]);
                }
            }
            4 => {
                let o = other();
                let sector = [16usize, 64, 512][(d.b % 3) as usize];
                let s = pos / sector * sector;
                for k in s..(s + sector).min(b.len()) {
                    b[k] = o.get(k).cloned().unwrap_or(0);
                }
            }
            5 => {
                let sector = [16usize, 64, 512][(d.b % 3) as usize];
                let s = pos / sector * sector;
                let f = (d.c % len as u64) as usize / sector * sector;
                let src: Vec<u8> = b[f.min(b.len())..(f + sector).min(b.len())].to_vec();
                for (k, x) in src.into_iter().enumerate() {
                    if s + k < b.len() {
                        b[s + k] = x;
                    }
                }
            }
            6 | 7 => {
                let n = [1usize, 8, 64, 512][(d.b % 4) as usize];
                for k in pos..(pos + n).min(b.len()) {
                    b[k] = if d.kind == 6 { 0 } else { 0xff };
                }
            }
            8 => {
                if let Some((s, e)) = spans(&|k| k == Sp::Version) {
                    let w = &doc.dict.words;
                    let v = match d.b % 4 {
                        0 if !w.is_empty() => w[(d.c % w.len() as u64) as usize].replace(['"', '\\'], "!"),
                        0 | 1 => BAD_VERSIONS[(d.c % 26) as usize].to_string(),
                        2 => {
                            // one character of the stored version becomes '!' or '+'
                            let mut t = b[s..e].to_vec();
                            if !t.is_empty() {
                                let n = t.len() as u64;
                                t[(d.c / 2 % n) as usize] = if d.c & 1 == 0 { b'!' } else { b'+' };
                            }
                            splice(&mut b, s, e, &t);
                            continue;
                        }
                        _ => {
                            let mut r = Rng(d.c);
                            let v = texts::version(&mut r);
                            texts::corrupt(&mut r, &v).replace(['"', '\\'], "!")
                        }
                    };
                    splice(&mut b, s, e, v.as_bytes());
                }
            }
            9 => {
                let n = (d.b % 300) as usize;
                let piece = b[pos.min(b.len())..(pos + n).min(b.len())].to_vec();
                let at = if d.c % 3 == 0 { pos } else { (d.c % len as u64) as usize };
                splice(&mut b, at, at, &piece);
            }
            10 => {
                let n = 1 + (d.b % [3u64, 40, 700][(d.c % 3) as usize]) as usize;
                splice(&mut b, pos, pos + n, &[]);
            }
            11 => {
                let n = 1 + d.b % 6;
                let ins: Vec<u8> = (0..n).map(|k| NASTY_BYTES[(hash(&[d.c, k]) % 26) as usize]).collect();
                splice(&mut b, pos, pos, &ins);
            }
            12 => {
                let n = 1 + (d.b % 40) as usize;
                let q = (d.c % len as u64) as usize;
                for k in 0..n {
                    if pos + k < b.len() && q + k < b.len() {
                        b.swap(pos + k, q + k);
                    }
                }
            }
            13 => {
                if let Some((s, e)) = spans(&|k| k == Sp::Num) {
                    let p = s + (d.b % (e - s) as u64) as usize;
                    b[p] = b'0' + (d.c % 10) as u8;
                }
            }
            14 => {
                if let Some((s, e)) = spans(&|k| k != Sp::Num && k != Sp::Record) {
                    if e > s {
                        let p = s + (d.b % (e - s) as u64) as usize;
                        b[p] = [b'"', b'\\', b'u', b'/'][(d.c % 4) as usize];
                    }
                }
            }
            15 => {
                let at: Vec<usize> = (0..b.len()).filter(|&i| matches!(b[i], b'{' | b'}' | b'[' | b']' | b',' | b':')).collect();
                if !at.is_empty() {
                    let p = at[(d.a % at.len() as u64) as usize];
                    match d.b % 8 {
                        6 => splice(&mut b, p, p + 1, b""),
                        7 => {
                            let x = b[p];
                            splice(&mut b, p, p, &[x])
                        }
                        k => b[p] = [b'{', b'}', b'[', b']', b',', b':'][k as usize],
                    }
                }
            }
            16 if d.c % 3 == 0 => {
                // in front of the text
                let g = [
                    &b"\xef\xbb\xbf"[..],
                    b"\xef\xbb\xbf",
                    b"\xff\xfe",
                    b"\xfe\xff",
                    b"\xc2\xa0",
                    b"\x0c",
                    b"\x0b",
                    b"\0",
                    b" \n\t\r",
                    b"#\n",
                    b"//\n",
                    b")]}'\n",
                    b"\xe2\x80\xa8",
                    b",",
                    b"0",
                    b"\x1e",
                ][(d.b % 16) as usize];
                splice(&mut b, 0, 0, g);
            }
            16 => {
                let g = [&b"x"[..], b"}", b" \n", b"\0", b"{}", b",", b"\xff", b"]", b"null", b" ", b"\x1a", b"\n#", b"\xef\xbb\xbf", b"\x0c"][(d.b % 14) as usize];
                b.extend_from_slice(g);
            }
            17 => {
                if let Some((s, e)) = spans(&|k| k == Sp::Record) {
                    splice(&mut b, s, e, VALUES[(d.b % 14) as usize].as_bytes());
                }
            }
            18 => {
                if let Some((s, e)) = spans(&|k| k == Sp::Key) {
                    match d.b % 4 {
                        0 if e > s => b[s] ^= 0x20,
                        1 if e > s => {
                            splice(&mut b, s, s + 1, b"");
                        }
                        2 => splice(&mut b, s, e, [&b"version"[..], b"size", b"packages", b"packages.conda", b"info", b"removed"][(d.c % 6) as usize]),
                        _ => splice(&mut b, e, e, b"x"),
                    }
                }
            }
            19 => {
                if let Some((s, e)) = spans(&|k| k != Sp::Num && k != Sp::Record) {
                    let x = [&[0x80u8][..], &[0xc3], &[0xff], &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xe4, 0xb8]]
                        [(d.b % 7) as usize];
                    let p = s + (d.c % (e - s + 1) as u64) as usize;
                    let q = if d.b & 8 == 0 { p } else { (p + x.len()).min(e) };
                    splice(&mut b, p, q, x);
                }
            }
            20 => {
                if let Some((s, e)) = spans(&|k| k == Sp::Num) {
                    splice(&mut b, s, e, BAD_NUMBERS[(d.b % 20) as usize].as_bytes());
                }
            }
            21 => {
                if let Some((s, e)) = spans(&|k| k == Sp::Str || k == Sp::Version) {
                    splice(&mut b, s - 1, e + 1, VALUES[(d.b % 14) as usize].as_bytes());
                }
            }
            22 => {
                let n = [10usize, 126, 127, 128, 200, 3000, 60000][(d.b % 7) as usize];
                let (o, c) = if d.c & 1 == 0 { ("[", "]") } else { ("{\"a\":", "}") };
                let mut x = b"\"deep\":".to_vec();
                x.extend_from_slice(o.repeat(n).as_bytes());
                if d.c & 1 == 1 {
                    x.push(b'1');
                }
                if d.c & 2 == 0 {
                    x.extend_from_slice(c.repeat(n).as_bytes());
                }
                x.push(b',');
                if let Some(p) = b.iter().position(|c| *c == b'{') {
                    splice(&mut b, p + 1, p + 1, &x);
                }
            }
            24 => {
                // a number becomes a large one
                let digits = |b: &[u8], s: usize, e: usize| -> Option<(usize, usize)> {
                    let mut runs = vec![];
                    let mut i = s;
                    while i < e {
                        if b[i].is_ascii_digit() {
                            let j = (i..e).find(|&k| !b[k].is_ascii_digit()).unwrap_or(e);
                            runs.push((i, j));
                            i = j;
                        }
                        i += 1;
                    }
                    if runs.is_empty() { None } else { Some(runs[(d.b % runs.len() as u64) as usize]) }
                };
                let at = match d.c % 3 {
                    0 => spans(&|k| k == Sp::Num),
                    1 => spans(&|k| k == Sp::Version).and_then(|(s, e)| digits(&b, s, e)),
                    _ => digits(&b, 0, b.len()),
                };
                if let Some((s, e)) = at {
                    splice(&mut b, s, e, texts::grown(&mut Rng(d.c)).as_bytes());
                }
            }
            _ => {
                b = [&b""[..], b" ", b"\n\n", b"{}", b"null", b"[]", b"\xef\xbb\xbf", b"0"][(d.b % 8) as usize].to_vec();
            }
        }
    }
    b
}

pub fn random_damage(r: &mut Rng) -> Vec<Dmg> {
    let one = |r: &mut Rng| Dmg {
        kind: match r.below(3) {
            0 => *r.pick(&[0u32, 1, 2, 8, 8, 13, 16, 20]),
            _ => r.below(24) as u32,
        },
        a: r.next() >> 8,
        b: r.next() >> 8,
        c: r.next() >> 8,
    };
    let n = if r.chance(3, 4) { 1 } else { r.range(2, 4) };
    (0..n).map(|_| one(r)).collect()
}
