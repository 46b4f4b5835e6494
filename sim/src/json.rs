//! An independent reader of JSON text and of the index format: says what a sequence of bytes means.
//! Written from RFC 8259, without looking at how the library or serde_json does it.

#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(Option<String>), // None: not representable (bad UTF-8, lone surrogate)
    Arr(Vec<J>),
    Obj(Vec<(Option<String>, J)>),
}

pub enum Bad {
    Syntax(String),
    Deep,
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

const MAX_DEPTH: usize = 100;

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn err<T>(&self, m: &str) -> Result<T, Bad> {
        Err(Bad::Syntax(format!("{} at byte {}", m, self.i)))
    }
    fn lit(&mut self, s: &str, v: J) -> Result<J, Bad> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn digits(&mut self) -> usize {
        let s = self.i;
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
            self.i += 1;
        }
        self.i - s
    }
    fn num(&mut self) -> Result<J, Bad> {
        let s = self.i;
        if self.b[self.i] == b'-' {
            self.i += 1;
        }
        let d = self.i;
        let n = self.digits();
        if n == 0 || (n > 1 && self.b[d] == b'0') {
            return self.err("bad number");
        }
        if self.i < self.b.len() && self.b[self.i] == b'.' {
            self.i += 1;
            if self.digits() == 0 {
                return self.err("bad fraction");
            }
        }
        if self.i < self.b.len() && (self.b[self.i] | 0x20) == b'e' {
            self.i += 1;
            if self.i < self.b.len() && matches!(self.b[self.i], b'+' | b'-') {
                self.i += 1;
            }
            if self.digits() == 0 {
                return self.err("bad exponent");
            }
        }
        Ok(J::Num(String::from_utf8_lossy(&self.b[s..self.i]).into_owned()))
    }
    fn hex4(&mut self) -> Result<u32, Bad> {
        if self.i + 4 > self.b.len() {
            return self.err("short \\u");
        }
        let mut v = 0;
        for k in 0..4 {
            let d = match (self.b[self.i + k] as char).to_digit(16) {
                Some(d) => d,
                None => return self.err("bad \\u"),
            };
            v = v * 16 + d;
        }
        self.i += 4;
        Ok(v)
    }
    fn string(&mut self) -> Result<Option<String>, Bad> {
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        let mut ok = true;
        loop {
            if self.i >= self.b.len() {
                return self.err("unterminated string");
            }
            let c = self.b[self.i];
            match c {
                b'"' => {
                    self.i += 1;
                    break;
                }
                0..=0x1f => return self.err("control character in string"),
                b'\\' => {
                    self.i += 1;
                    if self.i >= self.b.len() {
                        return self.err("unterminated escape");
                    }
                    let e = self.b[self.i];
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => out.push(e),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'u' => {
                            let u = self.hex4()?;
                            let cp = if (0xd800..0xdc00).contains(&u) {
                                if self.b[self.i..].starts_with(b"\\u") {
                                    let save = self.i;
                                    self.i += 2;
                                    let l = self.hex4()?;
                                    if (0xdc00..0xe000).contains(&l) {
                                        Some(0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00))
                                    } else {
                                        self.i = save;
                                        None
                                    }
                                } else {
                                    None
                                }
                            } else {
                                Some(u)
                            };
                            match cp.and_then(char::from_u32) {
                                Some(ch) => {
                                    let mut t = [0u8; 4];
                                    out.extend_from_slice(ch.encode_utf8(&mut t).as_bytes())
                                }
                                None => ok = false,
                            }
                        }
                        _ => return self.err("bad escape"),
                    }
                }
                _ => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
        Ok(if ok { String::from_utf8(out).ok() } else { None })
    }
    fn value(&mut self, depth: usize) -> Result<J, Bad> {
        if depth > MAX_DEPTH {
            return Err(Bad::Deep);
        }
        self.ws();
        if self.i >= self.b.len() {
            return self.err("unexpected end");
        }
        match self.b[self.i] {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'-' | b'0'..=b'9' => self.num(),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return self.err("bad array"),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.b.get(self.i) != Some(&b'"') {
                        return self.err("key expected");
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.b.get(self.i) != Some(&b':') {
                        return self.err("colon expected");
                    }
                    self.i += 1;
                    let x = self.value(depth + 1)?;
                    v.push((k, x));
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return self.err("bad object"),
                    }
                }
            }
            _ => self.err("unexpected character"),
        }
    }
}

pub fn parse(b: &[u8]) -> Result<J, Bad> {
    let mut p = P { b, i: 0 };
    let v = p.value(0)?;
    p.ws();
    if p.i != b.len() {
        return p.err("trailing characters");
    }
    Ok(v)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub build: String,
    pub build_number: u64,
    pub depends: Vec<String>,
    pub md5: String,
    pub name: String,
    pub sha256: String,
    pub size: u64,
    pub timestamp: u64,
    pub version: String,
}

/// What an index says. A file name given twice keeps all its records: any of them may be reported.
#[derive(Clone, Debug, Default)]
pub struct Index {
    pub subdir: String,
    pub packages: Vec<(String, Vec<Rec>)>,
    pub packages_conda: Vec<(String, Vec<Rec>)>,
    pub removed: Vec<String>,
    pub repodata_version: u64,
}

pub enum Says {
    Index(Index),
    Invalid(String),
    /// The bytes can be read in more than one way; only crashes are judged.
    Unclear(String),
}

enum Stop {
    Invalid(String),
    Unclear(String),
}

fn inv<T>(m: String) -> Result<T, Stop> {
    Err(Stop::Invalid(m))
}

fn field<'a>(o: &'a [(Option<String>, J)], k: &str) -> Result<&'a J, Stop> {
    let mut it = o.iter().filter(|(n, _)| n.as_deref() == Some(k));
    let f = it.next();
    if it.next().is_some() {
        return Err(Stop::Unclear(format!("field {} twice", k)));
    }
    match f {
        Some((_, v)) => Ok(v),
        None => inv(format!("no field {}", k)),
    }
}

fn obj<'a>(j: &'a J, w: &str) -> Result<&'a [(Option<String>, J)], Stop> {
    match j {
        J::Obj(o) => Ok(o),
        J::Arr(_) => Err(Stop::Unclear(format!("{} given as a list", w))),
        _ => inv(format!("{} is not an object", w)),
    }
}

fn st(j: &J, w: &str) -> Result<String, Stop> {
    match j {
        J::Str(Some(s)) => Ok(s.clone()),
        J::Str(None) => inv(format!("{} is not text", w)),
        _ => inv(format!("{} is not a string", w)),
    }
}

fn nat(j: &J, w: &str, max: u64) -> Result<u64, Stop> {
    match j {
        J::Num(t) => match t.parse::<u64>() {
            Ok(v) if v <= max => Ok(v),
            Ok(_) => inv(format!("{} out of range", w)),
            Err(_) => {
                if t.contains(['.', 'e', 'E']) || t == "-0" {
                    // may denote a whole number in an unusual way
                    Err(Stop::Unclear(format!("{} = {}", w, t)))
                } else {
                    inv(format!("{} out of range", w))
                }
            }
        },
        _ => inv(format!("{} is not a number", w)),
    }
}

fn strs(j: &J, w: &str) -> Result<Vec<String>, Stop> {
    match j {
        J::Arr(v) => v.iter().map(|x| st(x, w)).collect(),
        _ => inv(format!("{} is not a list", w)),
    }
}

fn rec(j: &J) -> Result<Rec, Stop> {
    let o = obj(j, "record")?;
    Ok(Rec {
        build: st(field(o, "build")?, "build")?,
        build_number: nat(field(o, "build_number")?, "build_number", u16::MAX as u64)?,
        depends: strs(field(o, "depends")?, "depends")?,
        md5: st(field(o, "md5")?, "md5")?,
        name: st(field(o, "name")?, "name")?,
        sha256: st(field(o, "sha256")?, "sha256")?,
        size: nat(field(o, "size")?, "size", u64::MAX)?,
        timestamp: nat(field(o, "timestamp")?, "timestamp", u64::MAX)?,
        version: st(field(o, "version")?, "version")?,
    })
}

fn section(j: &J, w: &str) -> Result<Vec<(String, Vec<Rec>)>, Stop> {
    let o = match j {
        J::Obj(o) => o,
        _ => return inv(format!("{} is not an object", w)),
    };
    let mut out: std::collections::BTreeMap<String, Vec<Rec>> = Default::default();
    let mut unclear = None;
    for (k, v) in o {
        let k = match k {
            Some(k) => k.clone(),
            None => return inv("file name is not text".into()),
        };
        match rec(v) {
            Ok(r) => out.entry(k).or_default().push(r),
            Err(Stop::Invalid(m)) => return inv(format!("{}: {}", k, m)),
            Err(Stop::Unclear(m)) => unclear = Some(m),
        }
    }
    if let Some(m) = unclear {
        return Err(Stop::Unclear(m));
    }
    Ok(out.into_iter().collect())
}

fn index(j: &J) -> Result<Index, Stop> {
    let o = obj(j, "index")?;
    let mut unclear = None;
    let mut soft = |e: Stop| -> Result<(), Stop> {
        match e {
            Stop::Unclear(m) => {
                unclear = Some(m);
                Ok(())
            }
            e => Err(e),
        }
    };
    let mut x = Index::default();
    match field(o, "info").and_then(|i| obj(i, "info")).and_then(|i| field(i, "subdir")).and_then(|s| st(s, "subdir")) {
        Ok(v) => x.subdir = v,
        Err(e) => soft(e)?,
    }
    match field(o, "packages").and_then(|s| section(s, "packages")) {
        Ok(v) => x.packages = v,
        Err(e) => soft(e)?,
    }
    match field(o, "packages.conda").and_then(|s| section(s, "packages.conda")) {
        Ok(v) => x.packages_conda = v,
        Err(e) => soft(e)?,
    }
    match field(o, "removed").and_then(|s| strs(s, "removed")) {
        Ok(v) => x.removed = v,
        Err(e) => soft(e)?,
    }
    match field(o, "repodata_version").and_then(|s| nat(s, "repodata_version", 255)) {
        Ok(v) => x.repodata_version = v,
        Err(e) => soft(e)?,
    }
    if let Some(m) = unclear {
        return Err(Stop::Unclear(m));
    }
    Ok(x)
}

pub fn says(b: &[u8]) -> Says {
    let j = match parse(b) {
        Ok(j) => j,
        Err(Bad::Syntax(m)) => return Says::Invalid(m),
        Err(Bad::Deep) => return Says::Unclear("very deep nesting".into()),
    };
    match index(&j) {
        Ok(x) => Says::Index(x),
        Err(Stop::Invalid(m)) => Says::Invalid(m),
        Err(Stop::Unclear(m)) => Says::Unclear(m),
    }
}

/// Compares a loaded index with what was stored. `None`: equal.
pub fn differs(x: &Index, r: &ronda_driver::Repodata) -> Option<String> {
    if r.info.subdir != x.subdir {
        return Some(format!("info.subdir is {:?}, stored {:?}", r.info.subdir, x.subdir));
    }
    if r.repodata_version as u64 != x.repodata_version {
        return Some(format!("repodata_version is {}, stored {}", r.repodata_version, x.repodata_version));
    }
    if r.removed != x.removed {
        return Some(format!("removed is {:?}, stored {:?}", short(&r.removed), short(&x.removed)));
    }
    for (w, got, want) in
        [("packages", &r.packages, &x.packages), ("packages.conda", &r.packages_conda, &x.packages_conda)]
    {
        for (k, alts) in want {
            let g = match got.get(k) {
                Some(g) => g,
                None => return Some(format!("{} lacks record {:?}", w, k)),
            };
            let mut why = String::new();
            let mut ok = false;
            for a in alts {
                match rec_differs(a, g) {
                    None => {
                        ok = true;
                        break;
                    }
                    Some(m) => why = m,
                }
            }
            if !ok {
                return Some(format!("{} record {:?}: {}", w, k, why));
            }
        }
        if got.len() != want.len() {
            let mut extra: Vec<&String> = got.keys().filter(|k| !want.iter().any(|(n, _)| n == *k)).collect();
            extra.sort();
            return Some(format!("{} has {} records, stored {}; invented: {:?}", w, got.len(), want.len(), extra.first()));
        }
    }
    None
}

fn short(v: &[String]) -> String {
    let s = format!("{:?}", v);
    s.chars().take(300).collect()
}

fn rec_differs(a: &Rec, g: &ronda_driver::Record) -> Option<String> {
    macro_rules! eq {
        ($f:ident) => {
            if g.$f != a.$f {
                return Some(format!("{} is {:?}, stored {:?}", stringify!($f), g.$f, a.$f));
            }
        };
    }
    eq!(build);
    eq!(depends);
    eq!(md5);
    eq!(name);
    eq!(sha256);
    eq!(size);
    eq!(timestamp);
    if g.build_number as u64 != a.build_number {
        return Some(format!("build_number is {}, stored {}", g.build_number, a.build_number));
    }
    if g.version.as_str() != a.version {
        return Some(format!("version is {:?}, stored {:?}", g.version.as_str(), a.version));
    }
    None
}

/// The parts of every loaded version are those of its text.
pub fn version_parts(r: &ronda_driver::Repodata) -> Option<String> {
    for (w, m) in [("packages", &r.packages), ("packages.conda", &r.packages_conda)] {
        let mut names: Vec<&String> = m.keys().collect();
        names.sort();
        for n in names {
            let v = &m[n].version;
            let t = v.as_str().to_string();
            let alone = std::panic::catch_unwind(|| ronda_driver::parse(&t).map(|x| format!("{:?}", x)));
            let got = format!("{:?}", v);
            match alone {
                Ok(Ok(p)) if p == got => {}
                Ok(Ok(p)) => return Some(format!("{} record {:?}: version {:?} has parts {}, its text has {}", w, n, t, got, p)),
                Ok(Err(e)) => return Some(format!("{} record {:?} accepted with version text {:?}, which is refused alone: {}", w, n, t, e)),
                Err(_) => return Some(format!("{} record {:?} accepted with version text {:?}, which panics alone", w, n, t)),
            }
        }
    }
    None
}
