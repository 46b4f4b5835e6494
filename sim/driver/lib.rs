//! Concrete entry points into the library under test. This crate is compiled with the same
//! instrumentation as the library, so that the library's generic code, which is instantiated here,
//! has scheduling points too. Every function returns plain data; panics pass through.

pub use ronda::{
    conda_parser, read_repodata, treeify, untreeify, Combinator, CompOp, ConstraintTree, Record, Repodata,
    RepodataInfo, Spec, Version, VersionParsingError, VersionPart, VersionSpec, VersionSpecOrConstraintTree,
};
use std::convert::TryFrom;
use std::ffi::OsStr;
use std::str::FromStr;

#[inline(never)]
pub fn load(path: &OsStr) -> Result<Repodata, String> {
    match read_repodata(path) {
        Ok(r) => Ok(r),
        Err(e) => Err(format!("{}", e)),
    }
}

/// Other ways for an index to arrive: any reader, a buffer, a text, a JSON value read before.
pub const VIA_NAMES: [&str; 11] = [
    "the library's own load",
    "from an unbuffered reader",
    "from a buffered reader",
    "from a reader with a 16-byte buffer",
    "from a slice",
    "from a text",
    "as the first of a stream of values",
    "from two readers, one after the other",
    "from an owned JSON value",
    "from a borrowed JSON value",
    "from a JSON value inside another",
];
pub const VIA_VALUE: u8 = 8;

#[inline(never)]
pub fn load_via(path: &OsStr, via: u8) -> Result<Repodata, String> {
    use serde::Deserialize;
    use std::io::{BufReader, Read};
    fn s<E: std::fmt::Display>(e: E) -> String {
        format!("{}", e)
    }
    let mut f = std::fs::File::open(path).map_err(s)?;
    let whole = |f: &mut std::fs::File| -> Result<Vec<u8>, String> {
        let mut b = vec![];
        f.read_to_end(&mut b).map_err(s)?;
        Ok(b)
    };
    match via {
        1 => serde_json::from_reader(f).map_err(s),
        2 => serde_json::from_reader(BufReader::new(f)).map_err(s),
        3 => serde_json::from_reader(BufReader::with_capacity(16, f)).map_err(s),
        4 => serde_json::from_slice(&whole(&mut f)?).map_err(s),
        5 => {
            let t = String::from_utf8(whole(&mut f)?).map_err(s)?;
            let r = serde_json::from_str::<Repodata>(&t).map_err(s);
            // nothing may point into the text any more
            let mut b = t.into_bytes();
            for x in b.iter_mut() {
                *x = b'#';
            }
            r
        }
        6 => {
            let mut it = serde_json::Deserializer::from_reader(BufReader::new(f)).into_iter::<Repodata>();
            let first = match it.next() {
                Some(r) => r.map_err(s)?,
                None => return Err("nothing in the stream".into()),
            };
            match it.next() {
                None => Ok(first),
                Some(Ok(_)) => Err("a second value in the stream".into()),
                Some(Err(e)) => Err(s(e)),
            }
        }
        7 => {
            let mut head = vec![];
            (&mut f).take(100).read_to_end(&mut head).map_err(s)?;
            serde_json::from_reader((&head[..]).chain(f)).map_err(s)
        }
        8 => {
            let v: serde_json::Value = serde_json::from_reader(BufReader::new(f)).map_err(s)?;
            serde_json::from_value(v).map_err(s)
        }
        9 => {
            let v: serde_json::Value = serde_json::from_slice(&whole(&mut f)?).map_err(s)?;
            let r = Repodata::deserialize(&v).map_err(s);
            drop(v);
            r
        }
        _ => {
            #[derive(Deserialize)]
            struct Outer {
                inner: Repodata,
            }
            let v: serde_json::Value = serde_json::from_slice(&whole(&mut f)?).map_err(s)?;
            let t = format!("{{\"x\":[1],\"inner\":{}}}", v);
            Ok(serde_json::from_reader::<_, Outer>(t.as_bytes()).map_err(s)?.inner)
        }
    }
}

#[inline(never)]
pub fn drop_index(r: Repodata) {
    drop(r)
}

#[inline(never)]
pub fn parse(text: &str) -> Result<Version, String> {
    Version::from_str(text).map_err(|e| format!("{:?}", e))
}

#[inline(never)]
pub fn parse_from(text: &str) -> Version {
    Version::from(text)
}

#[inline(never)]
pub fn parse_with(
    text: &str,
    parser: &dyn Fn(&str) -> Result<Vec<VersionPart>, VersionParsingError>,
) -> Result<Version, VersionParsingError> {
    Version::parse(text, parser)
}

#[inline(never)]
pub fn raw_conda(text: &str) -> Result<Vec<VersionPart>, VersionParsingError> {
    conda_parser(text)
}

pub fn show_version(v: &Version) -> String {
    format!("{}|{:?}|{}", v.as_str(), v, v.part_count())
}

#[inline(never)]
pub fn render(v: &Version) -> String {
    format!("{}|{}", v, v.as_str())
}

#[inline(never)]
pub fn debug(v: &Version) -> String {
    format!("{:?}/{:#?}", v, v)
}

#[inline(never)]
pub fn part(v: &Version, i: usize) -> String {
    format!("{:?} of {} {}", v.part(i), v.part_count(), v.parts().len())
}

#[inline(never)]
pub fn cmp(a: &Version, b: &Version) -> String {
    format!("{:?}", a.compare_version(b))
}

#[inline(never)]
pub fn cmp_str(a: &Version, b: &str) -> String {
    format!("{:?}", a.compare_str(b))
}

#[inline(never)]
pub fn partial(a: &Version, b: &Version) -> Option<std::cmp::Ordering> {
    a.partial_cmp(b)
}

#[inline(never)]
pub fn eq(a: &Version, b: &Version) -> bool {
    a == b
}

#[inline(never)]
pub fn starts(a: &Version, b: &Version) -> bool {
    a.startswith(b)
}

pub const OPS: [(&str, CompOp); 10] = [
    ("eq", CompOp::Eq),
    ("ne", CompOp::Ne),
    ("lt", CompOp::Lt),
    ("le", CompOp::Le),
    ("ge", CompOp::Ge),
    ("gt", CompOp::Gt),
    ("startswith", CompOp::StartsWith),
    ("notstartswith", CompOp::NotStartsWith),
    ("compatible", CompOp::Compatible),
    ("incompatible", CompOp::Incompatible),
];

#[inline(never)]
pub fn test(a: &Version, b: &Version, op: u8) -> bool {
    a.compare_to_version(b, &OPS[op as usize % OPS.len()].1)
}

#[inline(never)]
pub fn test_str(a: &Version, b: &str, op: u8) -> bool {
    a.compare_to_str(b, &OPS[op as usize % OPS.len()].1)
}

#[inline(never)]
pub fn op_info(op: u8) -> String {
    let o = &OPS[op as usize % OPS.len()].1;
    format!(
        "{} {} {:?} {:?} {:?} {} {:?}",
        o.sign(),
        o.name(),
        o.invert(),
        o.opposite(),
        o.flip(),
        o.factor(),
        o.ord()
    )
}

#[inline(never)]
pub fn op_sign(t: &str) -> String {
    format!("{:?}", CompOp::from_sign(t))
}

#[inline(never)]
pub fn op_name(t: &str) -> String {
    format!("{:?}", CompOp::from_name(t))
}

pub fn dump_node(t: &VersionSpecOrConstraintTree, out: &mut String) {
    match t {
        VersionSpecOrConstraintTree::VersionSpec(s) => {
            out.push('<');
            out.push_str(&s.get_spec());
            out.push(if s.is_exact() { '!' } else { '?' });
            out.push('>');
        }
        VersionSpecOrConstraintTree::ConstraintTree(c) => dump_tree(c, out),
    }
}

pub fn dump_tree(c: &ConstraintTree, out: &mut String) {
    out.push_str(match c.combinator {
        Combinator::And => "and[",
        Combinator::Or => "or[",
        Combinator::None => "none[",
    });
    for p in &c.parts {
        dump_node(p, out);
    }
    out.push(']');
}

#[inline(never)]
pub fn tree(text: &str) -> Result<ConstraintTree, String> {
    treeify(text)
}

/// Structural dump and re-rendering of a parsed tree.
#[inline(never)]
pub fn tree_text(t: &ConstraintTree) -> String {
    let mut s = String::new();
    dump_tree(t, &mut s);
    let any = VersionSpecOrConstraintTree::ConstraintTree(t.clone());
    let r = untreeify(&any);
    format!(
        "{} => {:?} {} {} {:?} {:?} {:#?} {:?} {:#?}",
        s,
        r,
        t.get_spec(),
        t.raw_value(),
        t.exact_value(),
        t,
        t,
        any,
        any
    )
}

#[inline(never)]
pub fn tree_render(t: &ConstraintTree) -> Result<String, String> {
    untreeify(&VersionSpecOrConstraintTree::ConstraintTree(t.clone()))
}

#[inline(never)]
pub fn any_match_version(s: &VersionSpecOrConstraintTree, v: &Version) -> bool {
    s.test_match_version(v)
}

#[inline(never)]
pub fn tree_match(t: &ConstraintTree, v: &Version) -> bool {
    t.test_match_version(v)
}

#[inline(never)]
pub fn tree_match_str(t: &ConstraintTree, v: &str) -> bool {
    t.test_match(v)
}

#[inline(never)]
pub fn spec(text: &str) -> Result<VersionSpec, String> {
    VersionSpec::try_from(text).map_err(|e| format!("{:?}", e))
}

#[inline(never)]
pub fn spec_text(s: &VersionSpec) -> String {
    format!("{} {} {:?} {}", s.get_spec(), s.is_exact(), s.exact_value(), s.raw_value())
}

#[inline(never)]
pub fn spec_match(s: &VersionSpec, v: &Version) -> bool {
    s.test_match_version(v)
}

#[inline(never)]
pub fn any_spec(text: &str) -> Result<VersionSpecOrConstraintTree, String> {
    VersionSpecOrConstraintTree::try_from(text).map_err(|e| format!("{:?}", e))
}

#[inline(never)]
pub fn any_match(s: &VersionSpecOrConstraintTree, v: &str) -> bool {
    s.test_match(v)
}

#[inline(never)]
pub fn vec_tree(parts: &[String]) -> Result<ConstraintTree, String> {
    let v: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
    ConstraintTree::try_from(v).map_err(|e| format!("{:?}", e))
}

pub fn any_text(t: &VersionSpecOrConstraintTree) -> String {
    let mut s = String::new();
    dump_node(t, &mut s);
    format!("{} => {:?} {} {} {:?} {:?} {:#?}", s, untreeify(t), t.get_spec(), t.raw_value(), t.exact_value(), t, t)
}

/// A version from stored structured form (serde).
#[inline(never)]
pub fn from_json(text: &str) -> Result<Version, String> {
    serde_json::from_str::<Version>(text).map_err(|e| format!("{}", e))
}

/// Sorts indices by version, newest first. `crash_at` makes the comparison panic at that call.
#[inline(never)]
pub fn rank(items: &mut Vec<(Version, usize)>, crash_at: Option<u64>) {
    let mut n = 0u64;
    items.sort_by(|a, b| {
        n += 1;
        if Some(n) == crash_at {
            panic!("sim: worker crash");
        }
        b.0.partial_cmp(&a.0).unwrap()
    });
}

/// Merges two ranked lists, newest first.
#[inline(never)]
pub fn merge(a: Vec<(Version, usize)>, b: Vec<(Version, usize)>) -> Vec<(Version, usize)> {
    let mut out = Vec::with_capacity(a.len() + b.len());
    let mut ia = a.into_iter().peekable();
    let mut ib = b.into_iter().peekable();
    loop {
        match (ia.peek(), ib.peek()) {
            (Some(x), Some(y)) => {
                if x.0 < y.0 {
                    out.push(ib.next().unwrap())
                } else {
                    out.push(ia.next().unwrap())
                }
            }
            (Some(_), None) => out.push(ia.next().unwrap()),
            (None, Some(_)) => out.push(ib.next().unwrap()),
            (None, None) => return out,
        }
    }
}

#[inline(never)]
pub fn newest(items: &[(Version, usize)]) -> Option<usize> {
    let mut best: Option<&(Version, usize)> = None;
    for i in items {
        best = match best {
            None => Some(i),
            Some(b) => {
                if i.0 > b.0 {
                    Some(i)
                } else {
                    Some(b)
                }
            }
        }
    }
    best.map(|b| b.1)
}
