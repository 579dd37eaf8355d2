//! Collects the texts and numbers that the library's sources mention, for `dstrt::dict`. Only guides which inputs are drawn.
use dstrt::dict::Dict;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default)]
struct Found { texts: BTreeMap<String, usize>, ints: BTreeMap<u64, usize>, floats: BTreeMap<u32, usize> }

fn text(b: &[u8], mut i: usize, raw: Option<usize>) -> (Vec<u8>, usize) {
    let mut out = vec![];
    while i < b.len() {
        match (b[i], raw) {
            (b'"', None) => return (out, i + 1),
            (b'"', Some(k)) if b[i + 1..].iter().take(k).filter(|c| **c == b'#').count() == k => return (out, i + 1 + k),
            (b'\\', None) => { match b.get(i + 1) { Some(b'n') => out.push(b'\n'), Some(b't') => out.push(b'\t'), Some(b'0') => out.push(0), Some(c) => out.push(*c), None => () } i += 2; }
            (c, _) => { out.push(c); i += 1; }
        }
    }
    (out, i)
}
fn scan(src: &str, f: &mut Found) {
    let src = src.split("#[cfg(test)]").next().unwrap_or("");
    let b = src.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut i = 0;
    while i < b.len() {
        let rest = &b[i..];
        if rest.starts_with(b"//") { while i < b.len() && b[i] != b'\n' { i += 1 } continue }
        if rest.starts_with(b"/*") { i += 2; while i < b.len() && !b[i..].starts_with(b"*/") { i += 1 } i += 2; continue }
        let start = i == 0 || !word(b[i - 1]);
        if b[i] == b'r' && start && rest.len() > 2 && (rest[1] == b'"' || rest[1] == b'#') {
            let k = rest[1..].iter().take_while(|c| **c == b'#').count();
            if rest.get(1 + k) == Some(&b'"') { let (s, e) = text(b, i + 2 + k, Some(k)); keep(s, f); i = e; continue }
        }
        if b[i] == b'"' { let (s, e) = text(b, i + 1, None); keep(s, f); i = e; continue }
        if b[i] == b'\'' {
            // A character, or a lifetime.
            if rest.get(1) == Some(&b'\\') { i += 3; while i < b.len() && b[i] != b'\'' { i += 1 } i += 1; continue }
            let k = src[i + 1..].chars().next().map(|c| c.len_utf8()).unwrap_or(1);
            if b.get(i + 1 + k) == Some(&b'\'') { keep(b[i + 1..i + 1 + k].to_vec(), f); i += k + 2; continue }
            i += 1;
            continue;
        }
        if b[i].is_ascii_digit() && start {
            let radix = match rest.get(1) { Some(b'x') if rest[0] == b'0' => 16, Some(b'b') if rest[0] == b'0' => 2, Some(b'o') if rest[0] == b'0' => 8, _ => 10 };
            let at = i;
            if radix != 10 { i += 2 }
            let mut s = String::new();
            let mut real = false;
            while i < b.len() {
                let c = b[i];
                if c == b'_' { } 
                else if (c as char).is_digit(radix) { s.push(c as char) }
                else if radix == 10 && c == b'.' && !real && b.get(i + 1).is_some_and(|c| c.is_ascii_digit()) { real = true; s.push('.') }
                else if radix == 10 && (c == b'e' || c == b'E') && b.get(i + 1).is_some_and(|c| c.is_ascii_digit() || *c == b'-') { real = true; s.push('e'); if b[i + 1] == b'-' { s.push('-'); i += 1 } }
                else { break }
                i += 1;
            }
            let suffix = &src[i..];
            if suffix.starts_with("f32") || suffix.starts_with("f64") { real = true }
            while i < b.len() && word(b[i]) { i += 1 }
            let minus = src[..at].ends_with('-');
            if real { if let Ok(v) = s.parse::<f32>() { if v.is_finite() { *f.floats.entry((if minus { -v } else { v }).to_bits()).or_default() += 1; } } }
            else if !listed(src, at, i) { if let Ok(v) = u64::from_str_radix(&s, radix) { *f.ints.entry(v).or_default() += 1; if v < 100_000 { *f.floats.entry((v as f32).to_bits()).or_default() += 1; } } }
            continue;
        }
        i += 1;
    }
}
/// A line of an enumeration: `Name = 12,`.
fn listed(src: &str, from: usize, to: usize) -> bool {
    let line = src[..from].rsplit('\n').next().unwrap_or("").trim();
    src[to..].starts_with(',') && line.strip_suffix(" =").is_some_and(|n| !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || c == '_'))
}
fn keep(s: Vec<u8>, f: &mut Found) {
    let Ok(s) = String::from_utf8(s) else { return };
    if s.is_empty() || s.len() > 24 || s.contains(['{', '\0']) { return }
    *f.texts.entry(s).or_default() += 1;
}
fn walk(p: &Path, f: &mut Found, depth: usize) {
    let Ok(d) = std::fs::read_dir(p) else { return };
    if depth > 8 { return }
    for e in d.flatten() {
        let path = e.path();
        let Ok(k) = e.file_type() else { continue };
        if k.is_dir() { walk(&path, f, depth + 1) }
        else if k.is_file() && path.extension().is_some_and(|x| x == "rs") && !path.file_name().is_some_and(|n| n.to_string_lossy().contains("test")) {
            if let Ok(b) = std::fs::read(&path) { scan(&String::from_utf8_lossy(&b), f) }
        }
    }
}
fn source(root: &str) -> Found {
    let mut f = Found::default();
    for c in ["ssbh_lib", "ssbh_data", "ssbh_write", "ssbh_write_derive", "ssbh_lib_json", "ssbh_data_json"] { walk(&Path::new(root).join(c).join("src"), &mut f, 0) }
    f
}
/// What the tree at `now` mentions, what `before` mentions less often first.
pub fn collect(now: &str, before: &str) -> Value {
    let (n, mut o) = (source(now), source(before));
    // The pinned release does not include the tools.
    for c in ["ssbh_lib_json", "ssbh_data_json"] { walk(&Path::new(now).join(c).join("src"), &mut o, 0) }
    // Said more often than before comes first.
    fn order<A: Ord + Clone>(n: &BTreeMap<A, usize>, o: &BTreeMap<A, usize>, ok: impl Fn(&A) -> bool) -> (Vec<A>, usize) {
        let all: Vec<(bool, A)> = n.iter().filter(|x| ok(x.0)).map(|(x, k)| (*k > o.get(x).copied().unwrap_or(0), x.clone())).collect();
        let k = all.iter().filter(|x| x.0).count();
        (all.iter().filter(|x| x.0).chain(all.iter().filter(|x| !x.0)).map(|x| x.1.clone()).collect(), k)
    }
    let (t, a) = order(&n.texts, &o.texts, |_| true);
    let (s, b) = order(&n.ints, &o.ints, |v| (3..=70_000).contains(v));
    let (i, c) = order(&n.ints, &o.ints, |v| *v > 1);
    let (f, d) = order(&n.floats, &o.floats, |_| true);
    json!({"texts": t, "sizes": s, "ints": i, "floats": f, "fresh": [a, b, c, d]})
}
pub fn install(v: &Value) {
    let nums = |k: &str| v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect::<Vec<_>>()).unwrap_or_default();
    let f = nums("fresh");
    let at = |i: usize| f.get(i).copied().unwrap_or(0) as usize;
    dstrt::dict::set(Dict {
        texts: v["texts"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(str::to_string)).collect()).unwrap_or_default(),
        sizes: nums("sizes").into_iter().map(|x| x as usize).collect(), ints: nums("ints"),
        floats: nums("floats").into_iter().map(|x| f32::from_bits(x as u32)).collect(), fresh: [at(0), at(1), at(2), at(3)],
    })
}
/// For the child processes.
pub fn publish(v: &Value, dir: &str) {
    let p = format!("{dir}/words");
    std::fs::write(&p, v.to_string()).expect("words");
    std::env::set_var("DST_WORDS", p);
}
pub fn load() {
    if let Some(v) = std::env::var("DST_WORDS").ok().and_then(|p| std::fs::read(p).ok()).and_then(|b| serde_json::from_slice(&b).ok()) { install(&v) }
}
