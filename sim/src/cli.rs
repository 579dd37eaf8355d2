//! The real command line tools, each run as one process on a simulated disk (preloaded), against the library in this process.
use crate::damage;
use crate::engine::*;
use crate::scen::{any_kind, bdiff, cut, diff, pick, K};
use dstrt::disk::{self, DFault, DPlan};
use ops::gen::Params;
use ops::Layer;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};

type Files = Vec<(String, Vec<u8>)>;
struct Run { status: i32, signal: i32, err: String, files: Files, log: Vec<disk::Rec> }

fn tool(high: bool, args: &[&str], files: &Files, plan: &DPlan, hseed: u64) -> Run {
    let e = |n: &str| std::env::var(n).unwrap_or_else(|_| panic!("{n} is not set"));
    let dir = e("DST_TMP");
    let (img, log) = (format!("{dir}/img.{}", std::process::id()), format!("{dir}/log.{}", std::process::id()));
    std::fs::write(&img, disk::img::build(files, plan, hseed)).expect("image");
    let _ = std::fs::remove_file(&log);
    let o = Command::new(format!("{}/{}", e("DST_TOOLS"), if high { "ssbh_data_json" } else { "ssbh_lib_json" })).args(args).env_clear()
        .env("LD_PRELOAD", e("DST_PRE")).env("DST_IMG", &img).env("DST_LOG", &log).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).current_dir("/").output().expect("tool starts");
    use std::os::unix::process::ExitStatusExt;
    let records = disk::decode(&std::fs::read(&log).unwrap_or_default());
    let _ = std::fs::remove_file(&img);
    let _ = std::fs::remove_file(&log);
    disk::reset();
    for (p, d) in files { disk::put(p, d.clone()); }
    let snap = disk::snapshot();
    let muts: Vec<disk::Rec> = records.iter().filter(|r| matches!(r, disk::Rec::Create { .. } | disk::Rec::Trunc { .. } | disk::Rec::Write { .. } | disk::Rec::Rename { .. } | disk::Rec::Unlink { .. })).cloned().collect();
    let after = disk::apply(&snap, &muts, muts.len(), 0);
    // A panic message names the operating system's thread number.
    let mut err = String::from_utf8_lossy(&o.stderr).lines().map(|l| match (l.starts_with("thread '"), l.find(" ("), l.find(") panicked")) { (true, Some(a), Some(b)) if a < b => format!("{}{}\n", &l[..a], &l[b + 1..]), _ => format!("{l}\n") }).collect::<String>();
    if !o.stdout.is_empty() { err.push_str("stdout: "); err.push_str(&String::from_utf8_lossy(&o.stdout)); }
    Run { status: o.status.code().unwrap_or(-1), signal: o.status.signal().unwrap_or(0), err, files: after, log: records }
}
impl Run {
    /// Success, and nothing said that a user could take for a report of a problem.
    fn silent_success(&self) -> bool {
        self.status == 0 && self.signal == 0 && self.err.lines().all(|l| { let l = l.trim(); l.is_empty() || ["Parse:", "Export:"].iter().any(|p| l.starts_with(p)) })
    }
    fn get(&self, p: &str) -> Option<&Vec<u8>> { self.files.iter().find(|f| f.0 == p).map(|f| &f.1) }
    fn show(&self) -> String { format!("exit {}{}, stderr {:?}", self.status, if self.signal != 0 { format!(" signal {}", self.signal) } else { String::new() }, cut(&self.err, 300)) }
}
fn account(c: &mut Ctx, r: &Run) -> (u64, bool) {
    let (mut hard, mut crash) = (0, false);
    for x in &r.log { match x {
        disk::Rec::Fault { kind, .. } => { let n = disk::FAULTS[*kind as usize]; c.fault(&format!("disk_{n}"), 1); if *kind >= 3 && *kind != 8 { hard += 1; } }
        disk::Rec::Crash { .. } => { crash = true; c.fault("tool_killed", 1); }
        disk::Rec::Op { .. } => c.st.ops += 1,
        _ => (),
    } }
    c.st.calls += 1;
    let mut h = dstrt::H::new();
    for x in &r.log { match x { disk::Rec::Op { name, .. } => h.u(*name as u64), disk::Rec::Fault { kind, .. } => h.u(100 + *kind as u64), disk::Rec::Crash { .. } => h.u(99), _ => () } }
    c.st.states.insert(h.0);
    (hard, crash)
}

// ------------------------------------------------------------------ what the tools must produce, from the library
fn json<X: ops::T + Serialize>(b: &[u8]) -> Option<Option<serde_json::Value>> {
    let v = X::load(&mut dstrt::stream::SimStream::reader(b)).ok()?;
    // Through text, as the tool does: non-finite numbers have no JSON.
    Some(serde_json::to_string(&v).ok().and_then(|s| serde_json::from_str(&s).ok()))
}
/// The JSON the tool must write for an input of this extension. None: unreadable content or unknown extension.
fn expected_json(high: bool, ext: &str, b: &[u8]) -> Option<Option<serde_json::Value>> {
    use ops::{data as d, raw as r};
    let f = || match (high, ext) {
        (false, "adjb") => json::<r::Adj>(b),
        (false, "numshexb") => json::<r::MeshEx>(b),
        (false, _) => json::<r::SsbhFile>(b),
        (true, "numshb") => json::<d::MeshData>(b),
        (true, "nusktb") => json::<d::SkelData>(b),
        (true, "nuanmb") => json::<ssbh_data::anim_data::AnimData>(b),
        (true, "numdlb") => json::<d::ModlData>(b),
        (true, "numatb") => json::<d::MatlData>(b),
        (true, "nuhlpb") => json::<d::HlpbData>(b),
        (true, "adjb") => json::<d::AdjData>(b),
        (true, "numshexb") => json::<d::MeshExData>(b),
        _ => None,
    };
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(None)
}
fn bin<X: ops::T + DeserializeOwned>(s: &str, out: &mut Vec<(&'static str, Result<Vec<u8>, String>)>) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let v = serde_json::from_str::<X>(s).ok()?;
        let mut w = dstrt::stream::SimStream::writer();
        let r = v.save(&mut w).map(|_| w.data);
        // What was written must hold what the JSON said.
        let r = match r {
            Ok(b) if X::LAYER == Layer::Raw => match X::load(&mut dstrt::stream::SimStream::reader(&b)) {
                Ok(g) if format!("{g:?}") == format!("{v:?}") => Ok(b),
                _ => Err("the value does not survive saving".into()),
            },
            x => x,
        };
        Some((ext_of(&v), r))
    }));
    if let Ok(Some(x)) = r { out.push(x); }
}
fn ext_of<X: ops::T>(v: &X) -> &'static str {
    let a: &dyn std::any::Any = v;
    match a.downcast_ref::<ops::raw::SsbhFile>() { Some(f) => { let t = ops::raw::tag_of(f); ops::RAW.iter().find(|k| k.tag() == Some(t)).map(|k| k.ext()).unwrap_or("") } None => X::EXT }
}
/// The (extension, image) pairs the tool may write for this JSON.
fn expected_bins(high: bool, s: &str) -> Vec<(&'static str, Result<Vec<u8>, String>)> {
    use ops::{data as d, raw as r};
    let mut o = vec![];
    if high {
        bin::<d::MeshData>(s, &mut o); bin::<d::SkelData>(s, &mut o); bin::<ssbh_data::anim_data::AnimData>(s, &mut o); bin::<d::ModlData>(s, &mut o);
        bin::<d::MatlData>(s, &mut o); bin::<d::HlpbData>(s, &mut o); bin::<d::MeshExData>(s, &mut o); bin::<d::AdjData>(s, &mut o);
    } else { bin::<r::SsbhFile>(s, &mut o); bin::<r::MeshEx>(s, &mut o); bin::<r::Adj>(s, &mut o); }
    o
}
/// Numbers that JSON cannot hold.
pub fn json_safe(text: &str) -> bool { !text.split(|c: char| !c.is_ascii_alphanumeric()).any(|w| w == "NaN" || w == "inf") }

fn quiet(c: &mut Ctx, n: usize) -> DPlan {
    let t = &mut c.s;
    let mut p = DPlan { seed: t.draw(1 << 32), chunk: [0, 0, 1, 7, 64, 4096][t.usize(6)], eintr: [0, 0, 2, 4][t.usize(4)], clock_jump: [0, 0, 1000, 1 << 50][t.usize(4)], ..Default::default() };
    if n > 4000 && p.chunk > 0 && p.chunk < 1000 { p.chunk = 1000; }
    p
}
/// A convertible file for one of the tools: (high level?, extension, image).
fn file(c: &mut Ctx, valid_only: bool) -> Res<Option<(bool, &'static str, Vec<u8>)>> {
    let high = c.w.chance(1, 2);
    let k: K = if high { pick(c, &ops::DATA) } else { match c.w.draw(5) { 0 => ops::RAW[12], _ => pick(c, &ops::RAW) } };
    let mut p = Params::draw(&mut c.w).json();
    p.size = p.size.min(2);
    if !valid_only && c.w.chance(1, 4) { p.json = false; }
    let Some((v, b)) = crate::scen::value(c, k, &p)? else { return Ok(None) };
    if valid_only {
        let t = if high { match c.read(k, &b)? { Ok(g) => g.text(), Err(_) => return Ok(None) } } else { v.text() };
        if !json_safe(&t) { c.probe("not_json_safe"); return Ok(None); }
    }
    // An any-type file keeps its own extension or gets the one of its content.
    let ext = if k.name() == "SsbhFile" { if c.w.chance(1, 2) { "bin" } else { "nuxxxb" } } else { k.ext() };
    Ok(Some((high, ext, b)))
}
pub fn j01(c: &mut Ctx) -> Res {
    let Some((high, ext, b)) = file(c, true)? else { return Ok(()) };
    let dir = ["/simdisk/d.x/", "/simdisk/"][c.w.usize(2)];
    let stem = ["in put", "model", "a.b", "in.json", "\u{540d}", "x", ".hidden"][c.w.usize(7)];
    let input = format!("{dir}{stem}.{ext}");
    let named = c.w.chance(1, 2);
    let derived = format!("{input}.json");
    let jpath = if named { ["/simdisk/out.json", "/simdisk/out", "/simdisk/e/o.v1.json"][c.w.usize(3)].to_string() } else { derived };
    let mut files: Files = vec![(input.clone(), b.clone())];
    let stale = c.w.draw(3);
    if stale == 1 { files.push((jpath.clone(), vec![b'#'; 20 * b.len() + 5000])); c.fault("stale_longer_output", 1); }
    if stale == 2 { files.push((jpath.clone(), b"{}".to_vec())); }
    let plan = quiet(c, b.len() * 8);
    let hs = c.s.draw(1 << 32);
    // Named in full, or from the working directory.
    let short = |p: &str, d: u64| if d == 1 { p.replace("/simdisk/", "") } else if d == 2 { p.replace("/simdisk/", "./") } else { p.to_string() };
    let (ia, ja) = (short(&input, c.w.draw(4)), short(&jpath, c.w.draw(4)));
    let mut args = vec![ia.as_str()];
    if named { args.push(&ja); }
    note!(c, "{} {args:?} on {} bytes with {plan:?}", name(high), b.len());
    let r = tool(high, &args, &files, &plan, hs);
    account(c, &r);
    c.interesting = true;
    if r.status != 0 { return bad("conversion-failed", format!("{} to JSON of a {ext} file: {}", name(high), r.show())); }
    let Some(j) = r.get(&jpath).cloned() else { return bad("conversion-failed", format!("{} wrote no {jpath}: {}", name(high), r.show())) };
    // Back.
    let named2 = c.w.chance(1, 2);
    let input2 = if !jpath.ends_with(".json") || c.w.chance(1, 2) { format!("{dir}{}.json", ["back", "b.c", "\u{fc}", ".r"][c.w.usize(4)]) } else { jpath.clone() };
    let real_ext = if ext == "bin" || ext == "nuxxxb" { let t: [u8; 4] = b[16..20].try_into().unwrap(); ops::RAW.iter().find(|k| k.tag() == Some(t)).map(|k| k.ext()).unwrap_or("") } else { ext };
    let derived2 = std::path::Path::new(&input2).with_extension(real_ext).to_str().unwrap().to_string();
    let bpath = if named2 { ["/simdisk/restored.bin", "/simdisk/restored", "/simdisk/e/r.x.y"][c.w.usize(3)].to_string() } else { derived2 };
    let mut files2: Files = vec![(input2.clone(), j.clone())];
    if c.w.chance(1, 3) { files2.push((bpath.clone(), vec![0xEE; b.len() + 1 + c.w.usize(300)])); c.fault("stale_longer_output", 1); }
    let plan = quiet(c, b.len() * 8);
    let hs = c.s.draw(1 << 32);
    let (ia, ba) = (short(&input2, c.w.draw(4)), short(&bpath, c.w.draw(4)));
    let mut args = vec![ia.as_str()];
    if named2 { args.push(&ba); }
    note!(c, "{} {args:?} with {plan:?}", name(high));
    let r = tool(high, &args, &files2, &plan, hs);
    account(c, &r);
    if r.status != 0 { return bad("conversion-failed", format!("{} from JSON of a {ext} file: {}; JSON {}", name(high), r.show(), cut(&String::from_utf8_lossy(&j), 400))); }
    let Some(got) = r.get(&bpath).cloned() else { return bad("conversion-failed", format!("{} wrote no {bpath} but {:?}: {}", name(high), r.files.iter().map(|f| &f.0).collect::<Vec<_>>(), r.show())) };
    let want = if high {
        let k = ops::DATA.iter().find(|k| k.ext() == ext).unwrap();
        match c.read(*k, &b)? { Ok(v) => match c.bytes(*k, &*v)? { Ok(x) => x, Err(e) => return bad("resave-failed", e) }, Err(e) => return bad("reload-failed", e) }
    } else { b };
    if got != want && !high && same_but_null_pointers(&want, &got) { return bad("null-name-lost", "ssbh_lib_json restores an offset to a null name as a null offset"); }
    if got != want { return bad("round-trip-differs", format!("{} of a {ext} file: {}", name(high), bdiff(&want, &got))); }
    Ok(())
}
/// JSON shows an offset that leads to a null offset and a null offset alike.
fn same_but_null_pointers(a: &[u8], b: &[u8]) -> bool {
    let norm = |x: &[u8]| { let v = ops::raw::SsbhFile::read(&mut std::io::Cursor::new(x)).ok()?; Some(format!("{v:?}").replace("RelPtr64(Some(SsbhStringN(RelPtr64(None))))", "RelPtr64(None)")) };
    match (norm(a), norm(b)) { (Some(x), Some(y)) => x == y, _ => false }
}
fn name(high: bool) -> &'static str { if high { "ssbh_data_json" } else { "ssbh_lib_json" } }

/// Input for a conversion, good or bad.
fn subject(c: &mut Ctx) -> Res<Option<(bool, String, Vec<u8>)>> {
    let Some((high, ext, mut b)) = file(c, false)? else { return Ok(None) };
    let k = ops::RAW.iter().find(|k| k.ext() == ext).copied().unwrap_or(ops::RAW[12]);
    let to_json = c.w.chance(1, 2);
    if to_json {
        if c.f.chance(1, 3) { let f = damage::fields(c, k, &b); damage::damage(c, &mut b, &[], &f); }
        let ext = if c.f.chance(1, 8) { c.fault("misdelivered_file", 1); ["numshb", "nuanmb", "adjb", "numshexb", "txt", "nulstb", "nusktb"][c.f.usize(7)] } else { ext };
        return Ok(Some((high, ext.to_string(), b)));
    }
    let mut j = match expected_json(high, ext, &b) { Some(Some(v)) => if c.w.chance(1, 2) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() }, _ => "{}".into() }.into_bytes();
    match c.f.draw(9) {
        0 if !j.is_empty() => { let n = c.f.usize(j.len()); j.truncate(n); c.fault("truncated", 1); }
        1 => { let n = 1 + c.f.usize(3); for _ in 0..n { if !j.is_empty() { let p = c.f.usize(j.len()); j[p] = b" 0}]\"x,{:-9e\\"[c.f.usize(13)]; } } c.fault("byte_overwritten", n as u64); }
        2 => { // text damage that stays JSON
            let s = String::from_utf8_lossy(&j).into_owned();
            let (a, z) = [("\"", "\"\\u0000"), ("\"", "\"\u{e9}"), (":0", ":-1"), ("1", "9999999999"), ("[", "[null,"), ("0.", "1e300"), ("\"", "\"zz")][c.f.usize(7)];
            let n = s.matches(a).count();
            if n > 0 { let i = c.f.usize(n); let p = s.match_indices(a).nth(i).unwrap().0; j = format!("{}{z}{}", &s[..p], &s[p + a.len()..]).into_bytes(); c.fault("damaged_json", 1); }
        }
        3 => { let x = ["{}", "[]", "null", "", "0", "{\"data\":{}}", "{\"entries\":[]}", "{\"major_version\":1,\"minor_version\":7,\"entries\":[]}", "{\"data\":{\"Nope\":1}}", "\u{feff}{}"][c.f.usize(10)]; j = x.as_bytes().to_vec(); c.fault("unconvertible_json", 1); }
        4 => { // the rest of an older, longer file, or the same text again
            let n = c.f.usize(j.len().max(1));
            let tail = match c.f.draw(6) { 0 => j.clone(), 1 | 2 => j.get(n..).unwrap_or(b"}").to_vec(), 3 => vec![0; 1 + c.f.usize(600)], 4 => b"{}".to_vec(), _ => [b"}".as_slice(), b"]", b"x", b",", b"\n0", b"\xff", b"\0"][c.f.usize(7)].to_vec() };
            j.extend_from_slice(&tail);
            c.fault("stale_tail", 1);
        }
        5 => { // a block that never reached the disk
            if !j.is_empty() { let a = c.f.usize(j.len()); let n = 1 + c.f.usize((j.len() - a).min(4096)); let x = [0u8, b' ', 0xff][c.f.usize(3)]; j[a..a + n].fill(x); c.fault("lost_block", 1); }
        }
        6 => { // a part that arrived twice, or not at all
            if j.len() > 1 { let a = c.f.usize(j.len() - 1); let n = 1 + c.f.usize((j.len() - a).min(512)); let part = j[a..a + n].to_vec(); if c.f.chance(1, 2) { j.splice(a..a, part); c.fault("duplicated_block", 1); } else { j.drain(a..a + n); c.fault("missing_block", 1); } }
        }
        _ => (),
    }
    // The wrong tool for it.
    let high = if c.f.chance(1, 8) { !high } else { high };
    Ok(Some((high, "json".into(), j)))
}
pub fn j02(c: &mut Ctx) -> Res {
    let Some((high, ext, input)) = subject(c)? else { return Ok(()) };
    let ipath = format!("/simdisk/in.{ext}");
    let named = c.w.chance(1, 2);
    let mut files: Files = vec![(ipath.clone(), input.clone()), ("/simdisk/bystander.bin".into(), vec![7; 50])];
    let text = String::from_utf8(input.clone());
    let to_json = ext != "json";
    let outs: Vec<(String, Option<Vec<u8>>, Option<serde_json::Value>)> = if to_json {
        let p = if named { "/simdisk/o.json".to_string() } else { format!("{ipath}.json") };
        match expected_json(high, &ext, &input) { Some(Some(v)) => vec![(p, None, Some(v))], _ => vec![] }
    } else {
        let b = text.as_ref().map(|s| expected_bins(high, s)).unwrap_or_default();
        b.into_iter().filter_map(|(e, r)| r.ok().map(|b| (if named { "/simdisk/o.bin".to_string() } else { format!("/simdisk/in.{e}") }, Some(b), None))).collect()
    };
    // Which output path may be touched at all.
    let allowed: Vec<String> = if named { vec![if to_json { "/simdisk/o.json".into() } else { "/simdisk/o.bin".into() }] }
        else if to_json { vec![format!("{ipath}.json")] }
        else { ops::RAW.iter().map(|k| format!("/simdisk/in.{}", k.ext())).filter(|p| *p != "/simdisk/in.bin").collect() };
    let convertible = !outs.is_empty();
    c.probe(if convertible { "convertible" } else { "unconvertible" });
    c.interesting = true;
    let opath = outs.first().map(|o| o.0.clone()).unwrap_or(allowed[0].clone());
    if c.w.chance(1, 3) { files.push((opath.clone(), vec![b'#'; input.len() * 3 + 100])); c.fault("stale_longer_output", 1); }
    let plan = {
        let mut p = quiet(c, input.len() * 4);
        match c.f.draw(4) {
            0 => (),
            1 => { p.crash_at = Some(1 + c.f.draw(if p.chunk > 0 { 40 } else { 12 })); p.crash_part = c.f.draw(257); }
            2 if c.f.chance(1, 3) => { p.capacity = Some(c.f.draw(input.len() as u64 * 2 + 10)); }
            _ => {
                let class = [1u8, 2, 3, 3, 0, 4][c.f.usize(6)];
                let kind = match class { 1 => [5u8, 6, 3, 4][c.f.usize(4)], 2 | 4 => [3u8, 5][c.f.usize(2)], _ => [3u8, 4, 9][c.f.usize(3)] };
                p.faults.push(DFault { class, nth: 1 + c.f.draw(if p.chunk > 0 { 20 } else { 4 }), kind: if class == 0 && kind == 9 { 3 } else { kind }, sticky: c.f.chance(1, 2) });
            }
        }
        p
    };
    let hs = c.s.draw(1 << 32);
    let mut args = vec![ipath.as_str()];
    if named { args.push(&allowed[0]); }
    note!(c, "{} {args:?} on {} bytes, convertible: {convertible}, {plan:?}", name(high), input.len());
    let r = tool(high, &args, &files, &plan, hs);
    let (_, crash) = account(c, &r);
    note!(c, "{}", r.show());
    harm(&files, &ipath, &allowed, &r, high)?;
    if r.signal == 24 || r.signal == 9 { return bad("tool-hung", format!("{} on {} bytes used up its CPU time", name(high), input.len())); }
    if !crash && r.silent_success() { complete(&outs, &r, high, &ext, input.len())?; c.probe("silent_success"); } else if !crash { c.probe("reported"); }
    // The fault is gone: what is on the disk now must not matter.
    let plan = quiet(c, input.len() * 4);
    let before = r.files.clone();
    let r = tool(high, &args, &before, &plan, hs ^ 1);
    account(c, &r);
    harm(&before, &ipath, &allowed, &r, high)?;
    if convertible && to_json || (!to_json && convertible && outs.len() == 1) {
        let mut seen = vec![];
        if !to_json { if let Ok(s) = &text { seen = expected_bins(high, s); } }
        // Only when nothing else in the input could be meant (a rejected save is a report).
        if to_json || seen.len() == 1 {
            if r.status != 0 || r.signal != 0 { return bad("retry-failed", format!("{} on a healthy disk: {}", name(high), r.show())); }
            complete(&outs, &r, high, &ext, input.len())?;
        }
    } else if r.silent_success() { complete(&outs, &r, high, &ext, input.len())?; }
    Ok(())
}
fn harm(files: &Files, ipath: &str, allowed: &[String], r: &Run, high: bool) -> Res {
    for (p, d) in files {
        if allowed.contains(p) && p != ipath { continue; }
        match r.get(p) {
            Some(x) if x == d => (),
            x => return bad(if p == ipath { "input-harmed" } else { "other-file-touched" }, format!("{}: {p} had {} bytes, now {:?}; {}", name(high), d.len(), x.map(|x| x.len()), r.show())),
        }
    }
    for (p, _) in &r.files { if !files.iter().any(|f| f.0 == *p) && !allowed.contains(p) { return bad("other-file-touched", format!("{} created {p}", name(high))); } }
    Ok(())
}
fn complete(outs: &[(String, Option<Vec<u8>>, Option<serde_json::Value>)], r: &Run, high: bool, ext: &str, n: usize) -> Res {
    if outs.is_empty() { return bad("silent-failure", format!("{} cannot convert this .{ext} file ({n} bytes), yet ended with {}", name(high), r.show())); }
    let mut why = String::new();
    for (p, b, v) in outs {
        let Some(got) = r.get(p) else { why.push_str(&format!("{p} does not exist; ")); continue };
        match (b, v) {
            (Some(b), _) => if got == b { return Ok(()) } else { why.push_str(&format!("{p}: {}; ", bdiff(b, got))); },
            (_, Some(v)) => match serde_json::from_slice::<serde_json::Value>(got) {
                Ok(g) if g == *v => return Ok(()),
                Ok(g) => why.push_str(&format!("{p}: {}; ", diff(&v.to_string(), &g.to_string()))),
                Err(e) => why.push_str(&format!("{p} ({} bytes) is not JSON: {e}; ", got.len())),
            },
            _ => (),
        }
    }
    bad("incomplete-output", format!("{} ended with {} but {why}", name(high), r.show()))
}
#[allow(dead_code)]
fn unused(c: &mut Ctx) { let _ = any_kind(c); }
