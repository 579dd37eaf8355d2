//! Mixed versions: the library of the working tree and the pinned one share a store and take turns.
use crate::damage;
use crate::engine::*;
use crate::scen::*;
use dstrt::disk::{self, DPlan};
use dstrt::stream::SimStream;
use ops::Layer;
use oldops::{Kind as OKind, Val as OVal};

type OK_ = &'static dyn OKind;
type OB = Box<dyn OVal>;

fn pair(c: &mut Ctx) -> (K, OK_) {
    match c.w.draw(8) {
        0 | 1 | 2 => { let i = c.w.usize(ops::RAW.len()); (ops::RAW[i], oldops::RAW[i]) }
        3 | 4 | 5 | 6 => { let i = [0, 0, 0, 7, 7, 7, 1, 2, 2, 3, 4, 5, 6][c.w.usize(13)]; (ops::DATA[i], oldops::DATA[i]) }
        _ => { let i = c.w.usize(ops::DERIVED.len()); (ops::DERIVED[i], oldops::DERIVED[i]) }
    }
}
fn oread(k: OK_, b: &[u8]) -> Res<Result<OB, String>> { let mut s = SimStream::reader(b); guard("the earlier version reading", || k.load(&mut s)) }
fn obytes(v: &dyn OVal) -> Res<Result<Vec<u8>, String>> { let mut w = SimStream::writer(); Ok(guard("the earlier version writing", || v.save(&mut w))?.map(|_| w.data)) }

/// The same text up to the numbers with a fraction or exponent, which may differ by `tol` of the largest one nearby.
pub fn close(a: &str, b: &str, tol: f64) -> Result<(), String> {
    if a == b { return Ok(()); }
    let (x, y) = (numbers(a), numbers(b));
    if x.len() != y.len() { return Err(diff(a, b)); }
    let (mut p, mut q) = (0, 0);
    for i in 0..x.len() {
        let ((xs, xe), (ys, ye)) = (x[i], y[i]);
        if a[p..xs] != b[q..ys] { return Err(diff(a, b)); }
        let (s, t) = (&a[xs..xe], &b[ys..ye]);
        if s != t {
            let (Ok(f), Ok(g)) = (s.parse::<f64>(), t.parse::<f64>()) else { return Err(diff(a, b)) };
            let near = x[i.saturating_sub(8)..(i + 9).min(x.len())].iter().filter_map(|(s, e)| a[*s..*e].parse::<f64>().ok()).fold(0f64, |m, v| m.max(v.abs()));
            if !((f - g).abs() <= tol * near.max(f.abs()).max(g.abs()) + 1e-30) { return Err(format!("{s} and {t}: ..{}.. and ..{}..", around(a, xs), around(b, ys))); }
        }
        p = xe; q = ye;
    }
    if a[p..] != b[q..] { return Err(diff(a, b)); }
    Ok(())
}
fn around(s: &str, at: usize) -> &str { let (mut f, mut e) = (at.saturating_sub(60), (at + 40).min(s.len())); while !s.is_char_boundary(f) { f -= 1; } while !s.is_char_boundary(e) { e += 1; } &s[f..e] }
/// Where the numbers with a fraction or exponent are (as `Debug` and JSON print floats).
fn numbers(s: &str) -> Vec<(usize, usize)> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let start = b[i].is_ascii_digit() || (b[i] == b'-' && b.get(i + 1).is_some_and(|c| c.is_ascii_digit()));
        if start && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || b[i - 1] == b'.')) {
            let f = i;
            i += 1;
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.' || b[i] == b'e' || (b[i] == b'-' && b[i - 1] == b'e')) { i += 1; }
            if s[f..i].contains(['.', 'e']) { v.push((f, i)); }
        } else { i += 1; }
    }
    v
}
/// Text with the contents of byte buffers left out (their lengths stay).
fn without_buffers(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("SsbhByteBuffer { elements: [") {
        let j = i + "SsbhByteBuffer { elements: [".len();
        let e = rest[j..].find(']').map(|e| j + e).unwrap_or(rest.len());
        let n = if e == j { 0 } else { rest[j..e].matches(',').count() + 1 };
        o.push_str(&rest[..j]);
        o.push_str(&format!("{n} bytes"));
        rest = &rest[e..];
    }
    o + rest
}
/// The counts and flags in front of the values of each compressed track, which the game reads and the library does not.
fn compressed_tracks(v: &dyn OVal) -> Vec<String> {
    use oldops::raw::Anim;
    let Some(a) = v.any().downcast_ref::<Anim>() else { return vec![] };
    let (groups, buffer) = match a { Anim::V20 { groups, buffer, .. } | Anim::V21 { groups, buffer, .. } => (groups, &buffer.elements), _ => return vec![] };
    let mut out = vec![];
    for t in groups.elements.iter().flat_map(|g| &g.nodes.elements).flat_map(|n| &n.tracks.elements) {
        if !format!("{:?}", t.flags).contains("compression_type: Compressed") { continue; }
        let h = buffer.get(t.data_offset as usize..).and_then(|b| b.get(..16));
        out.push(format!("{} first {:?} frames {:?}", t.name.to_string_lossy(), h.map(|h| &h[..4]), h.map(|h| &h[12..16])));
    }
    out
}
/// Does the same number pass for the same content? Low-level values are exact.
fn agree(k: K, a: &str, b: &str, tol: f64) -> Result<(), String> { if k.layer() == Layer::Data { close(a, b, tol) } else if a == b { Ok(()) } else { Err(diff(a, b)) } }

const ROUNDING: f64 = 1e-5;
/// Two encodings of one value: a step of the coarsest quantisation may go the other way.
const QUANTUM: f64 = 3e-3;

/// Both versions read a file and see the same in it.
fn same_to_both(c: &mut Ctx, k: K, o: OK_, b: &[u8], who: &str) -> Res<Option<(B, OB)>> {
    let old = match oread(o, b)? { Ok(v) => v, Err(e) => return bad("unreadable-by-earlier", format!("{} saved by the {who} version is refused by the earlier one: {e}", k.name())) };
    let new = match c.read(k, b)? { Ok(v) => v, Err(e) => return bad("unreadable-after-upgrade", format!("{} saved by the {who} version ({} bytes) is refused: {e}", k.name(), b.len())) };
    let (x, y) = (old.text(), new.text());
    if let Err(e) = agree(k, &x, &y, ROUNDING) { return bad("read-differs", format!("{} saved by the {who} version: read by earlier and by current: {e}", k.name())); }
    Ok(Some((new, old)))
}

/// Files no version of the high-level library wrote, through readers that have no writer too.
fn foreign_files(c: &mut Ctx) -> Res {
    let all = ops::readers();
    let i = match c.w.draw(8) { 4 | 5 => all.iter().position(|k| k.name() == "MeshData").unwrap(), 6 | 7 => { let n = ops::DATA[c.w.usize(ops::DATA.len())].name(); all.iter().position(|k| k.name() == n).unwrap() }, 0 | 1 => all.len() - 1 - c.w.usize(ops::READONLY.len()), 2 => all.iter().position(|k| k.name() == "AnimData").unwrap(), _ => c.w.usize(all.len()) };
    let (k, o) = (all[i], oldops::readers()[i]);
    let p = small(c);
    let mut b = content(c, k, &p)?;
    let mut whole = true;
    if c.f.chance(1, 2) {
        whole = false;
        match c.f.draw(4) {
            0 => { damage::foreign(c, k, &mut b); }
            1 => { damage::alias(c, k, &mut b); }
            _ => { let f = damage::fields(c, k, &b); damage::damage(c, &mut b, &[], &f); }
        }
    }
    c.interesting = true;
    c.probe(k.name());
    note!(c, "{} reads {} bytes, {}", k.name(), b.len(), if whole { "whole" } else { "damaged" });
    let (x, y) = (oread(o, &b)?, c.read(k, &b)?);
    match (x, y) {
        (Ok(x), Ok(y)) => {
            c.probe("both_accept");
            let (s, t) = (x.text(), y.text());
            if let Err(e) = agree(k, &s, &t, ROUNDING) { return bad("read-differs", format!("{}: a file both versions accept: {e}", k.name())); }
        }
        (Ok(_), Err(e)) if whole => return bad("unreadable-after-upgrade", format!("{}: a file the earlier version reads is refused: {e}", k.name())),
        (Err(_), Ok(_)) => c.probe("only_current_accepts"),
        (Ok(_), Err(_)) => c.probe("only_earlier_accepts"),
        _ => c.probe("both_refuse"),
    }
    Ok(())
}
pub fn d06(c: &mut Ctx) -> Res {
    if c.w.draw(4) == 3 { return foreign_files(c); }
    let (k, o) = pair(c);
    let mut p = params(c);
    if p.size > 1 && !c.w.chance(1, 4) { p.size = 1; }
    if c.w.chance(1, 3) { p.json = true; }
    // The same value in both versions.
    let mut again = c.w.again();
    let q = oldops::gen::Params { size: p.size, json: p.json, valid: p.valid, wide: p.wide };
    let vn = guard("generating", || k.gen(&mut c.w, &p))?;
    let vo = guard("generating", || o.gen(&mut again, &q))?;
    let same = vn.text() == vo.text();
    c.probe(k.name());
    c.probe(if same { "same_value" } else { "values_differ" });
    let fo = obytes(&*vo)?;
    let fnew = c.bytes(k, &*vn)?;
    if let Ok(b) = &fnew { sizes(c, b.len()); }
    note!(c, "{}: {} earlier, {} current: {}", k.name(), fo.as_ref().map(|b| b.len()).unwrap_or(0), fnew.as_ref().map(|b| b.len()).unwrap_or(0), cut(&vn.text(), 300));
    if same {
        match (&fo, &fnew) {
            (Ok(a), Ok(b)) => {
                if k.layer() != Layer::Data { if a != b { return bad("bytes-differ", format!("{}: earlier and current save differ: {}", k.name(), bdiff(a, b))); } }
                else {
                    // What was written, as the earlier low-level reader sees it.
                    let i = ops::RAW.iter().position(|r| r.ext() == k.ext()).unwrap();
                    let (x, y) = (oread(oldops::RAW[i], a)?, oread(oldops::RAW[i], b)?);
                    match (x, y) {
                        (Ok(x), Ok(y)) => {
                            if let Err(e) = close(&without_buffers(&x.text()), &without_buffers(&y.text()), QUANTUM) { return bad("stored-differently", format!("{}: what earlier and current version store: {e}", k.name())); }
                            let (p, q) = (compressed_tracks(&*x), compressed_tracks(&*y));
                            if let Some(i) = (0..p.len().max(q.len())).find(|i| p.get(*i) != q.get(*i)) { return bad("stored-differently", format!("{}: compressed track {i} in what earlier and current version store: {:?} and {:?}", k.name(), p.get(i), q.get(i))); }
                            if !p.is_empty() { c.probe("compressed_track_headers"); }
                        }
                        (Ok(_), Err(e)) => return bad("unreadable-by-earlier", format!("{}: {e}", k.name())),
                        _ => (),
                    }
                }
            }
            (Ok(_), Err(e)) => return bad("upgrade-refuses-value", format!("{}: the earlier version saves it, the current one does not: {e}", k.name())),
            _ => { c.probe("unsavable"); }
        }
    }
    let mut images: Vec<(&str, Vec<u8>)> = vec![];
    if let Ok(b) = &fo { images.push(("earlier", b.clone())); }
    if let Ok(b) = &fnew { images.push(("current", b.clone())); }
    if images.is_empty() { return Ok(()); }
    let mut seen: Vec<OB> = vec![];
    for (who, b) in &images { if let Some((_, old)) = same_to_both(c, k, o, b, who)? { seen.push(old); } }
    if same && seen.len() == 2 { if let Err(e) = agree(k, &seen[0].text(), &seen[1].text(), QUANTUM) { return bad("stored-differently", format!("{}: what the earlier version reads from its own and from the current save: {e}", k.name())); } }

    // A store that outlives upgrades, downgrades and crashes.
    let (who, img) = images[c.w.usize(images.len())].clone();
    let path = format!("/simdisk/u.{}", k.ext());
    disk::reset();
    disk::put(&path, img.clone());
    let first = match oread(o, &img)? { Ok(v) => v.text(), Err(e) => return bad("unreadable-by-earlier", format!("{} of the {who} version: {e}", k.name())) };
    let mut cur = img;
    let steps = 1 + c.w.skew(5);
    for g in 0..steps {
        let new = c.w.draw(2) == 1;
        let mut plan = DPlan { seed: c.s.draw(1 << 32), chunk: [0, 0, 1, 7, 64, 4096][c.s.usize(6)], eintr: [0, 0, 2, 4][c.s.usize(4)], ..Default::default() };
        if cur.len() > 10_000 && plan.chunk > 0 && plan.chunk < 1000 { plan.chunk = 4096; }
        let crash = c.f.chance(1, 4);
        if crash { plan.crash_at = Some(1 + c.f.draw(8)); plan.crash_part = c.f.draw(257); }
        note!(c, "{} version loads and saves {path} again, {plan:?}", if new { "current" } else { "earlier" });
        c.probe(if new { "ran_current" } else { "ran_earlier" });
        disk::restart(plan);
        let r = if new {
            match c.load_path(k, &path)? { Ok(v) => Some(c.save_path(k, &*v, &path)?), Err(e) => { if !disk::with(|d| d.dead) { return bad("unreadable-after-upgrade", format!("{} step {g}: {e}", k.name())); } None } }
        } else {
            let l = guard("the earlier version reading", || o.load_path(&path))?;
            match l { Ok(v) => Some(guard("the earlier version writing", || v.save_path(&path))?), Err(e) => { if !disk::with(|d| d.dead) { return bad("unreadable-by-earlier", format!("{} step {g}: {e}", k.name())); } None } }
        };
        disk_faults(c);
        let dead = disk::with(|d| d.dead);
        disk::restart(DPlan::default());
        if dead {
            // The operator brings the last complete file back; the torn one must not look complete and different to either.
            c.probe("crash");
            let torn = disk::get(&path).unwrap_or_default();
            if let (Ok(a), Ok(b)) = (oread(o, &torn)?, c.read(k, &torn)?) { if let Err(e) = agree(k, &a.text(), &b.text(), ROUNDING) { return bad("read-differs", format!("{}: a torn file: {e}", k.name())); } }
            disk::put(&path, cur.clone());
            continue;
        }
        if let Some(Err(e)) = r { return bad("resave-failed", format!("{} step {g} by the {} version: {e}", k.name(), if new { "current" } else { "earlier" })); }
        let now = disk::get(&path).unwrap_or_default();
        if k.layer() != Layer::Data && now != cur { return bad("bytes-differ", format!("{} step {g} by the {} version: {}", k.name(), if new { "current" } else { "earlier" }, bdiff(&cur, &now))); }
        cur = now;
        c.interesting = true;
        let Some((_, old)) = same_to_both(c, k, o, &cur, if new { "current" } else { "earlier" })? else { continue };
        // Constant tracks may have been folded, names regenerated: compare what one more generation of either leads to.
        if k.layer() != Layer::Data { let t = old.text(); if t != first { return bad("content-drifts", format!("{} step {g}: {}", k.name(), diff(&first, &t))); } }
    }
    // JSON written by one version and read by the other.
    if p.json {
        if let (Some(Ok(jo)), Some(jn)) = (vo.json(), vn.json()) {
            let jn = match jn { Ok(j) => j, Err(e) => return bad("json-differs", format!("{}: {e}", k.name())) };
            if same {
                let (x, y): (Result<serde_json::Value, _>, Result<serde_json::Value, _>) = (serde_json::from_str(&jo), serde_json::from_str(&jn));
                if let (Ok(x), Ok(y)) = (x, y) { if x != y { return bad("json-differs", format!("{}: {}", k.name(), diff(&jo, &jn))); } }
            }
            let back = guard("the earlier version reading JSON", || o.from_json(&jo))?;
            if let Some(Ok(w)) = back {
                c.probe("json");
                match guard("reading JSON", || k.from_json(&jo))? {
                    Some(Ok(g)) => { let (x, y) = (w.text(), g.text()); if x != y { return bad("json-read-differs", format!("{}: {}", k.name(), diff(&x, &y))); } }
                    Some(Err(e)) => return bad("json-refused", format!("{}: JSON of the earlier version: {e}", k.name())),
                    None => (),
                }
                match guard("the earlier version reading JSON", || o.from_json(&jn))? {
                    Some(Ok(g)) => { if same { let (x, y) = (w.text(), g.text()); if x != y { return bad("json-read-differs", format!("{}: JSON of the current version read by the earlier one: {}", k.name(), diff(&x, &y))); } } }
                    Some(Err(e)) => return bad("json-refused", format!("{}: JSON of the current version: {e}", k.name())),
                    None => (),
                }
            }
        }
    }
    // Files of other tools, and damaged ones: what both accept, both read alike.
    if c.f.chance(1, 2) {
        let mut d = cur;
        match c.f.draw(3) {
            0 => { damage::foreign(c, k, &mut d); }
            1 => { damage::alias(c, k, &mut d); }
            _ => { let f = damage::fields(c, k, &d); damage::damage(c, &mut d, &[], &f); }
        }
        if let Ok(a) = oread(o, &d)? {
            if let Ok(b) = c.read(k, &d)? { c.probe("damaged_accepted"); if let Err(e) = agree(k, &a.text(), &b.text(), ROUNDING) { return bad("read-differs", format!("{}: a file of another tool or a damaged one: {e}", k.name())); } }
        }
    }
    Ok(())
}
