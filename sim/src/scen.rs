//! The scenarios: one per property.
use crate::damage;
use crate::engine::*;
use dstrt::disk::{self, DFault, DPlan};
use dstrt::stream::{FaultKind, Plan, SimStream};
use ops::gen::Params;
use ops::{Kind, Layer, Val};

pub fn run(prop: &str, c: &mut Ctx) -> Res {
    match prop {
        "S01" => s01(c), "S02" => s02(c), "S03" => s03(c), "S04" => s04(c),
        "D01" => d01(c), "D02" => d02(c), "D03" => d03(c), "D04" => d04(c), "D05" => d05(c), "D06" => crate::upgrade::d06(c),
        "F01" => f01(c), "F02" => f02(c),
        "R01" => r01(c), "R02" => r02(c),
        "N01" => crate::proc::n01(c), "N02" => crate::proc::n02(c),
        "J01" => crate::cli::j01(c), "J02" => crate::cli::j02(c),
        _ => panic!("unknown property {prop}"),
    }
}
pub fn forks(prop: &str) -> bool { matches!(prop, "N01" | "N02") }

pub type K = &'static dyn Kind;
pub type B = Box<dyn Val>;
pub fn pick(c: &mut Ctx, v: &[K]) -> K { v[c.w.usize(v.len())] }
/// Any type with a writer.
pub fn any_kind(c: &mut Ctx) -> K {
    match c.w.draw(7) { 0 | 1 | 2 => pick(c, &ops::RAW), 3 | 4 => pick(c, &ops::DATA), 5 => ops::RAW[12], _ => pick(c, &ops::DERIVED) }
}
pub fn params(c: &mut Ctx) -> Params { Params::draw(&mut c.w) }
pub fn small(c: &mut Ctx) -> Params { let mut p = params(c); p.size = p.size.min(2); p }
pub fn sizes(c: &mut Ctx, n: usize) { c.probe(match n { 0..=255 => "image_under_256", 256..=4095 => "image_under_4k", 4096..=65535 => "image_under_64k", _ => "image_over_64k" }); }

/// A valid value and its image. None when the type refuses to save it.
pub fn value(c: &mut Ctx, k: K, p: &Params) -> Res<Option<(B, Vec<u8>)>> {
    let v = guard(&format!("generating {}", k.name()), || k.gen(&mut c.w, p))?;
    match c.bytes(k, &*v)? {
        Ok(b) => { c.probe(k.name()); sizes(c, b.len()); note!(c, "value {}: {} bytes, {}", k.name(), b.len(), cut(&v.text(), 300)); Ok(Some((v, b))) }
        Err(e) => { note!(c, "value {} cannot be saved: {e}", k.name()); if p.valid && ops::must_save(&*v) { return bad("valid-refused", format!("{}: {e}", k.name())); } c.probe("unsavable"); Ok(None) }
    }
}
pub fn cut(s: &str, n: usize) -> String { if s.len() <= n { s.into() } else { let mut e = n; while !s.is_char_boundary(e) { e -= 1; } format!("{}..({} bytes)", &s[..e], s.len()) } }
/// Content for a reader: an image of its own type, of the raw type behind it, or (for the read-only readers) built by hand.
pub fn content(c: &mut Ctx, k: K, p: &Params) -> Res<Vec<u8>> {
    if k.name() == "ShdrRead" { return Ok(ops::data::shdr_file(&mut c.w)); }
    if k.name() == "MetaRead" { return Ok(ops::data::shader_binary(&mut c.w)); }
    if k.name() == "AnimData" && c.w.chance(1, 5) { c.probe("animation_1.2"); return Ok(ops::data::anim12_file(&mut c.w)); }
    if k.layer() == Layer::Data && c.w.chance(1, 3) {
        if let Some(raw) = ops::RAW.iter().find(|r| r.ext() == k.ext()) { if let Some((_, b)) = value(c, *raw, p)? { return Ok(b); } }
    }
    let b = value(c, k, p)?.map(|x| x.1).unwrap_or_default();
    if k.layer() == Layer::Data && b.len() < 20_000 && c.w.chance(1, 3) { if let Some(b) = rearranged(c, k, &b)? { return Ok(b); } }
    Ok(b)
}
/// A file of another tool: what was saved, with its parts in another order, repeated, split, or under each other's names.
fn rearranged(c: &mut Ctx, k: K, b: &[u8]) -> Res<Option<Vec<u8>>> {
    let Some(raw) = ops::RAW.iter().find(|r| r.ext() == k.ext()) else { return Ok(None) };
    let Ok(v) = c.read(*raw, b)? else { return Ok(None) };
    let Some(Ok(j)) = v.json() else { return Ok(None) };
    let Ok(mut j) = serde_json::from_str(&j) else { return Ok(None) };
    if ops::rearrange::rearrange(&mut j, &mut c.w) == 0 { return Ok(None) }
    let Some(Ok(w)) = guard("reading JSON", || raw.from_json(&j.to_string()))? else { return Ok(None) };
    let Ok(b) = c.bytes(*raw, &*w)? else { return Ok(None) };
    c.probe("rearranged");
    Ok(Some(b))
}
pub fn any_reader(c: &mut Ctx) -> K { if c.w.chance(1, 12) { pick(c, &ops::READONLY) } else { any_kind(c) } }
pub fn delivery(c: &mut Ctx) -> Plan {
    let t = &mut c.s;
    Plan { chunk: [1, 2, 3, 4, 7, 8, 9, 16, 64, 1000, 4096, 0][t.usize(12)], seed: t.draw(1 << 32), eintr: [0, 2, 3, 10, 50][t.usize(5)], ..Default::default() }
}
pub fn diff(a: &str, b: &str) -> String { ops::first_difference(a, b) }
pub fn bdiff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("{} and {} bytes, first difference at {n}: {:02x?} and {:02x?}", a.len(), b.len(), &a[n.min(a.len())..(n + 8).min(a.len())], &b[n.min(b.len())..(n + 8).min(b.len())])
}
/// Adjacency lists store no length: an early end shortens what comes last.
pub fn adj_prefix(k: K, full: &str, got: &dyn Val, want: &dyn Val) -> bool {
    let _ = full;
    if let (Some(g), Some(w)) = (got.any().downcast_ref::<ops::data::AdjData>(), want.any().downcast_ref::<ops::data::AdjData>()) {
        return g.entries.len() == w.entries.len() && g.entries.iter().zip(&w.entries).all(|(x, y)| x.mesh_object_index == y.mesh_object_index && y.vertex_adjacency.starts_with(&x.vertex_adjacency));
    }
    if let (Some(g), Some(w)) = (got.any().downcast_ref::<ops::raw::Adj>(), want.any().downcast_ref::<ops::raw::Adj>()) {
        return g.entries == w.entries && w.index_buffer.starts_with(&g.index_buffer);
    }
    let _ = k;
    false
}

// ------------------------------------------------------------------ streams
fn s01(c: &mut Ctx) -> Res {
    let k = any_reader(c);
    let p = params(c);
    let mut b = content(c, k, &p)?;
    match c.f.draw(4) {
        0 => { damage::foreign(c, k, &mut b); }
        1 => { let f = damage::fields(c, k, &b); damage::damage(c, &mut b, &[], &f); }
        2 if b.len() > 1 => { let n = c.f.usize(b.len()); b.truncate(n); c.fault("early_end", 1); }
        _ => (),
    }
    let base = c.read(k, &b)?;
    let text = base.as_ref().map(|v| v.text()).ok();
    let rounds = 1 + c.s.usize(3);
    for _ in 0..rounds {
        let plan = delivery(c);
        note!(c, "deliver {} bytes of {} with {plan:?}", b.len(), k.name());
        let mut s = SimStream::new(b.clone(), plan.clone());
        let r = c.load(k, &mut s)?;
        c.fired(&s.fired.clone());
        match (&base, &r) {
            (Ok(x), Ok(y)) => {
                let t = y.text();
                if Some(&t) != text.as_ref() { return bad("delivery-changed-value", format!("{} from {} bytes, {plan:?}: {}", k.name(), b.len(), diff(text.as_ref().unwrap(), &t))); }
                let (p, q) = (c.bytes(k, &**x)?, c.bytes(k, &**y)?);
                if p.is_ok() != q.is_ok() || p.as_ref().ok() != q.as_ref().ok() { return bad("delivery-changed-value", format!("{}: the two loads save to different bytes", k.name())); }
            }
            (Err(_), Err(_)) => c.probe("both_fail"),
            (Ok(_), Err(e)) => return bad("delivery-failed", format!("{} from {} bytes loads whole but fails with {plan:?}: {e}", k.name(), b.len())),
            (Err(e), Ok(_)) => return bad("delivery-accepted", format!("{} from {} bytes fails whole ({e}) but loads with {plan:?}", k.name(), b.len())),
        }
    }
    Ok(())
}
fn s02(c: &mut Ctx) -> Res {
    let k = any_reader(c);
    let p = small(c);
    let b = content(c, k, &p)?;
    let mut s = SimStream::reader(&b);
    let base = match c.load(k, &mut s)? { Ok(v) => v, Err(_) => { c.probe("content_refused"); return Ok(()); } };
    let text = base.text();
    let n = s.ops.max(1);
    let rounds = 1 + c.f.usize(6);
    for _ in 0..rounds {
        let mut plan = if c.f.chance(1, 3) { delivery(c) } else { Plan::default() };
        // 0..: hard error, then early end
        let mode = c.f.draw(5);
        let mut data = b.clone();
        // With short deliveries the same load takes more calls.
        let scale = if plan.chunk > 0 { let mut s = SimStream::new(b.clone(), plan.clone()); let _ = c.load(k, &mut s)?; s.ops } else { n };
        let at = match c.f.draw(4) { 0 => scale - c.f.draw(scale.min(4)), _ => 1 + c.f.draw(scale) };
        let (mut hard, mut sticky) = (false, false);
        match mode {
            0 | 1 | 2 => { let e = c.f.draw(8) as u8; hard = e != 1; sticky = c.f.chance(1, 2); plan.fault = Some((at, FaultKind::Err(e), sticky)); }
            3 => { plan.fault = Some((at, FaultKind::Eof, true)); }
            _ => { if data.is_empty() { continue; } let m = match c.f.draw(3) { 0 => data.len() - 1 - c.f.usize(data.len().min(9)), _ => c.f.usize(data.len()) }; data.truncate(m); c.fault("early_end", 1); }
        }
        note!(c, "{}: {} of {} bytes, {plan:?} (a whole load takes {scale} calls)", k.name(), data.len(), b.len());
        let mut s = SimStream::new(data, plan.clone());
        let short = s.data.len();
        let r = c.load(k, &mut s)?;
        let fired = s.fired.clone();
        c.fired(&fired);
        match r {
            Err(_) => c.probe("reported"),
            Ok(v) => {
                let t = v.text();
                if t != text && !(!(hard && fired.err > 0) && adj_prefix(k, &text, &*v, &*base)) {
                    return bad("fault-became-data", format!("{} with {plan:?}, {short} of {} bytes: {}", k.name(), b.len(), diff(&text, &t)));
                }
                // A call that fails once may be made again by a reader that tries alternatives; one that keeps failing may not be ignored.
                if hard && sticky && fired.err > 0 { return bad("fault-swallowed", format!("{} loaded although a stream call failed: {plan:?}", k.name())); }
                c.probe("complete_despite_end");
            }
        }
    }
    match c.read(k, &b)? {
        Ok(v) => { let t = v.text(); if t != text { return bad("second-load-differs", format!("{}: {}", k.name(), diff(&text, &t))); } }
        Err(e) => return bad("second-load-failed", format!("{} after a failed load: {e}", k.name())),
    }
    Ok(())
}
fn writable(c: &mut Ctx) -> (K, Params) {
    let k = any_kind(c);
    let mut p = params(c);
    if k.layer() == Layer::Data && c.w.chance(1, 8) { p.valid = false; }
    (k, p)
}
fn s03(c: &mut Ctx) -> Res {
    let (k, p) = writable(c);
    let v = guard("generating", || k.gen(&mut c.w, &p))?;
    c.probe(k.name());
    let base = c.bytes(k, &*v)?;
    if let Ok(b) = &base { sizes(c, b.len()); }
    let rounds = 1 + c.s.usize(2);
    for _ in 0..rounds {
        let plan = delivery(c);
        note!(c, "save {} with {plan:?}", k.name());
        let mut w = SimStream::new(vec![], plan.clone());
        let r = c.save(k, &*v, &mut w)?;
        c.fired(&w.fired.clone());
        match (&base, &r) {
            (Ok(b), Ok(())) => if *b != w.data { return bad("acceptance-changed-bytes", format!("{} with {plan:?}: {}", k.name(), bdiff(b, &w.data))); },
            (Err(_), Err(_)) => c.probe("unsavable"),
            (Ok(_), Err(e)) => return bad("acceptance-failed-save", format!("{} saves whole but fails with {plan:?}: {e}", k.name())),
            (Err(e), Ok(())) => return bad("acceptance-saved", format!("{} fails whole ({e}) but saves with {plan:?}", k.name())),
        }
    }
    if let Some(f) = v.any().downcast_ref::<ops::raw::SsbhFile>() {
        let plan = delivery(c);
        let mut w = SimStream::new(vec![], plan);
        let r = guard("typed writer", || ops::raw::typed_save(f, &mut w))?;
        c.fired(&w.fired.clone());
        match (&base, r) {
            (Ok(b), Ok(())) => if *b != w.data { return bad("typed-writer-differs", format!("{}: {}", k.name(), bdiff(b, &w.data))); },
            (Err(_), Err(_)) => (),
            (a, r) => return bad("typed-writer-differs", format!("any-type: {:?}, typed: {r:?}", a.as_ref().map(|b| b.len()))),
        }
    }
    if k.has_paths() {
        disk::reset();
        let mut plan = DPlan { seed: c.s.draw(1 << 32), chunk: [0, 1, 3, 16, 1000, 70_000][c.s.usize(6)], eintr: [0, 2, 5][c.s.usize(3)], ..Default::default() };
        if base.as_ref().map(|b| b.len()).unwrap_or(0) > 20_000 { plan.chunk = plan.chunk.max(1000); if plan.chunk < 1000 { plan.chunk = 0; } }
        disk::restart(plan.clone());
        let p = format!("/simdisk/a.{}", k.ext());
        let typed = c.w.chance(1, 2);
        let r = match v.any().downcast_ref::<ops::raw::SsbhFile>() { Some(f) if typed => guard("typed path writer", || ops::raw::typed_save_path(f, &p))?, _ => c.save_path(k, &*v, &p)? };
        disk_faults(c);
        match (&base, r) {
            (Ok(b), Ok(())) => { let d = disk::get(&p); if d.as_ref() != Some(b) { return bad("path-writer-differs", format!("{} with {plan:?}: {}", k.name(), bdiff(b, &d.unwrap_or_default()))); } }
            (Err(_), Err(_)) => (),
            (a, r) => return bad("path-writer-differs", format!("{} {plan:?}: stream {:?}, path {r:?}", k.name(), a.as_ref().map(|b| b.len()))),
        }
    }
    Ok(())
}
pub fn disk_faults(c: &mut Ctx) -> u64 {
    let log = disk::with(|d| d.log.clone());
    let mut hard = 0;
    for r in &log { match r {
        disk::Rec::Fault { kind, .. } => { c.fault(&format!("disk_{}", disk::FAULTS[*kind as usize]), 1); if *kind >= 3 && *kind != 8 { hard += 1; } }
        disk::Rec::Crash { .. } => c.fault("crash", 1),
        _ => (),
    } }
    c.st.ops += disk::with(|d| d.ops);
    hard
}
fn s04(c: &mut Ctx) -> Res {
    let k = any_kind(c);
    let p = small(c);
    let Some((v, b)) = value(c, k, &p)? else { return Ok(()) };
    let text = v.text();
    let mut w = SimStream::writer();
    let _ = c.save(k, &*v, &mut w)?;
    let n = w.ops.max(1);
    let rounds = 1 + c.f.usize(6);
    for _ in 0..rounds {
        let mut plan = if c.f.chance(1, 3) { delivery(c) } else { Plan::default() };
        let scale = if plan.chunk > 0 { let mut w = SimStream::new(vec![], plan.clone()); let _ = c.save(k, &*v, &mut w)?; w.ops } else { n };
        let at = match c.f.draw(4) { 0 => scale - c.f.draw(scale.min(4)), _ => 1 + c.f.draw(scale) };
        match c.f.draw(4) {
            0 | 1 => plan.fault = Some((at, FaultKind::Err(c.f.draw(8) as u8), c.f.chance(1, 2))),
            2 => plan.fault = Some((at, FaultKind::Zero, c.f.chance(1, 2))),
            _ => plan.capacity = Some(match c.f.draw(3) { 0 => (b.len() as u64).saturating_sub(1 + c.f.draw(8)), _ => c.f.draw(b.len() as u64 + 1) }),
        }
        note!(c, "save {} ({} bytes, {scale} calls) with {plan:?}", k.name(), b.len());
        let mut w = SimStream::new(vec![], plan.clone());
        let r = c.save(k, &*v, &mut w)?;
        let f = w.fired.clone();
        c.fired(&f);
        let hit = f.err + f.full + if matches!(plan.fault, Some((_, FaultKind::Zero, _))) { f.zero } else { 0 };
        match r {
            Err(_) => { c.probe("reported"); if hit == 0 { return bad("spurious-failure", format!("{} failed without a fault: {plan:?}", k.name())); } }
            Ok(()) => {
                if w.data != b { return bad("incomplete-save-reported-ok", format!("{} {plan:?}: {}", k.name(), bdiff(&b, &w.data))); }
                if f.err + f.zero > 0 { return bad("fault-swallowed", format!("{} saved although a stream call failed: {plan:?}", k.name())); }
            }
        }
        if v.text() != text { return bad("value-changed", format!("{} after a failed save: {}", k.name(), diff(&text, &v.text()))); }
    }
    match c.bytes(k, &*v)? { Ok(x) if x == b => Ok(()), Ok(x) => bad("retry-differs", format!("{}: {}", k.name(), bdiff(&b, &x))), Err(e) => bad("retry-failed", format!("{}: {e}", k.name())) }
}

// ------------------------------------------------------------------ durability histories
struct Slot { path: String, k: K, want: Option<B>, img: Vec<u8>, gens: usize, torn: bool }
/// Histories of save, replace, crash, restart, reload, resave on one simulated store, against a map of what each path must hold.
/// Numbers that are equal and print differently.
fn plain(s: &str) -> String { s.replace("-0.0", "0.0") }
fn history(c: &mut Ctx, kinds: &[K], exact: bool) -> Res {
    disk::reset();
    disk::restart(DPlan::default());
    let nslots = 1 + c.w.skew(2);
    let mut slots: Vec<Slot> = vec![];
    let big = c.w.chance(1, 3);
    for i in 0..nslots { let k = kinds[c.w.usize(kinds.len())]; slots.push(Slot { path: format!("/simdisk/f{i}.{}", k.ext()), k, want: None, img: vec![], gens: 0, torn: false }); }
    let steps = 1 + c.w.skew(6);
    let mut crashes = 0;
    for _ in 0..steps {
        let i = c.w.usize(slots.len());
        let k = slots[i].k;
        let path = slots[i].path.clone();
        let action = c.w.draw(6);
        match action {
            0 | 1 | 2 => {
                // save a new or an edited value
                let edit = action == 2;
                let v = match (&slots[i].want, edit) {
                    (Some(w), true) => { c.probe("edit"); guard("editing", || w.edit(&mut c.w))? }
                    _ => { let mut p = params(c); p.wide = true; if !big { p.size = p.size.min(1); } guard("generating", || k.gen(&mut c.w, &p))? }
                };
                if let Some(w) = &slots[i].want { if exact && guard("comparing", || k.equal(&**w, &*v))? == Some(true) && plain(&w.text()) != plain(&v.text()) { return bad("different-are-equal", format!("{}: {}", k.name(), diff(&w.text(), &v.text()))); } }
                let img = match c.bytes(k, &*v)? { Ok(b) => b, Err(e) => { note!(c, "{} cannot be saved: {e}", k.name()); if ops::must_save(&*v) { return bad("valid-refused", format!("{}: {e}", k.name())); } c.probe("unsavable"); continue } };
                if k.name() == "AnimData" { if let Err(e) = ops::anim::uncompressed_exact(&*v, &img) { return bad("reload-differs", format!("AnimData: {e}")); } }
                c.probe(k.name());
                sizes(c, img.len());
                if k.layer() == Layer::Data && c.w.chance(1, 6) { c.probe("layers"); if let Err(e) = guard("converting", || v.routes())? { return bad("layers-differ", format!("{}: {e}", k.name())); } }
                let mut plan = quiet_plan(c, img.len());
                let crash = c.f.chance(1, 4);
                if crash { plan.crash_at = Some(1 + c.f.draw(6)); plan.crash_part = c.f.draw(257); }
                note!(c, "save {} to {path}: {} bytes, {plan:?}, {}", k.name(), img.len(), cut(&v.text(), 200));
                disk::restart(plan);
                let r = c.save_path(k, &*v, &path)?;
                disk_faults(c);
                let dead = disk::with(|d| d.dead);
                disk::restart(DPlan::default());
                if dead { slots[i].torn = true; slots[i].want = None; c.probe("crash_during_save"); crashes += 1; }
                else {
                    if let Err(e) = r { return bad("save-failed", format!("{} to {path}: {e}", k.name())); }
                    let d = disk::get(&path).unwrap_or_default();
                    if d != img { return bad("stored-bytes-differ", format!("{}: {}", k.name(), bdiff(&img, &d))); }
                    slots[i].img = img; slots[i].want = Some(v); slots[i].gens = 1; slots[i].torn = false;
                }
            }
            3 => { // restart: only the disk survives, which is what it is
                note!(c, "restart"); c.probe("restart"); disk::restart(DPlan::default());
            }
            4 => { // crash while loading
                let plan = DPlan { crash_at: Some(1 + c.f.draw(5)), ..Default::default() };
                disk::restart(plan);
                let _ = c.load_path(k, &path)?;
                disk_faults(c);
                disk::restart(DPlan::default());
                crashes += 1;
            }
            _ => { // reload and save the reloaded value over the old file
                if slots[i].want.is_some() {
                    check(c, &slots[i], exact)?;
                    let v = match c.load_path(k, &path)? { Ok(v) => v, Err(e) => return bad("reload-failed", format!("{}: {e}", k.name())) };
                    match c.save_path(k, &*v, &path)? {
                        Ok(()) => (),
                        Err(e) => return bad("resave-failed", format!("{}: {e}", k.name())),
                    }
                    let d = disk::get(&path).unwrap_or_default();
                    if exact && d != slots[i].img { return bad("resave-differs", format!("{}: {}", k.name(), bdiff(&slots[i].img, &d))); }
                    slots[i].gens += 1;
                    slots[i].img = d;
                    c.probe("generation");
                }
            }
        }
    }
    if crashes == 0 && c.f.chance(1, 2) { disk::restart(DPlan::default()); c.probe("restart"); }
    for s in &slots {
        if s.want.is_some() { check(c, s, exact)?; c.interesting = true; }
        else if s.torn { let _ = c.load_path(s.k, &s.path)?; }
    }
    Ok(())
}
fn quiet_plan(c: &mut Ctx, n: usize) -> DPlan {
    let t = &mut c.s;
    let mut p = DPlan { seed: t.draw(1 << 32), chunk: [0, 0, 1, 7, 64, 4096][t.usize(6)], eintr: [0, 0, 2, 4][t.usize(4)], ..Default::default() };
    if n > 10_000 && p.chunk > 0 && p.chunk < 1000 { p.chunk = 4096; }
    p
}
fn check(c: &mut Ctx, s: &Slot, exact: bool) -> Res {
    let want = s.want.as_ref().unwrap();
    let plan = quiet_plan(c, s.img.len());
    disk::restart(plan);
    let got = c.load_path(s.k, &s.path)?;
    disk_faults(c);
    disk::restart(DPlan::default());
    let got = match got { Ok(v) => v, Err(e) => return bad("reload-failed", format!("{} ({} bytes, generation {}): {e}", s.k.name(), s.img.len(), s.gens)) };
    if let Err(e) = guard("comparing", || s.k.same(&**want, &*got, s.gens))? { return bad("reload-differs", format!("{} generation {}: {e}", s.k.name(), s.gens)); }
    if exact {
        if guard("comparing", || s.k.equal(&**want, &*got))? == Some(false) && !want.text().contains("NaN") { return bad("reload-differs", format!("{}: the reloaded value prints the same and is not == to the original: {}", s.k.name(), cut(&want.text(), 300))); }
        match c.bytes(s.k, &*got)? { Ok(b) if b == s.img => (), Ok(b) => return bad("resave-differs", format!("{}: {}", s.k.name(), bdiff(&s.img, &b))), Err(e) => return bad("resave-failed", format!("{}: {e}", s.k.name())) }
        if let (Some(f), Some(g)) = (want.any().downcast_ref::<ops::raw::SsbhFile>(), got.any().downcast_ref::<ops::raw::SsbhFile>()) {
            if ops::raw::tag_of(f) != ops::raw::tag_of(g) { return bad("reload-differs", "type changed"); }
        }
    }
    Ok(())
}
fn d01(c: &mut Ctx) -> Res {
    if c.w.draw(250) == 249 {
        let k = ops::ALIGN_MID[0];
        let p = params(c);
        let v = guard("generating", || k.gen(&mut c.w, &p))?;
        let b = match c.bytes(k, &*v)? { Ok(b) => b, Err(e) => return bad("valid-refused", format!("{}: {e}", k.name())) };
        let r = c.read(k, &b)?.and_then(|g| k.same(&*v, &*g, 1));
        return match r { Ok(()) => Ok(()), Err(e) => bad("field-after-alignment-lost", format!("{}: {e}", k.name())) };
    }
    let kinds: Vec<K> = match c.w.draw(3) { 0 => ops::DERIVED.to_vec(), _ => ops::RAW.to_vec() };
    history(c, &kinds, true)
}
fn d02(c: &mut Ctx) -> Res { let kinds: Vec<K> = ops::DATA[..7].to_vec(); let k = match c.w.draw(3) { 0 => vec![ops::DATA[0]], _ => kinds }; history(c, &k, false) }
fn d03(c: &mut Ctx) -> Res { history(c, &[ops::DATA[7]], false) }

/// One documented limit broken: refused by stream and by path, whatever the destination does, and nothing is lost.
fn d05(c: &mut Ctx) -> Res {
    let kinds = ops::invalid::kinds();
    let k = match c.w.draw(3) { 0 => kinds[0], _ => pick(c, &kinds) };
    let mut p = params(c);
    if p.size >= 3 && !c.w.chance(1, 10) { p.size = 1; }
    let v = guard("generating", || k.gen(&mut c.w, &p))?;
    if !ops::must_save(&*v) { return Ok(()); }
    let img = match c.bytes(k, &*v)? { Ok(b) => b, Err(e) => return bad("valid-refused", format!("{}: {e}", k.name())) };
    c.probe(k.name());
    disk::reset();
    disk::restart(DPlan::default());
    let path = format!("/simdisk/d.{}", k.ext());
    // What the path holds: nothing, or the last good save.
    if c.w.chance(3, 4) { if let Err(e) = c.save_path(k, &*v, &path)? { return bad("save-failed", format!("{}: {e}", k.name())); } }
    let prior = disk::get(&path);
    let rounds = 1 + c.w.usize(3);
    for _ in 0..rounds {
        let Some((w, what)) = guard("spoiling", || ops::invalid::spoil(&*v, &mut c.w))? else { c.probe("nothing_to_spoil"); continue };
        c.interesting = true;
        c.fault(&format!("invalid_{what}"), 1);
        let text = w.text();
        note!(c, "{} with one {what} out of bounds: {}", k.name(), cut(&text, 400));
        let plan = delivery(c);
        let mut s = SimStream::new(vec![], plan.clone());
        if c.save(k, &*w, &mut s)?.is_ok() { return bad("invalid-saved", format!("{} with {what} out of bounds was saved ({} bytes)", k.name(), s.data.len())); }
        c.fired(&s.fired.clone());
        disk::restart(quiet_plan(c, img.len()));
        let r = c.save_path(k, &*w, &path)?;
        disk_faults(c);
        disk::restart(DPlan::default());
        if r.is_ok() { return bad("invalid-saved", format!("{} with {what} out of bounds was saved to a path", k.name())); }
        if prior.is_some() && disk::get(&path) != prior { return bad("old-file-lost", format!("{} with {what} out of bounds: the previous file changed", k.name())); }
        if w.text() != text { return bad("value-changed", k.name()); }
    }
    // The repaired value saves as if nothing had happened.
    if let Err(e) = c.save_path(k, &*v, &path)? { return bad("retry-failed", format!("{}: {e}", k.name())); }
    if disk::get(&path).as_ref() != Some(&img) { return bad("retry-differs", k.name()); }
    match c.load_path(k, &path)? { Ok(g) => if let Err(e) = k.same(&*v, &*g, 1) { return bad("reload-differs", format!("{}: {e}", k.name())); }, Err(e) => return bad("reload-failed", format!("{}: {e}", k.name())) }
    Ok(())
}
fn d04(c: &mut Ctx) -> Res {
    let k = any_kind(c);
    let p = small(c);
    let mut b = content(c, k, &p)?;
    let orig = match c.read(k, &b)? { Ok(v) => v, Err(_) => { c.probe("content_refused"); return Ok(()) } };
    let mut pristine = true;
    let mode = c.f.draw(4);
    if mode != 1 { let n = damage::foreign(c, k, &mut b); note!(c, "moved {n} pointees"); }
    if pristine && mode != 1 {
        match c.read(k, &b)? {
            Ok(v) => { let (x, y) = (orig.text(), v.text()); if x != y && !adj_tail(k) { return bad("foreign-layout-misread", format!("{}: {}", k.name(), diff(&x, &y))); } }
            Err(e) => if !adj_tail(k) { return bad("foreign-layout-refused", format!("{}: {e}", k.name())) },
        }
    }
    if mode == 1 || mode == 2 { let f = damage::fields(c, k, &b); let other = orig.bytes().unwrap_or_default(); damage::damage(c, &mut b, &other, &f); pristine = false; }
    if mode == 3 { damage::alias(c, k, &mut b); pristine = false; }
    let v1 = match c.read(k, &b)? { Ok(v) => v, Err(_) => { c.probe("damage_refused"); return Ok(()) } };
    c.probe("accepted");
    let b1 = match c.bytes(k, &*v1)? { Ok(x) => x, Err(e) => { note!(c, "saving what was loaded failed: {e}"); c.probe("resave_refused"); if pristine && k.layer() != Layer::Data { return bad("accepted-not-savable", format!("{}: {e}", k.name())); } return Ok(()) } };
    let v2 = match c.read(k, &b1)? { Ok(v) => v, Err(e) => return bad("saved-not-loadable", format!("{}: {e}; was {}", k.name(), cut(&v1.text(), 2000))) };
    if k.layer() == Layer::Data {
        let (x, y) = (structure(&*v1), structure(&*v2));
        if x != y { return bad("structure-changed", format!("{}: {}", k.name(), diff(&x, &y))); }
        if pristine { if let Err(e) = k.same(&*v1, &*v2, 2) { return bad("reload-differs", format!("{}: {e}", k.name())); } }
        return Ok(());
    }
    let (x, y) = (v1.text(), v2.text());
    if x != y { return bad("reload-differs", format!("{}: {}", k.name(), diff(&x, &y))); }
    let gens = 1 + c.w.usize(2);
    let mut last = b1;
    let mut v = v2;
    for g in 0..gens {
        let n = match c.bytes(k, &*v)? { Ok(x) => x, Err(e) => return bad("resave-failed", format!("{}: {e}", k.name())) };
        if n != last { return bad("not-a-fixed-point", format!("{} generation {}: {}", k.name(), g + 2, bdiff(&last, &n))); }
        v = match c.read(k, &n)? { Ok(v) => v, Err(e) => return bad("saved-not-loadable", format!("{}: {e}", k.name())) };
        last = n;
    }
    Ok(())
}
/// Content appended to an adjacency file is part of its list.
fn adj_tail(k: K) -> bool { k.ext() == "adjb" }
/// Names, counts and order, without numbers that are stored with limited precision.
fn structure(v: &dyn Val) -> String {
    use ops::data::*;
    let a = v.any();
    if let Some(m) = a.downcast_ref::<MeshData>() {
        let attr = |v: &Vec<AttributeData>| v.iter().map(|a| match &a.data { VectorData::Vector2(x) => (2, x.len()), VectorData::Vector3(x) => (3, x.len()), VectorData::Vector4(x) => (4, x.len()) }).collect::<Vec<_>>();
        let o: Vec<_> = m.objects.iter().map(|o| (o.name.clone(), o.subindex, o.parent_bone_name.clone(), o.vertex_indices.clone(), attr(&o.positions), attr(&o.normals), attr(&o.tangents),
            attr(&o.texture_coordinates), attr(&o.color_sets), o.bone_influences.iter().map(|b| (b.bone_name.clone(), b.vertex_weights.len())).collect::<Vec<_>>())).collect();
        return format!("{o:?}");
    }
    if let Some(d) = a.downcast_ref::<ops::anim::AnimData>() {
        return format!("{:?}", d.groups.iter().map(|g| (g.group_type, g.nodes.iter().map(|n| (n.name.clone(), n.tracks.iter().map(|t| (t.name.clone(), std::mem::discriminant(&t.values), t.transform_flags)).collect::<Vec<_>>())).collect::<Vec<_>>())).collect::<Vec<_>>());
    }
    if let Some(m) = a.downcast_ref::<MatlData>() {
        return format!("{:?}", m.entries.iter().map(|e| (e.material_label.clone(), e.shader_label.clone(), e.blend_states.len(), e.floats.len(), e.booleans.len(), e.vectors.len(), e.rasterizer_states.len(), e.samplers.len(), &e.textures, e.uv_transforms.len())).collect::<Vec<_>>());
    }
    let mut s = String::new();
    v.debug(&mut s);
    s
}

// ------------------------------------------------------------------ files
fn f01(c: &mut Ctx) -> Res {
    let ks: Vec<K> = ops::all().into_iter().filter(|k| k.has_paths()).collect();
    let k = pick(c, &ks);
    let mut p = params(c);
    let valid = !(k.layer() == Layer::Data && c.w.chance(1, 5));
    p.valid = valid;
    let v = guard("generating", || k.gen(&mut c.w, &p))?;
    c.probe(k.name());
    let img = c.bytes(k, &*v)?;
    let path = path_name(c, k.ext());
    disk::reset();
    let prior = match c.w.draw(5) {
        0 => None,
        1 => Some(vec![0xEE; c.w.usize(40)]),
        2 => Some(vec![0xEE; img.as_ref().map(|b| b.len()).unwrap_or(100) + 1 + c.w.usize(5000)]),
        3 => { let mut q = p.clone(); q.valid = true; value(c, k, &q)?.map(|x| x.1) }
        _ => Some(img.clone().unwrap_or_default().into_iter().map(|x| !x).collect()),
    };
    if let Some(d) = &prior { disk::put(&path, d.clone()); }
    let others = bystanders(c, &path);
    for (f, d) in &others { disk::put(f, d.clone()); }
    let n = img.as_ref().map(|b| b.len()).unwrap_or(0);
    let mut plan = quiet_plan(c, n);
    let mode = c.f.draw(3);
    if mode > 0 {
        for _ in 0..1 + c.f.usize(2) {
            let class = [1u8, 3, 3, 3, 0][c.f.usize(5)];
            let nth = if class == 3 || class == 0 { 1 + c.f.draw(if plan.chunk > 0 { (n as u64 / plan.chunk.max(1) * 2).clamp(1, 60) } else { 3 }) } else { 1 };
            let kind = match class { 1 => [5u8, 6, 3, 4][c.f.usize(4)], _ => [3u8, 4, 9][c.f.usize(3)] };
            plan.faults.push(DFault { class, nth, kind, sticky: c.f.chance(1, 2) });
        }
        if c.f.chance(1, 4) { plan.capacity = Some(c.f.draw(n as u64 + 2)); }
    }
    note!(c, "save {} ({n} bytes) over {:?} with {plan:?}", k.name(), prior.as_ref().map(|p| p.len()));
    disk::restart(plan.clone());
    // Named in full, or from the working directory.
    let name = if c.w.chance(1, 4) { unsafe { disk::CWD = true; } path.replace(disk::ROOT, if c.w.chance(1, 3) { "./" } else { "" }) } else { path.clone() };
    let r = c.save_path(k, &*v, &name);
    unsafe { disk::CWD = false; }
    let r = r?;
    let hard = disk_faults(c);
    disk::restart(DPlan::default());
    let now = disk::get(&path);
    match (&r, &img) {
        (Ok(()), Ok(b)) => {
            if now.as_ref() != Some(b) { return bad("incomplete-file-reported-ok", format!("{} over {:?} bytes with {plan:?}: {}", k.name(), prior.as_ref().map(|p| p.len()), bdiff(b, &now.unwrap_or_default()))); }
            if hard > 0 { return bad("fault-swallowed", format!("{} with {plan:?}", k.name())); }
            match c.load_path(k, &path)? {
                Ok(g) => if let Err(e) = k.same(&*v, &*g, 1) { return bad("reload-differs", format!("{}: {e}", k.name())); },
                Err(e) => return bad("reload-failed", format!("{}: {e}", k.name())),
            }
        }
        (Err(e), Ok(_)) => { c.probe("reported"); if hard == 0 { return bad("spurious-failure", format!("{} with {plan:?}: {e}", k.name())); } }
        (Ok(()), Err(e)) => return bad("unsavable-saved", format!("{}: {e} when written to a stream", k.name())),
        (Err(_), Err(_)) => {
            c.probe("unsavable_refused"); c.interesting = true;
            if now != prior && prior.is_some() { return bad("old-file-lost", format!("{} cannot be saved, and the file that was there changed from {} to {:?} bytes", k.name(), prior.unwrap().len(), now.map(|n| n.len()))); }
        }
    }
    let mut rest = disk::list();
    rest.retain(|f| f.0 != path);
    if rest != others { return bad("other-file-touched", format!("{}: writing {path} left {:?}", k.name(), rest.iter().map(|f| (&f.0, f.1.len())).collect::<Vec<_>>())); }
    // A healthy retry succeeds.
    if img.is_ok() && r.is_err() {
        if let Err(e) = c.save_path(k, &*v, &path)? { return bad("retry-failed", format!("{}: {e}", k.name())); }
        if disk::get(&path).as_ref() != img.as_ref().ok() { return bad("retry-differs", k.name()); }
    }
    // Reading with faults never passes wrong data and never changes the file.
    if let Ok(b) = &img {
        let before = disk::list();
        let mut plan = quiet_plan(c, b.len());
        let class = [1u8, 2, 2, 4][c.f.usize(4)];
        if c.f.chance(2, 3) { plan.faults.push(DFault { class, nth: 1 + c.f.draw(3), kind: [3u8, 5, 6][c.f.usize(3)], sticky: c.f.chance(1, 2) }); }
        if c.f.chance(1, 4) { plan.lie_size = Some(c.f.draw(b.len() as u64 + 1)); c.fault("disk_stale_size", 1); }
        note!(c, "load with {plan:?}");
        disk::restart(plan.clone());
        let r = c.load_path(k, &path)?;
        let log = disk::with(|d| d.log.clone());
        let hard = disk_faults(c);
        let _ = log;
        disk::restart(DPlan::default());
        if disk::list() != before { return bad("load-changed-disk", k.name()); }
        match r {
            Ok(g) => {
                if let Err(e) = k.same(&*v, &*g, 1) { return bad("fault-became-data", format!("{} with {plan:?}: {e}", k.name())); }
                if hard > 0 && class != 4 && plan.faults.iter().all(|f| f.sticky) { return bad("fault-swallowed", format!("load of {} with {plan:?}", k.name())); }
            }
            Err(e) => if hard == 0 { return bad("spurious-failure", format!("load of {} with {plan:?}: {e}", k.name())); },
        }
    }
    Ok(())
}
/// A path as users name them.
fn path_name(c: &mut Ctx, ext: &str) -> String {
    let n = match c.w.draw(10) {
        0 => "t".into(),
        1 => "a b.c/t.v2".to_string() + "." + ext,
        2 => format!(".{ext}"),
        3 => format!("T.{}", ext.to_uppercase()),
        4 => format!("t.{ext}.old"),
        5 => format!("\u{fc}/\u{540d}.{ext}"),
        6 => format!("{}.{ext}", "n".repeat(200)),
        _ => format!("t.{ext}"),
    };
    format!("/simdisk/{n}")
}
/// Files next to it that are none of a writer's business, some with names a careless writer might use itself.
fn bystanders(c: &mut Ctx, path: &str) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![("/simdisk/bystander.bin".to_string(), vec![7; 99])];
    let (dir, name) = path.rsplit_once('/').unwrap();
    let stem = match name.rsplit_once('.') { Some((s, _)) if !s.is_empty() => s, _ => name };
    let names = [format!("{path}.tmp"), format!("{path}.bak"), format!("{path}~"), format!("{dir}/{stem}.tmp"), format!("{dir}/{stem}.bak"), format!("{dir}/.{name}.tmp"), format!("{dir}/{stem}"), format!("{path}.new")];
    for n in names { if c.w.chance(1, 4) && n != path && v.iter().all(|x| x.0 != n) { let len = c.w.usize(300); v.push((n, vec![9; len])); } }
    v.sort();
    v
}
fn f02(c: &mut Ctx) -> Res {
    let k = if c.w.chance(1, 8) { pick(c, &ops::DERIVED) } else { let ks: Vec<K> = ops::all().into_iter().filter(|k| k.has_paths()).collect(); pick(c, &ks) };
    let p = small(c);
    let Some((new, img)) = value(c, k, &p)? else { return Ok(()) };
    let path = path_name(c, k.ext());
    disk::reset();
    // What was there before: nothing, or an older save of the same type.
    let old = if c.w.chance(2, 3) { let q = small(c); value(c, k, &q)? } else { None };
    if let Some((_, b)) = &old { disk::put(&path, b.clone()); }
    let texts: Vec<String> = {
        let mut v = vec![];
        for b in old.iter().map(|x| &x.1).chain([&img]) { match c.read(k, b)? { Ok(x) => v.push(x.text()), Err(e) => return bad("reload-failed", format!("{}: {e}", k.name())) } }
        v
    };
    let full = match c.read(k, &img)? { Ok(v) => v, Err(e) => return bad("reload-failed", format!("{}: {e}", k.name())) };
    let snap = disk::snapshot();
    let mut plan = quiet_plan(c, img.len());
    let live = c.f.chance(1, 3);
    if live { plan.crash_at = Some(1 + c.f.draw(if plan.chunk > 0 { (img.len() as u64 * 2 / plan.chunk).clamp(4, 40) } else { 5 })); plan.crash_part = c.f.draw(257); }
    note!(c, "save {} ({} bytes) over {:?} with {plan:?}", k.name(), img.len(), old.as_ref().map(|o| o.1.len()));
    disk::restart(plan.clone());
    let r = c.save_path(k, &*new, &path)?;
    disk_faults(c);
    let log: Vec<disk::Rec> = disk::with(|d| std::mem::take(&mut d.log)).into_iter().filter(|r| matches!(r, disk::Rec::Create { .. } | disk::Rec::Trunc { .. } | disk::Rec::Write { .. } | disk::Rec::Rename { .. } | disk::Rec::Unlink { .. })).collect();
    if !live { if let Err(e) = r { return bad("save-failed", format!("{}: {e}", k.name())); } }
    // Every state the disk can be left in: the process died (live), or the machine did at any point of the journal.
    let mut states: Vec<(usize, u64, Vec<(String, Vec<u8>)>)> = vec![];
    if live { states.push((log.len(), 0, disk::list())); }
    else {
        let total: usize = log.iter().map(|r| if let disk::Rec::Write { data, .. } = r { data.len() } else { 1 }).sum();
        if total <= 700 && log.len() <= 12 {
            // every byte
            for n in 0..=log.len() {
                states.push((n, 0, disk::apply(&snap, &log, n, 0)));
                if let Some(disk::Rec::Write { data, .. }) = log.get(n) { let mut last = 0; for part in 1..256u64 { let q = data.len() as u64 * part / 256; if q != last { last = q; states.push((n, part, disk::apply(&snap, &log, n, part))); } } }
            }
            c.probe("every_torn_state");
        } else {
            for _ in 0..40 { let n = c.f.usize(log.len() + 1); let part = if c.f.chance(1, 3) { 255 - c.f.draw(4) } else { c.f.draw(257) }; states.push((n, part, disk::apply(&snap, &log, n, part))); }
        }
    }
    for (n, part, files) in states {
        disk::reset();
        for (f, d) in &files { disk::put(f, d.clone()); }
        disk::restart(DPlan::default());
        c.fault(if live { "process_death" } else { "power_loss" }, 1);
        let size = files.iter().find(|f| f.0 == path).map(|f| f.1.len());
        match c.load_path(k, &path)? {
            Err(_) => c.probe("torn_refused"),
            Ok(g) => {
                let t = g.text();
                if texts.contains(&t) { c.probe("old_or_new"); }
                else if adj_prefix(k, "", &*g, &*full) { c.probe("adjacency_prefix"); }
                else { return bad("third-value", format!("{}: after a stop at journal entry {n} + {part}/256 the file has {size:?} of {} bytes and loads as neither old nor new: {}", k.name(), img.len(), diff(texts.last().unwrap(), &t))); }
            }
        }
    }
    if let Err(e) = c.save_path(k, &*new, &path)? { return bad("retry-failed", format!("{} after a crash: {e}", k.name())); }
    match c.load_path(k, &path)? {
        Ok(g) => { if let Err(e) = k.same(&*new, &*g, 1) { return bad("reload-differs", format!("{} after a crash: {e}", k.name())); } }
        Err(e) => return bad("reload-failed", format!("{} after a crash: {e}", k.name())),
    }
    Ok(())
}

// ------------------------------------------------------------------ hostile content
fn r01(c: &mut Ctx) -> Res {
    let k = any_reader(c);
    let p = small(c);
    let mut b = content(c, k, &p)?;
    let other = if c.f.chance(1, 4) { content(c, k, &p)? } else { vec![] };
    let mode = c.f.draw(8);
    if mode == 0 { let n = c.f.usize(200); let m = c.f.draw(6); b = c.f.blob(n, |r, n| (0..n).map(|_| { let x = r.next(); if m == 0 { x as u8 } else { (x >> 8) as u8 & (0xff >> m) } }).collect());
        if c.f.chance(1, 2) && k.tag().is_some() { let mut h = b"HBSS".to_vec(); h.extend(64u64.to_le_bytes()); h.extend(0u32.to_le_bytes()); h.extend(k.tag().unwrap()); h.extend(&b); b = h; }
        c.fault("arbitrary_content", 1);
    } else if mode < 7 {
        if mode == 1 { damage::foreign(c, k, &mut b); }
        if mode == 2 { damage::alias(c, k, &mut b); }
        let f = damage::fields(c, k, &b);
        damage::damage(c, &mut b, &other, &f);
    }
    hostile(c, k, &b)?;
    // The same bytes through the other reader of the family.
    if let Some(o) = ops::readers().into_iter().find(|o| o.ext() == k.ext() && o.name() != k.name()) { if c.w.chance(1, 2) { hostile(c, o, &b)?; } }
    Ok(())
}
pub const MEM_ALLOWANCE: i64 = 160 << 20;
pub fn budget(len: usize) -> (u64, i64) { (3_000_000 + 4000 * len as u64, MEM_ALLOWANCE + 4000 * len as i64) }
fn hostile(c: &mut Ctx, k: K, b: &[u8]) -> Res {
    let (steps, mem) = budget(b.len());
    c.st.calls += 1;
    let mut s = SimStream::reader(b);
    s.plan.chunk = [0, 0, 0, 5][c.s.usize(4)];
    let (r, w) = metered(&format!("reading {} from {} damaged bytes", k.name(), b.len()), steps, mem, || k.load(&mut s))?;
    c.st.ops += s.ops;
    usage(c, "read", &w, b.len());
    match r {
        Err(e) => { c.probe("refused"); let n = e.len(); if n > 1 << 20 { c.probe("huge_error_text"); } }
        Ok(v) => {
            c.probe("accepted");
            let mut o = SimStream::writer();
            let (r, w) = metered(&format!("writing {} that was read from {} damaged bytes", k.name(), b.len()), steps * 2, mem * 2, || v.save(&mut o))?;
            usage(c, "write", &w, b.len());
            c.probe(if r.is_ok() { "resaved" } else { "resave_refused" });
        }
    }
    Ok(())
}
fn usage(c: &mut Ctx, what: &str, w: &Work, len: usize) {
    let per = w.steps / (len as u64 + 64);
    c.probe(&format!("{what}_steps_per_byte_{}", match per { 0..=9 => "<10", 10..=99 => "<100", 100..=999 => "<1000", _ => ">=1000" }));
    let m = w.mem.peak.max(0) as u64;
    c.probe(&format!("{what}_memory_{}", if m < 1 << 20 { "<1M" } else if m < 16 << 20 { "<16M" } else if m < 105 << 20 { "<105M" } else { ">=105M" }));
}
fn r02(c: &mut Ctx) -> Res {
    let tagged: Vec<K> = ops::all().into_iter().filter(|k| k.tag().is_some() || k.name() == "SsbhFile").collect();
    let k = pick(c, &tagged);
    let p = small(c);
    let Some((v, b)) = value(c, k, &p)? else { return Ok(()) };
    let Some((tag, ver)) = ops::raw::label(v.any()) else { return Ok(()) };
    c.interesting = true;
    if b.len() < 24 || &b[..4] != b"HBSS" || b[16..20] != tag { return bad("wrong-label", format!("{} saved with signature {:02x?}, tag {:02x?}", k.name(), &b[..4.min(b.len())], b.get(16..20))); }
    let sv = (u16::from_le_bytes([b[20], b[21]]), u16::from_le_bytes([b[22], b[23]]));
    if sv != ver { return bad("wrong-label", format!("{} of version {ver:?} saved as version {sv:?}", k.name())); }
    let any = ops::RAW[12];
    let readers: Vec<K> = ops::readers().into_iter().filter(|r| r.tag().is_some()).collect();
    // Misdelivery: every typed reader of another type refuses.
    for r in &readers {
        if r.tag() == Some(tag) { continue; }
        c.fault("misdelivered_file", 1);
        if c.read(*r, &b)?.is_ok() { return bad("misdelivered-accepted", format!("the {} reader accepted a {} file", r.name(), String::from_utf8_lossy(&tag))); }
        if r.has_paths() && c.f.chance(1, 20) {
            disk::reset();
            let path = format!("/simdisk/x.{}", r.ext());
            disk::put(&path, b.clone());
            disk::restart(DPlan::default());
            if c.load_path(*r, &path)?.is_ok() { return bad("misdelivered-accepted", format!("the {} path reader accepted a {} file", r.name(), String::from_utf8_lossy(&tag))); }
        }
    }
    match c.read(any, &b)? {
        Ok(g) => { let t = ops::raw::tag_of(g.any().downcast_ref().unwrap()); if t != tag { return bad("misread", format!("a {} file read as {}", String::from_utf8_lossy(&tag), String::from_utf8_lossy(&t))); }
            if ops::raw::label(g.any()) != Some((tag, ver)) { return bad("misread", format!("version {ver:?} read as {:?}", ops::raw::label(g.any()))); } }
        Err(e) => return bad("refused-own-file", e),
    }
    // Damaged labels.
    for _ in 0..1 + c.f.usize(4) {
        let mut d = b.clone();
        let mode = c.f.draw(4);
        let mut expect: Option<([u8; 4], (u16, u16))> = None;
        match mode {
            0 => { let i = c.f.usize(4); let x = 1 + c.f.draw(255) as u8; d[i] ^= x; }
            1 => { let i = 16 + c.f.usize(4); let x = 1 + c.f.draw(255) as u8; d[i] ^= x; if ops::raw::TAGS.iter().any(|t| t.0 == d[16..20]) { expect = Some((d[16..20].try_into().unwrap(), ver)); } }
            2 => { let t = ops::raw::TAGS[c.f.usize(10)].0; d[16..20].copy_from_slice(&t); expect = Some((t, ver)); }
            _ => {
                let cand = match c.f.draw(3) { 0 => (c.f.draw(4) as u16, c.f.draw(14) as u16), 1 => (ver.0, c.f.draw(1 << 16) as u16), _ => (c.f.draw(1 << 16) as u16, ver.1) };
                d[20..22].copy_from_slice(&cand.0.to_le_bytes()); d[22..24].copy_from_slice(&cand.1.to_le_bytes());
                expect = Some((tag, cand));
            }
        }
        c.fault(["damaged_signature", "damaged_tag", "swapped_tag", "damaged_version"][mode as usize], 1);
        let ok = expect.map(|(t, v)| ops::raw::TAGS.iter().any(|x| x.0 == t && x.1.contains(&v))).unwrap_or(false);
        note!(c, "signature {:02x?} tag {:02x?} version {:02x?} (supported: {ok})", &d[..4], &d[16..20], &d[20..24]);
        for r in readers.iter().chain([&any]) {
            let want = if r.name() == "SsbhFile" { ok } else { ok && r.tag() == expect.map(|x| x.0) };
            match c.read(*r, &d)? {
                Ok(g) => {
                    if !want { return bad("mislabelled-accepted", format!("the {} reader accepted signature {:02x?} tag {:02x?} version {:02x?}", r.name(), &d[..4], &d[16..20], &d[20..24])); }
                    if let Some(l) = ops::raw::label(g.any()) { if r.layer() == Layer::Raw && Some(l) != expect { return bad("misread", format!("{} reader: labelled {expect:?}, read as {l:?}", r.name())); } }
                }
                Err(_) => (),
            }
        }
    }
    Ok(())
}
