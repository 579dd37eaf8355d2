//! The parent of a check: workers, statistics, minimisation, replay files, evidence.
use crate::engine::*;
use crate::minimise::*;
use serde_json::{json, Value};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// Cases per tier: (quick, thorough).
fn counts(p: &str) -> (u64, u64) {
    match p {
        "N01" => (25_000, 2_000_000), "N02" => (50_000, 4_000_000), "J01" => (50_000, 4_000_000), "J02" => (50_000, 4_000_000),
        "D02" | "D06" => (60_000, 4_000_000),
        _ => (150_000, 20_000_000),
    }
}
fn wall(tier: &str) -> u64 { if let Ok(s) = std::env::var("DST_WALL") { return s.parse().unwrap_or(30); } if tier == "thorough" { 540 } else { 45 } }
pub fn describe(p: &str) -> (&'static str, &'static str) {
    match p {
        "S01" => ("a case is one content (intact, foreign layout, damaged or truncated) of one reader, loaded whole and again through 1-3 seeded delivery plans", "at least one short transfer, interruption or storage fault fired"),
        "S02" => ("a case is one intact file loaded 1-6 times with a hard error, failed seek or early end at a chosen stream call or byte, then loaded on a healthy stream", "at least one read fault or early end fired"),
        "S03" => ("a case is one value saved whole, through seeded acceptance plans, through the typed writer and to a simulated path", "at least one short write or interruption fired"),
        "S04" => ("a case is one value saved 1-6 times with an error, zero write, failed seek or full disk at a chosen stream call or byte, then saved on a healthy stream", "at least one write fault fired"),
        "D01" | "D02" | "D03" => ("a case is a history of saves, edits, replacements, crashes, restarts, reloads and resaves on a simulated disk, checked against a map of what every path must hold", "at least one saved value was reloaded and compared"),
        "D04" => ("a case is one content (foreign layout, damaged, aliased pointers) accepted by a reader and taken through save-and-load generations", "at least one storage fault or relocation was applied"),
        "D05" => ("a case is one savable value, saved, then saved again 1-3 times with one documented limit broken at a seeded place, to seeded streams and over the good file, then saved and reloaded", "at least one limit was broken"),
        "D06" => ("a case is one value generated in both versions, saved by both, and a history of loads and saves by either version with crashes on one simulated store; both read every state of it, JSON of each, and a relocated or damaged copy", "at least one generation by a version, or one fault"),
        "F01" => ("a case is one save to a path over a prior file under open/write/space faults, and one load of it under open/read/stat faults", "at least one file system fault fired or the value was unsavable"),
        "F02" => ("a case is one save to a path stopped by process death at an operation, or by power loss at every (small images) or 40 seeded points of its write journal", "at least one stop was injected"),
        "R01" => ("a case is one content damaged by 1-4 storage faults (or arbitrary bytes) loaded under work, memory and stack limits, and saved again if accepted", "at least one storage fault was applied"),
        "R02" => ("a case is one file given to every reader of another type, and with a damaged signature, tag or version to every reader", "every case"),
        "N01" => ("a case is a list of operations run in one fresh process and again, in another order with other operations in between, under another hash seed, heap layout, clock and environment, in a second", "every case"),
        "N02" => ("a case is 2-4 caller threads with 1-3 calls each on shared or separate values, under one seeded schedule switching at basic blocks, allocations, stream calls and locks", "every case with at least one thread switch or fault"),
        "J01" => ("a case is one file converted to JSON and back by the real tool on a simulated disk", "every case"),
        _ => ("a case is one conversion by the real tool, of good or bad input, with a disk fault or a kill at a chosen operation, followed by a healthy run", "every case"),
    }
}
struct W { child: Child, out: String, w: u64, done: bool }

fn spawn(p: &str, seed: u64, w: u64, nw: u64, n: u64, wall: u64, dir: &str, tier: u8, from: u64) -> W {
    let out = format!("{dir}/w{w}");
    let child = Command::new("/proc/self/exe").args(["worker", p, &seed.to_string(), &w.to_string(), &nw.to_string(), &n.to_string(), &wall.to_string(), &out, &tier.to_string(), &from.to_string()])
        .stdout(Stdio::null()).stderr(if std::env::var("DST_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() }).spawn().expect("worker");
    W { child, out, w, done: false }
}
pub fn check(p: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let t = if tier == "thorough" { 1u8 } else { 0 };
    let dir = format!("{}/dst-{p}-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    std::env::set_var("DST_TMP", &dir);
    let words = crate::words::collect(&std::env::var("DST_SOURCES").unwrap_or_else(|_| "/repo/".into()), "pinned");
    crate::words::publish(&words, &dir);
    let nw: u64 = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(1, 16));
    let (q, th) = counts(p);
    let n = std::env::var("DST_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if t == 1 { th } else { q });
    let wl = wall(tier);
    let mut ws: Vec<W> = (0..nw).map(|w| spawn(p, seed, w, nw, n, wl, &dir, t, 0)).collect();
    let mut st = Stats::default();
    let mut total = 0;
    let mut verdict: Option<(u64, String, String)> = None;
    let mut broken = String::new();
    while verdict.is_none() && broken.is_empty() && ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let Ok(Some(s)) = w.child.try_wait() else { continue };
            w.done = true;
            use std::os::unix::process::ExitStatusExt;
            let v: Value = std::fs::read(&w.out).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
            match (s.code(), s.signal()) {
                (Some(0), _) | (Some(1), _) if !v.is_null() => {
                    st.add_json(&v["stats"]);
                    total = total.max(v["blocks_total"].as_u64().unwrap_or(0));
                    let x = &v["verdict"];
                    if !x.is_null() { verdict = Some((x["case"].as_u64().unwrap_or(0), x["class"].as_str().unwrap_or("?").into(), x["msg"].as_str().unwrap_or("?").into())); break; }
                }
                (Some(2), _) | (Some(0), _) | (Some(1), _) | (Some(101), _) | (_, Some(9)) => { broken = format!("worker {} ended with {s:?}", w.w); }
                _ => {
                    let b = std::fs::read(format!("{}.at", w.out)).unwrap_or_default();
                    let at = u64::from_le_bytes(b[..8.min(b.len())].try_into().unwrap_or([0; 8]));
                    verdict = Some((at, s.code().map(|c| death(c).0.to_string()).unwrap_or(format!("signal-{}", s.signal().unwrap_or(0))), std::fs::read_to_string(format!("{}.why", w.out)).unwrap_or_default()));
                    break;
                }
            }
        }
    }
    for w in ws.iter_mut().filter(|w| !w.done) { let _ = w.child.kill(); let _ = w.child.wait(); }
    let explored = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violation = Value::Null;
    if !broken.is_empty() { eprintln!("HARNESS ERROR: {broken}"); code = 2; }
    if let Some((case, class, msg)) = verdict {
        let cs = case_seed(seed, p, case);
        let mut run = Runner { prop: p.into(), dir: dir.clone(), hseed: cs, tier: t.to_string(), tries: 0 };
        let (o, recs) = run.seeded(cs);
        match o {
            Some(o) if o.class != "harness-error" => {
                let sig = signature(&o);
                let limit = if t == 1 { 180 } else { 60 };
                let start = recs.clone();
                let (best, last) = match run.recs(&recs) {
                    Some(x) if signature(&x) == sig => minimise(&mut run, &recs, &sig, Duration::from_secs(limit), 3000),
                    other => { eprintln!("note: the recorded choices give {:?}", other.map(|o| o.class)); (recs, None) }
                };
                let fin = last.unwrap_or(o);
                let rdir = std::env::var("DST_REPLAYS").unwrap_or_else(|_| "evidence/replays".into());
                let _ = std::fs::create_dir_all(&rdir);
                let path = format!("{rdir}/{p}-{case}-{}.json", fin.class);
                let size = |r: &dstrt::tape::Recs| json!({"choices": r.w.nums.len() + r.f.nums.len() + r.s.nums.len(), "bytes": r.w.blobs.iter().chain(&r.f.blobs).map(|b| b.len()).sum::<usize>()});
                let doc = json!({"property": p, "seed": seed, "case": case, "tier": tier, "hash_seed": cs, "class": fin.class, "message": fin.msg, "trace": fin.trace, "original": size(&start), "minimised": size(&best), "tapes": recs_json(&best), "words": words});
                std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
                // A replay must fail the same way in a fresh process, every time.
                let again: Vec<_> = (0..2).map(|_| run.file(&path)).collect();
                if again.iter().all(|a| a.as_ref().map(|a| (&a.class, &a.msg)) == Some((&fin.class, &fin.msg))) {
                    println!("{}", crate::scen::cut(&fin.msg, 1500));
                    println!("VIOLATION property={p} replay={path}");
                    violation = json!({"class": fin.class, "message": crate::scen::cut(&fin.msg, 1500), "replay": path, "case": case, "attempts": run.tries, "original": size(&start), "minimised": size(&best)});
                    code = 1;
                } else { eprintln!("HARNESS ERROR: replay of {path} gives {:?}, expected {}: {}", again.iter().map(|a| a.as_ref().map(|a| format!("{}: {}", a.class, a.msg))).collect::<Vec<_>>(), fin.class, fin.msg); code = 2; }
            }
            o => { eprintln!("HARNESS ERROR: case {case} (seed {cs}) failed with {class}: {msg}, and by itself gives {:?}", o.map(|o| o.class)); code = 2; }
        }
    }
    for (k, n) in &st.known { println!("KNOWN-FINDING: property={p} {k} ({n} cases)"); }
    let wall_s = t0.elapsed().as_secs_f64();
    evidence(p, tier, seed, &st, nw, n, total, explored, wall_s, &violation);
    let _ = std::fs::remove_dir_all(&dir);
    if code == 0 { println!("{p}: {} runs, {} with faults or histories, {} distinct paths, {} stream or file calls, {:.1} s", st.cases, st.nontrivial, st.sigs.len(), st.ops, wall_s); }
    code
}
fn evidence(p: &str, tier: &str, seed: u64, st: &Stats, nw: u64, n: u64, total: u64, explored: f64, wall_s: f64, violation: &Value) {
    let (rule, nontrivial) = describe(p);
    let per = |x: u64| if explored > 0.0 { (x as f64 / explored * 3600.0).round() as u64 } else { 0 };
    let hit = st.blocks.iter().filter(|x| **x).count();
    let tools = p.starts_with('J');
    let cov = json!({
        "evaluations": st.cases, "distinct_nontrivial": if tools { st.states.len() } else { st.sigs.len() },
        "rule": format!("{rule}. Non-trivial: {nontrivial}. Distinct: {}.", if tools { "by the sequence of file operations and faults the tool's process went through" } else { "by the set of basic blocks of the library reached, with logarithmic hit counts" }),
        "samples": st.samples, "exhaustive": false,
        "planned_runs": n, "workers": nw, "nontrivial_runs": st.nontrivial,
        "runs_per_hour": per(st.cases), "seeds_per_hour": per(st.cases),
        "simulated_time": {"unit": "basic blocks of the code under test executed (the simulator's clock); stream and file operations", "basic_blocks": st.steps, "operations": st.ops, "library_calls": st.calls},
        "faults_fired": st.faults, "conditions_reached": st.probes,
        "distinct_states": st.states.len(), "distinct_states_measure": match p { "N02" => "thread switch sequences (point, from, to)", "N01" => "outcome vectors of the first process", _ if tools => "operation and fault sequences of a tool process", _ => "not used" },
        "blocks_reached": hit, "blocks_total": total,
        "real_components": if tools { "the unmodified tool binaries with ssbh_lib, ssbh_data, ssbh_write, binrw, serde_json, clap and std's file layer" } else { "ssbh_lib, ssbh_data, ssbh_write (derive macros included), binrw and std's buffered file layer, compiled from /repo with basic-block callbacks (D06: also the pinned release, from pinned/)" },
        "stubbed_components": "the caller's streams, or the kernel's file calls under /simdisk/ (in-memory disk); the clock; the source of hash seeds; for threads, who runs next and lock wake-up order",
        "violation": violation,
    });
    let doc = json!({"property": p, "tier": tier, "seed": seed, "level": if p == "F02" || p == "S02" || p == "S04" { "fault_enumeration" } else { "exploration" }, "coverage": cov, "wall_s": wall_s, "violations": if violation.is_null() { 0 } else { 1 },
        "assumptions": ["a clean batch of seeded runs is evidence, not proof", "the simulated disk keeps written bytes in order within one file; power loss keeps a prefix of the journal and a prefix of one write"]});
    let path = std::env::var("DST_EVIDENCE").unwrap_or_else(|_| format!("evidence/{p}.json"));
    let _ = std::fs::create_dir_all("evidence");
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("evidence");
}
pub fn replay(path: &str) -> i32 {
    let v: Value = match std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) { Some(v) => v, None => { eprintln!("cannot read {path}"); return 2; } };
    let p = v["property"].as_str().unwrap_or("").to_string();
    let dir = format!("{}/dst-replay-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    std::env::set_var("DST_TMP", &dir);
    crate::words::publish(&v["words"], &dir);
    let mut run = Runner { prop: p.clone(), dir: dir.clone(), hseed: 0, tier: if v["tier"] == "thorough" { "1".into() } else { "0".into() }, tries: 0 };
    let o = run.file(path);
    let _ = std::fs::remove_dir_all(&dir);
    match o {
        Some(o) => {
            for t in &o.trace { println!("{t}"); }
            println!("{}: {}", o.class, o.msg);
            println!("VIOLATION property={p} replay={path}");
            if Some(o.class.as_str()) == v["class"].as_str() && Some(o.msg.as_str()) == v["message"].as_str() { println!("reproduced exactly"); } else { println!("differs from the recorded failure: {} {}", v["class"], v["message"]); }
            1
        }
        None => { println!("{p}: the recorded run passes on this tree"); 0 }
    }
}
