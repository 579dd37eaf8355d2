//! Shrinks the recorded choices of a failing case; every attempt is a fresh process.
use crate::engine::*;
use dstrt::tape::{Rec, Recs};
use serde_json::{json, Value};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, PartialEq, Debug)]
pub struct Outcome { pub class: String, pub msg: String, pub trace: Vec<String> }
pub struct Runner { pub prop: String, pub dir: String, pub hseed: u64, pub tier: String, pub tries: u64 }

fn exit(status: std::process::ExitStatus, out: &str) -> Option<Outcome> {
    use std::os::unix::process::ExitStatusExt;
    let v: Value = std::fs::read(out).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
    let trace: Vec<String> = v["trace"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
    match (status.code(), status.signal()) {
        (Some(0), _) => None,
        (Some(1), _) if !v["v"].is_null() => Some(Outcome { class: v["v"]["class"].as_str().unwrap_or("?").into(), msg: v["v"]["msg"].as_str().unwrap_or("?").into(), trace }),
        (Some(2), _) => Some(Outcome { class: "harness-error".into(), msg: "the harness failed".into(), trace }),
        (Some(c), _) => Some(Outcome { class: death(c).0.into(), msg: format!("{} ({})", death(c).1, std::fs::read_to_string(format!("{out}.why")).unwrap_or_default()), trace }),
        (_, Some(27)) => Some(Outcome { class: "cpu-limit".into(), msg: "one case used a minute of processor time".into(), trace }),
        (_, Some(s)) => Some(Outcome { class: format!("signal-{s}"), msg: "the process died".into(), trace }),
        _ => None,
    }
}
impl Runner {
    fn run(&mut self, how: &str, arg: &str) -> Option<Outcome> {
        self.tries += 1;
        let out = format!("{}/one", self.dir);
        let _ = std::fs::remove_file(&out);
        let s = Command::new("/proc/self/exe").args(["one", &self.prop, how, arg, &out, &self.tier]).stdout(Stdio::null()).stderr(Stdio::null()).status().expect("child");
        exit(s, &out)
    }
    pub fn seeded(&mut self, seed: u64) -> (Option<Outcome>, Recs) {
        let o = self.run("seed", &seed.to_string());
        let d = std::fs::read(format!("{}/one.dump", self.dir)).unwrap_or_default();
        (o, dstrt::tape::parse_dump(&d))
    }
    pub fn recs(&mut self, r: &Recs) -> Option<Outcome> {
        let p = format!("{}/rec", self.dir);
        std::fs::write(&p, json!({"tapes": recs_json(r), "hash_seed": self.hseed}).to_string()).expect("recording");
        self.run("file", &p)
    }
    pub fn file(&mut self, p: &str) -> Option<Outcome> { self.run("file", p) }
}
/// What must stay the same: the class, and for a panic where it happened.
pub fn signature(o: &Outcome) -> String {
    if o.class == "panic" { format!("panic {}", o.msg.rsplit_once(" at ").map(|x| x.1).unwrap_or("")) } else { o.class.clone() }
}
fn part(r: &mut Recs, i: usize) -> &mut Rec { match i { 0 => &mut r.f, 1 => &mut r.s, _ => &mut r.w } }

pub fn minimise(run: &mut Runner, start: &Recs, want: &str, limit: Duration, tries: u64) -> (Recs, Option<Outcome>) {
    let t0 = Instant::now();
    let mut best = start.clone();
    let mut last = None;
    let over = |run: &Runner| t0.elapsed() > limit || run.tries > tries;
    let mut attempt = |run: &mut Runner, best: &mut Recs, cand: Recs| -> bool {
        if cand == *best { return false; }
        match run.recs(&cand) { Some(o) if signature(&o) == want => { *best = cand; last = Some(o); true } _ => false }
    };
    loop {
        let before = best.clone();
        for p in 0..3 {
            // Shorter: everything after the cut is the simplest choice.
            let mut n = part(&mut best, p).nums.len() / 2;
            while n > 0 && !over(run) {
                let mut c = best.clone();
                let v = &mut part(&mut c, p).nums;
                if v.len() <= n { n /= 2; continue; }
                let k = v.len() - n;
                v.truncate(k);
                if !attempt(run, &mut best, c) { n /= 2; }
            }
            // Remove stretches, simplify stretches.
            for mode in 0..2 {
                let mut n = (part(&mut best, p).nums.len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < part(&mut best, p).nums.len() && !over(run) {
                        let mut c = best.clone();
                        let v = &mut part(&mut c, p).nums;
                        let e = (i + n).min(v.len());
                        if mode == 0 { v.drain(i..e); } else { if v[i..e].iter().all(|x| *x == 0) { i += n; continue; } for x in &mut v[i..e] { *x = 0; } }
                        if !attempt(run, &mut best, c) || mode == 1 { i += n; }
                    }
                    if n == 1 || over(run) { break; }
                    n /= 2;
                }
            }
            // Blobs: drop, halve, blank.
            let mut i = 0;
            while i < part(&mut best, p).blobs.len() && !over(run) {
                loop {
                    let len = part(&mut best, p).blobs[i].len();
                    if len == 0 || over(run) { break; }
                    let mut c = best.clone();
                    part(&mut c, p).blobs[i].clear();
                    if attempt(run, &mut best, c) { break; }
                    let mut c = best.clone();
                    part(&mut c, p).blobs[i].truncate(len / 2);
                    if attempt(run, &mut best, c) { continue; }
                    let mut c = best.clone();
                    part(&mut c, p).blobs[i].truncate(len - 1);
                    if len < 40 && attempt(run, &mut best, c) { continue; }
                    let mut k = len / 2;
                    while k > 0 {
                        let mut j = 0;
                        while j < len && !over(run) {
                            let mut c = best.clone();
                            let b = &mut part(&mut c, p).blobs[i];
                            let e = (j + k).min(len);
                            if b[j..e].iter().any(|x| *x != 0) { for x in &mut b[j..e] { *x = 0; } attempt(run, &mut best, c); }
                            j += k;
                        }
                        k /= if len > 200 { 4 } else { 2 };
                    }
                    break;
                }
                i += 1;
            }
            // Smaller numbers.
            for i in 0..part(&mut best, p).nums.len().min(60) {
                loop {
                    if over(run) { break; }
                    let Some(v) = part(&mut best, p).nums.get(i).copied() else { break };
                    if v < 2 { break; }
                    let mut c = best.clone();
                    part(&mut c, p).nums[i] = v / 2;
                    if attempt(run, &mut best, c) { continue; }
                    let mut c = best.clone();
                    part(&mut c, p).nums[i] = v - 1;
                    if v < 40 && attempt(run, &mut best, c) { continue; }
                    break;
                }
            }
        }
        if best == before || over(run) { break; }
    }
    // Trailing simplest choices are implied.
    for p in 0..3 { let v = &mut part(&mut best, p).nums; while v.last() == Some(&0) { v.pop(); } }
    let o = run.recs(&best);
    (best, o.or(last))
}
