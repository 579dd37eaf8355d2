//! What other tools write: the same parts in another order, twice, left out, or under each other's names.
use dstrt::tape::Tape;
use serde_json::Value;

/// One step along a path: a member or an element.
#[derive(Clone)]
enum S { Key(String), At(usize) }
fn walk(v: &Value, here: &mut Vec<S>, lists: &mut Vec<Vec<S>>, leaves: &mut Vec<(Vec<S>, u8)>) {
    match v {
        Value::Array(a) => {
            if !a.is_empty() { lists.push(here.clone()) }
            // Long runs of numbers count once.
            let n = if a.iter().all(|x| x.is_number()) { a.len().min(4) } else { a.len() };
            for (i, x) in a.iter().take(n).enumerate() { here.push(S::At(i)); walk(x, here, lists, leaves); here.pop(); }
        }
        Value::Object(m) => for (k, x) in m { here.push(S::Key(k.clone())); walk(x, here, lists, leaves); here.pop(); },
        Value::String(_) => leaves.push((here.clone(), 0)),
        Value::Number(n) => leaves.push((here.clone(), if n.is_f64() { 1 } else { 2 })),
        Value::Bool(_) => leaves.push((here.clone(), 3)),
        Value::Null => (),
    }
}
fn at<'a>(v: &'a mut Value, p: &[S]) -> Option<&'a mut Value> {
    let mut v = v;
    for s in p { v = match s { S::Key(k) => v.get_mut(k)?, S::At(i) => v.get_mut(*i)? }; }
    Some(v)
}
fn shape(p: &[S]) -> String { p.iter().map(|s| match s { S::Key(k) => k.as_str(), S::At(_) => "#" }).collect::<Vec<_>>().join("/") }

pub fn rearrange(j: &mut Value, t: &mut Tape) -> usize {
    let mut done = 0;
    for _ in 0..1 + t.skew(4) {
        let (mut lists, mut leaves) = (vec![], vec![]);
        walk(j, &mut vec![], &mut lists, &mut leaves);
        let what = t.draw(9);
        if what < 6 {
            if lists.is_empty() { continue }
            // Short paths are the lists that matter most: try for them.
            let p = { let (a, b) = (t.usize(lists.len()), t.usize(lists.len())); if lists[a].len() <= lists[b].len() { &lists[a] } else { &lists[b] } };
            let Some(Value::Array(a)) = at(j, p) else { continue };
            let n = a.len();
            let (x, y) = (t.usize(n), t.usize(n));
            match what {
                0 => a.swap(x, y),
                1 => a.reverse(),
                2 | 3 => { let e = a[x].clone(); a.insert(y, e); }
                4 => { a.remove(x); }
                _ => {
                    // The parts of one element in two.
                    let mut e = a[x].clone();
                    let mut ls = vec![];
                    walk(&e, &mut vec![], &mut ls, &mut vec![]);
                    if ls.is_empty() { continue }
                    let q = ls[t.usize(ls.len())].clone();
                    let mut cut = 0;
                    if let Some(Value::Array(l)) = at(&mut a[x], &q) { cut = t.usize(l.len() + 1); l.truncate(cut); }
                    if let Some(Value::Array(l)) = at(&mut e, &q) { l.drain(..cut.min(l.len())); }
                    a.insert(t.usize(n + 1), e);
                }
            }
            done += 1;
        } else {
            if leaves.is_empty() { continue }
            // What one part is called or counts, for another of the same shape or the same kind.
            let (p, k) = leaves[t.usize(leaves.len())].clone();
            let same: Vec<_> = leaves.iter().filter(|(q, l)| *l == k && (what == 8 || shape(q) == shape(&p))).map(|x| x.0.clone()).collect();
            let q = same[t.usize(same.len())].clone();
            let Some(v) = at(j, &q).cloned() else { continue };
            if let Some(x) = at(j, &p) { *x = v; done += 1; }
        }
    }
    done
}
