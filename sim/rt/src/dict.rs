//! Words and numbers that the code under test mentions. Inputs that a special case waits for are drawn from here.
//! The list is fixed before a run starts and is kept in the replay file.
use crate::tape::Tape;

#[derive(Default)]
pub struct Dict { pub texts: Vec<String>, pub sizes: Vec<usize>, pub ints: Vec<u64>, pub floats: Vec<f32>, /// how many of each come first because the pinned release mentions them less often
    pub fresh: [usize; 4] }
static mut DICT: Option<&'static Dict> = None;
pub fn set(d: Dict) { unsafe { DICT = Some(Box::leak(Box::new(d))) } }
pub fn get() -> Option<&'static Dict> { unsafe { DICT } }

fn one<A: Clone>(t: &mut Tape, v: &[A], fresh: usize) -> Option<A> {
    if v.is_empty() { return None }
    if fresh > 0 && t.chance(1, 2) { return Some(t.pick(&v[..fresh]).clone()) }
    Some(t.pick(v).clone())
}
pub fn text(t: &mut Tape) -> Option<String> { let d = get()?; one(t, &d.texts, d.fresh[0]) }
/// A number that could be a size, or one of its neighbours.
pub fn size(t: &mut Tape) -> Option<usize> { let d = get()?; let n = one(t, &d.sizes, d.fresh[1])?; Some((n + t.usize(3)).saturating_sub(1)) }
pub fn int(t: &mut Tape) -> Option<u64> { let d = get()?; let n = one(t, &d.ints, d.fresh[2])?; Some(n.wrapping_add(t.draw(3)).wrapping_sub(1)) }
pub fn float(t: &mut Tape) -> Option<f32> { let d = get()?; one(t, &d.floats, d.fresh[3]) }
