//! Linearizability of a recorded history against a sequential model (Wing & Gong, with memoisation).

use std::collections::HashSet;
use std::hash::Hash;

/// A completed or pending operation: `ret` is None when it never returned.
#[derive(Clone, Debug)]
pub struct Op<C, R> {
    pub who: usize,
    pub call: C,
    pub ret: Option<R>,
    pub t_inv: u64,
    pub t_ret: u64,
}

/// Some order of the operations, consistent with real time, in which `step` (apply to the model; false when
/// the response does not fit) accepts them all. Operations without a response may take effect or not.
pub fn linearizable<S, C, R>(hist: &[Op<C, R>], init: &S, step: &dyn Fn(&mut S, &C, Option<&R>) -> bool) -> bool
where
    S: Clone + Eq + Hash,
{
    assert!(hist.len() <= 63, "history too long for the checker");
    let must: u64 = hist.iter().enumerate().filter(|(_, o)| o.ret.is_some()).map(|(i, _)| 1u64 << i).sum();
    let mut seen: HashSet<(u64, S)> = HashSet::new();
    let mut stack: Vec<(u64, S)> = vec![(0, init.clone())];
    while let Some((done, s)) = stack.pop() {
        if done & must == must {
            return true;
        }
        // The earliest return among the operations still to come bounds who may go next.
        let horizon = hist
            .iter()
            .enumerate()
            .filter(|(i, o)| done & (1 << i) == 0 && o.ret.is_some())
            .map(|(_, o)| o.t_ret)
            .min()
            .unwrap_or(u64::MAX);
        for (i, o) in hist.iter().enumerate() {
            if done & (1 << i) != 0 || o.t_inv > horizon {
                continue;
            }
            let mut n = s.clone();
            if step(&mut n, &o.call, o.ret.as_ref()) {
                let k = (done | 1 << i, n);
                if !seen.contains(&k) {
                    seen.insert(k.clone());
                    stack.push(k);
                }
            }
        }
    }
    false
}
