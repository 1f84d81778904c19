//! Slices of strings by character.
use std::ops::{Bound, RangeBounds};

pub trait Slice {
    fn slice<R: RangeBounds<usize>>(&self, range: R) -> String;
}

impl Slice for str {
    fn slice<R: RangeBounds<usize>>(&self, range: R) -> String {
        let start = match range.start_bound() {
            Bound::Included(&s) => s,
            Bound::Excluded(&s) => s + 1,
            Bound::Unbounded => 0,
        };
        let end = match range.end_bound() {
            Bound::Included(&e) => e.saturating_add(1),
            Bound::Excluded(&e) => e,
            Bound::Unbounded => usize::MAX,
        };
        self.chars().skip(start).take(end.saturating_sub(start)).collect()
    }
}

impl Slice for String {
    fn slice<R: RangeBounds<usize>>(&self, range: R) -> String {
        self.as_str().slice(range)
    }
}
