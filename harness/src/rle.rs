//! Laws of the run-length toolkit (default methods of `Sliceable`).
use crate::case::Case;
use crate::stats::{begin_case, hit, CaseInfo, CUR_OP};
use generic_btree::rle::{CanRemove, HasLength, Sliceable};
use std::ops::{Bound, Range};

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
pub const NKINDS: usize = 4;
pub const KIND_NAMES: [&str; NKINDS] = ["split", "slice", "slice-in-place", "update-with-split"];
pub fn kinds() -> Vec<(u8, u32)> {
    vec![(0, 2), (1, 4), (2, 4), (3, 8)]
}

/// A run-length value that can also be read as a plain list of runs (start, len, mark).
trait Val: Sliceable + Clone + PartialEq + std::fmt::Debug {
    fn make(len: usize, seed: u32) -> Self;
    /// the part of the value in `r`, computed without the toolkit
    fn part(&self, r: Range<usize>) -> Self;
    fn cat(parts: &[Self]) -> Self;
    fn mark(&mut self);
    const HUGE: bool;
}

#[derive(Clone, PartialEq, Debug)]
struct List(Vec<u32>);
impl HasLength for List {
    fn rle_len(&self) -> usize {
        self.0.len()
    }
}
impl Sliceable for List {
    fn _slice(&self, range: Range<usize>) -> Self {
        List(self.0[range].to_vec())
    }
}
impl Val for List {
    const HUGE: bool = false;
    fn make(len: usize, seed: u32) -> Self {
        List((0..len as u32).map(|i| i * 4 + seed % 4 * 100_000).collect())
    }
    fn part(&self, r: Range<usize>) -> Self {
        List(self.0.iter().skip(r.start).take(r.end - r.start).copied().collect())
    }
    fn cat(parts: &[Self]) -> Self {
        List(parts.iter().flat_map(|p| p.0.iter().copied()).collect())
    }
    fn mark(&mut self) {
        self.0.iter_mut().for_each(|x| *x += 1)
    }
}

/// like text: length in bytes
#[derive(Clone, PartialEq, Debug)]
struct Text(String);
impl HasLength for Text {
    fn rle_len(&self) -> usize {
        self.0.len()
    }
}
impl Sliceable for Text {
    fn _slice(&self, range: Range<usize>) -> Self {
        Text(self.0[range].to_string())
    }
}
impl Val for Text {
    const HUGE: bool = false;
    fn make(len: usize, seed: u32) -> Self {
        Text((0..len as u32).map(|i| (b'a' + ((i + seed) % 26) as u8) as char).collect())
    }
    fn part(&self, r: Range<usize>) -> Self {
        Text(self.0.bytes().skip(r.start).take(r.end - r.start).map(|b| b as char).collect())
    }
    fn cat(parts: &[Self]) -> Self {
        Text(parts.iter().map(|p| p.0.as_str()).collect())
    }
    fn mark(&mut self) {
        self.0 = self.0.to_ascii_uppercase()
    }
}

/// a list of marked intervals of possibly huge length
#[derive(Clone, PartialEq, Debug)]
struct Span(Vec<(u64, usize, u8)>);
impl Span {
    fn norm(mut self) -> Self {
        self.0.retain(|x| x.1 > 0);
        let mut v: Vec<(u64, usize, u8)> = vec![];
        for x in self.0 {
            match v.last_mut() {
                Some(l) if l.0 + l.1 as u64 == x.0 && l.2 == x.2 => l.1 += x.1,
                _ => v.push(x),
            }
        }
        Span(v)
    }
}
impl HasLength for Span {
    fn rle_len(&self) -> usize {
        self.0.iter().map(|x| x.1).sum()
    }
}
impl Sliceable for Span {
    fn _slice(&self, range: Range<usize>) -> Self {
        assert!(range.start <= range.end && range.end <= self.rle_len(), "slice {:?} of a value of length {}", range, self.rle_len());
        let mut at = 0;
        let mut v = vec![];
        for x in &self.0 {
            let (s, e) = (range.start.max(at), range.end.min(at + x.1));
            if s < e {
                v.push((x.0 + (s - at) as u64, e - s, x.2));
            }
            at += x.1;
        }
        Span(v).norm()
    }
}
impl Val for Span {
    const HUGE: bool = true;
    fn make(len: usize, seed: u32) -> Self {
        Span(vec![(seed as u64, len, 0)]).norm()
    }
    fn part(&self, r: Range<usize>) -> Self {
        // cut from both ends
        let mut left = r.start;
        let mut take = r.end - r.start;
        let mut v = vec![];
        for x in &self.0 {
            let skip = left.min(x.1);
            left -= skip;
            let n = take.min(x.1 - skip);
            take -= n;
            v.push((x.0 + skip as u64, n, x.2));
        }
        Span(v).norm()
    }
    fn cat(parts: &[Self]) -> Self {
        Span(parts.iter().flat_map(|p| p.0.iter().copied()).collect()).norm()
    }
    fn mark(&mut self) {
        self.0.iter_mut().for_each(|x| x.2 = x.2.wrapping_add(1))
    }
}

fn point(a: u16, len: usize) -> usize {
    let y = (a >> 3) as usize;
    match a & 7 {
        0 => 0,
        1 => len,
        2 => 1.min(len),
        3 => len.saturating_sub(1),
        4 => len / 2,
        _ => ((y as u128 * (len as u128 + 1)) / 8192) as usize,
    }
}

fn bounds(s: usize, e: usize, len: usize, d: u16) -> (Bound<usize>, Bound<usize>) {
    let lo = match d % 3 {
        1 if s == 0 => Bound::Unbounded,
        2 if s > 0 => Bound::Excluded(s - 1),
        _ => Bound::Included(s),
    };
    let hi = match (d / 3) % 3 {
        1 if e == len => Bound::Unbounded,
        2 if e > 0 => Bound::Included(e - 1),
        _ => Bound::Excluded(e),
    };
    (lo, hi)
}

fn run_val<V: Val>(case: &Case, trace: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    let mut parts3 = 0;
    for op in &case.ops {
        let k = op.k as usize % NKINDS;
        CUR_OP.with(|x| x.set(k as i32));
        let z = (op.c as u32 % 5).wrapping_mul(op.d as u32 | (op.a as u32) << 16).rotate_left(op.b as u32 & 31);
        let w = z as u64 | (z as u64) << 32;
        if !().can_remove() || (w as usize).can_remove() != (w == 0) || (w as isize).can_remove() != (w == 0) || z.can_remove() != (z == 0) || (z as i32).can_remove() != (z == 0) {
            fail!("the number {} or {} is taken for empty though it is not zero, or the other way round", z, w);
        }
        let len = match op.rep {
            1 => (case.cfg[1] % 12) as usize,
            2..=5 => (case.cfg[1] % 200) as usize,
            _ if V::HUGE => (case.cfg[2] as usize + 1) << (case.cfg[3] % 46),
            _ => (case.cfg[2] % 1500) as usize,
        };
        let v = V::make(len, case.cfg[4] as u32);
        if v.rle_len() != len {
            fail!("harness: value of the wrong length");
        }
        let (mut s, mut e) = (point(op.a, len), point(op.b, len));
        if s > e {
            std::mem::swap(&mut s, &mut e);
        }
        if trace {
            out.push(format!("{} on a value of length {}, range {}..{} ({:?})", KIND_NAMES[k], len, s, e, bounds(s, e, len, op.d)));
        }
        match k {
            0 => {
                let mut l = v.clone();
                let r = l.split(s);
                if l != v.part(0..s) || r != v.part(s..len) {
                    fail!("splitting a value of length {} at {} gives parts of length {} and {} which are not the two sides", len, s, l.rle_len(), r.rle_len());
                }
            }
            1 => {
                let x = v.slice(bounds(s, e, len, op.d));
                if x != v.part(s..e) {
                    fail!("slicing {:?} of a value of length {} is not that part (length {})", bounds(s, e, len, op.d), len, x.rle_len());
                }
            }
            2 => {
                let mut x = v.clone();
                x.slice_(bounds(s, e, len, op.d));
                if x != v.part(s..e) {
                    fail!("slicing {:?} of a value of length {} in place is not that part (length {})", bounds(s, e, len, op.d), len, x.rle_len());
                }
            }
            _ => {
                let mut x = v.clone();
                let mut given: Vec<V> = vec![];
                let reversed = op.c % 11 == 0 && s < e;
                let b = if reversed { (Bound::Included(e), Bound::Excluded(s)) } else { bounds(s, e, len, op.d) };
                let (m, r) = x.update_with_split(b, |p| {
                    given.push(p.clone());
                    p.mark();
                });
                let mut got = vec![x];
                if r.is_some() && m.is_none() {
                    fail!("update_with_split returned its second part without a first");
                }
                got.extend(m);
                got.extend(r);
                parts3 += (got.len() == 3) as u32;
                if s == e || reversed {
                    if !given.is_empty() || V::cat(&got) != v {
                        fail!("update_with_split of the empty range {:?} in a value of length {} did something", b, len);
                    }
                } else {
                    if given.len() != 1 || given[0] != v.part(s..e) {
                        fail!("update_with_split of {:?} in a value of length {} called the function {} times, on a part of length {:?}", b, len, given.len(), given.first().map(|g| g.rle_len()));
                    }
                    let mut mid = v.part(s..e);
                    mid.mark();
                    let want = V::cat(&[v.part(0..s), mid, v.part(e..len)]);
                    if V::cat(&got) != want {
                        fail!("update_with_split of {:?} in a value of length {} leaves parts of lengths {:?} which are not the value with that range updated", b, len, got.iter().map(|g| g.rle_len()).collect::<Vec<_>>());
                    }
                }
            }
        }
        hit(KIND_NAMES[k]);
    }
    Ok(CaseInfo { nontrivial: parts3 > 0, trace: vec![] })
}

pub fn run(case: &Case, trace: bool, _big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    begin_case(true);
    match case.cfg[0] % 3 {
        0 => run_val::<List>(case, trace, out),
        1 => run_val::<Text>(case, trace, out),
        _ => run_val::<Span>(case, trace, out),
    }
}
