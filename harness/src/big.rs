//! Trees and maps of any size: thousands to tens of millions of elements, against an implicit
//! model (the content as a few long segments of consecutive units).
use crate::case::{Case, Op};
use crate::stats::{begin_case, hit, maxi, CaseInfo, CUR_OP};
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTree, BTreeTrait, Child, Cursor, FindResult, LengthFinder, OrdTreeMap, PreviousCache, Query, Rope, UseLengthFinder};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::ops::Range;

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => { { let (x, y) = (&$a, &$b); if x != y { return Err(format!("{}: {:?} instead of {:?}", format!($($t)*), x, y)); } } };
}

/// a case with this first word is one of the largest
pub const HUGE: u16 = u16::MAX;

pub const NKINDS: usize = 15;
pub const KIND_NAMES: [&str; NKINDS] = [
    "probe", "insert", "batch", "remove", "drain", "drain-much", "update", "update-by-search", "update-leaf", "update-ranges", "iter-range", "filter", "clone",
    "push-prepend", "compare",
];
pub fn kinds() -> Vec<(u8, u32)> {
    vec![(0, 4), (1, 6), (2, 5), (3, 5), (4, 5), (5, 2), (6, 6), (7, 5), (8, 5), (9, 4), (10, 3), (11, 2), (12, 1), (13, 3), (14, 2)]
}

#[derive(Debug, Clone)]
struct E {
    start: u32,
    len: u8,
    mark: u8,
}
impl HasLength for E {
    fn rle_len(&self) -> usize {
        self.len as usize
    }
}
impl Mergeable for E {
    fn can_merge(&self, _: &Self) -> bool {
        false
    }
    fn merge_right(&mut self, _: &Self) {
        unreachable!()
    }
    fn merge_left(&mut self, _: &Self) {
        unreachable!()
    }
}
impl Sliceable for E {
    fn _slice(&self, r: Range<usize>) -> Self {
        assert!(r.start <= r.end && r.end <= self.len as usize);
        E { start: self.start + r.start as u32, len: (r.end - r.start) as u8, mark: self.mark }
    }
}
impl TryInsert for E {
    fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> {
        Err(e)
    }
}
impl CanRemove for E {
    fn can_remove(&self) -> bool {
        self.len == 0
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq)]
pub struct S {
    len: u32,
    marks: u32,
}
#[derive(Debug, Clone, Copy, Default)]
pub struct D {
    len: i32,
    marks: i32,
}
impl CanRemove for D {
    fn can_remove(&self) -> bool {
        self.len == 0 && self.marks == 0
    }
}
fn summary(e: &E) -> S {
    S { len: e.len as u32, marks: if e.mark > 0 { e.len as u32 } else { 0 } }
}

macro_rules! tree_trait {
    ($t:ident, $d:expr) => {
        #[derive(Debug)]
        struct $t;
        impl BTreeTrait for $t {
            type Elem = E;
            type Cache = S;
            type CacheDiff = D;
            const USE_DIFF: bool = $d;
            fn calc_cache_internal(c: &mut S, ch: &[Child<Self>]) -> D {
                let mut n = S::default();
                for x in ch {
                    n.len += x.cache.len;
                    n.marks += x.cache.marks;
                }
                let d = Self::sub_cache(&n, c);
                *c = n;
                d
            }
            fn apply_cache_diff(c: &mut S, d: &D) {
                c.len = c.len.wrapping_add_signed(d.len);
                c.marks = c.marks.wrapping_add_signed(d.marks);
            }
            fn merge_cache_diff(a: &mut D, b: &D) {
                a.len += b.len;
                a.marks += b.marks;
            }
            fn get_elem_cache(e: &E) -> S {
                summary(e)
            }
            fn new_cache_to_diff(c: &S) -> D {
                D { len: c.len as i32, marks: c.marks as i32 }
            }
            fn sub_cache(l: &S, r: &S) -> D {
                D { len: l.len as i32 - r.len as i32, marks: l.marks as i32 - r.marks as i32 }
            }
        }
        impl UseLengthFinder<$t> for $t {
            fn get_len(c: &S) -> usize {
                c.len as usize
            }
        }
    };
}
tree_trait!(Diffed, true);
tree_trait!(Recomputed, false);

/// the content: segments of consecutive units (start, length, mark)
#[derive(Clone, Default)]
struct Model(Vec<(u32, u32, u8)>);
impl Model {
    fn len(&self) -> usize {
        self.0.iter().map(|s| s.1 as usize).sum()
    }
    fn marks(&self) -> usize {
        self.0.iter().map(|s| if s.2 > 0 { s.1 as usize } else { 0 }).sum()
    }
    fn at(&self, mut pos: usize) -> Option<(u32, u8)> {
        for s in &self.0 {
            if pos < s.1 as usize {
                return Some((s.0 + pos as u32, s.2));
            }
            pos -= s.1 as usize;
        }
        None
    }
    fn cut(&self, r: Range<usize>) -> Vec<(u32, u32, u8)> {
        let mut at = 0;
        let mut out = vec![];
        for x in &self.0 {
            let (s, e) = (r.start.max(at), r.end.min(at + x.1 as usize));
            if s < e {
                out.push((x.0 + (s - at) as u32, (e - s) as u32, x.2));
            }
            at += x.1 as usize;
        }
        out
    }
    fn replace(&mut self, r: Range<usize>, mid: Vec<(u32, u32, u8)>) {
        let n = self.len();
        let mut v = self.cut(0..r.start);
        v.extend(mid);
        v.extend(self.cut(r.end..n));
        self.0 = join(v);
    }
}
fn join(v: Vec<(u32, u32, u8)>) -> Vec<(u32, u32, u8)> {
    let mut o: Vec<(u32, u32, u8)> = Vec::with_capacity(v.len());
    for x in v {
        if x.1 == 0 {
            continue;
        }
        match o.last_mut() {
            Some(l) if l.2 == x.2 && l.0 + l.1 == x.0 => l.1 += x.1,
            _ => o.push(x),
        }
    }
    o
}

/// number of elements of a case: log-uniform, or one of the largest
fn size(c: &[u16; 8], big: bool) -> usize {
    if c[0] == HUGE {
        // the smallest trees with ten levels of inner nodes have 12 * 6^8 = 20155392 elements
        20_200_000 + c[2] as usize * 24
    } else {
        let bits = if big { 11.0 } else { 9.5 };
        (1000.0 * (c[0] as f64 / 65536.0 * bits).exp2()) as usize
    }
}

const MODES: [&str; 7] = ["push", "prepend", "both ends", "collect", "typing in the middle", "batches", "typing backwards in the middle"];

fn build<B>(n: usize, l: usize, mode: usize) -> BTree<B>
where
    B: BTreeTrait<Elem = E, Cache = S, CacheDiff = D> + UseLengthFinder<B> + 'static,
{
    let e = |i: usize| E { start: (i * l) as u32, len: l as u8, mark: 0 };
    let mut t: BTree<B> = BTree::new();
    match mode {
        0 => (0..n).for_each(|i| {
            t.push(e(i));
        }),
        1 => (0..n).rev().for_each(|i| {
            t.prepend(e(i));
        }),
        2 => {
            let (mut lo, mut hi) = (n / 2, n / 2);
            while lo > 0 || hi < n {
                if hi < n {
                    t.push(e(hi));
                    hi += 1;
                }
                if lo > 0 {
                    lo -= 1;
                    t.prepend(e(lo));
                }
            }
        }
        3 => t = (0..n).map(e).collect(),
        4 => {
            let mut at = t.push(e(0));
            t.push(e(n - 1));
            for i in 1..n - 1 {
                at.offset = l;
                at = t.insert_by_path(at, e(i)).0;
            }
        }
        5 => {
            let mut i = 0;
            while i < n {
                let j = (i + 7001).min(n);
                let c = t.end_cursor();
                t.insert_many_by_cursor(c, (i..j).map(e));
                i = j;
            }
        }
        _ => {
            t.push(e(0));
            let mut at = t.push(e(n - 1));
            for i in (1..n - 1).rev() {
                at.offset = 0;
                at = t.insert_by_path(at, e(i)).0;
            }
        }
    }
    t
}

fn probe<B>(t: &BTree<B>, m: &Model, pos: usize) -> Result<Option<Cursor>, String>
where
    B: BTreeTrait<Elem = E, Cache = S, CacheDiff = D> + UseLengthFinder<B> + 'static,
{
    let n = m.len();
    let (q, f) = t.query_with_finder_return::<LengthFinder>(&pos);
    let Some(q) = q else {
        if n > 0 {
            fail!("a query for {} of {} finds nothing", pos, n);
        }
        return Ok(None);
    };
    let c = q.cursor();
    let Some(e) = t.get_elem(c.leaf) else { fail!("the query for {} leads to no element", pos) };
    same!(q.found(), pos < n, "whether position {} of {} was found", pos, n);
    same!(f.parent.is_some(), t.depth() > 1, "whether the search named a parent");
    if pos < n {
        let (u, mark) = m.at(pos).unwrap();
        same!((e.start + c.offset as u32, e.mark), (u, mark), "unit at position {} of {}", pos, n);
        if c.offset >= e.len as usize {
            fail!("the query for {} leads to offset {} of an element of length {}", pos, c.offset, e.len);
        }
    } else {
        same!(Some(c.leaf), t.last_leaf(), "element reached past the end");
    }
    // the prefix before the cursor
    let (mut len, mut marks, mut calls) = (0usize, 0usize, 0usize);
    t.visit_previous_caches(c, |p| {
        calls += 1;
        match p {
            PreviousCache::NodeCache(s) => {
                len += s.len as usize;
                marks += s.marks as usize;
            }
            PreviousCache::PrevSiblingElem(e) => {
                len += e.len as usize;
                marks += summary(e).marks as usize;
            }
            PreviousCache::ThisElemAndOffset { elem, offset } => {
                len += offset;
                marks += if elem.mark > 0 { offset } else { 0 };
            }
        }
    });
    if pos < n {
        same!(len, pos, "summed length before position {}", pos);
        same!(marks, m.cut(0..pos).iter().map(|s| if s.2 > 0 { s.1 as usize } else { 0 }).sum::<usize>(), "summed marks before position {}", pos);
    }
    maxi("summaries visited before one cursor", calls as u64);
    // the neighbours
    if pos < n {
        let (first, end) = (pos - c.offset, pos - c.offset + e.len as usize);
        match t.prev_elem(c) {
            None => same!(first, 0, "the element before position {} is missing, its start", pos),
            Some(p) => {
                let Some(x) = t.get_elem(p.leaf) else { fail!("no element before position {}", pos) };
                same!(Some((x.start + x.len as u32 - 1, x.mark)), first.checked_sub(1).and_then(|i| m.at(i)), "unit before the element at {}", pos);
                same!(t.compare_pos(p, c), Ordering::Less, "order of an element and its successor");
            }
        }
        match t.next_elem(c) {
            None => same!(end, n, "the element after position {} is missing, its end", pos),
            Some(p) => {
                let Some(x) = t.get_elem(p.leaf) else { fail!("no element after position {}", pos) };
                same!(Some((x.start, x.mark)), m.at(end), "unit after the element at {}", pos);
                same!(t.compare_pos(p, c), Ordering::Greater, "order of an element and its predecessor");
            }
        }
        match t.shift_path_by_one_offset(c) {
            None => same!(pos + 1, n, "no position after {}", pos),
            Some(p) => {
                let u = t.get_elem(p.leaf).map(|x| (x.start + p.offset as u32, x.mark));
                same!(u, m.at(pos + 1), "unit after position {}", pos);
            }
        }
    }
    Ok(Some(c))
}

/// a search that is led along given slots and notes the lengths of the children it is shown
struct Steer(usize, Vec<Vec<usize>>);
impl<B> Query<B> for Steer
where
    B: BTreeTrait<Elem = E, Cache = S, CacheDiff = D> + UseLengthFinder<B> + 'static,
{
    type QueryArg = [usize; 2];
    fn init(_: &[usize; 2]) -> Self {
        Steer(0, vec![])
    }
    fn find_node(&mut self, to: &[usize; 2], ch: &[Child<B>]) -> FindResult {
        self.1.push(ch.iter().map(|c| c.cache.len as usize).collect());
        let i = to.get(self.0).map_or(0, |i| *i);
        self.0 += 1;
        FindResult::new_found(i.min(ch.len() - 1), 0)
    }
    fn confirm_elem(&mut self, _: &[usize; 2], _: &E) -> (usize, bool) {
        (0, true)
    }
}

/// where the children of the root and their children begin
fn edges<B>(t: &BTree<B>) -> Vec<usize>
where
    B: BTreeTrait<Elem = E, Cache = S, CacheDiff = D> + UseLengthFinder<B> + 'static,
{
    let mut at = 0;
    let mut out = vec![];
    let top = t.query_with_finder_return::<Steer>(&[0, 0]).1 .1;
    let Some(top) = top.first() else { return out };
    for (i, l) in top.iter().enumerate() {
        out.push(at);
        if let Some(sub) = t.query_with_finder_return::<Steer>(&[i, 0]).1 .1.get(1) {
            let mut x = at;
            for l in sub {
                out.push(x);
                x += l;
            }
        }
        at += l;
    }
    out
}

/// all elements in order
fn whole<B>(t: &BTree<B>, m: &Model) -> Result<(), String>
where
    B: BTreeTrait<Elem = E, Cache = S, CacheDiff = D> + UseLengthFinder<B> + 'static,
{
    let mut segs = m.0.iter();
    let mut cur = (0u32, 0u32, 0u8);
    let mut leaves = 0usize;
    let mut pos = 0usize;
    for e in t.iter() {
        leaves += 1;
        let (mut s, mut l) = (e.start, e.len as u32);
        while l > 0 {
            if cur.1 == 0 {
                let Some(x) = segs.next() else { fail!("the iteration yields more than {} units", pos) };
                cur = *x;
            }
            let k = l.min(cur.1);
            if s != cur.0 || e.mark != cur.2 {
                fail!("the iteration yields unit {} (mark {}) at position {} instead of {} (mark {})", s, e.mark, pos, cur.0, cur.2);
            }
            s += k;
            l -= k;
            cur.0 += k;
            cur.1 -= k;
            pos += k as usize;
        }
    }
    same!(pos, m.len(), "units yielded by the iteration");
    // every node but the root is judged once by a filter that lets everything pass
    let nodes = Cell::new(1usize);
    let reached = t
        .iter_with_filter(|_| {
            nodes.set(nodes.get() + 1);
            (true, 0u8)
        })
        .count();
    same!(reached, leaves, "elements that pass a filter which refuses nothing");
    same!(t.node_len(), nodes.get(), "number of nodes the tree holds, against the number of nodes linked in it");
    let inner = t.node_len() - leaves;
    if inner > t.depth() + 1 + leaves / 2 {
        fail!("{} inner nodes for {} elements", inner, leaves);
    }
    let lim = 2 + (usize::BITS - leaves.leading_zeros()) as usize / 2;
    if t.depth() > lim {
        fail!("{} levels for {} elements", t.depth(), leaves);
    }
    Ok(())
}

struct Rnd(u64);
impl Rnd {
    fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 20) as u128 * n as u128 >> 44) as usize
    }
}

fn pos_of(op: &Op, j: usize, n: usize, caret: usize, r: &mut Rnd, edges: &[usize]) -> usize {
    if n == 0 {
        return 0;
    }
    match op.a & 7 {
        0 => (op.a as usize >> 3) % 60,
        1 => n.saturating_sub((op.a as usize >> 3) % 60),
        2 | 3 => (caret + (op.a as usize >> 3) % 40).saturating_sub(20) + j,
        4 | 5 if !edges.is_empty() => (edges[(op.a as usize >> 3) % edges.len()] + (op.d as usize >> 6) % 3).saturating_sub(1),
        _ => r.next(n),
    }
    .min(n)
}

fn run_tree<B>(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String>
where
    B: BTreeTrait<Elem = E, Cache = S, CacheDiff = D> + UseLengthFinder<B> + 'static,
{
    let c = &case.cfg;
    let n0 = size(c, big);
    let huge = c[0] == HUGE;
    let l = if huge { 1 } else { [1, 1, 2, 3, 10][c[3] as usize % 5] };
    let mode = if huge { [0, 1, 4][c[4] as usize % 3] } else { c[4] as usize % 7 };
    if trace {
        out.push(format!("start with {} elements of {} units, built by {}", n0, l, MODES[mode]));
    }
    let mut t: BTree<B> = build(n0, l, mode);
    let mut m = Model(vec![(0, (n0 * l) as u32, 0)]);
    let mut next = (n0 * l) as u32;
    let mut rnd = Rnd(c[5] as u64 * 65537 + c[6] as u64 + 1);
    let mut caret = m.len() / 2;
    let mut done = 0usize;
    let mut fresh = |len: usize| {
        let e = E { start: next, len: len as u8, mark: 0 };
        // not contiguous with the next one
        next += len as u32 + 1;
        e
    };
    let seg = |e: &E| (e.start, e.len as u32, e.mark);
    maxi("levels of inner nodes", t.depth() as u64);
    maxi("elements at the start", n0 as u64);
    hit(&format!("case built by {}", MODES[mode]));
    probe(&t, &m, 0)?;
    probe(&t, &m, m.len() / 2)?;
    probe(&t, &m, m.len() - 1)?;
    probe(&t, &m, m.len())?;
    for p in edges(&t) {
        probe(&t, &m, p)?;
        probe(&t, &m, p.saturating_sub(1))?;
    }
    whole(&t, &m)?;
    for op in &case.ops {
        let k = op.k as usize % NKINDS;
        CUR_OP.with(|x| x.set(k as i32));
        for j in 0..op.rep.max(1) as usize {
            let n = m.len();
            let pos = pos_of(op, j, n, caret, &mut rnd, &if matches!(op.a & 7, 4 | 5) { edges(&t) } else { vec![] });
            let len = 1 + op.b as usize % 10;
            if trace && out.len() < 400 {
                out.push(format!("{} at {} of {}", KIND_NAMES[k], pos, n));
            }
            caret = pos;
            match k {
                0 => {}
                1 => {
                    let e = fresh(len);
                    let s = seg(&e);
                    let at = match t.query::<LengthFinder>(&pos) {
                        Some(q) => t.insert_by_path(q.cursor(), e).0,
                        None => t.push(e),
                    };
                    same!(t.get_elem(at.leaf).map(|x| x.start + at.offset as u32), Some(s.0), "what the returned cursor denotes");
                    m.replace(pos..pos, vec![s]);
                }
                2 => {
                    let v: Vec<E> = (0..2 + op.b as usize % 60).map(|_| fresh(len)).collect();
                    let s = v.iter().map(seg).collect();
                    let at = t.query::<LengthFinder>(&pos).map(|q| q.cursor());
                    t.insert_many_by_cursor(at, v.into_iter());
                    m.replace(pos..pos, s);
                }
                3 => {
                    if pos >= n {
                        break;
                    }
                    let at = t.query::<LengthFinder>(&pos).unwrap().cursor();
                    let Some(e) = t.remove_leaf(at) else { fail!("the element at {} cannot be removed", pos) };
                    let first = pos - at.offset;
                    same!(join(vec![seg(&e)]), m.cut(first..first + e.len as usize), "removed element at {}", pos);
                    same!(t.get_elem(at.leaf).is_none(), true, "whether the removed handle is dead");
                    m.replace(first..first + e.len as usize, vec![]);
                }
                4 | 5 => {
                    let want = if k == 4 { op.b as usize % 300 } else { n / 16 * (1 + op.b as usize % 12) };
                    if k == 5 && n < 4000 {
                        break;
                    }
                    let mut end = (pos + want).min(n);
                    if op.c % 4 == 0 {
                        // up to the start of a subtree
                        end = edges(&t).into_iter().find(|e| *e >= end).unwrap_or(end);
                    }
                    if t.is_empty() {
                        break;
                    }
                    let got: Vec<E> = if op.d & 1 == 0 {
                        t.drain_by_query::<LengthFinder>(pos..end).collect()
                    } else {
                        let r = t.range::<LengthFinder>(pos..end).unwrap();
                        t.drain(r).take(if op.d & 2 == 0 { usize::MAX } else { 5 }).collect()
                    };
                    let got = join(got.iter().map(seg).collect());
                    let exp = m.cut(pos..end);
                    let full = op.d & 3 != 3;
                    let gl: usize = got.iter().map(|x| x.1 as usize).sum();
                    let cutto = if full { end } else { (pos + gl).min(end) };
                    if full || cutto == end {
                        same!(got, exp, "drained content of {}..{}", pos, end);
                    } else {
                        same!(got, m.cut(pos..cutto), "first drained content of {}..{}", pos, end);
                    }
                    m.replace(pos..end, vec![]);
                }
                6 => {
                    if t.is_empty() {
                        break;
                    }
                    let want = if op.d & 7 == 0 { n / 8 } else { 1 + op.b as usize % 600 };
                    let end = (pos + want.min(if huge { 200_000 } else { 40_000 })).min(n);
                    if pos >= end {
                        break;
                    }
                    let mark = (op.c % 3) as u8;
                    let r = t.range::<LengthFinder>(pos..end).unwrap();
                    let empty = op.d & 56 == 8 && end - pos < 400;
                    let mut saw = 0usize;
                    t.update(r.start.cursor()..r.end.cursor(), &mut |e: &mut E| {
                        let b = summary(e);
                        saw += e.len as usize;
                        if empty {
                            e.len = 0;
                        } else {
                            e.mark = mark;
                        }
                        let a = summary(e);
                        Some(D { len: a.len as i32 - b.len as i32, marks: a.marks as i32 - b.marks as i32 })
                    });
                    same!(saw, end - pos, "units the update function saw");
                    let mid = if empty { vec![] } else { m.cut(pos..end).into_iter().map(|s| (s.0, s.1, mark)).collect() };
                    m.replace(pos..end, mid);
                }
                7 => {
                    if pos >= n {
                        break;
                    }
                    let mark = (op.c % 3) as u8;
                    let act = op.d % 4;
                    let add = if act == 1 { Some(fresh(len)) } else { None };
                    let s = add.as_ref().map(seg);
                    let mut info = None;
                    let (at, rep) = t.update_leaf_by_search::<LengthFinder>(&pos, |e, q| {
                        info = Some((q.offset(), e.len as usize, q.found()));
                        let b = summary(e);
                        if act == 2 {
                            e.len = 0;
                        } else {
                            e.mark = mark;
                        }
                        let a = summary(e);
                        let x = add.as_ref().map_or(S::default(), summary);
                        Some((
                            D { len: a.len as i32 - b.len as i32 + x.len as i32, marks: a.marks as i32 - b.marks as i32 + x.marks as i32 },
                            add,
                            None,
                        ))
                    });
                    let Some((off, elen, found)) = info else { fail!("the update function was not called") };
                    same!(found, true, "whether position {} was found", pos);
                    let first = pos - off;
                    let mut mid: Vec<_> = if act == 2 { vec![] } else { m.cut(first..first + elen).into_iter().map(|s| (s.0, s.1, mark)).collect() };
                    mid.extend(s);
                    same!(at.is_none(), act == 2, "whether the element is gone");
                    same!(rep.arr.len(), (act == 1) as usize, "new elements reported");
                    m.replace(first..first + elen, mid);
                }
                8 => {
                    if pos >= n {
                        break;
                    }
                    let at = t.query::<LengthFinder>(&pos).unwrap().cursor();
                    let (a, b) = match op.d % 4 {
                        0 => (None, None),
                        1 => (Some(fresh(len)), None),
                        _ => (Some(fresh(len)), Some(fresh(len))),
                    };
                    let mark = (op.c % 3) as u8;
                    let first = pos - at.offset;
                    let elen = t.get_elem(at.leaf).unwrap().len as usize;
                    let mut mid: Vec<_> = m.cut(first..first + elen).into_iter().map(|s| (s.0, s.1, mark)).collect();
                    mid.extend(a.as_ref().map(seg));
                    mid.extend(b.as_ref().map(seg));
                    let cnt = a.is_some() as usize + b.is_some() as usize;
                    let (alive, rep) = t.update_leaf(at.leaf, |e| {
                        e.mark = mark;
                        (true, a, b)
                    });
                    same!(alive, true, "whether the element is still there");
                    same!(rep.arr.len(), cnt, "new elements reported");
                    m.replace(first..first + elen, mid);
                }
                9 => {
                    if n == 0 {
                        break;
                    }
                    let mark = 1 + (op.c % 2) as u8;
                    let mut args = vec![];
                    let mut spans = vec![];
                    let mut seen = HashMap::new();
                    for i in 0..1 + op.b as usize % 24 {
                        let p = if op.d & 1 == 0 { rnd.next(n) } else { (pos + i * 7) % n };
                        let at = t.query::<LengthFinder>(&p).unwrap().cursor();
                        if seen.insert(at.leaf, ()).is_some() {
                            continue;
                        }
                        let elen = t.get_elem(at.leaf).unwrap().len as usize;
                        let (s, e) = if op.d & 2 == 0 { (at.offset, at.offset + 1) } else { (0, elen) };
                        args.push((at.leaf, s..e, mark));
                        spans.push((p - at.offset + s, p - at.offset + e));
                    }
                    t.update_leaves_with_arg_in_ranges(args, |e, a| e.mark = *a);
                    for (s, e) in spans {
                        let mid = m.cut(s..e).into_iter().map(|x| (x.0, x.1, mark)).collect();
                        m.replace(s..e, mid);
                    }
                }
                10 => {
                    if t.is_empty() {
                        break;
                    }
                    let end = (pos + op.b as usize % 500).min(n);
                    let r = t.range::<LengthFinder>(pos..end).unwrap();
                    let mut got = vec![];
                    for x in t.iter_range(r.start.cursor()..r.end.cursor()) {
                        let (s, e) = (x.start.unwrap_or(0), x.end.unwrap_or(x.elem.len as usize));
                        if e > s {
                            got.push((x.elem.start + s as u32, (e - s) as u32, x.elem.mark));
                        }
                    }
                    same!(join(got), m.cut(pos..end), "content iterated between {} and {}", pos, end);
                }
                11 => {
                    let mut got = vec![];
                    for (before, e) in t.iter_with_filter(|s| (s.marks > 0, s.len as usize)) {
                        if got.len() < 4 {
                            same!(m.at(before).map(|x| x.0), Some(e.start), "position {} accumulated for a marked element", before);
                        }
                        got.push(seg(e));
                    }
                    same!(join(got), join(m.0.iter().filter(|s| s.2 > 0).copied().collect()), "marked content found by the filter");
                    hit("filtered traversal judged");
                }
                12 => {
                    if huge || j > 0 {
                        break;
                    }
                    let other = t.clone();
                    let old = m.clone();
                    if n > 0 {
                        let e = fresh(1);
                        m.replace(n..n, vec![seg(&e)]);
                        t.push(e);
                        let p = rnd.next(n);
                        let at = t.query::<LengthFinder>(&p).unwrap().cursor();
                        let el = t.get_elem(at.leaf).unwrap().len as usize;
                        m.replace(p - at.offset..p - at.offset + el, vec![]);
                        t.remove_leaf(at);
                        probe(&other, &old, p)?;
                    }
                    whole(&other, &old)?;
                    if op.d & 1 == 0 {
                        t = other;
                        m = old;
                    }
                }
                13 => {
                    for _ in 0..1 + op.b as usize % 400 {
                        let e = fresh(len);
                        let s = seg(&e);
                        let n = m.len();
                        if op.d & 1 == 0 {
                            t.push(e);
                            m.0.push(s);
                        } else {
                            t.prepend(e);
                            m.0.insert(0, s);
                        }
                        same!(m.len(), n + len, "model");
                    }
                    m.0 = join(std::mem::take(&mut m.0));
                }
                _ => {
                    if n == 0 {
                        break;
                    }
                    let (a, b) = (pos.min(n - 1), rnd.next(n));
                    let (x, y) = (t.query::<LengthFinder>(&a).unwrap().cursor(), t.query::<LengthFinder>(&b).unwrap().cursor());
                    same!(t.compare_pos(x, y), a.cmp(&b), "order of the positions {} and {}", a, b);
                }
            }
            done += 1;
            hit(KIND_NAMES[k]);
            let n = m.len();
            same!((t.root_cache().len as usize, t.root_cache().marks as usize), (n, m.marks()), "summary of the tree after {}", KIND_NAMES[k]);
            let r = rnd.next(n + 1);
            for p in [caret.min(n), (caret + len).min(n), caret.saturating_sub(1).min(n), r] {
                probe(&t, &m, p)?;
            }
            if m.0.len() > 6000 {
                // keep the model small
                break;
            }
        }
    }
    CUR_OP.with(|x| x.set(-1));
    for p in edges(&t) {
        probe(&t, &m, p.min(m.len()))?;
        probe(&t, &m, p.saturating_sub(1))?;
    }
    whole(&t, &m)?;
    if t.node_len() < 60_000 {
        t.check();
    }
    maxi("levels of inner nodes", t.depth() as u64);
    Ok(CaseInfo { nontrivial: done >= 5 && n0 >= 10_000, trace: vec![] })
}

fn run_map(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    let c = &case.cfg;
    let n0 = size(c, big);
    let huge = c[0] == HUGE;
    // (1000003 is prime, so that the mixed order takes every key once)
    let mode = c[4] as usize % if huge || n0 % 1_000_003 == 0 { 2 } else { 3 };
    let key = |i: usize| i as u32 * 4 + 2;
    let val = |k: u32| k.wrapping_mul(0x9E37_79B9) as u16;
    if trace {
        out.push(format!("a map of {} keys, inserted in {} order", n0, ["rising", "falling", "mixed"][mode]));
    }
    let mut t: OrdTreeMap<u32, u16> = OrdTreeMap::new();
    for i in 0..n0 {
        let i = match mode {
            0 => i,
            1 => n0 - 1 - i,
            _ => (i as u64 * 1_000_003 % n0 as u64) as usize,
        };
            let k = key(i);
        t.insert(k, val(k));
    }
    // keys that differ from the regular pattern
    let mut diff: BTreeMap<u32, Option<u16>> = BTreeMap::new();
    let mut len = n0;
    let base = |k: u32| if k % 4 == 2 && ((k / 4) as usize) < n0 { Some(val(k)) } else { None };
    let whole = |t: &OrdTreeMap<u32, u16>, diff: &BTreeMap<u32, Option<u16>>, len: usize| -> Result<(), String> {
        same!((t.len(), t.is_empty()), (len, len == 0), "number of keys");
        let mut it = t.iter();
        let mut d = diff.iter().peekable();
        let mut i = 0usize;
        let mut cnt = 0;
        loop {
            // the next key of the pattern and the next exception, in order
            let b = (i < n0).then(|| key(i));
            let x = d.peek().map(|x| *x.0);
            let exp = match (b, x) {
                (None, None) => break,
                (Some(b), x) if x.is_none_or(|x| b < x) => {
                    i += 1;
                    Some((b, val(b)))
                }
                (b, Some(x)) => {
                    if b == Some(x) {
                        i += 1;
                    }
                    d.next().unwrap().1.map(|v| (x, v))
                }
                _ => unreachable!(),
            };
            if let Some(e) = exp {
                cnt += 1;
                same!(it.next(), Some(&e), "entry {} of the map", cnt);
            }
        }
        same!(it.next(), None, "entry past the end of the map");
        same!(cnt, len, "entries");
        Ok(())
    };
    whole(&t, &diff, len)?;
    let mut rnd = Rnd(c[5] as u64 * 65537 + c[6] as u64 + 1);
    let mut caret = 0u32;
    let mut done = 0;
    for op in &case.ops {
        let k = op.k as usize % NKINDS;
        CUR_OP.with(|x| x.set(k as i32));
        let top = key(n0) as usize + 40;
        let run = if k == 5 && !huge { 1 + op.b as usize % 3000 } else { op.rep.max(1) as usize };
        let first = match op.a & 7 {
            0 => (op.a as u32 >> 3) % 60,
            1 => (top as u32).saturating_sub((op.a as u32 >> 3) % 120),
            2 | 3 => caret,
            _ => rnd.next(top) as u32,
        };
        if trace && out.len() < 400 {
            out.push(format!("{} {} keys from {}", if k % 2 == 0 { "insert" } else { "delete" }, run, first));
        }
        for j in 0..run {
            let q = first + j as u32 * [1u32, 2, 4][op.c as usize % 3];
            caret = q;
            let now = diff.get(&q).copied().unwrap_or_else(|| base(q));
            if k % 2 == 0 {
                let v = (op.d as usize + j) as u16;
                t.insert(q, v);
                len += now.is_none() as usize;
                diff.insert(q, Some(v));
            } else {
                let r = t.delete(&q);
                same!(r, now.map(|v| (q, v)), "result of deleting {}", q);
                if now.is_some() {
                    len -= 1;
                    diff.insert(q, None);
                    same!(t.delete(&q), None, "result of deleting {} again", q);
                }
            }
            same!(t.len(), len, "number of keys");
            done += 1;
            hit(if k % 2 == 0 { "map insert" } else { "map delete" });
        }
    }
    CUR_OP.with(|x| x.set(-1));
    whole(&t, &diff, len)?;
    maxi("keys of a map", n0 as u64);
    Ok(CaseInfo { nontrivial: done >= 5 && n0 >= 10_000, trace: vec![] })
}

fn run_rope(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    let c = &case.cfg;
    let n0 = size(c, big) * 8;
    let mut rnd = Rnd(c[5] as u64 * 65537 + c[6] as u64 + 1);
    let text = |from: usize, n: usize| -> String { (from..from + n).map(|i| (b'!' + (i.wrapping_mul(7) % 89) as u8) as char).collect() };
    let mut r = Rope::new();
    let mut m: Vec<u8> = vec![];
    let piece = [60usize, 127, 128, 129, 3000, 100_000][c[3] as usize % 6];
    let front = c[4] % 2 == 1;
    if trace {
        out.push(format!("a rope of {} bytes from pieces of {} at the {}", n0, piece, if front { "front" } else { "end" }));
    }
    let mut made = 0;
    while made < n0 {
        let s = text(made, piece);
        if front {
            r.insert(0, &s);
        } else {
            r.insert(made, &s);
        }
        made += s.len();
    }
    for i in 0..made / piece {
        let i = if front { made / piece - 1 - i } else { i };
        m.extend(text(i * piece, piece).as_bytes());
    }
    same!(r.len(), m.len(), "length of the rope");
    if r.to_string().as_bytes() != m {
        fail!("the rope of {} bytes differs from its pieces", m.len());
    }
    let mut done = 0;
    let mut caret = m.len() / 2;
    for op in &case.ops {
        let k = op.k as usize % NKINDS;
        CUR_OP.with(|x| x.set(k as i32));
        for j in 0..op.rep.max(1) as usize {
            let pos = pos_of(op, j, m.len(), caret, &mut rnd, &[]);
            if trace && out.len() < 400 {
                out.push(format!("{} at {} of {}", if k % 2 == 1 { "insert" } else { "delete" }, pos, m.len()));
            }
            if k % 2 == 1 {
                let s = text(op.c as usize + j, if op.d & 3 == 0 { op.b as usize % 2000 } else { 1 + op.b as usize % 20 });
                r.insert(pos, &s);
                m.splice(pos..pos, s.bytes());
                caret = pos + s.len();
            } else {
                let l = if k == 4 { op.b as usize * 3 } else { 1 + op.b as usize % 200 };
                let end = (pos + l).min(m.len());
                r.delete_range(pos..end);
                m.drain(pos..end);
                caret = pos;
            }
            done += 1;
            hit(if k % 2 == 1 { "rope insert" } else { "rope delete" });
            same!(r.len(), m.len(), "length of the rope");
        }
    }
    CUR_OP.with(|x| x.set(-1));
    if r.to_string().as_bytes() != m {
        let s = r.to_string();
        let i = s.bytes().zip(&m).take_while(|(a, b)| a == *b).count();
        fail!("the rope of {} bytes differs from the text at {}", m.len(), i);
    }
    maxi("bytes of a rope", m.len() as u64);
    Ok(CaseInfo { nontrivial: done >= 5 && n0 >= 80_000, trace: vec![] })
}

pub fn run(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    begin_case(true);
    let what = if case.cfg[0] == HUGE { case.cfg[1] as usize % 3 } else { [0, 0, 0, 1, 1, 1, 2, 3][case.cfg[7] as usize % 8] };
    match what {
        0 => run_tree::<Diffed>(case, trace, big, out),
        1 => run_tree::<Recomputed>(case, trace, big, out),
        2 => run_map(case, trace, big, out),
        _ => run_rope(case, trace, big, out),
    }
}
