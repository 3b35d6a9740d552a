//! Elements and positions of any length: units up to 2^60, against a model of segments.
use crate::case::{Case, Op};
use crate::stats::{begin_case, hit, maxi, CaseInfo, CUR_OP};
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTree, BTreeTrait, Child, Cursor, LengthFinder, PreviousCache, UseLengthFinder};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::ops::Range;

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => { { let (x, y) = (&$a, &$b); if x != y { return Err(format!("{}: {:?} instead of {:?}", format!($($t)*), x, y)); } } };
}

thread_local! {
    /// contiguous elements merge
    static MERGE: Cell<bool> = const { Cell::new(false) };
}

pub const NKINDS: usize = 15;
pub const KIND_NAMES: [&str; NKINDS] = [
    "probe", "insert", "batch", "remove", "drain", "drain-much", "update", "update-by-search", "update-leaf", "update-ranges", "iter-range", "filter", "clone",
    "push-prepend", "compare",
];
pub fn kinds() -> Vec<(u8, u32)> {
    vec![(0, 4), (1, 6), (2, 5), (3, 5), (4, 5), (5, 2), (6, 6), (7, 5), (8, 5), (9, 4), (10, 3), (11, 2), (12, 1), (13, 3), (14, 2)]
}

#[derive(Debug, Clone)]
struct E {
    start: u64,
    len: u64,
    mark: u8,
}
impl HasLength for E {
    fn rle_len(&self) -> usize {
        self.len as usize
    }
}
impl Mergeable for E {
    fn can_merge(&self, o: &Self) -> bool {
        MERGE.with(|m| m.get()) && self.mark == o.mark && self.start + self.len == o.start
    }
    fn merge_right(&mut self, o: &Self) {
        self.len += o.len;
    }
    fn merge_left(&mut self, o: &Self) {
        self.start = o.start;
        self.len += o.len;
    }
}
impl Sliceable for E {
    fn _slice(&self, r: Range<usize>) -> Self {
        assert!(r.start <= r.end && r.end <= self.len as usize);
        E { start: self.start + r.start as u64, len: (r.end - r.start) as u64, mark: self.mark }
    }
}
impl TryInsert for E {
    fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> {
        Err(e)
    }
}
impl CanRemove for E {
    fn can_remove(&self) -> bool {
        self.len == 0
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq)]
pub struct S {
    len: u64,
    marks: u64,
}
#[derive(Debug, Clone, Copy, Default)]
pub struct D {
    len: i64,
    marks: i64,
}
impl CanRemove for D {
    fn can_remove(&self) -> bool {
        self.len == 0 && self.marks == 0
    }
}
fn summary(e: &E) -> S {
    S { len: e.len as u64, marks: if e.mark > 0 { e.len as u64 } else { 0 } }
}

macro_rules! tree_trait {
    ($t:ident, $d:expr) => {
        #[derive(Debug)]
        struct $t;
        impl BTreeTrait for $t {
            type Elem = E;
            type Cache = S;
            type CacheDiff = D;
            const USE_DIFF: bool = $d;
            fn calc_cache_internal(c: &mut S, ch: &[Child<Self>]) -> D {
                let mut n = S::default();
                for x in ch {
                    n.len += x.cache.len;
                    n.marks += x.cache.marks;
                }
                let d = Self::sub_cache(&n, c);
                *c = n;
                d
            }
            fn apply_cache_diff(c: &mut S, d: &D) {
                c.len = c.len.wrapping_add_signed(d.len);
                c.marks = c.marks.wrapping_add_signed(d.marks);
            }
            fn merge_cache_diff(a: &mut D, b: &D) {
                a.len += b.len;
                a.marks += b.marks;
            }
            fn get_elem_cache(e: &E) -> S {
                summary(e)
            }
            fn new_cache_to_diff(c: &S) -> D {
                D { len: c.len as i64, marks: c.marks as i64 }
            }
            fn sub_cache(l: &S, r: &S) -> D {
                D { len: l.len as i64 - r.len as i64, marks: l.marks as i64 - r.marks as i64 }
            }
        }
        impl UseLengthFinder<$t> for $t {
            fn get_len(c: &S) -> usize {
                c.len as usize
            }
        }
    };
}
tree_trait!(Diffed, true);
tree_trait!(Recomputed, false);

/// the content: segments of consecutive units (start, length, mark)
#[derive(Clone, Default)]
struct Model(Vec<(u64, u64, u8)>);
impl Model {
    fn len(&self) -> usize {
        self.0.iter().map(|s| s.1 as usize).sum()
    }
    fn marks(&self) -> usize {
        self.0.iter().map(|s| if s.2 > 0 { s.1 as usize } else { 0 }).sum()
    }
    fn at(&self, mut pos: usize) -> Option<(u64, u8)> {
        for s in &self.0 {
            if pos < s.1 as usize {
                return Some((s.0 + pos as u64, s.2));
            }
            pos -= s.1 as usize;
        }
        None
    }
    fn cut(&self, r: Range<usize>) -> Vec<(u64, u64, u8)> {
        let mut at = 0;
        let mut out = vec![];
        for x in &self.0 {
            let (s, e) = (r.start.max(at), r.end.min(at + x.1 as usize));
            if s < e {
                out.push((x.0 + (s - at) as u64, (e - s) as u64, x.2));
            }
            at += x.1 as usize;
        }
        out
    }
    fn replace(&mut self, r: Range<usize>, mid: Vec<(u64, u64, u8)>) {
        let n = self.len();
        let mut v = self.cut(0..r.start);
        v.extend(mid);
        v.extend(self.cut(r.end..n));
        self.0 = join(v);
    }
}
fn join(v: Vec<(u64, u64, u8)>) -> Vec<(u64, u64, u8)> {
    let mut o: Vec<(u64, u64, u8)> = Vec::with_capacity(v.len());
    for x in v {
        if x.1 == 0 {
            continue;
        }
        match o.last_mut() {
            Some(l) if l.2 == x.2 && l.0 + l.1 == x.0 => l.1 += x.1,
            _ => o.push(x),
        }
    }
    o
}

fn probe<B>(t: &BTree<B>, m: &Model, pos: usize) -> Result<Option<Cursor>, String>
where
    B: BTreeTrait<Elem = E, Cache = S, CacheDiff = D> + UseLengthFinder<B> + 'static,
{
    let n = m.len();
    let (q, f) = t.query_with_finder_return::<LengthFinder>(&pos);
    let Some(q) = q else {
        if n > 0 {
            fail!("a query for {} of {} finds nothing", pos, n);
        }
        return Ok(None);
    };
    let c = q.cursor();
    let Some(e) = t.get_elem(c.leaf) else { fail!("the query for {} leads to no element", pos) };
    same!(q.found(), pos < n, "whether position {} of {} was found", pos, n);
    same!(f.parent.is_some(), t.depth() > 1, "whether the search named a parent");
    if pos < n {
        let (u, mark) = m.at(pos).unwrap();
        same!((e.start + c.offset as u64, e.mark), (u, mark), "unit at position {} of {}", pos, n);
        if c.offset >= e.len as usize {
            fail!("the query for {} leads to offset {} of an element of length {}", pos, c.offset, e.len);
        }
    } else {
        same!(Some(c.leaf), t.last_leaf(), "element reached past the end");
    }
    // the prefix before the cursor
    let (mut len, mut marks, mut calls) = (0usize, 0usize, 0usize);
    t.visit_previous_caches(c, |p| {
        calls += 1;
        match p {
            PreviousCache::NodeCache(s) => {
                len += s.len as usize;
                marks += s.marks as usize;
            }
            PreviousCache::PrevSiblingElem(e) => {
                len += e.len as usize;
                marks += summary(e).marks as usize;
            }
            PreviousCache::ThisElemAndOffset { elem, offset } => {
                len += offset;
                marks += if elem.mark > 0 { offset } else { 0 };
            }
        }
    });
    if pos < n {
        same!(len, pos, "summed length before position {}", pos);
        same!(marks, m.cut(0..pos).iter().map(|s| if s.2 > 0 { s.1 as usize } else { 0 }).sum::<usize>(), "summed marks before position {}", pos);
    }
    maxi("summaries visited before one cursor", calls as u64);
    // the neighbours
    if pos < n {
        let (first, end) = (pos - c.offset, pos - c.offset + e.len as usize);
        match t.prev_elem(c) {
            None => same!(first, 0, "the element before position {} is missing, its start", pos),
            Some(p) => {
                let Some(x) = t.get_elem(p.leaf) else { fail!("no element before position {}", pos) };
                same!(Some((x.start + x.len as u64 - 1, x.mark)), first.checked_sub(1).and_then(|i| m.at(i)), "unit before the element at {}", pos);
                same!(t.compare_pos(p, c), Ordering::Less, "order of an element and its successor");
            }
        }
        match t.next_elem(c) {
            None => same!(end, n, "the element after position {} is missing, its end", pos),
            Some(p) => {
                let Some(x) = t.get_elem(p.leaf) else { fail!("no element after position {}", pos) };
                same!(Some((x.start, x.mark)), m.at(end), "unit after the element at {}", pos);
                same!(t.compare_pos(p, c), Ordering::Greater, "order of an element and its predecessor");
            }
        }
        match t.shift_path_by_one_offset(c) {
            None => same!(pos + 1, n, "no position after {}", pos),
            Some(p) => {
                let u = t.get_elem(p.leaf).map(|x| (x.start + p.offset as u64, x.mark));
                same!(u, m.at(pos + 1), "unit after position {}", pos);
            }
        }
    }
    Ok(Some(c))
}

/// all elements in order
fn whole<B>(t: &BTree<B>, m: &Model) -> Result<(), String>
where
    B: BTreeTrait<Elem = E, Cache = S, CacheDiff = D> + UseLengthFinder<B> + 'static,
{
    let mut segs = m.0.iter();
    let mut cur = (0u64, 0u64, 0u8);
    let mut leaves = 0usize;
    let mut pos = 0usize;
    for e in t.iter() {
        leaves += 1;
        let (mut s, mut l) = (e.start, e.len as u64);
        while l > 0 {
            if cur.1 == 0 {
                let Some(x) = segs.next() else { fail!("the iteration yields more than {} units", pos) };
                cur = *x;
            }
            let k = l.min(cur.1);
            if s != cur.0 || e.mark != cur.2 {
                fail!("the iteration yields unit {} (mark {}) at position {} instead of {} (mark {})", s, e.mark, pos, cur.0, cur.2);
            }
            s += k;
            l -= k;
            cur.0 += k;
            cur.1 -= k;
            pos += k as usize;
        }
    }
    same!(pos, m.len(), "units yielded by the iteration");
    // every node but the root is judged once by a filter that lets everything pass
    let nodes = Cell::new(1usize);
    let reached = t
        .iter_with_filter(|_| {
            nodes.set(nodes.get() + 1);
            (true, 0u8)
        })
        .count();
    same!(reached, leaves, "elements that pass a filter which refuses nothing");
    same!(t.node_len(), nodes.get(), "number of nodes the tree holds, against the number of nodes linked in it");
    let inner = t.node_len() - leaves;
    if inner > t.depth() + 1 + leaves / 2 {
        fail!("{} inner nodes for {} elements", inner, leaves);
    }
    let lim = 2 + (usize::BITS - leaves.leading_zeros()) as usize / 2;
    if t.depth() > lim {
        fail!("{} levels for {} elements", t.depth(), leaves);
    }
    Ok(())
}

struct Rnd(u64);
impl Rnd {
    fn next(&mut self, n: usize) -> usize {
        let mut x = 0u64;
        for _ in 0..2 {
            self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            x = x << 32 | self.0 >> 32;
        }
        (x as u128 * n as u128 >> 64) as usize
    }
    /// a length: of any magnitude up to `bits`, often next to a power of two
    fn len(&mut self, bits: usize) -> usize {
        let b = self.next(bits + 1);
        match self.next(4) {
            0 => (1 << b) - 1 + self.next(3),
            1 => 1 + self.next(4),
            _ => (1 << b) + self.next(1 << b),
        }
        .max(1)
    }
}

fn pos_of<B>(t: &BTree<B>, op: &Op, n: usize, caret: usize, r: &mut Rnd) -> usize
where
    B: BTreeTrait<Elem = E, Cache = S, CacheDiff = D> + UseLengthFinder<B> + 'static,
{
    if n == 0 {
        return 0;
    }
    let x = op.a as usize >> 3;
    match op.a & 7 {
        0 => x % 60,
        1 => n.saturating_sub(x % 60),
        2 => (caret + x % 40).saturating_sub(20),
        3 => (1usize << (x % 61)) + x / 61 % 3 - 1,
        4 | 5 => {
            // next to the start or end of an element
            let p = r.next(n);
            let c = t.query::<LengthFinder>(&p).unwrap().cursor();
            let l = t.get_elem(c.leaf).unwrap().len as usize;
            (p - c.offset + if x % 2 == 0 { 0 } else { l } + x / 2 % 3).saturating_sub(1)
        }
        _ => r.next(n),
    }
    .min(n)
}

fn run_tree<B>(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String>
where
    B: BTreeTrait<Elem = E, Cache = S, CacheDiff = D> + UseLengthFinder<B> + 'static,
{
    let c = &case.cfg;
    let merge = c[3] % 2 == 0;
    MERGE.with(|m| m.set(merge));
    let bits = [8, 16, 17, 31, 32, 33, 40, 52][c[2] as usize % 8];
    let n0 = (c[0] as f64 / 65536.0 * if big { 11.0 } else { 8.5 }).exp2() as usize;
    let mut rnd = Rnd(c[5] as u64 * 65537 + c[6] as u64 + 1);
    let mut next = 0u64;
    let mut gaps = Rnd(c[7] as u64);
    let mut fresh = |len: usize| {
        let e = E { start: next, len: len as u64, mark: 0 };
        // contiguous with the next one or not
        next += len as u64 + (!merge || gaps.next(2) == 0) as u64;
        e
    };
    let seg = |e: &E| (e.start, e.len as u64, e.mark);
    let first: Vec<E> = (0..n0).map(|_| fresh(rnd.len(bits))).collect();
    let mut m = Model(join(first.iter().map(seg).collect()));
    let mode = c[4] as usize % 4;
    if trace {
        out.push(format!("start with {} elements, {} units, built by {}", n0, m.len(), ["push", "prepend", "collect", "a batch"][mode]));
    }
    let mut t: BTree<B> = BTree::new();
    match mode {
        0 => first.into_iter().for_each(|e| {
            t.push(e);
        }),
        1 => first.into_iter().rev().for_each(|e| {
            t.prepend(e);
        }),
        2 => t = first.into_iter().collect(),
        _ => t.insert_many_by_cursor(None, first.into_iter()),
    }
    let mut caret = m.len() / 2;
    let mut done = 0usize;
    let mut far = 0usize;
    whole(&t, &m)?;
    for op in &case.ops {
        let k = op.k as usize % NKINDS;
        CUR_OP.with(|x| x.set(k as i32));
        for j in 0..op.rep.max(1) as usize {
            let n = m.len();
            let pos = pos_of(&t, op, n, caret, &mut rnd);
            let len = rnd.len(bits);
            far += (n > u32::MAX as usize) as usize;
            if trace && out.len() < 400 {
                out.push(format!("{} at {} of {}", KIND_NAMES[k], pos, n));
            }
            caret = pos;
            match k {
                0 => {}
                1 => {
                    let e = fresh(len);
                    let s = seg(&e);
                    let at = match t.query::<LengthFinder>(&pos) {
                        Some(q) => t.insert_by_path(q.cursor(), e).0,
                        None => t.push(e),
                    };
                    same!(t.get_elem(at.leaf).map(|x| x.start + at.offset as u64), Some(s.0), "what the returned cursor denotes");
                    m.replace(pos..pos, vec![s]);
                }
                2 => {
                    let v: Vec<E> = (0..2 + op.b as usize % 30).map(|_| fresh(rnd.len(bits))).collect();
                    let s = v.iter().map(seg).collect();
                    let at = t.query::<LengthFinder>(&pos).map(|q| q.cursor());
                    t.insert_many_by_cursor(at, v.into_iter());
                    m.replace(pos..pos, s);
                }
                3 => {
                    if pos >= n {
                        break;
                    }
                    let at = t.query::<LengthFinder>(&pos).unwrap().cursor();
                    let Some(e) = t.remove_leaf(at) else { fail!("the element at {} cannot be removed", pos) };
                    let first = pos - at.offset;
                    same!(join(vec![seg(&e)]), m.cut(first..first + e.len as usize), "removed element at {}", pos);
                    same!(t.get_elem(at.leaf).is_none(), true, "whether the removed handle is dead");
                    m.replace(first..first + e.len as usize, vec![]);
                }
                4 | 5 => {
                    let want = if k == 4 { rnd.len(bits) - 1 } else { n / 16 * (1 + op.b as usize % 12) };
                    let end = (pos + want).min(n);
                    if t.is_empty() {
                        break;
                    }
                    let got: Vec<E> = if op.d & 1 == 0 {
                        t.drain_by_query::<LengthFinder>(pos..end).collect()
                    } else {
                        let r = t.range::<LengthFinder>(pos..end).unwrap();
                        t.drain(r).take(if op.d & 2 == 0 { usize::MAX } else { 5 }).collect()
                    };
                    let got = join(got.iter().map(seg).collect());
                    let exp = m.cut(pos..end);
                    let full = op.d & 3 != 3;
                    let gl: usize = got.iter().map(|x| x.1 as usize).sum();
                    let cutto = if full { end } else { (pos + gl).min(end) };
                    if full || cutto == end {
                        same!(got, exp, "drained content of {}..{}", pos, end);
                    } else {
                        same!(got, m.cut(pos..cutto), "first drained content of {}..{}", pos, end);
                    }
                    m.replace(pos..end, vec![]);
                }
                6 => {
                    if t.is_empty() {
                        break;
                    }
                    let want = if op.d & 7 == 0 { n / 8 } else { rnd.len(bits) };
                    let end = (pos + want).min(n);
                    if pos >= end {
                        break;
                    }
                    let mark = (op.c % 3) as u8;
                    let r = t.range::<LengthFinder>(pos..end).unwrap();
                    let empty = op.d & 56 == 8 && (n < 400 || end - pos < n / 4);
                    let mut saw = 0usize;
                    t.update(r.start.cursor()..r.end.cursor(), &mut |e: &mut E| {
                        let b = summary(e);
                        saw += e.len as usize;
                        if empty {
                            e.len = 0;
                        } else {
                            e.mark = mark;
                        }
                        let a = summary(e);
                        Some(D { len: a.len as i64 - b.len as i64, marks: a.marks as i64 - b.marks as i64 })
                    });
                    same!(saw, end - pos, "units the update function saw");
                    let mid = if empty { vec![] } else { m.cut(pos..end).into_iter().map(|s| (s.0, s.1, mark)).collect() };
                    m.replace(pos..end, mid);
                }
                7 => {
                    if pos >= n {
                        break;
                    }
                    let mark = (op.c % 3) as u8;
                    let act = op.d % 4;
                    let add = if act == 1 { Some(fresh(len)) } else { None };
                    let s = add.as_ref().map(seg);
                    let mut info = None;
                    let (at, rep) = t.update_leaf_by_search::<LengthFinder>(&pos, |e, q| {
                        info = Some((q.offset(), e.len as usize, q.found()));
                        let b = summary(e);
                        if act == 2 {
                            e.len = 0;
                        } else {
                            e.mark = mark;
                        }
                        let a = summary(e);
                        let x = add.as_ref().map_or(S::default(), summary);
                        Some((
                            D { len: a.len as i64 - b.len as i64 + x.len as i64, marks: a.marks as i64 - b.marks as i64 + x.marks as i64 },
                            add,
                            None,
                        ))
                    });
                    let Some((off, elen, found)) = info else { fail!("the update function was not called") };
                    same!(found, true, "whether position {} was found", pos);
                    let first = pos - off;
                    let mut mid: Vec<_> = if act == 2 { vec![] } else { m.cut(first..first + elen).into_iter().map(|s| (s.0, s.1, mark)).collect() };
                    mid.extend(s);
                    same!(at.is_none(), act == 2, "whether the element is gone");
                    same!(merge || rep.arr.len() == (act == 1) as usize, true, "whether the new elements are reported");
                    m.replace(first..first + elen, mid);
                }
                8 => {
                    if pos >= n {
                        break;
                    }
                    let at = t.query::<LengthFinder>(&pos).unwrap().cursor();
                    let (a, b) = match op.d % 4 {
                        0 => (None, None),
                        1 => (Some(fresh(len)), None),
                        _ => (Some(fresh(len)), Some(fresh(len))),
                    };
                    let mark = (op.c % 3) as u8;
                    let first = pos - at.offset;
                    let elen = t.get_elem(at.leaf).unwrap().len as usize;
                    let mut mid: Vec<_> = m.cut(first..first + elen).into_iter().map(|s| (s.0, s.1, mark)).collect();
                    mid.extend(a.as_ref().map(seg));
                    mid.extend(b.as_ref().map(seg));
                    let cnt = a.is_some() as usize + b.is_some() as usize;
                    let (alive, rep) = t.update_leaf(at.leaf, |e| {
                        e.mark = mark;
                        (true, a, b)
                    });
                    same!(alive, true, "whether the element is still there");
                    same!(merge || rep.arr.len() == cnt, true, "whether the new elements are reported");
                    m.replace(first..first + elen, mid);
                }
                9 => {
                    if n == 0 {
                        break;
                    }
                    let mark = 1 + (op.c % 2) as u8;
                    let mut args = vec![];
                    let mut spans = vec![];
                    let mut seen = HashMap::new();
                    for i in 0..1 + op.b as usize % 24 {
                        let p = if op.d & 1 == 0 { rnd.next(n) } else { (pos + i * rnd.len(bits)) % n };
                        let at = t.query::<LengthFinder>(&p).unwrap().cursor();
                        if seen.insert(at.leaf, ()).is_some() {
                            continue;
                        }
                        let elen = t.get_elem(at.leaf).unwrap().len as usize;
                        let (s, e) = if op.d & 2 == 0 { (at.offset, at.offset + 1 + rnd.next(elen - at.offset)) } else { (0, elen) };
                        args.push((at.leaf, s..e, mark));
                        spans.push((p - at.offset + s, p - at.offset + e));
                    }
                    t.update_leaves_with_arg_in_ranges(args, |e, a| e.mark = *a);
                    for (s, e) in spans {
                        let mid = m.cut(s..e).into_iter().map(|x| (x.0, x.1, mark)).collect();
                        m.replace(s..e, mid);
                    }
                }
                10 => {
                    if t.is_empty() {
                        break;
                    }
                    let end = (pos + rnd.len(bits) - 1).min(n);
                    let r = t.range::<LengthFinder>(pos..end).unwrap();
                    let mut got = vec![];
                    for x in t.iter_range(r.start.cursor()..r.end.cursor()) {
                        let (s, e) = (x.start.unwrap_or(0), x.end.unwrap_or(x.elem.len as usize));
                        if e > s {
                            got.push((x.elem.start + s as u64, (e - s) as u64, x.elem.mark));
                        }
                    }
                    same!(join(got), m.cut(pos..end), "content iterated between {} and {}", pos, end);
                }
                11 => {
                    let mut got = vec![];
                    for (before, e) in t.iter_with_filter(|s| (s.marks > 0, s.len as usize)) {
                        if got.len() < 4 {
                            same!(m.at(before).map(|x| x.0), Some(e.start), "position {} accumulated for a marked element", before);
                        }
                        got.push(seg(e));
                    }
                    same!(join(got), join(m.0.iter().filter(|s| s.2 > 0).copied().collect()), "marked content found by the filter");
                    hit("filtered traversal judged");
                }
                12 => {
                    if j > 0 {
                        break;
                    }
                    let other = t.clone();
                    let old = m.clone();
                    if n > 0 {
                        let e = fresh(1);
                        m.replace(n..n, vec![seg(&e)]);
                        t.push(e);
                        let p = rnd.next(n);
                        let at = t.query::<LengthFinder>(&p).unwrap().cursor();
                        let el = t.get_elem(at.leaf).unwrap().len as usize;
                        m.replace(p - at.offset..p - at.offset + el, vec![]);
                        t.remove_leaf(at);
                        probe(&other, &old, p)?;
                    }
                    whole(&other, &old)?;
                    if op.d & 1 == 0 {
                        t = other;
                        m = old;
                    }
                }
                13 => {
                    for _ in 0..1 + op.b as usize % 40 {
                        let e = fresh(len);
                        let s = seg(&e);
                        let n = m.len();
                        if op.d & 1 == 0 {
                            t.push(e);
                            m.0.push(s);
                        } else {
                            t.prepend(e);
                            m.0.insert(0, s);
                        }
                        same!(m.len(), n + len, "model");
                    }
                    m.0 = join(std::mem::take(&mut m.0));
                }
                _ => {
                    if n == 0 {
                        break;
                    }
                    let (a, b) = (pos.min(n - 1), rnd.next(n));
                    let (x, y) = (t.query::<LengthFinder>(&a).unwrap().cursor(), t.query::<LengthFinder>(&b).unwrap().cursor());
                    same!(t.compare_pos(x, y), a.cmp(&b), "order of the positions {} and {}", a, b);
                }
            }
            done += 1;
            hit(KIND_NAMES[k]);
            let n = m.len();
            same!((t.root_cache().len as usize, t.root_cache().marks as usize), (n, m.marks()), "summary of the tree after {}", KIND_NAMES[k]);
            let r = rnd.next(n + 1);
            for p in [caret.min(n), (caret + len).min(n), caret.saturating_sub(1).min(n), r] {
                probe(&t, &m, p)?;
            }
            if m.0.len() > 6000 || n >> 60 > 0 {
                // keep the model small
                break;
            }
        }
    }
    CUR_OP.with(|x| x.set(-1));
    whole(&t, &m)?;
    t.check();
    maxi("levels of inner nodes", t.depth() as u64);
    maxi("bits of the greatest position", (usize::BITS - m.len().leading_zeros()) as u64);
    Ok(CaseInfo { nontrivial: done >= 10 && far * 2 >= done, trace: vec![] })
}

pub fn run(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    begin_case(true);
    match case.cfg[1] % 2 {
        0 => run_tree::<Diffed>(case, trace, big, out),
        _ => run_tree::<Recomputed>(case, trace, big, out),
    }
}
