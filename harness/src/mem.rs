//! What a structure keeps: elements alive, and bytes of heap, against the content it holds.
use crate::case::Case;
use crate::stats::{begin_case, hit, maxi, CaseInfo, CUR_OP};
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTree, BTreeTrait, Child, LengthFinder, OrdTreeMap, OrdTreeSet, Rope, UseLengthFinder};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ops::Range;

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

thread_local! {
    /// bytes allocated less bytes freed by this thread
    static NET: Cell<isize> = const { Cell::new(0) };
    /// elements and values in existence
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static MERGE: Cell<bool> = const { Cell::new(false) };
}

struct Counting;
// SAFETY: everything is passed on to the system allocator; only sizes are counted
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = NET.try_with(|n| n.set(n.get() + l.size() as isize));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = NET.try_with(|n| n.set(n.get() - l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = NET.try_with(|n| n.set(n.get() + l.size() as isize));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let _ = NET.try_with(|n| n.set(n.get() + new as isize - l.size() as isize));
        System.realloc(p, l, new)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// counts itself while it exists
#[derive(Debug)]
struct Live;
impl Live {
    fn new() -> Live {
        LIVE.with(|l| l.set(l.get() + 1));
        Live
    }
}
impl Clone for Live {
    fn clone(&self) -> Live {
        Live::new()
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

#[derive(Debug, Clone)]
struct P {
    v: Vec<u32>,
    _live: Live,
}
impl P {
    fn new(v: Vec<u32>) -> P {
        P { v, _live: Live::new() }
    }
}
impl HasLength for P {
    fn rle_len(&self) -> usize {
        self.v.len()
    }
}
impl Mergeable for P {
    fn can_merge(&self, o: &Self) -> bool {
        MERGE.with(|m| m.get())
            && self.v.len() + o.v.len() <= 6
            && matches!((self.v.last(), o.v.first()), (Some(a), Some(b)) if a.wrapping_add(1) == *b)
    }
    fn merge_right(&mut self, o: &Self) {
        self.v = [&self.v[..], &o.v].concat();
    }
    fn merge_left(&mut self, o: &Self) {
        self.v = [&o.v[..], &self.v].concat();
    }
}
impl Sliceable for P {
    fn _slice(&self, r: Range<usize>) -> Self {
        P::new(self.v[r].to_vec())
    }
}
impl TryInsert for P {
    fn try_insert(&mut self, at: usize, e: Self) -> Result<(), Self> {
        if !MERGE.with(|m| m.get()) || self.v.len() + e.v.len() > 3 {
            return Err(e);
        }
        self.v = [&self.v[..at], &e.v, &self.v[at..]].concat();
        Ok(())
    }
}
impl CanRemove for P {
    fn can_remove(&self) -> bool {
        self.v.is_empty()
    }
}
macro_rules! tree_trait {
    ($t:ident, $d:expr) => {
        #[derive(Debug)]
        struct $t;
        impl BTreeTrait for $t {
            type Elem = P;
            type Cache = isize;
            type CacheDiff = isize;
            const USE_DIFF: bool = $d;
            fn calc_cache_internal(c: &mut isize, ch: &[Child<Self>]) -> isize {
                let n: isize = ch.iter().map(|x| x.cache).sum();
                n - std::mem::replace(c, n)
            }
            fn apply_cache_diff(c: &mut isize, d: &isize) {
                *c += d;
            }
            fn merge_cache_diff(a: &mut isize, b: &isize) {
                *a += b;
            }
            fn get_elem_cache(e: &P) -> isize {
                e.v.len() as isize
            }
            fn new_cache_to_diff(c: &isize) -> isize {
                *c
            }
            fn sub_cache(a: &isize, b: &isize) -> isize {
                a - b
            }
        }
        impl UseLengthFinder<$t> for $t {
            fn get_len(c: &isize) -> usize {
                *c as usize
            }
        }
    };
}
tree_trait!(Diffed, true);
tree_trait!(Recomputed, false);

pub const NKINDS: usize = 14;
pub const KIND_NAMES: [&str; NKINDS] = [
    "insert", "remove", "drain", "push-prepend", "batch", "update", "update-leaf", "update-by-search", "update-ranges", "drain-all", "clear", "clone", "collect",
    "swap",
];
pub fn kinds() -> Vec<(u8, u32)> {
    vec![(0, 6), (1, 6), (2, 8), (3, 4), (4, 4), (5, 4), (6, 4), (7, 4), (8, 3), (9, 1), (10, 1), (11, 1), (12, 1), (13, 1)]
}

struct Rnd(u64);
impl Rnd {
    fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 20) as u128 * n.max(1) as u128 >> 44) as usize
    }
}

/// bytes held by the structure under test: what its operations allocate less what they free
#[derive(Default)]
struct Meter {
    held: isize,
    peak: usize,
}
impl Meter {
    fn on<R>(&mut self, f: impl FnOnce() -> R) -> R {
        let a = NET.with(|n| n.get());
        let r = f();
        self.held += NET.with(|n| n.get()) - a;
        r
    }
    /// `n` units are held now: all the heap is accounted for by the most there ever were
    fn judge(&mut self, n: usize, per: usize, what: &str) -> Result<(), String> {
        self.peak = self.peak.max(n);
        let lim = BASE + per * self.peak;
        maxi(&format!("percent of the memory allowed ({})", what), (self.held.max(0) as usize * 100 / lim) as u64);
        if self.held > lim as isize {
            fail!("{} bytes are held by a {} that holds {} and never held more than {} units (allowed: {})", self.held, what, n, self.peak, lim);
        }
        Ok(())
    }
}
const BASE: usize = 8_000;

pub fn run(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    begin_case(true);
    LIVE.with(|l| l.set(0));
    MERGE.with(|m| m.set(case.cfg[3] % 3 == 0));
    match case.cfg[1] % 8 {
        0..=2 => tree::<Diffed>(case, trace, big, out),
        3..=4 => tree::<Recomputed>(case, trace, big, out),
        5 => rope(case, trace, big, out),
        6 => rope(case, trace, big, out),
        _ => map(case, trace, big, out),
    }
}

/// the most units that are held: a few levels; now and then many
fn top(case: &Case, big: bool) -> usize {
    let t = [4, 12, 13, 30, 60, 100, 160, 300][case.cfg[2] as usize % 8];
    let m = case.cfg[2] as usize / 8;
    t * if m % 64 == 0 { 40 } else if big && m % 8 == 0 { 8 } else { 1 }
}

fn tree<B>(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String>
where
    B: BTreeTrait<Elem = P, Cache = isize, CacheDiff = isize> + UseLengthFinder<B> + 'static,
{
    let top = top(case, big);
    let mut rnd = Rnd(case.cfg[5] as u64 * 65537 + case.cfg[6] as u64 + 1);
    let mut mt = Meter::default();
    let mut other: Option<BTree<B>> = None;
    let mut t: BTree<B> = mt.on(BTree::new);
    let mut next = 0u32;
    let (mut steps, mut removed) = (0usize, 0usize);
    let maxlen = 1 + case.cfg[4] as usize % 4;
    let gap = case.cfg[4] / 4 % 2 == 0;
    for op in &case.ops {
        let k0 = op.k as usize % NKINDS;
        CUR_OP.with(|x| x.set(k0 as i32));
        if trace && out.len() < 400 {
            out.push(format!("{} x {}, {} units held", KIND_NAMES[k0], op.rep.max(1) as usize * (1 + op.d as usize % 24), t.root_cache()));
        }
        for j in 0..op.rep.max(1) as usize * if k0 > 9 { 1 } else { 1 + op.d as usize % 24 } {
            let n = (*t.root_cache()).max(0) as usize;
            // near the limit only what removes
            let k = if n >= top && matches!(k0, 0 | 3 | 4 | 12) { 1 + (op.b as usize + j) % 2 } else { k0 };
            let k = if t.is_empty() && matches!(k, 1 | 2 | 5..=8) { 0 } else { k };
            // what has to go leaves from another place than where things are put
            let pos = match if k == k0 { op.a } else { op.c } & 3 {
                0 => (op.a as usize >> 2) % (n + 1),
                1 => 0,
                2 => n,
                _ => rnd.next(n + 1),
            };
            let len = 1 + rnd.next(maxlen);
            let mut fresh = |len: usize| {
                let s = next;
                next += (len + gap as usize) as u32;
                P::new((s..s + len as u32).collect())
            };
            let what = (op.c as usize + j) % 7;
            mt.on(|| match k {
                0 => {
                    let e = fresh(len);
                    match t.query::<LengthFinder>(&pos) {
                        Some(q) => t.insert_by_path(q.cursor(), e).0,
                        None => t.push(e),
                    };
                }
                1 => {
                    if let Some(q) = t.query::<LengthFinder>(&pos) {
                        t.remove_leaf(q.cursor());
                    }
                }
                2 => {
                    let end = (pos + rnd.next(1 + op.b as usize % (top + 2))).min(n);
                    let mut d = t.drain_by_query::<LengthFinder>(pos..end);
                    for _ in 0..[usize::MAX, 0, 1, 3][what % 4] {
                        if d.next().is_none() {
                            break;
                        }
                    }
                }
                3 => {
                    let e = fresh(len);
                    if what % 2 == 0 { t.push(e) } else { t.prepend(e) };
                }
                4 => {
                    let m = if top > 1000 && what == 1 { top / len } else { [30, 6][(what > 0) as usize] };
                    let v: Vec<P> = (0..1 + rnd.next(m)).map(|_| fresh(len)).collect();
                    let at = t.query::<LengthFinder>(&pos).map(|q| q.cursor());
                    t.insert_many_by_cursor(at, v.into_iter());
                }
                5 => {
                    let end = (pos + rnd.next(1 + op.b as usize % (top + 2))).min(n);
                    let r = t.range::<LengthFinder>(pos..end).unwrap();
                    let mut i = 0;
                    t.update(r.start.cursor()..r.end.cursor(), &mut |e: &mut P| {
                        i += 1;
                        let b = e.v.len() as isize;
                        if what < 2 || what == 2 && i % 2 == 0 {
                            e.v = vec![];
                        }
                        Some(e.v.len() as isize - b)
                    });
                }
                6 => {
                    let c = t.query::<LengthFinder>(&pos.min(n - 1)).unwrap().cursor();
                    let (a, b) = match what {
                        0 | 1 if n < top => (Some(fresh(len)), None),
                        2 if n < top => (Some(fresh(len)), Some(fresh(1))),
                        _ => (None, None),
                    };
                    t.update_leaf(c.leaf, |e| {
                        if what > 3 {
                            e.v = vec![];
                        }
                        (true, a, b)
                    });
                }
                7 => {
                    let a = (what < 2 && n < top).then(|| fresh(len));
                    t.update_leaf_by_search::<LengthFinder>(&pos.min(n - 1), |e, _| {
                        let b = e.v.len() as isize;
                        if what > 3 {
                            e.v = vec![];
                        }
                        Some((e.v.len() as isize - b + a.as_ref().map_or(0, |a| a.v.len() as isize), a, None))
                    });
                }
                8 => {
                    let mut args = vec![];
                    for i in 0..1 + rnd.next(5) {
                        let c = t.query::<LengthFinder>(&rnd.next(n)).unwrap().cursor();
                        let l = t.get_elem(c.leaf).unwrap().v.len();
                        let a = rnd.next(l);
                        args.push((c.leaf, a..a + 1 + rnd.next(l - a), i));
                    }
                    t.update_leaves_with_arg_in_ranges(args, |e, i| e.v.iter_mut().for_each(|x| *x = x.wrapping_add((*i as u32) << 20)));
                }
                9 => {
                    let mut c = t.drain_by_query::<LengthFinder>(0..n);
                    if what % 2 == 0 {
                        c.next();
                    }
                    drop(c);
                    if what < 5 {
                        let v: Vec<P> = (0..1 + rnd.next([top / len, 13, 3, 3, 3][what])).map(|_| fresh(len)).collect();
                        t.insert_many_by_cursor(None, v.into_iter());
                    }
                }
                10 => t.clear(),
                11 => {
                    // the original goes
                    let c = t.clone();
                    t = c;
                }
                12 => t = (0..n.min(top) / 2).map(|_| fresh(len)).collect(),
                _ => match &mut other {
                    // a clone is put aside, taken up again or dropped
                    None => other = Some(t.clone()),
                    Some(o) if what < 4 => std::mem::swap(&mut t, o),
                    _ => other = None,
                },
            });
            steps += 1;
            removed += matches!(k, 1 | 2 | 9) as usize;
            let held = |t: &BTree<B>| t.iter().fold((0, 0), |(a, b), e| (a + 1, b + e.v.len()));
            let (e1, u1) = held(&t);
            let (e2, u2) = other.as_ref().map_or((0, 0), held);
            let live = LIVE.with(|l| l.get());
            if live != (e1 + e2) as isize {
                fail!("{} elements exist after {}, {} are in the tree{}", live, KIND_NAMES[k], e1 + e2, if other.is_some() { " and its clone" } else { "" });
            }
            let inner = t.node_len() - e1;
            if inner > 12 + e1 {
                fail!("{} inner nodes exist after {} with {} elements in the tree", inner, KIND_NAMES[k], e1);
            }
            // a clone and its original never hold more than two times the peak
            mt.judge(u1.max(u2), 2 * PER_UNIT, "tree")?;
            if k == 10 {
                hit("clear");
            }
        }
    }
    mt.on(|| {
        drop(t);
        drop(other);
    });
    if mt.held != 0 || LIVE.with(|l| l.get()) != 0 {
        fail!("{} bytes and {} elements are left of a dropped tree", mt.held, LIVE.with(|l| l.get()));
    }
    hit("history of a tree");
    if mt.peak >= 5200 {
        hit("history of a tree of 5200 or more units");
    }
    maxi("steps of a history", steps as u64);
    Ok(CaseInfo { nontrivial: steps >= 60 && removed >= 20, ..Default::default() })
}
const PER_UNIT: usize = 400;
const PER_BYTE: usize = 120;
const PER_KEY: usize = 500;

fn rope(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    let top = top(case, big) * 4;
    let mut rnd = Rnd(case.cfg[5] as u64 * 65537 + case.cfg[6] as u64 + 1);
    let mut mt = Meter::default();
    let mut t = mt.on(Rope::new);
    let text = "abcdefghijklmnopqrstuvwxyz".repeat(40);
    let (mut steps, mut removed) = (0usize, 0usize);
    for op in &case.ops {
        let k = op.k as usize % NKINDS;
        CUR_OP.with(|x| x.set(k as i32));
        if trace && out.len() < 400 {
            out.push(format!("edit {} x {}, {} bytes held", KIND_NAMES[k], op.rep.max(1) as usize * 8 * (1 + op.d as usize % 24), t.len()));
        }
        for j in 0..op.rep.max(1) as usize * 8 * (1 + op.d as usize % 24) {
            let n = t.len();
            let pos = match op.a & 3 {
                0 => (op.a as usize >> 2) % (n + 1),
                1 => 0,
                2 => n,
                _ => rnd.next(n + 1),
            };
            if k == 10 && j == 0 {
                mt.on(|| t.clear());
                hit("clear");
            } else if n >= top || n > 0 && j % 2 == 1 {
                // what was put there last, or anything
                let len = match k % 4 {
                    0 => 1 + rnd.next(top),
                    1 => 1 + op.b as usize % 300,
                    2 => 128,
                    _ => 1 + rnd.next(4),
                };
                // from another place than where things are put
                let from = match op.c & 7 {
                    0 => 0,
                    1 | 2 => n.saturating_sub(len),
                    3 => n.saturating_sub(n % 128).min(n - 1),
                    4 => rnd.next(n) / 128 * 128,
                    _ => pos.min(n - 1),
                };
                mt.on(|| t.delete_range(from..(from + len).min(n)));
                removed += 1;
            } else {
                let len = match k % 4 {
                    0 => 1 + rnd.next(3),
                    1 => 1 + op.b as usize % 300,
                    2 => 128 * (1 + rnd.next(3)),
                    _ => 1 + rnd.next(40),
                };
                mt.on(|| t.insert(pos, &text[..len]));
            }
            steps += 1;
            mt.judge(t.len(), PER_BYTE, "rope")?;
        }
    }
    mt.on(|| drop(t));
    if mt.held != 0 {
        fail!("{} bytes are left of a dropped rope", mt.held);
    }
    hit("history of a rope");
    if mt.peak >= 5200 {
        hit("history of a rope of 5200 or more bytes");
    }
    maxi("steps of a history", steps as u64);
    Ok(CaseInfo { nontrivial: steps >= 100 && removed >= 40, ..Default::default() })
}

fn map(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    let top = top(case, big);
    let mut rnd = Rnd(case.cfg[5] as u64 * 65537 + case.cfg[6] as u64 + 1);
    let mut mt = Meter::default();
    let mut t: OrdTreeMap<u32, (Live, [u32; 3])> = mt.on(OrdTreeMap::new);
    let mut s: OrdTreeSet<Box<u32>> = mt.on(OrdTreeSet::new);
    let is_set = case.cfg[1] / 8 % 2 == 0;
    let (mut steps, mut removed) = (0usize, 0usize);
    for op in &case.ops {
        let k = op.k as usize % NKINDS;
        CUR_OP.with(|x| x.set(k as i32));
        if trace && out.len() < 400 {
            out.push(format!("keys, mode {} x {}, {} held", k, op.rep.max(1) as usize * 4 * (1 + op.d as usize % 24), if is_set { s.len() } else { t.len() }));
        }
        for j in 0..op.rep.max(1) as usize * 4 * (1 + op.d as usize % 24) {
            let n = if is_set { s.len() } else { t.len() };
            let key = match k % 5 {
                0 => rnd.next(2 * top) as u32,
                1 => (op.a as usize + j / 2) as u32 % (2 * top) as u32,
                2 => 70_000 - (op.a as usize + j / 2) as u32 % (2 * top) as u32,
                3 => (op.b as usize % 8) as u32 + j as u32 % 2,
                _ => rnd.next(70_000) as u32,
            };
            // the least or the greatest key goes when there are too many
            let del = match (n >= top, k % 2) {
                (true, 0) => if is_set { s.iter().next().map(|x| **x) } else { t.iter_key().next().copied() },
                (true, _) => if is_set { s.iter().last().map(|x| **x) } else { t.iter_key().last().copied() },
                _ => (k % 5 != 0 && j % 2 == 1 || rnd.next(8) == 0).then_some(key),
            };
            match del {
                Some(key) => {
                    mt.on(|| if is_set { s.delete(&Box::new(key)) } else { t.delete(&key).is_some() });
                    removed += 1;
                }
                None => {
                    mt.on(|| if is_set { s.insert(Box::new(key)) } else { t.insert(key, (Live::new(), [key; 3])) });
                }
            }
            steps += 1;
            let n = if is_set { s.iter().count() } else { t.iter().count() };
            let live = LIVE.with(|l| l.get());
            if !is_set && live != n as isize {
                fail!("{} values exist, {} are in the map", live, n);
            }
            mt.judge(n, PER_KEY, "map")?;
        }
    }
    mt.on(|| {
        drop(t);
        drop(s);
    });
    if mt.held != 0 || LIVE.with(|l| l.get()) != 0 {
        fail!("{} bytes and {} values are left of a dropped map", mt.held, LIVE.with(|l| l.get()));
    }
    hit(if is_set { "history of a set" } else { "history of a map" });
    maxi("steps of a history", steps as u64);
    Ok(CaseInfo { nontrivial: steps >= 100 && removed >= 40, ..Default::default() })
}
