//! A sorted index built from the public operations with a user-defined search, against a
//! sorted map. Elements are runs of up to `cap` keys; an inner node is known by its key bounds.
use crate::case::Case;
use crate::elem::{reset_ticks, tick};
use crate::stats::{begin_case, hit, CaseInfo, CUR_OP};
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTree, BTreeTrait, Child, FindResult, Query, QueryResult};
use std::collections::BTreeMap;
use std::ops::Range;

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
pub const NKINDS: usize = 10;
pub const KIND_NAMES: [&str; NKINDS] = [
    "insert", "insert-run", "remove", "replace-value", "drain-interval", "look-up-absent", "remove-by-search", "insert-neighbour",
    "shift-values-in-interval", "remove-run",
];
pub fn kinds() -> Vec<(u8, u32)> {
    vec![(0, 12), (1, 5), (2, 7), (3, 4), (4, 4), (5, 2), (6, 4), (7, 6), (8, 3), (9, 3)]
}

#[derive(Debug, Clone)]
struct Keys {
    kv: Vec<(u64, u64)>,
    cap: usize,
    absorb: usize,
}
impl HasLength for Keys {
    fn rle_len(&self) -> usize {
        tick();
        self.kv.len()
    }
}
impl Sliceable for Keys {
    fn _slice(&self, r: Range<usize>) -> Self {
        Keys { kv: self.kv[r].to_vec(), ..*self }
    }
}
impl Mergeable for Keys {
    fn can_merge(&self, rhs: &Self) -> bool {
        self.kv.len() + rhs.kv.len() <= self.cap
    }
    fn merge_right(&mut self, rhs: &Self) {
        self.kv.extend_from_slice(&rhs.kv)
    }
    fn merge_left(&mut self, l: &Self) {
        self.kv.splice(0..0, l.kv.iter().copied());
    }
}
impl TryInsert for Keys {
    fn try_insert(&mut self, pos: usize, e: Self) -> Result<(), Self> {
        if self.kv.len() + e.kv.len() <= self.absorb {
            self.kv.splice(pos..pos, e.kv);
            Ok(())
        } else {
            Err(e)
        }
    }
}
impl CanRemove for Keys {
    fn can_remove(&self) -> bool {
        self.kv.is_empty()
    }
}

type Bounds = Option<(u64, u64, usize)>;

#[derive(Debug)]
struct Idx;
impl BTreeTrait for Idx {
    type Elem = Keys;
    type Cache = Bounds;
    type CacheDiff = ();
    const USE_DIFF: bool = false;
    fn calc_cache_internal(c: &mut Bounds, ch: &[Child<Self>]) {
        let mut b: Bounds = None;
        for x in ch {
            if let Some((lo, hi, n)) = x.cache {
                b = Some(match b {
                    None => (lo, hi, n),
                    Some((l, _, m)) => (l, hi, m + n),
                })
            }
        }
        *c = b
    }
    fn apply_cache_diff(_: &mut Bounds, _: &()) {}
    fn merge_cache_diff(_: &mut (), _: &()) {}
    fn get_elem_cache(e: &Keys) -> Bounds {
        Some((e.kv.first()?.0, e.kv.last()?.0, e.kv.len()))
    }
    fn new_cache_to_diff(_: &Bounds) {}
    fn sub_cache(_: &Bounds, _: &Bounds) {}
}

/// the place of a key: in the first element whose largest key is not smaller
struct Find;
impl Query<Idx> for Find {
    type QueryArg = u64;
    fn init(_: &u64) -> Self {
        Find
    }
    fn find_node(&mut self, k: &u64, ch: &[Child<Idx>]) -> FindResult {
        tick();
        for (i, c) in ch.iter().enumerate() {
            if c.cache.is_some_and(|b| *k <= b.1) {
                return FindResult::new_found(i, 0);
            }
        }
        FindResult::new_missing(ch.len() - 1, 0)
    }
    fn confirm_elem(&mut self, k: &u64, e: &Keys) -> (usize, bool) {
        match e.kv.binary_search_by_key(k, |x| x.0) {
            Ok(i) => (i, true),
            Err(i) => (i, false),
        }
    }
}

pub fn run(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    begin_case(true);
    let c = &case.cfg;
    let cap = [1usize, 1, 2, 4, 9][c[1] as usize % 5];
    let absorb = [0usize, 0, 3, 8][(c[1] / 5) as usize % 4];
    let dom = [60u64, 500, 5000, 1_000_000][c[2] as usize % 4];
    let huge = c[5] % 256 == 99 && dom >= 5000;
    let max = if huge { 12_000 } else if big { 5000 } else { 1500 };
    let mut t: BTree<Idx> = BTree::new();
    let mut m: BTreeMap<u64, u64> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    let mut val = 0u64;
    let mut caret = 0u64;
    let mut steps = 0usize;
    let (mut peak, mut removed, mut drained) = (0usize, 0, 0);

    fn find(t: &BTree<Idx>, k: u64) -> Result<Option<(QueryResult, u64)>, String> {
        let Some(q) = t.query::<Find>(&k) else { return Ok(None) };
        let Some(e) = q.elem(t) else { fail!("the search for {} led to {:?}, which denotes nothing", k, q) };
        if !q.found {
            return Ok(None);
        }
        match e.kv.get(q.cursor.offset) {
            Some(x) if x.0 == k => Ok(Some((q, x.1))),
            x => fail!("the search for {} claims to have found it at {:?}", k, x),
        }
    }

    let r = (|| -> Result<(), String> {
        if c[3] % 2 == 0 || huge {
            // some cases start from a bigger index
            let n = if huge { (2000 + c[3] as u64 % 7000).min(dom) } else { [40u64, 200, 500, if big { 3000 } else { 1000 }][(c[3] / 2) as usize % 4].min(dom) };
            let step = (dom / n).max(1);
            let keys: Vec<u64> = (0..n).map(|i| match c[4] % 3 {
                0 => i * step,
                1 => (n - 1 - i) * step,
                _ => i.wrapping_mul(2_654_435_761).wrapping_add(c[5] as u64) % dom,
            }).collect();
            if trace {
                log.push(format!("start with {} keys, order {}", n, c[4] % 3));
            }
            if c[4] % 3 == 0 && c[5] & 1 == 0 {
                let mut els: Vec<Keys> = vec![];
                for x in keys {
                    val += 1;
                    m.insert(x, val);
                    match els.last_mut() {
                        Some(e) if e.kv.len() < cap => e.kv.push((x, val)),
                        _ => els.push(Keys { kv: vec![(x, val)], cap, absorb }),
                    }
                }
                t = els.into_iter().collect();
            } else {
                for x in keys {
                    reset_ticks();
                    if m.contains_key(&x) {
                        continue;
                    }
                    val += 1;
                    m.insert(x, val);
                    t.insert::<Find>(&x, Keys { kv: vec![(x, val)], cap, absorb });
                }
            }
            peak = m.len();
        }
        for op in &case.ops {
            let mut k = op.k as usize % NKINDS;
            if m.len() > max && matches!(k, 0 | 1 | 7) {
                k = 4;
            }
            CUR_OP.with(|x| x.set(k as i32));
            let wide = ((op.b as u64) << 16 | op.c as u64) % dom;
            let pick = |m: &BTreeMap<u64, u64>, caret: u64, j: u64| -> Option<u64> {
                let x = match op.a & 3 {
                    0 => wide.wrapping_add(j * 977) % dom,
                    1 => caret,
                    2 => 0,
                    _ => (op.a as u64 >> 2) * dom / 16384,
                };
                m.range(x..).next().or(m.iter().next_back()).map(|x| *x.0)
            };
            for j in 0..op.rep.max(1) as u64 {
                reset_ticks();
                let mut keys: Vec<u64> = vec![];
                match k {
                    0 => keys.push(wide.wrapping_add(j * 2_654_435_761) % dom),
                    1 => {
                        let n = 1 + op.d as u64 % 30;
                        for i in 0..n {
                            keys.push(if op.a & 1 == 0 { wide + i * 2 } else { (wide + 60 - i * 2) % (dom + 60) });
                        }
                    }
                    7 => {
                        let x = pick(&m, caret, j).unwrap_or(7);
                        keys.push(if op.d & 1 == 0 { x + 1 } else { x.saturating_sub(1) });
                    }
                    _ => {}
                }
                for x in keys {
                    val += 1;
                    caret = x;
                    if trace {
                        log.push(format!("put {} -> {}", x, val));
                    }
                    match find(&t, x)? {
                        Some((q, _)) => {
                            if !m.contains_key(&x) {
                                fail!("the absent key {} is found", x);
                            }
                            t.get_elem_mut(q.leaf()).unwrap().kv[q.cursor.offset].1 = val;
                        }
                        None => {
                            if m.contains_key(&x) {
                                fail!("the present key {} is not found", x);
                            }
                            t.insert::<Find>(&x, Keys { kv: vec![(x, val)], cap, absorb });
                        }
                    }
                    m.insert(x, val);
                }
                match k {
                    2 | 6 | 9 => {
                        let n = if k == 9 { 1 + op.d as usize % 40 } else { 1 };
                        let Some(x) = pick(&m, caret, j) else { break };
                        let xs: Vec<u64> = if op.d & 64 == 0 { m.range(x..).take(n).map(|x| *x.0).collect() } else { m.range(..=x).rev().take(n).map(|x| *x.0).collect() };
                        for x in xs {
                            caret = x;
                            if trace {
                                log.push(format!("remove {}", x));
                            }
                            let Some((q, v)) = find(&t, x)? else { fail!("the present key {} is not found", x) };
                            if v != m[&x] {
                                fail!("the key {} has value {} instead of {}", x, v, m[&x]);
                            }
                            if t.get_elem(q.leaf()).unwrap().kv.len() == 1 && k != 6 {
                                match t.remove_leaf(q.cursor) {
                                    Some(e) if e.kv == [(x, v)] => {}
                                    e => fail!("removing the element of key {} returned {:?}", x, e),
                                }
                            } else {
                                let o = q.cursor.offset;
                                t.update_leaf(q.leaf(), |e| {
                                    e.kv.remove(o);
                                    (true, None, None)
                                });
                            }
                            m.remove(&x);
                            removed += 1;
                        }
                    }
                    3 => {
                        let Some(x) = pick(&m, caret, j) else { break };
                        // now and then a key that is likely absent
                        let x = if op.d & 3 == 3 { x + (op.d as u64 >> 2) % 3 } else { x };
                        val += 1;
                        if trace {
                            log.push(format!("replace the value of {} by {} through the search", x, val));
                        }
                        let mut hit = None;
                        t.update_leaf_by_search::<Find>(&x, |e, q| {
                            hit = Some((q, e.kv.get(q.cursor.offset).copied()));
                            if q.found {
                                e.kv[q.cursor.offset].1 = val;
                            }
                            None
                        });
                        match (hit, m.get(&x)) {
                            (Some((q, Some(was))), Some(v)) if q.found && was == (x, *v) => {
                                m.insert(x, val);
                            }
                            (Some((q, _)), None) if !q.found => {}
                            (h, v) => fail!("the search for the key {} (value {:?}) led to {:?}", x, v, h),
                        }
                        caret = x;
                    }
                    4 => {
                        let lo = match op.a & 3 {
                            0 => wide,
                            1 => 0,
                            2 => caret,
                            _ => dom + 70,
                        };
                        let hi = match op.d & 7 {
                            0 => u64::MAX / 2,
                            1 => lo,
                            2 => lo + 1,
                            3 => lo + dom / 4,
                            _ => {
                                let n = (op.d >> 3) as usize % 80;
                                m.range(lo..).nth(n).map_or(lo + 3, |x| *x.0)
                            }
                        };
                        let take = if op.c & 3 == 0 { (op.c >> 2) as usize % 6 } else { usize::MAX };
                        if trace {
                            log.push(format!("drain the keys in {}..{}, reading {} elements", lo, hi, take));
                        }
                        let want: Vec<(u64, u64)> = m.range(lo..hi).map(|x| (*x.0, *x.1)).collect();
                        let got: Vec<(u64, u64)> = t.drain_by_query::<Find>(lo..hi).take(take).flat_map(|e| e.kv).collect();
                        if (take == usize::MAX && got != want) || !want.starts_with(&got) {
                            fail!("draining the keys in {}..{} gave {:?} instead of {:?}", lo, hi, got, want);
                        }
                        for (x, _) in &want {
                            m.remove(x);
                        }
                        drained += want.len();
                        caret = lo;
                    }
                    8 => {
                        // update the values of an interval
                        if m.is_empty() {
                            break;
                        }
                        let Some(lo) = pick(&m, caret, j) else { break };
                        let n = (op.d >> 3) as usize % 60;
                        let hi = m.range(lo..).nth(n).map_or(u64::MAX / 2, |x| *x.0);
                        if trace {
                            log.push(format!("add 1000000 to the values of the keys in {}..{}", lo, hi));
                        }
                        let r = t.range::<Find>(lo..hi).unwrap();
                        let mut seen = vec![];
                        t.update(r.start.cursor..r.end.cursor, &mut |e| {
                            for x in &mut e.kv {
                                seen.push(x.0);
                                x.1 += 1_000_000;
                            }
                            None
                        });
                        let want: Vec<u64> = m.range(lo..hi).map(|x| *x.0).collect();
                        if seen != want {
                            fail!("updating the interval {}..{} touched the keys {:?} instead of {:?}", lo, hi, seen, want);
                        }
                        for x in want {
                            *m.get_mut(&x).unwrap() += 1_000_000;
                        }
                    }
                    5 => {
                        for i in 0..8u64 {
                            let x = (wide + i * i) % (dom + 80);
                            let f = find(&t, x)?.map(|x| x.1);
                            if f != m.get(&x).copied() {
                                fail!("looking up {} gives {:?} instead of {:?}", x, f, m.get(&x));
                            }
                        }
                    }
                    _ => {}
                }
                steps += 1;
                peak = peak.max(m.len());
                let n = m.len();
                if n < 50 || steps % (1 + n / 60) == 0 {
                    let mut it = m.iter();
                    let mut cnt = 0;
                    for e in t.iter() {
                        for x in &e.kv {
                            cnt += 1;
                            match it.next() {
                                Some((a, b)) if (*a, *b) == *x => {}
                                y => fail!("the index holds {:?} where {:?} is due", x, y),
                            }
                        }
                    }
                    if cnt != n {
                        fail!("the index holds {} of {} keys", cnt, n);
                    }
                    let b = m.iter().next().map(|f| (*f.0, *m.iter().next_back().unwrap().0, n));
                    if *t.root_cache() != b {
                        fail!("the bounds of the whole index are {:?} instead of {:?}", t.root_cache(), b);
                    }
                }
                // look-ups around the last change
                for x in m.range(caret.saturating_sub(3)..).take(3).map(|x| *x.0).collect::<Vec<_>>() {
                    if find(&t, x)?.map(|q| q.1) != m.get(&x).copied() {
                        fail!("looking up the present key {} gives {:?} instead of {:?}", x, find(&t, x)?, m.get(&x));
                    }
                }
                if steps % 8 == 0 {
                    t.check();
                }
            }
            hit(KIND_NAMES[k]);
        }
        for (x, v) in &m {
            if find(&t, *x)?.map(|q| q.1) != Some(*v) {
                fail!("looking up the present key {} gives {:?} instead of {}", x, find(&t, *x)?, v);
            }
        }
        t.check();
        Ok(())
    })();
    *out = log;
    r?;
    hit(match peak {
        0..=12 => "case peak <=12 keys",
        13..=144 => "case peak 13..144 keys",
        _ => "case peak >144 keys",
    });
    Ok(CaseInfo { nontrivial: peak >= 30 && removed + drained >= 5, trace: vec![] })
}
