//! OrdTreeMap / OrdTreeSet against std's sorted map and set.
use crate::case::Case;
use crate::elem::{reset_ticks, tick, ticks};
use crate::stats::{begin_case, hit, maxi, CaseInfo, CUR_OP};
use generic_btree::{OrdTreeMap, OrdTreeSet};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

pub const NKINDS: usize = 11;
pub const KIND_NAMES: [&str; NKINDS] = [
    "insert", "overwrite", "delete-present", "delete-random", "delete-absent-neighbour", "insert-ascending-run",
    "insert-descending-run", "delete-run", "delete-extreme", "insert-neighbour", "insert-random-batch",
];
pub fn kinds() -> Vec<(u8, u32)> {
    vec![(0, 10), (1, 4), (2, 8), (3, 4), (4, 5), (5, 5), (6, 4), (7, 3), (8, 3), (9, 5), (10, 5)]
}

pub trait Key: Clone + Ord + Debug + 'static {
    fn mk(x: u32) -> Self;
    /// something that tells equal keys apart, where the type has it
    fn stamp(&mut self, _: u8) {}
    fn stamped(&self) -> u8 {
        0
    }
}
impl Key for u32 {
    fn mk(x: u32) -> u32 {
        x
    }
}
impl Key for String {
    fn mk(x: u32) -> String {
        // different lengths, shared prefixes
        match x % 3 {
            0 => format!("{:06}", x / 3),
            1 => format!("{:06}a", x / 3),
            _ => format!("{:06}aa", x / 3),
        }
    }
}
/// ordered the other way round than its number
#[derive(Clone, Debug)]
pub struct Rev(u32, u8);
impl PartialEq for Rev {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Rev {}
impl PartialOrd for Rev {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rev {
    fn cmp(&self, o: &Self) -> Ordering {
        o.0.cmp(&self.0)
    }
}
impl Key for Rev {
    fn mk(x: u32) -> Rev {
        Rev(x, 0)
    }
    fn stamp(&mut self, s: u8) {
        self.1 = s
    }
    fn stamped(&self) -> u8 {
        self.1
    }
}
/// counts comparisons
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct Counted(u32);
impl PartialOrd for Counted {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Counted {
    fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}
impl Key for Counted {
    fn mk(x: u32) -> Counted {
        Counted(x)
    }
}

/// the container under test, seen as a map from keys to values
pub trait Sut<K: Key>: Default {
    const SET: bool;
    fn insert(&mut self, k: K, v: u64);
    /// (key returned, value returned)
    fn delete(&mut self, k: &K) -> Option<(Option<K>, Option<u64>)>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn pairs(&self, limit: usize) -> Vec<(K, Option<u64>)>;
    fn keys(&self, limit: usize) -> Vec<K>;
}
impl<K: Key> Sut<K> for OrdTreeMap<K, u64> {
    const SET: bool = false;
    fn insert(&mut self, k: K, v: u64) {
        OrdTreeMap::insert(self, k, v)
    }
    fn delete(&mut self, k: &K) -> Option<(Option<K>, Option<u64>)> {
        OrdTreeMap::delete(self, k).map(|(k, v)| (Some(k), Some(v)))
    }
    fn len(&self) -> usize {
        OrdTreeMap::len(self)
    }
    fn is_empty(&self) -> bool {
        OrdTreeMap::is_empty(self)
    }
    fn pairs(&self, limit: usize) -> Vec<(K, Option<u64>)> {
        self.iter().take(limit).map(|(k, v)| (k.clone(), Some(*v))).collect()
    }
    fn keys(&self, limit: usize) -> Vec<K> {
        self.iter_key().take(limit).cloned().collect()
    }
}
impl<K: Key> Sut<K> for OrdTreeSet<K> {
    const SET: bool = true;
    fn insert(&mut self, k: K, _: u64) {
        OrdTreeSet::insert(self, k)
    }
    fn delete(&mut self, k: &K) -> Option<(Option<K>, Option<u64>)> {
        OrdTreeSet::delete(self, k).then_some((None, None))
    }
    fn len(&self) -> usize {
        OrdTreeSet::len(self)
    }
    fn is_empty(&self) -> bool {
        OrdTreeSet::is_empty(self)
    }
    fn pairs(&self, limit: usize) -> Vec<(K, Option<u64>)> {
        self.iter().take(limit).map(|k| (k.clone(), None)).collect()
    }
    fn keys(&self, limit: usize) -> Vec<K> {
        self.iter().take(limit).cloned().collect()
    }
}

struct Run<K: Key, S: Sut<K>> {
    sut: S,
    model: BTreeMap<K, (u32, u64)>,
    /// numbers of the present keys, in no particular order, and where they are
    present: Vec<u32>,
    at: BTreeMap<u32, usize>,
    dom: u32,
    val: u64,
    caret: u32,
    cost: bool,
    steps: u64,
    overwrites: u64,
    misses: u64,
    dels: u64,
    peak: usize,
    trace: Option<Vec<String>>,
}

impl<K: Key, S: Sut<K>> Run<K, S> {
    fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f())
        }
    }
    fn note_cost(&mut self, what: &str, n: usize) -> Result<(), String> {
        let c = ticks();
        if self.cost {
            let lg = (usize::BITS - n.leading_zeros()) as u64;
            maxi(&format!("comparisons per map {} at size<2^{}", what, lg), c);
            let bound = 60 + 13 * lg;
            if c > bound {
                fail!("{} in a map of {} keys took {} key comparisons (bound {})", what, n, c, bound);
            }
        }
        Ok(())
    }
    fn insert(&mut self, x: u32) -> Result<(), String> {
        self.val += 1;
        let v = self.val;
        self.caret = x;
        let mut k = K::mk(x);
        k.stamp(v as u8);
        self.log(|| format!("insert {:?} -> {}", K::mk(x), v));
        reset_ticks();
        let n = self.model.len();
        self.sut.insert(k.clone(), v);
        self.note_cost("insert", n)?;
        if let Some(e) = self.model.get_mut(&k) {
            e.1 = v;
            self.overwrites += 1;
        } else {
            self.model.insert(k, (x, v));
            self.at.insert(x, self.present.len());
            self.present.push(x);
        }
        self.after()
    }
    fn delete(&mut self, x: u32) -> Result<(), String> {
        let k = K::mk(x);
        self.caret = x;
        self.log(|| format!("delete {:?}", K::mk(x)));
        reset_ticks();
        let n = self.model.len();
        let got = self.sut.delete(&k);
        self.note_cost("delete", n)?;
        match self.model.remove_entry(&k) {
            None => {
                self.misses += 1;
                if got.is_some() {
                    fail!("deleting the absent key {:?} returned {:?}", k, got);
                }
            }
            Some((k, (_, v))) => {
                self.dels += 1;
                let p = self.at.remove(&x).unwrap();
                let last = self.present.pop().unwrap();
                if last != x {
                    self.present[p] = last;
                    self.at.insert(last, p);
                }
                match &got {
                    None => fail!("deleting the present key {:?} returned nothing", k),
                    Some((gk, gv)) => {
                        if gk.as_ref().is_some_and(|g| *g != k || g.stamped() != k.stamped()) || gv.is_some_and(|g| g != v) {
                            fail!("deleting {:?} returned {:?} instead of the value {}", k, got, v);
                        }
                    }
                }
            }
        }
        self.after()
    }
    fn after(&mut self) -> Result<(), String> {
        self.steps += 1;
        let n = self.model.len();
        self.peak = self.peak.max(n);
        if self.sut.len() != n || self.sut.is_empty() != (n == 0) {
            fail!("length is reported as {} (empty: {}) instead of {}", self.sut.len(), self.sut.is_empty(), n);
        }
        if n <= 24 || self.steps % (1 + n as u64 / 24) == 0 {
            self.compare()?;
        }
        Ok(())
    }
    fn compare(&mut self) -> Result<(), String> {
        let n = self.model.len();
        let got = self.sut.pairs(n + 2);
        let mut i = 0;
        for ((gk, gv), (k, (_, v))) in got.iter().zip(&self.model) {
            // overwriting replaces the value, the key stays the one inserted first
            if gk != k || gk.stamped() != k.stamped() || (!S::SET && *gv != Some(*v)) {
                fail!("entry #{} of {} is {:?} -> {:?} instead of {:?} -> {}", i, n, gk, gv, k, v);
            }
            i += 1;
        }
        if got.len() != n {
            fail!("iteration gives {} entries instead of {}", got.len(), n);
        }
        let keys = self.sut.keys(n + 2);
        if keys.len() != n || keys.iter().zip(self.model.keys()).any(|(a, b)| a != b || a.stamped() != b.stamped()) {
            fail!("the keys iterated are not the keys present, in order");
        }
        Ok(())
    }
    fn pick(&self, a: u16) -> Option<u32> {
        if self.present.is_empty() {
            return None;
        }
        let y = (a >> 3) as usize;
        Some(match a & 7 {
            0..=3 => self.present[y % self.present.len()],
            4 | 5 => {
                // at or after the last place touched
                let c = K::mk(self.caret);
                self.model.range(c..).nth(y % 4).map(|x| x.1 .0).unwrap_or(self.model.values().next_back().unwrap().0)
            }
            6 => self.model.values().next().unwrap().0,
            _ => self.model.values().next_back().unwrap().0,
        })
    }
}

fn run_one<K: Key, S: Sut<K>>(case: &Case, cost: bool, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    let c = &case.cfg;
    let dom = [40u32, 300, 3000, 60_000, 1_000_000][c[1] as usize % 5];
    let mut r = Run::<K, S> {
        sut: S::default(),
        model: BTreeMap::new(),
        present: vec![],
        at: BTreeMap::new(),
        dom,
        val: 0,
        caret: 0,
        cost,
        steps: 0,
        overwrites: 0,
        misses: 0,
        dels: 0,
        peak: 0,
        trace: if trace { Some(vec![]) } else { None },
    };
    let res = (|| -> Result<(), String> {
        // some cases start from a bigger container
        let huge = c[3] % 256 == 77 && dom >= 3000;
        if c[2] % 3 == 0 || huge {
            let n = if huge { 2000 + c[4] as u32 % 7000 } else { [0u32, 30, 150, 600, if big { 3000 } else { 1200 }][(c[2] / 3) as usize % 5] };
            for i in 0..n {
                let x = match c[3] % 3 {
                    0 => i * (dom / n.max(1)).max(1) % dom,
                    1 => dom - 1 - (i * (dom / n.max(1)).max(1)) % dom,
                    _ => i.wrapping_mul(2_654_435_761).wrapping_add(c[4] as u32) % dom,
                };
                r.insert(x)?;
            }
        }
        let cap = if huge { 12_000 } else if big { 6000 } else { 2500 };
        for op in &case.ops {
            let mut k = op.k as usize % NKINDS;
            if r.model.len() > cap && matches!(k, 0 | 5 | 6 | 9 | 10) {
                k = 7;
            }
            CUR_OP.with(|x| x.set(k as i32));
            let wide = ((op.b as u32) << 16) | op.c as u32;
            for j in 0..op.rep.max(1) as u32 {
                match k {
                    0 => r.insert(wide.wrapping_add(j.wrapping_mul(2_654_435_761)) % dom)?,
                    1 => match r.pick(op.a.wrapping_add(j as u16 * 8)) {
                        Some(x) => r.insert(x)?,
                        None => r.insert(wide % dom)?,
                    },
                    2 => match r.pick(op.a.wrapping_add(j as u16 * 8)) {
                        Some(x) => r.delete(x)?,
                        None => r.delete(wide % dom)?,
                    },
                    3 => r.delete(wide.wrapping_add(j * 7919) % dom)?,
                    4 => {
                        // an absent key next to a present one (or in an empty container)
                        let x = r.pick(op.a).unwrap_or(3);
                        let mut y = if op.d & 1 == 0 { x.wrapping_add(1) } else { x.wrapping_sub(1).min(dom + 5) };
                        while r.at.contains_key(&y) {
                            y = if op.d & 1 == 0 { y + 1 } else if y == 0 { dom + 7 } else { y - 1 };
                        }
                        if op.d & 14 == 2 {
                            y = dom + 9 + j;
                        }
                        r.delete(y)?
                    }
                    5 | 6 => {
                        let n = 1 + op.c as u32 % 40;
                        let s = if op.a & 1 == 0 { wide % dom } else { r.caret };
                        for i in 0..n {
                            let x = if k == 5 { s.wrapping_add(i) % dom } else { s.wrapping_add(dom).wrapping_sub(i) % dom };
                            r.insert(x)?;
                        }
                        break;
                    }
                    7 => {
                        let n = 1 + op.c as usize % [6, 40, 300][op.d as usize % 3];
                        let Some(x) = r.pick(op.a) else { break };
                        let xs: Vec<u32> = if op.d & 8 == 0 {
                            r.model.range(K::mk(x)..).take(n).map(|e| e.1 .0).collect()
                        } else {
                            r.model.range(..=K::mk(x)).rev().take(n).map(|e| e.1 .0).collect()
                        };
                        for x in xs {
                            r.delete(x)?;
                        }
                        break;
                    }
                    8 => {
                        let x = if op.a & 1 == 0 { r.model.values().next() } else { r.model.values().next_back() };
                        let Some(&(x, _)) = x else { break };
                        r.delete(x)?
                    }
                    9 => {
                        let x = r.pick(op.a).unwrap_or(5);
                        let y = if op.d & 1 == 0 { x.wrapping_add(1 + j) } else { x.saturating_sub(1 + j) };
                        r.insert(y % dom)?
                    }
                    _ => {
                        for i in 0..1 + op.c as u32 % 30 {
                            r.insert((wide ^ i.wrapping_mul(0x9E37_79B1)) % dom)?;
                        }
                        break;
                    }
                }
            }
            hit(KIND_NAMES[k]);
        }
        r.compare()?;
        // take everything out again in a few cases
        if c[5] % 4 == 0 {
            let mut xs = r.present.clone();
            if c[5] & 4 == 0 {
                xs.sort();
            }
            if c[5] & 8 == 0 {
                xs.reverse();
            }
            for x in xs {
                r.delete(x)?;
            }
            hit("case ended by deleting every key");
        }
        Ok(())
    })();
    let _ = r.dom;
    if let Some(t) = r.trace.take() {
        *out = t;
    }
    res?;
    hit(match r.peak {
        0..=12 => "case peak <=12 keys",
        13..=144 => "case peak 13..144 keys",
        145..=1000 => "case peak 145..1000 keys",
        1001..=2500 => "case peak 1001..2500 keys",
        _ => "case peak >2500 keys",
    });
    if r.misses > 0 {
        hit("case deleted absent keys");
    }
    if r.overwrites > 0 {
        hit("case overwrote keys");
    }
    Ok(CaseInfo { nontrivial: r.peak >= 60 && r.dels >= 3 && r.misses >= 1 && r.overwrites >= 1, trace: vec![] })
}

pub fn run_map(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    begin_case(true);
    match case.cfg[0] % 3 {
        0 => run_one::<u32, OrdTreeMap<u32, u64>>(case, false, trace, big, out),
        1 => run_one::<String, OrdTreeMap<String, u64>>(case, false, trace, big, out),
        _ => run_one::<Rev, OrdTreeMap<Rev, u64>>(case, false, trace, big, out),
    }
}
pub fn run_set(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    begin_case(true);
    match case.cfg[0] % 3 {
        0 => run_one::<u32, OrdTreeSet<u32>>(case, false, trace, big, out),
        1 => run_one::<String, OrdTreeSet<String>>(case, false, trace, big, out),
        _ => run_one::<Rev, OrdTreeSet<Rev>>(case, false, trace, big, out),
    }
}
/// comparison counts (C22)
pub fn run_cost(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    begin_case(true);
    let r = if case.cfg[0] % 2 == 0 {
        run_one::<Counted, OrdTreeMap<Counted, u64>>(case, true, trace, big, out)
    } else {
        run_one::<Counted, OrdTreeSet<Counted>>(case, true, trace, big, out)
    };
    match r {
        // wrong results are the business of C17 and C18
        Err(e) if !e.contains("key comparisons (bound") => {
            hit("case ended early by a failure outside this property");
            Ok(CaseInfo::default())
        }
        r => r,
    }
}
