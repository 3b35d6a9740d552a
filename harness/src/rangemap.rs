//! A run-length range map built from the public operations, against an array (kept as runs).
use crate::case::Case;
use crate::elem::{reset_ticks, tick};
use crate::stats::{begin_case, hit, CaseInfo, CUR_OP};
use generic_btree::iter::Drain;
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTree, BTreeTrait, Child, LengthFinder, UseLengthFinder};
use std::ops::Range;

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
pub const NKINDS: usize = 9;
pub const KIND_NAMES: [&str; NKINDS] = [
    "assign", "add", "assign-single", "drain", "push", "assign-past-end", "drain-prefix-of-result", "erase", "assign-many-small",
];
pub fn kinds() -> Vec<(u8, u32)> {
    vec![(0, 10), (1, 6), (2, 8), (3, 5), (4, 3), (5, 3), (6, 2), (7, 2), (8, 4)]
}

type V = Option<i64>;

#[derive(Debug, Clone)]
struct Run {
    v: V,
    len: usize,
}
impl HasLength for Run {
    fn rle_len(&self) -> usize {
        tick();
        self.len
    }
}
impl Mergeable for Run {
    fn can_merge(&self, rhs: &Self) -> bool {
        self.v == rhs.v
    }
    fn merge_right(&mut self, rhs: &Self) {
        self.len += rhs.len
    }
    fn merge_left(&mut self, l: &Self) {
        self.len += l.len
    }
}
impl Sliceable for Run {
    fn _slice(&self, r: Range<usize>) -> Self {
        assert!(r.start <= r.end && r.end <= self.len, "slice {:?} of a run of length {}", r, self.len);
        Run { v: self.v, len: r.end - r.start }
    }
}
impl TryInsert for Run {
    fn try_insert(&mut self, pos: usize, e: Self) -> Result<(), Self> {
        assert!(pos <= self.len);
        if e.v == self.v {
            self.len += e.len;
            Ok(())
        } else {
            Err(e)
        }
    }
}
impl CanRemove for Run {
    fn can_remove(&self) -> bool {
        self.len == 0
    }
}

macro_rules! map_trait {
    ($t:ident, $d:expr) => {
        #[derive(Debug)]
        struct $t;
        impl BTreeTrait for $t {
            type Elem = Run;
            type Cache = usize;
            type CacheDiff = isize;
            const USE_DIFF: bool = $d;
            fn calc_cache_internal(c: &mut usize, ch: &[Child<Self>]) -> isize {
                let new: usize = ch.iter().map(|c| c.cache).sum();
                let d = new as isize - *c as isize;
                *c = new;
                d
            }
            fn apply_cache_diff(c: &mut usize, d: &isize) {
                *c = (*c as isize + d) as usize
            }
            fn merge_cache_diff(a: &mut isize, b: &isize) {
                *a += b
            }
            fn get_elem_cache(e: &Run) -> usize {
                e.len
            }
            fn new_cache_to_diff(c: &usize) -> isize {
                *c as isize
            }
            fn sub_cache(l: &usize, r: &usize) -> isize {
                *l as isize - *r as isize
            }
        }
        impl UseLengthFinder<$t> for $t {
            fn get_len(c: &usize) -> usize {
                *c
            }
        }
    };
}
map_trait!(Diffed, true);
map_trait!(Recomputed, false);

/// the array, as maximal runs
#[derive(Default)]
struct Arr(Vec<(V, usize)>);
impl Arr {
    fn len(&self) -> usize {
        self.0.iter().map(|x| x.1).sum()
    }
    fn cut(&self, r: Range<usize>) -> Vec<(V, usize)> {
        let mut at = 0;
        let mut out = vec![];
        for x in &self.0 {
            let (s, e) = (r.start.max(at), r.end.min(at + x.1));
            if s < e {
                out.push((x.0, e - s));
            }
            at += x.1;
        }
        out
    }
    fn replace(&mut self, r: Range<usize>, mid: Vec<(V, usize)>) {
        let n = self.len();
        let mut v = self.cut(0..r.start);
        v.extend(mid);
        v.extend(self.cut(r.end..n));
        self.0 = norm(v);
    }
}
fn norm(v: Vec<(V, usize)>) -> Vec<(V, usize)> {
    let mut o: Vec<(V, usize)> = Vec::with_capacity(v.len());
    for x in v {
        if x.1 == 0 {
            continue;
        }
        match o.last_mut() {
            Some(l) if l.0 == x.0 => l.1 += x.1,
            _ => o.push(x),
        }
    }
    o
}

fn run_tree<B>(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String>
where
    B: BTreeTrait<Elem = Run, Cache = usize, CacheDiff = isize> + UseLengthFinder<B> + 'static,
{
    let c = &case.cfg;
    let mut t: BTree<B> = BTree::new();
    let mut m = Arr::default();
    let unit: usize = [1, 1, 3, 1000, 1_000_003, 1 << 40][c[1] as usize % 6];
    // one case in 16 starts from a map of many runs
    let pre = if c[5] % 16 == 3 { [100usize, 400, 1200, 300, 150, 600, 2000 + (c[5] as usize >> 8) * 24, 900][(c[5] / 16) as usize % 8] } else { 0 };
    let span0 = [20usize, 200, 2000, if big { 60_000 } else { 12_000 }][c[2] as usize % 4].max(pre);
    let vals = [2i64, 3, 8, 1000][c[3] as usize % 4];
    let mut caret = 0usize;
    let mut log: Vec<String> = vec![];
    let mut steps = 0usize;
    let (mut writes, mut peak, mut drains) = (0, 0usize, 0);
    let mut ctr = c[4] as u64 + 1;
    let mut rnd = || {
        ctr = ctr.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (ctr >> 33) as usize
    };
    let r = (|| -> Result<(), String> {
        if pre > 0 {
            if trace {
                log.push(format!("start with {} runs of {}", pre, unit));
            }
            let mut v: Vec<(V, usize)> = (0..pre).map(|i| (Some(i as i64 % 2 * (1 + rnd() as i64 % vals)), unit)).collect();
            match c[4] % 3 {
                0 => t = v.iter().map(|x| Run { v: x.0, len: x.1 }).collect(),
                1 => {
                    for x in &v {
                        t.push(Run { v: x.0, len: x.1 });
                    }
                }
                _ => {
                    for x in &v {
                        t.prepend(Run { v: x.0, len: x.1 });
                    }
                    v.reverse();
                }
            }
            m.0 = norm(v);
            hit("case started from many runs");
        }
        for op in &case.ops {
            let k = op.k as usize % NKINDS;
            CUR_OP.with(|x| x.set(k as i32));
            for j in 0..op.rep.max(1) as usize {
                let n = m.len();
                let limit = span0 * unit;
                let jit = [0usize, 0, 1, 2][(op.d >> 9) as usize % 4];
                let start = match op.a & 7 {
                    0..=2 => caret + j * [0, 1, 2][(op.d >> 11) as usize % 3] * unit,
                    3 => 0,
                    4 => n.saturating_sub((op.a >> 3) as usize % 4 * unit),
                    _ => ((op.a >> 3) as usize + j * 13) % span0 * unit + jit,
                }
                .min(limit);
                let len = match op.b & 7 {
                    0 => 1,
                    1 => unit,
                    2 | 3 => (op.b >> 3) as usize % 6 * unit + jit,
                    4 => (op.b >> 3) as usize % 60 * unit,
                    5 => (op.b >> 3) as usize % (span0 / 2) * unit,
                    6 => 0,
                    _ => n.saturating_sub(start),
                };
                let val: V = if k == 7 { None } else { Some((op.c as i64 + j as i64) % vals) };
                reset_ticks();
                let assign = |t: &mut BTree<B>, m: &mut Arr, s: usize, e: usize, val: V, add: Option<i64>| -> Result<(), String> {
                    if t.root_cache() < &e {
                        let gap = e - *t.root_cache();
                        t.push(Run { v: None, len: gap });
                        let n = m.len();
                        m.replace(n..n, vec![(None, gap)]);
                    }
                    if s < e {
                        let Some(r) = t.range::<LengthFinder>(s..e) else { fail!("no cursors for {}..{} of {}", s, e, m.len()) };
                        t.update(r.start.cursor..r.end.cursor, &mut |x| {
                            match add {
                                Some(a) => x.v = x.v.map(|v| v.wrapping_add(a)),
                                None => x.v = val,
                            }
                            None
                        });
                        let mid = match add {
                            Some(a) => m.cut(s..e).into_iter().map(|(v, l)| (v.map(|v| v.wrapping_add(a)), l)).collect(),
                            None => vec![(val, e - s)],
                        };
                        m.replace(s..e, mid);
                    }
                    Ok(())
                };
                match k {
                    0 | 7 => {
                        let (s, e) = (start.min(n), (start + len).min(n.max(unit * 4)));
                        let e = e.max(s);
                        if trace {
                            log.push(format!("assign {:?} to {}..{}", val, s, e));
                        }
                        assign(&mut t, &mut m, s, e, val, None)?;
                        writes += 1;
                        caret = if op.d & 1 == 0 { s } else { e };
                    }
                    1 => {
                        let s = start.min(n);
                        let e = (s + len).min(n);
                        if trace {
                            log.push(format!("add {} to {}..{}", op.c % 5, s, e));
                        }
                        assign(&mut t, &mut m, s, e, None, Some((op.c % 5) as i64))?;
                        writes += 1;
                        caret = s;
                    }
                    2 => {
                        if n == 0 {
                            break;
                        }
                        let s = start.min(n - 1);
                        if trace {
                            log.push(format!("assign {:?} to the single index {}", val, s));
                        }
                        assign(&mut t, &mut m, s, s + 1, val, None)?;
                        writes += 1;
                        caret = s + 2;
                    }
                    8 => {
                        // many separate small runs
                        let cnt = 1 + op.c as usize % 40;
                        for i in 0..cnt {
                            let s = start + i * (unit * 2).max(2);
                            if s + 1 > limit + unit * 80 {
                                break;
                            }
                            let v = Some((rnd() as i64) % vals);
                            if trace {
                                log.push(format!("assign {:?} to the single index {}", v, s));
                            }
                            assign(&mut t, &mut m, s, s + 1, v, None)?;
                        }
                        writes += 1;
                    }
                    5 => {
                        if n > limit {
                            break;
                        }
                        let s = n + if op.d & 1 == 0 { 0 } else { unit };
                        if trace {
                            log.push(format!("assign {:?} past the end to {}..{}", val, s, s + len.max(1)));
                        }
                        assign(&mut t, &mut m, s, s + len.max(1), val, None)?;
                        writes += 1;
                    }
                    4 => {
                        if n > limit {
                            break;
                        }
                        let l = (1 + len % 5) * unit;
                        if trace {
                            log.push(format!("push {} of {:?}", l, val));
                        }
                        t.push(Run { v: val, len: l });
                        m.replace(n..n, vec![(val, l)]);
                    }
                    _ => {
                        let s = start.min(n);
                        let e = (s + len).min(n);
                        let take = if k == 3 { usize::MAX } else { op.c as usize % 5 };
                        if trace {
                            log.push(format!("drain {}..{}, reading {} pieces", s, e, take));
                        }
                        let want = norm(m.cut(s..e));
                        let mut got = vec![];
                        let mut cnt = 0;
                        {
                            let mut d = if op.d & 1 == 0 {
                                let from = t.query::<LengthFinder>(&s);
                                let to = t.query::<LengthFinder>(&e);
                                Drain::new(&mut t, from, to)
                            } else {
                                t.drain_by_query::<LengthFinder>(s..e)
                            };
                            while cnt < take {
                                let Some(x) = d.next() else { break };
                                got.push((x.v, x.len));
                                cnt += 1;
                                if cnt > 1_000_000 {
                                    std::mem::forget(d);
                                    fail!("the drain does not end");
                                }
                            }
                        }
                        let g = norm(got);
                        let total: usize = g.iter().map(|x| x.1).sum();
                        let ok = if take == usize::MAX { g == want } else { g == norm(m.cut(s..(s + total).min(e))) && total <= e - s };
                        if !ok {
                            fail!("draining {}..{} gave {:?} instead of {:?}", s, e, g, want);
                        }
                        m.replace(s..e, vec![]);
                        if e > s {
                            drains += 1;
                        }
                        caret = s;
                    }
                }
                steps += 1;
                // compare
                let n = m.len();
                if *t.root_cache() != n {
                    fail!("the length is {} instead of {}", t.root_cache(), n);
                }
                peak = peak.max(m.0.len());
                if m.0.len() < 60 || steps % 4 == 0 {
                    let got = norm(t.iter().map(|x| (x.v, x.len)).collect());
                    if got != m.0 {
                        let i = got.iter().zip(&m.0).position(|(a, b)| a != b).unwrap_or(got.len().min(m.0.len()));
                        fail!("run #{} is {:?} instead of {:?}", i, got.get(i), m.0.get(i));
                    }
                }
                // point reads: at the edges of the last write and spread over the map
                let mut is: Vec<usize> = [start, start.wrapping_sub(1), start + len, (start + len).wrapping_sub(1)].into_iter().filter(|x| *x < n).collect();
                let step = (m.0.len() / 8).max(1);
                let mut at = 0;
                for (i, x) in m.0.iter().enumerate() {
                    if (i + steps) % step == 0 {
                        is.push(at);
                        is.push(at + x.1 - 1);
                    }
                    at += x.1;
                }
                is.sort();
                let mut at = 0;
                let mut seg = 0;
                for i in is {
                    while at + m.0[seg].1 <= i {
                        at += m.0[seg].1;
                        seg += 1;
                    }
                    let q = t.query::<LengthFinder>(&i);
                    let got = q.filter(|q| q.found).and_then(|q| q.elem(&t)).map(|x| x.v);
                    if got != Some(m.0[seg].0) {
                        fail!("index {} of {} reads {:?} instead of {:?}", i, n, got, m.0[seg].0);
                    }
                }
                if t.query::<LengthFinder>(&n).is_some_and(|q| q.found) {
                    fail!("index {} is found although the length is {}", n, n);
                }
                if steps % 8 == 0 {
                    t.check();
                }
            }
            hit(KIND_NAMES[k]);
        }
        t.check();
        Ok(())
    })();
    *out = log;
    r?;
    hit(match peak {
        0..=12 => "case peak <=12 runs",
        13..=72 => "case peak 13..72 runs",
        73..=400 => "case peak 73..400 runs",
        _ => "case peak >400 runs",
    });
    Ok(CaseInfo { nontrivial: peak > 12 && writes >= 3 && drains >= 1, trace: vec![] })
}

pub fn run(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    begin_case(true);
    if case.cfg[0] % 3 < 2 {
        run_tree::<Diffed>(case, trace, big, out)
    } else {
        run_tree::<Recomputed>(case, trace, big, out)
    }
}
