//! The tree machine: executes generated histories against `BTree` and judges every operation
//! against the content actually observed before it (a per-operation specification), and every
//! state against the content actually observed in it (state oracles).
use crate::case::{Case, Op};
use crate::elem::*;
use crate::stats::{begin_case, hit, CaseInfo, CUR_OP, FOCUS_SEEN, STATS};
use generic_btree::rle::Sliceable;
use generic_btree::{ArenaIndex, BTree, Cursor, LeafIndex, LengthFinder, PreviousCache, QueryResult};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = HashSet<K, BuildHasherDefault<Fx>>;

// ---------------------------------------------------------------- operation kinds

pub const PUSH: u8 = 0;
pub const PREPEND: u8 = 1;
pub const INSERT: u8 = 2;
pub const INSERT_Q: u8 = 3;
pub const BATCH: u8 = 4;
pub const REMOVE: u8 = 5;
pub const DRAIN: u8 = 6;
pub const DRAIN_Q: u8 = 7;
pub const UPDATE: u8 = 8;
pub const UPLEAF: u8 = 9;
pub const UPSEARCH: u8 = 10;
pub const UPRANGES: u8 = 11;
pub const MARK: u8 = 12;
pub const RECACHE: u8 = 13;
pub const FILTERUP: u8 = 14;
pub const CLONE: u8 = 15;
pub const SWAP: u8 = 16;
pub const CLEAR: u8 = 17;
pub const REMOVE_DEAD: u8 = 18;
pub const COLLECT: u8 = 19;
/// drains or removes everything but a few scattered elements (a series of operations)
pub const SPARSE: u8 = 20;
pub const NKINDS: usize = 21;
pub const KIND_NAMES: [&str; NKINDS] = [
    "push", "prepend", "insert", "insert-at-query", "batch", "remove", "drain", "drain-by-query",
    "update", "update-leaf", "update-by-search", "update-ranges", "elem-mut", "elem-mut+recache",
    "filtered-update", "clone", "swap-with-clone", "clear", "remove-dead", "collect", "sparsify",
];

// ---------------------------------------------------------------- oracles

pub const O_CONTENT: u32 = 1;
pub const O_CACHE: u32 = 2;
pub const O_STRUCT: u32 = 4;
pub const O_DEPTH: u32 = 8;
pub const O_QUERY: u32 = 16;
pub const O_NAV: u32 = 32;
pub const O_PREFIX: u32 = 64;
pub const O_ITER: u32 = 128;
pub const O_FILTER: u32 = 256;
pub const O_HANDLES: u32 = 512;
pub const O_CLONES: u32 = 1024;
pub const O_MERGE: u32 = 2048;
pub const O_COST: u32 = 4096;
pub const O_CUTS: u32 = 8192;
pub const O_SPAN: u32 = 16384;
pub const O_VALID: u32 = O_CACHE | O_STRUCT;

pub struct MachineSpec {
    pub oracles: u32,
    /// operation kinds the property is about; empty = every state counts
    pub focus: &'static [u8],
}

thread_local! {
    /// what every operation of a history came to: shape and content, the same with handles
    static DIGESTS: std::cell::RefCell<Option<Vec<(u8, u64, u64)>>> = const { std::cell::RefCell::new(None) };
    /// go on with a clone of the tree before every operation
    static RECLONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

#[derive(Clone)]
pub struct Node<C> {
    pub arena: Option<ArenaIndex>,
    pub depth: usize,
    pub kids: Vec<(ArenaIndex, C)>,
    /// first leaf below and number of leaves below
    pub lo: usize,
    pub hi: usize,
    /// child nodes (walk indices), empty for leaf parents
    pub sub: Vec<usize>,
}

/// The tree as seen by root-to-leaf searches.
#[derive(Clone)]
pub struct Snap<C> {
    pub nodes: Vec<Node<C>>,
    pub leaves: Vec<LeafIndex>,
    /// index of the leaf's parent in `nodes`, slot in it
    pub parent: Vec<(u32, u8)>,
    pub starts: Vec<usize>,
    pub ustarts: Vec<usize>,
    pub toks: Vec<Tok>,
    pub idx: FxMap<LeafIndex, usize>,
    pub bad_depth: bool,
    pub bad_mix: bool,
    /// levels of inner nodes (0 for the empty tree)
    pub levels: usize,
}
impl<C> Snap<C> {
    pub fn n(&self) -> usize {
        self.leaves.len()
    }
    pub fn leaf_toks(&self, i: usize) -> &[Tok] {
        &self.toks[self.starts[i]..self.starts[i + 1]]
    }
    pub fn ulen(&self, i: usize) -> usize {
        self.ustarts[i + 1] - self.ustarts[i]
    }
    pub fn units(&self) -> usize {
        *self.ustarts.last().unwrap()
    }
    /// number of tokens before a cursor
    pub fn boundary(&self, c: Cursor) -> Option<usize> {
        let i = *self.idx.get(&c.leaf)?;
        if c.offset > self.ulen(i) {
            return None;
        }
        Some(self.starts[i] + c.offset)
    }
}

pub fn walk<B: Variant>(tree: &BTree<B>) -> Result<Snap<B::Cache>, String>
where
    B::Cache: Copy + PartialEq + std::fmt::Debug,
{
    let mut s = Snap {
        nodes: vec![],
        leaves: vec![],
        parent: vec![],
        starts: vec![0],
        ustarts: vec![0],
        toks: vec![],
        idx: FxMap::default(),
        bad_depth: false,
        bad_mix: false,
        levels: 0,
    };
    let mut path: Vec<u8> = vec![];
    let mut leaf_depth = None;
    visit::<B>(tree, &mut path, None, &mut s, &mut leaf_depth)?;
    s.levels = leaf_depth.unwrap_or(0);
    s.idx.reserve(s.leaves.len());
    for (i, l) in s.leaves.iter().enumerate() {
        if s.idx.insert(*l, i).is_some() {
            return Err("the same element is reachable twice".into());
        }
    }
    Ok(s)
}

fn visit<B: Variant>(
    tree: &BTree<B>,
    path: &mut Vec<u8>,
    arena: Option<ArenaIndex>,
    s: &mut Snap<B::Cache>,
    leaf_depth: &mut Option<usize>,
) -> Result<usize, String>
where
    B::Cache: Copy + PartialEq + std::fmt::Debug,
{
    let (r, q) = tree.query_with_finder_return::<WalkQ<B>>(path);
    let me = s.nodes.len();
    if s.nodes.len() > 2_000_000 {
        return Err("the tree has more reachable nodes than were ever created".into());
    }
    s.nodes.push(Node { arena, depth: path.len(), kids: q.kids, lo: s.leaves.len(), hi: 0, sub: vec![] });
    if r.is_none() {
        if !path.is_empty() {
            return Err("a search ended without result inside a non-empty tree".into());
        }
        return Ok(me);
    }
    let n = s.nodes[me].kids.len();
    let mut kinds = 0;
    for i in 0..n {
        let (a, _) = s.nodes[me].kids[i];
        match a {
            ArenaIndex::Internal(_) => {
                kinds |= 1;
                path.push(i as u8);
                let sub = visit::<B>(tree, path, Some(a), s, leaf_depth)?;
                s.nodes[me].sub.push(sub);
                path.pop();
            }
            ArenaIndex::Leaf(l) => {
                kinds |= 2;
                let d = path.len() + 1;
                match leaf_depth {
                    None => *leaf_depth = Some(d),
                    Some(x) if *x != d => s.bad_depth = true,
                    _ => {}
                }
                let li: LeafIndex = l.into();
                let Some(e) = tree.get_elem(li) else {
                    return Err(format!("a search reaches the element handle {:?}, which denotes nothing", li));
                };
                s.leaves.push(li);
                s.parent.push((me as u32, i as u8));
                s.toks.extend_from_slice(&e.toks);
                s.starts.push(s.toks.len());
                let u = s.ustarts.last().unwrap() + e.ulen();
                s.ustarts.push(u);
            }
        }
    }
    if kinds == 3 {
        s.bad_mix = true;
    }
    s.nodes[me].hi = s.leaves.len();
    Ok(me)
}

#[derive(Default)]
struct Effect {
    /// exact tokens expected afterwards
    expect: Option<Vec<Tok>>,
    /// element boundaries expected afterwards (only where the operation fixes them)
    expect_starts: Option<Vec<usize>>,
    /// handles the operation reported
    reported: Vec<LeafIndex>,
    /// does the operation promise to report every element it creates?
    reports_all: bool,
    /// handles mean something else now (new tree)
    fresh_tree: bool,
    /// returned cursor and the boundary it must denote afterwards
    cursor: Option<(Cursor, usize)>,
    /// exact number of elements expected afterwards
    leaves: Option<usize>,
    /// ids of the batch that was inserted (merge oracle)
    batch: Option<(u32, u32)>,
    /// token positions (in the content found) at which the operation may cut elements
    cuts: Vec<std::ops::RangeInclusive<usize>>,
    /// a point operation: work must be logarithmic
    point: bool,
    /// a range operation or batch: how many elements it is about; work must be proportional
    span: Option<usize>,
    /// the operation really did something to a non-empty part
    effective: bool,
    /// skipped, not applicable in this state
    skipped: bool,
}

pub struct M<'s, B: Variant>
where
    B::Cache: Copy + PartialEq + std::fmt::Debug,
{
    spec: &'s MachineSpec,
    tree: BTree<B>,
    snap: Snap<B::Cache>,
    clones: Vec<(BTree<B>, Snap<B::Cache>, FxSet<LeafIndex>)>,
    dead: FxSet<LeafIndex>,
    dead_list: VecDeque<LeafIndex>,
    map: FxMap<u32, LeafIndex>,
    cfg: Cfg,
    prof: u16,
    tags: u16,
    next_id: u32,
    region: usize,
    max_leaves: usize,
    /// refill a tree that has become small to this size (0: never)
    refill: usize,
    opno: usize,
    pub trace: Option<Vec<String>>,
    eff: Effect,
    focus_done: u64,
    max_levels: usize,
    peak: usize,
}

/// the entry of a multi-range update that makes its range grow
const GROW: u8 = 99;

fn mix(x: u32) -> u32 {
    let mut x = x.wrapping_mul(0x9E37_79B1);
    x ^= x >> 15;
    x = x.wrapping_mul(0x85EB_CA77);
    x ^ (x >> 13)
}

fn samples(n: usize, k: usize, salt: usize) -> Vec<usize> {
    if n <= k {
        return (0..n).collect();
    }
    let step = n / k;
    let off = salt % step;
    let mut v: Vec<usize> = (0..k).map(|i| i * n / k + off.min(n - 1 - i * n / k)).collect();
    v.push(0);
    v.push(n - 1);
    v
}

pub fn decode_n(x: u16, big: bool) -> usize {
    let y = (x >> 4) as usize;
    match x & 15 {
        0..=2 => y % 4,
        3..=6 => y % 30,
        7..=11 => y % 160,
        12 | 13 => [11, 12, 13, 23, 24, 66, 67, 72, 73, 100, 101, 120, 121, 132, 133, 144, 145][y % 17],
        14 => 100 + y % 500,
        _ => {
            if y % (if big { 16 } else { 64 }) == 5 {
                2000 + (y >> 6) * (if big { 200 } else { 110 })
            } else if big {
                600 + y % 1900
            } else if y % 8 == 3 {
                800 + y % 1200
            } else {
                200 + y % 400
            }
        }
    }
}

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

impl<'s, B: Variant> M<'s, B>
where
    B::Cache: Copy + PartialEq + std::fmt::Debug,
{
    fn new(spec: &'s MachineSpec, case: &Case, trace: bool) -> Self {
        let c = &case.cfg;
        let merge = match c[1] % 8 {
            0 | 1 => Merge::Never,
            2..=4 => Merge::Contig,
            5 | 6 => Merge::SameTag,
            _ => Merge::Size,
        };
        let cap = [4, 1000, 2, 3, 6, 16, 1000, 9][(c[1] >> 3) as usize % 8];
        let ti = [0, 0, 0, 3, 8, 0, 30, 0][(c[1] >> 6) as usize % 8];
        let tree = if c[4] & 1 == 0 { BTree::new() } else { BTree::default() };
        M {
            spec,
            snap: walk::<B>(&tree).unwrap(),
            tree,
            clones: vec![],
            dead: Default::default(),
            dead_list: Default::default(),
            map: Default::default(),
            cfg: Cfg { merge, cap, ti },
            prof: c[2],
            tags: [1, 2, 4, 2][(c[2] >> 8) as usize % 4],
            next_id: 0,
            region: 0,
            max_leaves: 800,
            refill: 0,
            opno: 0,
            trace: if trace { Some(vec![]) } else { None },
            eff: Effect::default(),
            focus_done: 0,
            max_levels: 0,
            peak: 0,
        }
    }

    fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f());
        }
    }

    // ------------------------------------------------------------ generation helpers

    fn data(&mut self, c: u16, d: u16) -> El {
        let style = self.prof & 7;
        let len = match style {
            0 | 1 => 1,
            2 => 1 + c % 3,
            3 | 4 => 1 + c % 8,
            5 => {
                if c % 4 == 0 {
                    0
                } else {
                    1 + (c >> 2) % 4
                }
            }
            6 => 1 + c % 20,
            _ => c % 5,
        } as usize;
        let anchor = (style == 5 || style == 7) && len == 0;
        // gaps between ids keep contiguous merging from always applying
        if d & 3 == 0 {
            self.next_id += 1;
        }
        let tag = ((d >> 2) % self.tags) as u8;
        let mut toks = vec![];
        for _ in 0..len.max(if anchor { 1 } else { 0 }) {
            toks.push(Tok { id: self.next_id, tag, mark: 0, anchor });
            self.next_id += 1;
        }
        if !anchor && toks.is_empty() {
            // removable empty elements are never given to the tree as new content
            toks.push(Tok { id: self.next_id, tag, mark: 0, anchor: false });
            self.next_id += 1;
        }
        El { toks, cfg: self.cfg }
    }

    fn leaf_sel(&self, a: u16) -> usize {
        let n = self.snap.n();
        let y = (a >> 3) as usize;
        match a & 7 {
            0..=2 => y % n,
            3..=5 => (self.region + y % 7).saturating_sub(3).min(n - 1),
            6 => (y % 2).min(n - 1),
            _ => n - 1 - (y % 2).min(n - 1),
        }
    }
    fn off_sel(&self, i: usize, b: u16) -> usize {
        let l = self.snap.ulen(i);
        match b & 3 {
            0 => 0,
            1 => l,
            2 => l / 2,
            _ => (b >> 2) as usize % (l + 1),
        }
    }
    fn cursor(&mut self, a: u16, b: u16) -> (usize, usize, Cursor) {
        let i = self.leaf_sel(a);
        let o = self.off_sel(i, b);
        (i, o, Cursor { leaf: self.snap.leaves[i], offset: o })
    }
    /// ordered pair of cursors
    fn cursor_pair(&mut self, a: u16, b: u16, c: u16, d: u16) -> ((usize, usize, Cursor), (usize, usize, Cursor)) {
        let n = self.snap.n();
        let x = self.cursor(a, b);
        let y = (c >> 3) as usize;
        let j = match (c & 7) + 8 * (a >> 15) {
            0 | 8 => x.0,
            1 | 2 | 9 => (x.0 + y % 4).min(n - 1),
            3 | 10 => (x.0 + y % 16).min(n - 1),
            4 | 11 | 12 => (x.0 + y % 60).min(n - 1),
            5 => (x.0 + y % (n / 2 + 1)).min(n - 1),
            6 => n - 1,
            7 => 0,
            13 => y % n,
            // whole subtrees: everything around one or several inner nodes
            _ => (x.0 + 6 * (1 + y % 30)).min(n - 1),
        };
        let o = self.off_sel(j, d);
        let y = (j, o, Cursor { leaf: self.snap.leaves[j], offset: o });
        if (x.0, x.1) <= (y.0, y.1) {
            (x, y)
        } else {
            (y, x)
        }
    }
    fn upos(&self, a: u16, b: u16) -> usize {
        let n = self.snap.n();
        if n == 0 {
            return 0;
        }
        let i = self.leaf_sel(a);
        self.snap.ustarts[i] + self.off_sel(i, b)
    }

    fn splice(&self, at: usize, del: usize, ins: &[Tok]) -> Vec<Tok> {
        let mut v = Vec::with_capacity(self.snap.toks.len() + ins.len());
        v.extend_from_slice(&self.snap.toks[..at]);
        v.extend_from_slice(ins);
        v.extend_from_slice(&self.snap.toks[at + del..]);
        v
    }
    fn el(&self, i: usize) -> El {
        El { toks: self.snap.leaf_toks(i).to_vec(), cfg: self.cfg }
    }

    // ------------------------------------------------------------ building

    fn build(&mut self, case: &Case, big: bool) -> Result<(), String> {
        let c = case.cfg;
        let mut n = decode_n(c[3], big);
        if self.spec.oracles & O_SPAN != 0 && (c[6] >> 4) % 12 == 5 {
            // costs that grow with the tree show on large ones
            n = 1000 + c[3] as usize % 3500;
        }
        if n > 800 {
            self.max_leaves = n * 2;
        }
        if c[6] % 4 != 0 {
            self.refill = n.min(400);
        }
        if c[4] % 7 == 0 || n == 0 {
            return Ok(());
        }
        let els: Vec<El> = (0..n).map(|i| {
            let m = mix(i as u32 ^ ((c[5] as u32) << 12));
            self.data(m as u16, (m >> 16) as u16)
        }).collect();
        let expect: Vec<Tok> = els.iter().flat_map(|e| e.toks.iter().copied()).collect();
        self.log(|| format!("build {} elements, kind {}", n, c[4] % 7));
        self.eff = Effect { fresh_tree: true, ..Default::default() };
        match c[4] % 7 {
            1 | 2 => {
                self.eff.expect = Some(expect);
                let mut v = vec![0];
                let mut s = 0;
                for e in &els {
                    s += e.toks.len();
                    v.push(s);
                }
                self.eff.expect_starts = Some(v);
                reset_ticks();
                self.eff.span = Some(n);
                self.tree = if c[4] % 7 == 1 { els.into_iter().collect() } else { els.into_iter().filter(|_| true).collect() };
                self.done(COLLECT)
            }
            3 | 4 => {
                for e in els {
                    reset_ticks();
                    self.tree.push(e);
                }
                self.eff.expect = Some(expect);
                self.done(PUSH)
            }
            5 => {
                for e in els.into_iter().rev() {
                    reset_ticks();
                    self.tree.prepend(e);
                }
                self.eff.expect = Some(expect);
                self.done(PREPEND)
            }
            _ => {
                reset_ticks();
                let lo = els[0].toks[0].id;
                self.eff.span = Some(n);
                self.eff.batch = Some((lo, self.next_id));
                self.tree.insert_many_by_cursor(None, els.into_iter());
                self.eff.expect = Some(expect);
                self.done(BATCH)
            }
        }
    }

    // ------------------------------------------------------------ one operation

    fn exec(&mut self, op: &Op, r: usize) -> Result<(), String> {
        let (a, b, c, d) = (op.a, op.b, op.c.wrapping_add((r as u16).wrapping_mul(7)), op.d.wrapping_add((r as u16).wrapping_mul(5)));
        let n = self.snap.n();
        let mut k = op.k;
        self.eff = Effect::default();
        if RECLONE.with(|r| r.get()) {
            self.tree = self.tree.clone();
        }
        if n == 0 {
            // operations on an element need one; the others are specified on the empty tree too
            match k {
                INSERT | UPLEAF | UPSEARCH | RECACHE | MARK => k = PUSH,
                REMOVE | UPDATE => k = REMOVE_DEAD,
                DRAIN => k = DRAIN_Q,
                _ => {}
            }
        }
        if n > self.max_leaves && matches!(k, BATCH | INSERT | PUSH | PREPEND) {
            k = DRAIN;
        }
        let refill = n < self.refill / 6 && r == 0 && op.d & 3 != 0;
        if refill {
            k = BATCH;
        }
        CUR_OP.with(|x| x.set(k as i32));
        reset_ticks();
        match k {
            PUSH => {
                let e = self.data(c, d);
                let toks = e.toks.clone();
                self.log(|| format!("push {:?}", toks));
                if n > 0 {
                    let last = self.el(n - 1);
                    self.eff.leaves = Some(if last.would_merge(&e) { n } else { n + 1 });
                }
                self.eff.expect = Some(self.splice(self.snap.toks.len(), 0, &toks));
                let cur = self.tree.push(e);
                self.eff.cursor = Some((cur, self.snap.toks.len()));
                self.eff.reported.push(cur.leaf);
                self.eff.reports_all = true;
                self.eff.point = true;
                self.eff.effective = n > 0;
                self.region = n;
            }
            PREPEND => {
                let e = self.data(c, d);
                let toks = e.toks.clone();
                self.log(|| format!("prepend {:?}", toks));
                if n > 0 {
                    self.eff.leaves = Some(if e.would_merge(&self.el(0)) { n } else { n + 1 });
                }
                self.eff.expect = Some(self.splice(0, 0, &toks));
                let cur = self.tree.prepend(e);
                self.eff.cursor = Some((cur, 0));
                self.eff.reported.push(cur.leaf);
                self.eff.reports_all = true;
                self.eff.point = true;
                self.eff.effective = n > 0;
                self.region = 0;
            }
            INSERT | INSERT_Q => {
                let e = self.data(c, d);
                let toks = e.toks.clone();
                let (cur, sp, at);
                if k == INSERT {
                    let (i, o, cu) = self.cursor(a, b);
                    at = self.snap.starts[i] + o;
                    self.log(|| format!("insert {:?} at element #{} offset {}", toks, i, o));
                    let target = self.el(i);
                    if (o == 0 && e.would_merge(&target)) || (o == target.ulen() && target.would_merge(&e)) || target.would_absorb(&e) {
                        self.eff.leaves = Some(n);
                    }
                    (cur, sp) = self.tree.insert_by_path(cu, e);
                    self.region = i;
                } else {
                    let p = self.upos(a, b);
                    self.log(|| format!("insert {:?} at queried position {}", toks, p));
                    match self.tree.query::<LengthFinder>(&p) {
                        None => {
                            if n != 0 {
                                fail!("a position query on a non-empty tree gave no result");
                            }
                            at = 0
                        }
                        Some(q) => {
                            let Some(x) = self.snap.boundary(q.cursor) else {
                                fail!("query({}) gave an invalid cursor {:?}", p, q);
                            };
                            let u = self.snap.toks[..x].iter().filter(|t| !t.anchor).count();
                            if u != p {
                                fail!("query({}) gave a cursor at unit position {}", p, u);
                            }
                            at = x;
                            self.region = self.snap.idx[&q.cursor.leaf];
                        }
                    }
                    reset_ticks();
                    (cur, sp) = self.tree.insert::<LengthFinder>(&p, e);
                }
                self.eff.cuts.push(at..=at);
                self.eff.expect = Some(self.splice(at, 0, &toks));
                self.eff.cursor = Some((cur, at));
                self.eff.reported.push(cur.leaf);
                self.eff.reported.extend(sp.arr.iter().copied());
                self.eff.reports_all = true;
                self.eff.point = true;
                self.eff.effective = n > 0;
            }
            BATCH => {
                let cnt = match a >> 13 {
                    _ if refill => self.refill - n,
                    0..=2 => (c % 6) as usize,
                    3 | 4 => (c % 20) as usize,
                    5 if n >= 40 => (c % 50) as usize,
                    6 if n >= 40 => 2,
                    _ => (c % 150) as usize,
                };
                let lo = self.next_id;
                let els: Vec<El> = (0..cnt).map(|i| {
                    let m = mix(i as u32 ^ ((d as u32) << 10) ^ c as u32);
                    self.data(m as u16, (m >> 16) as u16)
                }).collect();
                let toks: Vec<Tok> = els.iter().flat_map(|e| e.toks.iter().copied()).collect();
                let els_dbg = format!("{:?}", if self.trace.is_some() { &els[..] } else { &[] });
                if n == 0 {
                    self.log(|| format!("batch of {} into the empty tree: {}", cnt, els_dbg));
                    self.eff.expect = Some(toks);
                    self.tree.insert_many_by_cursor(None, els.into_iter());
                } else {
                    let (i, o, cu) = self.cursor(a, b);
                    self.log(|| format!("batch of {} at element #{} offset {}: {}", cnt, i, o, els_dbg));
                    self.eff.cuts.push(self.snap.starts[i] + o..=self.snap.starts[i] + o);
                    self.eff.expect = Some(self.splice(self.snap.starts[i] + o, 0, &toks));
                    self.tree.insert_many_by_cursor(Some(cu), els.into_iter());
                    self.region = i;
                }
                if cnt >= 2 {
                    self.eff.batch = Some((lo, self.next_id));
                }
                self.eff.span = Some(cnt);
                self.eff.effective = cnt >= 2;
            }
            REMOVE => {
                let (i, o, cu) = self.cursor(a, b);
                self.log(|| format!("remove element #{} (offset {})", i, o));
                let want = self.el(i);
                self.eff.expect = Some(self.splice(self.snap.starts[i], want.toks.len(), &[]));
                let got = self.tree.remove_leaf(cu);
                if got.as_ref().map(|e| &e.toks) != Some(&want.toks) {
                    fail!("removing element {:?} returned {:?}", want, got);
                }
                self.eff.reports_all = true;
                self.eff.point = true;
                self.eff.effective = true;
                self.eff.leaves = Some(n - 1);
                self.region = i;
            }
            REMOVE_DEAD => {
                self.eff.expect = Some(self.snap.toks.clone());
                self.eff.reports_all = true;
                if self.dead_list.is_empty() {
                    self.eff.skipped = true;
                } else {
                    let h = self.dead_list[a as usize % self.dead_list.len()];
                    self.log(|| format!("remove dead handle {:?}", h));
                    if let Some(e) = self.tree.remove_leaf(Cursor { leaf: h, offset: (b & 3) as usize }) {
                        fail!("removing an element that was already removed returned {:?}", e);
                    }
                    if self.tree.get_elem_mut(h).is_some() {
                        fail!("a removed handle gives mutable access to an element");
                    }
                    self.eff.effective = true;
                    self.eff.leaves = Some(n);
                }
            }
            DRAIN | DRAIN_Q => {
                let (b1, b2, inner);
                let mut qr: Option<(QueryResult, QueryResult)> = None;
                let (mut p1, mut p2) = (0, 0);
                if k == DRAIN {
                    let (x, y) = self.cursor_pair(a, b, c, d);
                    b1 = self.snap.starts[x.0] + x.1;
                    b2 = self.snap.starts[y.0] + y.1;
                    inner = y.0 - x.0 + 1;
                    self.region = x.0;
                    qr = Some((QueryResult { cursor: x.2, found: true }, QueryResult { cursor: y.2, found: true }));
                } else if n == 0 {
                    b1 = 0;
                    b2 = 0;
                    inner = 0;
                    p2 = (a % 2) as usize;
                } else {
                    let (x, y) = self.cursor_pair(a, b, c, d);
                    p1 = self.snap.ustarts[x.0] + x.1;
                    p2 = self.snap.ustarts[y.0] + y.1;
                    let (q1, q2) = (self.tree.query::<LengthFinder>(&p1).unwrap(), self.tree.query::<LengthFinder>(&p2).unwrap());
                    let (Some(s1), Some(s2)) = (self.snap.boundary(q1.cursor), self.snap.boundary(q2.cursor)) else {
                        fail!("query({})..query({}) gave invalid cursors", p1, p2);
                    };
                    b1 = s1;
                    b2 = s2;
                    if b2 < b1 {
                        fail!("query({}) lies behind query({})", p1, p2);
                    }
                    inner = y.0 - x.0 + 1;
                    self.region = x.0;
                }
                let consume = match (c >> 11) & 3 {
                    0 | 3 => usize::MAX,
                    1 => (c >> 13) as usize,
                    _ => (d >> 8) as usize % (inner + 1),
                };
                self.log(|| format!("drain content {}..{} (by {}), consuming {}", b1, b2, if k == DRAIN { "cursor" } else { "query" }, if consume == usize::MAX { "all".into() } else { consume.to_string() }));
                self.eff.cuts = vec![b1..=b1, b2..=b2];
                self.eff.expect = Some(self.splice(b1, b2 - b1, &[]));
                let mut got: Vec<Tok> = vec![];
                let mut cnt = 0;
                reset_ticks();
                {
                    let mut dr = match qr {
                        Some((x, y)) => self.tree.drain(x..y),
                        None => self.tree.drain_by_query::<LengthFinder>(p1..p2),
                    };
                    while cnt < consume {
                        match dr.next() {
                            None => {
                                // a finished drain stays finished
                                if dr.next().is_some() {
                                    fail!("a finished drain yielded another element");
                                }
                                break;
                            }
                            Some(e) => got.extend_from_slice(&e.toks),
                        }
                        cnt += 1;
                        if cnt > n + 4 {
                            // leak rather than drop a drain that never ends
                            std::mem::forget(dr);
                            fail!("the drain yielded more elements than the tree had");
                        }
                    }
                }
                let want = &self.snap.toks[b1..b2];
                let ok = if consume == usize::MAX { got == want } else { want.starts_with(&got) };
                if self.spec.oracles & O_CONTENT != 0 && !ok {
                    fail!("the drain yielded {:?} instead of {:?}", got, want);
                }
                if consume != usize::MAX && got.len() < want.len() && cnt < consume && self.spec.oracles & O_CONTENT != 0 {
                    fail!("the drain ended after {:?}, short of {:?}", got, want);
                }
                self.eff.span = Some(inner);
                self.eff.effective = n > 0 && (b2 > b1 || b1 == self.snap.toks.len());
            }
            UPDATE => {
                let (x, y) = self.cursor_pair(a, b, c, d);
                let b1 = self.snap.starts[x.0] + x.1;
                let b2 = self.snap.starts[y.0] + y.1;
                let v = (c >> 8) % 9;
                self.region = x.0;
                self.log(|| format!("update content {}..{} (elements #{}+{} .. #{}+{}) with function {}", b1, b2, x.0, x.1, y.0, y.1, v));
                let mut before: Vec<Tok> = vec![];
                let mut after: Vec<Tok> = vec![];
                let mut fresh = self.next_id + 1;
                let salt = d as u32;
                let sp = self.tree.update(x.2..y.2, &mut |e: &mut El| {
                    before.extend_from_slice(&e.toks);
                    let old = B::leaf(&e.toks);
                    let h = mix(e.toks.first().map_or(0, |t| t.id) ^ salt);
                    let mut v = v;
                    if v == 6 {
                        v = (h % 5) as u16;
                    }
                    if !B::DIFFS && matches!(v, 1 | 4 | 7) {
                        v = 0;
                    }
                    let mut changed = true;
                    match v {
                        1 => e.toks.iter_mut().for_each(|t| t.tag ^= 1),
                        2 => e.toks.clear(),
                        3 => {
                            if h & 1 == 0 {
                                e.toks.clear();
                            } else {
                                changed = false;
                            }
                        }
                        4 => {
                            if !e.is_anchor() {
                                let l = e.toks.len() / 2;
                                e.toks.truncate(l)
                            }
                        }
                        5 => {
                            e.toks.iter_mut().for_each(|t| t.mark = t.mark.wrapping_add(1));
                        }
                        7 => {
                            if !e.is_anchor() {
                                e.toks.push(Tok { id: fresh, tag: 1, mark: 0, anchor: false });
                                fresh += 2;
                            }
                        }
                        8 => {
                            // removes everything but the first few elements
                            if h % 8 != 0 {
                                e.toks.clear()
                            }
                        }
                        _ => {
                            e.toks.iter_mut().for_each(|t| t.mark = t.mark.wrapping_add(1));
                            changed = false;
                        }
                    }
                    after.extend_from_slice(&e.toks);
                    let new = B::leaf(&e.toks);
                    if new != old || (changed && h & 2 == 0) {
                        Some(B::diff(&new, &old))
                    } else {
                        None
                    }
                });
                self.next_id = fresh;
                self.eff.reported.extend(sp.arr.iter().copied());
                self.eff.reports_all = true;
                if self.spec.oracles & O_CONTENT != 0 && before != self.snap.toks[b1..b2] {
                    fail!("the update function was given {:?} instead of {:?}", before, &self.snap.toks[b1..b2]);
                }
                self.eff.cuts = vec![b1..=b1, b2..=b2];
                self.eff.expect = Some(self.splice(b1, b2 - b1, &after));
                self.eff.span = Some(y.0 - x.0 + 1);
                self.eff.effective = b2 > b1;
            }
            UPLEAF => {
                let i = self.leaf_sel(a);
                let h = self.snap.leaves[i];
                let mut v = c % 15;
                let el0 = self.el(i);
                if el0.is_anchor() && matches!(v, 4 | 5 | 7 | 8 | 9 | 13) {
                    v = 10;
                }
                let (f1, f2) = (self.data(d, c >> 4), self.data(d >> 3, c >> 7));
                let m = self.off_sel(i, b);
                let m2 = m + (d as usize >> 4) % (el0.ulen() - m + 1);
                self.log(|| format!("update element #{} {:?} outcome {} split {}/{} fresh {:?} {:?}", i, el0, v, m, m2, f1, f2));
                let mut result: Vec<Tok> = vec![];
                let (valid, sp) = self.tree.update_leaf(h, |e: &mut El| {
                    let empty = El { toks: vec![], cfg: e.cfg };
                    let out = match v {
                        0 => (false, None, None),
                        1 => {
                            e.toks.iter_mut().for_each(|t| t.mark = t.mark.wrapping_add(1));
                            (false, None, None)
                        }
                        2 => {
                            e.toks.iter_mut().for_each(|t| t.tag ^= 1);
                            (true, None, None)
                        }
                        3 => {
                            // without a part in the summaries there is nothing to refresh
                            let light = e.toks.iter().all(|t| t.light());
                            e.toks.clear();
                            (!light || d & 1 == 0, None, None)
                        }
                        4 => {
                            let r = e.split(m);
                            (true, Some(r), None)
                        }
                        5 => {
                            let r = e.split(m2);
                            let x = e.split(m);
                            (true, Some(x), Some(r))
                        }
                        6 => {
                            let x = std::mem::replace(e, empty);
                            (true, Some(x), None)
                        }
                        7 => {
                            let r = e.split(m);
                            let x = std::mem::replace(e, empty);
                            (true, Some(x), Some(r))
                        }
                        8 => {
                            let r = e.split(m);
                            (true, Some(empty), Some(r))
                        }
                        9 => {
                            let r = e.split(m);
                            (true, Some(r), Some(empty))
                        }
                        10 => (d & 1 == 0, Some(f1.clone()), None),
                        11 => (d & 1 == 0, Some(f1.clone()), Some(f2.clone())),
                        // only the second of the two places is used
                        13 => {
                            let r = e.split(m);
                            (true, None, Some(r))
                        }
                        14 => {
                            let x = std::mem::replace(e, empty);
                            (true, None, Some(x))
                        }
                        _ => {
                            if e.is_anchor() {
                                (true, None, None)
                            } else {
                                let keep = e.toks.len() / 2;
                                e.toks.truncate(keep);
                                (true, Some(f1.clone()), None)
                            }
                        }
                    };
                    result.extend_from_slice(&e.toks);
                    for x in [&out.1, &out.2].into_iter().flatten() {
                        result.extend_from_slice(&x.toks);
                    }
                    out
                });
                if self.spec.oracles & O_CONTENT != 0 && valid == result.is_empty() {
                    fail!("updating element #{} left {:?} but reported valid={}", i, result, valid);
                }
                if valid != self.tree.get_elem(h).is_some() && self.spec.oracles & O_CONTENT != 0 {
                    fail!("updating element #{} reported valid={} but the handle says otherwise", i, valid);
                }
                self.eff.cuts.push(self.snap.starts[i]..=self.snap.starts[i + 1]);
                self.eff.expect = Some(self.splice(self.snap.starts[i], el0.toks.len(), &result));
                self.eff.reported.extend(sp.arr.iter().copied());
                self.eff.reports_all = true;
                self.eff.point = true;
                self.eff.effective = v != 0;
                self.region = i;
            }
            UPSEARCH => {
                let p = self.upos(a, b);
                // by position, or by a search that chooses freely and misses where it likes
                let arg = FlagArg { salt: (b >> 3) as usize, miss: [0, 1, 2, 4, 1 << 31, 3][(a >> 2) as usize % 6] };
                let free = b & 7 == 5;
                let q = if free { self.tree.query::<FlagQ>(&arg) } else { self.tree.query::<LengthFinder>(&p) }.unwrap();
                let Some(&i) = self.snap.idx.get(&q.cursor.leaf) else {
                    fail!("query({}) gave an unknown element", p);
                };
                let el0 = self.el(i);
                let mut v = c % 9;
                if !B::DIFFS && v != 7 {
                    v = 0;
                }
                let f1 = self.data(d, c >> 4);
                self.log(|| {
                    let how = if free { format!("a free search (salt {}, missing {:b})", arg.salt, arg.miss) } else { format!("{}", p) };
                    format!("update by search for {} (element #{} {:?}) outcome {} fresh {:?}", how, i, el0, v, f1)
                });
                reset_ticks();
                let mut result: Vec<Tok> = vec![];
                let mut seen = None;
                let f = |e: &mut El, r: QueryResult| {
                    seen = Some((e.clone(), r));
                    let old = B::leaf(&e.toks);
                    let mut new1: Option<El> = None;
                    let o = r.cursor.offset.min(e.ulen());
                    let mut none = false;
                    match v {
                        0 | 7 => {
                            if v == 0 {
                                e.toks.iter_mut().for_each(|t| t.mark = t.mark.wrapping_add(1));
                            }
                            none = true;
                        }
                        1 => e.toks.iter_mut().for_each(|t| t.tag ^= 1),
                        2 => {
                            if o < e.ulen() {
                                e.toks.remove(o);
                            }
                        }
                        3 => {
                            none = e.toks.iter().all(|t| t.light()) && d & 1 == 1;
                            e.toks.clear();
                        }
                        4 if !e.is_anchor() && o > 0 && o < e.ulen() => new1 = Some(e.split(o)),
                        4 | 5 => new1 = Some(f1.clone()),
                        6 if !e.is_anchor() => {
                            e.toks.splice(o..o, f1.toks.iter().copied().map(|mut t| {
                                t.anchor = false;
                                t
                            }));
                        }
                        8 if !e.is_anchor() && e.ulen() > 1 => {
                            e.toks.truncate(1);
                            new1 = Some(f1.clone());
                        }
                        _ => {}
                    }
                    result.extend_from_slice(&e.toks);
                    let mut all = e.toks.clone();
                    if let Some(x) = &new1 {
                        result.extend_from_slice(&x.toks);
                        all.extend_from_slice(&x.toks);
                    }
                    if none {
                        None
                    } else {
                        Some((B::diff(&B::leaf(&all), &old), new1, None))
                    }
                };
                let (cur, sp) = if free { self.tree.update_leaf_by_search::<FlagQ>(&arg, f) } else { self.tree.update_leaf_by_search::<LengthFinder>(&p, f) };
                if self.spec.oracles & O_CONTENT != 0 {
                    match &seen {
                        None => fail!("the function was never called"),
                        Some((e, r)) => {
                            if *r != q || e.toks != el0.toks {
                                fail!("the search led to {:?} {:?}, the query to {:?} {:?}", e, r, el0, q);
                            }
                        }
                    }
                    if result.is_empty() != cur.is_none() {
                        fail!("updating by search left {:?} but returned {:?}", result, cur);
                    }
                    if let Some(cu) = cur {
                        if cu.leaf != q.cursor.leaf || self.tree.get_elem(cu.leaf).is_none() {
                            fail!("updating by search returned cursor {:?}, expected element {:?}", cu, q.cursor.leaf);
                        }
                    }
                }
                self.eff.cuts.push(self.snap.starts[i]..=self.snap.starts[i + 1]);
                self.eff.expect = Some(self.splice(self.snap.starts[i], el0.toks.len(), &result));
                self.eff.reported.extend(sp.arr.iter().copied());
                self.eff.reports_all = true;
                self.eff.point = true;
                self.eff.effective = v != 7;
                self.region = i;
            }
            UPRANGES => {
                if n == 0 {
                    self.eff.skipped = true;
                    self.eff.expect = Some(vec![]);
                } else {
                    let cnt = 1 + match b & 3 {
                        0 => 0,
                        1 => (b >> 2) % 3,
                        2 => (b >> 2) % 10,
                        _ => (b >> 2) % 40,
                    } as usize;
                    let first = self.leaf_sel(a);
                    let mut args: Vec<(LeafIndex, std::ops::Range<usize>, u8)> = vec![];
                    let mut expect = self.snap.toks.clone();
                    for j in 0..cnt {
                        let m = mix(j as u32 ^ ((d as u32) << 9) ^ ((c as u32) << 3)) as usize;
                        let i = match c & 3 {
                            0 => first,
                            1 => (first + m % 4).min(n - 1),
                            2 => (first + m % 30).min(n - 1),
                            _ => m % n,
                        };
                        let l = self.snap.ulen(i);
                        if l == 0 {
                            continue;
                        }
                        // now and then an empty range, which no unit lies in
                        if (m >> 9) % 11 == 0 {
                            let p = [0, l, (m >> 12) % (l + 1)][(m >> 16) % 3];
                            args.push((self.snap.leaves[i], p..p, 1 + (m >> 5) as u8 % 7));
                            continue;
                        }
                        let (s, e) = match (m >> 8) % 5 {
                            0 => (0, l),
                            1 => (0, 1 + (m >> 12) % l),
                            2 => ((m >> 12) % l, l),
                            _ => {
                                let s = (m >> 12) % l;
                                (s, s + 1 + (m >> 20) % (l - s))
                            }
                        };
                        let arg = 1 + (m >> 5) as u8 % 7;
                        args.push((self.snap.leaves[i], s..e, arg));
                        for t in &mut expect[self.snap.starts[i] + s..self.snap.starts[i] + e] {
                            if B::DIFFS && arg & 1 == 1 {
                                t.tag = t.tag.wrapping_add(arg);
                            }
                            t.mark = t.mark.wrapping_add(arg);
                        }
                    }
                    // one entry may also make its range grow: a new unit behind each of its units
                    let mut grow: FxMap<u32, u32> = FxMap::default();
                    let fresh = self.next_id;
                    if B::DIFFS && (d >> 4) % 3 == 0 && !args.is_empty() {
                        let g = (d >> 6) as usize % args.len();
                        let (leaf, r, _) = args[g].clone();
                        args[g].2 = GROW;
                        // what the entry was expected to do before is taken back
                        expect = self.snap.toks.clone();
                        for (h, r, arg) in args.iter().filter(|x| x.2 != GROW) {
                            let at = self.snap.starts[self.snap.idx[h]];
                            for t in &mut expect[at + r.start..at + r.end] {
                                if arg & 1 == 1 {
                                    t.tag = t.tag.wrapping_add(*arg);
                                }
                                t.mark = t.mark.wrapping_add(*arg);
                            }
                        }
                        let at = self.snap.starts[self.snap.idx[&leaf]];
                        for t in &expect[at + r.start..at + r.end] {
                            grow.insert(t.id, self.next_id);
                            self.next_id += 1;
                        }
                        // the order in which entries meet a unit is not fixed, so the others leave a new unit alone
                        let old = std::mem::take(&mut expect);
                        for t in old {
                            expect.push(t);
                            if let Some(&id) = grow.get(&t.id) {
                                expect.push(Tok { id, tag: 0, mark: 0, anchor: false });
                            }
                        }
                    }
                    self.log(|| format!("multi-range update {:?}", args));
                    self.eff.effective = args.iter().any(|x| !x.1.is_empty());
                    // several entries about one element cut it into pieces which each of them may reach
                    let mut per: FxMap<LeafIndex, usize> = FxMap::default();
                    args.iter().for_each(|x| *per.entry(x.0).or_default() += 1);
                    self.eff.span = Some(per.values().map(|k| k * (2 * k + 1)).sum());
                    for (h, r, _) in &args {
                        let at = self.snap.starts[self.snap.idx[h]];
                        self.eff.cuts.extend([at + r.start..=at + r.start, at + r.end..=at + r.end]);
                    }
                    self.eff.expect = Some(expect);
                    let new = self.tree.update_leaves_with_arg_in_ranges(args, |e: &mut El, arg: &u8| {
                        tick();
                        if *arg == GROW {
                            let old = std::mem::take(&mut e.toks);
                            for t in old {
                                e.toks.push(t);
                                if let Some(&id) = grow.get(&t.id) {
                                    e.toks.push(Tok { id, tag: 0, mark: 0, anchor: false });
                                }
                            }
                            return;
                        }
                        for t in e.toks.iter_mut().filter(|t| t.id < fresh) {
                            if B::DIFFS && arg & 1 == 1 {
                                t.tag = t.tag.wrapping_add(*arg);
                            }
                            t.mark = t.mark.wrapping_add(*arg);
                        }
                    });
                    self.eff.reported = new;
                    self.eff.reports_all = true;
                    self.region = first;
                }
            }
            MARK => {
                let i = self.leaf_sel(a);
                self.log(|| format!("change element #{} in place", i));
                let h = self.snap.leaves[i];
                let Some(e) = self.tree.get_elem_mut(h) else {
                    fail!("no mutable access to element #{}", i);
                };
                e.toks.iter_mut().for_each(|t| t.mark = t.mark.wrapping_add(1));
                let mut x = self.snap.toks.clone();
                for t in &mut x[self.snap.starts[i]..self.snap.starts[i + 1]] {
                    t.mark = t.mark.wrapping_add(1);
                }
                self.eff.expect = Some(x);
                self.eff.leaves = Some(n);
                self.eff.reports_all = true;
                self.eff.effective = true;
                self.region = i;
            }
            RECACHE => {
                let i = self.leaf_sel(a);
                let h = self.snap.leaves[i];
                let old = B::leaf(self.snap.leaf_toks(i));
                let mut x = self.snap.toks.clone();
                let Some(e) = self.tree.get_elem_mut(h) else {
                    fail!("no mutable access to element #{}", i);
                };
                for (t, u) in e.toks.iter_mut().zip(&mut x[self.snap.starts[i]..self.snap.starts[i + 1]]) {
                    t.tag = t.tag.wrapping_add(1 + (d % 3) as u8) % 8;
                    u.tag = t.tag;
                }
                let new = B::leaf(&e.toks);
                let (use_diff, diff) = if !B::DIFFS {
                    (false, None)
                } else {
                    match c % 3 {
                        0 => (true, None),
                        1 => (true, Some(B::diff(&new, &old))),
                        _ => (false, None),
                    }
                };
                self.log(|| format!("change tags of element #{} in place, then refresh summaries (difference allowed: {}, given: {})", i, use_diff, diff.is_some()));
                self.tree.recursive_update_cache(h.into(), use_diff, diff);
                self.eff.expect = Some(x);
                self.eff.leaves = Some(n);
                self.eff.reports_all = true;
                self.eff.point = use_diff;
                self.eff.effective = true;
                self.region = i;
            }
            FILTERUP => {
                let zero = B::DIFFS && c & 1 == 1;
                let modulus = 2 + (c >> 1) as i64 % 4;
                let res = (c >> 4) as i64 % modulus;
                // doubled while they are small, then cleared
                let by = if self.snap.toks.iter().all(|t| t.tag < 60) { 2u8 } else { 0 };
                self.log(|| if zero { format!("filtered update: multiply all tags by {} where there are any", by) } else { format!("filtered update: mark where length % {} != {}", modulus, res) });
                let accept = |x: &B::Cache| if zero { B::tags_of(x) > 0 } else { B::len_of(x).rem_euclid(modulus) != res };
                // which elements a recursive reading of the filter accepts
                let mut want = vec![];
                self.filter_sim(0, &accept, &mut want);
                let mut x = self.snap.toks.clone();
                for &i in &want {
                    for t in &mut x[self.snap.starts[i]..self.snap.starts[i + 1]] {
                        t.mark = t.mark.wrapping_add(1);
                        if zero {
                            t.tag *= by;
                        }
                    }
                }
                self.eff.expect = Some(x);
                self.eff.leaves = Some(n);
                self.eff.reports_all = true;
                self.eff.effective = !want.is_empty();
                let mut calls = 0usize;
                self.tree.update_cache_and_elem_with_filter(
                    |x| {
                        let r = accept(x);
                        if r && zero {
                            B::scale_tags(x, by as i64);
                        }
                        r
                    },
                    |e| {
                        calls += 1;
                        e.toks.iter_mut().for_each(|t| {
                            t.mark = t.mark.wrapping_add(1);
                            if zero {
                                t.tag = t.tag.wrapping_mul(by);
                            }
                        })
                    },
                );
                if self.spec.oracles & (O_FILTER | O_CONTENT) != 0 && calls != want.len() {
                    fail!("the filtered update changed {} elements instead of {}", calls, want.len());
                }
                if zero && self.spec.oracles & O_FILTER != 0 {
                    self.judge_edited()?;
                }
                if zero && n > 0 {
                    // the summary of the whole tree is the caller's business
                    self.tree.recursive_update_cache(self.snap.leaves[0].into(), false, None);
                }
            }
            CLONE => {
                if self.clones.len() >= 2 {
                    self.clones.remove(0);
                }
                self.log(|| "take a clone".to_string());
                let t = self.tree.clone();
                if self.spec.oracles & O_CLONES != 0 {
                    let s = walk::<B>(&t)?;
                    self.same(&s, "a fresh clone", true)?;
                    if t.root_cache() != self.tree.root_cache() || t.node_len() != self.tree.node_len() {
                        fail!("a fresh clone has summary {:?} and {} nodes, the original {:?} and {}", t.root_cache(), t.node_len(), self.tree.root_cache(), self.tree.node_len());
                    }
                    for h in self.dead.iter().take(64) {
                        if t.get_elem(*h).is_some() {
                            fail!("a removed handle denotes an element in a fresh clone");
                        }
                    }
                }
                self.clones.push((t, self.snap.clone(), self.dead.clone()));
                self.eff.expect = Some(self.snap.toks.clone());
                self.eff.leaves = Some(n);
                self.eff.reports_all = true;
                self.eff.effective = n > 0;
            }
            SWAP => {
                if let Some((t, s, dead)) = self.clones.pop() {
                    self.log(|| "continue on the clone, keep the original aside".to_string());
                    let t0 = std::mem::replace(&mut self.tree, t);
                    self.eff.expect = Some(s.toks.clone());
                    let s0 = std::mem::replace(&mut self.snap, s);
                    let d0 = std::mem::replace(&mut self.dead, dead);
                    self.dead_list = self.dead.iter().copied().take(64).collect();
                    self.clones.insert(0, (t0, s0, d0));
                    self.rebuild_map();
                    self.eff.reports_all = true;
                    self.eff.effective = true;
                } else {
                    self.eff.skipped = true;
                    self.eff.expect = Some(self.snap.toks.clone());
                }
            }
            CLEAR => {
                self.log(|| "clear".to_string());
                self.tree.clear();
                self.eff.expect = Some(vec![]);
                self.eff.fresh_tree = true;
                self.eff.effective = n > 0;
                if self.spec.oracles & O_CLONES != 0 {
                    if !self.tree.is_empty() || *self.tree.root_cache() != B::Cache::default() {
                        fail!("a cleared tree is not empty or has summary {:?}", self.tree.root_cache());
                    }
                    if self.tree.node_len() != BTree::<B>::new().node_len() {
                        fail!("a cleared tree still has {} nodes", self.tree.node_len());
                    }
                }
            }
            COLLECT => {
                let els: Vec<El> = (0..n).map(|i| self.el(i)).collect();
                self.log(|| format!("collect the {} elements into a new tree", n));
                self.eff.expect = Some(self.snap.toks.clone());
                self.eff.expect_starts = Some(self.snap.starts.clone());
                self.eff.fresh_tree = true;
                self.eff.effective = true;
                self.eff.span = Some(n);
                self.tree = match c % 3 {
                    0 => els.into_iter().collect(),
                    1 => els.into_iter().filter(|_| true).collect(),
                    _ => {
                        let v: VecDeque<El> = els.into();
                        v.into_iter().collect()
                    }
                };
            }
            _ => unreachable!(),
        }
        self.done(k)
    }

    /// A few elements stay, everything between them goes: range by range or one by one, in some order.
    fn sparsify(&mut self, op: &Op, spec_focus: &[u8]) -> Result<(), String> {
        let n = self.snap.n();
        if n < 3 {
            return Ok(());
        }
        hit("op sparsify");
        let salt = (op.b >> 2) as u32;
        let m = match op.a % 8 {
            6 => (op.a >> 3) as usize % 20,
            7 => n / 12 + (op.a >> 3) as usize % 3,
            x => x as usize,
        }
        .min(n - 1);
        let mut keep = vec![false; n];
        for j in 0..m {
            let i = match op.b & 3 {
                0 => (j * n / m + salt as usize % (n / m)).min(n - 1),
                1 => n - 1 - j,
                2 => j,
                _ => mix(salt.wrapping_mul(31).wrapping_add(j as u32)) as usize % n,
            };
            keep[i] = true;
        }
        let of_focus: Vec<u8> = [DRAIN, DRAIN_Q, UPDATE, REMOVE, UPLEAF, UPSEARCH].into_iter().filter(|k| spec_focus.contains(k)).collect();
        let k = if !of_focus.is_empty() && op.c & 3 != 0 {
            of_focus[(op.c >> 2) as usize % of_focus.len()]
        } else {
            [DRAIN, DRAIN, UPDATE, DRAIN_Q, REMOVE, UPLEAF, UPSEARCH, UPSEARCH][(op.c >> 2) as usize % 8]
        };
        CUR_OP.with(|x| x.set(k as i32));
        let mut gone: Vec<usize> = (0..n).filter(|&i| !keep[i]).collect();
        if matches!(k, DRAIN | DRAIN_Q | UPDATE) {
            // maximal runs, cut into pieces if asked for
            let piece = [usize::MAX, usize::MAX, 1 + (op.d >> 4) as usize % 40, n / 6 + 1][(op.d >> 2) as usize % 4];
            let mut runs: Vec<(LeafIndex, LeafIndex)> = vec![];
            let mut i = 0;
            while i < n {
                let mut j = i;
                while j < n && !keep[j] && j - i < piece {
                    j += 1;
                }
                if j > i {
                    runs.push((self.snap.leaves[i], self.snap.leaves[j - 1]));
                    i = j;
                } else {
                    i += 1;
                }
            }
            match op.d & 3 {
                0 => {}
                1 => runs.reverse(),
                _ => runs.sort_by_key(|r| mix(salt ^ self.snap.idx[&r.0] as u32)),
            }
            runs.truncate(60);
            for (x, y) in runs {
                let (Some(&i), Some(&j)) = (self.snap.idx.get(&x), self.snap.idx.get(&y)) else { return Ok(()) };
                let (b1, b2) = (self.snap.starts[i], self.snap.starts[j] + self.snap.ulen(j));
                self.eff = Effect { effective: true, span: Some(j - i + 1), ..Default::default() };
                self.region = i;
                let el = self.snap.ulen(j);
                let mut got: Vec<Tok> = vec![];
                reset_ticks();
                match k {
                    DRAIN => {
                        self.log(|| format!("sparsify: drain elements #{}..=#{}", i, j));
                        let r = |c| QueryResult { cursor: c, found: true };
                        let range = r(Cursor { leaf: x, offset: 0 })..r(Cursor { leaf: y, offset: el });
                        self.eff.cuts = vec![b1..=b1, b2..=b2];
                        self.eff.expect = Some(self.splice(b1, b2 - b1, &[]));
                        self.tree.drain(range).for_each(|e| got.extend(e.toks));
                    }
                    DRAIN_Q => {
                        let (p1, p2) = (self.snap.ustarts[i], self.snap.ustarts[j + 1]);
                        self.log(|| format!("sparsify: drain positions {}..{}", p1, p2));
                        let b0 = (b1, b2);
                        let q = |p| self.tree.query::<LengthFinder>(&p).and_then(|q| self.snap.boundary(q.cursor));
                        let (Some(b1), Some(b2)) = (q(p1), q(p2)) else { fail!("query({})..query({}) gave invalid cursors", p1, p2) };
                        if b2 < b1 {
                            fail!("query({}) lies behind query({})", p1, p2);
                        }
                        self.eff.cuts = vec![b1..=b1, b2..=b2];
                        self.eff.expect = Some(self.splice(b1, b2 - b1, &[]));
                        self.tree.drain_by_query::<LengthFinder>(p1..p2).for_each(|e| got.extend(e.toks));
                        if got != self.snap.toks[b1..b2] && self.spec.oracles & O_CONTENT != 0 {
                            fail!("the drain yielded {:?} instead of {:?}", got, &self.snap.toks[b1..b2]);
                        }
                        got = self.snap.toks[b0.0..b0.1].to_vec();
                    }
                    _ => {
                        self.log(|| format!("sparsify: update elements #{}..=#{}, emptying them", i, j));
                        self.eff.cuts = vec![b1..=b1, b2..=b2];
                        self.eff.expect = Some(self.splice(b1, b2 - b1, &[]));
                        let sp = self.tree.update(Cursor { leaf: x, offset: 0 }..Cursor { leaf: y, offset: el }, &mut |e: &mut El| {
                            let old = B::leaf(&e.toks);
                            got.append(&mut e.toks);
                            Some(B::diff(&B::leaf(&[]), &old))
                        });
                        self.eff.reported.extend(sp.arr.iter().copied());
                        self.eff.reports_all = true;
                    }
                }
                if self.spec.oracles & O_CONTENT != 0 && got != self.snap.toks[b1..b2] {
                    fail!("{} over elements #{}..=#{} gave {:?} instead of {:?}", KIND_NAMES[k as usize], i, j, got, &self.snap.toks[b1..b2]);
                }
                self.done(k)?;
            }
            return Ok(());
        }
        match op.d & 3 {
            0 => {}
            1 => gone.reverse(),
            2 => gone.sort_by_key(|i| (i % 5, *i)),
            _ => gone.sort_by_key(|i| mix(salt ^ *i as u32)),
        }
        self.log(|| format!("sparsify: {} each of the elements {:?}", KIND_NAMES[k as usize], gone));
        // units before each element that is still there
        let mut left: Vec<usize> = (0..n).map(|i| self.snap.ulen(i)).collect();
        let rounds = 1 + (gone.len() > 40) as usize * ((op.d >> 2) as usize % 3);
        let mut here = vec![true; n];
        self.eff = Effect { effective: true, ..Default::default() };
        let per = gone.len().div_ceil(rounds).max(1);
        let base: Vec<(LeafIndex, Vec<Tok>)> = (0..n).map(|i| (self.snap.leaves[i], self.snap.leaf_toks(i).to_vec())).collect();
        for part in gone.chunks(per) {
            self.eff = Effect { effective: true, ..Default::default() };
            reset_ticks();
            for &i in part {
                let (h, toks) = &base[i];
                here[i] = false;
                match k {
                    UPSEARCH if B::DIFFS && left[i] > 0 => {
                        let p: usize = left[..i].iter().sum();
                        let mut led = None;
                        let (cur, sp) = self.tree.update_leaf_by_search::<LengthFinder>(&p, |e: &mut El, r: QueryResult| {
                            led = Some(r.cursor);
                            let old = B::leaf(&e.toks);
                            e.toks.clear();
                            Some((B::diff(&B::leaf(&[]), &old), None, None))
                        });
                        if led.map(|c| c.leaf) != Some(*h) || cur.is_some() || !sp.arr.is_empty() {
                            fail!("removing the element {:?} of position {} by search led to {:?} and returned {:?}", toks, p, led, cur);
                        }
                    }
                    UPLEAF => {
                        let (valid, sp) = self.tree.update_leaf(*h, |e| {
                            e.toks.clear();
                            (true, None, None)
                        });
                        if valid || !sp.arr.is_empty() {
                            fail!("emptying the element {:?} reported valid={} and new elements {:?}", toks, valid, sp.arr);
                        }
                    }
                    _ => {
                        let got = self.tree.remove_leaf(Cursor { leaf: *h, offset: 0 });
                        if got.as_ref().map(|e| &e.toks) != Some(toks) {
                            fail!("removing element {:?} returned {:?}", toks, got);
                        }
                    }
                }
                left[i] = 0;
            }
            let mut want = vec![];
            for i in 0..n {
                if here[i] {
                    want.extend_from_slice(&base[i].1);
                }
            }
            self.eff.expect = Some(want);
            self.eff.leaves = Some(here.iter().filter(|x| **x).count());
            self.eff.reports_all = true;
            self.done(k)?;
        }
        Ok(())
    }

    fn filter_sim(&self, node: usize, accept: &impl Fn(&B::Cache) -> bool, out: &mut Vec<usize>) {
        let nd = &self.snap.nodes[node];
        if nd.sub.is_empty() {
            for (j, (_, c)) in nd.kids.iter().enumerate() {
                if accept(c) {
                    out.push(nd.lo + j);
                }
            }
        } else {
            for (j, (_, c)) in nd.kids.iter().enumerate() {
                if accept(c) {
                    self.filter_sim(nd.sub[j], accept, out);
                }
            }
        }
    }

    fn same(&self, s: &Snap<B::Cache>, what: &str, shape: bool) -> Result<(), String> {
        same_snap(&self.snap, s, what, shape)
    }

    fn rebuild_map(&mut self) {
        self.map.clear();
        for i in 0..self.snap.n() {
            for t in &self.snap.toks[self.snap.starts[i]..self.snap.starts[i + 1]] {
                self.map.insert(t.id, self.snap.leaves[i]);
            }
        }
    }

    // ------------------------------------------------------------ judging

    fn done(&mut self, k: u8) -> Result<(), String> {
        let work = ticks();
        let kid_work = kid_ticks();
        let eff = std::mem::take(&mut self.eff);
        let o = self.spec.oracles;
        self.opno += 1;
        let post = walk::<B>(&self.tree)?;
        let n = post.n();
        self.peak = self.peak.max(n);
        self.max_levels = self.max_levels.max(post.levels);
        DIGESTS.with(|d| {
            if let Some(v) = d.borrow_mut().as_mut() {
                v.push(digest(k, &eff, &post));
            }
        });

        // ---- the operation's own specification
        if o & O_CONTENT != 0 {
            if let Some(x) = &eff.expect {
                if *x != post.toks {
                    let at = x.iter().zip(&post.toks).position(|(a, b)| a != b).unwrap_or(x.len().min(post.toks.len()));
                    let w = |v: &[Tok]| format!("{:?}", &v[at.saturating_sub(4)..(at + 8).min(v.len())]);
                    fail!("content wrong after {}: expected {} units, got {}; first difference at {}: expected ..{}.., got ..{}..", KIND_NAMES[k as usize], x.len(), post.toks.len(), at, w(x), w(&post.toks));
                }
            }
            if let Some(x) = &eff.expect_starts {
                if *x != post.starts {
                    fail!("collecting changed the element boundaries: expected {:?}, got {:?}", x, post.starts);
                }
            }
            if let Some((c, at)) = eff.cursor {
                if post.boundary(c) != Some(at) {
                    fail!("{} returned cursor {:?} denoting {:?} instead of position {}", KIND_NAMES[k as usize], c, post.boundary(c), at);
                }
            }
            // reading back through plain iteration
            let mut i = 0;
            for e in self.tree.iter() {
                if i >= n || e.toks != post.leaf_toks(i) {
                    fail!("iteration disagrees with the elements searches reach, at element #{}", i);
                }
                i += 1;
            }
            if i != n || self.tree.is_empty() != (n == 0) {
                fail!("iteration gave {} elements, searches reach {} (is_empty={})", i, n, self.tree.is_empty());
            }
        }
        if o & O_CUTS != 0 && !eff.fresh_tree && k != SWAP {
            self.judge_cuts(k, &eff, &post)?;
        }
        if o & (O_CUTS | O_CONTENT) != 0 {
            if let Some(i) = (0..n).find(|&i| post.starts[i] == post.starts[i + 1]) {
                fail!("{}: a removable element is stored as element #{}", KIND_NAMES[k as usize], i);
            }
        }
        if o & O_MERGE != 0 {
            if let Some(x) = eff.leaves {
                if x < n && matches!(k, PUSH | PREPEND | INSERT) {
                    fail!("{}: the new element could be merged or absorbed at the addressed place, but there are {} elements instead of {}", KIND_NAMES[k as usize], n, x);
                }
            }
            if let Some((lo, hi)) = eff.batch {
                for i in 1..n {
                    let (l, r) = (post.leaf_toks(i - 1), post.leaf_toks(i));
                    if l.iter().chain(r).all(|t| t.id >= lo && t.id < hi) {
                        let (l, r) = (El { toks: l.to_vec(), cfg: self.cfg }, El { toks: r.to_vec(), cfg: self.cfg });
                        if l.would_merge(&r) {
                            fail!("the batch left the neighbours {:?} and {:?} unmerged", l, r);
                        }
                    }
                }
            }
        } else if o & O_CONTENT != 0 {
            if let Some(x) = eff.leaves {
                if x != n && !matches!(k, PUSH | PREPEND | INSERT) {
                    fail!("{}: {} elements instead of {}", KIND_NAMES[k as usize], n, x);
                }
            }
        }
        if o & O_COST != 0 && eff.point {
            // counted before the walk; the bound leaves a wide margin above the worst observed
            let lv = post.levels.max(self.snap.levels) as u64;
            let bound = 40 + 25 * lv;
            let kb = 60 + 100 * lv;
            STATS.with(|s| {
                let mut s = s.borrow_mut();
                s.max(&format!("calls per {} at {} levels", KIND_NAMES[k as usize], lv), work);
                s.max(&format!("child summaries combined per {} at {} levels", KIND_NAMES[k as usize], lv), kid_work);
            });
            if work > bound {
                fail!("{} on a tree of {} levels called element and summary functions {} times (bound {})", KIND_NAMES[k as usize], lv, work, bound);
            }
            if kid_work > kb {
                fail!("{} on a tree of {} levels combined {} child summaries (bound {})", KIND_NAMES[k as usize], lv, kid_work, kb);
            }
        }

        if o & O_COST != 0 && n > 0 {
            self.judge_cost(&post)?;
        }
        if let (true, Some(span)) = (o & O_SPAN != 0, eff.span) {
            // the bounds leave at least a factor of two above the worst observed
            let lv = post.levels.max(self.snap.levels) as u64;
            let sp = span as u64;
            let (bound, kb) = if k == COLLECT {
                (40 + 6 * sp, 60 + 10 * sp)
            } else {
                (40 + 25 * lv + (10 + 5 * lv) * sp, 60 + 100 * lv + (30 + 20 * lv) * sp)
            };
            STATS.with(|s| {
                let mut s = s.borrow_mut();
                s.max(&format!("calls per {}, percent of the bound", KIND_NAMES[k as usize]), work * 100 / bound);
                s.max(&format!("child summaries combined per {}, percent of the bound", KIND_NAMES[k as usize]), kid_work * 100 / kb);
                if (60 + 100 * lv + (30 + 20 * lv) * sp) * 2 < self.snap.n() as u64 {
                    s.hit("small range or batch in a large tree");
                }
            });
            if work > bound {
                fail!("{} about {} elements, on a tree of {} levels with {} elements, called element and summary functions {} times (bound {})", KIND_NAMES[k as usize], span, lv, self.snap.n(), work, bound);
            }
            if kid_work > kb {
                fail!("{} about {} elements, on a tree of {} levels with {} elements, combined {} child summaries (bound {})", KIND_NAMES[k as usize], span, lv, self.snap.n(), kid_work, kb);
            }
        }

        // ---- handles
        if eff.fresh_tree {
            self.dead.clear();
            self.dead_list.clear();
        } else {
            if o & O_HANDLES != 0 {
                self.judge_handles(k, &eff, &post)?;
            }
            for h in &self.snap.leaves {
                if !post.idx.contains_key(h) {
                    self.dead.insert(*h);
                    self.dead_list.push_back(*h);
                }
            }
            while self.dead_list.len() > 200 {
                self.dead_list.pop_front();
            }
        }

        let skipped = eff.skipped;
        let effective = eff.effective;
        // of the tree the operation found
        let levels = self.snap.levels;
        self.snap = post;
        if o & O_HANDLES != 0 && (eff.fresh_tree || matches!(k, SWAP)) {
            self.rebuild_map();
        }

        // ---- the state
        if o & O_CACHE != 0 {
            self.judge_caches()?;
        }
        if o & (O_STRUCT | O_DEPTH) != 0 {
            self.judge_structure()?;
        }
        let salt = self.opno * 17;
        if o & O_QUERY != 0 {
            self.judge_query(40, salt)?;
        }
        if o & O_NAV != 0 {
            self.judge_nav(40, salt)?;
        }
        if o & O_PREFIX != 0 {
            self.judge_prefix(30, salt)?;
        }
        if o & O_ITER != 0 {
            self.judge_iter(4, salt)?;
        }
        if o & O_FILTER != 0 {
            // a wrong traversal counts, whatever operation led here
            let before = FOCUS_SEEN.with(|f| f.replace(true));
            self.judge_filter(salt)?;
            FOCUS_SEEN.with(|f| f.set(before));
        }
        if o & O_CLONES != 0 {
            self.judge_clones()?;
        }

        STATS.with(|s| {
            let mut s = s.borrow_mut();
            if skipped {
                s.hit("op skipped (not applicable)");
            } else {
                s.hit(OP_KEYS[k as usize]);
                if effective {
                    s.hit(EFF_KEYS[k as usize]);
                }
                if self.spec.focus.is_empty() || effective && self.spec.focus.contains(&k) {
                    s.hit(LEVEL_KEYS[levels.min(4)]);
                }
            }
        });
        if !skipped && (self.spec.focus.contains(&k) && effective || self.spec.focus.is_empty()) {
            self.focus_done += 1;
            FOCUS_SEEN.with(|f| f.set(true));
        }
        Ok(())
    }

    /// elements are cut only where the operation was addressed to
    fn judge_cuts(&self, k: u8, eff: &Effect, post: &Snap<B::Cache>) -> Result<(), String> {
        let pre = &self.snap;
        let mut now: FxMap<u32, usize> = FxMap::default();
        for (x, t) in post.toks.iter().enumerate() {
            now.insert(t.id, x);
        }
        let starts: FxSet<usize> = post.starts.iter().copied().collect();
        for i in 0..pre.n() {
            for t in pre.starts[i] + 1..pre.starts[i + 1] {
                let (Some(&x), Some(&y)) = (now.get(&pre.toks[t - 1].id), now.get(&pre.toks[t].id)) else { continue };
                if y == x + 1 && starts.contains(&y) && !eff.cuts.iter().any(|r| r.contains(&t)) {
                    fail!("{}: element {:?} was cut before {:?}, where the operation was not addressed to", KIND_NAMES[k as usize], pre.leaf_toks(i), pre.toks[t]);
                }
            }
        }
        Ok(())
    }

    fn judge_handles(&mut self, k: u8, eff: &Effect, post: &Snap<B::Cache>) -> Result<(), String> {
        let name = KIND_NAMES[k as usize];
        let pre = &self.snap;
        // removed handles stay dead, new ones are really new
        for h in &pre.leaves {
            if !post.idx.contains_key(h) && self.tree.get_elem(*h).is_some() {
                fail!("{}: handle {:?} is no longer part of the tree but still denotes an element", name, h);
            }
        }
        for (i, h) in self.dead_list.iter().enumerate() {
            if (i + self.opno) % 3 == 0 && self.tree.get_elem(*h).is_some() {
                fail!("{}: a handle removed earlier denotes an element again", name);
            }
        }
        let mut reported: FxSet<LeafIndex> = FxSet::default();
        reported.extend(eff.reported.iter().copied());
        for (i, h) in post.leaves.iter().enumerate() {
            if pre.idx.contains_key(h) {
                continue;
            }
            if self.dead.contains(h) {
                fail!("{}: a removed handle was given out again for {:?}", name, post.leaf_toks(i));
            }
            if eff.reports_all && !reported.contains(h) {
                fail!("{}: the new element {:?} was not reported", name, post.leaf_toks(i));
            }
        }
        // a content -> handle map maintained from the reports alone
        if eff.reports_all {
            for h in &eff.reported {
                if let Some(&i) = post.idx.get(h) {
                    for t in post.leaf_toks(i) {
                        self.map.insert(t.id, *h);
                    }
                }
            }
            for i in 0..post.n() {
                for t in post.leaf_toks(i) {
                    let m = self.map.get(&t.id);
                    if m != Some(&post.leaves[i]) {
                        if m.is_none() && matches!(k, UPDATE | UPSEARCH | UPLEAF | UPRANGES) && !pre_has(pre, t.id) {
                            // content the caller's own function put into an existing element
                            self.map.insert(t.id, post.leaves[i]);
                            continue;
                        }
                        fail!("{}: unit {:?} is now in element {:?}, but the reports say {:?}", name, t, post.leaf_toks(i), m.and_then(|h| post.idx.get(h)).map(|&j| post.leaf_toks(j)));
                    }
                }
            }
        } else {
            // drains and batches do not report: content may only move to new elements
            let mut was: FxMap<u32, LeafIndex> = FxMap::default();
            for i in 0..pre.n() {
                for t in pre.leaf_toks(i) {
                    was.insert(t.id, pre.leaves[i]);
                }
            }
            for i in 0..post.n() {
                for t in post.leaf_toks(i) {
                    if let Some(h) = was.get(&t.id) {
                        if *h != post.leaves[i] && pre.idx.contains_key(&post.leaves[i]) {
                            fail!("{}: unit {:?} moved to another existing element", name, t);
                        }
                    }
                }
            }
            self.map.clear();
            for i in 0..post.n() {
                for t in post.leaf_toks(i) {
                    self.map.insert(t.id, post.leaves[i]);
                }
            }
        }
        Ok(())
    }

    /// looking up and stepping
    fn judge_cost(&self, s: &Snap<B::Cache>) -> Result<(), String> {
        let lv = s.levels as u64;
        let bound = 20 + 16 * lv;
        let p = (self.opno * 7919) % (s.units() + 1);
        reset_ticks();
        let q = self.tree.query::<LengthFinder>(&p);
        let q2 = self.tree.query::<TagQ>(&(p as i64 % 5));
        let w1 = ticks();
        reset_ticks();
        let c = Cursor { leaf: s.leaves[p % s.n()], offset: 0 };
        let x = (self.tree.next_elem(c), self.tree.prev_elem(c), self.tree.get_elem(c.leaf).is_some());
        let w2 = ticks();
        reset_ticks();
        let _ = (self.tree.prefer_right(c), self.tree.prefer_left(c), self.tree.start_cursor(), self.tree.end_cursor());
        let w3 = ticks();
        let i = (p * 5 + 2) % s.n();
        let e = Cursor { leaf: s.leaves[i], offset: s.ulen(i) };
        reset_ticks();
        let y = (self.tree.prefer_right(e), self.tree.compare_pos(e, c));
        let mut w4 = ticks();
        let last = Cursor { leaf: s.leaves[i], offset: s.ulen(i).saturating_sub(1) };
        // (from an element without length, or to one, elements without length may have to be skipped)
        if s.ulen(i) > 0 && (i + 1 == s.n() || s.ulen(i + 1) > 0) {
            reset_ticks();
            let _ = self.tree.shift_path_by_one_offset(last);
            w4 = w4.max(ticks());
        }
        if w4 > bound {
            fail!("on a tree of {} levels normalising {:?} and comparing it ({:?}) or shifting it by one made {} calls", lv, e, y, w4);
        }
        STATS.with(|st| {
            st.borrow_mut().max("calls per normalisation, comparison or shift at the end of an element", w4);
            let mut st = st.borrow_mut();
            st.max(&format!("calls per 2 queries at {} levels", lv), w1);
            st.max("calls per 2 steps", w2);
            st.max("calls per 4 cursor normalisations", w3);
        });
        if w1 > 2 * bound || w2 > bound || w3 > bound {
            fail!("on a tree of {} levels two queries ({:?}, {:?}) made {} calls, two steps ({:?}) {}, normalising a cursor {}", lv, q, q2, w1, x, w2, w3);
        }
        Ok(())
    }

    fn judge_caches(&self) -> Result<(), String> {
        let sum = Self::fold_checked(&self.snap)?;
        if *self.tree.root_cache() != sum {
            fail!("summary of the whole tree is {:?} instead of {:?} ({} elements)", self.tree.root_cache(), sum, self.snap.n());
        }
        Ok(())
    }
    /// after a filtered update that edited elements and summaries alike, summaries are still those of the content
    fn judge_edited(&self) -> Result<(), String> {
        if Self::fold_checked(&self.snap).is_err() {
            return Ok(()); // they were wrong before
        }
        let s = walk::<B>(&self.tree)?;
        match Self::fold_checked(&s) {
            Ok(_) => Ok(()),
            Err(e) => fail!("the filtered update did not edit each accepted summary exactly once: {}", e),
        }
    }
    /// the summary of the whole tree, if every stored one is that of the content below
    fn fold_checked(s: &Snap<B::Cache>) -> Result<B::Cache, String> {
        // bottom-up over the preorder list
        let mut sums: Vec<B::Cache> = vec![B::Cache::default(); s.nodes.len()];
        for i in (0..s.nodes.len()).rev() {
            let nd = &s.nodes[i];
            let mut kids: Vec<B::Cache> = Vec::with_capacity(nd.kids.len());
            if nd.sub.is_empty() {
                for j in 0..nd.kids.len() {
                    kids.push(B::leaf(s.leaf_toks(nd.lo + j)));
                }
            } else {
                for &x in &nd.sub {
                    kids.push(sums[x]);
                }
            }
            for (j, (_, c)) in nd.kids.iter().enumerate() {
                if *c != kids[j] {
                    let below = if nd.sub.is_empty() { format!("element {:?}", s.leaf_toks(nd.lo + j)) } else { format!("subtree with elements #{}..#{}", s.nodes[nd.sub[j]].lo, s.nodes[nd.sub[j]].hi) };
                    fail!("stored summary {:?} of the {} at level {} is not {:?}", c, below, nd.depth + 1, kids[j]);
                }
            }
            sums[i] = B::fold(kids.iter());
        }
        Ok(sums.first().copied().unwrap_or_default())
    }

    fn judge_structure(&self) -> Result<(), String> {
        let s = &self.snap;
        let n = s.n();
        if s.bad_depth {
            fail!("elements lie at different depths");
        }
        if s.bad_mix {
            fail!("an inner node has both elements and inner nodes as children");
        }
        if n == 0 && (s.nodes.len() != 1 || !s.nodes[0].kids.is_empty() || !self.tree.is_empty()) {
            fail!("the tree has no elements but still has inner nodes");
        }
        for nd in &s.nodes[1..] {
            if nd.kids.is_empty() {
                fail!("an inner node is empty");
            }
        }
        for nd in &s.nodes {
            if let Some(a) = nd.arena {
                let real = self.tree.get_internal(a);
                if real.len() != nd.kids.len() {
                    fail!("an inner node has {} children but shows {}", real.len(), nd.kids.len());
                }
                if real.is_full() {
                    fail!("an inner node with {} children was left full", real.len());
                }
            }
        }
        for i in 0..n {
            let p = s.nodes[s.parent[i].0 as usize].arena;
            let l = self.tree.get_leaf(s.leaves[i].into());
            if let Some(a) = p {
                if l.parent() != a {
                    fail!("element #{} is linked to another parent than the one containing it", i);
                }
            }
            if l.elem().toks != s.leaf_toks(i) {
                fail!("element #{} reads differently by handle", i);
            }
        }
        if self.tree.node_len() != s.nodes.len() + n {
            fail!("{} nodes are counted, {} are reachable ({} inner, {} elements)", self.tree.node_len(), s.nodes.len() + n, s.nodes.len(), n);
        }
        if n == 0 && self.tree.depth() > 1 {
            fail!("the depth of the empty tree is reported as {}", self.tree.depth());
        }
        if n > 0 && self.tree.depth() != s.levels {
            fail!("depth is reported as {} instead of {}", self.tree.depth(), s.levels);
        }
        if n > 0 {
            let avg = (s.nodes.len() - 1 + n) as f64 / s.nodes.len() as f64;
            if (self.tree.internal_avg_children_num() - avg).abs() > 1e-9 {
                fail!("the reported average number of children is {} instead of {}", self.tree.internal_avg_children_num(), avg);
            }
        }
        if self.spec.oracles & O_DEPTH != 0 {
            if n > 0 {
                let bound = depth_bound(n);
                STATS.with(|st| st.borrow_mut().max(&format!("levels for {} elements", bucket(n)), s.levels as u64));
                STATS.with(|st| st.borrow_mut().max(&format!("inner nodes per 100 elements, at {} elements", bucket(n)), (100 * (s.nodes.len() - s.levels) / n) as u64));
                if s.nodes.len() > s.levels + 1 + n / 2 {
                    fail!("{} elements need {} inner nodes on {} levels", n, s.nodes.len(), s.levels);
                }
                if s.levels > bound {
                    fail!("{} elements lie at depth {} (bound {})", n, s.levels, bound);
                }
            }
        }
        if n < 60 || self.opno % 5 == 0 {
            self.tree.check();
        }
        Ok(())
    }

    fn judge_query(&self, k: usize, salt: usize) -> Result<(), String> {
        let s = &self.snap;
        let n = s.n();
        let u = s.units();
        if n == 0 {
            let (r, f) = self.tree.query_with_finder_return::<LengthFinder>(&(salt % 3));
            if r.is_some() || self.tree.query::<TagQ>(&0).is_some() || self.tree.range::<LengthFinder>(0..salt % 2).is_some() {
                fail!("a query on the empty tree gave a result");
            }
            let (a, b) = (LengthFinder::new(), LengthFinder::default());
            if f.left != salt % 3 || [a.left, a.slot as usize, b.left, b.slot as usize] != [0; 4] || a.parent.is_some() || b.parent.is_some() {
                fail!("the search state of a query on the empty tree is not the initial one");
            }
            return Ok(());
        }
        let mut ps = samples(u, k, salt);
        // positions at both sides of the element boundaries around the last change
        for i in self.region.saturating_sub(2)..(self.region + 3).min(n) {
            ps.push(s.ustarts[i].min(u.saturating_sub(1)));
            ps.push((s.ustarts[i] + s.ulen(i)).saturating_sub(1).min(u.saturating_sub(1)));
        }
        for p in ps {
            if p >= u {
                continue;
            }
            let i = s.ustarts.partition_point(|x| *x <= p) - 1;
            let (r, f) = self.tree.query_with_finder_return::<LengthFinder>(&p);
            let Some(r) = r else { fail!("query({}) of {} gave no result", p, u) };
            if r.cursor.leaf != s.leaves[i] || r.cursor.offset != p - s.ustarts[i] || !r.found {
                fail!("query({}) gave {:?}, but the position is in element #{} ({:?}) at offset {}", p, r, i, s.leaves[i], p - s.ustarts[i]);
            }
            let (pn, slot) = s.parent[i];
            if f.left != p - s.ustarts[i] || f.slot != slot || f.parent.map(ArenaIndex::Internal) != s.nodes[pn as usize].arena {
                fail!("query({}) reached slot {} of node {:?} at offset {}, its state says slot {} of {:?} at offset {}", p, slot, s.nodes[pn as usize].arena, p - s.ustarts[i], f.slot, f.parent, f.left);
            }
            if r.leaf() != r.cursor.leaf || r.offset() != r.cursor.offset || r.arena() != r.cursor.leaf.inner() || r.found() != r.found || r.cursor() != r.cursor {
                fail!("accessors of a query result disagree with it");
            }
            if r.elem(&self.tree).map(|e| &e.toks[..]) != Some(s.leaf_toks(i)) {
                fail!("query({}): the result's element is not element #{}", p, i);
            }
            if self.tree.query::<LengthFinder>(&p) != Some(r) {
                fail!("query({}) differs from the query returning its state", p);
            }
        }
        for over in [0, 1, 5 + salt % 40, [usize::MAX, isize::MAX as usize, 1 << 32, 1 << 16][salt % 4].saturating_sub(u)] {
            let p = u + over;
            let (r, f) = self.tree.query_with_finder_return::<LengthFinder>(&p);
            let Some(r) = r else { fail!("query({}) of {} gave no result", p, u) };
            if r.found {
                fail!("query({}) past the end {} is marked found", p, u);
            }
            let Some(i) = s.idx.get(&r.cursor.leaf) else { fail!("query({}) past the end gave the invalid handle {:?}", p, r) };
            let (pn, slot) = s.parent[*i];
            if f.left != r.cursor.offset || f.slot != slot || f.parent.map(ArenaIndex::Internal) != s.nodes[pn as usize].arena {
                fail!("query({}) past the end {} reached slot {} of node {:?} at offset {}, its state says slot {} of {:?} at offset {}", p, u, slot, s.nodes[pn as usize].arena, r.cursor.offset, f.slot, f.parent, f.left);
            }
            if over == 0 {
                let Some(b) = s.boundary(r.cursor) else { fail!("query(end) gave the invalid cursor {:?}", r) };
                if s.toks[..b].iter().filter(|t| !t.anchor).count() != u {
                    fail!("query({}) at the end denotes token position {} of {}", p, b, s.toks.len());
                }
            }
        }
        // ranges
        for j in 0..3usize {
            let x = (salt * 7 + j * 13) % (u + 1);
            let y = match j {
                0 => x + (salt * 3) % (u + 1 - x),
                1 => u + salt % 5,
                // unordered: still just both ends
                _ => (salt * 3 + 10) % (u + 1),
            };
            let r = self.tree.range::<LengthFinder>(x..y);
            let (q1, q2) = (self.tree.query::<LengthFinder>(&x).unwrap(), self.tree.query::<LengthFinder>(&y).unwrap());
            if r != Some(q1..q2) {
                fail!("range({}..{}) is {:?}, its ends are {:?} and {:?}", x, y, r, q1, q2);
            }
        }
        // a search that chooses freely: one node per level and the element are shown to it, its
        // choices are followed, and what any of its steps missed is not reported as found
        for j in 0..6u32 {
            let arg = FlagArg {
                salt: salt.wrapping_add(j as usize * 7),
                miss: match j {
                    0 => 0,
                    1 => 1,
                    2 => 1 << (s.levels - 1),
                    3 => 1 << 31,
                    4 => 2,
                    _ => salt as u32 & 0x8000_0007,
                },
            };
            let (mut at, mut seen, mut found) = (0usize, vec![], arg.miss >> 31 == 0);
            let leaf = loop {
                let nd = &s.nodes[at];
                let c = arg.choose(seen.len(), nd.kids.len());
                found &= arg.miss >> seen.len() & 1 == 0;
                seen.push(nd.kids.iter().map(|k| k.0).collect::<Vec<_>>());
                if nd.sub.is_empty() {
                    break nd.lo + c;
                }
                at = nd.sub[c];
            };
            let (r, q) = self.tree.query_with_finder_return::<FlagQ>(&arg);
            let ids: Vec<u32> = s.leaf_toks(leaf).iter().map(|t| t.id).collect();
            let want = Cursor { leaf: s.leaves[leaf], offset: arg.offset(ids.len()) };
            if !r.as_ref().is_some_and(|r| r.cursor == want && r.found == found) {
                fail!("a search choosing children freely (missing: {:b}) gave {:?} instead of {:?}, found {}", arg.miss, r, want, found);
            }
            if q.seen != seen || q.confirmed != [ids] {
                fail!("a search choosing children freely was shown {:?} and {:?} on its way to element #{}", q.seen, q.confirmed, leaf);
            }
        }
        // a user-defined search by running total
        let total: i64 = s.toks.iter().map(|t| if t.anchor { 0 } else { t.tag as i64 }).sum();
        for j in 0..8i64 {
            let t = if total == 0 { j } else { (salt as i64 * 31 + j * (total / 8 + 1)) % (total + 2) };
            let mut left = t;
            let mut want = None;
            'o: for i in 0..n {
                for (o, tk) in s.leaf_toks(i).iter().enumerate() {
                    let w = if tk.anchor { 0 } else { tk.tag as i64 };
                    if left < w {
                        want = Some((i, o));
                        break 'o;
                    }
                    left -= w;
                }
            }
            let r = self.tree.query::<TagQ>(&t).unwrap();
            match want {
                Some((i, o)) => {
                    if !r.found || r.cursor != (Cursor { leaf: s.leaves[i], offset: o }) {
                        fail!("search for running total {} gave {:?} instead of element #{} ({:?}) offset {}", t, r, i, s.leaves[i], o);
                    }
                }
                None => {
                    if r.found || r.cursor.leaf != s.leaves[n - 1] {
                        fail!("search for running total {} beyond the total {} gave {:?}", t, total, r);
                    }
                }
            }
        }
        Ok(())
    }

    fn judge_nav(&self, k: usize, salt: usize) -> Result<(), String> {
        let s = &self.snap;
        let n = s.n();
        let t = &self.tree;
        if t.first_leaf() != s.leaves.first().copied() || t.last_leaf() != s.leaves.last().copied() {
            fail!("first/last element are {:?}/{:?}, expected {:?}/{:?}", t.first_leaf(), t.last_leaf(), s.leaves.first(), s.leaves.last());
        }
        let sc = s.leaves.first().map(|l| Cursor { leaf: *l, offset: 0 });
        let ec = s.leaves.last().map(|l| Cursor { leaf: *l, offset: s.ulen(n - 1) });
        if t.start_cursor() != sc || t.end_cursor() != ec {
            fail!("start/end cursor are {:?}/{:?}, expected {:?}/{:?}", t.start_cursor(), t.end_cursor(), sc, ec);
        }
        let mut is = samples(n, k, salt);
        for i in self.region.saturating_sub(8)..(self.region + 9).min(n) {
            is.push(i);
        }
        let u = s.units();
        for &i in &is {
            let l = s.ulen(i);
            for off in [0, l, l / 2, l.saturating_sub(1)] {
                let c = Cursor { leaf: s.leaves[i], offset: off };
                let next = s.leaves.get(i + 1).map(|x| Cursor { leaf: *x, offset: 0 });
                let prev = if i == 0 { None } else { Some(Cursor { leaf: s.leaves[i - 1], offset: 0 }) };
                if t.next_elem(c) != next {
                    fail!("the element after #{} is given as {:?} instead of {:?}", i, t.next_elem(c), next);
                }
                if t.prev_elem(c) != prev {
                    fail!("the element before #{} is given as {:?} instead of {:?}", i, t.prev_elem(c), prev);
                }
                let pr = if off == 0 || off != l { Some(c) } else { next };
                if t.prefer_right(c) != pr {
                    fail!("preferring the right of #{}+{} (length {}) gives {:?} instead of {:?}", i, off, l, t.prefer_right(c), pr);
                }
                let pl = if off != 0 { Some(c) } else { prev.map(|p| Cursor { leaf: p.leaf, offset: s.ulen(i - 1) }) };
                if t.prefer_left(c) != pl {
                    fail!("preferring the left of #{}+{} gives {:?} instead of {:?}", i, off, t.prefer_left(c), pl);
                }
                let p = s.ustarts[i] + off + 1;
                let sh = if p < u {
                    let j = s.ustarts.partition_point(|x| *x <= p) - 1;
                    Some(Cursor { leaf: s.leaves[j], offset: p - s.ustarts[j] })
                } else {
                    None
                };
                let got = t.shift_path_by_one_offset(c);
                if got != sh {
                    fail!("shifting #{}+{} (length {}) by one gives {:?} instead of {:?}", i, off, l, got, sh);
                }
            }
        }
        // comparisons
        let pairs = if n <= 14 { samples(n, n, 0) } else { samples(n, 14, salt) };
        for &i in &pairs {
            for &j in &pairs {
                self.judge_cmp(i, j, salt)?;
            }
        }
        for &i in &is {
            for j in [i + 1, i + 7, i + 40, n - 1] {
                if j < n {
                    self.judge_cmp(i, j, salt)?;
                    self.judge_cmp(j, i, salt)?;
                }
            }
        }
        Ok(())
    }

    fn judge_cmp(&self, i: usize, j: usize, salt: usize) -> Result<(), String> {
        let s = &self.snap;
        let (oi, oj) = (salt % (s.ulen(i) + 1), (salt / 3) % (s.ulen(j) + 1));
        let want: Ordering = (i, oi).cmp(&(j, oj));
        let got = self.tree.compare_pos(Cursor { leaf: s.leaves[i], offset: oi }, Cursor { leaf: s.leaves[j], offset: oj });
        if got != want {
            fail!("comparing #{}+{} with #{}+{} of {} gives {:?}", i, oi, j, oj, s.n(), got);
        }
        Ok(())
    }

    fn judge_prefix(&self, k: usize, salt: usize) -> Result<(), String> {
        let s = &self.snap;
        let n = s.n();
        let mut is = samples(n, k, salt);
        for i in self.region.saturating_sub(4)..(self.region + 5).min(n) {
            is.push(i);
        }
        for i in is {
            let off = (salt / 2) % (s.ulen(i) + 1);
            let mut sums: Vec<B::Cache> = vec![];
            let mut this = 0;
            let mut bad = None;
            self.tree.visit_previous_caches(Cursor { leaf: s.leaves[i], offset: off }, |x| match x {
                PreviousCache::NodeCache(c) => {
                    if this > 0 {
                        bad = Some("a summary after the cursor's own element".to_string());
                    }
                    sums.push(*c)
                }
                PreviousCache::PrevSiblingElem(e) => sums.push(B::leaf(&e.toks)),
                PreviousCache::ThisElemAndOffset { elem, offset } => {
                    this += 1;
                    if elem.toks != s.leaf_toks(i) || offset != off {
                        bad = Some(format!("element {:?} offset {} as the cursor's own", elem, offset));
                    }
                }
            });
            if let Some(b) = bad {
                fail!("visiting the prefix of #{}+{} reported {}", i, off, b);
            }
            if this != 1 {
                fail!("visiting the prefix of #{}+{} reported its own element {} times", i, off, this);
            }
            let want = B::leaf(&s.toks[..s.starts[i]]);
            let got = B::fold(sums.iter());
            if got != want {
                fail!("the summaries before element #{} combine to {:?} instead of {:?}", i, got, want);
            }
            // siblings to the left on the way down
            let (mut nd, mut max) = (0usize, 0usize);
            loop {
                let x = &s.nodes[nd];
                if x.sub.is_empty() {
                    max += i - x.lo;
                    break;
                }
                let j = x.sub.iter().position(|&y| s.nodes[y].hi > i).unwrap();
                max += j;
                nd = x.sub[j];
            }
            if sums.len() > max {
                fail!("visiting the prefix of element #{} of {} reported {} summaries, {} siblings lie to the left", i, n, sums.len(), max);
            }
            // inverse of the position query
            if off < s.ulen(i) {
                let p = (B::len_of(&got) as usize) + off;
                let q = self.tree.query::<LengthFinder>(&p);
                if q.map(|q| q.cursor) != Some(Cursor { leaf: s.leaves[i], offset: off }) {
                    fail!("position {} computed for #{}+{} is found at {:?}", p, i, off, q);
                }
            }
        }
        Ok(())
    }

    fn judge_iter(&self, k: usize, salt: usize) -> Result<(), String> {
        let s = &self.snap;
        let n = s.n();
        let mut i = 0;
        for e in self.tree.iter() {
            if i >= n || e.toks != s.leaf_toks(i) {
                fail!("iteration gives {:?} as element #{} of {}", e, i, n);
            }
            i += 1;
        }
        if i != n {
            fail!("iteration gives {} of {} elements", i, n);
        }
        let all: Vec<_> = self.tree.iter_range(..).take(n + 2).map(|x| (x.cursor().leaf, x.cursor().offset, x.start, x.end)).collect();
        if all.len() != n || all.iter().enumerate().any(|(i, x)| x.0 != s.leaves[i] || x.1 != 0) {
            fail!("iterating over the unbounded range gives {} of {} elements", all.len(), n);
        }
        if n <= 150 && (self.opno + salt) % 4 == 0 {
            // the printed listing names the same elements in the same order, each once
            let d = format!("{:?}", self.tree);
            let mut at = 0;
            for i in 0..n {
                let e = format!("{:?}", self.tree.get_elem(s.leaves[i]).unwrap());
                match d[at..].find(&e) {
                    Some(x) if n > 40 || d.matches(&e).count() == 1 => at += x + e.len(),
                    _ => fail!("the printed listing does not name element #{} ({}) of {} once and in order:\n{}", i, e, n, d),
                }
            }
        }
        if n == 0 {
            return Ok(());
        }
        let is = samples(n, k, salt);
        for (x, &i) in is.iter().enumerate() {
            for y in 0..3usize {
                let j = match (x + y + salt) % 4 {
                    0 => i,
                    1 => (i + 1).min(n - 1),
                    2 => (i + 13 + y).min(n - 1),
                    _ => i + (salt * 3 + y * 11) % (n - i),
                };
                let oi = [0, s.ulen(i), s.ulen(i) / 2][(salt + y) % 3];
                let mut oj = [s.ulen(j), 0, s.ulen(j) / 2][(salt / 3 + x) % 3];
                if i == j {
                    oj = oj.max(oi);
                }
                let a = Cursor { leaf: s.leaves[i], offset: oi };
                let b = Cursor { leaf: s.leaves[j], offset: oj };
                self.judge_range((i, oi, Some(a)), (j, oj, Some(b)), false)?;
                self.judge_range((i, oi, Some(a)), (j, oj, Some(b)), true)?;
                if y == 0 {
                    self.judge_range((i, oi, Some(a)), (n - 1, s.ulen(n - 1), None), true)?;
                    self.judge_range((0, 0, None), (j, oj, Some(b)), false)?;
                    self.judge_range((0, 0, None), (j, oj, Some(b)), true)?;
                }
            }
        }
        Ok(())
    }

    fn judge_range(&self, x: (usize, usize, Option<Cursor>), y: (usize, usize, Option<Cursor>), incl: bool) -> Result<(), String> {
        use std::ops::Bound::*;
        let s = &self.snap;
        let lo = x.2.map_or(Unbounded, Included);
        let hi = y.2.map_or(Unbounded, |c| if incl { Included(c) } else { Excluded(c) });
        // an exclusive end at offset 0 leaves its element out
        let last = if !incl && y.2.is_some() && y.1 == 0 { y.0 as isize - 1 } else { y.0 as isize };
        let want: Vec<usize> = if last < x.0 as isize { vec![] } else { (x.0..=last as usize).collect() };
        let mut m = 0;
        for (m_, sl) in self.tree.iter_range((lo, hi)).enumerate() {
            let Some(&i) = want.get(m_) else {
                fail!("iterating over #{}+{}..#{}+{} (inclusive: {}) yields more than {} elements", x.0, x.1, y.0, y.1, incl, want.len());
            };
            if sl.cursor().leaf != s.leaves[i] || sl.cursor().offset != 0 || sl.elem.toks != s.leaf_toks(i) {
                fail!("iterating over #{}+{}..#{}+{} yields {:?} where #{} was due", x.0, x.1, y.0, y.1, sl.elem, i);
            }
            let st = if i == x.0 { Some(x.1) } else { None };
            let en = if i == y.0 { Some(y.1) } else { None };
            if sl.start != st || sl.end != en {
                fail!("iterating over #{}+{}..#{}+{} marks element #{} with start {:?} end {:?}", x.0, x.1, y.0, y.1, i, sl.start, sl.end);
            }
            m += 1;
        }
        if m != want.len() {
            fail!("iterating over #{}+{}..#{}+{} (inclusive: {}) yields {} of {} elements", x.0, x.1, y.0, y.1, incl, m, want.len());
        }
        Ok(())
    }

    fn judge_filter(&self, salt: usize) -> Result<(), String> {
        for v in 0..5usize {
            let m = 2 + ((salt + v) % 3) as i64;
            let accept = |c: &B::Cache| match v {
                0 => true,
                1 => B::tags_of(c) > 0,
                2 => B::len_of(c).rem_euclid(m) != 0,
                3 => B::len_of(c) >= m,
                _ => false,
            };
            let val = |c: &B::Cache| (B::len_of(c) * 1000 + B::tags_of(c)) as u64;
            let mut want: Vec<(u64, usize)> = vec![];
            self.filter_iter_sim(0, 0, &accept, &val, &mut want);
            let mut i = 0;
            for (acc, e) in self.tree.iter_with_filter(|c| (accept(c), val(c))) {
                let Some(&(w, li)) = want.get(i) else {
                    fail!("filtered iteration {} yields more than {} elements", v, want.len());
                };
                if e.toks != self.snap.leaf_toks(li) || acc != w {
                    fail!("filtered iteration {} yields {:?} with {} where {:?} with {} was due", v, e, acc, self.snap.leaf_toks(li), w);
                }
                i += 1;
            }
            if i != want.len() {
                fail!("filtered iteration {} yields {} of {} elements", v, i, want.len());
            }
        }
        self.judge_filter_once(salt)
    }
    /// A filter that refuses every summary it has seen before. Where all summaries differ, except along
    /// nodes with a single child, this refuses exactly the single children, in whatever order the tree is visited.
    fn judge_filter_once(&self, salt: usize) -> Result<(), String> {
        if self.snap.n() > 300 || salt % 3 != 0 {
            return Ok(());
        }
        let mut seen: HashSet<String> = HashSet::new();
        let mut want: Vec<usize> = vec![];
        // (node, its own summary, whether it is entered)
        let mut todo: Vec<(usize, Option<B::Cache>, bool)> = vec![(0, None, true)];
        let mut only = 0;
        while let Some((node, own, entered)) = todo.pop() {
            let nd = &self.snap.nodes[node];
            for (j, (_, c)) in nd.kids.iter().enumerate() {
                let again = own.is_some_and(|o| o == *c);
                if again {
                    if nd.kids.len() != 1 {
                        return Ok(());
                    }
                    only += 1;
                } else if !seen.insert(format!("{:?}", c)) {
                    return Ok(());
                }
                let go = entered && !again;
                if nd.sub.is_empty() {
                    if go {
                        want.push(nd.lo + j);
                    }
                } else {
                    todo.push((nd.sub[j], Some(*c), go));
                }
            }
        }
        want.sort();
        if only > 0 {
            hit("filter refused single children");
        }
        let mut seen: HashSet<String> = HashSet::new();
        let got: Vec<Vec<Tok>> = self.tree.iter_with_filter(|c| (seen.insert(format!("{:?}", c)), 0u64)).map(|(_, e)| e.toks.clone()).collect();
        if got.len() != want.len() || got.iter().zip(&want).any(|(g, &i)| g != self.snap.leaf_toks(i)) {
            fail!("iteration with a filter that refuses every summary seen before yields {:?} instead of elements {:?}", got, want);
        }
        Ok(())
    }
    fn filter_iter_sim(&self, node: usize, acc0: u64, accept: &impl Fn(&B::Cache) -> bool, val: &impl Fn(&B::Cache) -> u64, out: &mut Vec<(u64, usize)>) {
        let nd = &self.snap.nodes[node];
        let mut acc = acc0;
        for (j, (_, c)) in nd.kids.iter().enumerate() {
            if accept(c) {
                if nd.sub.is_empty() {
                    out.push((acc, nd.lo + j));
                } else {
                    self.filter_iter_sim(nd.sub[j], acc, accept, val, out);
                }
            }
            acc += val(c);
        }
    }

    fn judge_clones(&self) -> Result<(), String> {
        for (t, s, dead) in &self.clones {
            let now = walk::<B>(t)?;
            same_snap(s, &now, "a clone after operations on the other tree", true)?;
            let sum = B::leaf(&s.toks);
            if *t.root_cache() != sum {
                fail!("the summary of a clone became {:?} instead of {:?}", t.root_cache(), sum);
            }
            if t.node_len() != s.nodes.len() + s.n() {
                fail!("the number of nodes of a clone became {}", t.node_len());
            }
            for h in dead.iter().take(8) {
                if t.get_elem(*h).is_some() {
                    fail!("a removed handle denotes an element in a clone");
                }
            }
            if self.opno % 7 == 0 {
                t.check();
            }
        }
        Ok(())
    }

    /// thorough look at the last state
    fn finish(&mut self) -> Result<(), String> {
        let o = self.spec.oracles;
        if o & O_STRUCT != 0 {
            self.tree.check();
        }
        if o & O_QUERY != 0 {
            self.judge_query(800, 1)?;
        }
        if o & O_NAV != 0 {
            self.judge_nav(400, 1)?;
        }
        if o & O_PREFIX != 0 {
            self.judge_prefix(300, 1)?;
        }
        if o & O_ITER != 0 {
            self.judge_iter(16, 1)?;
        }
        if o & O_CLONES != 0 {
            // the other trees must be usable as well
            for (t, s, _) in &mut self.clones {
                let at = s.toks.len();
                let tok = Tok { id: u32::MAX - 7, tag: 1, mark: 0, anchor: false };
                let el = El { toks: vec![tok], cfg: Cfg { merge: Merge::Never, cap: 1, ti: 0 } };
                let c = t.push(el);
                let now = walk::<B>(t)?;
                if now.toks.len() != at + 1 || now.toks[..at] != s.toks[..] || now.boundary(c) != Some(at) {
                    fail!("pushing to a clone did not append");
                }
                t.check();
            }
        }
        Ok(())
    }
}

fn pre_has<C>(pre: &Snap<C>, id: u32) -> bool {
    pre.toks.iter().any(|t| t.id == id)
}

fn same_snap<C: PartialEq + std::fmt::Debug>(a: &Snap<C>, b: &Snap<C>, what: &str, shape: bool) -> Result<(), String> {
    if a.toks != b.toks || a.starts != b.starts {
        fail!("{}: content differs", what);
    }
    if a.leaves != b.leaves {
        fail!("{}: handles differ", what);
    }
    if shape {
        if a.nodes.len() != b.nodes.len() {
            fail!("{}: structure differs", what);
        }
        for (x, y) in a.nodes.iter().zip(&b.nodes) {
            if x.arena != y.arena || x.kids != y.kids {
                fail!("{}: structure or summaries differ: {:?} / {:?}", what, x.kids, y.kids);
            }
        }
    }
    Ok(())
}

fn digest<C>(k: u8, eff: &Effect, post: &Snap<C>) -> (u8, u64, u64) {
    use std::hash::{Hash, Hasher};
    let mut h = Fx::default();
    for t in &post.toks {
        h.write_u64((t.id as u64) << 20 | (t.tag as u64) << 10 | (t.mark as u64) << 1 | t.anchor as u64);
    }
    post.starts.iter().for_each(|x| h.write_usize(*x));
    post.nodes.iter().for_each(|n| h.write_usize(n.kids.len()));
    eff.cursor.map(|c| post.boundary(c.0)).hash(&mut h);
    eff.reported.iter().for_each(|l| post.idx.get(l).hash(&mut h));
    let shape = h.finish();
    post.leaves.hash(&mut h);
    eff.reported.hash(&mut h);
    (k, shape, h.finish())
}

/// The same history three times: as it is, again, and going on with a clone before every operation.
/// `None`: the history fails by itself, which is another property's business.
pub fn run_twice(spec: &MachineSpec, case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<Option<CaseInfo>, String> {
    let once = |trace: bool, reclone: bool, out: &mut Vec<String>| {
        DIGESTS.with(|d| *d.borrow_mut() = Some(vec![]));
        RECLONE.with(|r| r.set(reclone));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(spec, case, trace, big, out))).unwrap_or_else(|_| Err("a panic".into()));
        RECLONE.with(|r| r.set(false));
        (r, DIGESTS.with(|d| d.borrow_mut().take()).unwrap())
    };
    let (r1, d1) = once(trace, false, out);
    let Ok(info) = r1 else { return Ok(None) };
    // counted once
    let stats = STATS.with(|s| s.borrow().clone());
    // a recorded case is tried more often: what differs may depend on the process
    for i in 0..if trace { 60 } else { 2 } {
        let (reclone, how) = [(false, "run again"), (true, "continued on a clone of the tree before every operation")][i % 2];
        let (r, d) = once(false, reclone, &mut vec![]);
        let at = d1.iter().zip(&d).position(|(x, y)| x.0 != y.0 || x.1 != y.1 || !reclone && x.2 != y.2);
        if let Some(i) = at {
            let what = if d1[i].1 != d[i].1 { "content, element boundaries, node sizes or reported positions differ" } else { "handles differ" };
            fail!("the same history, {}: after operation {} ({}) {}", how, i + 1, KIND_NAMES[d[i].0 as usize], what);
        }
        if let Err(e) = r {
            fail!("the same history, {}, fails: {}", how, e);
        }
        if d1.len() != d.len() {
            fail!("the same history, {}, has {} operations instead of {}", how, d.len(), d1.len());
        }
    }
    STATS.with(|s| *s.borrow_mut() = stats);
    Ok(Some(info))
}

pub fn depth_bound(n: usize) -> usize {
    // half-full nodes would give log_6; the bound is about log_4, with slack
    let log2_up = (usize::BITS - (n - 1).leading_zeros()) as usize;
    (1 + log2_up).min(2 + log2_up.div_ceil(2))
}
fn bucket(n: usize) -> usize {
    n.next_power_of_two()
}

const LEVEL_KEYS: [&str; 5] = [
    "judged operation on an empty tree", "judged operation at 1 level", "judged operation at 2 levels",
    "judged operation at 3 levels", "judged operation at 4+ levels",
];
const OP_KEYS: [&str; NKINDS] = [
    "op push", "op prepend", "op insert", "op insert-at-query", "op batch", "op remove", "op drain", "op drain-by-query",
    "op update", "op update-leaf", "op update-by-search", "op update-ranges", "op elem-mut", "op elem-mut+recache",
    "op filtered-update", "op clone", "op swap-with-clone", "op clear", "op remove-dead", "op collect", "op sparsify",
];
const EFF_KEYS: [&str; NKINDS] = [
    "effective push", "effective prepend", "effective insert", "effective insert-at-query", "effective batch", "effective remove", "effective drain", "effective drain-by-query",
    "effective update", "effective update-leaf", "effective update-by-search", "effective update-ranges", "effective elem-mut", "effective elem-mut+recache",
    "effective filtered-update", "effective clone", "effective swap-with-clone", "effective clear", "effective remove-dead", "effective collect", "effective sparsify",
];

fn run_variant<B: Variant>(spec: &MachineSpec, case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String>
where
    B::Cache: Copy + PartialEq + std::fmt::Debug,
{
    begin_case(spec.focus.is_empty());
    let mut m = M::<B>::new(spec, case, trace);
    m.log(|| format!("tree of {} with {:?}", B::NAME, m_cfg(case)));
    let r = (|| {
        m.build(case, big)?;
        for op in &case.ops {
            // in large trees repeat less, to keep the cost of a case bounded
            let rep = if m.snap.n() > 1000 { (op.rep as usize).min(2) } else { op.rep as usize };
            if op.k == SPARSE {
                m.sparsify(op, spec.focus)?;
                continue;
            }
            for r in 0..rep.max(1) {
                m.exec(op, r)?;
            }
        }
        m.finish()
    })();
    if let Some(t) = m.trace.take() {
        *out = t;
    }
    r?;
    STATS.with(|s| {
        let mut s = s.borrow_mut();
        s.hit(match m.max_levels {
            0 => "case reached 0 levels",
            1 => "case reached 1 level",
            2 => "case reached 2 levels",
            3 => "case reached 3 levels",
            4 => "case reached 4 levels",
            _ => "case reached 5+ levels",
        });
        s.hit(B::NAME);
    });
    Ok(CaseInfo { nontrivial: m.focus_done >= 3 && m.max_levels >= 2, trace: vec![] })
}

fn m_cfg(case: &Case) -> String {
    let c = &case.cfg;
    format!("element config {} profile {}", c[1], c[2])
}

/// spec.focus empty: state property
pub fn run(spec: &MachineSpec, case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    begin_case(spec.focus.is_empty());
    match case.cfg[0] % 4 {
        0 | 1 => run_variant::<Add>(spec, case, trace, big, out),
        2 => run_variant::<Fold>(spec, case, trace, big, out),
        _ => run_variant::<AddNoDiff>(spec, case, trace, big, out),
    }
}

/// Weighted kind table: base weights, focus kinds boosted.
pub fn kinds(focus: &[u8], extra: &[(u8, u32)]) -> Vec<(u8, u32)> {
    let mut w: BTreeMap<u8, u32> = [
        (PUSH, 4), (PREPEND, 3), (INSERT, 10), (INSERT_Q, 4), (BATCH, 4), (REMOVE, 8), (DRAIN, 6), (DRAIN_Q, 2),
        (UPDATE, 6), (UPLEAF, 8), (UPSEARCH, 6), (UPRANGES, 4), (MARK, 1), (RECACHE, 2), (FILTERUP, 1), (CLONE, 1), (SWAP, 1),
        (COLLECT, 1), (REMOVE_DEAD, 1), (SPARSE, 2),
    ].into_iter().collect();
    for k in focus {
        *w.entry(*k).or_default() += 60 / focus.len() as u32;
    }
    for (k, x) in extra {
        *w.entry(*k).or_default() += x;
    }
    w.into_iter().collect()
}
