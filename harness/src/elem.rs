//! A universal element type whose merge / absorb behaviour is configured per case, and three
//! tree variants (difference-maintained, recomputed, recomputed and order-dependent summaries).
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTreeTrait, Child, FindResult, Query, UseLengthFinder};
use std::cell::Cell;
use std::ops::Range;

thread_local! {
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static KIDS: Cell<u64> = const { Cell::new(0) };
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// count one call of a user-supplied function
#[inline]
pub fn tick() {
    TICKS.with(|t| {
        let v = t.get() + 1;
        t.set(v);
        if v > FUEL.with(|f| f.get()) {
            FUEL.with(|f| f.set(u64::MAX));
            panic!("an operation called user-supplied functions more than the step budget allows (runaway operation)");
        }
    })
}
#[inline]
fn kids(n: usize) {
    KIDS.with(|t| t.set(t.get() + n as u64))
}
/// what every element may rely on when its functions are called
pub const CONTRACT: &str = "element contract broken: ";
fn contract(ok: bool, what: &str) {
    if !ok {
        panic!("{}{}", CONTRACT, what);
    }
}
pub fn reset_ticks() {
    TICKS.with(|t| t.set(0));
    KIDS.with(|t| t.set(0));
    FUEL.with(|f| f.set(20_000_000));
}
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}
pub fn kid_ticks() -> u64 {
    KIDS.with(|t| t.get())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Merge {
    Never,
    Contig,
    SameTag,
    Size,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub merge: Merge,
    /// largest number of units a merge may produce
    pub cap: u16,
    /// largest number of units an absorbing insert may produce, 0 = never absorb
    pub ti: u16,
}

/// One unit of content. `anchor` units have no length. `mark` is not part of any summary, and
/// some anchors have no part in any summary either.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Tok {
    pub id: u32,
    pub tag: u8,
    pub mark: u8,
    pub anchor: bool,
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "{}{}.{}{}",
            if self.anchor { "@" } else { "" },
            self.id,
            self.tag,
            if self.mark == 0 { String::new() } else { format!("!{}", self.mark) }
        )
    }
}

impl Tok {
    pub fn light(&self) -> bool {
        self.anchor && self.id % 4 == 3
    }
}

/// Either a run of units, or one anchor (length 0, but not removable), or empty (removable).
#[derive(Clone, PartialEq, Eq)]
pub struct El {
    pub toks: Vec<Tok>,
    pub cfg: Cfg,
}
impl std::fmt::Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.toks)
    }
}
impl El {
    pub fn is_anchor(&self) -> bool {
        self.toks.first().is_some_and(|t| t.anchor)
    }
    pub fn ulen(&self) -> usize {
        if self.is_anchor() {
            0
        } else {
            self.toks.len()
        }
    }
    pub fn would_merge(&self, rhs: &Self) -> bool {
        if self.cfg.merge == Merge::Never || self.is_anchor() || rhs.is_anchor() {
            return false;
        }
        if self.toks.len() + rhs.toks.len() > self.cfg.cap as usize {
            return false;
        }
        let (Some(l), Some(r)) = (self.toks.last(), rhs.toks.first()) else {
            return true;
        };
        match self.cfg.merge {
            Merge::Never => false,
            Merge::Contig => l.id + 1 == r.id && l.tag == r.tag,
            Merge::SameTag => l.tag == r.tag,
            Merge::Size => true,
        }
    }
    pub fn would_absorb(&self, other: &Self) -> bool {
        self.cfg.ti > 0
            && !self.is_anchor()
            && !other.is_anchor()
            && self.toks.len() + other.toks.len() <= self.cfg.ti as usize
    }
}
impl HasLength for El {
    fn rle_len(&self) -> usize {
        tick();
        self.ulen()
    }
}
impl Sliceable for El {
    fn _slice(&self, range: Range<usize>) -> Self {
        tick();
        if self.is_anchor() {
            contract(range.start == 0 && range.end == 0, "a zero-length element was sliced out of its bounds");
            return self.clone();
        }
        contract(range.start <= range.end && range.end <= self.toks.len(), "an element was sliced out of its bounds");
        El {
            toks: self.toks[range].to_vec(),
            cfg: self.cfg,
        }
    }
}
impl Mergeable for El {
    fn can_merge(&self, rhs: &Self) -> bool {
        tick();
        self.would_merge(rhs)
    }
    fn merge_right(&mut self, rhs: &Self) {
        tick();
        contract(self.would_merge(rhs), "merge_right of elements that cannot merge");
        self.toks.extend_from_slice(&rhs.toks);
    }
    fn merge_left(&mut self, left: &Self) {
        tick();
        contract(left.would_merge(self), "merge_left of elements that cannot merge");
        self.toks.splice(0..0, left.toks.iter().copied());
    }
}
impl TryInsert for El {
    fn try_insert(&mut self, pos: usize, elem: Self) -> Result<(), Self> {
        tick();
        contract(pos <= self.ulen(), "an element was asked to absorb another one beyond its bounds");
        if self.would_absorb(&elem) {
            self.toks.splice(pos..pos, elem.toks);
            Ok(())
        } else {
            Err(elem)
        }
    }
}
impl CanRemove for El {
    fn can_remove(&self) -> bool {
        tick();
        self.toks.is_empty()
    }
}

// ---------------------------------------------------------------- summaries

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Sum {
    pub len: i64,
    pub tags: i64,
    pub ids: i64,
    pub anchors: i64,
}
impl Sum {
    pub fn of(toks: &[Tok]) -> Sum {
        let mut s = Sum::default();
        for t in toks.iter().filter(|t| !t.light()) {
            if t.anchor {
                s.anchors += 1;
            } else {
                s.len += 1;
                s.tags += t.tag as i64;
            }
            s.ids = s.ids.wrapping_add((t.id as i64 + 1).wrapping_mul(t.id as i64 + 7));
        }
        s
    }
    fn add(&mut self, o: &Sum) {
        self.len = self.len.wrapping_add(o.len);
        self.tags = self.tags.wrapping_add(o.tags);
        self.ids = self.ids.wrapping_add(o.ids);
        self.anchors = self.anchors.wrapping_add(o.anchors);
    }
    pub fn minus(&self, o: &Sum) -> Sum {
        Sum {
            len: self.len.wrapping_sub(o.len),
            tags: self.tags.wrapping_sub(o.tags),
            ids: self.ids.wrapping_sub(o.ids),
            anchors: self.anchors.wrapping_sub(o.anchors),
        }
    }
}
impl CanRemove for Sum {
    fn can_remove(&self) -> bool {
        *self == Sum::default()
    }
}

/// order-dependent summary: polynomial hash of the token sequence
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Poly {
    pub len: i64,
    pub tags: i64,
    pub h: u64,
    pub pw: u64,
    pub first: Option<u32>,
    pub last: Option<u32>,
}
impl Default for Poly {
    fn default() -> Self {
        Poly { len: 0, tags: 0, h: 0, pw: 1, first: None, last: None }
    }
}
const PB: u64 = 0x9E37_79B9_7F4A_7C15;
impl Poly {
    fn cat(&self, o: &Poly) -> Poly {
        Poly {
            len: self.len + o.len,
            tags: self.tags + o.tags,
            h: self.h.wrapping_mul(o.pw).wrapping_add(o.h),
            pw: self.pw.wrapping_mul(o.pw),
            first: self.first.or(o.first),
            last: o.last.or(self.last),
        }
    }
    fn of(toks: &[Tok]) -> Poly {
        let mut p = Poly::default();
        for t in toks.iter().filter(|t| !t.light()) {
            let x = (t.id as u64 + 1) << 10 | (t.tag as u64) << 1 | t.anchor as u64;
            p = p.cat(&Poly {
                len: !t.anchor as i64,
                tags: if t.anchor { 0 } else { t.tag as i64 },
                h: x,
                pw: PB,
                first: Some(t.id),
                last: Some(t.id),
            });
        }
        p
    }
}

pub trait Variant: BTreeTrait<Elem = El> + UseLengthFinder<Self> + Sized + 'static
where
    Self::Cache: Copy + PartialEq + std::fmt::Debug,
{
    /// summaries can be maintained by explicit differences
    const DIFFS: bool;
    const NAME: &'static str;
    fn leaf(toks: &[Tok]) -> Self::Cache;
    fn fold<'a>(it: impl Iterator<Item = &'a Self::Cache>) -> Self::Cache
    where
        Self::Cache: 'a;
    fn len_of(c: &Self::Cache) -> i64;
    fn tags_of(c: &Self::Cache) -> i64;
    /// the difference new - old
    fn diff(new: &Self::Cache, old: &Self::Cache) -> Self::CacheDiff;
    /// every tag below was multiplied (used by filtered updates)
    fn scale_tags(c: &mut Self::Cache, by: i64);
}

macro_rules! additive {
    ($name:ident, $use_diff:expr, $label:expr) => {
        #[derive(Debug)]
        pub struct $name;
        impl BTreeTrait for $name {
            type Elem = El;
            type Cache = Sum;
            type CacheDiff = Sum;
            const USE_DIFF: bool = $use_diff;
            fn calc_cache_internal(cache: &mut Sum, caches: &[Child<Self>]) -> Sum {
                tick();
                kids(caches.len());
                let new = Self::fold(caches.iter().map(|c| &c.cache));
                let d = new.minus(cache);
                *cache = new;
                d
            }
            fn apply_cache_diff(cache: &mut Sum, diff: &Sum) {
                tick();
                cache.add(diff);
            }
            fn merge_cache_diff(d1: &mut Sum, d2: &Sum) {
                tick();
                d1.add(d2);
            }
            fn get_elem_cache(elem: &El) -> Sum {
                tick();
                Sum::of(&elem.toks)
            }
            fn new_cache_to_diff(cache: &Sum) -> Sum {
                *cache
            }
            fn sub_cache(l: &Sum, r: &Sum) -> Sum {
                l.minus(r)
            }
        }
        impl UseLengthFinder<Self> for $name {
            fn get_len(cache: &Sum) -> usize {
                cache.len as usize
            }
        }
        impl Variant for $name {
            const DIFFS: bool = true;
            const NAME: &'static str = $label;
            fn leaf(toks: &[Tok]) -> Sum {
                Sum::of(toks)
            }
            fn fold<'a>(it: impl Iterator<Item = &'a Sum>) -> Sum {
                let mut s = Sum::default();
                for c in it {
                    s.add(c);
                }
                s
            }
            fn len_of(c: &Sum) -> i64 {
                c.len
            }
            fn tags_of(c: &Sum) -> i64 {
                c.tags
            }
            fn diff(new: &Sum, old: &Sum) -> Sum {
                new.minus(old)
            }
            fn scale_tags(c: &mut Sum, by: i64) {
                c.tags *= by;
            }
        }
    };
}
additive!(Add, true, "diff-sum");
additive!(AddNoDiff, false, "recomputed-sum");

#[derive(Debug)]
pub struct Fold;
impl BTreeTrait for Fold {
    type Elem = El;
    type Cache = Poly;
    type CacheDiff = ();
    const USE_DIFF: bool = false;
    fn calc_cache_internal(cache: &mut Poly, caches: &[Child<Self>]) {
        tick();
        kids(caches.len());
        *cache = Self::fold(caches.iter().map(|c| &c.cache));
    }
    fn apply_cache_diff(_: &mut Poly, _: &()) {
        tick();
    }
    fn merge_cache_diff(_: &mut (), _: &()) {
        tick();
    }
    fn get_elem_cache(elem: &El) -> Poly {
        tick();
        Poly::of(&elem.toks)
    }
    fn new_cache_to_diff(_: &Poly) {}
    fn sub_cache(_: &Poly, _: &Poly) {}
}
impl UseLengthFinder<Self> for Fold {
    fn get_len(cache: &Poly) -> usize {
        cache.len as usize
    }
}
impl Variant for Fold {
    const DIFFS: bool = false;
    const NAME: &'static str = "ordered-hash";
    fn leaf(toks: &[Tok]) -> Poly {
        Poly::of(toks)
    }
    fn fold<'a>(it: impl Iterator<Item = &'a Poly>) -> Poly {
        let mut s = Poly::default();
        for c in it {
            s = s.cat(c);
        }
        s
    }
    fn len_of(c: &Poly) -> i64 {
        c.len
    }
    fn tags_of(c: &Poly) -> i64 {
        c.tags
    }
    fn diff(_: &Poly, _: &Poly) {}
    fn scale_tags(c: &mut Poly, by: i64) {
        c.tags *= by;
    }
}

// ---------------------------------------------------------------- user-defined searches

/// Descends along a fixed path of child slots and records the children seen at the last level.
pub struct WalkQ<B: Variant>
where
    B::Cache: Copy + PartialEq + std::fmt::Debug,
{
    level: usize,
    pub kids: Vec<(generic_btree::ArenaIndex, B::Cache)>,
}
impl<B: Variant> Query<B> for WalkQ<B>
where
    B::Cache: Copy + PartialEq + std::fmt::Debug,
{
    type QueryArg = Vec<u8>;
    fn init(_: &Vec<u8>) -> Self {
        WalkQ { level: 0, kids: vec![] }
    }
    fn find_node(&mut self, path: &Vec<u8>, ch: &[Child<B>]) -> FindResult {
        assert!(!ch.is_empty(), "a search was shown an inner node without children");
        assert!(self.level < 40, "a search went more than 40 levels deep");
        let i = if self.level < path.len() {
            path[self.level] as usize
        } else {
            if self.level == path.len() {
                self.kids = ch.iter().map(|c| (c.arena, c.cache)).collect();
            }
            0
        };
        assert!(i < ch.len(), "children of a node changed between two searches of the same tree");
        self.level += 1;
        FindResult::new_found(i, 0)
    }
    fn confirm_elem(&mut self, _: &Vec<u8>, _: &El) -> (usize, bool) {
        (0, true)
    }
}

/// Finds the unit at which the running total of tags first exceeds the target.
pub struct TagQ {
    left: i64,
}
impl<B: Variant> Query<B> for TagQ
where
    B::Cache: Copy + PartialEq + std::fmt::Debug,
{
    type QueryArg = i64;
    fn init(t: &i64) -> Self {
        TagQ { left: *t }
    }
    fn find_node(&mut self, _: &i64, ch: &[Child<B>]) -> FindResult {
        tick();
        for (i, c) in ch.iter().enumerate() {
            let t = B::tags_of(&c.cache);
            if self.left < t {
                return FindResult::new_found(i, 0);
            }
            self.left -= t;
        }
        // beyond the end: go on in the last child
        self.left += B::tags_of(&ch.last().unwrap().cache);
        FindResult::new_missing(ch.len() - 1, 0)
    }
    fn confirm_elem(&mut self, _: &i64, e: &El) -> (usize, bool) {
        for (i, t) in e.toks.iter().enumerate() {
            let w = if t.anchor { 0 } else { t.tag as i64 };
            if self.left < w {
                return (i, true);
            }
            self.left -= w;
        }
        (e.ulen(), false)
    }
}

/// Goes where a hash of the level says, and claims to have missed the target at chosen levels.
pub struct FlagQ {
    level: usize,
    pub seen: Vec<Vec<generic_btree::ArenaIndex>>,
    pub confirmed: Vec<Vec<u32>>,
}
#[derive(Clone)]
pub struct FlagArg {
    pub salt: usize,
    /// bit l: level l misses; bit 31: the element misses
    pub miss: u32,
}
impl FlagArg {
    pub fn choose(&self, level: usize, n: usize) -> usize {
        match self.salt % 5 {
            0 => 0,
            1 => n - 1,
            _ => (self.salt / 5).wrapping_mul(2 * level + 1) % 1009 % n,
        }
    }
    pub fn offset(&self, toks: usize) -> usize {
        self.salt % 7 + toks
    }
}
impl<B: Variant> Query<B> for FlagQ
where
    B::Cache: Copy + PartialEq + std::fmt::Debug,
{
    type QueryArg = FlagArg;
    fn init(_: &FlagArg) -> Self {
        FlagQ { level: 0, seen: vec![], confirmed: vec![] }
    }
    fn find_node(&mut self, a: &FlagArg, ch: &[Child<B>]) -> FindResult {
        assert!(!ch.is_empty(), "a search was shown an inner node without children");
        self.seen.push(ch.iter().map(|c| c.arena).collect());
        let i = a.choose(self.level, ch.len());
        let miss = a.miss >> self.level & 1 == 1;
        self.level += 1;
        if miss {
            FindResult::new_missing(i, self.level)
        } else {
            FindResult::new_found(i, self.level)
        }
    }
    fn confirm_elem(&mut self, a: &FlagArg, e: &El) -> (usize, bool) {
        self.confirmed.push(e.toks.iter().map(|t| t.id).collect());
        (a.offset(e.toks.len()), a.miss >> 31 == 0)
    }
}
