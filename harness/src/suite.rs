//! Which machinery decides which property.
use crate::case::Case;
use crate::machine::{self as m, MachineSpec};
use crate::stats::{CaseInfo, CUR_OP, FOCUS_SEEN};
use crate::{big, ord, rangemap, rle, rope, sorted};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum Kind {
    Machine(MachineSpec),
    /// the machine and, for every fourth case, comparison counting in the ordered map
    Cost(MachineSpec),
    /// the machine; only what breaks the contract with the elements counts
    Contract(MachineSpec),
    /// the machine, the same history several times
    Twice(MachineSpec),
    Map,
    Set,
    Rope,
    Rle,
    RangeMap,
    Sorted,
    Big,
    Mem,
    Wide,
}

pub struct Suite {
    pub id: &'static str,
    pub kind: Kind,
    pub kinds: Vec<(u8, u32)>,
    pub max_ops: usize,
    /// cases per run: quick, thorough
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

const OP_RULE: &str = "Random histories (proptest: element type, summary kind and merge behaviour drawn per case; initial tree of 0-600, sometimes 800-2000 (thorough: 600-2500), rarely up to 8900 (thorough: 14600) elements built by collect, push, prepend or batch; then up to 3x the nominal number of operations of 20 kinds with repetition, biased to element edges and to the place of the last change). Non-trivial: at least 3 effective operations of the kinds the property is about, on a tree that reached at least 2 levels of inner nodes; distinct by the hash of the whole case.";
const STATE_RULE: &str = "Random histories (proptest: element type, summary kind and merge behaviour drawn per case; initial tree of 0-600, sometimes 800-2000 (thorough: 600-2500), rarely up to 8900 (thorough: 14600) elements built by collect, push, prepend or batch; then up to 3x the nominal number of operations of 20 kinds with repetition); the property is judged in every state reached. Non-trivial: at least 3 operations executed and the tree reached at least 2 levels of inner nodes; distinct by the hash of the whole case.";

pub fn suite(id: &str) -> Option<Suite> {
    use m::*;
    fn op(id: &'static str, focus: &'static [u8], oracles: u32, max_ops: usize, quick: u64) -> Suite {
        let shrinks = matches!(id, "C04" | "C05" | "C06" | "C07");
        Suite {
            id,
            kinds: kinds(focus, if shrinks { &[(BATCH, 12)] } else { &[] }),
            kind: Kind::Machine(MachineSpec { oracles, focus }),
            max_ops,
            quick,
            thorough: quick * 12,
            rule: OP_RULE,
        }
    }
    fn st(id: &'static str, extra: &[(u8, u32)], oracles: u32, max_ops: usize, quick: u64) -> Suite {
        Suite {
            id,
            kinds: kinds(&[], extra),
            kind: Kind::Machine(MachineSpec { oracles, focus: &[] }),
            max_ops,
            quick,
            thorough: quick * 12,
            rule: STATE_RULE,
        }
    }
    let base = O_CONTENT | O_CACHE | O_STRUCT;
    Some(match id {
        "C01" => op("C01", &[INSERT, INSERT_Q, PUSH, PREPEND], base, 70, 60_000),
        "C02" => op("C02", &[BATCH], base, 50, 30_000),
        "C03" => op("C03", &[COLLECT], base | O_QUERY, 40, 40_000),
        "C04" => op("C04", &[DRAIN, DRAIN_Q], base, 60, 100_000),
        "C05" => op("C05", &[UPDATE], base, 60, 80_000),
        "C06" => op("C06", &[REMOVE, UPLEAF, UPSEARCH, REMOVE_DEAD], base, 70, 50_000),
        "C07" => op("C07", &[UPRANGES], base, 50, 50_000),
        "C08" => st("C08", &[(DRAIN, 6), (UPSEARCH, 4), (RECACHE, 3), (CLEAR, 1)], O_CACHE, 70, 80_000),
        "C09" => st("C09", &[(REMOVE, 10), (DRAIN, 6), (UPSEARCH, 6), (CLEAR, 1)], O_STRUCT | O_DEPTH, 80, 70_000),
        "C10" => st("C10", &[], O_QUERY, 60, 50_000),
        "C11" => st("C11", &[], O_NAV, 60, 24_000),
        "C12" => st("C12", &[], O_PREFIX, 60, 40_000),
        "C13" => st("C13", &[(CLEAR, 1)], O_ITER, 50, 20_000),
        "C14" => op("C14", &[FILTERUP], base | O_FILTER, 50, 50_000),
        "C15" => st("C15", &[(REMOVE_DEAD, 3)], O_HANDLES, 70, 60_000),
        "C16" => op("C16", &[CLONE, SWAP, CLEAR], base | O_CLONES, 60, 60_000),
        "C21" => op("C21", &[PUSH, PREPEND, INSERT, BATCH], O_MERGE, 70, 50_000),
        "C25" => Suite { kind: Kind::Contract(MachineSpec { oracles: O_CUTS, focus: &[] }), ..st("C25", &[], O_CUTS, 70, 60_000) },
        "C22" => {
            let mut s = st("C22", &[(REMOVE, 6), (INSERT, 6)], O_COST, 50, 80_000);
            let Kind::Machine(k) = s.kind else { unreachable!() };
            s.kind = Kind::Cost(k);
            s
        }
        "C26" => op("C26", &[BATCH, DRAIN, DRAIN_Q, UPDATE, UPRANGES], O_SPAN, 40, 60_000),
        "C27" => Suite { kind: Kind::Twice(MachineSpec { oracles: 0, focus: &[] }), ..st("C27", &[(UPRANGES, 4)], 0, 60, 30_000) },
        "C17" | "C18" => Suite {
            id: if id == "C17" { "C17" } else { "C18" },
            kind: if id == "C17" { Kind::Map } else { Kind::Set },
            kinds: ord::kinds(),
            max_ops: 60,
            quick: 160_000,
            thorough: 2_000_000,
            rule: "Random histories of insertions, overwrites and deletions (present, absent, next to present, extremes, runs) over u64-like, string and reverse-ordered keys from domains of 40 to 1000000 keys, optionally starting from up to 1200 (thorough: 3000), rarely 2000 to 9000 keys, a quarter of the cases deleting everything at the end; compared with std's BTreeMap after every operation. Non-trivial: at least 60 keys at the peak, 3 successful deletions, a deletion of an absent key and an overwrite; distinct by the hash of the whole case.",
        },
        "C19" => Suite {
            id: "C19",
            kind: Kind::Rope,
            kinds: rope::kinds(),
            max_ops: 60,
            quick: 400_000,
            thorough: 5_000_000,
            rule: "Random edit histories on ASCII or multi-byte text (inserts of 0 to 3000 bytes, typing, backspacing, forward deletion, odd ranges, clears, out-of-range inserts; local and remote positions, chunk edges), optionally starting from up to 40000 (thorough: 65536), one time in 64 60000 to 140000 bytes; compared with a String. Non-trivial: peak length above 1500 bytes, at least 3 inserts and 3 effective deletions; distinct by the hash of the whole case.",
        },
        "C20" => Suite {
            id: "C20",
            kind: Kind::Rle,
            kinds: rle::kinds(),
            max_ops: 40,
            quick: 1_000_000,
            thorough: 15_000_000,
            rule: "Each case applies up to 120 toolkit calls (split, slice, slice in place, update with split; all combinations of bound kinds; edges favoured) to lists, texts and huge intervals which implement only the required methods, and compares with the parts computed directly. Non-trivial: at least one update produced three parts; distinct by the hash of the whole case.",
        },
        "C23" => Suite {
            id: "C23",
            kind: Kind::RangeMap,
            kinds: rangemap::kinds(),
            max_ops: 60,
            quick: 100_000,
            thorough: 1_200_000,
            rule: "Random histories of range writes (assign, add, erase, single indices, past the end), pushes and drains with unit lengths from 1 to 2^40, one in 16 starting from 100 to 8000 runs; compared with an array kept as maximal runs. Non-trivial: more than 12 runs at the peak, at least 3 writes and a non-empty drain; distinct by the hash of the whole case.",
        },
        "C24" => Suite {
            id: "C24",
            kind: Kind::Sorted,
            kinds: sorted::kinds(),
            max_ops: 60,
            quick: 200_000,
            thorough: 3_000_000,
            rule: "Random histories of puts, runs of puts, removals, replacements through the search, interval updates and interval drains, half of them starting from 40 to 1000 (thorough: 3000), rarely 2000 to 9000 keys, over key domains of 60 to 1000000, elements holding 1 to 9 keys; compared with std's BTreeMap. Non-trivial: at least 30 keys at the peak and 5 keys removed or drained; distinct by the hash of the whole case.",
        },
        "C28" => Suite {
            id: "C28",
            kind: Kind::Big,
            kinds: big::kinds(),
            max_ops: 40,
            quick: 640,
            thorough: 6_000,
            rule: "Trees (difference-maintained and recomputed summaries), ordered maps and ropes of a size drawn log-uniformly from 1000 to 700000 (thorough: 2000000) elements or keys (a rope: 8 bytes each), and three of 20.2 to 21.8 million (two trees, one map), built by push, prepend, both, collect, typing in the middle (forwards or backwards) or batches; then random operations of 15 kinds at both ends, near the last change and anywhere. The oracle is an implicit model: the content as segments of consecutive units. Judged: everything by iteration at the start and at the end; after each operation the tree's summary and, at four positions, query, prefix summaries, neighbours, shift and comparison. Non-trivial: at least 10000 elements and 5 operations; distinct by the hash of the whole case.",
        },
        "C29" => Suite {
            id: "C29",
            kind: Kind::Mem,
            kinds: crate::mem::kinds(),
            max_ops: 40,
            quick: 40_000,
            thorough: 500_000,
            rule: "Random churn histories (up to some ten thousand single operations each) on small trees (difference-maintained and recomputed summaries; mergeable and absorbing elements or not; at most 4 to 300, thorough sometimes 2400, units at a time), ropes, ordered maps and sets: insertions and batches in one place, removals, drains (consumed, partly consumed, dropped), emptying updates in the same or another, whole drains followed by batches, clears, clones replacing or put beside the original, collects. After every operation the number of elements (values) in existence equals the number held, and the heap held, measured at the allocator, is at most a constant plus a constant per unit of the most ever held; after the drop nothing is left. Non-trivial: at least 60 operations of which 20 remove (rope, map: 100 and 40); distinct by the hash of the whole case.",
        },
        "C30" => Suite {
            id: "C30",
            kind: Kind::Wide,
            kinds: crate::wide::kinds(),
            max_ops: 40,
            quick: 40_000,
            thorough: 500_000,
            rule: "Trees of 1 to 360 (thorough 2000) elements, difference-maintained and recomputed summaries, contiguous elements merging or not, whose lengths are drawn log-uniformly from 1 up to 2^8, 2^16, 2^17, 2^31, 2^32, 2^33, 2^40 or 2^52 units (often next to a power of two), built four ways; then histories of 15 kinds of operations at the ends, near the last change, near powers of two, near element boundaries and anywhere. The oracle is the content as segments of consecutive units. Judged after each operation: the tree's summary and, at four positions, query, prefix summaries, neighbours, shift and comparison; everything by iteration, with node counts and levels, at the start and end. Non-trivial: at least 10 operations, half of them on content longer than 2^32; distinct by the hash of the whole case.",
        },
        _ => return None,
    })
}

impl Suite {
    /// address space in kB and CPU seconds of one case (normally milliseconds) at most
    pub fn limits(&self) -> (u64, u64) {
        match self.kind {
            Kind::Big => (10_000_000, 240),
            _ => (3_000_000, 60),
        }
    }

    /// a case the given shard has to run besides those drawn at random, made from a random one
    pub fn special(&self, shard: u64) -> Option<impl Fn(Case) -> Case> {
        (matches!(self.kind, Kind::Big) && shard < 3).then_some(move |mut c: Case| {
            c.cfg[0] = big::HUGE;
            c.cfg[1] = shard as u16;
            c
        })
    }

    pub fn run(&self, case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
        match &self.kind {
            Kind::Machine(s) | Kind::Contract(s) => m::run(s, case, trace, big, out),
            Kind::Cost(s) => {
                if case.cfg[7] % 4 == 0 {
                    let mut c = case.clone();
                    for o in &mut c.ops {
                        o.k %= ord::NKINDS as u8;
                    }
                    ord::run_cost(&c, trace, big, out)
                } else {
                    m::run(s, case, trace, big, out)
                }
            }
            Kind::Twice(_) => unreachable!(),
            Kind::Map => ord::run_map(case, trace, big, out),
            Kind::Set => ord::run_set(case, trace, big, out),
            Kind::Rope => rope::run(case, trace, big, out),
            Kind::Rle => rle::run(case, trace, big, out),
            Kind::RangeMap => rangemap::run(case, trace, big, out),
            Kind::Sorted => sorted::run(case, trace, big, out),
            Kind::Big => crate::big::run(case, trace, big, out),
            Kind::Mem => crate::mem::run(case, trace, big, out),
            Kind::Wide => crate::wide::run(case, trace, big, out),
        }
    }

    /// Run one case; panics count as failures. `None`: the failure belongs to another property.
    pub fn judge(&self, case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<Option<CaseInfo>, String> {
        if let Kind::Twice(s) = &self.kind {
            return m::run_twice(s, case, trace, big, out);
        }
        let r = match catch_unwind(AssertUnwindSafe(|| self.run(case, trace, big, out))) {
            Ok(r) => r,
            Err(p) => {
                let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
                Err(format!("panic: {}", msg))
            }
        };
        match r {
            Ok(i) => Ok(Some(i)),
            Err(e) => {
                if let Kind::Contract(_) = &self.kind {
                    if !(e.contains(crate::elem::CONTRACT) || e.contains("was cut before") || e.contains("a removable element is stored")) {
                        return Ok(None);
                    }
                }
                if let Kind::Machine(s) = &self.kind {
                    let cur = CUR_OP.with(|c| c.get());
                    let ours = FOCUS_SEEN.with(|f| f.get()) || (cur >= 0 && s.focus.contains(&(cur as u8)));
                    if !ours {
                        return Ok(None);
                    }
                }
                Err(e)
            }
        }
    }

    pub fn kind_name(&self, k: u8) -> &'static str {
        let k = k as usize;
        match &self.kind {
            Kind::Machine(_) | Kind::Cost(_) | Kind::Contract(_) | Kind::Twice(_) => m::KIND_NAMES[k % m::NKINDS],
            Kind::Map | Kind::Set => ord::KIND_NAMES[k % ord::NKINDS],
            Kind::Rope => rope::KIND_NAMES[k % rope::NKINDS],
            Kind::Rle => rle::KIND_NAMES[k % rle::NKINDS],
            Kind::RangeMap => rangemap::KIND_NAMES[k % rangemap::NKINDS],
            Kind::Sorted => sorted::KIND_NAMES[k % sorted::NKINDS],
            Kind::Big => big::KIND_NAMES[k % big::NKINDS],
            Kind::Mem => crate::mem::KIND_NAMES[k % crate::mem::NKINDS],
            Kind::Wide => crate::wide::KIND_NAMES[k % crate::wide::NKINDS],
        }
    }
}
