//! A generated case: a configuration and a history of operation records.
//! Every suite interprets the same uniform records, so that one proptest strategy, one
//! shrinker, one replay format and one fuzz decoder serve all properties.
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

pub const NCFG: usize = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub k: u8,
    pub rep: u8,
    pub a: u16,
    pub b: u16,
    pub c: u16,
    pub d: u16,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub cfg: [u16; NCFG],
    pub ops: Vec<Op>,
}

impl Case {
    pub fn to_text(&self) -> String {
        use std::fmt::Write;
        let mut s = String::with_capacity(32 + self.ops.len() * 24);
        s.push_str("cfg");
        for c in self.cfg {
            let _ = write!(s, " {}", c);
        }
        s.push('\n');
        for o in &self.ops {
            let _ = writeln!(s, "op {} {} {} {} {} {}", o.k, o.rep, o.a, o.b, o.c, o.d);
        }
        s.push_str("end\n");
        s
    }

    pub fn from_text(t: &str) -> Option<Case> {
        let mut cfg = None;
        let mut ops = vec![];
        for line in t.lines() {
            let mut w = line.split_whitespace();
            match w.next() {
                Some("cfg") => {
                    let v: Vec<u16> = w.filter_map(|x| x.parse().ok()).collect();
                    let mut a = [0u16; NCFG];
                    if v.len() != NCFG {
                        return None;
                    }
                    a.copy_from_slice(&v);
                    cfg = Some(a);
                }
                Some("op") => {
                    let v: Vec<u16> = w.filter_map(|x| x.parse().ok()).collect();
                    if v.len() != 6 {
                        return None;
                    }
                    ops.push(Op {
                        k: v[0] as u8,
                        rep: v[1] as u8,
                        a: v[2],
                        b: v[3],
                        c: v[4],
                        d: v[5],
                    });
                }
                Some("end") => return cfg.map(|cfg| Case { cfg, ops }),
                _ => {}
            }
        }
        None
    }

    /// Decode arbitrary bytes (coverage-guided fuzzing). `kinds` is the weighted kind table.
    pub fn from_bytes(data: &[u8], kinds: &[u8], max_ops: usize) -> Option<Case> {
        if data.len() < 2 * NCFG {
            return None;
        }
        let w = |i: usize| u16::from_le_bytes([data[i], data[i + 1]]);
        let mut cfg = [0u16; NCFG];
        for (i, c) in cfg.iter_mut().enumerate() {
            *c = w(2 * i);
        }
        let mut ops = vec![];
        let mut i = 2 * NCFG;
        while i + 10 <= data.len() && ops.len() < max_ops {
            ops.push(Op {
                k: kinds[data[i] as usize % kinds.len()],
                rep: decode_rep(data[i + 1]),
                a: w(i + 2),
                b: w(i + 4),
                c: w(i + 6),
                d: w(i + 8),
            });
            i += 10;
        }
        Some(Case { cfg, ops })
    }
}

pub fn decode_rep(x: u8) -> u8 {
    match x {
        0..=159 => 1,
        160..=229 => 2 + x % 5,
        _ => 7 + x % 22,
    }
}

/// kinds: weighted table of (kind, weight), simplest first (shrinking goes towards the front)
pub fn strategy(kinds: &[(u8, u32)], max_ops: usize) -> BoxedStrategy<Case> {
    let mut table = vec![];
    for &(k, w) in kinds {
        for _ in 0..w {
            table.push(k);
        }
    }
    let op = (
        proptest::sample::select(table),
        any::<u8>().prop_map(decode_rep),
        any::<u16>(),
        any::<u16>(),
        any::<u16>(),
        any::<u16>(),
    )
        .prop_map(|(k, rep, a, b, c, d)| Op { k, rep, a, b, c, d });
    let ops = prop_oneof![
        3 => proptest::collection::vec(op.clone(), 0..=(max_ops / 6).max(2)),
        6 => proptest::collection::vec(op.clone(), (max_ops / 8)..=max_ops),
        1 => proptest::collection::vec(op, max_ops..=max_ops * 3),
    ];
    (proptest::array::uniform8(any::<u16>()), ops)
        .prop_map(|(cfg, ops)| Case { cfg, ops })
        .boxed()
}
