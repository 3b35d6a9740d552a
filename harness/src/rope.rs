//! Rope against a plain string.
use crate::case::Case;
use crate::stats::{begin_case, hit, CaseInfo, CUR_OP};
use generic_btree::Rope;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
pub const NKINDS: usize = 12;
pub const KIND_NAMES: [&str; NKINDS] = [
    "insert", "typing", "delete", "backspace", "delete-forward", "delete-one", "delete-odd-range", "delete-large", "clear", "insert-out-of-range",
    "delete-all", "insert-at-chunk-edge",
];
pub fn kinds() -> Vec<(u8, u32)> {
    vec![(0, 12), (1, 10), (2, 8), (3, 6), (4, 5), (5, 6), (6, 4), (7, 3), (8, 1), (9, 1), (10, 1), (11, 4)]
}

struct R {
    rope: Rope,
    s: String,
    caret: usize,
    unicode: bool,
    ctr: u32,
    steps: usize,
    trace: Option<Vec<String>>,
    peak: usize,
    ins: usize,
    dels: usize,
    multi: usize,
    cap: usize,
}

fn show(s: &str) -> String {
    if s.len() <= 40 {
        format!("{:?}", s)
    } else {
        let a: String = s.chars().take(12).collect();
        format!("{:?}.. ({} bytes)", a, s.len())
    }
}

impl R {
    fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f())
        }
    }
    fn align(&self, mut p: usize) -> usize {
        p = p.min(self.s.len());
        while !self.s.is_char_boundary(p) {
            p -= 1;
        }
        p
    }
    fn pos(&self, a: u16) -> usize {
        let n = self.s.len();
        let y = (a >> 3) as usize;
        let p = match a & 7 {
            0..=2 => self.caret,
            3 | 4 => (self.caret + y % 300).saturating_sub(150),
            5 => [0, n, n.saturating_sub(1), 1][y % 4],
            _ => (y * 8191 + self.ctr as usize * 31) % (n + 1),
        };
        self.align(p)
    }
    fn text(&mut self, len: usize) -> String {
        let mut t = String::with_capacity(len);
        while t.len() < len {
            self.ctr = self.ctr.wrapping_mul(1_103_515_245).wrapping_add(12345);
            let r = self.ctr >> 16;
            let left = len - t.len();
            if self.unicode {
                match r % 5 {
                    0 if left >= 2 => t.push(char::from_u32(0xe0 + r % 20).unwrap()),
                    1 if left >= 3 => t.push(char::from_u32(0x4e00 + r % 500).unwrap()),
                    2 if left >= 4 => t.push(char::from_u32(0x1f600 + r % 60).unwrap()),
                    _ => t.push((b'a' + (r % 26) as u8) as char),
                }
            } else {
                t.push((b'!' + (r % 90) as u8) as char)
            }
        }
        t
    }
    fn len_of(&self, x: u16) -> usize {
        let y = (x >> 4) as usize;
        match x & 15 {
            0..=5 => 1 + y % 4,
            6 => 0,
            7 | 8 => y % 40,
            9 => 120 + y % 16,
            10 => 60 + y % 8,
            11 => [127, 128, 129, 255, 256, 257, 64, 63][y % 8],
            12 => y % 130,
            13 => 128 * (1 + y % 12),
            14 => y % 700,
            _ => y % 3000,
        }
    }
    fn insert(&mut self, p: usize, t: &str) -> Result<(), String> {
        self.log(|| format!("insert {} at {}", show(t), p));
        self.rope.insert(p, t);
        self.s.insert_str(p, t);
        self.caret = p + t.len();
        self.ins += 1;
        if t.len() > 128 {
            self.multi += 1;
        }
        self.after()
    }
    fn delete(&mut self, lo: Bound<usize>, hi: Bound<usize>) -> Result<(), String> {
        self.log(|| format!("delete {:?} .. {:?}", lo, hi));
        self.rope.delete_range((lo, hi));
        let n = self.s.len();
        let st = match lo {
            Bound::Included(x) => x,
            Bound::Excluded(x) => x.saturating_add(1),
            Bound::Unbounded => 0,
        };
        let en = match hi {
            Bound::Included(x) => x.saturating_add(1),
            Bound::Excluded(x) => x,
            Bound::Unbounded => n,
        }
        .min(n);
        let st = st.min(en);
        self.s.replace_range(st..en, "");
        self.caret = st.min(self.s.len());
        if en > st {
            self.dels += 1;
        }
        self.after()
    }
    fn after(&mut self) -> Result<(), String> {
        self.steps += 1;
        let n = self.s.len();
        self.peak = self.peak.max(n);
        if self.rope.len() != n || self.rope.is_empty() != (n == 0) {
            fail!("length is reported as {} (empty: {}) instead of {}", self.rope.len(), self.rope.is_empty(), n);
        }
        if n < 600 || self.steps % (n / 500).min(40) == 0 {
            self.compare()?;
        }
        Ok(())
    }
    fn compare(&mut self) -> Result<(), String> {
        let t = self.rope.to_string();
        if t != self.s {
            let at = t.bytes().zip(self.s.bytes()).position(|(a, b)| a != b).unwrap_or(t.len().min(self.s.len()));
            fail!("the text differs from the expected one at byte {} (lengths {} and {})", at, t.len(), self.s.len());
        }
        self.rope.check();
        Ok(())
    }
}

pub fn run(case: &Case, trace: bool, big: bool, out: &mut Vec<String>) -> Result<CaseInfo, String> {
    begin_case(true);
    let c = &case.cfg;
    let mut r = R {
        rope: if c[6] & 1 == 0 { Rope::new() } else { Rope::default() },
        s: String::new(),
        caret: 0,
        unicode: c[0] % 3 == 0,
        ctr: c[1] as u32 + 1,
        steps: 0,
        trace: if trace { Some(vec![]) } else { None },
        peak: 0,
        ins: 0,
        dels: 0,
        multi: 0,
        cap: if big { 400_000 } else { 60_000 },
    };
    let res = (|| -> Result<(), String> {
        if c[2] % 2 == 0 {
            let large = c[3] % 32 == 9;
            if large {
                r.cap = r.cap.max(250_000);
            }
            let n = if large { 60_000 + (c[3] as usize / 32) * 40 } else { (c[3] as usize) % [300, 2000, 10_000, 30_000, if big { 65_536 } else { 40_000 }][(c[2] / 2) as usize % 5] };
            if c[4] % 3 == 0 {
                // piecewise
                let step = 1 + c[5] as usize % 200;
                let mut m = 0;
                while m < n {
                    let t = r.text(step);
                    let p = if c[4] % 2 == 0 { r.s.len() } else { 0 };
                    r.insert(p, &t)?;
                    m += step;
                    if m > 200 * step {
                        break;
                    }
                }
            } else {
                let t = r.text(n);
                r.insert(0, &t)?;
            }
        }
        for op in &case.ops {
            let mut k = op.k as usize % NKINDS;
            if r.s.len() > r.cap {
                k = 7;
            }
            CUR_OP.with(|x| x.set(k as i32));
            for j in 0..op.rep.max(1) as usize {
                match k {
                    0 => {
                        let p = r.pos(op.a.wrapping_add(8 * j as u16));
                        let l = r.len_of(op.b.wrapping_add(16 * j as u16));
                        let t = r.text(l);
                        r.insert(p, &t)?
                    }
                    1 => {
                        let p = if j == 0 { r.pos(op.a) } else { r.align(r.caret) };
                        let t = r.text(1 + op.b as usize % 3);
                        r.insert(p, &t)?
                    }
                    2 => {
                        let x = r.pos(op.a);
                        let l = r.len_of(op.b);
                        let y = r.align(x + l);
                        r.delete(Bound::Included(x), Bound::Excluded(y))?
                    }
                    3 => {
                        // backspace, one character at a time
                        let e = if j == 0 { r.pos(op.a) } else { r.align(r.caret) };
                        let s = r.align(e.saturating_sub(1));
                        r.delete(Bound::Included(s), Bound::Excluded(e))?
                    }
                    4 | 5 => {
                        let s = if j == 0 || k == 5 { r.pos(op.a.wrapping_add(8 * j as u16)) } else { r.align(r.caret) };
                        let e = s + r.s[s..].chars().next().map_or(0, |c| c.len_utf8());
                        let hi = if op.d & 1 == 0 || e == 0 { Bound::Excluded(e) } else { Bound::Included(e - 1) };
                        if e == s {
                            r.delete(Bound::Included(s), Bound::Excluded(s))?
                        } else {
                            r.delete(Bound::Included(s), hi)?
                        }
                    }
                    6 => {
                        let x = r.pos(op.a);
                        let y = r.pos(op.b);
                        let n = r.s.len();
                        let (lo, hi) = match op.d % 10 {
                            // reversed (or empty)
                            0 => (Bound::Included(x.max(y)), Bound::Excluded(x.min(y))),
                            1 => (Bound::Included(x), Bound::Unbounded),
                            2 => (Bound::Unbounded, Bound::Excluded(y)),
                            // past the end
                            3 => (Bound::Included(x), Bound::Excluded(n + op.c as usize)),
                            4 => (Bound::Included(n + op.c as usize % 3), Bound::Excluded(n + 5)),
                            5 => (Bound::Included(n + 4), Bound::Unbounded),
                            6 if x > 0 => (Bound::Excluded(x - 1), if y > x { Bound::Included(y - 1) } else { Bound::Unbounded }),
                            7 => (Bound::Included(x), Bound::Included(n + op.c as usize % 9)),
                            // as far past the end as can be
                            8 => match op.c % 4 {
                                0 => (Bound::Included(x), Bound::Included(usize::MAX)),
                                1 => (Bound::Included(x), Bound::Excluded(usize::MAX)),
                                2 => (Bound::Excluded(usize::MAX), Bound::Unbounded),
                                _ => (Bound::Included(usize::MAX), Bound::Included(usize::MAX)),
                            },
                            _ => (Bound::Included(x), Bound::Excluded(x)),
                        };
                        r.delete(lo, hi)?
                    }
                    7 => {
                        let n = r.s.len();
                        let x = r.align(op.b as usize * 3 % (n + 1));
                        let y = r.align(x + (n - x) * (op.c as usize % 16) / 15);
                        r.delete(Bound::Included(x), Bound::Excluded(y))?
                    }
                    8 => {
                        r.log(|| "clear".into());
                        r.rope.clear();
                        r.s.clear();
                        r.caret = 0;
                        r.after()?
                    }
                    9 => {
                        let n = r.s.len() + 1 + op.c as usize % 3;
                        r.log(|| format!("insert out of range at {}", n));
                        let rope = &mut r.rope;
                        if catch_unwind(AssertUnwindSafe(|| rope.insert(n, "xy"))).is_ok() {
                            fail!("inserting at {} was accepted although the length is {}", n, n - 1);
                        }
                        r.compare()?;
                        r.after()?
                    }
                    10 => {
                        match op.d % 3 {
                            0 => r.delete(Bound::Unbounded, Bound::Unbounded)?,
                            1 => r.delete(Bound::Included(0), Bound::Excluded(r.s.len()))?,
                            _ => {
                                // in pieces
                                let st = 1 + r.s.len() / (2 + op.c as usize % 12);
                                while !r.s.is_empty() {
                                    let x = if op.a & 1 == 0 { 0 } else { r.align(r.s.len().saturating_sub(st)) };
                                    let mut y = r.align(x + st);
                                    if y <= x {
                                        y = r.s.len();
                                    }
                                    r.delete(Bound::Included(x), Bound::Excluded(y))?
                                }
                            }
                        }
                    }
                    _ => {
                        let n = r.s.len();
                        let p = r.align((op.a as usize % (n / 128 + 1)) * 128 + [0, 1, 127][op.d as usize % 3]);
                        let l = r.len_of(op.b);
                        let t = r.text(l);
                        r.insert(p, &t)?
                    }
                }
                if matches!(k, 8 | 10) {
                    break;
                }
            }
            hit(KIND_NAMES[k]);
        }
        r.compare()
    })();
    if let Some(t) = r.trace.take() {
        *out = t;
    }
    res?;
    hit(match r.peak {
        0..=128 => "case peak <=128 bytes (one chunk)",
        129..=1500 => "case peak 129..1500 bytes",
        1501..=15000 => "case peak 1501..15000 bytes",
        15001..=65535 => "case peak 15001..65535 bytes",
        _ => "case peak >65535 bytes",
    });
    hit(if r.unicode { "case with multi-byte text" } else { "case with ASCII text" });
    Ok(CaseInfo { nontrivial: r.peak > 1500 && r.ins >= 3 && r.dels >= 3, trace: vec![] })
}
