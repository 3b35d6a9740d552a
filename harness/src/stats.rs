use std::collections::BTreeMap;

#[derive(Default, Clone)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
}
impl Stats {
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        if let Some(v) = self.maxes.get_mut(k) {
            *v = (*v).max(n);
        } else {
            self.maxes.insert(k.to_string(), n);
        }
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.counts {
            self.add(k, *v);
        }
        for (k, v) in &o.maxes {
            self.max(k, *v);
        }
    }
}

/// What one executed case amounted to.
#[derive(Default)]
pub struct CaseInfo {
    pub nontrivial: bool,
    pub trace: Vec<String>,
}

use std::cell::{Cell, RefCell};
thread_local! {
    pub static STATS: RefCell<Stats> = RefCell::new(Stats::default());
    /// kind of the operation being executed, -1 outside
    pub static CUR_OP: Cell<i32> = const { Cell::new(-1) };
    /// an operation the property is about has been executed in this case
    pub static FOCUS_SEEN: Cell<bool> = const { Cell::new(false) };
}
pub fn hit(k: &str) {
    STATS.with(|s| s.borrow_mut().hit(k))
}
pub fn maxi(k: &str, n: u64) {
    STATS.with(|s| s.borrow_mut().max(k, n))
}
pub fn begin_case(every_op_counts: bool) {
    CUR_OP.with(|c| c.set(-1));
    FOCUS_SEEN.with(|c| c.set(every_op_counts));
}
