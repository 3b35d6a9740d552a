//! Driver.
//!   gbt-check check <ID>            run a check (VERIF_SEED, VERIF_TIER), write evidence
//!   gbt-check replay <ID> <file>    run one recorded case, with a trace
//!   gbt-check worker ...            internal
use gbt_harness::case::{strategy, Case};
use gbt_harness::stats::{Stats, STATS};
use gbt_harness::suite::{suite, Suite};
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::collections::HashSet;
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const SHARDS: u64 = 32;

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
fn case_hash(c: &Case) -> u64 {
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut h = H(0xcbf2_9ce4_8422_2325);
    c.hash(&mut h);
    h.finish()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2]),
        Some("replay") => replay(&args[2], Path::new(&args[3])),
        Some("worker") => worker(&args[2..]),
        Some("try") => try_one(&args[2], Path::new(&args[3]), args[4] == "big"),
        _ => {
            eprintln!("usage: gbt-check check <ID> | replay <ID> <file>");
            2
        }
    };
    std::process::exit(code);
}

fn get_suite(id: &str) -> Suite {
    suite(id).unwrap_or_else(|| {
        eprintln!("no such property: {}", id);
        std::process::exit(2)
    })
}

// ---------------------------------------------------------------- worker

/// worker <ID> <tier> <seed> <shard> <cases> <dir>
/// how many of the largest cases (3 GB each) may be held in memory at a time
fn huge_at_once() -> u64 {
    let t = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    let kb = t.lines().find_map(|l| l.strip_prefix("MemTotal:")).and_then(|l| l.trim().trim_end_matches(" kB").parse::<u64>().ok());
    let limit = std::fs::read_to_string("/sys/fs/cgroup/memory.max").ok().and_then(|l| l.trim().parse::<u64>().ok());
    (kb.unwrap_or(8_000_000).min(limit.map_or(u64::MAX, |l| l >> 10)) / 6_000_000).min(3)
}

fn worker(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let s = get_suite(&a[0]);
    let big = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let shard: u64 = a[3].parse().unwrap();
    let cases: u32 = a[4].parse().unwrap();
    let dir = PathBuf::from(&a[5]);
    let mut st = seed ^ fnv(&a[0]).rotate_left(17) ^ shard.wrapping_mul(0xA24B_AED4_963E_E407);
    let mut bytes = [0u8; 32];
    for i in 0..4 {
        bytes[i * 8..i * 8 + 8].copy_from_slice(&splitmix(&mut st).to_le_bytes());
    }
    let mut runner = TestRunner::new_with_rng(
        Config { cases, failure_persistence: None, max_shrink_iters: 6000, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &bytes),
    );
    let cur = File::create(dir.join(format!("cur-{}", shard))).unwrap();
    watchdog(s.limits().1);
    struct Acc {
        evals: u64,
        foreign: u64,
        nontrivial: HashSet<u64>,
        samples: Vec<(bool, String)>,
        failed: bool,
        stats: Stats,
        ops: u64,
    }
    let acc = RefCell::new(Acc { evals: 0, foreign: 0, nontrivial: HashSet::new(), samples: vec![], failed: false, stats: Stats::default(), ops: 0 });
    let failed_at = Cell::new(None);
    let test = |case: Case| {
        // shrinking the largest cases takes too long to be carried through
        if failed_at.get().is_some_and(|t| cpu_s() - t > SHRINK_CPU) {
            return Ok(());
        }
        let text = case.to_text();
        // so that the parent knows the input if this process dies
        let _ = cur.write_all_at(text.as_bytes(), 0);
        STATS.with(|s| *s.borrow_mut() = Stats::default());
        let mut out = vec![];
        CASE_NO.fetch_add(1, SeqCst);
        let r = s.judge(&case, false, big, &mut out);
        let mut a = acc.borrow_mut();
        match r {
            Err(e) => {
                a.failed = true;
                if failed_at.get().is_none() {
                    failed_at.set(Some(cpu_s()));
                }
                Err(TestCaseError::fail(e))
            }
            Ok(info) => {
                if !a.failed {
                    a.evals += 1;
                    a.ops += case.ops.iter().map(|o| o.rep as u64).sum::<u64>();
                    STATS.with(|s| a.stats.merge(&s.borrow()));
                    match info {
                        None => a.foreign += 1,
                        Some(i) => {
                            if i.nontrivial {
                                let h = case_hash(&case);
                                let n = a.nontrivial.len();
                                a.nontrivial.insert(h);
                                // (not one of the largest: samples are executed once more)
                                if a.samples.is_empty() && n < 50 && case.cfg[0] != u16::MAX {
                                    a.samples.push((true, text));
                                }
                            }
                        }
                    }
                }
                Ok(())
            }
        }
    };
    let mut res = Ok(());
    let slots = huge_at_once();
    if let Some(f) = s.special(shard).filter(|_| slots > 0) {
        // not more of them at a time than there is memory for
        let turn = File::create(dir.join(format!("turn-{}", shard % slots))).unwrap();
        turn.lock().unwrap();
        let mut one = TestRunner::new_with_rng(
            Config { cases: 1, failure_persistence: None, max_shrink_iters: 6000, ..Config::default() },
            TestRng::from_seed(RngAlgorithm::ChaCha, &bytes),
        );
        res = one.run(&strategy(&s.kinds, s.max_ops).prop_map(f), &test);
    }
    if res.is_ok() {
        res = runner.run(&strategy(&s.kinds, s.max_ops), &test);
    }
    let a = acc.into_inner();
    let mut f = String::new();
    use std::fmt::Write as _;
    let _ = writeln!(f, "evals {}\nforeign {}\nops {}", a.evals, a.foreign, a.ops);
    for h in &a.nontrivial {
        let _ = writeln!(f, "h {:x}", h);
    }
    for (k, v) in &a.stats.counts {
        let _ = writeln!(f, "c {} {}", v, k);
    }
    for (k, v) in &a.stats.maxes {
        let _ = writeln!(f, "m {} {}", v, k);
    }
    std::fs::write(dir.join(format!("stat-{}", shard)), f).unwrap();
    if let Some((_, t)) = a.samples.first() {
        std::fs::write(dir.join(format!("sample-{}", shard)), t).unwrap();
    }
    match res {
        Ok(()) => 0,
        Err(TestError::Fail(reason, case)) => {
            std::fs::write(dir.join(format!("fail-{}", shard)), case.to_text()).unwrap();
            std::fs::write(dir.join(format!("why-{}", shard)), reason.message()).unwrap();
            10
        }
        Err(TestError::Abort(r)) => {
            eprintln!("generation aborted: {}", r.message());
            3
        }
    }
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);

/// CPU seconds spent on shrinking at most
const SHRINK_CPU: u64 = 60;

fn cpu_s() -> u64 {
    // user + system time of this process, in clock ticks of 1/100 s
    let Ok(t) = std::fs::read_to_string("/proc/self/stat") else { return 0 };
    let Some((_, t)) = t.rsplit_once(')') else { return 0 };
    let w: Vec<&str> = t.split_whitespace().collect();
    let f = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (f(11) + f(12)) / 100
}

/// ends the process when one case has used so many seconds of CPU time and is taken for not terminating
fn watchdog(cpu_case: u64) {
    std::thread::spawn(move || {
        let (mut no, mut at) = (0, cpu_s());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let n = CASE_NO.load(SeqCst);
            let c = cpu_s();
            if n != no {
                no = n;
                at = c;
            } else if c - at >= cpu_case {
                std::process::exit(12);
            }
        }
    });
}

/// run one case in this process, silently: 0 passes, 10 fails; anything else: the process died
fn try_one(id: &str, f: &Path, big: bool) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let s = get_suite(id);
    watchdog(s.limits().1);
    let Some(c) = std::fs::read_to_string(f).ok().and_then(|t| Case::from_text(&t)) else { return 2 };
    match s.judge(&c, false, big, &mut vec![]) {
        Ok(_) => 0,
        Err(_) => 10,
    }
}

fn replay(id: &str, f: &Path) -> i32 {
    std::panic::set_hook(Box::new(|i| println!("  panic at {}", i.location().map_or(String::new(), |l| l.to_string()))));
    let s = get_suite(id);
    let text = match std::fs::read_to_string(f) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", f.display(), e);
            return 2;
        }
    };
    let big = text.lines().any(|l| l.trim() == "# tier thorough");
    let Some(c) = Case::from_text(&text) else {
        eprintln!("{} is not a recorded case", f.display());
        return 2;
    };
    let mut out = vec![];
    let r = s.judge(&c, true, big, &mut out);
    for l in &out {
        println!("  {}", l);
    }
    match r {
        Ok(Some(_)) => {
            println!("the case passes");
            0
        }
        Ok(None) => {
            println!("the case fails for a reason outside this property");
            0
        }
        Err(e) => {
            println!("FAILS: {}", e);
            println!("VIOLATION property={} replay={}", id, f.display());
            1
        }
    }
}

// ---------------------------------------------------------------- parent

struct Job {
    shard: u64,
    child: Child,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> PathBuf {
    std::env::var_os("GBT_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

/// this program with limited address space (usually 3 GB): running away in memory ends in an abort
fn limited(s: &Suite) -> Command {
    let mut c = Command::new("/bin/sh");
    c.args(["-c", &format!("ulimit -v {}; ulimit -c 0; exec \"$0\" \"$@\"", s.limits().0)]).arg(exe());
    c
}

/// does this case kill the process (not merely fail)?
fn dies(s: &Suite, case: &Case, big: bool, dir: &Path) -> Option<bool> {
    let f = dir.join("try");
    std::fs::write(&f, case.to_text()).unwrap();
    let mut c = limited(s)
        .args(["try", s.id, f.to_str().unwrap(), if big { "big" } else { "small" }])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().ok()? {
            return match (st.code(), st.signal()) {
                (Some(0), _) => Some(false),
                (Some(10), _) => Some(true),
                // aborted (a panic while panicking), segmentation fault (stack exhausted), ...
                (None, Some(6 | 11 | 7 | 4)) => Some(true),
                // did not terminate
                (Some(12), _) => Some(true),
                _ => None,
            };
        }
        if t.elapsed() > Duration::from_secs(140 + s.limits().1) {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

/// minimise a case that kills the process: drop operations, then shorten repetitions
fn shrink_dying(s: &Suite, mut case: Case, big: bool, dir: &Path) -> Case {
    let end = Instant::now() + Duration::from_secs(90);
    let mut chunk = case.ops.len().max(1);
    while chunk >= 1 && Instant::now() < end {
        let mut i = 0;
        let mut any = false;
        while i < case.ops.len() && Instant::now() < end {
            let mut c = case.clone();
            c.ops.drain(i..(i + chunk).min(case.ops.len()));
            if dies(s, &c, big, dir) == Some(true) {
                case = c;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        if chunk > 1 {
            chunk /= 2;
        }
    }
    for i in 0..case.ops.len() {
        let mut c = case.clone();
        c.ops[i].rep = 1;
        if Instant::now() < end && dies(s, &c, big, dir) == Some(true) {
            case = c;
        }
    }
    case
}

fn record_violation(s: &Suite, tier: &str, seed: u64, case: &Case, why: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.case", s.id, case_hash(case)));
    let mut t = format!("# property {}\n# tier {}\n# seed {}\n", s.id, tier, seed);
    for l in why.lines() {
        t.push_str(&format!("# {}\n", l));
    }
    t.push_str(&case.to_text());
    let _ = std::fs::write(&path, t);
    path
}

/// coverage-guided search: one libFuzzer process per core, each with its own seed, corpus and number of runs
fn guided(s: &Suite, seed: u64, runs: u64, par: usize, dir: &Path, stats: &mut Stats) -> Result<(u64, Option<(Case, String)>), String> {
    let Some(bin) = std::env::var_os("GBT_FUZZ") else { return Ok((0, None)) };
    let mut jobs = vec![];
    for j in 0..par {
        let corpus = dir.join(format!("corpus-{}", j));
        std::fs::create_dir_all(&corpus).map_err(|e| e.to_string())?;
        let log = File::create(dir.join(format!("fuzz-{}", j))).map_err(|e| e.to_string())?;
        let c = Command::new(&bin)
            .arg(&corpus)
            .arg(format!("-seed={}", (seed.wrapping_mul(1000) + j as u64 + fnv(s.id) % 1_000_000) % 0xffff_ffff + 1))
            .arg(format!("-runs={}", runs))
            .arg(format!("-max_len={}", 16 + 10 * s.max_ops))
            .arg(format!("-artifact_prefix={}/", corpus.display()))
            .args(["-len_control=0", "-timeout=200", "-rss_limit_mb=2500", "-print_final_stats=1", "-verbosity=1"])
            .env("GBT_PROP", s.id)
            .env("GBT_CUR", dir.join(format!("fcur-{}", j)))
            .current_dir(dir)
            .stdout(Stdio::null())
            .stderr(log)
            .spawn()
            .map_err(|e| format!("cannot start the fuzzer: {}", e))?;
        jobs.push((j, c));
    }
    let mut bad = None;
    while !jobs.is_empty() && bad.is_none() {
        jobs.retain_mut(|(j, c)| match c.try_wait() {
            Ok(Some(st)) => {
                if !st.success() {
                    bad = Some((*j, format!("{:?}", st)));
                }
                false
            }
            _ => true,
        });
        std::thread::sleep(Duration::from_millis(20));
    }
    for (_, c) in &mut jobs {
        let _ = c.kill();
        let _ = c.wait();
    }
    let mut total = 0;
    for j in 0..par {
        let t = std::fs::read_to_string(dir.join(format!("fuzz-{}", j))).unwrap_or_default();
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("stat::number_of_executed_units:") {
                total += x.trim().parse::<u64>().unwrap_or(0);
            }
            let mut w = l.split_whitespace().skip_while(|x| *x != "cov:").skip(1);
            if let Some(x) = w.next() {
                stats.max("edges reached by the coverage-guided search", x.parse().unwrap_or(0));
            }
        }
        stats.add("inputs kept by the coverage-guided search", std::fs::read_dir(dir.join(format!("corpus-{}", j))).map_or(0, |d| d.count() as u64));
    }
    stats.add("cases run by the coverage-guided search", total);
    let Some((j, how)) = bad else { return Ok((total, None)) };
    let c = std::fs::read_to_string(dir.join(format!("fcur-{}", j))).ok().and_then(|t| Case::from_text(&t));
    match c {
        Some(c) if dies(s, &c, false, dir) == Some(true) => {
            let c = shrink_dying(s, c, false, dir);
            let why = match explain(s, &c, dir) {
                Some(e) => e,
                None => "the process was ended by a signal".to_string(),
            };
            Ok((total, Some((c, why))))
        }
        _ => {
            let t = std::fs::read_to_string(dir.join(format!("fuzz-{}", j))).unwrap_or_default();
            let tail: String = t.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
            Err(format!("the fuzzer ended with {} but its last case passes: {}", how, tail))
        }
    }
}

/// why the case fails, from a process of its own
fn explain(s: &Suite, c: &Case, dir: &Path) -> Option<String> {
    let f = dir.join("why");
    std::fs::write(&f, c.to_text()).ok()?;
    let o = limited(s).args(["replay", s.id, f.to_str()?]).output().ok()?;
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    t.lines().find_map(|l| l.strip_prefix("FAILS: ").map(|x| x.to_string()))
}

fn check(id: &str) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let s = get_suite(id);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let cases = std::env::var("GBT_CASES").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "quick" { s.quick } else { s.thorough });
    let limit = Duration::from_secs(std::env::var("GBT_LIMIT_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "quick" { 780 } else { 6 * 3600 }));
    let dir = std::env::temp_dir().join(format!("gbt-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let par = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).max(1);
    let per = cases.div_ceil(SHARDS);
    let mut next = 0;
    let mut jobs: Vec<Job> = vec![];
    let mut died: Vec<(u64, String)> = vec![];
    let mut failed: Vec<u64> = vec![];
    let mut error: Option<String> = None;
    loop {
        while jobs.len() < par && next < SHARDS && failed.is_empty() && died.is_empty() && error.is_none() {
            let log = File::create(dir.join(format!("log-{}", next))).unwrap();
            let child = limited(&s)
                .args(["worker", id, tier, &seed.to_string(), &next.to_string(), &per.to_string(), dir.to_str().unwrap()])
                .stdout(Stdio::null())
                .stderr(log)
                .spawn();
            match child {
                Ok(child) => jobs.push(Job { shard: next, child }),
                Err(e) => error = Some(format!("cannot start a worker: {}", e)),
            }
            next += 1;
        }
        if jobs.is_empty() {
            break;
        }
        let mut i = 0;
        while i < jobs.len() {
            match jobs[i].child.try_wait() {
                Ok(Some(st)) => {
                    let sh = jobs[i].shard;
                    jobs.remove(i);
                    match (st.code(), st.signal()) {
                        (Some(0), _) => {}
                        (Some(10), _) => failed.push(sh),
                        (Some(12), _) => died.push((sh, format!("a case was still running after {} s of CPU time", s.limits().1))),
                        (None, Some(x @ (6 | 11 | 7 | 4))) => died.push((sh, format!("the process was ended by signal {}", x))),
                        (c, g) => {
                            let log = std::fs::read_to_string(dir.join(format!("log-{}", sh))).unwrap_or_default();
                            error = Some(format!("worker {} ended with code {:?} signal {:?} {}", sh, c, g, log));
                        }
                    }
                }
                Ok(None) => i += 1,
                Err(e) => {
                    error = Some(e.to_string());
                    i += 1;
                }
            }
        }
        // one failing shard decides; the others need not go on
        let stop = !failed.is_empty() || !died.is_empty() || error.is_some() || t0.elapsed() > limit;
        if stop && !jobs.is_empty() {
            // let shrinking shards finish for a moment: the smallest failure is reported
            let grace = Instant::now();
            while grace.elapsed() < Duration::from_secs(if error.is_some() { 0 } else { 3 }) && !jobs.is_empty() {
                jobs.retain_mut(|j| match j.child.try_wait() {
                    Ok(Some(st)) => {
                        if st.code() == Some(10) {
                            failed.push(j.shard)
                        }
                        false
                    }
                    _ => true,
                });
                std::thread::sleep(Duration::from_millis(5));
            }
            for j in &mut jobs {
                let _ = j.child.kill();
                let _ = j.child.wait();
            }
            jobs.clear();
            if failed.is_empty() && died.is_empty() && error.is_none() {
                error = Some(format!("not finished after {} s", limit.as_secs()));
            }
        }
        std::thread::sleep(Duration::from_millis(3));
    }

    // gather
    let mut stats = Stats::default();
    let (mut evals, mut foreign, mut ops) = (0u64, 0u64, 0u64);
    let mut hs: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    for sh in 0..SHARDS {
        let Ok(t) = std::fs::read_to_string(dir.join(format!("stat-{}", sh))) else { continue };
        for l in t.lines() {
            let mut w = l.splitn(3, ' ');
            match (w.next(), w.next(), w.next()) {
                (Some("evals"), Some(x), _) => evals += x.parse::<u64>().unwrap_or(0),
                (Some("foreign"), Some(x), _) => foreign += x.parse::<u64>().unwrap_or(0),
                (Some("ops"), Some(x), _) => ops += x.parse::<u64>().unwrap_or(0),
                (Some("h"), Some(x), _) => {
                    hs.insert(u64::from_str_radix(x, 16).unwrap_or(0));
                }
                (Some("c"), Some(v), Some(k)) => stats.add(k, v.parse().unwrap_or(0)),
                (Some("m"), Some(v), Some(k)) => stats.max(k, v.parse().unwrap_or(0)),
                _ => {}
            }
        }
        if samples.len() < 4 {
            if let Some(c) = std::fs::read_to_string(dir.join(format!("sample-{}", sh))).ok().and_then(|t| Case::from_text(&t)) {
                samples.push(c);
            }
        }
    }

    let mut violation: Option<(Case, String)> = None;
    let mut by_fuzz = false;
    if tier == "thorough" && failed.is_empty() && died.is_empty() && error.is_none() {
        match guided(&s, seed, s.quick / 5, par, &dir, &mut stats) {
            Ok((n, found)) => {
                evals += n;
                by_fuzz = found.is_some();
                violation = found;
            }
            Err(e) => error = Some(e),
        }
    }
    if !failed.is_empty() {
        let mut best: Option<(Case, String)> = None;
        for sh in &failed {
            let Some(c) = std::fs::read_to_string(dir.join(format!("fail-{}", sh))).ok().and_then(|t| Case::from_text(&t)) else { continue };
            let why = std::fs::read_to_string(dir.join(format!("why-{}", sh))).unwrap_or_default();
            if best.as_ref().is_none_or(|b| c.ops.len() < b.0.ops.len()) {
                best = Some((c, why));
            }
        }
        violation = best;
    } else if let Some((sh, how)) = died.first() {
        // confirm in fresh processes before believing it
        match std::fs::read_to_string(dir.join(format!("cur-{}", sh))).ok().and_then(|t| Case::from_text(&t)) {
            Some(c) if dies(&s, &c, tier == "thorough", &dir) == Some(true) => {
                let c = if how.contains("CPU") { c } else { shrink_dying(&s, c, tier == "thorough", &dir) };
                violation = Some((c, how.clone()));
            }
            _ => error = Some(format!("worker {}: {}, but not when the case is run again", sh, how)),
        }
    }

    // samples written out as readable histories
    let mut sample_txt = vec![];
    if violation.is_none() && error.is_none() {
        for c in samples {
            let mut out = vec![];
            let _ = s.judge(&c, true, tier == "thorough", &mut out);
            let n = out.len();
            let mut t: Vec<String> = out.into_iter().take(12).map(|l| l.chars().take(160).collect()).collect();
            if n > 12 {
                t.push(format!("... {} more steps", n - 12));
            }
            sample_txt.push((t, c.ops.len()));
        }
    }
    let mut ev = String::new();
    use std::fmt::Write as _;
    let hist = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ");
    let _ = write!(
        ev,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {}, \"operations_generated\": {}, \"ended_early_outside_property\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"maxima\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        json_str(id), json_str(tier), seed, evals, hs.len(), ops, foreign, json_str(s.rule),
        hist(&stats.counts), hist(&stats.maxes),
        sample_txt.iter().map(|(t, n)| format!("{{\"operation_records\": {}, \"history\": [{}]}}", n, t.iter().map(|l| json_str(l)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(",\n   "),
        json_str("library built in release mode with debug assertions and overflow checks; element and summary implementations used by the checks satisfy the documented contracts"),
        t0.elapsed().as_secs_f64(),
        violation.is_some() as u32,
    );
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(evdir.join(format!("{}.json", id)), ev) {
        error.get_or_insert(format!("cannot write the evidence: {}", e));
    }
    let _ = std::fs::remove_dir_all(&dir);

    if let Some((c, why)) = violation {
        let p = record_violation(&s, if by_fuzz { "quick" } else { tier }, seed, &c, &why);
        println!("{}: {}", id, why.lines().next().unwrap_or("").chars().take(600).collect::<String>());
        println!("  history: {}", c.ops.iter().take(12).map(|o| s.kind_name(o.k)).collect::<Vec<_>>().join(", "));
        println!("VIOLATION property={} replay={}", id, p.display());
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR {}: {}", id, e);
        return 2;
    }
    println!("{}: held on {} cases ({} distinct non-trivial), {:.1} s", id, evals, hs.len(), t0.elapsed().as_secs_f64());
    let _ = std::io::stdout().flush();
    0
}
