//! Coverage-guided search for a case that breaks a property (libFuzzer).
//! GBT_PROP: the property; GBT_CUR: file that always holds the case being run.
#![no_main]
extern crate libfuzzer_sys;
use gbt_harness::case::Case;
use gbt_harness::suite::{suite, Suite};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::OnceLock;

struct Ctx {
    suite: Suite,
    table: Vec<u8>,
    cur: File,
}
static CTX: OnceLock<Ctx> = OnceLock::new();

fn ctx() -> &'static Ctx {
    CTX.get_or_init(|| {
        std::panic::set_hook(Box::new(|_| {}));
        let suite = suite(&std::env::var("GBT_PROP").expect("GBT_PROP")).expect("no such property");
        let table = suite.kinds.iter().flat_map(|&(k, w)| std::iter::repeat_n(k, w as usize)).collect();
        let cur = File::create(std::env::var("GBT_CUR").expect("GBT_CUR")).expect("GBT_CUR");
        Ctx { suite, table, cur }
    })
}

#[no_mangle]
#[allow(improper_ctypes_definitions)]
pub extern "C" fn rust_fuzzer_test_input(data: &[u8]) -> i32 {
    let x = ctx();
    let Some(mut case) = Case::from_bytes(data, &x.table, x.suite.max_ops) else { return -1 };
    if x.suite.id == "C28" {
        // the huge trees of the random phase take minutes and gigabytes here
        case.cfg[0] &= 0x7fff;
    }
    let _ = x.cur.write_all_at(case.to_text().as_bytes(), 0);
    if x.suite.judge(&case, false, false, &mut vec![]).is_err() {
        std::process::exit(10);
    }
    0
}
