//! Property-based checks of the workspace's encodings (property F01).
//! codec run SUB CASES SEED  -> one JSON line of results, the failing case shrunk
//! codec replay SUB CASE     -> exit 1 with the message when the case fails
mod flat;
mod hll;
mod ints;

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// what one case showed: whether it was non-trivial, and labels for the evidence
#[derive(Default)]
pub struct Seen {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Seen {
    pub fn label(&mut self, name: &'static str, on: bool) {
        if on {
            self.labels.push(name)
        }
    }
}

pub type Res = Result<Seen, String>;

pub fn guarded(f: impl FnOnce() -> Res) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!(
            "panicked: {}",
            e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?")
        )),
    }
}

#[macro_export]
macro_rules! need {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)) } };
}

fn run<C: Serialize + Debug>(strategy: impl Strategy<Value = C>, check: fn(&C) -> Res, cases: u32, seed: u64) {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    let mut runner = TestRunner::new_with_rng(
        Config { cases, failure_persistence: None, max_shrink_iters: 200_000, max_shrink_time: 60_000, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &bytes),
    );
    let st = RefCell::new((0u64, HashSet::new(), BTreeMap::<&'static str, u64>::new(), Vec::<serde_json::Value>::new(), false));
    let trace = std::env::var("CODEC_TRACE").ok();
    let out = runner.run(&strategy, |case| {
        if let Some(t) = &trace {
            // the caller wants to know the case that kills or hangs the process
            let mut f = std::fs::File::create(t).unwrap();
            f.write_all(serde_json::to_string(&case).unwrap().as_bytes()).unwrap();
        }
        let r = guarded(|| check(&case));
        let mut s = st.borrow_mut();
        if !s.4 {
            s.0 += 1;
        }
        match r {
            Ok(seen) => {
                if !s.4 {
                    for l in seen.labels {
                        *s.2.entry(l).or_default() += 1;
                    }
                    if seen.nontrivial {
                        let txt = serde_json::to_string(&case).unwrap();
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        txt.hash(&mut h);
                        if s.1.insert(h.finish()) && txt.len() < 1200 && s.3.len() < 3 {
                            let v = serde_json::from_str(&txt).unwrap();
                            s.3.push(v);
                        }
                    }
                }
                Ok(())
            }
            Err(m) => {
                s.4 = true;
                Err(TestCaseError::fail(m))
            }
        }
    });
    let s = st.into_inner();
    let fail = match out {
        Ok(()) => None,
        Err(TestError::Fail(m, case)) => Some(serde_json::json!({"case": case, "message": m.message()})),
        Err(TestError::Abort(m)) => {
            eprintln!("aborted: {}", m.message());
            std::process::exit(3)
        }
    };
    println!("{}", serde_json::json!({"evaluations": s.0, "hashes": s.1.iter().collect::<Vec<_>>(), "labels": s.2, "samples": s.3, "fail": fail}));
}

fn replay<C: DeserializeOwned>(check: fn(&C) -> Res, txt: &str) {
    let case: C = serde_json::from_str(txt).expect("case");
    if let Err(m) = guarded(|| check(&case)) {
        println!("{m}");
        std::process::exit(1)
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let go = a[1] == "run";
    let n = || a[3].parse::<u32>().unwrap();
    let seed = || a[4].parse::<u64>().unwrap();
    macro_rules! sub {
        ($s:expr, $c:expr) => {
            if go { run($s, $c, n(), seed()) } else { replay($c, &a[3]) }
        };
    }
    match a[2].as_str() {
        "varint" => sub!(ints::varint_s(), ints::varint),
        "signed" => sub!(ints::signed_s(), ints::signed),
        "cut" => sub!(ints::cut_s(), ints::cut),
        "sketch" => sub!(hll::sketch_s(), hll::sketch),
        "flat" => sub!(flat::flat_s(), flat::flat),
        x => panic!("no sub {x}"),
    }
}
