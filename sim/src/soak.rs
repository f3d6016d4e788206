//! H05: what the library holds on to once everything is dropped. A script (a
//! whole run of another property's world: connections, traffic, faults,
//! teardown) is played to its end; then it is played again, and a fresh script
//! after it, and the live bytes of the process must come back to where they
//! were. A growth may be a one-time initialisation or a cache being filled, so
//! it is a violation only if it goes on through a long repetition.
use crate::alloc;
use crate::rng::{mix, Src};
use crate::scenario::{self, RunRes};
use crate::sim::{viol, Prop, Viol};
use crate::stats::{St, Stats};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

/// repetitions that decide whether a growth goes on
const REPS: u64 = 2048;
/// bytes the later half of them may add
const SLACK: usize = 256;

static FOLLOWED: AtomicU64 = AtomicU64::new(0);

fn live() -> usize {
    alloc::begin().0
}

/// how long a growth may be followed: longer when a finding is confirmed or
/// replayed, so that what was decided once is decided again
pub static PATIENT: AtomicBool = AtomicBool::new(true);

/// plays `rep` up to REPS times; by how much the least of the end exceeds the
/// most of the second quarter (what is only kept until the next time does not
/// count). Zero as soon as a half of the repetitions adds nothing to what the
/// half before it had at most, and when the script is too slow to be followed.
fn goes_on(soon: u64, rep: &dyn Fn(u64)) -> usize {
    let (mut most, mut least) = (0, usize::MAX);
    let (mut before, mut since) = (0, 0);
    let mut look = soon;
    let t0 = Instant::now();
    for k in 0..REPS {
        rep(k);
        let l = live();
        if k < look / 2 {
            before = before.max(l);
        } else {
            since = since.max(l);
        }
        if k + 1 == look {
            if since <= before {
                return 0;
            }
            before = before.max(since);
            since = 0;
            look *= 2;
        }
        if k == 15 {
            let secs = if PATIENT.load(Relaxed) { 50 } else { 20 };
            if t0.elapsed() * (REPS / 16) as u32 > Duration::from_secs(secs) {
                return 0;
            }
        }
        if (REPS / 4..REPS / 2).contains(&k) {
            most = most.max(l);
        }
        if k >= REPS - REPS / 16 {
            least = least.min(l);
        }
    }
    least.saturating_sub(most)
}

pub fn run(src: &mut Src, st: &mut Stats, trace: bool) -> RunRes {
    let inner = *src.pick(&[
        Prop::S02,
        Prop::H01,
        Prop::H01,
        Prop::H03,
        Prop::E01,
        Prop::E02,
        Prop::E03,
        Prop::E04,
        Prop::C01,
        Prop::I01,
        Prop::I02,
        Prop::V01,
        Prop::S04,
        Prop::S05,
        Prop::H04,
        Prop::Q01,
        Prop::R01,
        Prop::R02,
        Prop::R03,
    ]);
    let seed = src.below(1 << 32);
    let from = src.mark();
    let first = scenario::run_one(inner, src, st, trace, false);
    let script = src.since(from);
    let again = |_: u64| {
        let mut s = Src::replay(script.clone()).quiet();
        drop(scenario::run_one(inner, &mut s, &mut Stats::new(), false, false));
    };
    let fresh = |k: u64| {
        let mut s = Src::record(mix(seed ^ k << 32)).quiet();
        drop(scenario::run_one(inner, &mut s, &mut Stats::new(), false, false));
    };
    st.add(St::replays, 2);
    let a = live();
    again(0);
    let b = live();
    fresh(0);
    let c = live();
    let mut res: Result<(), Viol> = Ok(());
    let mut notes = vec![];
    let mut confirm = |what: &str, soon: u64, rep: &dyn Fn(u64)| {
        // a library that keeps something bounded grows and shrinks all the time
        let n = FOLLOWED.fetch_add(1, Relaxed);
        if n >= 100 && n % 16 != 0 {
            return;
        }
        st.inc(St::soaks);
        let n = goes_on(soon, rep);
        notes.push(format!("{} again, up to {} times: {} bytes more in the later half of them", what, REPS, n));
        if n >= SLACK && res.is_ok() {
            res = viol(
                "memory not given back",
                format!(
                    "with every buffer and packet dropped, {} over and over ({:?} traffic) leave more and more memory behind ({})",
                    what,
                    inner,
                    amount(n)
                ),
            );
        }
    };
    if b > a {
        confirm("the same connections", 64, &again);
    }
    if c > b {
        confirm("ever new connections", 256, &fresh);
    }
    let mut t = first.trace;
    if trace {
        t.extend(notes);
    }
    RunRes {
        res,
        hash: first.hash,
        trace: t,
        known: vec![],
        nontrivial: first.nontrivial,
        sample: format!("H05 over {}", first.sample),
    }
}
/// coarse, so that a replay says the same
fn amount(n: usize) -> String {
    let per = n as u64 / (REPS / 2);
    match per {
        0 => "less than a byte each".into(),
        1..=99 => "tens of bytes each".into(),
        100..=9999 => "hundreds of bytes or a few kilobytes each".into(),
        _ => "tens of kilobytes or more each".into(),
    }
}
