//! One worker process: single-threaded, runs its share of the seeds.
use crate::rng::{mix, Src};
use crate::scenario::{self, RunRes};
use crate::sim::{Prop, PROPS};
use crate::stats::{Stats, NAMES};
use crate::{alloc, known, seam};
use std::collections::HashSet;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// exit code of a single run that could not be made
pub const TROUBLE: i32 = 98;

pub fn prop(id: &str) -> Option<Prop> {
    PROPS.iter().find(|p| p.0 == id).map(|p| p.1)
}
pub fn run_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut h = mix(seed);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ index.wrapping_mul(0x1000_0000_01b3))
}
pub fn prepare(verif: &str) {
    seam::install_hook();
    alloc::limit(true);
    known::load(&format!("{}/KNOWN_FINDINGS", verif));
}
/// one run with a recorded tape
pub fn record(p: Prop, rs: u64, st: &mut Stats, trace: bool) -> (RunRes, Vec<u64>) {
    let mut src = Src::record(rs);
    let r = scenario::run(p, &mut src, st, trace);
    (r, src.tape)
}
pub fn replay(p: Prop, tape: &[u64], trace: bool) -> (RunRes, usize) {
    let mut src = Src::replay(tape.to_vec());
    let mut st = Stats::new();
    let r = scenario::run(p, &mut src, &mut st, trace);
    let used = src.used();
    (r, used)
}

// ---------------------------------------------------------------- shared page
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
/// words 0..64: the index each worker is running (+1); 64: lowest violating index; 65: stop now
pub struct Page(*const AtomicU64);
pub const STOP_AT: usize = 64;
pub const HALT: usize = 65;
impl Page {
    pub fn open(path: &str, create: bool) -> Option<Page> {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).ok()?;
        if create {
            f.set_len(4096).ok()?;
        }
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        if p as isize == -1 {
            return None;
        }
        Some(Page(p as *const AtomicU64))
    }
    pub fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(i) }
    }
}

// ---------------------------------------------------------------- worker
/// args: property seed start stride total seconds workdir verif
pub fn main(a: &[String]) -> i32 {
    let (Some(p), Some(seed), Some(start), Some(stride), Some(total), Some(secs)) =
        (prop(&a[0]), num(&a[1]), num(&a[2]), num(&a[3]), num(&a[4]), num(&a[5]))
    else {
        return 2;
    };
    let dir = &a[6];
    let Some(page) = Page::open(&format!("{}/page", dir), false) else { return 2 };
    prepare(&a[7]);
    crate::threads::CPU.store(start, SeqCst);
    let t0 = Instant::now();
    crate::soak::PATIENT.store(false, std::sync::atomic::Ordering::Relaxed);
    let mut st = Stats::new();
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut redone = 0u64;
    let mut mismatched = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut known: std::collections::BTreeMap<String, (String, u64)> = Default::default();
    let mut violation = None;
    let mut i = start;
    while i < total {
        if i > page.at(STOP_AT).load(SeqCst) || page.at(HALT).load(SeqCst) != 0 {
            break;
        }
        if runs & 15 == 0 && t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        page.at(start as usize).store(i + 1, SeqCst);
        let (r, tape) = record(p, run_seed(seed, &a[0], i), &mut st, false);
        runs += 1;
        if r.nontrivial {
            nontrivial += 1;
            hashes.insert(r.hash);
            if samples.len() < 2 && runs > 3 {
                samples.push(format!("run {}: {}; event hash {:016x}", i, r.sample, r.hash));
            }
        }
        for (sig, text) in r.known {
            known.entry(sig).or_insert((text, 0)).1 += 1;
        }
        if let Err(v) = r.res {
            page.at(STOP_AT).fetch_min(i, SeqCst);
            violation = Some((i, v));
            break;
        }
        if runs <= 24 {
            // the same choices again must be the same execution
            let (r2, _) = replay(p, &tape, false);
            redone += 1;
            if r2.hash != r.hash || r2.res.is_err() {
                mismatched += 1;
            }
        }
        i += stride;
    }
    page.at(start as usize).store(u64::MAX, SeqCst);
    let mut out = String::new();
    for (k, v) in [("runs", runs), ("nontrivial", nontrivial), ("redone", redone), ("mismatched", mismatched)] {
        out += &format!("{} {}\n", k, v);
    }
    for (k, name) in NAMES.iter().enumerate() {
        out += &format!("stat {} {}\n", name, st.0[k]);
    }
    for (sig, (text, n)) in &known {
        out += &format!("known {}\t{}\t{}\n", n, sig, text.replace('\n', " "));
    }
    for s in &samples {
        out += &format!("sample {}\n", s.replace('\n', " "));
    }
    if let Some((i, v)) = violation {
        out += &format!("violation {}\t{}\t{}\n", i, v.class.replace(['\n', '\t'], " "), v.msg.replace(['\n', '\t'], " "));
    }
    let mut bin = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        bin.extend_from_slice(&h.to_le_bytes());
    }
    if std::fs::write(format!("{}/h{}", dir, start), bin).is_err() {
        return 2;
    }
    if std::fs::write(format!("{}/r{}", dir, start), out).is_err() {
        return 2;
    }
    0
}

pub fn num(s: &str) -> Option<u64> {
    s.parse().ok()
}

pub fn read_tape(path: &str) -> Option<Vec<u64>> {
    let t = std::fs::read_to_string(path).ok()?;
    Some(t.split_whitespace().filter_map(|x| x.parse().ok()).collect())
}
pub fn tape_text(t: &[u64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

/// args: property verif out-file (seed <run seed> | tape <file>)
/// Runs once with a trace. Exit 0 quiet, 1 violation. The tape and the trace
/// are written as the run proceeds, so that they survive its death.
pub fn one(a: &[String]) -> i32 {
    let Some(p) = prop(&a[0]) else { return TROUBLE };
    prepare(&a[1]);
    let mut src = match a[3].as_str() {
        "seed" => Src::record(num(&a[4]).unwrap_or(0)),
        _ => match read_tape(&a[4]) {
            Some(t) => Src::replay(t),
            None => return TROUBLE,
        },
    };
    crate::rng::spill_to(&a[2]);
    let mut st = Stats::new();
    let r = scenario::run(p, &mut src, &mut st, true);
    finish_one(&a[2], r, src.tape)
}
fn finish_one(path: &str, r: RunRes, tape: Vec<u64>) -> i32 {
    let Ok(mut f) = std::fs::File::create(path) else { return TROUBLE };
    let mut out = String::new();
    let bad = r.res.is_err();
    if let Err(v) = &r.res {
        out += &format!("class {}\nmsg {}\n", v.class.replace('\n', " "), v.msg.replace('\n', " "));
    }
    out += &format!("hash {:016x}\ntape {}\n", r.hash, tape_text(&tape));
    for l in &r.trace {
        out += &format!("trace {}\n", l.replace('\n', " "));
    }
    if f.write_all(out.as_bytes()).is_err() {
        return TROUBLE;
    }
    bad as i32
}

/// args: property verif out-file seed first stride index
/// Re-runs a worker's sequence up to `index` in one process.
pub fn history(a: &[String]) -> i32 {
    let (Some(p), Some(seed), Some(first), Some(stride), Some(index)) =
        (prop(&a[0]), num(&a[3]), num(&a[4]), num(&a[5]), num(&a[6]))
    else {
        return TROUBLE;
    };
    prepare(&a[1]);
    let mut i = first;
    let mut n = 0u64;
    loop {
        let mut st = Stats::new();
        let last = i == index;
        let (r, tape) = record(p, run_seed(seed, &a[0], i), &mut st, last);
        if last || r.res.is_err() {
            return finish_one(&a[2], r, tape);
        }
        n += 1;
        if n <= 24 {
            let _ = replay(p, &tape, false);
        }
        i += stride;
        if i > index {
            return TROUBLE;
        }
    }
}
