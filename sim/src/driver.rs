//! The parent process: starts the workers, watches them, reports.
use crate::stats::NAMES;
use crate::worker::{num, prop, read_tape, run_seed, tape_text, Page, HALT, STOP_AT};
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

const JOBS: u64 = 8;
/// a single run that takes this long did not return (runs take microseconds to a few seconds)
const HANG: Duration = Duration::from_secs(60);

/// (runs, seconds) per property and tier
fn plan(id: &str, thorough: bool) -> (u64, u64) {
    let quick: u64 = 5 * match id {
        "C01" => 80_000,
        "C02" => 36_000,
        "H05" => 60_000,
        "R01" | "R02" => 100_000,
        "R03" => 120_000,
        "E04" => 300_000,
        "E01" | "S04" => 300_000,
        _ => 200_000,
    };
    let n = std::env::var("MQSIM_RUNS").ok().and_then(|s| s.parse().ok());
    if thorough {
        (n.unwrap_or(quick * 12), 800)
    } else {
        (n.unwrap_or(quick), 150)
    }
}

#[derive(Clone, Debug)]
enum Bad {
    /// an oracle said no
    Oracle(String, String),
    Death(String),
    Hang,
}
impl Bad {
    fn class(&self) -> String {
        match self {
            Bad::Oracle(c, _) => c.clone(),
            Bad::Death(d) => format!("abnormal termination: {}", d),
            Bad::Hang => "no return".into(),
        }
    }
    fn msg(&self) -> String {
        match self {
            Bad::Oracle(_, m) => m.clone(),
            Bad::Death(d) => format!("the process serving the connection ended: {}", d),
            Bad::Hang => "a call into the library did not return".into(),
        }
    }
}

fn death(s: ExitStatus) -> String {
    if s.code() == Some(crate::alloc::EXIT_OOM) {
        "allocated more than 3 GB".into()
    } else if let Some(sig) = s.signal() {
        match sig {
            11 => "signal 11 (stack overflow or bad access)".into(),
            6 => "signal 6 (abort)".into(),
            n => format!("signal {}", n),
        }
    } else {
        format!("exit code {}", s.code().unwrap_or(-1))
    }
}

fn exe() -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.stdin(Stdio::null()).stdout(Stdio::null());
    c
}

/// wait with a time limit; None means it had to be killed
fn wait(c: &mut Child, limit: Duration) -> Option<ExitStatus> {
    let t0 = Instant::now();
    let mut nap = 1;
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    }
}

#[derive(Default, Clone)]
struct One {
    bad: Option<Bad>,
    tape: Vec<u64>,
    trace: Vec<String>,
    hash: String,
}

fn outcome(path: &str, s: Option<ExitStatus>) -> Option<One> {
    let mut o = One::default();
    // the file is written when the run is over
    let done = std::fs::read_to_string(path);
    match (s, done) {
        (Some(s), Ok(t)) if s.code() == Some(0) || s.code() == Some(1) => {
            let (mut class, mut msg) = (None, String::new());
            for l in t.lines() {
                let (k, v) = l.split_once(' ').unwrap_or((l, ""));
                match k {
                    "class" => class = Some(v.to_string()),
                    "msg" => msg = v.to_string(),
                    "hash" => o.hash = v.to_string(),
                    "tape" => o.tape = v.split_whitespace().filter_map(num).collect(),
                    "trace" => o.trace.push(v.to_string()),
                    _ => {}
                }
            }
            o.bad = class.map(|c| Bad::Oracle(c, msg));
        }
        (Some(s), _) if s.code() == Some(crate::worker::TROUBLE) => return None,
        (s, _) => {
            o.bad = Some(match s {
                Some(s) => Bad::Death(death(s)),
                None => Bad::Hang,
            });
            o.tape = read_tape(&format!("{}.tape", path)).unwrap_or_default();
            let t = std::fs::read_to_string(format!("{}.trace", path)).unwrap_or_default();
            let n = t.lines().count();
            o.trace = t.lines().skip(n.saturating_sub(2000)).map(|l| l.to_string()).collect();
        }
    }
    Some(o)
}

struct Ctx {
    id: String,
    verif: String,
    dir: String,
    seed: u64,
}
impl Ctx {
    fn one(&self, mode: &str, arg: &str, limit: Duration) -> Option<One> {
        let out = format!("{}/one", self.dir);
        for e in ["", ".tape", ".trace"] {
            let _ = std::fs::remove_file(format!("{}{}", out, e));
        }
        let mut c = exe().args(["one", &self.id, &self.verif, &out, mode, arg]).stderr(Stdio::null()).spawn().ok()?;
        let s = wait(&mut c, limit);
        outcome(&out, s)
    }
    fn tape(&self, t: &[u64], limit: Duration) -> Option<One> {
        let f = format!("{}/tape", self.dir);
        std::fs::write(&f, tape_text(t)).ok()?;
        self.one("tape", &f, limit)
    }
    fn history(&self, first: u64, stride: u64, index: u64) -> Option<One> {
        let out = format!("{}/one", self.dir);
        for e in ["", ".tape", ".trace"] {
            let _ = std::fs::remove_file(format!("{}{}", out, e));
        }
        let n = [self.seed, first, stride, index].map(|x| x.to_string());
        let mut c = exe()
            .args(["history", &self.id, &self.verif, &out, &n[0], &n[1], &n[2], &n[3]])
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let s = wait(&mut c, Duration::from_secs(200));
        outcome(&out, s)
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn unesc(s: &str) -> String {
    let s = s.trim().trim_end_matches(',');
    let s = s.strip_prefix('"').unwrap_or(s);
    let s = s.strip_suffix('"').unwrap_or(s);
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('u') => {
                let h: String = it.by_ref().take(4).collect();
                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    o.push(c)
                }
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

struct Found {
    kind: &'static str,
    one: One,
    note: String,
    first: u64,
    index: u64,
    tries: u64,
    original: usize,
}

/// find the smallest replay that reproduces what worker `index % JOBS` saw
fn pin_down(cx: &Ctx, index: u64, bad: &Bad) -> Option<Found> {
    let class = bad.class();
    let rs = run_seed(cx.seed, &cx.id, index).to_string();
    let same = |o: &One| o.bad.as_ref().map(|b| b.class()) == Some(class.clone());
    let first = index % JOBS;
    let long = Duration::from_secs(60);
    if let Some(o) = cx.one("seed", &rs, long) {
        if same(&o) {
            let original = o.tape.len();
            let mut best = o.clone();
            let mut tries = 0;
            match bad {
                Bad::Oracle(..) => {
                    let (tf, of) = (format!("{}/stape", cx.dir), format!("{}/sout", cx.dir));
                    let _ = std::fs::write(&tf, tape_text(&o.tape));
                    let c = exe()
                        .args(["shrink", &cx.id, &cx.verif, &tf, &class, &of, "25"])
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn();
                    if let Ok(mut c) = c {
                        let s = wait(&mut c, Duration::from_secs(90));
                        if s.and_then(|s| s.code()) == Some(0) {
                            let mut t = String::new();
                            if let Some(mut p) = c.stdout.take() {
                                use std::io::Read;
                                let _ = p.read_to_string(&mut t);
                            }
                            tries = t.trim().parse().unwrap_or(0);
                            if let Some(t) = read_tape(&of) {
                                if let Some(n) = cx.tape(&t, long) {
                                    if same(&n) {
                                        best = n;
                                        best.tape = t;
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {
                    let hang = matches!(bad, Bad::Hang);
                    let (lim, total) = if hang { (Duration::from_secs(2), 60) } else { (Duration::from_secs(10), 30) };
                    let mut test = |c: &[u64]| cx.tape(c, lim).filter(|n| same(n)).map(|n| n.tape.len().min(c.len()));
                    let (t, n) = crate::shrink::shrink(o.tape.clone(), Duration::from_secs(total), &mut test);
                    tries = n;
                    if let Some(n) = cx.tape(&t, Duration::from_secs(30)) {
                        if same(&n) {
                            best = n;
                            best.tape = t;
                        }
                    }
                }
            }
            return Some(Found { kind: "tape", one: best, note: String::new(), first, index, tries, original });
        }
    }
    // it takes what earlier runs of the same process left behind
    for _ in 0..3 {
        let Some(o) = cx.history(first, JOBS, index) else { continue };
        if o.bad.is_none() {
            continue;
        }
        let class = o.bad.as_ref().map(|b| b.class());
        let (mut best, mut from, mut tries) = (o, first, 0);
        let mut back = 0u64;
        // the fewest preceding runs, by doubling
        loop {
            let f = index.saturating_sub(back * JOBS);
            if f <= first || f % JOBS != first || tries > 16 {
                break;
            }
            tries += 1;
            if let Some(n) = cx.history(f, JOBS, index) {
                if n.bad.as_ref().map(|b| b.class()) == class {
                    best = n;
                    from = f;
                    break;
                }
            }
            back = if back == 0 { 1 } else { back * 2 };
        }
        return Some(Found {
            kind: "history",
            one: best,
            note: "shows only after earlier connections in the same process; the replay re-runs them".into(),
            first: from,
            index,
            tries,
            original: 0,
        });
    }
    None
}

fn write_replay(cx: &Ctx, f: &Found, path: &str) -> std::io::Result<()> {
    let b = f.one.bad.as_ref().unwrap();
    let mut o = String::from("{\n");
    let mut line = |k: &str, v: String| o += &format!(" {}: {},\n", esc(k), v);
    line("property", esc(&cx.id));
    line("kind", esc(f.kind));
    line("class", esc(&b.class()));
    line("message", esc(&b.msg()));
    line("note", esc(&f.note));
    line("verif_seed", cx.seed.to_string());
    line("run_index", f.index.to_string());
    line("run_seed", esc(&run_seed(cx.seed, &cx.id, f.index).to_string()));
    line("history_first", f.first.to_string());
    line("history_stride", JOBS.to_string());
    line("event_hash", esc(&f.one.hash));
    line("shrink_candidates", f.tries.to_string());
    line("choices_before_shrinking", f.original.to_string());
    line("choices", f.one.tape.len().to_string());
    line("tape", esc(&tape_text(&f.one.tape)));
    line("replay_with", esc("bash check.sh --replay <this file>"));
    let t: Vec<String> = f.one.trace.iter().map(|l| format!("  {}", esc(l))).collect();
    o += &format!(" \"trace\": [\n{}\n ]\n}}\n", t.join(",\n"));
    if let Some(d) = std::path::Path::new(path).parent() {
        std::fs::create_dir_all(d)?;
    }
    std::fs::write(path, o)
}

pub fn replay(file: &str, verif: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {}", file);
        return 2;
    };
    let mut f: BTreeMap<String, String> = BTreeMap::new();
    for l in t.lines() {
        if let Some((k, v)) = l.trim().split_once("\": ") {
            let k = k.trim_start_matches('"').to_string();
            f.entry(k).or_insert_with(|| unesc(v));
        }
        if l.contains("\"trace\": [") {
            break;
        }
    }
    let g = |k: &str| f.get(k).cloned().unwrap_or_default();
    let n = |k: &str| num(&g(k)).unwrap_or(0);
    if prop(&g("property")).is_none() {
        eprintln!("not a replay file: {}", file);
        return 2;
    }
    let Some(dir) = scratch("replay", verif) else { return 2 };
    let cx = Ctx { id: g("property"), verif: verif.into(), dir: dir.clone(), seed: n("verif_seed") };
    let o = match g("kind").as_str() {
        "history" => cx.history(n("history_first"), n("history_stride"), n("run_index")),
        "seed" => cx.one("seed", &g("run_seed"), Duration::from_secs(60)),
        _ => {
            let t: Vec<u64> = g("tape").split_whitespace().filter_map(num).collect();
            cx.tape(&t, Duration::from_secs(60))
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    let Some(o) = o else {
        eprintln!("the replay could not be run");
        return 2;
    };
    for l in &o.trace {
        println!("{}", l);
    }
    match &o.bad {
        Some(b) if b.class() == g("class") => {
            let exact = b.msg() == g("message") && o.hash == g("event_hash");
            println!("{}: {}", b.class(), b.msg());
            println!("reproduced {}", if exact { "exactly (same message, same event hash)" } else { "with the same class" });
            println!("VIOLATION property={} replay={}", cx.id, file);
            1
        }
        Some(b) => {
            println!("a different violation: {}: {}", b.class(), b.msg());
            println!("VIOLATION property={} replay={}", cx.id, file);
            1
        }
        None => {
            println!("no violation with this replay on the current tree");
            0
        }
    }
}

fn scratch(what: &str, verif: &str) -> Option<String> {
    let base = if verif.is_empty() { ".".to_string() } else { verif.to_string() };
    let d = format!("{}/work/{}-{}", base, what, std::process::id());
    std::fs::create_dir_all(&d).ok()?;
    Some(d)
}

#[derive(Default)]
struct Sum {
    runs: u64,
    nontrivial: u64,
    redone: u64,
    mismatched: u64,
    stats: BTreeMap<String, u64>,
    known: BTreeMap<String, (String, u64)>,
    samples: Vec<String>,
}

pub fn check(id: &str, tier: &str, verif: &str) -> i32 {
    let t0 = Instant::now();
    if prop(id).is_none() {
        eprintln!("unknown property {}", id);
        return 2;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let (total, secs) = plan(id, thorough);
    let Some(dir) = scratch(id, verif) else {
        eprintln!("cannot make a scratch directory");
        return 2;
    };
    let cx = Ctx { id: id.into(), verif: verif.into(), dir: dir.clone(), seed };
    let code = run(&cx, if thorough { "thorough" } else { "quick" }, total, secs, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn run(cx: &Ctx, tier: &str, total: u64, secs: u64, t0: Instant) -> i32 {
    let Some(page) = Page::open(&format!("{}/page", cx.dir), true) else {
        eprintln!("cannot map the shared page");
        return 2;
    };
    page.at(STOP_AT).store(u64::MAX, SeqCst);
    let mut kids: Vec<Option<Child>> = vec![];
    for k in 0..JOBS {
        let n = [cx.seed, k, JOBS, total, secs].map(|x| x.to_string());
        let c = exe()
            .args(["worker", &cx.id, &n[0], &n[1], &n[2], &n[3], &n[4], &cx.dir, &cx.verif])
            .spawn();
        match c {
            Ok(c) => kids.push(Some(c)),
            Err(e) => {
                eprintln!("cannot start a worker: {}", e);
                return 2;
            }
        }
    }
    let w0 = Instant::now();
    let mut bads: Vec<(u64, Bad)> = vec![];
    let mut slow = 0u64;
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); JOBS as usize];
    let mut failed = false;
    while kids.iter().any(|k| k.is_some()) {
        for k in 0..JOBS as usize {
            let Some(c) = &mut kids[k] else { continue };
            let at = page.at(k).load(SeqCst);
            match c.try_wait() {
                Ok(Some(s)) => {
                    kids[k] = None;
                    let at = page.at(k).load(SeqCst);
                    if at != 0 && at != u64::MAX {
                        // in the middle of a run, whatever the exit code
                        page.at(STOP_AT).fetch_min(at - 1, SeqCst);
                        bads.push((at - 1, Bad::Death(death(s))));
                    } else if s.code() != Some(0) {
                        eprintln!("worker {} ended early: {}", k, s);
                        failed = true;
                        page.at(HALT).store(1, SeqCst);
                    }
                }
                Ok(None) => {
                    if at != last[k].0 {
                        last[k] = (at, Instant::now());
                    } else if at != 0 && at != u64::MAX && last[k].1.elapsed() > HANG {
                        let _ = c.kill();
                        let _ = c.wait();
                        kids[k] = None;
                        page.at(STOP_AT).fetch_min(at - 1, SeqCst);
                        bads.push((at - 1, Bad::Hang));
                    }
                }
                Err(_) => failed = true,
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let search = w0.elapsed().as_secs_f64();
    // collect
    let mut sum = Sum::default();
    let mut hashes: Vec<u64> = vec![];
    for k in 0..JOBS {
        let Ok(t) = std::fs::read_to_string(format!("{}/r{}", cx.dir, k)) else { continue };
        for l in t.lines() {
            let (a, b) = l.split_once(' ').unwrap_or((l, ""));
            match a {
                "runs" => sum.runs += num(b).unwrap_or(0),
                "nontrivial" => sum.nontrivial += num(b).unwrap_or(0),
                "redone" => sum.redone += num(b).unwrap_or(0),
                "mismatched" => sum.mismatched += num(b).unwrap_or(0),
                "stat" => {
                    if let Some((n, v)) = b.rsplit_once(' ') {
                        let x = sum.stats.entry(n.into()).or_insert(0);
                        *x = x.saturating_add(num(v).unwrap_or(0));
                    }
                }
                "known" => {
                    let p: Vec<&str> = b.split('\t').collect();
                    if p.len() == 3 {
                        sum.known.entry(p[1].into()).or_insert((p[2].into(), 0)).1 += num(p[0]).unwrap_or(0);
                    }
                }
                "sample" if sum.samples.len() < 4 => sum.samples.push(b.into()),
                "violation" => {
                    let p: Vec<&str> = b.splitn(3, '\t').collect();
                    if p.len() == 3 {
                        bads.push((num(p[0]).unwrap_or(0), Bad::Oracle(p[1].into(), p[2].into())));
                    }
                }
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(format!("{}/h{}", cx.dir, k)) {
            hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    bads.sort_by_key(|b| b.0);
    // report
    let mut report: Option<(Found, String)> = None;
    for (index, bad) in bads.iter().take(3) {
        println!("run {} (seed {}): {}: {}", index, cx.seed, bad.class(), bad.msg());
        if std::env::var_os("MQSIM_BRIEF").is_some() {
            // for sensitivity studies: no minimisation, no replay file
            println!("VIOLATION property={} replay=none", cx.id);
            return 1;
        }
        match pin_down(cx, *index, bad) {
            Some(f) => {
                let path = format!("{}/replays/{}-{}-{}.json", cx.verif, cx.id, cx.seed, index);
                if let Err(e) = write_replay(cx, &f, &path) {
                    eprintln!("cannot write {}: {}", path, e);
                }
                report = Some((f, path));
                break;
            }
            None => match bad {
                Bad::Hang => {
                    slow += 1;
                    println!("run {} finished when it was repeated: a slow machine, not a violation", index);
                }
                Bad::Death(d) if d.contains("signal 9") || d.contains("signal 15") => {
                    println!("a worker was ended from outside: {}", d);
                    failed = true;
                }
                bad => {
                    // seen once, on real code; report it with the history that showed it
                    let f = Found {
                        kind: "history",
                        one: One { bad: Some(bad.clone()), ..One::default() },
                        note: "did not show again when repeated: the code under test is not deterministic".into(),
                        first: index % JOBS,
                        index: *index,
                        tries: 0,
                        original: 0,
                    };
                    let path = format!("{}/replays/{}-{}-{}.json", cx.verif, cx.id, cx.seed, index);
                    let _ = write_replay(cx, &f, &path);
                    report = Some((f, path));
                    break;
                }
            },
        }
    }
    for (_, (text, _)) in &sum.known {
        println!("KNOWN-FINDING: property={} {}", cx.id, text);
    }
    let wall = t0.elapsed().as_secs_f64();
    let st = |n: &str| sum.stats.get(n).copied().unwrap_or(0);
    let mut faults = vec![];
    let mut counts = vec![];
    for n in NAMES {
        if *n == "simulated_time_us" {
            continue;
        }
        let e = format!("{}: {}", esc(n.strip_prefix("fault_").unwrap_or(n)), st(n));
        if n.starts_with("fault_") {
            if st(n) > 0 {
                faults.push(e)
            }
        } else if st(n) > 0 {
            counts.push(e)
        }
    }
    let per_hour = if search > 0.0 { sum.runs as f64 / search * 3600.0 } else { 0.0 };
    let known: Vec<String> = sum.known.iter().map(|(k, (_, n))| format!("{}: {}", esc(k), n)).collect();
    let (real, stub) = components(&cx.id);
    let list = |v: &[&str]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ");
    let ev = format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \
         \"evaluations\": {runs},\n  \"distinct_nontrivial\": {distinct},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \
         \"planned_runs\": {total},\n  \"runs_per_hour\": {ph:.0},\n  \"nontrivial_runs\": {nontrivial},\n  \
         \"simulated_seconds\": {sim:.3},\n  \"faults_injected\": {{{faults}}},\n  \"counts\": {{{counts}}},\n  \
         \"repeated_for_determinism\": {redone},\n  \"repeats_that_differed\": {mism},\n  \"timeouts_not_confirmed\": {slow},\n  \
         \"known_findings_seen\": {{{known}}},\n  \"real_components\": [{real}],\n  \"stub_components\": [{stub}]\n }},\n \
         \"assumptions\": [{assume}],\n \"wall_s\": {wall:.2},\n \"violations\": {nv}\n}}\n",
        id = esc(&cx.id),
        tier = esc(tier),
        seed = cx.seed,
        runs = sum.runs,
        distinct = hashes.len(),
        rule = esc(rule(&cx.id)),
        samples = sum.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        total = total,
        ph = per_hour,
        nontrivial = sum.nontrivial,
        sim = st("simulated_time_us") as f64 / 1e6,
        faults = faults.join(", "),
        counts = counts.join(", "),
        redone = sum.redone,
        mism = sum.mismatched,
        slow = slow,
        known = known.join(", "),
        real = list(&real),
        stub = list(&stub),
        assume = list(&[
            "x86_64 Linux; the library built in release mode with debug assertions and overflow checks on",
            "TCP delivers bytes in order without loss or duplication; faults inside that contract are injected",
            "the reference codec in sim/src/refcodec.rs states the MQTT grammar correctly",
        ]),
        wall = wall,
        nv = report.is_some() as u32,
    );
    let path = format!("{}/evidence/{}.json", cx.verif, cx.id);
    let _ = std::fs::create_dir_all(format!("{}/evidence", cx.verif));
    if let Err(e) = std::fs::write(&path, ev) {
        eprintln!("cannot write {}: {}", path, e);
        return 2;
    }
    println!(
        "{}: {} runs ({} distinct), {:.0} s simulated, {:.1} s wall, {} faults of {} kinds",
        cx.id,
        sum.runs,
        hashes.len(),
        st("simulated_time_us") as f64 / 1e6,
        wall,
        NAMES.iter().filter(|n| n.starts_with("fault_")).map(|n| st(n)).sum::<u64>(),
        faults.len()
    );
    if let Some((f, path)) = report {
        let b = f.one.bad.as_ref().unwrap();
        println!("minimised: {}: {} ({} choices, {} events in the trace)", b.class(), b.msg(), f.one.tape.len(), f.one.trace.len());
        println!("VIOLATION property={} replay={}", cx.id, path);
        return 1;
    }
    if failed || sum.runs == 0 {
        eprintln!("the check could not be completed");
        return 2;
    }
    0
}

fn rule(id: &str) -> &'static str {
    match id {
        "Q01" => "one evaluation = one seed = one simulated run of a deployment of clients and a broker: sessions, messages, segmentation, short writes, stalls, resets, restarts and timers all drawn from the seed; non-trivial = at least one message was published; distinct = distinct event-history hashes (every scheduled event, its time, the bytes moved and the decoded outcome)",
        "R01" | "R02" => "one evaluation = one seed = one simulated run of 1-5 clients around a broker: connections, settings, operations, faults and delays all drawn from the seed; non-trivial = a message was routed to a client (R01), more than one connection was made (R02); distinct = distinct event-history hashes (segments, packets and actions in order)",
        "R03" => "one evaluation = one seed = one simulated run of 1-4 clients around an edge broker with a broker above it: subscriptions, filters, messages, faults and delays all drawn from the seed; non-trivial = at some time a client's filter was covered by another one; distinct = distinct event-history hashes (segments and packets in order)",
        "H05" => "one evaluation = one seed = one run of another property's world, played twice, and one more of fresh choices, with the live bytes taken after each; non-trivial as in that world; distinct = distinct event-history hashes of the first playing",
        "C02" => "one evaluation = one seed = one simulated run of 2-4 threads in a process of its own: their calls, the points inside the calls where they are interrupted and who runs next all drawn from the seed; non-trivial = a thread was interrupted inside a call; distinct = distinct hashes of the schedule (every switch and its point) and of every call's result",
        "E04" => "one seed = one connection whose application mixes sendable packets with packets MQTT cannot represent, under drawn write schedules; distinct = distinct event-history hashes",
        _ => "one evaluation = one seed = one simulated run of a network of 1-6 connections: traffic, faults, segmentation, write and poll schedules all drawn from the seed; non-trivial = at least one frame was accepted or refused (for E03: at least one packet encoded); distinct = distinct event-history hashes (every event, its time, the bytes moved and the outcome)",
    }
}

fn components(id: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let mut real = vec!["mqttbytes (unmodified, all of src/)", "bytes 1.1.0 (BytesMut/Bytes buffers)"];
    let mut stub = vec!["sockets and network (simulated in-order byte pipes)", "clock and timers (event queue)", "scheduler (seeded)"];
    if id == "C02" {
        real.push("threads, their locals and the standard library's locks");
        return (real, vec!["scheduler (seeded; one thread runs at a time)", "futex waits and wakes (scheduled)"]);
    }
    match id {
        "Q01" => stub.push("client and broker session logic (harness, from the standard), durable session store (in memory, survives simulated restarts)"),
        "R01" | "R02" => stub.push("client behaviour and broker state machine (harness, from the standard), durable sessions and retained messages (in memory, survive simulated restarts)"),
        "R03" => stub.push("client behaviour, edge broker and the broker above it (harness, from the standard)"),
        "H05" => stub.push("peers, clients and brokers of the world that is played (harness, from the standard)"),
        "I01" | "H01" | "H02" | "H03" | "H04" | "S01" | "S02" | "S03" | "S04" | "S05" => {
            stub.push("sending peer (reference encoder and hostile frame generator)")
        }
        "I02" => stub.push("receiving peer (strict reference decoder)"),
        "E04" => stub.push("receiving peer (none: the output buffer is inspected)"),
        _ => real.push("both endpoints' codecs"),
    }
    (real, stub)
}
