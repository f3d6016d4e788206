//! Minimises a violating tape: shorter first, then smaller choices, keeping
//! the class of the violation.
use crate::worker::{prepare, prop, read_tape, replay, tape_text};
use std::time::{Duration, Instant};

/// `test` says whether the candidate still shows the violation, and how much of it was used
pub fn shrink(mut best: Vec<u64>, limit: Duration, test: &mut dyn FnMut(&[u64]) -> Option<usize>) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut attempt = |c: Vec<u64>, best: &mut Vec<u64>| -> bool {
        tries += 1;
        if let Some(u) = test(&c) {
            let mut c = c;
            c.truncate(u);
            while c.last() == Some(&0) {
                c.pop();
            }
            *best = c;
            true
        } else {
            false
        }
    };
    let out = |t0: &Instant| t0.elapsed() > limit;
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() && !out(&t0) {
                let end = (at + size).min(best.len());
                let mut c = best.clone();
                c.drain(at..end);
                if !attempt(c, &mut best) {
                    at += size;
                }
            }
            if size == 1 || out(&t0) {
                break;
            }
            size /= 2;
        }
        // zero blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() && !out(&t0) {
                let end = (at + size).min(best.len());
                if best[at..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[at..end] {
                        *x = 0;
                    }
                    attempt(c, &mut best);
                }
                at += size;
            }
            if size == 1 || out(&t0) {
                break;
            }
            size /= 2;
        }
        // lower single choices
        let mut at = 0;
        while at < best.len() && !out(&t0) {
            let mut lo = 0u64; // fails with lo (or lo was tried as zero above)
            while at < best.len() && best[at] > lo + 1 && !out(&t0) {
                let mid = lo + (best[at] - lo) / 2;
                let mut c = best.clone();
                c[at] = mid;
                if !attempt(c, &mut best) {
                    lo = mid;
                }
            }
            at += 1;
        }
        // drop one choice and lower an earlier one (a list with one element less)
        let mut at = 0;
        while at + 1 < best.len() && best.len() < 300 && !out(&t0) {
            if best[at] > 0 {
                for span in [1usize, 2, 3, 4, 6] {
                    if at + 1 + span > best.len() {
                        break;
                    }
                    let mut c = best.clone();
                    c[at] -= 1;
                    c.drain(at + 1..at + 1 + span);
                    if attempt(c, &mut best) {
                        break;
                    }
                }
            }
            at += 1;
        }
        if best == before || out(&t0) {
            return (best, tries);
        }
    }
}

/// args: property verif tape-file class out-file seconds
pub fn main(a: &[String]) -> i32 {
    let (Some(p), Some(tape)) = (prop(&a[0]), read_tape(&a[2])) else { return 2 };
    prepare(&a[1]);
    let class = a[3].clone();
    let secs: u64 = a[5].parse().unwrap_or(20);
    let mut test = |c: &[u64]| -> Option<usize> {
        let (r, used) = replay(p, c, false);
        match r.res {
            Err(v) if v.class.replace(['\n', '\t'], " ") == class => Some(used),
            _ => None,
        }
    };
    if test(&tape).is_none() {
        return 3;
    }
    let (best, tries) = shrink(tape, Duration::from_secs(secs), &mut test);
    if std::fs::write(&a[4], format!("{}\n", tape_text(&best))).is_err() {
        return 2;
    }
    println!("{}", tries);
    0
}
