//! C02: one process, several threads, each calling the library on buffers and
//! packets of its own, some packets shared between them. The threads are real
//! threads with one baton between them: only its holder runs, and who gets it
//! next, and at which point inside a library call it is taken away, is drawn
//! from the run's choices. The points are the control-flow edges, loads and
//! stores of the library's compiled code (SanitizerCoverage callbacks; the
//! instrumented build of check.sh). What the library waits for (futex) is
//! scheduled as well. Every run happens in a process of its own that has never
//! called the library before, so that first uses meet each other too; what each
//! thread would see alone is found by playing the threads one after another in
//! yet another process.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
use crate::gen::{self, Gen};
use crate::model::*;
use crate::real::{self, Flavour, Real};
use crate::refcodec as rc;
use crate::rng::Src;
use crate::scenario::{self, RunRes};
use crate::seam::{self, raw};
use crate::sim::{viol, Viol, MAXLEN};
use crate::stats::{St, Stats};
use bytes::{Buf, BytesMut};
use std::cell::UnsafeCell;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

// ------------------------------------------------------------ scheduling points
/// the thread that has the baton is inside a library call of a scheduled run
static ACTIVE: AtomicBool = AtomicBool::new(false);
/// the instrumented build calls back
static GUARDS: AtomicU64 = AtomicU64::new(0);

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[inline]
fn is_static(a: usize) -> bool {
    unsafe { a >= &__data_start as *const u8 as usize && a < &_end as *const u8 as usize }
}
#[inline]
fn point(what: &'static str, hot: bool) {
    if ACTIVE.load(Relaxed) {
        reached(what, hot)
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    point("a branch", false)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    GUARDS.fetch_add((b as usize - a as usize) as u64 / 4, Relaxed);
}
macro_rules! access {
    ($($name:ident $what:expr;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(a: *const u8) {
            point($what, is_static(a as usize))
        }
    )* };
}
access! {
    __sanitizer_cov_load1 "a load"; __sanitizer_cov_load2 "a load"; __sanitizer_cov_load4 "a load";
    __sanitizer_cov_load8 "a load"; __sanitizer_cov_load16 "a load";
    __sanitizer_cov_store1 "a store"; __sanitizer_cov_store2 "a store"; __sanitizer_cov_store4 "a store";
    __sanitizer_cov_store8 "a store"; __sanitizer_cov_store16 "a store";
}

// ------------------------------------------------------------ the scheduler
const MOST: usize = 5;
/// a thread that runs this long without a choice lets the others on
const FORCE: u64 = 30_000;
/// a run that passes this many points goes on for ever
const CAP: u64 = 60_000_000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Ready,
    /// waits for this word to change, or to be woken
    Blocked { addr: usize, val: u32, timed: bool },
    Done,
}
struct Sched {
    src: *mut Src,
    n: usize,
    cur: usize,
    state: [State; MOST],
    woken: [bool; MOST],
    timed_out: [bool; MOST],
    /// points until the baton is taken away
    left: u64,
    /// accesses to writable static memory until it is taken away
    hot_left: u64,
    /// points from that access on
    hot_delay: u64,
    budget: u64,
    since: u64,
    points: u64,
    hots: u64,
    preempts: u64,
    waits: u64,
    hash: u64,
    stuck: Option<String>,
    op: [usize; MOST],
    trace: Option<Vec<String>>,
}
struct Cell_<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Cell_<T> {}
static S: Cell_<Option<Sched>> = Cell_(UnsafeCell::new(None));
static ON: AtomicBool = AtomicBool::new(false);
static WORDS: [AtomicU32; MOST] = [const { AtomicU32::new(0) }; MOST];
const MAIN: usize = MOST - 1;

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { (*S.0.get()).as_mut().unwrap() }
}

fn give(to: usize) {
    WORDS[to].store(1, SeqCst);
    unsafe { raw(202, [WORDS[to].as_ptr() as i64, 129, 1, 0, 0, 0]) };
}
fn take(me: usize) {
    while WORDS[me].swap(0, SeqCst) == 0 {
        unsafe { raw(202, [WORDS[me].as_ptr() as i64, 128, 0, 0, 0, 0]) };
    }
}
/// hands the baton on and comes back when it is this thread's turn again
fn switch(to: usize) {
    let me = s().cur;
    if to == me {
        return;
    }
    let active = ACTIVE.swap(false, SeqCst);
    let inside = seam::swap_inside(false);
    s().cur = to;
    s().since = 0;
    give(to);
    take(me);
    s().cur = me;
    s().since = 0;
    slice();
    seam::swap_inside(inside);
    ACTIVE.store(active, SeqCst);
}
fn fold(x: u64) {
    let s = s();
    s.hash = crate::rng::mix(s.hash ^ x);
}
fn note(f: impl FnOnce() -> String) {
    if let Some(t) = &mut s().trace {
        let l = f();
        crate::rng::spill_note(&l);
        t.push(l);
    }
}
/// how long the thread that has the baton keeps it
fn slice() {
    let s = s();
    s.left = u64::MAX;
    s.hot_left = u64::MAX;
    if s.budget == 0 {
        return;
    }
    let src = unsafe { &mut *s.src };
    let w = if s.hots > 0 { [2, 8, 2, 2, 1] } else { [3, 4, 3, 3, 1] };
    match src.weighted(&w) {
        0 => {}
        1 => {
            s.hot_left = 1 + src.below(6);
            s.hot_delay = if src.chance(1, 2) { 1 + src.below(12) } else { 0 };
            // where nothing static is ever touched, somewhere else will do
            s.left = if s.hots == 0 && s.points > 2000 { 100 } else { 1000 };
        }
        2 => s.left = 1 + src.below(16),
        3 => s.left = 1 + src.below(256),
        _ => s.left = 1 + src.below(8192),
    }
}
/// threads that can go on
fn ready() -> Vec<usize> {
    let s = s();
    for t in 0..s.n {
        if let State::Blocked { addr, val, .. } = s.state[t] {
            let now = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
            if s.woken[t] || now != val {
                s.state[t] = State::Ready;
            }
        }
    }
    (0..s.n).filter(|t| s.state[*t] == State::Ready).collect()
}
fn others() -> Vec<usize> {
    let me = s().cur;
    ready().into_iter().filter(|t| *t != me).collect()
}
fn choose(v: &[usize]) -> usize {
    let src = unsafe { &mut *s().src };
    v[src.n(v.len())]
}
#[cold]
fn stop(why: String) -> ! {
    // the threads are left where they are; the process ends with the report
    note(|| why.clone());
    s().stuck = Some(why);
    give(MAIN);
    loop {
        unsafe { raw(34, [0; 6]) };
    }
}
#[inline(never)]
fn reached(what: &'static str, hot: bool) {
    let s = s();
    s.points += 1;
    s.since += 1;
    s.left -= 1;
    let mut go = s.left == 0;
    if hot {
        s.hots += 1;
        s.hot_left -= 1;
        if s.hot_left == 0 {
            s.hot_left = u64::MAX;
            match s.hot_delay {
                0 => go = true,
                d => s.left = d,
            }
        }
    }
    if !go && s.since < FORCE {
        return;
    }
    ACTIVE.store(false, SeqCst);
    if s.points > CAP {
        stop("the threads keep running without an end".into());
    }
    let to = others();
    if to.is_empty() {
        slice();
        s.since = 0;
    } else if go {
        s.budget = s.budget.saturating_sub(1);
        s.preempts += 1;
        let t = choose(&to);
        let me = s.cur;
        fold(s.points << 8 | (me << 4 | t) as u64);
        note(|| {
            let of = if hot { " of static memory" } else { "" };
            format!("  thread {} is interrupted before {}{} (point {}); thread {} runs", me, what, of, s.points, t)
        });
        switch(t);
    } else {
        // it may be waiting for another one by spinning
        let me = s.cur;
        let t = to.iter().copied().find(|t| *t > me).unwrap_or(to[0]);
        fold(t as u64);
        switch(t);
    }
    ACTIVE.store(true, SeqCst);
}

/// the futex calls of code under the scheduler
fn futex(addr: usize, op: i64, val: u32, timeout: i64) -> i64 {
    let s = s();
    match op & 0x7f {
        0 | 9 => {
            let word = addr as *const AtomicU32;
            if unsafe { (*word).load(SeqCst) } != val {
                return -11;
            }
            let active = ACTIVE.swap(false, SeqCst);
            let me = s.cur;
            s.waits += 1;
            s.woken[me] = false;
            s.timed_out[me] = false;
            s.state[me] = State::Blocked { addr, val, timed: timeout != 0 };
            fold(0xb10c ^ me as u64);
            note(|| format!("  thread {} waits for another thread", me));
            let r = ready();
            let r = if !r.is_empty() {
                r
            } else {
                // nobody can go on: time passes
                let t: Vec<usize> = (0..s.n).filter(|t| matches!(s.state[*t], State::Blocked { timed: true, .. })).collect();
                if t.is_empty() {
                    let w: Vec<String> = (0..s.n)
                        .filter(|t| s.state[*t] != State::Done)
                        .map(|t| format!("thread {} in its call {}", t, s.op[t]))
                        .collect();
                    stop(format!("every thread waits and nobody can go on ({})", w.join(", ")));
                }
                for x in &t {
                    s.timed_out[*x] = true;
                    s.state[*x] = State::Ready;
                }
                t
            };
            let t = choose(&r);
            switch(t);
            s.state[me] = State::Ready;
            ACTIVE.store(active, SeqCst);
            if s.timed_out[me] {
                -110
            } else {
                0
            }
        }
        1 | 10 => {
            let mut n = 0;
            for t in 0..s.n {
                if matches!(s.state[t], State::Blocked { addr: a, .. } if a == addr) && !s.woken[t] && n < val as i64 {
                    s.woken[t] = true;
                    n += 1;
                }
            }
            n
        }
        _ => 0,
    }
}
/// The C library's generic system call, which is how the standard library waits.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 202 && ON.load(Relaxed) && ACTIVE.load(Relaxed) {
        let r = futex(a as usize, b, c as u32, d);
        return seam::done(r);
    }
    raw(n, [a, b, c, d, e, f])
}

// ------------------------------------------------------------ what threads do
#[derive(Clone)]
enum Op {
    Encode(Pkt, Flavour),
    Refuse(Real, String),
    Feed(Vec<u8>, usize),
    Text(String, String),
    Check(Vec<u8>, usize),
    Typed(Vec<u8>),
    Shared(usize, u8, usize),
    Given(u8),
}
impl Op {
    fn name(&self, ver: Ver) -> String {
        match self {
            Op::Encode(p, _) => format!("encode {:?} {:?}", ver, p),
            Op::Refuse(_, w) => format!("encode {}", w),
            Op::Feed(b, m) => format!("receive and decode {:?} {} (limit {})", ver, hex(b), m),
            Op::Text(a, b) => format!("match and validate {:?} {:?}", a, b),
            Op::Check(b, m) => format!("check {} (limit {})", hex(b), m),
            Op::Typed(b) => format!("read one type {:?} {}", ver, hex(b)),
            Op::Shared(k, 0, _) => format!("encode shared packet {}", k),
            Op::Shared(k, 1, _) => format!("print shared packet {}", k),
            Op::Shared(k, 2, _) => format!("copy and drop shared packet {}", k),
            Op::Shared(k, _, j) => format!("compare shared packets {} and {}", k, j),
            Op::Given(0) => "encode a packet handed over".into(),
            Op::Given(_) => "drop a packet handed over".into(),
        }
    }
}
/// what one thread works on
struct Job {
    ver: Ver,
    ops: Vec<Op>,
    given: Vec<(Ver, Real)>,
    input: BytesMut,
    out: BytesMut,
    said: Vec<String>,
}
struct Plan {
    jobs: Vec<(Ver, Vec<Op>, Vec<usize>)>,
    /// packets every thread may look at, as frames
    shared: Vec<(Ver, Vec<u8>)>,
}

/// a bounded rendering that differs when the text does
fn told(t: &str) -> String {
    if t.len() <= 400 {
        return t.to_string();
    }
    let mut h = 0u64;
    for c in t.as_bytes().chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = crate::rng::mix(h ^ u64::from_le_bytes(w));
    }
    let mut e = 300;
    while !t.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes, hash {:016x})", &t[..e], t.len(), h)
}
/// a library call that may be interrupted
fn lib<T>(f: impl FnOnce() -> T) -> T {
    ACTIVE.store(ON.load(Relaxed), SeqCst);
    let r = f();
    ACTIVE.store(false, SeqCst);
    r
}
fn wrote(r: Result<Result<usize, mqttbytes::Error>, String>, b: &mut BytesMut, was: usize) -> String {
    let t = match r {
        Ok(Ok(n)) => format!("{} bytes reported: {}", n, hex(&b[was.min(b.len())..])),
        Ok(Err(e)) => format!("refused {:?}, {} bytes left", e, b.len() - was.min(b.len())),
        Err(m) => format!("panic {}", m),
    };
    if b.len() > 1 << 16 {
        b.clear();
    }
    t
}
fn act(j: &mut Job, op: &Op, shared: &[(Ver, Real)]) -> String {
    let t = match op {
        Op::Encode(p, f) => {
            let was = j.out.len();
            let r = lib(|| {
                let r = real::guarded(|| real::to_real(j.ver, p, *f));
                match r {
                    Ok(r) => {
                        let l = real::guarded(|| real::self_len(&r));
                        (real::encode(&r, &mut j.out), format!("{:?}", l))
                    }
                    Err(m) => (Err(m), String::new()),
                }
            });
            format!("{} {}", wrote(r.0, &mut j.out, was), r.1)
        }
        Op::Refuse(r, _) => {
            let was = j.out.len();
            let x = lib(|| real::encode(r, &mut j.out));
            wrote(x, &mut j.out, was)
        }
        Op::Feed(b, max) => {
            j.input.extend_from_slice(b);
            let mut t = String::new();
            for _ in 0..64 {
                let was = j.input.len();
                let (o, dbg) = lib(|| {
                    let d = real::decode(j.ver, &mut j.input, *max);
                    let dbg = real::guarded(|| match &d.out {
                        real::Out::Pkt(p) => format!("{:?}", p).len(),
                        o => format!("{:?}", o).len(),
                    });
                    (d.out, dbg)
                });
                t += &format!("{}; {:?}; {} left\n", o.short(), dbg, j.input.len());
                match o {
                    real::Out::Pkt(p) => {
                        // the application lets go of it
                        let _ = lib(|| real::guarded(|| drop(p)));
                        if j.input.len() == was {
                            break;
                        }
                    }
                    real::Out::Need(_) => break,
                    _ => {
                        j.input.clear();
                        break;
                    }
                }
            }
            t
        }
        Op::Text(a, b) => lib(|| {
            let r = real::guarded(|| {
                (
                    mqttbytes::matches(a, b),
                    mqttbytes::valid_topic(a),
                    mqttbytes::valid_filter(b),
                    mqttbytes::has_wildcards(a),
                    mqttbytes::has_wildcards(b),
                )
            });
            format!("{:?}", r)
        }),
        Op::Check(b, max) => lib(|| {
            let r = real::check(b, *max);
            let more = real::guarded(|| match &r {
                Ok(Ok(h)) => format!("{} {:?}", h.frame_length(), h.packet_type()),
                _ => String::new(),
            });
            format!("{:?} {:?}", r, more)
        }),
        Op::Typed(b) => {
            let b = bytes::Bytes::copy_from_slice(b);
            let ver = j.ver;
            lib(|| match real::check(&b, usize::MAX) {
                Ok(Ok(h)) => match real::guarded(|| h.packet_type()) {
                    Ok(Ok(t)) => match real::read_typed(ver, t, h, b) {
                        Some(o) => o.short(),
                        None => "no reader".into(),
                    },
                    x => format!("{:?}", x),
                },
                x => format!("{:?}", x),
            })
        }
        Op::Shared(k, what, other) => {
            if shared.is_empty() {
                return String::new();
            }
            let (k, other) = (*k % shared.len(), *other % shared.len());
            let p = &shared[k].1;
            match what {
                0 => {
                    let mut b = BytesMut::new();
                    let r = lib(|| real::encode(p, &mut b));
                    wrote(r, &mut b, 0)
                }
                1 => lib(|| format!("{:?}", real::guarded(|| format!("{:?}", p)))),
                2 => {
                    let c = lib(|| real::guarded(|| p.clone()));
                    let t = match &c {
                        Ok(c) => format!("{:?}", real::from_real(c)),
                        Err(m) => m.clone(),
                    };
                    let _ = lib(|| real::guarded(|| drop(c)));
                    t
                }
                _ => lib(|| format!("{:?}", real::guarded(|| *p == shared[other].1))),
            }
        }
        Op::Given(what) => match j.given.pop() {
            None => String::new(),
            Some((_, p)) => {
                let mut b = BytesMut::new();
                let mut t = format!("{:?}", real::from_real(&p));
                if *what == 0 {
                    let r = lib(|| real::encode(&p, &mut b));
                    t += &wrote(r, &mut b, 0);
                }
                let _ = lib(|| real::guarded(|| drop(p)));
                t
            }
        },
    };
    told(&t)
}

fn draw(src: &mut Src) -> Plan {
    let threads = src.weighted(&[0, 0, 6, 3, 1]).max(2);
    let mut shared = vec![];
    for _ in 0..src.weighted(&[2, 2, 1, 1]) {
        let v = if src.chance(1, 3) { Ver::V4 } else { Ver::V5 };
        let mut g = Gen::draw(src, v);
        g.big = false;
        g.huge = false;
        g.pad = 0;
        let p = g.packet(src);
        shared.push((v, rc::encode(v, &p, rc::EncOpts { order: None, form: 0 })));
    }
    let mut jobs = vec![];
    let common = src.chance(1, 2);
    let same_ver = if src.chance(1, 2) { Some(if src.chance(1, 2) { Ver::V4 } else { Ver::V5 }) } else { None };
    // what all threads talk about
    let topics: Vec<(String, String)> = {
        let g = Gen::draw(src, Ver::V5);
        (0..src.range(1, 4)).map(|_| (g.topic(src), g.filter(src))).collect()
    };
    let mut g0: Option<Gen> = None;
    // sometimes all of them do the same kind of thing
    let focus = if src.chance(1, 3) {
        let k = if same_ver == Some(Ver::V4) { 1 + src.below(11) } else { 1 + src.below(14) };
        Some((k as u8, *src.pick(&[[1u32, 0, 0, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0, 0, 0], [1, 1, 0, 0, 0, 0, 0, 0], [1, 1, 1, 1, 1, 1, 0, 1], [0, 0, 1, 0, 0, 0, 0, 0]])))
    } else {
        None
    };
    for _ in 0..threads {
        let v = same_ver.unwrap_or_else(|| if src.chance(1, 2) { Ver::V4 } else { Ver::V5 });
        let mut g = match &g0 {
            Some(g) if common => {
                let mut g = g.clone();
                g.ver = v;
                g
            }
            _ => Gen::draw(src, v),
        };
        g.big = false;
        g.huge = false;
        g.pad = g.pad.min(5);
        g.edges = g.edges.min(3);
        g0 = Some(g.clone());
        if let Some((k, _)) = focus {
            g.kinds = [0; 15];
            g.kinds[k as usize] = 1;
        }
        let n = match src.weighted(&[4, 3, 1]) {
            0 => src.range(1, 3),
            1 => src.range(2, 8),
            _ => src.range(8, 20),
        };
        let mix = *src.pick(&[[4u32, 4, 3, 1, 1, 2, 1, 1], [6, 0, 0, 0, 0, 0, 0, 1], [0, 6, 0, 0, 0, 0, 0, 0], [0, 0, 6, 0, 0, 1, 0, 0], [2, 2, 2, 2, 2, 2, 2, 2]]);
        let mix = focus.map_or(mix, |f| f.1);
        let n = if focus.is_some() { n.min(3) } else { n };
        let mut ops = vec![];
        for _ in 0..n {
            let op = match src.weighted(&mix) {
                0 => Op::Encode(g.packet(src).norm(), Flavour { builders: src.chance(1, 3), ..Flavour::default() }),
                1 => {
                    let mut b = vec![];
                    for _ in 0..src.range(1, 3) {
                        if src.chance(1, 6) {
                            b.extend(gen::hostile(src, &g, true).bytes);
                        } else {
                            let p = g.packet(src);
                            let o = scenario::opts(src);
                            b.extend(rc::encode(v, &p, o));
                        }
                    }
                    b.truncate(3000);
                    // in one piece, or cut
                    if b.len() > 1 && src.chance(1, 3) {
                        let at = 1 + src.n(b.len() - 1);
                        let rest = b.split_off(at);
                        ops.push(Op::Feed(b, MAXLEN));
                        b = rest;
                    }
                    let max = if src.chance(1, 8) { src.range(0, 300) as usize } else { MAXLEN };
                    Op::Feed(b, max)
                }
                2 => {
                    let (a, b) = if src.chance(2, 3) {
                        (src.pick(&topics).0.clone(), src.pick(&topics).1.clone())
                    } else {
                        (g.topic(src), g.filter(src))
                    };
                    Op::Text(a, b)
                }
                3 => {
                    let p = g.packet(src);
                    let mut b = rc::encode(v, &p, scenario::opts(src));
                    if src.chance(1, 3) {
                        let n = src.n(b.len() + 1);
                        b.truncate(n);
                    }
                    Op::Check(b, if src.chance(1, 4) { src.range(0, 300) as usize } else { MAXLEN })
                }
                4 => {
                    let p = g.packet(src);
                    Op::Typed(rc::encode(v, &p, scenario::opts(src)))
                }
                5 => Op::Shared(src.n(4), src.below(4) as u8, src.n(4)),
                6 => Op::Given(src.below(2) as u8),
                _ => {
                    let (r, what) = scenario::cheap_refusal(src, &g);
                    Op::Refuse(r, what)
                }
            };
            ops.push(op);
        }
        let given = (0..src.weighted(&[2, 1, 1])).map(|_| src.n(4)).collect();
        jobs.push((v, ops, given));
    }
    Plan { jobs, shared }
}

struct Ptr<T>(*const T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Ptr<T> {
    fn get(&self) -> &T {
        unsafe { &*self.0 }
    }
}
struct PtrMut<T>(*mut T);
unsafe impl<T> Send for PtrMut<T> {}
impl<T> PtrMut<T> {
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut T {
        unsafe { &mut *self.0 }
    }
}

/// the buffers and packets the threads start with
fn set_up(p: &Plan) -> (Vec<Job>, Vec<(Ver, Real)>) {
    let mut shared = vec![];
    for (v, b) in &p.shared {
        let mut b = BytesMut::from(&b[..]);
        if let real::Out::Pkt(r) = real::decode(*v, &mut b, MAXLEN).out {
            shared.push((*v, r));
        }
    }
    let jobs = p
        .jobs
        .iter()
        .map(|(v, ops, given)| Job {
            ver: *v,
            ops: ops.clone(),
            given: given.iter().filter(|_| !shared.is_empty()).map(|k| shared[k % shared.len()].clone()).collect(),
            input: BytesMut::new(),
            out: BytesMut::new(),
            said: vec![],
        })
        .collect();
    (jobs, shared)
}

fn alone(p: &Plan) -> Vec<Vec<String>> {
    let (jobs, shared) = set_up(p);
    let mut all = vec![];
    for mut j in jobs {
        let (jp, sp) = (PtrMut(&mut j as *mut Job), Ptr(&shared as *const Vec<(Ver, Real)>));
        let h = std::thread::spawn(move || {
            let j = jp.get();
            for op in j.ops.clone() {
                let t = act(j, &op, sp.get());
                j.said.push(t);
            }
        });
        let _ = h.join();
        all.push(std::mem::take(&mut j.said));
    }
    all
}

fn together(p: &Plan, src: &mut Src, trace: bool) -> (Vec<Vec<String>>, Option<String>, Vec<String>) {
    let (mut jobs, shared) = set_up(p);
    let n = jobs.len();
    let budget = *src.pick(&[12, 4, 40, 1, 12, 100]);
    unsafe {
        *S.0.get() = Some(Sched {
            src,
            n,
            cur: MAIN,
            state: [State::Ready; MOST],
            woken: [false; MOST],
            timed_out: [false; MOST],
            left: u64::MAX,
            hot_left: u64::MAX,
            hot_delay: 0,
            budget,
            since: 0,
            points: 0,
            hots: 0,
            preempts: 0,
            waits: 0,
            hash: 0,
            stuck: None,
            op: [0; MOST],
            trace: if trace { Some(vec![]) } else { None },
        });
    }
    let mut handles = vec![];
    for (t, j) in jobs.iter_mut().enumerate() {
        let (jp, sp) = (PtrMut(j as *mut Job), Ptr(&shared as *const Vec<(Ver, Real)>));
        handles.push(std::thread::spawn(move || {
            give(MAIN);
            take(t);
            let j = jp.get();
            s().cur = t;
            for (k, op) in j.ops.clone().iter().enumerate() {
                s().op[t] = k;
                s().since = 0;
                slice();
                note(|| format!("thread {} call {}: {}", t, k, told(&op.name(j.ver))));
                let said = act(j, op, sp.get());
                note(|| format!("thread {} call {} gave: {}", t, k, said));
                for c in said.as_bytes().chunks(64) {
                    fold(c.iter().fold(t as u64, |h, b| h.wrapping_mul(0x100000001b3) ^ *b as u64));
                }
                j.said.push(said);
                // between calls
                let to = others();
                if !to.is_empty() && unsafe { &mut *s().src }.chance(1, 2) {
                    let x = choose(&to);
                    fold((0xe0 ^ x) as u64);
                    switch(x);
                }
            }
            s().state[t] = State::Done;
            let r = ready();
            if !r.is_empty() {
                let x = choose(&r);
                s().since = 0;
                give(x);
            } else if let Some(w) = (0..s().n).find(|x| matches!(s().state[*x], State::Blocked { timed: true, .. })) {
                s().timed_out[w] = true;
                s().state[w] = State::Ready;
                give(w);
            } else if (0..s().n).any(|x| s().state[x] != State::Done) {
                stop("every thread left waits and nobody can go on".into());
            } else {
                give(MAIN);
            }
            // destructors of its locals run when no other thread does
            take(t);
            give(MAIN);
        }));
        take(MAIN);
    }
    ON.store(true, SeqCst);
    let first = choose(&(0..n).collect::<Vec<_>>());
    give(first);
    take(MAIN);
    ON.store(false, SeqCst);
    ACTIVE.store(false, SeqCst);
    let stuck = s().stuck.take();
    if stuck.is_none() {
        for (t, h) in handles.into_iter().enumerate() {
            give(t);
            take(MAIN);
            let _ = h.join();
        }
        // shared packets are what they were
        let said = jobs.iter_mut().map(|j| std::mem::take(&mut j.said)).collect();
        (said, None, s().trace.take().unwrap_or_default())
    } else {
        std::mem::forget(handles);
        let said = jobs.iter().map(|j| j.said.clone()).collect();
        std::mem::forget(jobs);
        std::mem::forget(shared);
        (said, stuck, s().trace.take().unwrap_or_default())
    }
}

// ------------------------------------------------------------ processes
extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, fl: i32) -> i32;
    fn pipe(fd: *mut i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn signal(n: i32, h: usize) -> usize;
    fn raise(n: i32) -> i32;
    fn mallopt(p: i32, v: i32) -> i32;
    fn sched_getaffinity(p: i32, n: usize, m: *mut u64) -> i32;
    fn sched_setaffinity(p: i32, n: usize, m: *const u64) -> i32;
}
/// runs `f` in a process of its own; if that dies, so does this one, the same way
fn apart(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    use std::os::unix::io::FromRawFd;
    let mut fd = [0i32; 2];
    unsafe {
        if pipe(fd.as_mut_ptr()) != 0 {
            _exit(crate::worker::TROUBLE);
        }
        let pid = fork();
        if pid < 0 {
            _exit(crate::worker::TROUBLE);
        }
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            let v = f();
            let mut w = std::fs::File::from_raw_fd(fd[1]);
            let ok = w.write_all(&v).is_ok();
            _exit(if ok { 0 } else { crate::worker::TROUBLE });
        }
        drop(std::fs::File::from_raw_fd(fd[1]));
        let mut r = std::fs::File::from_raw_fd(fd[0]);
        let mut v = vec![];
        let _ = r.read_to_end(&mut v);
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        if st & 0x7f != 0 {
            signal(st & 0x7f, 0);
            raise(st & 0x7f);
            _exit(134);
        }
        if st >> 8 & 0xff != 0 {
            _exit(st >> 8 & 0xff);
        }
        v
    }
}
/// which CPU a worker keeps to
pub static CPU: AtomicU64 = AtomicU64::new(0);
/// one CPU and one heap for all threads of this process
fn settle() {
    static DONE: AtomicBool = AtomicBool::new(false);
    if DONE.swap(true, SeqCst) {
        return;
    }
    unsafe {
        mallopt(-8, 1);
        let mut m = [0u64; 16];
        if sched_getaffinity(0, 128, m.as_mut_ptr()) > 0 {
            let cpus: Vec<usize> = (0..1024).filter(|c| m[c / 64] >> (c % 64) & 1 == 1).collect();
            if !cpus.is_empty() {
                let c = cpus[CPU.load(Relaxed) as usize % cpus.len()];
                let mut m = [0u64; 16];
                m[c / 64] = 1 << (c % 64);
                sched_setaffinity(0, 128, m.as_ptr());
            }
        }
    }
}

#[derive(Default)]
struct Buf_(Vec<u8>);
impl Buf_ {
    fn n(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes());
    }
    fn s(&mut self, x: &str) {
        self.n(x.len() as u64);
        self.0.extend_from_slice(x.as_bytes());
    }
    fn l(&mut self, x: &[String]) {
        self.n(x.len() as u64);
        x.iter().for_each(|x| self.s(x));
    }
}
fn rn(b: &mut &[u8]) -> u64 {
    if b.len() < 8 {
        unsafe { _exit(crate::worker::TROUBLE) }
    }
    b.get_u64_le()
}
fn rs(b: &mut &[u8]) -> String {
    let n = rn(b) as usize;
    let (x, y) = b.split_at(n.min(b.len()));
    *b = y;
    String::from_utf8_lossy(x).into_owned()
}
fn rl(b: &mut &[u8]) -> Vec<String> {
    (0..rn(b)).map(|_| rs(b)).collect()
}

// ------------------------------------------------------------ types
struct Is<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for Is<T> {}
struct IsSync<T>(std::marker::PhantomData<T>);
impl<T> No for IsSync<T> {}
impl<T: Send> Is<T> {
    const SEND: bool = true;
}
impl<T: Sync> IsSync<T> {
    const SYNC: bool = true;
}
/// packet types that cannot be moved to, or looked at from, another thread
fn confined() -> Vec<&'static str> {
    macro_rules! list {
        ($($t:ty),* $(,)?) => { vec![$((stringify!($t), Is::<$t>::SEND && IsSync::<$t>::SYNC)),*] };
    }
    use mqttbytes::{v4, v5};
    let v = list!(
        v4::Packet, v4::Connect, v4::ConnAck, v4::Publish, v4::PubAck, v4::PubRec, v4::PubRel, v4::PubComp, v4::Subscribe,
        v4::SubAck, v4::Unsubscribe, v4::UnsubAck, v5::Packet, v5::Connect, v5::ConnAck, v5::Publish, v5::PubAck, v5::PubRec,
        v5::PubRel, v5::PubComp, v5::Subscribe, v5::SubAck, v5::Unsubscribe, v5::UnsubAck, v5::Disconnect,
        mqttbytes::Error, mqttbytes::FixedHeader,
    );
    v.into_iter().filter(|x| !x.1).map(|x| x.0).collect()
}

// ------------------------------------------------------------ one run
fn judge(plan: &Plan, solo: &[Vec<String>], said: &[Vec<String>], stuck: Option<String>, lines: Option<&mut Vec<String>>) -> Result<(), Viol> {
    if let Some(w) = stuck {
        return viol("threads wait for each other", format!("{} threads calling the library: {}", plan.jobs.len(), w));
    }
    for (t, (a, b)) in solo.iter().zip(said).enumerate() {
        for (k, (x, y)) in a.iter().zip(b).enumerate() {
            if x != y {
                let (v, ops, _) = &plan.jobs[t];
                let op = told(&ops[k].name(*v));
                if let Some(l) = lines {
                    l.push(format!("thread {} call {} alone: {}", t, k, x));
                }
                return viol(
                    "another thread made a difference",
                    format!("thread {}'s call {} ({}) gives {:?} when it runs alone and {:?} beside the others", t, k, op, x, y),
                );
            }
        }
    }
    Ok(())
}
fn inside(src: &mut Src, trace: bool) -> Vec<u8> {
    let plan = draw(src);
    let solo = apart(|| {
        let mut b = Buf_::default();
        for t in alone(&plan) {
            b.l(&t);
        }
        b.0
    });
    let mut b = &solo[..];
    let solo: Vec<Vec<String>> = plan.jobs.iter().map(|_| rl(&mut b)).collect();
    let mut res: Result<(), Viol> = Ok(());
    let c = confined();
    if !c.is_empty() {
        res = viol("confined to one thread", format!("{} cannot be used from several threads", c.join(", ")));
    }
    let mut lines = vec![];
    let mut hash = 0;
    let mut sum = [0u64; 5];
    let mut rounds = 1;
    while rounds > 0 && res.is_ok() {
        let (said, stuck, more) = together(&plan, src, trace);
        lines.extend(more);
        let s = s();
        hash = crate::rng::mix(hash ^ s.hash);
        let calls = said.iter().map(|x| x.len()).sum::<usize>() as u64;
        for (x, y) in sum.iter_mut().zip([calls, s.points, s.preempts, s.hots, s.waits]) {
            *x += y;
        }
        res = judge(&plan, &solo, &said, stuck, if trace { Some(&mut lines) } else { None });
        rounds -= 1;
        if sum[0] == calls && s.hots + s.waits > 0 {
            // something is shared: the same calls under more schedules
            rounds = src.below(16);
        }
        if rounds > 0 && trace {
            lines.push("the same calls again, in the same process".into());
        }
    }
    let mut b = Buf_::default();
    match &res {
        Ok(()) => b.n(0),
        Err(v) => {
            b.n(1);
            b.s(&v.class);
            b.s(&v.msg);
        }
    }
    b.n(hash);
    b.l(&lines);
    b.n((sum[2] > 0) as u64);
    b.s(&format!(
        "C02: {} threads, {} calls, {} scheduling points, {} interruptions inside calls, {} waits",
        plan.jobs.len(),
        sum[0],
        sum[1],
        sum[2],
        sum[4]
    ));
    for x in sum {
        b.n(x);
    }
    b.n(src.mark() as u64);
    b.n(src.tape.len() as u64);
    for x in &src.tape {
        b.n(*x);
    }
    b.0
}

pub fn run(src: &mut Src, st: &mut Stats, trace: bool) -> RunRes {
    settle();
    if GUARDS.load(Relaxed) == 0 {
        eprintln!("C02 needs the instrumented build (check.sh makes it)");
        std::process::exit(crate::worker::TROUBLE);
    }
    let v = apart(|| inside(src, trace));
    let mut b = &v[..];
    let res = if rn(&mut b) == 0 {
        Ok(())
    } else {
        let class = rs(&mut b);
        viol(class, rs(&mut b))
    };
    let hash = rn(&mut b);
    let lines = rl(&mut b);
    let nontrivial = rn(&mut b) == 1;
    let sample = rs(&mut b);
    for k in [St::calls, St::points, St::f_preempt, St::static_accesses, St::waits] {
        st.add(k, rn(&mut b));
    }
    let pos = rn(&mut b) as usize;
    let tape = (0..rn(&mut b)).map(|_| rn(&mut b)).collect();
    src.adopt(tape, pos);
    RunRes { res, hash, trace: lines, known: vec![], nontrivial, sample }
}
