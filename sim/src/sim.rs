//! The simulated network of endpoints, one process, one scheduler.
//!
//! A link is one direction of one connection: a sending endpoint with its
//! output buffer, a byte pipe (in order, as TCP gives it) with short writes,
//! arbitrary segmentation, latency, stalls and resets, and a receiving
//! endpoint with its input buffer and polling discipline. All links of a run
//! share one event queue and one choice source.
use crate::model::*;
use crate::real::{self, Flavour, Out, Real};
use crate::refcodec::{self as rc, Framing};
use crate::rng::{mix, Src};
use crate::stats::{St, Stats};
use bytes::{Buf, BytesMut};
use std::cmp::Reverse;
use std::collections::{BinaryHeap, VecDeque};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), msg: msg.into() })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prop {
    S01,
    S02,
    S03,
    S04,
    S05,
    C01,
    C02,
    E01,
    E02,
    E03,
    E04,
    H01,
    H02,
    H03,
    H04,
    H05,
    I01,
    I02,
    V01,
    Q01,
    R01,
    R02,
    R03,
}
pub const PROPS: &[(&str, Prop)] = &[
    ("S01", Prop::S01),
    ("S02", Prop::S02),
    ("S03", Prop::S03),
    ("S04", Prop::S04),
    ("S05", Prop::S05),
    ("C01", Prop::C01),
    ("C02", Prop::C02),
    ("E01", Prop::E01),
    ("E02", Prop::E02),
    ("E03", Prop::E03),
    ("E04", Prop::E04),
    ("H01", Prop::H01),
    ("H02", Prop::H02),
    ("H03", Prop::H03),
    ("H04", Prop::H04),
    ("H05", Prop::H05),
    ("I01", Prop::I01),
    ("I02", Prop::I02),
    ("V01", Prop::V01),
    ("Q01", Prop::Q01),
    ("R01", Prop::R01),
    ("R02", Prop::R02),
    ("R03", Prop::R03),
];

/// What a sender does next.
pub enum Item {
    /// encode with the crate; the second packet is what must arrive
    Real(Pkt, Flavour),
    /// bytes from a foreign or hostile peer, with the packet they stand for if they are conformant
    Raw(Vec<u8>, Option<Pkt>),
    /// a packet that cannot be sent
    Refuse(Box<Real>, String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Reader {
    /// decodes everything available after every arrival
    Eager,
    /// decodes everything available, some time later
    Lazy,
    /// one packet per poll
    OneByOne,
    /// takes from the socket exactly the bytes the decoder asked for
    Hint,
    /// looks at the header first, decodes later (S05)
    Peek,
}

pub struct Net {
    /// chance in 100 that a flush is short
    pub short: u64,
    /// chance in 100 that a flushed chunk is split further
    pub split: u64,
    /// chance in 100 that a cut is placed near a frame boundary
    pub edge: u64,
    pub lat: u64,
    pub stall: u64,
    /// chance in 1000 per event of a reset
    pub reset: u64,
    pub flip: u64,
}
impl Net {
    pub fn draw(src: &mut Src, resets: bool) -> Net {
        Net {
            short: *src.pick(&[30, 0, 80, 100]),
            split: *src.pick(&[30, 0, 60, 95]),
            edge: *src.pick(&[40, 0, 90]),
            lat: *src.pick(&[50, 1, 2000, 100000]),
            stall: *src.pick(&[3, 0, 20]),
            reset: if resets { *src.pick(&[0, 10, 40, 150]) } else { 0 },
            flip: 0,
        }
    }
}

pub struct Sent {
    pub pkt: Option<Pkt>,
    /// stream offset behind the frame
    pub end: u64,
}

pub enum Op {
    Encode(Real, Result<Result<usize, mqttbytes::Error>, String>, Vec<u8>),
    Arrive(Vec<u8>),
    Poll(Out),
    Flush(usize),
    Reset,
}

pub struct Link {
    pub ver: Ver,
    pub rver: Ver,
    pub items: VecDeque<Item>,
    pub out: BytesMut,
    pub epoch: u32,
    /// this epoch's sends
    pub sent: Vec<Sent>,
    pub queued: u64,
    pub flushed: u64,
    pub last_arrival: u64,
    pub flush_pending: bool,
    pub poll_pending: bool,
    pub inb: BytesMut,
    pub sock: VecDeque<u8>,
    /// every byte that reached the decoder in this epoch
    pub stream: Vec<u8>,
    pub consumed: usize,
    /// packets delivered in this epoch
    pub got: usize,
    pub outs: Vec<Out>,
    pub reader: Reader,
    pub limit: usize,
    pub dead: bool,
    pub asked: Option<usize>,
    pub requests: u32,
    pub forward: Option<usize>,
    /// first packet decides the version
    pub auto: bool,
    /// packets kept by the application, with deep copies
    pub kept: Vec<(Real, Pkt)>,
    pub log: Vec<Op>,
    pub peeked: Option<(mqttbytes::FixedHeader, usize)>,
    /// stand-in receiver: the foreign strict decoder
    pub foreign_receiver: bool,
    pub cap: usize,
}

impl Link {
    pub fn new(ver: Ver, reader: Reader, limit: usize) -> Link {
        Link {
            ver,
            rver: ver,
            items: VecDeque::new(),
            out: BytesMut::new(),
            epoch: 0,
            sent: vec![],
            queued: 0,
            flushed: 0,
            last_arrival: 0,
            flush_pending: false,
            poll_pending: false,
            inb: BytesMut::new(),
            sock: VecDeque::new(),
            stream: vec![],
            consumed: 0,
            got: 0,
            outs: vec![],
            reader,
            limit,
            dead: false,
            asked: None,
            requests: 0,
            forward: None,
            auto: false,
            kept: vec![],
            log: vec![],
            peeked: None,
            foreign_receiver: false,
            cap: 0,
        }
    }
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Send(usize),
    Flush(usize, u32),
    Arrive(usize, u32, Vec<u8>),
    Poll(usize, u32),
}

pub struct World<'a> {
    pub src: &'a mut Src,
    pub st: &'a mut Stats,
    pub prop: Prop,
    pub net: Net,
    pub links: Vec<Link>,
    pub now: u64,
    seq: u64,
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    pub hash: u64,
    pub trace: Option<Vec<String>>,
    /// known findings seen (signature, text)
    pub known: Vec<(String, String)>,
    /// texts of accepted packets
    heard: Vec<String>,
    pub resets_left: u32,
    pub postops: bool,
    pub accepted: u64,
    pub refused: u64,
}

pub const MAXLEN: usize = 268_435_455;

impl<'a> World<'a> {
    pub fn new(src: &'a mut Src, st: &'a mut Stats, prop: Prop, net: Net, trace: bool) -> World<'a> {
        World {
            src,
            st,
            prop,
            net,
            links: vec![],
            now: 0,
            seq: 0,
            q: BinaryHeap::new(),
            hash: 0,
            trace: if trace { Some(vec![]) } else { None },
            known: vec![],
            heard: vec![],
            resets_left: 3,
            postops: false,
            accepted: 0,
            refused: 0,
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 {
                let s = format!("{:>9}us {}", self.now, f());
                crate::rng::spill_note(&s);
                t.push(s);
            }
        }
    }
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.q.push(Reverse((t, self.seq, e)));
    }
    fn mixin(&mut self, x: u64) {
        self.hash = mix(self.hash ^ x);
    }

    pub fn run(&mut self) -> Result<(), Viol> {
        for i in 0..self.links.len() {
            if !self.links[i].items.is_empty() {
                let t = self.src.below(self.net.lat * 3 + 1);
                self.at(t, Ev::Send(i));
            }
        }
        let mut steps = 0u64;
        while let Some(Reverse((t, _, ev))) = self.q.pop() {
            self.now = self.now.max(t);
            crate::seam::set_clock(self.now);
            self.st.inc(St::events);
            steps += 1;
            if steps > 400_000 {
                panic!("harness: runaway simulation");
            }
            match ev {
                Ev::Send(i) => self.on_send(i)?,
                Ev::Flush(i, ep) => {
                    if self.links[i].epoch == ep {
                        self.links[i].flush_pending = false;
                        self.on_flush(i)
                    }
                }
                Ev::Arrive(i, ep, b) => {
                    if self.links[i].epoch == ep {
                        self.on_arrive(i, b)?
                    }
                }
                Ev::Poll(i, ep) => {
                    if self.links[i].epoch == ep {
                        self.links[i].poll_pending = false;
                        self.on_poll(i)?
                    }
                }
            }
            if self.net.reset > 0 && self.resets_left > 0 && self.src.chance(self.net.reset, 1000) {
                let i = self.src.n(self.links.len());
                self.resets_left -= 1;
                self.reset(i)?;
            }
        }
        for i in 0..self.links.len() {
            self.finish_epoch(i, true)?;
        }
        self.check_kept()?;
        self.st.add(St::sim_us, self.now);
        Ok(())
    }

    // ---------------------------------------------------------------- sending
    fn on_send(&mut self, i: usize) -> Result<(), Viol> {
        let burst = if self.src.chance(1, 3) { self.src.range(1, 4) } else { 1 };
        for _ in 0..burst {
            let Some(item) = self.links[i].items.pop_front() else { break };
            self.mixin(0x51 + i as u64);
            match item {
                Item::Real(p, f) => {
                    let r = real::to_real(self.links[i].ver, &p, f);
                    self.encode(i, &r, Some(p), false, "")?;
                }
                Item::Raw(b, p) => {
                    self.note(|| format!("link{} peer queues {} bytes 0x{} {:?}", i, b.len(), hex(&b), p));
                    let l = &mut self.links[i];
                    l.out.extend_from_slice(&b);
                    l.queued += b.len() as u64;
                    let end = l.queued;
                    l.sent.push(Sent { pkt: p, end });
                }
                Item::Refuse(r, what) => {
                    self.st.inc(St::f_refused_send);
                    self.encode(i, &r, None, true, &what)?;
                }
            }
        }
        self.kick(i);
        if !self.links[i].items.is_empty() {
            let mut d = self.src.below(self.net.lat * 2 + 2);
            if self.src.below(100) < self.net.stall {
                self.st.inc(St::f_stall);
                d += 1_000_000;
            }
            let t = self.now + d;
            self.at(t, Ev::Send(i));
        }
        Ok(())
    }

    fn kick(&mut self, i: usize) {
        if !self.links[i].flush_pending && !self.links[i].out.is_empty() {
            self.links[i].flush_pending = true;
            let d = self.src.below(self.net.lat + 1);
            let (t, ep) = (self.now + d, self.links[i].epoch);
            self.at(t, Ev::Flush(i, ep));
        }
    }

    /// the application hands a packet to the crate for sending on link i
    pub fn encode(&mut self, i: usize, r: &Real, p: Option<Pkt>, unsendable: bool, what: &str) -> Result<(), Viol> {
        self.st.inc(St::encodes);
        let prop = self.prop;
        let snapshot = matches!(prop, Prop::E03 | Prop::E04 | Prop::C01);
        let before = if snapshot { self.links[i].out.to_vec() } else { Vec::new() };
        let blen = self.links[i].out.len();
        let res = real::encode(r, &mut self.links[i].out);
        let alen = self.links[i].out.len();
        if self.trace.is_some() {
            let s = if unsendable { format!("unsendable: {}", what) } else { format!("{:?}", real::from_real(r)) };
            let app = if alen >= blen { hex(&self.links[i].out[blen..]) } else { "(buffer shrank)".into() };
            let rs = format!("{:?}", res);
            self.note(|| format!("link{} encode {} -> {} appended 0x{}", i, s, rs, app));
        }
        if prop == Prop::C01 {
            let app = if alen >= blen { self.links[i].out[blen..].to_vec() } else { vec![] };
            self.links[i].log.push(Op::Encode(r.clone(), res.clone(), app));
        }
        if prop == Prop::E03 {
            if alen < blen || self.links[i].out[..blen] != before[..] {
                return viol("queued bytes changed", format!("encoding {} changed bytes already queued in the output buffer", short_of(r)));
            }
            if let Ok(Ok(n)) = &res {
                let app = &self.links[i].out[blen..];
                match rc::framing(app, MAXLEN) {
                    Framing::Frame(h, t) if t == app.len() => {
                        if *n != t {
                            return viol(
                                "wrong count",
                                format!("encoding {} appended {} bytes and reported {}", short_of(r), t, n),
                            );
                        }
                        if let Ok(Some(l)) = real::guarded(|| real::self_len(r)) {
                            if l != t - h {
                                return viol(
                                    "wrong own length",
                                    format!("{} reports length {} but its remaining length is {}", short_of(r), l, t - h),
                                );
                            }
                        }
                    }
                    x => {
                        return viol(
                            "not one frame",
                            format!("encoding {} appended {} bytes 0x{} which are not one frame ({:?})", short_of(r), app.len(), hex(app), x),
                        )
                    }
                }
            }
        }
        if prop == Prop::E04 {
            match (&res, unsendable) {
                (Ok(Ok(_)), true) => {
                    let sig = format!("E04 accepted: {}", what);
                    if crate::known::listed(&sig) {
                        // the finding itself: drop what was written and go on
                        self.known.push((sig, format!("{} is encoded as a corrupt frame instead of being refused", what)));
                        let keep = before.clone();
                        let l = &mut self.links[i];
                        l.out.truncate(blen);
                        if l.out[..] != keep[..] {
                            return viol("trace left", format!("unsendable packet ({}) changed bytes queued before it", what));
                        }
                        return Ok(());
                    }
                    return viol(format!("accepted {}", what), format!("unsendable packet ({}) was not refused", what));
                }
                (Ok(Err(e)), _) => {
                    self.st.inc(St::refusals);
                    if self.links[i].out[..] != before[..] {
                        let o = &self.links[i].out;
                        let m = format!(
                            "refused encode ({}, {:?}) left the output buffer changed: {} bytes before, {} after, tail 0x{}",
                            if unsendable { what.to_string() } else { short_of(r) },
                            e,
                            before.len(),
                            o.len(),
                            hex(&o[blen.min(o.len())..])
                        );
                        return viol("trace left", m);
                    }
                    return Ok(());
                }
                (Err(m), true) => {
                    return viol("refusal panicked", format!("unsendable packet ({}): {}", what, m));
                }
                _ => {}
            }
            if alen < blen || self.links[i].out[..blen] != before[..] {
                return viol("queued bytes changed", format!("encoding {} changed queued bytes", short_of(r)));
            }
        }
        match res {
            Ok(Ok(_)) => {
                let l = &mut self.links[i];
                l.queued += (alen.saturating_sub(blen)) as u64;
                let end = l.queued;
                l.sent.push(Sent { pkt: p, end });
            }
            other => {
                self.st.inc(St::refusals);
                // truncated by harness so that only the property at hand is judged
                if !matches!(prop, Prop::E04 | Prop::C01) && alen > blen {
                    self.links[i].out.truncate(blen);
                } else if prop == Prop::C01 && alen > blen {
                    self.links[i].queued += (alen - blen) as u64;
                }
                let text = match &other {
                    Ok(Err(e)) => format!("refused with {:?}", e),
                    Err(m) => format!("panicked: {}", m),
                    _ => unreachable!(),
                };
                match prop {
                    Prop::E01 | Prop::E02 | Prop::I02 | Prop::V01 if !unsendable => {
                        return viol("send failed", format!("well-formed {} could not be encoded: {}", short_of(r), text))
                    }
                    Prop::H04 => {
                        return viol("relay failed", format!("accepted packet {} could not be encoded again: {}", short_of(r), text))
                    }
                    Prop::E03 if other.is_err() => {
                        return viol("encode panicked", format!("{}: {}", short_of(r), text));
                    }
                    Prop::H01 => {
                        if other.is_err() {
                            return viol("panic in encode", format!("{}: {}", short_of(r), text));
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }

    fn on_flush(&mut self, i: usize) {
        let avail = self.links[i].out.len();
        if avail == 0 {
            return;
        }
        let n = if self.src.below(100) < self.net.short {
            self.st.inc(St::f_short_write);
            self.cut(i, avail, self.links[i].flushed)
        } else {
            avail
        };
        self.mixin(0x1000 + n as u64);
        let how = self.src.below(3);
        let l = &mut self.links[i];
        let chunk: Vec<u8> = match how {
            0 => l.out.split_to(n).to_vec(),
            1 => {
                let v = l.out[..n].to_vec();
                l.out.advance(n);
                v
            }
            _ => {
                if n == avail {
                    l.out.split().to_vec()
                } else {
                    l.out.split_to(n).freeze().to_vec()
                }
            }
        };
        if self.prop == Prop::C01 {
            self.links[i].log.push(Op::Flush(n));
        }
        let base = self.links[i].flushed;
        self.links[i].flushed += n as u64;
        self.st.add(St::bytes, n as u64);
        // segments of this chunk
        let mut off = 0;
        let mut parts = 0;
        while off < chunk.len() {
            let left = chunk.len() - off;
            let k = if left > 1 && parts < 40 && self.src.below(100) < self.net.split {
                self.st.inc(St::f_split);
                self.cut(i, left, base + off as u64)
            } else {
                left
            };
            parts += 1;
            let lat = self.src.below(self.net.lat + 1);
            let t = (self.now + lat).max(self.links[i].last_arrival);
            self.links[i].last_arrival = t;
            let ep = self.links[i].epoch;
            self.st.inc(St::segments);
            let seg = chunk[off..off + k].to_vec();
            off += k;
            self.at(t, Ev::Arrive(i, ep, seg));
        }
        if !self.links[i].out.is_empty() {
            self.links[i].flush_pending = true;
            let mut d = self.src.below(self.net.lat + 1);
            if self.src.below(100) < self.net.stall {
                self.st.inc(St::f_stall);
                d += 3_000_000;
            }
            let (t, ep) = (self.now + d, self.links[i].epoch);
            self.at(t, Ev::Flush(i, ep));
        }
    }

    /// a cut position in 1..=left for bytes starting at stream offset `base`
    fn cut(&mut self, i: usize, left: usize, base: u64) -> usize {
        if left <= 1 {
            return left;
        }
        if self.src.below(100) < self.net.edge {
            // near the end of some frame in this range
            let ends: Vec<u64> =
                self.links[i].sent.iter().map(|s| s.end).filter(|e| *e + 1 > base && *e < base + left as u64).take(6).collect();
            let d = self.src.range(0, 9) as i64 - 3;
            let anchor = if ends.is_empty() { base } else { *self.src.pick(&ends) };
            let k = anchor as i64 + d - base as i64;
            if k >= 1 && (k as usize) <= left {
                self.st.inc(St::f_edge_cut);
                return k as usize;
            }
        }
        match self.src.weighted(&[3, 2, 2, 2, 1]) {
            0 => 1,
            1 => self.src.range(1, 4.min(left as u64)) as usize,
            2 => self.src.range(1, left as u64) as usize,
            3 => left - 1,
            _ => left.div_ceil(2),
        }
    }

    // -------------------------------------------------------------- receiving
    fn on_arrive(&mut self, i: usize, mut b: Vec<u8>) -> Result<(), Viol> {
        self.mixin(0x2000_0000 + ((i as u64) << 20) + b.len() as u64);
        if self.net.flip > 0 && !b.is_empty() && self.src.chance(self.net.flip, 100) {
            self.st.inc(St::f_flip);
            let k = self.src.n(b.len());
            b[k] ^= 1 << self.src.below(8);
        }
        self.note(|| format!("link{} {} bytes arrive 0x{}", i, b.len(), hex(&b)));
        if self.links[i].dead {
            return Ok(());
        }
        if self.links[i].poll_pending {
            self.st.inc(St::f_coalesce);
        }
        if self.prop == Prop::C01 {
            self.links[i].log.push(Op::Arrive(b.clone()));
        }
        if self.links[i].reader == Reader::Hint {
            self.links[i].sock.extend(b);
            return self.pump_hint(i);
        }
        let l = &mut self.links[i];
        if l.cap > 0 && l.inb.capacity() < l.cap {
            l.inb.reserve(l.cap);
        }
        l.inb.extend_from_slice(&b);
        l.stream.extend_from_slice(&b);
        match l.reader {
            Reader::Eager => self.drain(i),
            _ => {
                if self.src.chance(1, 4) {
                    return self.on_poll(i);
                }
                if !self.links[i].poll_pending {
                    self.st.inc(St::f_lazy);
                    self.links[i].poll_pending = true;
                    let d = self.src.below(self.net.lat * 4 + 1);
                    let (t, ep) = (self.now + d, self.links[i].epoch);
                    self.at(t, Ev::Poll(i, ep));
                }
                Ok(())
            }
        }
    }

    fn on_poll(&mut self, i: usize) -> Result<(), Viol> {
        self.mixin(0x3000_0000 + i as u64);
        match self.links[i].reader {
            Reader::OneByOne => {
                let more = self.poll_once(i)?;
                if more {
                    self.again(i);
                }
                Ok(())
            }
            Reader::Peek => self.peek_step(i),
            _ => self.drain(i),
        }
    }
    fn again(&mut self, i: usize) {
        if !self.links[i].poll_pending {
            self.links[i].poll_pending = true;
            let d = self.src.below(self.net.lat + 1);
            let (t, ep) = (self.now + d, self.links[i].epoch);
            self.at(t, Ev::Poll(i, ep));
        }
    }

    fn drain(&mut self, i: usize) -> Result<(), Viol> {
        if self.links[i].reader == Reader::Peek {
            loop {
                let before = self.links[i].consumed;
                self.peek_decode(i)?;
                if self.links[i].consumed == before {
                    return Ok(());
                }
            }
        }
        while self.poll_once(i)? {}
        Ok(())
    }

    /// hint-driven reader: give the decoder exactly what it asks for
    fn pump_hint(&mut self, i: usize) -> Result<(), Viol> {
        loop {
            if self.links[i].dead {
                return Ok(());
            }
            match self.links[i].asked {
                Some(n) => {
                    if self.links[i].sock.len() < n {
                        return Ok(());
                    }
                    let l = &mut self.links[i];
                    let b: Vec<u8> = l.sock.drain(..n).collect();
                    l.inb.extend_from_slice(&b);
                    l.stream.extend_from_slice(&b);
                    l.asked = None;
                }
                None => {
                    self.poll_once(i)?;
                }
            }
        }
    }

    /// one call of the decoder; true if it made progress and may be called again
    pub fn poll_once(&mut self, i: usize) -> Result<bool, Viol> {
        if self.links[i].dead {
            return Ok(false);
        }
        if self.links[i].foreign_receiver {
            return self.foreign_poll(i);
        }
        self.st.inc(St::polls);
        let prop = self.prop;
        let l = &mut self.links[i];
        let blen = l.inb.len();
        let fr = rc::framing(&l.stream[l.consumed..], l.limit);
        let ver = l.rver;
        let auto = l.auto;
        let d = real::decode(ver, &mut l.inb, l.limit);
        let alen = l.inb.len();
        let gone = blen as i64 - alen as i64;
        let tail_ok = gone >= 0 && l.inb[..] == l.stream[(l.consumed + gone as usize).min(l.stream.len())..];
        if prop == Prop::C01 {
            l.log.push(Op::Poll(d.out.clone()));
        }
        self.mixin(match &d.out {
            Out::Pkt(_) => 1,
            Out::Need(n) => 0x100 + *n as u64,
            Out::Err(_) => 2,
            Out::Panic(_) => 3,
        });
        if self.trace.is_some() {
            let s = d.out.short();
            self.note(|| format!("link{} read with {} bytes buffered -> {} ({} bytes consumed)", i, blen, s, gone));
        }
        match &d.out {
            Out::Pkt(_) => {
                self.st.inc(St::frames);
                self.st.inc(St::accepted);
                self.accepted += 1;
            }
            Out::Need(_) => self.st.inc(St::needs),
            Out::Err(e) => {
                self.st.inc(St::frames);
                self.st.inc(St::errors);
                self.refused += 1;
                if self.postops {
                    if let Err(m) = real::guarded(|| format!("{} {:?}", e, e).len()) {
                        return viol(format!("panic {}", site(&m)), format!("printing an error panicked: {}", m));
                    }
                }
            }
            _ => {}
        }
        self.judge(i, fr, blen, gone, tail_ok, &d)?;
        let l = &mut self.links[i];
        if !matches!(d.out, Out::Need(_)) && matches!(prop, Prop::S01 | Prop::S03) {
            l.outs.push(d.out.clone());
        }
        match d.out {
            Out::Need(n) => {
                if !tail_ok || gone != 0 || n == 0 {
                    // a broken decoder: judged above where it matters, otherwise the link is done
                    l.dead = true;
                    return Ok(false);
                }
                l.asked = Some(n);
                l.requests += 1;
                if l.requests > 4096 {
                    l.dead = true;
                }
                Ok(false)
            }
            Out::Panic(_) => {
                l.dead = true;
                Ok(false)
            }
            Out::Err(_) => {
                l.requests = 0;
                if gone <= 0 || !tail_ok {
                    // refused before the frame could be delimited: the application hangs up
                    l.dead = true;
                    return Ok(false);
                }
                l.consumed += gone as usize;
                Ok(true)
            }
            Out::Pkt(r) => {
                l.requests = 0;
                if gone <= 0 || !tail_ok {
                    l.dead = true;
                    return Ok(false);
                }
                let frame_at = l.consumed;
                l.consumed += gone as usize;
                let idx = l.got;
                l.got += 1;
                self.delivered(i, idx, r, frame_at, gone as usize, auto)?;
                Ok(true)
            }
        }
    }

    fn judge(
        &mut self,
        i: usize,
        fr: Framing,
        blen: usize,
        gone: i64,
        tail_ok: bool,
        d: &real::Decoded,
    ) -> Result<(), Viol> {
        let l = &self.links[i];
        let head = hex(&l.stream[l.consumed..(l.consumed + 16).min(l.stream.len())]);
        let ver = l.rver;
        match self.prop {
            Prop::S02 => {
                let out = &d.out;
                match fr {
                    Framing::NeedHeader(k) | Framing::NeedBody(k) => {
                        let Out::Need(n) = out else {
                            return viol(
                                "no request for incomplete frame",
                                format!("{:?}: {} bytes of an incomplete frame (0x{}..) gave {}", ver, blen, head, out.short()),
                            );
                        };
                        if gone != 0 || !tail_ok {
                            return viol("input touched", format!("{:?}: a request for more changed the input ({} bytes gone)", ver, gone));
                        }
                        let exact = matches!(fr, Framing::NeedBody(_));
                        if *n == 0 || *n > k || (exact && *n != k) {
                            return viol(
                                "dishonest request",
                                format!("{:?}: 0x{}.. with {} bytes present asks for {} more, true need is {} {}", ver, head, blen, n, if exact { "exactly" } else { "at least 1, at most" }, k),
                            );
                        }
                        if l.reader == Reader::Hint && l.requests + 1 > 6 {
                            return viol("too many requests", format!("{:?}: more than six requests for one frame (0x{}..)", ver, head));
                        }
                    }
                    Framing::Frame(_, t) => {
                        if let Out::Need(n) = out {
                            return viol(
                                "stall on complete frame",
                                format!("{:?}: a complete frame of {} bytes (0x{}..) is answered with a request for {} more ({} bytes consumed)", ver, t, head, n, gone),
                            );
                        }
                    }
                    _ => {}
                }
            }
            Prop::S03 => match fr {
                Framing::Frame(_, t) => {
                    if matches!(d.out, Out::Pkt(_) | Out::Err(_)) || (matches!(d.out, Out::Need(_)) && gone != 0) {
                        if gone != t as i64 || !tail_ok {
                            return viol(
                                "neighbour touched",
                                format!("{:?}: a frame of {} bytes (0x{}.., outcome {}) took {} bytes from the input{}", ver, t, head, d.out.short(), gone, if tail_ok { "" } else { " and changed the rest" }),
                            );
                        }
                        // the same frame on its own
                        if matches!(d.out, Out::Pkt(_) | Out::Err(_)) {
                            let mut own = BytesMut::from(&l.stream[l.consumed..l.consumed + t]);
                            let o = real::decode(ver, &mut own, l.limit);
                            self.st.inc(St::isolated);
                            if o.out != d.out {
                                return viol(
                                    "neighbour influences outcome",
                                    format!("{:?}: frame 0x{}.. gives {} here and {} on its own", ver, head, d.out.short(), o.out.short()),
                                );
                            }
                        }
                    }
                }
                Framing::BadLen | Framing::TooBig(_) => {
                    if !matches!(d.out, Out::Err(_)) {
                        return viol("undelimited frame not refused", format!("{:?}: 0x{}.. ({:?}) gave {}", ver, head, fr, d.out.short()));
                    }
                    if gone != 0 || !tail_ok {
                        return viol("refusal consumed input", format!("{:?}: 0x{}.. ({:?}) took {} bytes", ver, head, fr, gone));
                    }
                }
                _ => {}
            },
            Prop::S04 => {
                use mqttbytes::Error::PayloadSizeLimitExceeded as Lim;
                let chk = real::check(&l.stream[l.consumed..], l.limit);
                for (who, o) in [("read", &d.out), ("check", &check_out(chk))] {
                    match fr {
                        Framing::TooBig(n) => {
                            if *o != Out::Err(Lim(n)) {
                                return viol(
                                    "over limit not refused",
                                    format!("{:?} {}: announced length {} over limit {} with {} bytes present gave {}", ver, who, n, l.limit, blen, o.short()),
                                );
                            }
                        }
                        _ => {
                            if let Out::Err(Lim(n)) = o {
                                return viol(
                                    "refused within limit",
                                    format!("{:?} {}: 0x{}.. refused for size ({}) under limit {} ({:?})", ver, who, head, n, l.limit, fr),
                                );
                            }
                        }
                    }
                }
                if matches!(fr, Framing::NeedBody(_) | Framing::NeedHeader(_)) && matches!(d.out, Out::Need(_)) {
                    let held = l.inb.len();
                    if held > l.limit.saturating_add(5) {
                        return viol("buffered beyond limit", format!("{:?}: {} bytes of one unfinished frame are held with limit {}", ver, held, l.limit));
                    }
                }
            }
            Prop::H01 => {
                if let Out::Panic(m) = &d.out {
                    let n = match fr {
                        Framing::Frame(_, t) => t,
                        _ => 16,
                    };
                    let bytes = hex(&l.stream[l.consumed..(l.consumed + n).min(l.stream.len())]);
                    return viol(format!("panic {}", site(m)), format!("{:?}: decoding 0x{} panicked: {}", ver, bytes, m));
                }
                if let Out::Err(e) = &d.out {
                    // for the endpoint's log
                    if let Err(m) = real::guarded(|| format!("{} {:?}", e, e).len()) {
                        return viol(format!("panic {}", site(&m)), format!("printing an error panicked: {}", m));
                    }
                }
            }
            Prop::H02 => {
                let (bound, why) = match (&d.out, fr) {
                    (Out::Need(_), Framing::NeedBody(_)) | (Out::Need(_), Framing::NeedHeader(_)) => (4096, "a request for more"),
                    (_, Framing::TooBig(_)) | (_, Framing::BadLen) => (4096, "a size refusal"),
                    (_, Framing::Frame(_, t)) => (64 * t + 8192, "a frame"),
                    _ => (64 * blen + 8192, "a call"),
                };
                if d.peak > bound {
                    return viol(
                        "memory",
                        format!("{:?}: {} (0x{}.., {} bytes buffered, {:?}) allocated {} bytes, bound {}", ver, why, head, blen, fr, d.peak, bound),
                    );
                }
            }
            Prop::H03 => {
                if let (Framing::Frame(h, t), Out::Pkt(r)) = (fr, &d.out) {
                    let frame = &l.stream[l.consumed..l.consumed + t];
                    let re = rc::decode(ver, frame, h);
                    if !re.unspec {
                        match re.pkt {
                            Err(why) => {
                                return viol(
                                    format!("accepted: {} (type {} {:?})", why, frame[0] >> 4, ver),
                                    format!("{:?}: frame 0x{} must be refused ({}) but was decoded as {:?}", ver, hex(frame), why, real::from_real(r)),
                                )
                            }
                            Ok(p) => {
                                let got = real::from_real(r);
                                if p != got {
                                    return viol(
                                        format!("misread (type {} {:?})", frame[0] >> 4, ver),
                                        format!("{:?}: frame 0x{} means {:?} but was decoded as {:?}", ver, hex(frame), p, got),
                                    );
                                }
                            }
                        }
                    }
                }
            }
            Prop::I01 => {
                let want = l.sent.get(l.got).and_then(|s| s.pkt.as_ref());
                match &d.out {
                    Out::Pkt(_) => {}
                    Out::Need(n) => {
                        if let Framing::Frame(_, t) = fr {
                            return viol("conformant packet not read", format!("{:?}: complete conformant frame of {} bytes 0x{}.. ({:?}) answered with a request for {}", ver, t, head, want, n));
                        }
                    }
                    o => {
                        return viol(
                            format!("conformant packet refused ({})", want.map(|p| p.kind()).unwrap_or(0)),
                            format!("{:?}: conformant {:?} encoded as 0x{} gave {}", ver, want, hex(&l.stream[l.consumed..]), o.short()),
                        )
                    }
                }
            }
            Prop::E01 | Prop::E02 | Prop::H04 | Prop::V01 => {
                let judged = self.prop != Prop::H04 || i > 0;
                let o = &d.out;
                if judged && matches!(o, Out::Err(_) | Out::Panic(_)) {
                    let want = l.sent.get(l.got).and_then(|s| s.pkt.as_ref());
                    return viol(
                        format!("sent packet not received ({})", want.map(|p| p.kind()).unwrap_or(0)),
                        format!("{:?}: the receiver of {:?} got {} from 0x{}", ver, want, o.short(), hex(&l.stream[l.consumed..])),
                    );
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// a packet reached the application
    fn delivered(&mut self, i: usize, idx: usize, r: Real, at: usize, len: usize, auto: bool) -> Result<(), Viol> {
        let prop = self.prop;
        let ver = self.links[i].rver;
        let judged = match prop {
            Prop::E01 | Prop::E02 | Prop::I01 => true,
            Prop::H04 => i > 0,
            Prop::V01 => true,
            _ => false,
        };
        if judged {
            let got = real::from_real(&r);
            let l = &self.links[i];
            let want = l.sent.get(idx);
            match want.and_then(|s| s.pkt.as_ref()) {
                Some(w) => {
                    let w = w.clone().norm();
                    if w != got {
                        let bytes = hex(&l.stream[at..at + len]);
                        return viol(
                            format!("changed in transit ({})", w.kind()),
                            format!("{:?}: sent {:?}, received {:?} (0x{})", ver, w, got, bytes),
                        );
                    }
                    if want.unwrap().end != l.consumed as u64 {
                        return viol("frame boundary moved", format!("{:?}: {:?} ended at stream byte {} instead of {}", ver, w, l.consumed, want.unwrap().end));
                    }
                }
                None => {
                    return viol("packet from nowhere", format!("{:?}: received {:?} beyond what was sent", ver, got));
                }
            }
        }
        if prop == Prop::E01 {
            if let Real::V4(mqttbytes::v4::Packet::Connect(c)) = &r {
                if let Some(why) = bad_validation(c) {
                    return viol("credentials misjudged", format!("{:?}: {} for the delivered {:?}", ver, why, c));
                }
            }
        }
        if prop == Prop::V01 && auto {
            self.auto_connect(i, &r, at, len)?;
        }
        if prop == Prop::H01 && self.postops {
            self.post_ops(i, &r)?;
        }
        if matches!(prop, Prop::C01 | Prop::E01 | Prop::E02) && self.links[i].kept.len() < 64 {
            let copy = real::from_real(&r);
            self.links[i].kept.push((r.clone(), copy));
        }
        if let Some(j) = self.links[i].forward {
            let p = real::from_real(&r);
            self.encode(j, &r, Some(p), false, "")?;
            self.kick(j);
        }
        Ok(())
    }

    /// what an application does with an accepted packet: forward, measure, print, match
    fn post_ops(&mut self, i: usize, r: &Real) -> Result<(), Viol> {
        self.st.inc(St::postops);
        let ver = self.links[i].rver;
        let mut scratch = BytesMut::new();
        if let Err(m) = real::encode(r, &mut scratch) {
            return viol(format!("panic {}", site(&m)), format!("{:?}: encoding accepted {} panicked: {}", ver, short_of(r), m));
        }
        if let Err(m) = real::guarded(|| {
            let _ = real::self_len(r);
            format!("{:?}", r).len()
        }) {
            return viol(format!("panic {}", site(&m)), format!("{:?}: measuring or printing accepted {} panicked: {}", ver, short_of(r), m));
        }
        if let Real::V4(mqttbytes::v4::Packet::Connect(c)) = r {
            if let Err(m) = real::guarded(|| bad_validation(c)) {
                return viol(format!("panic {}", site(&m)), format!("validating the login of accepted {} panicked: {}", short_of(r), m));
            }
        }
        let ts = real::texts(&real::from_real(r));
        let filters: &[&str] = &["#", "+", "a/+", "+/b", "sport/#", "$share/g/a", "", "/", "é/+", "+/+/#", "日本/#"];
        for t in &ts {
            for k in 0..5 {
                let h = (self.hash >> 8) as usize ^ t.len();
                let other = match k {
                    4 if h % 8 != 0 => continue,
                    4 => backtracking()[h / 8 % 8].as_str(),
                    0 => t.as_str(),
                    1 => filters[h % filters.len()],
                    2 => ts[h % ts.len()].as_str(),
                    _ => self.heard.get(h % self.heard.len().max(1)).map(|x| x.as_str()).unwrap_or(""),
                };
                let r = real::guarded(|| {
                    (
                        mqttbytes::matches(t, other),
                        mqttbytes::matches(other, t),
                        mqttbytes::valid_topic(t),
                        mqttbytes::valid_filter(t),
                        mqttbytes::has_wildcards(t),
                    )
                });
                if let Err(m) = r {
                    return viol(format!("panic {}", site(&m)), format!("matching or validating accepted text {:?} against {:?} panicked: {}", t, other, m));
                }
            }
        }
        for t in ts {
            // texts of earlier packets, on whichever connection they came
            if t.len() < 300 && self.heard.len() < 12 {
                self.heard.push(t);
            }
        }
        Ok(())
    }

    /// V01: the first packet of a connection, read with the MQTT 5 decoder
    fn auto_connect(&mut self, i: usize, r: &Real, at: usize, len: usize) -> Result<(), Viol> {
        self.links[i].auto = false;
        let frame = self.links[i].stream[at..at + len].to_vec();
        let p = real::from_real(r);
        let Pkt::Connect(c) = &p else { return Ok(()) };
        self.st.inc(St::sessions);
        if c.level == 4 {
            self.links[i].rver = Ver::V4;
            // the 3.1.1 decoder's view of the same bytes
            let mut b = BytesMut::from(&frame[..]);
            let o = real::decode(Ver::V4, &mut b, MAXLEN);
            match &o.out {
                Out::Pkt(r4) => {
                    let p4 = real::from_real(r4);
                    if p4 != p {
                        return viol("versions disagree", format!("3.1.1 CONNECT 0x{}: MQTT 5 decoder reads {:?}, 3.1.1 decoder {:?}", hex(&frame), p, p4));
                    }
                }
                o => return viol("versions disagree", format!("3.1.1 CONNECT 0x{}: 3.1.1 decoder gives {}", hex(&frame), o.short())),
            }
            // sent on: must be in the 3.1.1 layout
            self.layout4(r, &p)?;
        }
        Ok(())
    }

    /// a v5::Connect marked as protocol V4 encodes in the 3.1.1 layout
    pub fn layout4(&mut self, r: &Real, want: &Pkt) -> Result<(), Viol> {
        let mut b = BytesMut::new();
        match real::encode(r, &mut b) {
            Ok(Ok(_)) => {
                let bad = |why: String| viol("not the 3.1.1 layout", format!("{:?} marked as protocol V4 is encoded as 0x{}: {}", want, hex(&b), why));
                match rc::framing(&b, MAXLEN) {
                    Framing::Frame(h, t) if t == b.len() => {
                        let re = rc::decode(Ver::V4, &b, h);
                        match re.pkt {
                            Ok(p) if re.issues.is_empty() => {
                                if p != *want {
                                    return bad(format!("which means {:?}", p));
                                }
                            }
                            Ok(_) => return bad(re.issues.join(", ")),
                            Err(e) => return bad(e.to_string()),
                        }
                    }
                    x => return bad(format!("{:?}", x)),
                }
            }
            Ok(Err(e)) => return viol("not the 3.1.1 layout", format!("{:?} marked as protocol V4 cannot be encoded: {:?}", want, e)),
            Err(m) => return viol("not the 3.1.1 layout", format!("{:?} marked as protocol V4: panic {}", want, m)),
        }
        Ok(())
    }

    fn foreign_poll(&mut self, i: usize) -> Result<bool, Viol> {
        let l = &mut self.links[i];
        let rest = &l.stream[l.consumed..];
        match rc::framing(rest, MAXLEN) {
            Framing::Frame(h, t) => {
                let frame = &rest[..t];
                let idx = l.got;
                l.got += 1;
                l.consumed += t;
                let want = l.sent.get(idx);
                let re = rc::decode(l.rver, frame, h);
                self.st.inc(St::frames);
                self.accepted += 1;
                let w = want.and_then(|s| s.pkt.clone()).map(Pkt::norm);
                let Some(w) = w else {
                    return viol("frame from nowhere", format!("{:?}: extra frame 0x{}", l.rver, hex(frame)));
                };
                let fail = |why: String| {
                    viol(format!("not standard ({})", w.kind()), format!("{:?}: {:?} is encoded as 0x{}: {}", l.rver, w, hex(frame), why))
                };
                match re.pkt {
                    Err(e) => fail(e.to_string()),
                    Ok(_) if !re.issues.is_empty() || re.unspec => fail(re.issues.join(", ")),
                    Ok(p) if p != w => fail(format!("which means {:?}", p)),
                    _ => {
                        let _ = h;
                        let _ = l.inb.split_to(t.min(l.inb.len()));
                        Ok(true)
                    }
                }
            }
            Framing::BadLen | Framing::TooBig(_) => {
                viol("not standard", format!("{:?}: emitted bytes cannot be delimited: 0x{}", l.rver, hex(rest)))
            }
            _ => Ok(false),
        }
    }

    // ------------------------------------------------------------------- S05
    fn peek_step(&mut self, i: usize) -> Result<(), Viol> {
        // look now; decode now or on a later poll, after more bytes came in
        if self.links[i].dead {
            return Ok(());
        }
        let l = &self.links[i];
        if l.peeked.is_none() {
            let rest = &l.inb[..];
            let fr = rc::framing(rest, l.limit);
            let c = real::check(rest, l.limit);
            self.st.inc(St::polls);
            match c {
                Ok(Ok(h)) => {
                    let Framing::Frame(_, t) = fr else {
                        return viol("peek succeeded without a frame", format!("{:?}: check of 0x{} succeeded, framing is {:?}", l.rver, hex(rest), fr));
                    };
                    if h.frame_length() != t {
                        return viol("peek wrong length", format!("{:?}: check of 0x{} reports frame length {} instead of {}", l.rver, hex(rest), h.frame_length(), t));
                    }
                    let ty = rest[0] >> 4;
                    match h.packet_type() {
                        Ok(x) if x as u8 == ty => {}
                        Err(_) if ty == 0 || ty == 15 => {}
                        x => return viol("peek wrong type", format!("{:?}: check of 0x{} reports type {:?}", l.rver, hex(rest), x)),
                    }
                    self.links[i].peeked = Some((h, t));
                }
                other => {
                    // the decoder must say the same
                    let mut copy = BytesMut::from(rest);
                    let d = real::decode(l.rver, &mut copy, l.limit);
                    let o = check_out(other.map(|r| r.map(|_| unreachable!())));
                    if d.out != o && !(matches!(d.out, Out::Panic(_)) && matches!(o, Out::Panic(_))) {
                        return viol("peek disagrees", format!("{:?}: 0x{}: check says {}, read says {}", l.rver, hex(rest), o.short(), d.out.short()));
                    }
                    if matches!(o, Out::Err(_) | Out::Panic(_)) {
                        self.links[i].dead = true;
                    }
                    return Ok(());
                }
            }
        }
        if self.src.chance(1, 2) {
            self.again(i);
            return Ok(());
        }
        self.peek_decode(i)?;
        if !self.links[i].inb.is_empty() {
            self.again(i);
        }
        Ok(())
    }

    fn peek_decode(&mut self, i: usize) -> Result<(), Viol> {
        if self.links[i].dead {
            return Ok(());
        }
        let l = &mut self.links[i];
        if l.peeked.is_none() {
            match real::check(&l.inb, l.limit) {
                Ok(Ok(h)) => {
                    let t = h.frame_length();
                    l.peeked = Some((h, t));
                }
                _ => return Ok(()),
            }
        }
        let (h, t) = l.peeked.take().unwrap();
        let ver = l.rver;
        let bytes = hex(&l.inb[..t.min(l.inb.len())]);
        // the header is still what a fresh look says
        match real::check(&l.inb, l.limit) {
            Ok(Ok(h2)) if h2 == h => {}
            x => return viol("peek not stable", format!("{:?}: 0x{}: first {:?}, later {:?}", ver, bytes, h, x)),
        }
        if t > l.inb.len() {
            return viol("peek wrong length", format!("{:?}: frame length {} with {} bytes present", ver, t, l.inb.len()));
        }
        let mut whole = BytesMut::from(&l.inb[..]);
        let d = real::decode(ver, &mut whole, l.limit);
        let frame = l.inb.split_to(t).freeze();
        l.consumed += t;
        if let Out::Pkt(_) = d.out {
            self.accepted += 1;
            self.st.inc(St::accepted);
        } else {
            self.refused += 1;
            self.st.inc(St::errors);
        }
        self.st.inc(St::frames);
        match h.packet_type() {
            Err(_) => {
                if let Out::Pkt(r) = &d.out {
                    return viol("peek disagrees", format!("{:?}: 0x{}: no packet type in the header, but read gives {}", ver, bytes, short_of(r)));
                }
            }
            Ok(ty) => {
                if let Out::Pkt(r) = &d.out {
                    if real::from_real(r).kind() != ty as u8 {
                        return viol("peek wrong type", format!("{:?}: 0x{}: header says {:?}, read gives {}", ver, bytes, ty, short_of(r)));
                    }
                }
                if let Some(o) = real::read_typed(ver, ty, h, frame) {
                    let same = match (&o, &d.out) {
                        (Out::Pkt(a), Out::Pkt(b)) => a == b,
                        (Out::Pkt(_), _) | (_, Out::Pkt(_)) => false,
                        _ => true,
                    };
                    if !same {
                        return viol("peeked reader disagrees", format!("{:?}: 0x{}: {:?} reader gives {}, read gives {}", ver, bytes, ty, o.short(), d.out.short()));
                    }
                }
            }
        }
        self.mixin(0x77 + t as u64);
        Ok(())
    }

    // ---------------------------------------------------------------- faults
    fn reset(&mut self, i: usize) -> Result<(), Viol> {
        self.st.inc(St::f_reset);
        self.mixin(0x4000_0000 + i as u64);
        self.note(|| format!("link{} connection reset", i));
        let drain = self.src.chance(1, 2);
        if !drain {
            self.st.inc(St::f_reset_undrained);
        }
        self.finish_epoch(i, drain)?;
        if self.prop == Prop::C01 {
            self.links[i].log.push(Op::Reset);
        }
        let reuse = self.src.chance(1, 2);
        let l = &mut self.links[i];
        l.epoch += 1;
        l.sent.clear();
        l.queued = 0;
        l.flushed = 0;
        l.flush_pending = false;
        l.poll_pending = false;
        if reuse {
            l.out.clear();
            l.inb.clear();
        } else {
            l.out = BytesMut::new();
            l.inb = BytesMut::new();
        }
        l.sock.clear();
        l.stream.clear();
        l.consumed = 0;
        l.got = 0;
        l.outs.clear();
        l.dead = false;
        l.asked = None;
        l.requests = 0;
        l.peeked = None;
        Ok(())
    }

    /// the connection is over: let the reader see what arrived, then judge the history
    fn finish_epoch(&mut self, i: usize, drain: bool) -> Result<(), Viol> {
        if drain && !self.links[i].dead {
            if self.links[i].reader == Reader::Hint {
                self.pump_hint(i)?;
            } else {
                self.drain(i)?;
            }
        }
        match self.prop {
            Prop::E01 | Prop::E02 | Prop::I01 | Prop::I02 | Prop::H04 | Prop::V01 => {
                let l = &self.links[i];
                let judged = self.prop != Prop::H04 || i > 0;
                if drain && judged && l.reader != Reader::Peek {
                    let here = (l.stream.len() + l.sock.len()) as u64;
                    let due = l.sent.iter().filter(|s| s.end <= here).count();
                    if l.got != due {
                        let next = l.sent.get(l.got).and_then(|s| s.pkt.as_ref());
                        return viol("sent packet lost", format!("{:?}: {} frames arrived in full, {} packets delivered; next is {:?}", l.rver, due, l.got, next));
                    }
                }
            }
            Prop::S01 => self.refold(i, drain)?,
            Prop::S03 => {
                // the stream without its bad frames gives the same packets
                if drain {
                    let l = &self.links[i];
                    let mut pos = 0;
                    let mut clean = BytesMut::new();
                    let mut good = vec![];
                    for o in &l.outs {
                        if let Framing::Frame(_, t) = rc::framing(&l.stream[pos..], l.limit) {
                            if let Out::Pkt(_) = o {
                                clean.extend_from_slice(&l.stream[pos..pos + t]);
                                good.push(o);
                            }
                            pos += t;
                        } else {
                            break;
                        }
                    }
                    for (n, g) in good.iter().enumerate() {
                        let o = real::decode(l.rver, &mut clean, l.limit).out;
                        self.st.inc(St::isolated);
                        if o != **g {
                            return viol("bad frame influences later ones", format!("{:?}: packet {} is {} with the bad frames in the stream and {} without", l.rver, n, g.short(), o.short()));
                        }
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// S01: the same stream in one piece, and every frame alone
    fn refold(&mut self, i: usize, drain: bool) -> Result<(), Viol> {
        let l = &self.links[i];
        let ver = l.rver;
        let mut whole = BytesMut::from(&l.stream[..]);
        let mut pos = 0usize;
        let mut n = 0usize;
        loop {
            let before = whole.len();
            let o = real::decode(ver, &mut whole, l.limit).out;
            self.st.inc(St::isolated);
            let live = l.outs.get(n);
            if let Out::Need(_) = o {
                // incomplete in one piece: the live reader must not have produced more
                if before == whole.len() {
                    if let Some(x) = live {
                        return viol("fragmentation changes outcome", format!("{:?}: outcome {} is {} when fragmented and a request for more in one piece", ver, n, x.short()));
                    }
                    return Ok(());
                }
            }
            match live {
                Some(x) if *x == o => {}
                Some(x) => {
                    return viol("fragmentation changes outcome", format!("{:?}: outcome {} is {} when fragmented, {} in one piece (0x{})", ver, n, x.short(), o.short(), hex(&l.stream[pos..])));
                }
                None if !drain => return Ok(()),
                None => {
                    return viol("fragmentation loses outcome", format!("{:?}: outcome {} is {} in one piece, missing when fragmented (0x{})", ver, n, o.short(), hex(&l.stream[pos..])));
                }
            }
            // alone
            if let Framing::Frame(_, t) = rc::framing(&l.stream[pos..], l.limit) {
                let mut own = BytesMut::from(&l.stream[pos..pos + t]);
                let a = real::decode(ver, &mut own, l.limit).out;
                if a != o {
                    return viol("stream changes outcome", format!("{:?}: frame 0x{} alone gives {}, in the stream {}", ver, hex(&l.stream[pos..pos + t]), a.short(), o.short()));
                }
            }
            let gone = before - whole.len().min(before);
            pos += gone;
            n += 1;
            if gone == 0 || matches!(o, Out::Panic(_)) {
                return Ok(());
            }
        }
    }

    fn check_kept(&mut self) -> Result<(), Viol> {
        for l in &self.links {
            for (r, copy) in &l.kept {
                if real::from_real(r) != *copy {
                    return viol("delivered packet changed", format!("{:?}: a packet handed to the application as {:?} later reads {:?}", l.rver, copy, real::from_real(r)));
                }
            }
        }
        if self.prop == Prop::C01 {
            self.solo()?;
        }
        Ok(())
    }

    /// C01: each connection's operations again, alone
    fn solo(&mut self) -> Result<(), Viol> {
        for (i, l) in self.links.iter().enumerate() {
            let mut out = BytesMut::new();
            let mut inb = BytesMut::new();
            self.st.inc(St::solo);
            for (n, op) in l.log.iter().enumerate() {
                match op {
                    Op::Encode(r, res, app) => {
                        let b = out.len();
                        let x = real::encode(r, &mut out);
                        let a = if out.len() >= b { &out[b..] } else { &[][..] };
                        if !same_res(&x, res) || a != &app[..] {
                            return viol("encode depends on other connections", format!("link{} ({:?}) step {}: {} gave {:?} 0x{} beside others and {:?} 0x{} alone", i, l.ver, n, short_of(r), res, hex(app), x, hex(a)));
                        }
                    }
                    Op::Flush(n) => {
                        let k = (*n).min(out.len());
                        out.advance(k);
                    }
                    Op::Arrive(b) => inb.extend_from_slice(b),
                    Op::Poll(o) => {
                        let x = real::decode(l.rver, &mut inb, l.limit).out;
                        if x != *o && !(matches!(x, Out::Panic(_)) && matches!(o, Out::Panic(_))) {
                            return viol("decode depends on other connections", format!("link{} ({:?}) step {}: {} beside others, {} alone", i, l.rver, n, o.short(), x.short()));
                        }
                    }
                    Op::Reset => {
                        out = BytesMut::new();
                        inb = BytesMut::new();
                    }
                }
            }
        }
        Ok(())
    }
}

fn same_res(a: &Result<Result<usize, mqttbytes::Error>, String>, b: &Result<Result<usize, mqttbytes::Error>, String>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

pub fn check_out(r: Result<Result<mqttbytes::FixedHeader, mqttbytes::Error>, String>) -> Out {
    match r {
        Ok(Ok(_)) => Out::Need(usize::MAX), // stands for "no objection"
        Ok(Err(mqttbytes::Error::InsufficientBytes(n))) => Out::Need(n),
        Ok(Err(e)) => Out::Err(e),
        Err(m) => Out::Panic(m),
    }
}

pub fn short_of(r: &Real) -> String {
    let v = match r {
        Real::V4(_) => "v4",
        Real::V5(_) => "v5",
    };
    format!("{} {:?}", v, real::from_real(r))
}

/// "file:line" of a panic message
pub fn site(m: &str) -> String {
    m.rsplit(" at ").next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string()
}

/// a broker checks the credentials of a delivered CONNECT against its user table
fn bad_validation(c: &mqttbytes::v4::Connect) -> Option<&'static str> {
    let l = c.login.as_ref()?;
    let (u, p) = (l.username.clone(), l.password.clone());
    if !l.validate(&u, &p) {
        return Some("its own credentials were rejected");
    }
    for x in near(&p) {
        if x != p && l.validate(&u, &x) {
            return Some("a wrong password was accepted");
        }
    }
    for x in near(&u) {
        if x != u && l.validate(&x, &p) {
            return Some("a wrong user name was accepted");
        }
    }
    if u != p && (l.validate(&u, &u) || l.validate(&p, &p) || l.validate(&p, &u)) {
        return Some("wrong credentials were accepted");
    }
    None
}

/// texts that are easily taken for `s`
fn near(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut v = vec![String::new(), format!("{}x", s), format!("x{}", s), format!("{} ", s), format!(" {}", s), format!("{}\0", s)];
    let text = |c: &[char]| c.iter().collect::<String>();
    if !cs.is_empty() {
        let n = cs.len();
        v.push(text(&cs[..n - 1]));
        v.push(text(&cs[1..]));
        v.push(text(&cs[..n / 2]));
        for at in [0, n / 3, n / 2, n - 1] {
            // one character replaced by one of the same and one of another case or length
            for x in ['~', '\u{e9}'] {
                let mut d = cs.clone();
                d[at] = if d[at] == x { '-' } else { x };
                v.push(text(&d));
            }
        }
        let mut d = cs.clone();
        d.reverse();
        v.push(text(&d));
        v.push(s.to_uppercase());
        v.push(s.to_lowercase());
        v.push(s.trim().to_string());
    }
    v
}

/// filters that a matcher which tries one way after the other never finishes with
fn backtracking() -> &'static [String; 8] {
    static B: std::sync::OnceLock<[String; 8]> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        [
            "#/".repeat(60) + "b",
            "+/".repeat(60) + "b",
            "#/+/".repeat(40) + "b",
            "#/a/".repeat(40) + "b",
            "+a".repeat(60) + "b",
            "#a".repeat(60) + "b",
            "/".repeat(200) + "#",
            "#".repeat(80) + "b",
        ]
    })
}
