//! R01, R02: clients of both versions around one broker. The broker's state
//! machine runs twice in step (see broker.rs): on what the library decoded and
//! answered, and on what the clients meant and the reference rules say. What the
//! two would do is compared after every event, and what reaches a client is
//! compared with what the reference broker sent it.
use crate::broker::*;
use crate::gen::Gen;
use crate::model::*;
use crate::real::{self, Flavour, Out, Real};
use crate::refcodec as rc;
use crate::rng::{mix, Src};
use crate::scenario::RunRes;
use crate::sim::{viol, Viol};
use crate::stats::{St, Stats};
use bytes::{Bytes, BytesMut};
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};

thread_local!(static TROUBLE: RefCell<Option<String>> = const { RefCell::new(None) });
pub fn ask<T: Default>(what: &str, f: impl FnOnce() -> T) -> T {
    match real::guarded(f) {
        Ok(x) => x,
        Err(e) => {
            TROUBLE.with(|t| t.borrow_mut().get_or_insert(format!("{}: {}", what, e)).len());
            T::default()
        }
    }
}
pub fn trouble() -> Option<String> {
    TROUBLE.with(|t| t.borrow_mut().take())
}

fn lib_len(ver: Ver, p: &Pkt) -> usize {
    let mut b = BytesMut::new();
    match real::encode(&real::to_real(ver, p, Flavour::default()), &mut b) {
        Ok(Ok(n)) => n,
        _ => 0,
    }
}
const LIB: Rules = Rules {
    matches: |t, f| ask("matches", || mqttbytes::matches(t, f)),
    valid_filter: |f| ask("valid_filter", || mqttbytes::valid_filter(f)),
    valid_topic: |t| ask("valid_topic", || mqttbytes::valid_topic(t)),
    has_wildcards: |t| ask("has_wildcards", || mqttbytes::has_wildcards(t)),
    frame_len: lib_len,
};
const REF: Rules = Rules {
    matches: ref_matches,
    valid_filter: ref_valid_filter,
    valid_topic: ref_valid_topic,
    has_wildcards: ref_has_wildcards,
    frame_len: |v, p| rc::encode(v, p, rc::EncOpts::default()).len(),
};

/// one connection: side 0 is the client, side 1 the broker
struct Link {
    slot: usize,
    ver: Ver,
    out: [BytesMut; 2],
    inb: [BytesMut; 2],
    flushing: [bool; 2],
    last: [u64; 2],
    /// still reading and writing
    open: [bool; 2],
    /// packets under way to each side
    want: [VecDeque<Pkt>; 2],
    /// torn down with data in flight
    broken: bool,
    silent: bool,
    keep: u64,
    aliases: Vec<(u16, String)>,
    alias_max: u16,
    /// the broker's Maximum Packet Size
    most: u64,
    /// topic aliases the broker has introduced
    known: BTreeMap<u16, String>,
    acked: bool,
    held: VecDeque<Pkt>,
    pkid: u16,
    pings: u32,
    /// sides that write with the reference encoder
    foreign: [bool; 2],
}

struct Slot {
    id: String,
    ver: Ver,
    ops: u32,
    link: Option<usize>,
    subscribed: bool,
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Open(usize),
    Op(usize),
    Ping(usize),
    Acks(usize),
    Flush(usize, usize),
    Arrive(usize, usize, Vec<u8>),
    /// the other side has closed in an orderly way
    Eof(usize, usize),
    Break(usize),
    Crash,
    Tick(u64),
}

struct Net {
    lat: u64,
    short: u64,
    stall: u64,
    reset: u64,
    gaps: [u64; 3],
}

struct W<'a> {
    src: &'a mut Src,
    st: &'a mut Stats,
    trace: Option<Vec<String>>,
    now: u64,
    seq: u64,
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    hash: u64,
    links: Vec<Link>,
    slots: Vec<Slot>,
    lib: Broker,
    reference: Broker,
    net: Net,
    topics: Vec<String>,
    filters: Vec<String>,
    life: bool,
    mixed_port: bool,
    foreign: [bool; 2],
    msgs: u64,
    tick_at: u64,
    gen: Gen,
    /// chance in 100 that a text, a payload or a setting is any that MQTT allows
    any: u64,
}

impl<'a> W<'a> {
    fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 {
                let s = format!("{:>12}us {}", self.now, f());
                crate::rng::spill_note(&s);
                t.push(s);
            }
        }
    }
    fn at(&mut self, d: u64, e: Ev) {
        self.seq += 1;
        self.q.push(Reverse((self.now.saturating_add(d), self.seq, e)));
    }
    fn gap(&mut self) -> u64 {
        let g = *self.src.pick(&self.net.gaps.clone());
        self.src.below(g + 1)
    }

    // ---- bytes
    fn put(&mut self, side: usize, c: usize, p: Pkt) -> Result<(), Viol> {
        let p = p.norm();
        let ver = self.links[c].ver;
        if side == 0 && self.links[c].most != u64::MAX {
            // more than the broker accepts is not sent at all
            let n = if self.links[c].foreign[0] { (REF.frame_len)(ver, &p) } else { (LIB.frame_len)(ver, &p) };
            if n as u64 > self.links[c].most {
                self.note(|| format!("client does not send {} bytes on connection {}: {:?}", n, c, p));
                return Ok(());
            }
        }
        if self.links[c].foreign[side] {
            // this side runs another implementation
            let o = crate::scenario::opts(self.src);
            let b = rc::encode(ver, &p, o);
            self.note(|| format!("{} sends on connection {} (foreign): {:?}", ["client", "broker"][side], c, p));
            self.links[c].out[side].extend_from_slice(&b);
            self.links[c].want[1 - side].push_back(p);
            self.kick(side, c);
            return Ok(());
        }
        let f = Flavour { some_empty: self.src.chance(1, 4), builders: self.src.chance(1, 4), ..Flavour::default() };
        let r = real::to_real(ver, &p, f);
        self.st.inc(St::encodes);
        let res = real::encode(&r, &mut self.links[c].out[side]);
        self.note(|| format!("{} sends on connection {}: {:?} -> {:?}", ["client", "broker"][side], c, p, res));
        match res {
            Ok(Ok(_)) => {}
            Ok(Err(e)) => return viol("sending refused", format!("{:?} could not be encoded: {:?}", p, e)),
            Err(e) => return viol("panic", format!("encoding {:?}: {}", p, e)),
        }
        self.links[c].want[1 - side].push_back(p);
        self.kick(side, c);
        Ok(())
    }
    fn kick(&mut self, side: usize, c: usize) {
        if !self.links[c].flushing[side] && !self.links[c].out[side].is_empty() {
            self.links[c].flushing[side] = true;
            let d = self.src.below(self.net.lat + 1);
            self.at(d, Ev::Flush(side, c));
        }
    }
    fn flush(&mut self, side: usize, c: usize) {
        self.links[c].flushing[side] = false;
        let n = self.links[c].out[side].len();
        if n == 0 {
            return;
        }
        let k = if self.src.below(100) < self.net.short {
            self.st.inc(St::f_short_write);
            self.src.range(1, n as u64) as usize
        } else {
            n
        };
        let b = self.links[c].out[side].split_to(k).to_vec();
        self.st.add(St::bytes, k as u64);
        let mut off = 0;
        let mut parts = 0;
        while off < k {
            let left = k - off;
            let m = if parts < 5 && left > 1 && self.src.chance(1, 4) {
                self.st.inc(St::f_split);
                self.src.range(1, left as u64) as usize
            } else {
                left
            };
            parts += 1;
            let mut lat = self.src.below(self.net.lat + 1);
            if self.src.below(100) < self.net.stall {
                self.st.inc(St::f_stall);
                lat += self.gap();
            }
            let t = (self.now + lat).max(self.links[c].last[1 - side]);
            self.links[c].last[1 - side] = t;
            self.st.inc(St::segments);
            let seg = b[off..off + m].to_vec();
            off += m;
            self.at(t - self.now, Ev::Arrive(1 - side, c, seg));
        }
        self.kick(side, c);
    }
    /// flush what is left and close behind it
    fn close(&mut self, side: usize, c: usize) {
        if !self.links[c].open[side] {
            return;
        }
        self.links[c].open[side] = false;
        let b = self.links[c].out[side].split().to_vec();
        let t = (self.now + self.src.below(self.net.lat + 1)).max(self.links[c].last[1 - side]);
        self.links[c].last[1 - side] = t;
        if !b.is_empty() {
            self.at(t - self.now, Ev::Arrive(1 - side, c, b));
        }
        self.at(t - self.now, Ev::Eof(1 - side, c));
        if side == 0 {
            self.left(c);
        }
    }
    /// the client behind a connection is no longer on it
    fn left(&mut self, c: usize) {
        let s = self.links[c].slot;
        if self.slots[s].link == Some(c) {
            self.slots[s].link = None;
            if self.slots[s].ops > 0 {
                let d = self.gap();
                self.at(d, Ev::Open(s));
            }
        }
    }
    fn tear(&mut self, c: usize) {
        self.links[c].broken = true;
        self.links[c].open = [false, false];
        self.left(c);
    }

    // ---- the two brokers
    fn step_both(&mut self, why: &dyn Fn() -> String, deep: bool, f: impl Fn(&mut Broker, bool)) -> Result<(), Viol> {
        f(&mut self.lib, true);
        f(&mut self.reference, false);
        let (a, b) = (self.lib.take(), self.reference.take());
        if let Some(t) = trouble() {
            return viol("panic", t);
        }
        if a != b {
            let i = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
            return viol(
                "broker goes astray",
                format!("{}: with the library the broker does {:?}, it should do {:?}", why(), a.get(i), b.get(i)),
            );
        }
        if deep && !self.lib.same(&self.reference) {
            let (x, y) = (self.lib.state(), self.reference.state());
            let d = x.lines().zip(y.lines()).find(|(p, q)| p != q);
            return viol("broker goes astray", format!("{}: the broker's state should be [{}] but is [{}]", why(), d.map(|d| d.1).unwrap_or(""), d.map(|d| d.0).unwrap_or("")));
        }
        for x in a {
            match x {
                Act::Send(c, p) => {
                    self.hash = mix(self.hash ^ (c as u64) << 8 ^ p.kind() as u64);
                    if self.links[c].open[1] {
                        self.put(1, c, p)?;
                    }
                }
                Act::Close(c) => {
                    self.note(|| format!("broker closes connection {}", c));
                    self.close(1, c);
                }
            }
        }
        if let Some(t) = self.lib.due() {
            if t < self.tick_at || self.tick_at <= self.now {
                self.tick_at = t;
                let d = t.saturating_sub(self.now);
                self.at(d, Ev::Tick(t));
            }
        }
        Ok(())
    }

    fn broker_gets(&mut self, c: usize, r: Real) -> Result<(), Viol> {
        let got = real::from_real(&r).norm();
        let Some(want) = self.links[c].want[1].pop_front() else {
            return viol("packet out of nowhere", format!("the broker decodes {:?} on connection {}, nothing was sent", got, c));
        };
        self.note(|| format!("broker receives on connection {}: {:?}", c, got));
        let login = self.lib.policy.login.clone();
        let auth_ref = match (&login, &want) {
            (Some((u, p)), Pkt::Connect(k)) => k.user == *u && k.pass == *p,
            _ => true,
        };
        let auth_lib = match (&login, &r, &got) {
            (Some((u, p)), Real::V4(mqttbytes::v4::Packet::Connect(k)), _) => {
                ask("validate", || k.login.as_ref().map(|l| l.validate(u, p)).unwrap_or(false))
            }
            (Some((u, p)), _, Pkt::Connect(k)) => k.user == *u && k.pass == *p,
            _ => true,
        };
        self.hash = mix(self.hash ^ 0x55 ^ (c as u64) << 16 ^ got.kind() as u64);
        let sent = want.clone();
        let why = move || format!("client sent {:?} on connection {}", sent, c);
        let now = self.now;
        let deep = matches!(want.kind(), 1 | 8 | 10 | 14);
        self.step_both(&why, deep, |b, lib| {
            if lib {
                b.packet(c, got.clone(), auth_lib, now)
            } else {
                b.packet(c, want.clone(), auth_ref, now)
            }
        })
    }

    fn client_gets(&mut self, c: usize, r: Real) -> Result<(), Viol> {
        let got = real::from_real(&r).norm();
        let Some(want) = self.links[c].want[0].pop_front() else {
            return viol("packet out of nowhere", format!("a client decodes {:?} on connection {}, nothing was sent", got, c));
        };
        self.note(|| format!("client receives on connection {}: {:?}", c, got));
        if got != want {
            return viol("client misled", format!("the broker sent {:?} on connection {}, the client sees {:?}", want, c, got));
        }
        match got {
            Pkt::ConnAck { code, props, .. } => {
                if code != 0 {
                    return Ok(());
                }
                self.st.inc(St::sessions);
                let s = self.links[c].slot;
                self.links[c].acked = true;
                for (id, v) in props {
                    match (id, v) {
                        (18, PVal::Str(x)) => self.slots[s].id = x,
                        (19, PVal::U16(k)) => self.links[c].keep = k as u64,
                        (34, PVal::U16(a)) => self.links[c].alias_max = a,
                        (39, PVal::U32(n)) => self.links[c].most = n as u64,
                        _ => {}
                    }
                }
                let d = self.gap();
                self.at(d, Ev::Op(c));
                if self.links[c].keep > 0 && !self.links[c].silent {
                    self.at(self.links[c].keep * 500_000, Ev::Ping(c));
                }
            }
            Pkt::Publish(p) => {
                self.st.inc(St::delivered);
                for (id, v) in &p.props {
                    if let (35, PVal::U16(a)) = (id, v) {
                        // as the application would resolve it
                        if !p.topic.is_empty() {
                            self.links[c].known.insert(*a, p.topic.clone());
                        } else if !self.links[c].known.contains_key(a) {
                            return viol("client misled", format!("a message on connection {} uses topic alias {}, which was not introduced", c, a));
                        }
                    }
                }
                let kind = match p.qos {
                    0 => return Ok(()),
                    1 => AckKind::PubAck,
                    _ => AckKind::PubRec,
                };
                let reason = if self.links[c].ver == Ver::V5 && self.src.chance(1, 12) {
                    *self.src.pick(&[16u8, 128, 131, 135, 144, 145, 151, 153])
                } else {
                    0
                };
                let a = Pkt::Ack { kind, pkid: p.pkid, reason, props: vec![] };
                if self.src.chance(1, 3) {
                    // a slow application acknowledges later
                    self.links[c].held.push_back(a);
                    let d = self.gap();
                    self.at(d, Ev::Acks(c));
                } else if self.links[c].open[0] {
                    self.put(0, c, a)?;
                }
            }
            Pkt::Ack { kind: AckKind::PubRec, pkid, reason, .. } if reason < 128 => {
                if self.links[c].open[0] {
                    self.put(0, c, Pkt::Ack { kind: AckKind::PubRel, pkid, reason: 0, props: vec![] })?;
                }
            }
            Pkt::Ack { kind: AckKind::PubRel, pkid, .. } => {
                if self.links[c].open[0] {
                    self.put(0, c, Pkt::Ack { kind: AckKind::PubComp, pkid, reason: 0, props: vec![] })?;
                }
            }
            Pkt::PingResp => self.st.inc(St::pings),
            _ => {}
        }
        Ok(())
    }

    fn arrive(&mut self, side: usize, c: usize, b: &[u8]) -> Result<(), Viol> {
        if !self.links[c].open[side] || self.links[c].broken {
            return Ok(());
        }
        self.hash = mix(self.hash ^ 0x9000 ^ b.len() as u64);
        self.links[c].inb[side].extend_from_slice(b);
        while self.links[c].open[side] {
            let ver = if side == 0 {
                self.links[c].ver
            } else {
                // one port for both versions: the MQTT 5 decoder reads the first packet
                self.lib.ver(c).unwrap_or(if self.mixed_port { Ver::V5 } else { self.links[c].ver })
            };
            self.st.inc(St::polls);
            let d = real::decode(ver, &mut self.links[c].inb[side], 1 << 28);
            match d.out {
                Out::Need(_) => {
                    self.st.inc(St::needs);
                    return Ok(());
                }
                Out::Pkt(r) => {
                    self.st.inc(St::accepted);
                    if side == 1 {
                        self.broker_gets(c, r)?
                    } else {
                        self.client_gets(c, r)?
                    }
                }
                o => {
                    let w = self.links[c].want[side].front();
                    return viol("packet not understood", format!("the {} got {} for {:?}", ["client", "broker"][side], o.short(), w));
                }
            }
        }
        Ok(())
    }

    // ---- what clients do
    /// one of the given values, or any
    fn u16_of(&mut self, v: &[u16]) -> u16 {
        if self.src.below(100) >= 100 - self.any {
            Gen::u16v(self.src)
        } else {
            *self.src.pick(v)
        }
    }
    fn u32_of(&mut self, v: &[u32]) -> u32 {
        if self.src.below(100) >= 100 - self.any {
            Gen::u32v(self.src)
        } else {
            *self.src.pick(v)
        }
    }
    /// one of the given texts, or any
    fn word(&mut self, v: &[&str]) -> String {
        if self.src.below(100) >= 100 - self.any {
            self.gen.text(self.src, 0)
        } else {
            self.src.pick(v).to_string()
        }
    }
    /// a message's content, which may be anything
    fn content(&mut self) -> Bytes {
        if self.src.below(200) >= 200 - self.any {
            self.gen.bin(self.src)
        } else {
            payload(self.msgs)
        }
    }
    fn props(&mut self, place: Place) -> Props {
        let mut p = vec![];
        if self.src.chance(1, 2) {
            return p;
        }
        if matches!(place, Place::Publish | Place::Will) {
            if self.src.chance(1, 3) {
                p.push((1, PVal::U8(self.src.below(2) as u8)));
            }
            if self.src.chance(1, 3) {
                p.push((2, PVal::U32(self.u32_of(&[60u32, 1, 2, 5, 3600, u32::MAX]))));
            }
            if self.src.chance(1, 3) {
                p.push((3, PVal::Str(self.word(&["text/plain", "", "é"]))));
            }
            if self.src.chance(1, 3) {
                let t = self.topic();
                p.push((8, PVal::Str(t)));
                let b = if self.src.below(100) >= 100 - self.any { self.gen.bin(self.src) } else { Bytes::from_static(b"\x00\xff42") };
                p.push((9, PVal::Bin(b)));
            }
        }
        for i in 0..self.src.below(3) {
            let v = format!("v{}", i);
            p.push((38, PVal::Pair(self.word(&["k", "", "key"]), self.word(&[&v]))));
        }
        p
    }
    fn topic(&mut self) -> String {
        self.src.pick(&self.topics.clone()).clone()
    }
    fn filter(&mut self) -> String {
        self.src.pick(&self.filters.clone()).clone()
    }

    fn open(&mut self, s: usize) -> Result<(), Viol> {
        if self.slots[s].link.is_some() || self.slots[s].ops == 0 {
            return Ok(());
        }
        self.slots[s].ops -= 1;
        let ver = self.slots[s].ver;
        let v5 = ver == Ver::V5;
        let life = self.life;
        let keep_alive = if life { self.u16_of(&[0u16, 1, 2, 10, 60, 255, 256, 300, 65535]) } else { *self.src.pick(&[0u16, 0, 60, 300]) };
        let mut clean = if life { self.src.chance(1, 3) } else { self.src.chance(1, 10) };
        let client_id = if life && self.src.chance(1, 10) { String::new() } else { self.slots[s].id.clone() };
        if client_id.is_empty() && !self.src.chance(1, 8) {
            clean = true;
        }
        let mut props = vec![];
        if v5 {
            if !life || self.src.chance(2, 3) {
                let e = if life { self.u32_of(&[0u32, 1, 2, 5, 60, 600, u32::MAX]) } else { u32::MAX };
                props.push((17, PVal::U32(e)));
            }
            if self.src.chance(1, 3) {
                props.push((33, PVal::U16(self.u16_of(&[1u16, 2, 3, 10, 256, 65535]).max(1))));
            }
            if self.src.chance(1, 4) {
                props.push((39, PVal::U32(self.u32_of(&[1u32 << 20, 12, 20, 30, 60, 120, 130, 268435455]).max(1))));
            }
            if self.src.chance(1, 6) {
                props.push((34, PVal::U16(self.u16_of(&[1u16, 10, 65535]))));
            }
            if self.src.chance(1, 5) {
                props.push((25, PVal::U8(self.src.below(2) as u8)));
            }
            if self.src.chance(1, 5) {
                props.push((23, PVal::U8(self.src.below(2) as u8)));
            }
            if self.src.chance(1, 8) {
                props.push((38, PVal::Pair("os".into(), "sim".into())));
            }
            if self.src.chance(1, 10) {
                props.push((21, PVal::Str(self.word(&["PLAIN", "SCRAM-SHA-1", ""]))));
                if self.src.chance(1, 2) {
                    props.push((22, PVal::Bin(self.content())));
                }
            }
        }
        let will = if self.src.chance(if life { 2 } else { 1 }, 5) {
            let topic = if self.src.chance(1, 25) { self.filter() } else { self.topic() };
            let topic = if topic.is_empty() { "w".to_string() } else { topic };
            self.msgs += 1;
            let mut wp = vec![];
            if v5 {
                wp = self.props(Place::Will);
                if self.src.chance(1, 2) {
                    wp.push((24, PVal::U32(self.u32_of(&[0u32, 1, 3, 30, 300, 100_000, 0x1_0000, 0x8000_0001, u32::MAX]))));
                }
            }
            Some(Will {
                topic,
                msg: if self.src.chance(1, 8) { Bytes::new() } else { self.content() },
                qos: self.src.below(3) as u8,
                retain: self.src.chance(1, 3),
                props: wp,
            })
        } else {
            None
        };
        let (user, pass) = match (&self.lib.policy.login, self.src.below(10)) {
            (Some((u, p)), 2..) => (u.clone(), p.clone()),
            (Some((u, p)), 0) => match self.src.below(5) {
                0 => (u.clone(), "guess".to_string()),
                1 => (u.clone(), near_text(self.src, p)),
                2 => (near_text(self.src, u), p.clone()),
                3 => (p.clone(), u.clone()),
                _ => (u.clone(), String::new()),
            },
            (Some((u, _)), _) => (u.clone(), u.clone()),
            (None, 0) => ("someone".to_string(), String::new()),
            (None, _) => (String::new(), String::new()),
        };
        let k = Connect { level: if v5 { 5 } else { 4 }, keep_alive, client_id, clean, will, user, pass, props };
        let c = self.links.len();
        let silent = life && self.src.chance(1, 3);
        self.links.push(Link {
            slot: s,
            ver,
            out: [BytesMut::new(), BytesMut::new()],
            inb: [BytesMut::new(), BytesMut::new()],
            flushing: [false; 2],
            last: [0; 2],
            open: [true; 2],
            want: [VecDeque::new(), VecDeque::new()],
            broken: false,
            silent,
            keep: keep_alive as u64,
            aliases: vec![],
            alias_max: 0,
            most: u64::MAX,
            known: BTreeMap::new(),
            acked: false,
            held: VecDeque::new(),
            pkid: Gen::pkid(self.src),
            pings: 0,
            foreign: [self.foreign[0] && self.src.chance(1, 2), self.foreign[1]],
        });
        self.slots[s].link = Some(c);
        self.note(|| format!("client {} opens connection {}", s, c));
        self.put(0, c, Pkt::Connect(Box::new(k)))?;
        if self.src.below(100) < self.net.reset {
            self.st.inc(St::f_reset);
            let d = self.gap() + self.gap();
            self.at(d, Ev::Break(c));
        }
        Ok(())
    }

    fn op(&mut self, c: usize) -> Result<(), Viol> {
        let s = self.links[c].slot;
        if !self.links[c].open[0] || self.slots[s].link != Some(c) {
            return Ok(());
        }
        if self.slots[s].ops == 0 {
            // done: leave, go quiet, or stay until the broker hangs up
            if self.src.chance(1, 2) {
                self.put(0, c, Pkt::Disconnect { reason: 0, props: vec![] })?;
                self.close(0, c);
            }
            return Ok(());
        }
        self.slots[s].ops -= 1;
        let v5 = self.links[c].ver == Ver::V5;
        let w: &[u32] = if self.life { &[6, 2, 1, 3, 1, 1] } else { &[10, 6, 3, 1, 0, 1] };
        let mut what = self.src.weighted(w);
        if !self.slots[s].subscribed && self.src.chance(2, 3) {
            what = 1;
        }
        match what {
            0 => self.publish(c)?,
            1 => {
                self.slots[s].subscribed = true;
                let most = if self.src.chance(1, 6) { 12 } else { 3 };
                let n = self.src.range(1, most);
                let mut filters = vec![];
                for _ in 0..n {
                    let path = self.filter();
                    filters.push(Filter {
                        path,
                        qos: self.src.below(3) as u8,
                        nolocal: v5 && self.src.chance(1, 4),
                        rap: v5 && self.src.chance(1, 3),
                        rh: if v5 { self.src.below(3) as u8 } else { 0 },
                    });
                }
                let mut props = vec![];
                if v5 && self.src.chance(1, 2) {
                    props.push((11, PVal::Var(*self.src.pick(&[1u64, 2, 127, 128, 300, 16384, 2097152, 268435455]))));
                }
                let pkid = self.pkid(c);
                self.put(0, c, Pkt::Subscribe { pkid, filters, props })?
            }
            2 => {
                let most = if self.src.chance(1, 6) { 8 } else { 2 };
                let n = self.src.range(1, most);
                let filters = (0..n).map(|_| self.filter()).collect();
                let pkid = self.pkid(c);
                self.put(0, c, Pkt::Unsubscribe { pkid, filters, props: vec![] })?
            }
            3 => {
                // orderly end of the connection
                let mut props = vec![];
                let mut reason = 0;
                if v5 {
                    reason = *self.src.pick(&[0u8, 4, 0, 4, 128, 0x93, 0x99]);
                    if self.src.chance(1, 3) {
                        props.push((17, PVal::U32(self.u32_of(&[0u32, 1, 60, u32::MAX]))));
                    }
                    if self.src.chance(1, 4) {
                        props.push((31, PVal::Str(self.word(&["bye"]))));
                    }
                }
                self.put(0, c, Pkt::Disconnect { reason, props })?;
                if self.src.chance(1, 2) {
                    self.close(0, c);
                }
            }
            4 => {
                if self.src.chance(1, 6) {
                    // out of turn
                    let k = Connect {
                        level: if v5 { 5 } else { 4 },
                        keep_alive: 0,
                        client_id: "again".into(),
                        clean: true,
                        will: None,
                        user: String::new(),
                        pass: String::new(),
                        props: vec![],
                    };
                    self.put(0, c, Pkt::Connect(Box::new(k)))?
                } else {
                    self.put(0, c, Pkt::PingReq)?
                }
            }
            _ => {
                // dies without a word
                self.st.inc(St::f_reset);
                self.at(0, Ev::Break(c));
                return Ok(());
            }
        }
        let d = if self.src.chance(1, 4) { 0 } else { self.gap() };
        self.at(d, Ev::Op(c));
        Ok(())
    }

    fn pkid(&mut self, c: usize) -> u16 {
        let l = &mut self.links[c];
        l.pkid = if l.pkid == u16::MAX { 1 } else { l.pkid + 1 };
        l.pkid
    }

    fn publish(&mut self, c: usize) -> Result<(), Viol> {
        let v5 = self.links[c].ver == Ver::V5;
        self.msgs += 1;
        self.st.inc(St::published);
        let mut topic = self.topic();
        if self.src.chance(1, 30) {
            topic = self.filter();
        }
        if topic.is_empty() {
            topic = "x".into();
        }
        let mut props = vec![];
        if v5 {
            props = self.props(Place::Publish);
            let max = self.links[c].alias_max;
            if max > 0 && self.src.chance(1, 2) {
                let known = self.links[c].aliases.clone();
                if !known.is_empty() && self.src.chance(2, 3) {
                    let (a, _) = known[self.src.n(known.len())];
                    props.push((35, PVal::U16(a)));
                    topic = String::new();
                } else {
                    let a = self.src.range(1, max as u64) as u16;
                    self.links[c].aliases.retain(|x| x.0 != a);
                    self.links[c].aliases.push((a, topic.clone()));
                    props.push((35, PVal::U16(a)));
                }
            } else if self.src.chance(1, 200) {
                props.push((35, PVal::U16(max.wrapping_add(1))));
            }
        }
        let qos = self.src.below(3) as u8;
        let pkid = if qos > 0 { self.pkid(c) } else { 0 };
        let payload = if self.src.chance(1, 10) { Bytes::new() } else { self.content() };
        let p = Publish { dup: false, qos, retain: self.src.chance(1, 4), topic, pkid, props, payload };
        self.put(0, c, Pkt::Publish(p))
    }

    fn step(&mut self, ev: Ev) -> Result<(), Viol> {
        match ev {
            Ev::Open(s) => self.open(s)?,
            Ev::Op(c) => self.op(c)?,
            Ev::Ping(c) => {
                let s = self.links[c].slot;
                // a client that idles for very long falls silent in the end
                if self.links[c].open[0] && self.slots[s].ops > 0 && self.links[c].pings < 20 {
                    self.links[c].pings += 1;
                    self.put(0, c, Pkt::PingReq)?;
                    self.at(self.links[c].keep * 500_000, Ev::Ping(c));
                }
            }
            Ev::Acks(c) => {
                while let Some(a) = self.links[c].held.pop_front() {
                    if self.links[c].open[0] {
                        self.put(0, c, a)?;
                    }
                }
            }
            Ev::Flush(side, c) => {
                if self.links[c].open[side] && !self.links[c].broken {
                    self.flush(side, c)
                }
            }
            Ev::Arrive(side, c, b) => self.arrive(side, c, &b)?,
            Ev::Eof(side, c) => {
                if self.links[c].open[side] && !self.links[c].broken {
                    // all of it was there, so all of it was read
                    if let Some(p) = self.links[c].want[side].front() {
                        let p = p.clone();
                        return viol("packet lost", format!("{:?} sent on connection {} never reached the {}", p, c, ["client", "broker"][side]));
                    }
                    self.close(side, c);
                    if side == 1 {
                        let now = self.now;
                        self.step_both(&|| format!("the client left connection {}", c), true, |b, _| b.lost(c, now))?;
                    }
                }
            }
            Ev::Break(c) => {
                if self.links[c].open[0] || self.links[c].open[1] {
                    self.note(|| format!("connection {} breaks", c));
                    self.tear(c);
                    let now = self.now;
                    self.step_both(&|| format!("connection {} broke", c), true, |b, _| b.lost(c, now))?;
                }
            }
            Ev::Crash => {
                self.st.inc(St::f_restart);
                self.note(|| "the broker is killed and restarts".to_string());
                for c in 0..self.links.len() {
                    if self.links[c].open[1] || self.links[c].open[0] {
                        self.tear(c);
                    }
                }
                let now = self.now;
                self.step_both(&|| "the broker restarted".into(), true, |b, _| b.crash(now))?;
            }
            Ev::Tick(t) => {
                if t == self.tick_at {
                    self.tick_at = 0;
                    let now = self.now;
                    self.st.inc(St::timers);
                    self.step_both(&|| "a timer ran out".into(), true, |b, _| b.tick(now))?;
                }
            }
        }
        Ok(())
    }

    fn run(&mut self) -> Result<(), Viol> {
        for s in 0..self.slots.len() {
            let d = self.gap();
            self.at(d, Ev::Open(s));
        }
        if self.src.chance(1, 8) {
            let d = self.gap() + self.gap() + self.gap();
            self.at(d, Ev::Crash);
        }
        let mut n = 0;
        while let Some(Reverse((t, _, ev))) = self.q.pop() {
            self.now = self.now.max(t);
            crate::seam::set_clock(self.now);
            self.st.inc(St::events);
            self.step(ev)?;
            n += 1;
            if n > 20_000 {
                break;
            }
        }
        // a timer of many years in an idle world is not counted in full
        self.st.add(St::sim_us, self.now.min(30 * 24 * 3600 * 1_000_000));
        if n <= 20_000 {
            for (c, l) in self.links.iter().enumerate() {
                for side in 0..2 {
                    if l.broken || !l.open[side] {
                        continue;
                    }
                    if let Some(p) = l.want[side].front() {
                        return viol("packet lost", format!("{:?} sent on connection {} never reached the {}", p, c, ["client", "broker"][side]));
                    }
                }
            }
        }
        Ok(())
    }
}

const LEVELS: &[&str] = &["a", "b", "ab", "", "c", "é", "日本", "aé", "éa", "x y", "😀", "A", "a$", "0", "\u{10ffff}", "sport",
    "\u{1f600}\u{fe0f}", "\u{f600}", "\u{10061}", "e\u{301}", "É", "\u{e9}\u{e9}", "\u{c3}\u{a9}", "sport-tennis-1", "sport-tennis-2", "sporT", "ab ", " ", "\u{feff}", "\u{feff}a", "$SYS", "$share", "$ab", "%20", "..", "\u{e000}", "\"\""];

pub fn a_topic(src: &mut Src) -> String {
    let most = match src.weighted(&[180, 18, 2]) {
        0 => 4,
        1 => 12,
        _ => *src.pick(&[40, 140, 300, 1100]),
    };
    let n = src.range(1, most);
    let small = src.chance(1, 2);
    let mut v = vec![];
    for i in 0..n {
        if i == 0 && src.chance(1, 10) {
            v.push(src.pick(&["$", "$SYS", "$é"]).to_string());
        } else if src.chance(1, 60) {
            let long = src.range(100, 300) as usize;
            v.push("l".repeat(if src.chance(1, 12) { *src.pick(&[4096, 16383, 32768, 65530, 65535]) } else { long }));
        } else if src.chance(1, 60) {
            let n = src.range(1, 12) as usize;
            v.push(crate::gen::text(src.sub(), n, 6).replace('/', ""));
        } else {
            v.push(LEVELS[if small { src.n(4) } else { src.n(LEVELS.len()) }].to_string());
        }
    }
    let mut t = v.join("/");
    clip(&mut t, 65535);
    if t.is_empty() {
        "a".into()
    } else {
        t
    }
}

/// the same but for one character, which resembles the old one
pub fn near_level(src: &mut Src, l: &str) -> String {
    let mut c: Vec<char> = l.chars().collect();
    if c.is_empty() {
        return l.into();
    }
    let i = if src.chance(1, 2) { c.len() - 1 } else { src.n(c.len()) };
    let n = c[i] as u32;
    let m = match src.below(6) {
        0 => n ^ 0x20,
        1 => n ^ 0x10000,
        2 => n ^ 1,
        3 => n & 0xff,
        4 => n ^ 0x100,
        _ => n ^ 0x80,
    };
    c[i] = match char::from_u32(m) {
        Some('/') | Some('\0') | None => 'z',
        Some(x) => x,
    };
    c.into_iter().collect()
}

fn near_text(src: &mut Src, t: &str) -> String {
    let mut n = near_level(src, t);
    clip(&mut n, 65535);
    n
}

/// related to some topic, so that near misses are as common as hits
pub fn a_filter(src: &mut Src, topics: &[String]) -> String {
    let mut l = levels(&topics[src.n(topics.len())]);
    for _ in 0..src.weighted(&[2, 4, 3, 1]) {
        let i = src.n(l.len());
        match src.weighted(&[8, 6, 2, 2, 2, 2, 2, 2, 3, 1]) {
            0 => l[i] = "+".into(),
            1 => {
                l.truncate(i + 1);
                if src.chance(1, 2) {
                    l.push("#".into())
                } else {
                    l[i] = "#".into()
                }
            }
            2 => l.push(src.pick(&["", "a", "+", "#"]).to_string()),
            3 => {
                l.pop();
                if l.is_empty() {
                    l.push(src.pick(&["#", "+", ""]).to_string());
                }
            }
            4 => l[i] = LEVELS[src.n(LEVELS.len())].to_string(),
            5 => l.insert(0, src.pick(&["", "+", "a", "$SYS"]).to_string()),
            6 => {
                // one character more or less
                if src.chance(1, 2) {
                    l[i].pop();
                } else {
                    l[i].push(*src.pick(&['a', 'é', ' ', '$']));
                }
            }
            // one character another one
            7 => l[i] = near_level(src, &l[i]),
            8 => {
                let j = src.n(l.len());
                l.swap(i, j)
            }
            // invalid: wildcards sharing a level or not at the end
            _ => {
                let w = *src.pick(&["+", "#", "++", "##", "+#"]);
                match src.below(4) {
                    0 => l[i].push_str(w),
                    1 => l[i].insert_str(0, w),
                    2 => l.insert(i, "#".into()),
                    _ => l[i] = w.into(),
                }
            }
        }
    }
    let mut f = l.join("/");
    if src.chance(1, 40) {
        f = format!("$share/g/{}", f);
    }
    clip(&mut f, 65535);
    if src.chance(1, 60) {
        return String::new();
    }
    f
}

pub fn run(life: bool, src: &mut Src, st: &mut Stats, trace: bool) -> RunRes {
    trouble();
    let n = src.range(1, 5) as usize;
    let nt = src.range(1, 6);
    let mut topics: Vec<String> = vec![];
    for _ in 0..nt {
        let t = if !topics.is_empty() && src.chance(1, 4) {
            let mut l = levels(&topics[src.n(topics.len())]);
            let i = src.n(l.len());
            l[i] = near_level(src, &l[i]);
            let mut t = l.join("/");
            clip(&mut t, 65535);
            t
        } else {
            a_topic(src)
        };
        // not one a publisher may use: the broker's business
        topics.push(if ref_valid_topic(&t) && !t.is_empty() { t } else { "a".into() });
    }
    let nf = if life { 4 } else { src.range(1, 12) };
    let mut filters: Vec<String> = (0..nf).map(|_| a_filter(src, &topics)).collect();
    if life {
        filters.push("#".into());
    }
    let mut gen = Gen::draw(src, Ver::V5);
    gen.huge = false;
    gen.pad = 0;
    let any = *src.pick(&[20u64, 0, 5, 70]);
    let some = |src: &mut Src, t: &[&str]| if src.below(100) >= 100 - any { gen.text(src, 1) } else { src.pick(t).to_string() };
    let any16 = |src: &mut Src, t: &[u16]| if src.below(100) >= 100 - any { Gen::u16v(src) } else { *src.pick(t) };
    let mut say: Props = vec![];
    if src.below(100) >= 100 - any {
        say = gen.props(src, Place::ConnAck);
        say.retain(|p| matches!(p.0, 28 | 39 | 38 | 41));
        for p in say.iter_mut() {
            if let (39, PVal::U32(n)) = (p.0, &mut p.1) {
                if !src.chance(1, 3) {
                    *n |= 1 << 24;
                }
            }
        }
    }
    let chatty = src.chance(1, 2);
    let policy = Policy {
        max_qos: *src.pick(&[2u8, 2, 2, 1, 0]),
        wildcards: !src.chance(1, 10),
        retain: !src.chance(1, 8),
        server_keep_alive: if life && src.chance(1, 6) { Some(any16(src, &[1u16, 5, 256, 65535, 0])) } else { None },
        alias_max: any16(src, &[0u16, 3, 10, 300, 65535]),
        receive_max: any16(src, &[65535u16, 1, 20, 256]).max(1),
        expiry_cap: if life && src.chance(1, 4) { Some(if src.below(100) >= 100 - any { Gen::u32v(src) } else { *src.pick(&[0u32, 2, 100]) }) } else { None },
        deny: if src.chance(1, 4) { vec![a_filter(src, &topics)] } else { vec![] },
        login: if src.chance(1, 4) { Some((some(src, &["user", "é", "u"]), some(src, &["pass", "пароль", "p"]))) } else { None },
        chatty,
        prefix: match src.below(4) {
            0 => "assigned-2d4f6a88-9b0c-1d2e-3f40-516273849506-".to_string(),
            1 => "é-".repeat(40),
            2 => "#/+ ".to_string(),
            _ => {
                let mut p = some(src, &["assigned-", ""]);
                if chatty {
                    clip(&mut p, 65525);
                }
                p
            }
        },
        reason: some(src, &["because", "no", ""]),
        note: (some(src, &["k"]), some(src, &["v", "1"])),
        info: {
            let mut i = some(src, &["answers/", ""]);
            if chatty {
                clip(&mut i, 65534);
            }
            i
        },
        say,
        moved: if life && src.chance(1, 20) { Some(some(src, &["other:1883"])) } else { None },
    };
    let long = if src.chance(1, 5) { "client-".repeat(30) } else { "c0".to_string() };
    let names = [long, some(src, &["c1"]), some(src, &["é"]), "c3".to_string(), "c1 ".to_string()];
    let slots = (0..n)
        .map(|i| {
            let most = if src.chance(1, 6) { 60 } else { 20 };
            Slot {
            id: if life && src.chance(1, 4) { names[1].clone() } else { names[i % names.len()].clone() },
            ver: if src.chance(1, 3) { Ver::V4 } else { Ver::V5 },
            ops: src.range(2, most) as u32,
            link: None,
            subscribed: false,
        }})
        .collect();
    let sec = 1_000_000;
    let net = Net {
        lat: *src.pick(&[100, 5, 20_000]),
        short: *src.pick(&[20, 0, 80]),
        stall: *src.pick(&[2, 0, 10]),
        reset: *src.pick(&[30, 0, 80]),
        gaps: *src.pick(&[[1000, 10_000, sec], [100, 1000, 5000], [sec, 5 * sec, 400 * sec], [1000, sec, 40_000 * sec]]),
    };
    let mixed_port = src.chance(1, 4);
    let foreign = [src.chance(1, 3), src.chance(1, 5)];
    let mut w = W {
        lib: Broker::new(LIB, policy.clone()),
        reference: Broker::new(REF, policy),
        trace: if trace { Some(vec![]) } else { None },
        now: 0,
        seq: 0,
        q: BinaryHeap::new(),
        hash: 0,
        links: vec![],
        slots,
        net,
        topics,
        filters,
        life,
        mixed_port,
        foreign,
        msgs: 0,
        tick_at: 0,
        gen,
        any,
        src,
        st,
    };
    let res = w.run();
    let (routed, wills) = (w.reference.routed, w.reference.wills);
    w.st.add(St::routed, routed);
    w.st.add(St::wills, wills);
    let sample = format!(
        "{} clients, {} connections, topics {:?}, filters {:?}, {} messages published, {} copies routed, {} wills, {} us simulated",
        n,
        w.links.len(),
        w.topics.iter().map(|t| s(t)).collect::<Vec<_>>(),
        w.filters.iter().map(|t| s(t)).collect::<Vec<_>>(),
        w.msgs,
        routed,
        wills,
        w.now
    );
    RunRes { res, hash: w.hash, trace: w.trace.take().unwrap_or_default(), known: vec![], nontrivial: if life { w.links.len() > 1 } else { routed > 0 }, sample }
}
