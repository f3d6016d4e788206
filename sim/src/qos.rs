//! Q01: clients and a broker running QoS 0/1/2 sessions over the codec, with
//! durable session state, resets, restarts, stalls and timers in simulated time.
//! The endpoints' protocol logic is the harness's (written from the standard);
//! every packet passes through the crate's encoder and decoder.
use crate::gen::Gen;
use crate::model::*;
use crate::real::{self, Flavour, Out};
use crate::rng::{mix, Rng, Src};
use crate::scenario::RunRes;
use crate::sim::{viol, Viol};
use crate::stats::{St, Stats};
use bytes::{Bytes, BytesMut};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};

/// one side's durable QoS state towards one peer
struct Session {
    next: u16,
    window: usize,
    queue: VecDeque<(usize, u8)>,
    /// packet id -> (message, qos, released)
    flight: Vec<(u16, usize, u8, bool)>,
    rx2: BTreeSet<u16>,
}
impl Session {
    fn alloc(&mut self) -> u16 {
        loop {
            let p = self.next;
            self.next = self.next.wrapping_add(1);
            if p != 0 && !self.flight.iter().any(|f| f.0 == p) {
                return p;
            }
        }
    }
    fn idle(&self) -> bool {
        self.queue.is_empty() && self.flight.is_empty()
    }
}

/// one side of one connection (volatile)
struct End {
    ver: Ver,
    out: BytesMut,
    inb: BytesMut,
    flush_pending: bool,
    last_arrival: u64,
    up: bool,
}
impl End {
    fn wipe(&mut self) {
        self.out = BytesMut::new();
        self.inb = BytesMut::new();
        self.flush_pending = false;
        self.up = false;
    }
}

struct Msg {
    topic: String,
    payload: Bytes,
    qos: u8,
    from: usize,
    props: Props,
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Open(usize),
    App(usize),
    /// side (0 client, 1 broker), client, epoch
    Flush(usize, usize, u32),
    Arrive(usize, usize, u32, Vec<u8>),
    Ping(usize, u32),
    PingCheck(usize, u32, u32),
    Close(usize, u32),
    Resend(usize, u32),
    Calm,
}

struct Q<'a> {
    src: &'a mut Src,
    st: &'a mut Stats,
    trace: Option<Vec<String>>,
    now: u64,
    seq: u64,
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    hash: u64,
    msgs: Vec<Msg>,
    content: BTreeMap<Bytes, usize>,
    n: usize,
    ver: Vec<Ver>,
    /// the client side, the broker side writes with the reference encoder, in this form
    foreign: [Option<u8>; 2],
    gen: Gen,
    epoch: Vec<u32>,
    // [side][client]
    ends: [Vec<End>; 2],
    sess: [Vec<Session>; 2],
    todo: Vec<VecDeque<usize>>,
    subs: Vec<Vec<(String, u8)>>,
    suback: Vec<bool>,
    bsubs: Vec<Vec<(String, u8)>>,
    opening: Vec<bool>,
    /// broker: how often a message was accepted; (subscriber, message) -> effective qos; deliveries
    accepted: BTreeMap<usize, u32>,
    due: BTreeMap<(usize, usize), u8>,
    got: BTreeMap<(usize, usize), u32>,
    ping_wait: Vec<u32>,
    ping_n: Vec<u32>,
    calm: bool,
    calm_pings: Vec<u32>,
    after: u64,
    lat: u64,
    short: u64,
    reset: u64,
    stall: u64,
    budget: u32,
    sub_pkid: Vec<u16>,
    errs: String,
    /// publishes under way to [side][client]: (message, duplicate flag)
    wire: [Vec<VecDeque<(usize, bool)>>; 2],
    /// broker: a session of the client is stored; client: it has had a session before
    stored: Vec<bool>,
    had: Vec<bool>,
}

fn payload(id: usize, n: usize) -> Bytes {
    let mut v = Vec::with_capacity(n + 8);
    v.extend_from_slice(&(id as u64).to_be_bytes());
    let mut r = Rng::new(id as u64 ^ 0x7777);
    while v.len() < n + 8 {
        v.push(r.next() as u8);
    }
    Bytes::from(v)
}

/// reference topic matching (no dollar topics here)
pub fn ref_match(t: &str, f: &str) -> bool {
    let mut ts = t.split('/');
    let mut fs = f.split('/');
    loop {
        match (ts.next(), fs.next()) {
            (_, Some("#")) => return true,
            (Some(a), Some(b)) if b == "+" || a == b => {}
            (None, None) => return true,
            _ => return false,
        }
    }
}

/// nothing beyond the sizes the two have agreed on
fn modest(p: Props) -> Props {
    let n: usize = p
        .iter()
        .map(|(_, v)| match v {
            PVal::Str(s) => s.len(),
            PVal::Bin(b) => b.len(),
            PVal::Pair(a, b) => a.len() + b.len(),
            _ => 5,
        })
        .sum();
    if n > 100_000 {
        vec![]
    } else {
        p
    }
}

impl<'a> Q<'a> {
    fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 {
                let s = format!("{:>9}us {}", self.now, f());
                crate::rng::spill_note(&s);
                t.push(s);
            }
        }
    }
    fn at(&mut self, d: u64, e: Ev) {
        self.seq += 1;
        self.q.push(Reverse((self.now + d, self.seq, e)));
    }

    fn send(&mut self, side: usize, i: usize, p: Pkt) -> Result<(), Viol> {
        if !self.ends[side][i].up {
            return Ok(());
        }
        let ver = self.ver[i];
        if let Some(form) = self.foreign[side] {
            let p = p.norm();
            // an implementation sticks to its ways
            let o = crate::refcodec::EncOpts { form, ..crate::scenario::opts(self.src) };
            let b = crate::refcodec::encode(ver, &p, o);
            self.note(|| format!("{} {} sends (foreign) {:?}", ["client", "broker to client"][side], i, p));
            self.ends[side][i].out.extend_from_slice(&b);
            self.kick(side, i);
            return Ok(());
        }
        let f = Flavour { some_empty: self.src.chance(1, 4), builders: self.src.chance(1, 4), ..Flavour::default() };
        let r = real::to_real(ver, &p, f);
        self.st.inc(St::encodes);
        let blen = self.ends[side][i].out.len();
        let res = real::encode(&r, &mut self.ends[side][i].out);
        self.note(|| format!("{} {} sends {:?} -> {:?}", ["client", "broker to client"][side], i, p, res));
        match res {
            Ok(Ok(_)) => {}
            e => {
                self.ends[side][i].out.truncate(blen);
                self.errs = format!("{:?} could not be sent: {:?}", p, e);
                self.close(i);
                return Ok(());
            }
        }
        self.kick(side, i);
        Ok(())
    }
    fn kick(&mut self, side: usize, i: usize) {
        if !self.ends[side][i].flush_pending && !self.ends[side][i].out.is_empty() {
            self.ends[side][i].flush_pending = true;
            let d = self.src.below(self.lat + 1);
            let ep = self.epoch[i];
            self.at(d, Ev::Flush(side, i, ep));
        }
    }
    /// both directions gone, everything in flight lost
    fn close(&mut self, i: usize) {
        self.note(|| format!("connection of client {} breaks", i));
        self.epoch[i] += 1;
        self.ends[0][i].wipe();
        self.ends[1][i].wipe();
        self.wire[0][i].clear();
        self.wire[1][i].clear();
        self.ping_wait[i] = 0;
        if !self.opening[i] {
            self.opening[i] = true;
            let d = self.src.below(self.lat * 4 + 2);
            self.at(d, Ev::Open(i));
        }
    }

    fn publish_pkt(&mut self, side: usize, i: usize, m: usize, qos: u8, pkid: u16, dup: bool) -> Pkt {
        let ver = self.ver[i];
        if self.ends[side][i].up {
            self.wire[1 - side][i].push_back((m, dup));
        }
        let retain = self.src.chance(1, 8);
        let m = &self.msgs[m];
        Pkt::Publish(Publish {
            dup,
            qos,
            retain,
            topic: m.topic.clone(),
            pkid,
            props: if ver == Ver::V5 { m.props.clone() } else { vec![] },
            payload: m.payload.clone(),
        })
    }

    /// move queued messages into the send window
    fn pump(&mut self, side: usize, i: usize) -> Result<(), Viol> {
        if !self.ready(side, i) {
            return Ok(());
        }
        while self.ends[side][i].up {
            let s = &mut self.sess[side][i];
            let Some((m, q)) = s.queue.front().copied() else { break };
            if q > 0 && s.flight.len() >= s.window {
                break;
            }
            s.queue.pop_front();
            let pkid = if q > 0 {
                let p = s.alloc();
                s.flight.push((p, m, q, false));
                p
            } else {
                0
            };
            let p = self.publish_pkt(side, i, m, q, pkid, false);
            self.send(side, i, p)?;
        }
        Ok(())
    }
    fn ready(&self, side: usize, i: usize) -> bool {
        self.ends[side][i].up
    }

    fn resend(&mut self, side: usize, i: usize) -> Result<(), Viol> {
        let fl = self.sess[side][i].flight.clone();
        for (pkid, m, q, rel) in fl {
            let p = if rel {
                Pkt::Ack { kind: AckKind::PubRel, pkid, reason: 0, props: vec![] }
            } else {
                self.publish_pkt(side, i, m, q, pkid, true)
            };
            self.send(side, i, p)?;
        }
        self.pump(side, i)
    }

    fn ack(&mut self, side: usize, i: usize, kind: AckKind, pkid: u16, reason: u8) -> Result<(), Viol> {
        let mut props = vec![];
        if self.ver[i] == Ver::V5 && self.src.chance(1, 6) {
            if self.src.chance(1, 2) {
                props.push((31, PVal::Str("ok".into())));
                props.push((38, PVal::Pair("k".into(), "v".into())));
            } else {
                props = modest(self.gen.props(self.src, Place::Ack));
            }
        }
        let mut reason = if self.ver[i] == Ver::V5 { reason } else { 0 };
        if self.ver[i] == Ver::V5 && matches!(kind, AckKind::PubAck | AckKind::PubRec) && self.src.chance(1, 5) {
            reason = 16; // accepted, nobody has subscribed
        }
        self.send(side, i, Pkt::Ack { kind, pkid, reason, props })
    }

    /// a message reached the application behind `side`
    fn message(&mut self, side: usize, i: usize, p: &Publish) -> Result<usize, Viol> {
        let bad = |why: &str| viol("message damaged", format!("client {} {}: {}: {:?}", i, ["receives", "sends"][side], why, Pkt::Publish(p.clone())));
        // no two messages have the same content
        let Some(&id) = self.content.get(&p.payload) else { return bad("no message has this payload") };
        let m = &self.msgs[id];
        if m.topic != p.topic {
            return bad("topic changed");
        }
        Ok(id)
    }

    /// resends are recognisable, first transmissions are not taken for resends
    fn dup_flag(&mut self, side: usize, i: usize, p: &Publish) -> Result<(), Viol> {
        let id = self.message(side, i, p)?;
        while let Some((m, dup)) = self.wire[side][i].pop_front() {
            if m == id {
                if dup != p.dup {
                    let who = ["broker", "client"][side];
                    return viol("duplicate flag changed", format!("client {}: {} sent message {} with dup={}, it arrived as {:?}", i, who, id, dup, Pkt::Publish(p.clone())));
                }
                break;
            }
        }
        Ok(())
    }

    fn deliver(&mut self, side: usize, i: usize, p: &Publish) -> Result<(), Viol> {
        let id = self.message(side, i, p)?;
        if side == 1 {
            // broker: accept and route
            *self.accepted.entry(id).or_insert(0) += 1;
            if self.msgs[id].from != i {
                return viol("message damaged", format!("message {} of client {} came from client {}", id, self.msgs[id].from, i));
            }
            if self.msgs[id].qos == 2 && self.accepted[&id] > 1 {
                return viol("duplicate delivery", format!("QoS 2 message {} of client {} was delivered to the broker {} times", id, i, self.accepted[&id]));
            }
            for j in 0..self.n {
                let q = self.bsubs[j].iter().filter(|(f, _)| ref_match(&self.msgs[id].topic, f)).map(|(_, q)| *q).max();
                if let Some(q) = q {
                    let eff = q.min(p.qos);
                    self.due.insert((j, id), eff);
                    self.sess[1][j].queue.push_back((id, eff));
                    self.pump(1, j)?;
                }
            }
        } else {
            self.st.inc(St::delivered);
            let c = self.got.entry((i, id)).or_insert(0);
            *c += 1;
            let c = *c;
            match self.due.get(&(i, id)) {
                None => return viol("message damaged", format!("client {} received message {} which was never routed to it", i, id)),
                Some(2) if c > 1 => {
                    return viol("duplicate delivery", format!("QoS 2 message {} was delivered {} times to client {}", id, c, i))
                }
                _ => {}
            }
        }
        Ok(())
    }

    fn handle(&mut self, side: usize, i: usize, p: Pkt) -> Result<(), Viol> {
        match p {
            Pkt::Connect(c) if side == 1 => {
                let me = c.client_id == format!("client-{}", i);
                if !me || c.clean {
                    self.errs = format!("CONNECT of client {} arrived as {:?}", i, c.client_id);
                    self.close(i);
                    return Ok(());
                }
                self.ends[1][i].up = true;
                self.st.inc(St::sessions);
                let mut props = if self.ver[i] == Ver::V5 && self.src.chance(1, 3) {
                    vec![(33, PVal::U16(20)), (39, PVal::U32(1 << 20))]
                } else {
                    vec![]
                };
                props.extend(self.extra(i, Place::ConnAck, &[26, 28, 31, 34, 38, 42]));
                props.sort_by_key(|p| p.0);
                let had = self.stored[i];
                self.stored[i] = true;
                self.send(1, i, Pkt::ConnAck { session: had, code: 0, props })?;
                self.resend(1, i)?;
            }
            Pkt::ConnAck { code, session, .. } if side == 0 => {
                if code != 0 {
                    self.errs = format!("CONNACK of client {} arrived with code {}", i, code);
                    self.close(i);
                    return Ok(());
                }
                if !session && self.had[i] {
                    // told that its session is gone, a client drops its state and starts over
                    self.sess[0][i].flight.clear();
                    self.sess[0][i].rx2.clear();
                    self.suback[i] = self.subs[i].is_empty();
                }
                if session && !self.stored[i] {
                    return viol("session misreported", format!("client {} is told of a session the broker does not have", i));
                }
                self.had[i] = true;
                if !self.suback[i] {
                    self.subscribe(i)?;
                }
                self.resend(0, i)?;
                let ep = self.epoch[i];
                let d = self.src.range(1, 60) * (self.lat + 10);
                self.at(d, Ev::Ping(i, ep));
            }
            Pkt::Publish(p) => {
                self.dup_flag(side, i, &p)?;
                match p.qos {
                    0 => self.deliver(side, i, &p)?,
                    1 => {
                        self.deliver(side, i, &p)?;
                        let reason = if side == 1 && self.src.chance(1, 8) { 16 } else { 0 };
                        self.ack(side, i, AckKind::PubAck, p.pkid, reason)?;
                    }
                    _ => {
                        if self.sess[side][i].rx2.insert(p.pkid) {
                            self.deliver(side, i, &p)?;
                        }
                        self.ack(side, i, AckKind::PubRec, p.pkid, 0)?;
                    }
                }
            }
            Pkt::Ack { kind, pkid, reason, .. } => match kind {
                AckKind::PubAck => {
                    if reason < 128 {
                        self.sess[side][i].flight.retain(|f| !(f.0 == pkid && f.2 == 1));
                    }
                    self.pump(side, i)?;
                }
                AckKind::PubRec => {
                    let mut known = false;
                    if reason < 128 {
                        for f in self.sess[side][i].flight.iter_mut() {
                            if f.0 == pkid && f.2 == 2 {
                                f.3 = true;
                                known = true;
                            }
                        }
                    }
                    self.ack(side, i, AckKind::PubRel, pkid, if known { 0 } else { 146 })?;
                }
                AckKind::PubRel => {
                    let known = self.sess[side][i].rx2.remove(&pkid);
                    self.ack(side, i, AckKind::PubComp, pkid, if known { 0 } else { 146 })?;
                }
                AckKind::PubComp => {
                    self.sess[side][i].flight.retain(|f| !(f.0 == pkid && f.2 == 2 && f.3));
                    self.pump(side, i)?;
                }
            },
            Pkt::Subscribe { pkid, filters, .. } if side == 1 => {
                let mut codes = vec![];
                for f in filters {
                    self.bsubs[i].retain(|x| x.0 != f.path);
                    codes.push(f.qos);
                    self.bsubs[i].push((f.path, f.qos));
                }
                let props = self.extra(i, Place::SubAck, &[31, 38]);
                self.send(1, i, Pkt::SubAck { pkid, codes, props })?;
            }
            Pkt::SubAck { pkid, codes, .. } if side == 0 => {
                let granted: Vec<u8> = self.subs[i].iter().map(|s| s.1).collect();
                if pkid == self.sub_pkid[i] && codes == granted {
                    self.suback[i] = true;
                } else {
                    self.errs = format!("SUBACK of client {} arrived as pkid {} codes {:?}", i, pkid, codes);
                    self.close(i);
                }
            }
            Pkt::PingReq if side == 1 => self.send(1, i, Pkt::PingResp)?,
            Pkt::PingResp if side == 0 => {
                self.st.inc(St::pings);
                self.ping_wait[i] = 0;
                if self.calm {
                    self.calm_pings[i] += 1;
                }
            }
            Pkt::Disconnect { .. } if side == 1 => self.close(i),
            other => {
                self.errs = format!("unexpected {:?}", other);
                self.close(i);
            }
        }
        Ok(())
    }

    /// now and then, properties of any value that change nothing about the session
    fn extra(&mut self, i: usize, place: Place, keep: &[u8]) -> Props {
        if self.ver[i] == Ver::V4 || !self.src.chance(1, 8) {
            return vec![];
        }
        let mut p = modest(self.gen.props(self.src, place));
        p.retain(|p| keep.contains(&p.0));
        p
    }

    fn subscribe(&mut self, i: usize) -> Result<(), Viol> {
        let filters: Vec<Filter> = self.subs[i]
            .iter()
            .map(|(f, q)| Filter { path: f.clone(), qos: *q, nolocal: false, rap: false, rh: 0 })
            .collect();
        if filters.is_empty() {
            self.suback[i] = true;
            return Ok(());
        }
        self.sub_pkid[i] = Gen::pkid(self.src);
        let pkid = self.sub_pkid[i];
        let mut props = if self.ver[i] == Ver::V5 && self.src.chance(1, 3) {
            vec![(11, PVal::Var(self.src.range(1, 300)))]
        } else {
            vec![]
        };
        props.extend(self.extra(i, Place::Subscribe, &[38]));
        self.send(0, i, Pkt::Subscribe { pkid, filters, props })
    }

    fn arrive(&mut self, side: usize, i: usize, b: &[u8]) -> Result<(), Viol> {
        self.ends[side][i].inb.extend_from_slice(b);
        let ep = self.epoch[i];
        loop {
            if self.epoch[i] != ep {
                return Ok(());
            }
            let e = &mut self.ends[side][i];
            self.st.inc(St::polls);
            let d = real::decode(e.ver, &mut e.inb, 1 << 20);
            match d.out {
                Out::Need(_) => {
                    self.st.inc(St::needs);
                    return Ok(());
                }
                Out::Pkt(r) => {
                    self.st.inc(St::accepted);
                    let p = real::from_real(&r);
                    self.note(|| format!("{} {} receives {:?}", ["client", "broker from client"][side], i, p));
                    self.hash = mix(self.hash ^ ((side as u64) << 8 | (i as u64) << 4 | p.kind() as u64));
                    self.handle(side, i, p)?;
                }
                o => {
                    self.st.inc(St::errors);
                    self.errs = format!("{} {} got {}", ["client", "broker from client"][side], i, o.short());
                    self.close(i);
                    return Ok(());
                }
            }
        }
    }

    fn flush(&mut self, side: usize, i: usize) {
        let ep = self.epoch[i];
        let avail = self.ends[side][i].out.len();
        if avail == 0 {
            return;
        }
        let n = if self.src.below(100) < self.short {
            self.st.inc(St::f_short_write);
            match self.src.below(3) {
                0 => 1,
                1 => self.src.range(1, avail as u64) as usize,
                _ => avail.min(1 + avail / 2),
            }
        } else {
            avail
        };
        let b = self.ends[side][i].out.split_to(n).to_vec();
        self.st.add(St::bytes, n as u64);
        let mut off = 0;
        let mut parts = 0;
        while off < n {
            let left = n - off;
            let k = if parts < 6 && left > 1 && self.src.chance(1, 3) {
                self.st.inc(St::f_split);
                self.src.range(1, left as u64) as usize
            } else {
                left
            };
            parts += 1;
            let mut lat = self.src.below(self.lat + 1);
            if self.src.below(100) < self.stall {
                self.st.inc(St::f_stall);
                lat += 50 * self.lat;
            }
            let t = (self.now + lat).max(self.ends[1 - side][i].last_arrival);
            self.ends[1 - side][i].last_arrival = t;
            self.st.inc(St::segments);
            let seg = b[off..off + k].to_vec();
            off += k;
            let d = t - self.now;
            self.at(d, Ev::Arrive(1 - side, i, ep, seg));
        }
        self.kick(side, i);
    }

    fn step(&mut self, ev: Ev) -> Result<(), Viol> {
        match ev {
            Ev::Open(i) => {
                self.opening[i] = false;
                self.epoch[i] += 1;
                self.ends[0][i].wipe();
                self.ends[1][i].wipe();
                self.ends[0][i].up = true;
                self.note(|| format!("client {} connects", i));
                let will = if self.src.chance(1, 4) {
                    Some(Will { topic: "will".into(), msg: Bytes::from_static(b"bye"), qos: 1, retain: false, props: vec![] })
                } else {
                    None
                };
                let user = if self.src.chance(1, 3) { "user".to_string() } else { String::new() };
                let pass = if user.is_empty() { String::new() } else { "pass".to_string() };
                let v5 = self.ver[i] == Ver::V5;
                let props = if v5 { vec![(17, PVal::U32(0xffff_ffff))] } else { vec![] };
                let c = Connect {
                    level: if v5 { 5 } else { 4 },
                    keep_alive: 30,
                    client_id: format!("client-{}", i),
                    clean: false,
                    will,
                    user,
                    pass,
                    props,
                };
                self.send(0, i, Pkt::Connect(Box::new(c)))?;
                let ep = self.epoch[i];
                // no answer within the connect timeout: try again
                let d = 1200 * (self.lat + 20);
                self.ping_n[i] += 1;
                let n = self.ping_n[i];
                self.ping_wait[i] = n;
                self.at(d, Ev::PingCheck(i, ep, n));
                if !self.calm && self.reset > 0 && self.budget > 0 && self.src.below(100) < self.reset {
                    self.budget -= 1;
                    self.st.inc(St::f_reset);
                    if self.src.chance(1, 3) {
                        self.st.inc(St::f_restart);
                    }
                    let d = self.src.below(40 * (self.lat + 5));
                    self.at(d, Ev::Close(i, ep));
                }
            }
            Ev::Close(i, ep) => {
                if self.epoch[i] == ep {
                    self.close(i);
                }
            }
            Ev::App(i) => {
                if let Some(m) = self.todo[i].pop_front() {
                    self.st.inc(St::published);
                    let q = self.msgs[m].qos;
                    self.sess[0][i].queue.push_back((m, q));
                    if self.ping_wait[i] == 0 || self.ends[1][i].up {
                        self.pump(0, i)?;
                    }
                    let d = self.src.below(self.lat * 3 + 2);
                    self.at(d, Ev::App(i));
                }
            }
            Ev::Flush(side, i, ep) => {
                if self.epoch[i] == ep {
                    self.ends[side][i].flush_pending = false;
                    self.flush(side, i);
                }
            }
            Ev::Arrive(side, i, ep, b) => {
                if self.epoch[i] == ep {
                    self.hash = mix(self.hash ^ 0x9000 ^ b.len() as u64);
                    self.arrive(side, i, &b)?;
                }
            }
            Ev::Ping(i, ep) => {
                if self.epoch[i] == ep && self.ends[0][i].up {
                    self.ping_n[i] += 1;
                    let n = self.ping_n[i];
                    self.ping_wait[i] = n;
                    self.send(0, i, Pkt::PingReq)?;
                    let d = 1200 * (self.lat + 20);
                    self.at(d, Ev::PingCheck(i, ep, n));
                    if !self.calm {
                        let d = self.src.range(1, 60) * (self.lat + 10);
                        self.at(d, Ev::Ping(i, ep));
                    }
                }
            }
            Ev::PingCheck(i, ep, n) => {
                if self.epoch[i] == ep && self.ping_wait[i] == n {
                    self.errs = format!("client {} got no answer in time", i);
                    self.close(i);
                }
            }
            Ev::Resend(i, ep) => {
                // 3.1.1 only: an impatient sender resends without reconnecting
                if self.epoch[i] == ep && self.ver[i] == Ver::V4 && self.ends[1][i].up && !self.calm {
                    self.st.inc(St::f_timeout);
                    self.resend(0, i)?;
                }
            }
            Ev::Calm => {
                self.calm = true;
                self.reset = 0;
                self.stall = 0;
                self.note(|| "faults stop".to_string());
                for i in 0..self.n {
                    let ep = self.epoch[i];
                    self.at(0, Ev::Ping(i, ep));
                }
            }
        }
        Ok(())
    }

    fn done(&self) -> bool {
        self.calm
            && (0..self.n).all(|i| {
                self.todo[i].is_empty() && self.suback[i] && self.sess[0][i].idle() && self.sess[1][i].idle() && self.calm_pings[i] > 0
            })
    }

    fn run(&mut self) -> Result<(), Viol> {
        for i in 0..self.n {
            let d = self.src.below(self.lat + 1);
            self.opening[i] = true;
            self.at(d, Ev::Open(i));
            let d = self.src.below(self.lat * 8 + 1);
            self.at(d, Ev::App(i));
            if self.src.chance(1, 4) {
                let d = self.src.below(self.lat * 30 + 1);
                self.at(d, Ev::Resend(i, 1));
            }
        }
        let d = self.src.range(1, 400) * (self.lat + 1);
        self.at(d, Ev::Calm);
        while let Some(Reverse((t, _, ev))) = self.q.pop() {
            self.now = self.now.max(t);
            crate::seam::set_clock(self.now);
            self.st.inc(St::events);
            if self.calm {
                self.after += 1;
                if self.after > 60_000 {
                    break;
                }
                if self.done() {
                    break;
                }
            }
            self.step(ev)?;
        }
        self.st.add(St::sim_us, self.now);
        // safety over the history
        for (m, msg) in self.msgs.iter().enumerate() {
            let c = self.accepted.get(&m).copied().unwrap_or(0);
            if msg.qos == 2 && c > 1 {
                return viol("duplicate delivery", format!("QoS 2 message {} accepted {} times", m, c));
            }
        }
        if !self.done() {
            let mut left = String::new();
            for i in 0..self.n {
                left += &format!(
                    "client {} ({:?}): {} unsent, subscribed {}, {} queued + {} in flight up, {} + {} down, {} pings answered; ",
                    i,
                    self.ver[i],
                    self.todo[i].len(),
                    self.suback[i],
                    self.sess[0][i].queue.len(),
                    self.sess[0][i].flight.len(),
                    self.sess[1][i].queue.len(),
                    self.sess[1][i].flight.len(),
                    self.calm_pings[i]
                );
            }
            return viol("no progress after faults stopped", format!("{} events after faults stopped: {}last trouble: {}", self.after, left, self.errs));
        }
        for (m, msg) in self.msgs.iter().enumerate() {
            let c = self.accepted.get(&m).copied().unwrap_or(0);
            if msg.qos > 0 && c == 0 {
                return viol("message lost", format!("QoS {} message {} of client {} was acknowledged but never delivered to the broker", msg.qos, m, msg.from));
            }
        }
        let due: Vec<_> = self.due.iter().map(|(k, v)| (*k, *v)).collect();
        for ((j, m), q) in due {
            let c = self.got.get(&(j, m)).copied().unwrap_or(0);
            if (q == 2 && c != 1) || (q == 1 && c == 0) {
                return viol("message lost", format!("QoS {} message {} was delivered {} times to client {}", q, m, c, j));
            }
        }
        Ok(())
    }
}

pub fn run(src: &mut Src, st: &mut Stats, trace: bool) -> RunRes {
    let n = src.range(1, 4) as usize;
    let lat = *src.pick(&[50u64, 5, 2000]);
    let topics = ["a", "a/b", "a/b/c", "b/é", "sport/tennis", "日本/x", "x"];
    let filters = ["#", "a/#", "+", "+/b", "a/+/c", "sport/tennis", "日本/+", "b/é", "x", "will"];
    let mut gen = Gen::draw(src, Ver::V5);
    gen.huge = false;
    gen.pad = 0;
    let any = *src.pick(&[0u64, 20, 80]);
    let mut msgs: Vec<Msg> = vec![];
    let mut contents: BTreeMap<Bytes, usize> = BTreeMap::new();
    let mut todo: Vec<VecDeque<usize>> = vec![];
    let ver: Vec<Ver> = (0..n).map(|_| if src.chance(1, 2) { Ver::V4 } else { Ver::V5 }).collect();
    let foreign = [0, 1].map(|_| if src.chance(1, 4) { Some(src.below(3) as u8) } else { None });
    let qw = *src.pick(&[[1u32, 2, 3], [0, 0, 1], [0, 1, 0], [1, 1, 1]]);
    for (i, v) in ver.iter().enumerate() {
        let most = if src.chance(1, 6) { 30 } else { 8 };
        let k = src.range(0, most);
        let mut t = VecDeque::new();
        for _ in 0..k {
            let size = match src.weighted(&[6, 2, 1]) {
                0 => src.range(0, 30) as usize,
                1 => src.range(90, 130) as usize,
                _ => *src.pick(&[500usize, 16370, 16384, 20000]),
            };
            let id = msgs.len();
            let mut content = if src.below(100) >= 100 - any { gen.bin(src) } else { payload(id, size) };
            let mut more = size;
            while contents.contains_key(&content) {
                content = payload(id, more);
                more += 1;
            }
            contents.insert(content.clone(), id);
            let mut props = vec![];
            if *v == Ver::V5 && src.chance(1, 4) {
                if src.below(100) >= 100 - any {
                    props = modest(gen.props(src, Place::Publish));
                    props.retain(|p| p.0 != 11 && p.0 != 35);
                } else {
                    props.push((1, PVal::U8(1)));
                    props.push((38, PVal::Pair("key".into(), "value".into())));
                }
            }
            msgs.push(Msg {
                topic: if src.below(100) >= 100 - any { gen.topic(src) } else { src.pick(&topics).to_string() },
                payload: content,
                qos: src.weighted(&qw) as u8,
                from: i,
                props,
            });
            t.push_back(id);
        }
        todo.push(t);
    }
    let subs: Vec<Vec<(String, u8)>> = (0..n)
        .map(|_| {
            let k = src.range(0, 4);
            let mut v: Vec<(String, u8)> = vec![];
            for _ in 0..k {
                let f = if any > 0 && src.chance(1, 3) {
                    if msgs.is_empty() || src.chance(1, 3) { gen.filter(src) } else { msgs[src.n(msgs.len())].topic.clone() }
                } else {
                    src.pick(&filters).to_string()
                };
                let q = src.weighted(&[1, 1, 3]) as u8;
                if !v.iter().any(|x| x.0 == f) {
                    v.push((f, q));
                }
            }
            v
        })
        .collect();
    let session = |src: &mut Src| Session {
        next: Gen::pkid(src),
        window: src.range(1, 10) as usize,
        queue: VecDeque::new(),
        flight: vec![],
        rx2: BTreeSet::new(),
    };
    let mk = |v: Ver| End { ver: v, out: BytesMut::new(), inb: BytesMut::new(), flush_pending: false, last_arrival: 0, up: false };
    let sess = [(0..n).map(|_| session(src)).collect::<Vec<_>>(), (0..n).map(|_| session(src)).collect::<Vec<_>>()];
    let (short, reset, stall) = (*src.pick(&[30, 0, 90]), *src.pick(&[70, 0, 95]), *src.pick(&[2, 0, 10]));
    let nmsg = msgs.len();
    let mut q = Q {
        st,
        trace: if trace { Some(vec![]) } else { None },
        now: 0,
        seq: 0,
        q: BinaryHeap::new(),
        hash: 0,
        n,
        epoch: vec![0; n],
        ends: [ver.iter().map(|v| mk(*v)).collect(), ver.iter().map(|v| mk(*v)).collect()],
        sess,
        suback: subs.iter().map(|s| s.is_empty()).collect(),
        bsubs: vec![vec![]; n],
        opening: vec![false; n],
        accepted: BTreeMap::new(),
        due: BTreeMap::new(),
        got: BTreeMap::new(),
        ping_wait: vec![0; n],
        ping_n: vec![0; n],
        calm: false,
        calm_pings: vec![0; n],
        after: 0,
        lat,
        short,
        reset,
        stall,
        budget: 12,
        sub_pkid: vec![0; n],
        wire: [vec![VecDeque::new(); n], vec![VecDeque::new(); n]],
        stored: vec![false; n],
        had: vec![false; n],
        errs: String::new(),
        msgs,
        content: contents,
        todo,
        subs,
        ver,
        foreign,
        gen,
        src,
    };
    let res = q.run();
    let sample = format!(
        "Q01: {} clients {:?}, {} messages, {} deliveries due, {} us simulated, {} events after faults stopped",
        n,
        q.ver,
        nmsg,
        q.due.len(),
        q.now,
        q.after
    );
    RunRes { res, hash: q.hash, trace: q.trace.take().unwrap_or_default(), known: vec![], nontrivial: nmsg > 0, sample }
}
