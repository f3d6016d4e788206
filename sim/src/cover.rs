//! R03: a broker at the edge of a network serves local clients and forwards
//! their interest to the broker above it, subscribing there only to filters
//! that no other filter covers. It asks the library which filter covers which
//! and which message a filter selects; a second edge with the reference rules
//! runs in step on what the clients meant. Links are faulty; when the faults
//! stop, messages published above must reach exactly the clients that asked.
use crate::broker::{levels, ref_matches, ref_valid_filter, ref_valid_topic};
use crate::model::*;
use crate::real::{self, Flavour, Out};
use crate::refcodec as rc;
use crate::rng::{mix, Src};
use crate::route::{a_filter, a_topic, ask, trouble};
use crate::scenario::RunRes;
use crate::sim::{viol, Viol};
use crate::stats::{St, Stats};
use bytes::{Bytes, BytesMut};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};

/// level by level: every topic the first selects is selected by the second as well
pub fn ref_covers(narrow: &str, wide: &str) -> bool {
    if narrow.as_bytes().first() == Some(&b'$') {
        return false;
    }
    let (mut n, mut w) = (levels(narrow), levels(wide));
    if w.last().map(|l| l == "#").unwrap_or(false) {
        // the rest is anything; what stands before it has to be there
        w.pop();
        if n.len() < w.len() {
            return false;
        }
        n.truncate(w.len());
    }
    n.len() == w.len() && n.iter().zip(&w).all(|(a, b)| a != "#" && (b == "+" || a == b))
}

type Rule = fn(&str, &str) -> bool;

#[derive(Clone)]
struct Edge {
    matches: Rule,
    covers: Rule,
    /// local client -> its filters
    subs: BTreeMap<usize, BTreeSet<String>>,
    /// subscribed to above
    up: BTreeSet<String>,
    connected: bool,
}
#[derive(PartialEq, Eq, Debug, Clone)]
enum Act {
    /// nothing above covers what a client has just asked for
    New(String),
    Sub(Vec<String>),
    Unsub(Vec<String>),
    Forward(usize),
}
impl Edge {
    fn new(matches: Rule, covers: Rule) -> Edge {
        Edge { matches, covers, subs: BTreeMap::new(), up: BTreeSet::new(), connected: false }
    }
    /// bring the subscriptions above in line with what the clients want
    fn settle(&mut self) -> Vec<Act> {
        if !self.connected {
            return vec![];
        }
        let all: BTreeSet<&String> = self.subs.values().flatten().collect();
        let want: BTreeSet<String> =
            all.iter().filter(|f| !all.iter().any(|g| g != *f && (self.covers)(f, g))).map(|f| f.to_string()).collect();
        let add: Vec<String> = want.difference(&self.up).cloned().collect();
        let del: Vec<String> = self.up.difference(&want).cloned().collect();
        self.up = want;
        let mut v = vec![];
        if !add.is_empty() {
            v.push(Act::Sub(add));
        }
        if !del.is_empty() {
            v.push(Act::Unsub(del));
        }
        v
    }
    fn fresh(&self, f: &str) -> bool {
        !self.up.iter().any(|g| (self.covers)(f, g))
    }
    fn route(&mut self, topic: &str) -> Vec<Act> {
        self.subs.iter().filter(|(_, fs)| fs.iter().any(|f| (self.matches)(topic, f))).map(|(c, _)| Act::Forward(*c)).collect()
    }
}

/// one connection; side 0 is the client of it
struct Link {
    /// None = between the edge and the broker above
    local: Option<usize>,
    ver: Ver,
    inb: [BytesMut; 2],
    last: [u64; 2],
    want: [VecDeque<Pkt>; 2],
    up: bool,
    pkid: u16,
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Open(Option<usize>),
    Op(usize),
    Publish,
    Arrive(usize, usize, Vec<u8>),
    Break(usize),
}

struct W<'a> {
    src: &'a mut Src,
    st: &'a mut Stats,
    trace: Option<Vec<String>>,
    now: u64,
    seq: u64,
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    hash: u64,
    links: Vec<Link>,
    /// the connection each local client is on, and its operations left
    local: Vec<(Option<usize>, u32)>,
    mine: Vec<BTreeSet<String>>,
    /// the connection to the broker above
    above: Option<usize>,
    pubs: u32,
    lib: Edge,
    reference: Edge,
    /// what the broker above has been told: as decoded, as meant
    told: [BTreeSet<String>; 2],
    topics: Vec<String>,
    filters: Vec<String>,
    lat: u64,
    stall: u64,
    reset: u64,
    gap: u64,
    msgs: u64,
    forwards: u64,
    covered: bool,
    /// what reached the clients: (client, message)
    got: BTreeMap<(usize, u64), u32>,
    foreign: bool,
}

impl<'a> W<'a> {
    fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 {
                let s = format!("{:>12}us {}", self.now, f());
                crate::rng::spill_note(&s);
                t.push(s);
            }
        }
    }
    fn at(&mut self, d: u64, e: Ev) {
        self.seq += 1;
        self.q.push(Reverse((self.now + d, self.seq, e)));
    }
    fn pause(&mut self) -> u64 {
        self.src.below(self.gap + 1)
    }
    fn name(&self, c: usize, side: usize) -> String {
        match (self.links[c].local, side) {
            (Some(k), 0) => format!("client {}", k),
            (None, 1) => "the broker above".into(),
            _ => "the edge".into(),
        }
    }

    /// `side` writes a packet, which reaches the other side in pieces and in order
    fn put(&mut self, c: usize, side: usize, p: Pkt) -> Result<(), Viol> {
        if !self.links[c].up {
            return Ok(());
        }
        let p = p.norm();
        let ver = self.links[c].ver;
        let bytes = if self.foreign && !(self.links[c].local.is_some() && side == 1) && !(self.links[c].local.is_none() && side == 0) {
            let o = crate::scenario::opts(self.src);
            rc::encode(ver, &p, o)
        } else {
            let mut b = BytesMut::new();
            self.st.inc(St::encodes);
            match real::encode(&real::to_real(ver, &p, Flavour::default()), &mut b) {
                Ok(Ok(_)) => b.to_vec(),
                Ok(Err(e)) => return viol("sending refused", format!("{:?} could not be encoded: {:?}", p, e)),
                Err(e) => return viol("panic", format!("encoding {:?}: {}", p, e)),
            }
        };
        let who = self.name(c, side);
        self.note(|| format!("{} sends on connection {}: {:?}", who, c, p));
        self.links[c].want[1 - side].push_back(p);
        self.st.add(St::bytes, bytes.len() as u64);
        let (mut off, mut parts) = (0, 0);
        while off < bytes.len() {
            let left = bytes.len() - off;
            let n = if parts < 5 && left > 1 && self.src.chance(1, 4) {
                self.st.inc(St::f_split);
                self.src.range(1, left as u64) as usize
            } else {
                left
            };
            parts += 1;
            let mut lat = self.src.below(self.lat + 1);
            if self.src.below(100) < self.stall {
                self.st.inc(St::f_stall);
                lat += self.pause();
            }
            let t = (self.now + lat).max(self.links[c].last[1 - side]);
            self.links[c].last[1 - side] = t;
            self.st.inc(St::segments);
            let seg = bytes[off..off + n].to_vec();
            off += n;
            self.at(t - self.now, Ev::Arrive(c, 1 - side, seg));
        }
        Ok(())
    }
    fn arrive(&mut self, c: usize, side: usize, seg: Vec<u8>) -> Result<(), Viol> {
        if !self.links[c].up {
            return Ok(());
        }
        self.hash = mix(self.hash ^ (c as u64) << 40 ^ (side as u64) << 32 ^ seg.len() as u64);
        self.links[c].inb[side].extend_from_slice(&seg);
        loop {
            if !self.links[c].up {
                return Ok(());
            }
            let ver = self.links[c].ver;
            let d = real::decode(ver, &mut self.links[c].inb[side], 1 << 28);
            self.st.inc(St::polls);
            match d.out {
                Out::Pkt(r) => {
                    self.st.inc(St::accepted);
                    let got = real::from_real(&r).norm();
                    let Some(want) = self.links[c].want[side].pop_front() else {
                        return viol("packet out of nowhere", format!("{} decodes {:?}, nothing was sent", self.name(c, side), got));
                    };
                    self.hash = mix(self.hash ^ got.kind() as u64);
                    let who = self.name(c, side);
                    self.note(|| format!("{} receives on connection {}: {:?}", who, c, got));
                    match (self.links[c].local, side) {
                        (Some(k), 1) => self.edge_hears(c, k, got, want)?,
                        (None, 1) => self.above_hears(c, got, want)?,
                        (None, _) => self.edge_hears_above(got, want)?,
                        (Some(k), _) => self.client_hears(k, got, want)?,
                    }
                }
                Out::Need(_) => return Ok(()),
                Out::Err(e) => {
                    return viol("stream lost", format!("{} cannot decode {:?}: {:?}", self.name(c, side), self.links[c].want[side].front(), e))
                }
                Out::Panic(m) => return viol("panic", m),
            }
        }
    }

    // ---- the two edges
    fn both(&mut self, why: &str, f: impl Fn(&mut Edge, bool) -> Vec<Act>) -> Result<(), Viol> {
        let a = f(&mut self.lib, true);
        let b = f(&mut self.reference, false);
        if let Some(t) = trouble() {
            return viol("panic", t);
        }
        if a != b {
            let i = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
            return viol(
                "subscriptions above differ",
                format!(
                    "{}: with the library the edge does {:?}, it should do {:?}; its clients want {:?}",
                    why,
                    a.get(i),
                    b.get(i),
                    self.reference.subs
                ),
            );
        }
        if self.lib.subs != self.reference.subs || self.lib.up != self.reference.up {
            return viol("edge goes astray", format!("{}: {:?} should be {:?}", why, self.lib.subs, self.reference.subs));
        }
        let n: BTreeSet<&String> = self.reference.subs.values().flatten().collect();
        if self.reference.connected && n.len() > self.reference.up.len() {
            self.covered = true;
        }
        for x in a {
            match x {
                Act::Sub(fs) => {
                    let Some(c) = self.above else { continue };
                    let pkid = self.pkid(c);
                    let filters =
                        fs.into_iter().map(|path| Filter { path, qos: 0, nolocal: false, rap: false, rh: 0 }).collect();
                    self.put(c, 0, Pkt::Subscribe { pkid, filters, props: vec![] })?;
                }
                Act::Unsub(filters) => {
                    let Some(c) = self.above else { continue };
                    let pkid = self.pkid(c);
                    self.put(c, 0, Pkt::Unsubscribe { pkid, filters, props: vec![] })?;
                }
                Act::New(_) | Act::Forward(_) => {}
            }
        }
        Ok(())
    }
    fn pkid(&mut self, c: usize) -> u16 {
        let l = &mut self.links[c];
        l.pkid = if l.pkid == 65535 { 1 } else { l.pkid + 1 };
        l.pkid
    }
    fn edge_hears(&mut self, c: usize, k: usize, got: Pkt, want: Pkt) -> Result<(), Viol> {
        let answer = match &want {
            Pkt::Connect(_) => Some(Pkt::ConnAck { session: false, code: 0, props: vec![] }),
            Pkt::Subscribe { pkid, filters, .. } => Some(Pkt::SubAck { pkid: *pkid, codes: vec![0; filters.len()], props: vec![] }),
            Pkt::Unsubscribe { pkid, filters, .. } => Some(Pkt::UnsubAck {
                pkid: *pkid,
                codes: if self.links[c].ver == Ver::V5 { vec![0; filters.len()] } else { vec![] },
                props: vec![],
            }),
            _ => None,
        };
        let why = format!("after {:?} of client {}", want, k);
        self.both(&why, |e, lib| {
            let mut v = vec![];
            match if lib { &got } else { &want } {
                Pkt::Connect(_) => {
                    e.subs.insert(k, BTreeSet::new());
                }
                Pkt::Subscribe { filters, .. } => {
                    for f in filters {
                        if e.fresh(&f.path) {
                            v.push(Act::New(f.path.clone()));
                        }
                        e.subs.entry(k).or_default().insert(f.path.clone());
                    }
                }
                Pkt::Unsubscribe { filters, .. } => {
                    for f in filters {
                        e.subs.entry(k).or_default().remove(f);
                    }
                }
                _ => {}
            }
            v.extend(e.settle());
            v
        })?;
        if let Some(a) = answer {
            self.put(c, 1, a)?;
        }
        Ok(())
    }
    fn above_hears(&mut self, c: usize, got: Pkt, want: Pkt) -> Result<(), Viol> {
        let v5 = self.links[c].ver == Ver::V5;
        for (i, p) in [&got, &want].into_iter().enumerate() {
            match p {
                Pkt::Connect(_) => self.told[i].clear(),
                Pkt::Subscribe { filters, .. } => self.told[i].extend(filters.iter().map(|f| f.path.clone())),
                Pkt::Unsubscribe { filters, .. } => {
                    for f in filters {
                        self.told[i].remove(f);
                    }
                }
                _ => {}
            }
        }
        if self.told[0] != self.told[1] {
            return viol(
                "subscriptions above differ",
                format!("the edge sent {:?}; the broker above serves {:?}, meant were {:?}", want, self.told[0], self.told[1]),
            );
        }
        let a = match want {
            Pkt::Connect(_) => Pkt::ConnAck { session: false, code: 0, props: vec![] },
            Pkt::Subscribe { pkid, filters, .. } => Pkt::SubAck { pkid, codes: vec![0; filters.len()], props: vec![] },
            Pkt::Unsubscribe { pkid, filters, .. } => {
                Pkt::UnsubAck { pkid, codes: if v5 { vec![0; filters.len()] } else { vec![] }, props: vec![] }
            }
            _ => return Ok(()),
        };
        self.put(c, 1, a)
    }
    fn edge_hears_above(&mut self, got: Pkt, want: Pkt) -> Result<(), Viol> {
        let (Pkt::Publish(g), Pkt::Publish(p)) = (&got, &want) else { return Ok(()) };
        let (a, b) = (self.lib.route(&g.topic), self.reference.route(&p.topic));
        if let Some(t) = trouble() {
            return viol("panic", t);
        }
        if a != b || g.topic != p.topic || g.payload != p.payload {
            return viol(
                "message misrouted",
                format!("{:?} from above, decoded as {:?}: the edge does {:?}, it should do {:?}; its clients want {:?}", want, got, a, b, self.reference.subs),
            );
        }
        for x in a {
            if let Act::Forward(k) = x {
                self.forwards += 1;
                if let Some(c) = self.local[k].0 {
                    self.put(c, 1, Pkt::Publish(g.clone()))?;
                }
            }
        }
        Ok(())
    }
    fn client_hears(&mut self, k: usize, got: Pkt, want: Pkt) -> Result<(), Viol> {
        let (Pkt::Publish(g), Pkt::Publish(p)) = (&got, &want) else { return Ok(()) };
        if g.topic != p.topic || g.payload != p.payload {
            return viol("message misrouted", format!("{:?} reaches client {} as {:?}", want, k, got));
        }
        let id = String::from_utf8_lossy(&p.payload).parse().unwrap_or(0);
        *self.got.entry((k, id)).or_insert(0) += 1;
        Ok(())
    }

    // ---- what happens
    fn open(&mut self, who: Option<usize>) -> Result<(), Viol> {
        let c = self.links.len();
        let ver = if self.src.chance(1, 3) { Ver::V4 } else { Ver::V5 };
        self.links.push(Link {
            local: who,
            ver,
            inb: Default::default(),
            last: [0; 2],
            want: Default::default(),
            up: true,
            pkid: 0,
        });
        self.st.inc(St::sessions);
        let connect = Pkt::Connect(Box::new(Connect {
            level: if ver == Ver::V4 { 4 } else { 5 },
            keep_alive: 0,
            client_id: match who {
                Some(k) => format!("c{}", k),
                None => "edge".into(),
            },
            clean: true,
            will: None,
            user: String::new(),
            pass: String::new(),
            props: vec![],
        }));
        match who {
            None => {
                self.above = Some(c);
                self.put(c, 0, connect)?;
                self.both("after connecting to the broker above", |e, _| {
                    e.connected = true;
                    e.settle()
                })?;
            }
            Some(k) => {
                self.local[k].0 = Some(c);
                self.put(c, 0, connect)?;
                let fs: Vec<String> = self.mine[k].iter().cloned().collect();
                if !fs.is_empty() {
                    self.subscribe(k, fs)?;
                }
            }
        }
        if self.src.below(100) < self.reset {
            let d = self.pause();
            self.at(d, Ev::Break(c));
        }
        Ok(())
    }
    fn subscribe(&mut self, k: usize, fs: Vec<String>) -> Result<(), Viol> {
        self.mine[k].extend(fs.iter().cloned());
        let Some(c) = self.local[k].0 else { return Ok(()) };
        let pkid = self.pkid(c);
        let filters = fs.into_iter().map(|path| Filter { path, qos: 0, nolocal: false, rap: false, rh: 0 }).collect();
        self.put(c, 0, Pkt::Subscribe { pkid, filters, props: vec![] })
    }
    fn op(&mut self, k: usize) -> Result<(), Viol> {
        let n = self.src.weighted(&[6, 2, 1]) as u64 + 1;
        let mut fs: Vec<String> = (0..n).map(|_| self.filters[self.src.n(self.filters.len())].clone()).collect();
        if self.src.chance(2, 5) && !self.mine[k].is_empty() {
            let mine: Vec<String> = self.mine[k].iter().cloned().collect();
            fs[0] = mine[self.src.n(mine.len())].clone();
            for f in &fs {
                self.mine[k].remove(f);
            }
            if let Some(c) = self.local[k].0 {
                let pkid = self.pkid(c);
                self.put(c, 0, Pkt::Unsubscribe { pkid, filters: fs, props: vec![] })?;
            }
        } else {
            self.subscribe(k, fs)?;
        }
        self.local[k].1 -= 1;
        if self.local[k].1 > 0 {
            let d = self.pause();
            self.at(d, Ev::Op(k));
        }
        Ok(())
    }
    /// the broker above publishes; whether it reaches the edge is up to what the edge asked for
    fn publish(&mut self, topic: String) -> Result<(), Viol> {
        self.msgs += 1;
        self.st.inc(St::published);
        let id = self.msgs;
        let wanted = self.told[1].iter().any(|f| ref_matches(&topic, f));
        self.note(|| format!("message {} is published on {} above{}", id, s(&topic), if wanted { "" } else { ", not wanted" }));
        let Some(c) = self.above else { return Ok(()) };
        if wanted {
            self.put(
                c,
                1,
                Pkt::Publish(Publish {
                    dup: false,
                    qos: 0,
                    retain: false,
                    topic,
                    pkid: 0,
                    props: vec![],
                    payload: Bytes::from(id.to_string()),
                }),
            )?;
        }
        Ok(())
    }
    fn cut(&mut self, c: usize) -> Result<(), Viol> {
        if !self.links[c].up {
            return Ok(());
        }
        self.st.inc(St::f_reset);
        if !self.links[c].want[0].is_empty() || !self.links[c].want[1].is_empty() {
            self.st.inc(St::f_reset_undrained);
        }
        self.note(|| format!("connection {} breaks", c));
        self.links[c].up = false;
        let who = self.links[c].local;
        match who {
            None => {
                self.above = None;
                self.told = Default::default();
                for e in [&mut self.lib, &mut self.reference] {
                    e.connected = false;
                    e.up.clear();
                }
            }
            Some(k) => {
                self.local[k].0 = None;
                self.both(&format!("after client {} is lost", k), |e, _| {
                    e.subs.remove(&k);
                    e.settle()
                })?;
            }
        }
        let d = self.pause();
        self.at(d, Ev::Open(who));
        Ok(())
    }
    fn drain(&mut self) -> Result<(), Viol> {
        while let Some(Reverse((t, _, e))) = self.q.pop() {
            self.now = t;
            self.st.inc(St::events);
            match e {
                Ev::Open(w) => self.open(w)?,
                Ev::Op(k) => self.op(k)?,
                Ev::Publish => {
                    let t = self.topics[self.src.n(self.topics.len())].clone();
                    self.publish(t)?;
                    if self.pubs > 0 {
                        self.pubs -= 1;
                        let d = self.pause();
                        self.at(d, Ev::Publish);
                    }
                }
                Ev::Arrive(c, side, seg) => self.arrive(c, side, seg)?,
                Ev::Break(c) => self.cut(c)?,
            }
        }
        Ok(())
    }
    fn run(&mut self) -> Result<(), Viol> {
        self.at(0, Ev::Open(None));
        for k in 0..self.local.len() {
            let d = self.pause();
            self.at(d, Ev::Open(Some(k)));
            let d = self.pause();
            self.at(d, Ev::Op(k));
        }
        self.at(0, Ev::Publish);
        self.drain()?;
        // the faults are over and everything is quiet: what everybody wants is now in force
        let want: BTreeSet<String> = self.mine.iter().flatten().cloned().collect();
        for f in &want {
            if !f.starts_with('$') && !self.told[0].iter().any(|g| g == f || ref_covers(f, g)) {
                return viol("subscription lost", format!("nobody above serves {:?}; served are {:?}", f, self.told[0]));
            }
        }
        self.got.clear();
        let first = self.msgs;
        let mut probes = self.topics.clone();
        probes.truncate(12);
        for t in &probes {
            self.publish(t.clone())?;
        }
        self.drain()?;
        for (i, t) in probes.iter().enumerate() {
            let id = first + 1 + i as u64;
            for k in 0..self.local.len() {
                let should = self.mine[k].iter().any(|f| ref_matches(t, f)) as u32;
                let n = self.got.get(&(k, id)).copied().unwrap_or(0);
                self.st.add(St::delivered, n as u64);
                if n != should {
                    return viol(
                        "message misrouted",
                        format!("a message on {:?} reaches client {}, which wants {:?}, {} times", t, k, self.mine[k], n),
                    );
                }
            }
        }
        self.st.add(St::sim_us, self.now);
        self.st.add(St::routed, self.forwards);
        Ok(())
    }
}

/// one the given filter covers, or that covers it, or nearly so
fn relative(src: &mut Src, f: &str) -> String {
    let mut l = levels(f);
    for _ in 0..src.range(1, 2) {
        let i = src.n(l.len());
        match src.below(7) {
            0 | 1 => l[i] = "+".into(),
            2 => {
                l.truncate(i);
                l.push("#".into());
            }
            3 => {
                l.truncate(i + 1);
                l.push("#".into());
            }
            4 => {
                if l[i] == "+" {
                    l[i] = src.pick(&["a", "b", "", "é"]).to_string();
                } else {
                    l.push(src.pick(&["+", "a", "", "#"]).to_string());
                }
            }
            5 => {
                if l.last().map(|x| x == "#").unwrap_or(false) {
                    l.pop();
                    if src.chance(1, 2) || l.is_empty() {
                        l.push(src.pick(&["+", "a", ""]).to_string());
                    }
                } else {
                    l.push("#".into());
                }
            }
            _ => {
                let t = crate::route::near_level(src, &l[i]);
                l[i] = t.replace(['#', '+'], "p");
            }
        }
    }
    let mut t = l.join("/");
    crate::broker::clip(&mut t, 65535);
    t
}

/// a topic the filter selects
fn instance(src: &mut Src, f: &str) -> String {
    let mut l = levels(f);
    for x in l.iter_mut() {
        if x == "+" {
            *x = src.pick(&["a", "b", "", "zz"]).to_string();
        }
    }
    if l.last().map(|x| x == "#").unwrap_or(false) {
        l.pop();
        for _ in 0..src.below(3) {
            l.push(src.pick(&["a", "", "zz"]).to_string());
        }
    }
    let mut t = l.join("/");
    crate::broker::clip(&mut t, 65535);
    t
}

pub fn run(src: &mut Src, st: &mut Stats, trace: bool) -> RunRes {
    trouble();
    let n = src.range(1, 4) as usize;
    let mut topics: Vec<String> = (0..src.range(1, 3)).map(|_| a_topic(src)).collect();
    let mut filters: Vec<String> = vec![];
    for _ in 0..src.range(2, 10) {
        let f = if !filters.is_empty() && src.chance(2, 3) {
            let f = filters[src.n(filters.len())].clone();
            relative(src, &f)
        } else {
            a_filter(src, &topics)
        };
        filters.push(if ref_valid_filter(&f) { f } else { "a/+".into() });
    }
    for _ in 0..src.range(1, 8) {
        let f = filters[src.n(filters.len())].clone();
        topics.push(instance(src, &f));
    }
    for t in topics.iter_mut() {
        if t.is_empty() || !ref_valid_topic(t) {
            *t = "a".into();
        }
    }
    let sec = 1_000_000;
    let many = if src.chance(1, 6) { 40 } else { 12 };
    let mut w = W {
        trace: if trace { Some(vec![]) } else { None },
        now: 0,
        seq: 0,
        q: BinaryHeap::new(),
        hash: 0,
        links: vec![],
        local: (0..n).map(|_| (None, src.range(1, many) as u32)).collect(),
        mine: vec![BTreeSet::new(); n],
        above: None,
        pubs: src.range(0, 12) as u32,
        lib: Edge::new(
            |t, f| ask("matches", || mqttbytes::matches(t, f)),
            |a, b| ask("matches", || mqttbytes::matches(a, b)),
        ),
        reference: Edge::new(ref_matches, ref_covers),
        told: Default::default(),
        topics,
        filters,
        lat: *src.pick(&[100, 5, 20_000]),
        stall: *src.pick(&[2, 0, 10]),
        reset: *src.pick(&[30, 0, 70]),
        gap: *src.pick(&[10_000, 500, sec, 60 * sec]),
        msgs: 0,
        forwards: 0,
        covered: false,
        got: BTreeMap::new(),
        foreign: src.chance(1, 3),
        src,
        st,
    };
    let res = w.run();
    let sample = format!(
        "{} local clients, {} connections, filters {:?}, {} messages published above, {} copies forwarded, {} us simulated",
        n,
        w.links.len(),
        w.filters.iter().map(|t| s(t)).collect::<Vec<_>>(),
        w.msgs,
        w.forwards,
        w.now
    );
    RunRes { res, hash: w.hash, trace: w.trace.take().unwrap_or_default(), known: vec![], nontrivial: w.covered, sample }
}
