//! The broker used by R01 and R02: a deterministic state machine over the packet
//! model, written from the MQTT standards. A run keeps two of them in step. One
//! is fed what the library decoded and asks the library's topic functions, the
//! other is fed what the clients meant to send and asks the reference below.
use crate::model::*;
use bytes::Bytes;
use std::collections::{BTreeMap, VecDeque};

/// the questions a broker asks about topics and packets
#[derive(Clone, Copy)]
pub struct Rules {
    pub matches: fn(&str, &str) -> bool,
    pub valid_filter: fn(&str) -> bool,
    pub valid_topic: fn(&str) -> bool,
    pub has_wildcards: fn(&str) -> bool,
    pub frame_len: fn(Ver, &Pkt) -> usize,
}

// ---- reference rules, level by level
pub fn levels(s: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    for c in s.chars() {
        if c == '/' {
            v.push(String::new());
        } else {
            v.last_mut().unwrap().push(c);
        }
    }
    v
}
/// no text of MQTT is longer
pub fn clip(t: &mut String, most: usize) {
    let mut n = most;
    if t.len() > most {
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        t.truncate(n);
    }
}

pub fn ref_matches(topic: &str, filter: &str) -> bool {
    if topic.chars().next() == Some('$') {
        return false;
    }
    let (t, f) = (levels(topic), levels(filter));
    for (i, x) in f.iter().enumerate() {
        if x == "#" {
            return true;
        }
        if i >= t.len() || (x != "+" && *x != t[i]) {
            return false;
        }
    }
    t.len() == f.len()
}
pub fn ref_valid_filter(f: &str) -> bool {
    let l = levels(f);
    !f.is_empty()
        && l.iter().enumerate().all(|(i, x)| {
            (!x.contains('#') || (x == "#" && i + 1 == l.len())) && (!x.contains('+') || x == "+")
        })
}
pub fn ref_has_wildcards(s: &str) -> bool {
    s.chars().any(|c| c == '+' || c == '#')
}
pub fn ref_valid_topic(s: &str) -> bool {
    !ref_has_wildcards(s)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Act {
    Send(usize, Pkt),
    Close(usize),
}

/// what the operator configured
#[derive(Clone, Default)]
pub struct Policy {
    pub max_qos: u8,
    pub wildcards: bool,
    pub retain: bool,
    pub server_keep_alive: Option<u16>,
    pub alias_max: u16,
    pub receive_max: u16,
    pub expiry_cap: Option<u32>,
    pub deny: Vec<String>,
    pub login: Option<(String, String)>,
    pub chatty: bool,
    /// assigned identifiers begin with this
    pub prefix: String,
    /// what a chatty broker says: reason, and a user property
    pub reason: String,
    pub note: (String, String),
    /// response information begins with this
    pub info: String,
    /// more about itself, for every CONNACK (it has no effect on the broker)
    pub say: Props,
    /// every fifth client is sent to another server
    pub moved: Option<String>,
}

struct Conn {
    ver: Ver,
    id: String,
    keep: u64,
    last: u64,
    will: Option<Will>,
    aliases: BTreeMap<u16, String>,
    /// how many topic aliases the client accepts, and those it was given
    out_max: u16,
    out: BTreeMap<String, u16>,
    max_packet: u64,
    rx_max: usize,
    problem_info: bool,
    flight: BTreeMap<u16, u8>,
    wait: VecDeque<(Publish, u64)>,
}
struct Sub {
    f: Filter,
    id: Option<u64>,
}
struct Sess {
    subs: Vec<Sub>,
    conn: Option<usize>,
    /// seconds the session outlives its connection
    expiry: u32,
    gone_at: Option<u64>,
    offline: VecDeque<(Publish, u64)>,
    next: u16,
    will_due: Option<(u64, Will, Ver)>,
}

pub struct Broker {
    pub rules: Rules,
    pub policy: Policy,
    conns: BTreeMap<usize, Conn>,
    sess: BTreeMap<String, Sess>,
    retained: BTreeMap<String, (Publish, u64)>,
    acts: Vec<Act>,
    assigned: u32,
    connects: u32,
    pub routed: u64,
    pub wills: u64,
}

const SEC: u64 = 1_000_000;

fn prop(p: &Props, id: u8) -> Option<u64> {
    p.iter().find(|x| x.0 == id).map(|x| match &x.1 {
        PVal::U8(n) => *n as u64,
        PVal::U16(n) => *n as u64,
        PVal::U32(n) => *n as u64,
        PVal::Var(n) => *n,
        _ => 0,
    })
}

impl Broker {
    pub fn new(rules: Rules, policy: Policy) -> Broker {
        Broker {
            rules,
            policy,
            conns: BTreeMap::new(),
            sess: BTreeMap::new(),
            retained: BTreeMap::new(),
            acts: vec![],
            assigned: 0,
            connects: 0,
            routed: 0,
            wills: 0,
        }
    }
    pub fn take(&mut self) -> Vec<Act> {
        std::mem::take(&mut self.acts)
    }
    pub fn ver(&self, c: usize) -> Option<Ver> {
        self.conns.get(&c).map(|x| x.ver)
    }
    fn send(&mut self, c: usize, p: Pkt) {
        self.acts.push(Act::Send(c, p.norm()));
    }
    /// the broker hangs up
    fn hang_up(&mut self, c: usize, now: u64, reason: u8) {
        if let Some(x) = self.conns.get(&c) {
            if x.ver == Ver::V5 && reason != 0 {
                let props = if self.policy.chatty && x.problem_info {
                    vec![(31, PVal::Str(self.policy.reason.clone())), (38, PVal::Pair(self.policy.note.0.clone(), self.policy.note.1.clone()))]
                } else {
                    vec![]
                };
                self.send(c, Pkt::Disconnect { reason, props });
            }
        }
        self.acts.push(Act::Close(c));
        self.end(c, now, false);
    }
    /// the connection is over; a clean end discards the will
    fn end(&mut self, c: usize, now: u64, clean: bool) {
        let Some(x) = self.conns.remove(&c) else { return };
        let will = if clean { None } else { x.will };
        let Some(s) = self.sess.get_mut(&x.id) else { return };
        if s.conn != Some(c) {
            return;
        }
        s.conn = None;
        let delay = will.as_ref().and_then(|w| prop(&w.props, 24)).unwrap_or(0);
        let over = s.expiry == 0;
        s.gone_at = match s.expiry {
            u32::MAX => None,
            n => Some(now + n as u64 * SEC),
        };
        let mut fire = None;
        if let Some(w) = will {
            if delay == 0 || over {
                fire = Some((w, x.ver));
            } else {
                let mut due = now + delay * SEC;
                if let Some(g) = s.gone_at {
                    due = due.min(g);
                }
                s.will_due = Some((due, w, x.ver));
            }
        }
        if over {
            self.sess.remove(&x.id);
        }
        if let Some((w, _)) = fire {
            self.will(w, now);
        }
    }
    fn will(&mut self, w: Will, now: u64) {
        self.wills += 1;
        let props = w.props.into_iter().filter(|p| p.0 != 24).collect();
        let p = Publish { dup: false, qos: w.qos, retain: w.retain, topic: w.topic, pkid: 0, props, payload: w.msg };
        self.publish(None, p, now);
    }
    /// the transport broke
    pub fn lost(&mut self, c: usize, now: u64) {
        self.end(c, now, false);
    }
    /// the broker process died: connections and wills are gone, sessions and retained messages were durable
    pub fn crash(&mut self, now: u64) {
        let cs: Vec<usize> = self.conns.keys().copied().collect();
        for c in cs {
            if let Some(x) = self.conns.get_mut(&c) {
                x.will = None;
            }
            self.end(c, now, true);
        }
    }
    /// next instant at which something happens by itself
    pub fn due(&self) -> Option<u64> {
        let k = self.conns.values().filter(|c| c.keep > 0).map(|c| c.last + c.keep * SEC * 3 / 2);
        let s = self.sess.values().filter(|s| s.conn.is_none()).filter_map(|s| s.gone_at);
        let w = self.sess.values().filter_map(|s| s.will_due.as_ref().map(|x| x.0));
        k.chain(s).chain(w).min()
    }
    pub fn tick(&mut self, now: u64) {
        let late: Vec<usize> = self
            .conns
            .iter()
            .filter(|(_, c)| c.keep > 0 && c.last + c.keep * SEC * 3 / 2 <= now)
            .map(|x| *x.0)
            .collect();
        for c in late {
            self.hang_up(c, now, 141);
        }
        let ids: Vec<String> = self.sess.keys().cloned().collect();
        for id in ids {
            let Some(s) = self.sess.get_mut(&id) else { continue };
            if s.conn.is_some() {
                continue;
            }
            let due = matches!(&s.will_due, Some(w) if w.0 <= now);
            let w = if due { s.will_due.take() } else { None };
            if matches!(s.gone_at, Some(g) if g <= now) {
                self.sess.remove(&id);
            }
            if let Some((_, w, _)) = w {
                self.will(w, now);
            }
        }
    }

    fn connect(&mut self, c: usize, k: Connect, auth: bool, now: u64) {
        let v5 = k.level == 5;
        let ver = if v5 { Ver::V5 } else { Ver::V4 };
        let refuse = |b: &mut Broker, code4: u8, code5: u8| {
            b.send(c, Pkt::ConnAck { session: false, code: if v5 { code5 } else { code4 }, props: vec![] });
            b.acts.push(Act::Close(c));
        };
        if !auth {
            return refuse(self, 4, 134);
        }
        self.connects += 1;
        if let (Some(to), 0) = (&self.policy.moved, self.connects % 5) {
            let props = if v5 { vec![(28, PVal::Str(to.clone()))] } else { vec![] };
            self.send(c, Pkt::ConnAck { session: false, code: if v5 { 156 } else { 3 }, props });
            self.acts.push(Act::Close(c));
            return;
        }
        if let Some(w) = &k.will {
            if !(self.rules.valid_topic)(&w.topic) {
                return refuse(self, 5, 144);
            }
            if v5 && w.qos > self.policy.max_qos {
                return refuse(self, 5, 155);
            }
            if v5 && w.retain && !self.policy.retain {
                return refuse(self, 5, 154);
            }
        }
        if k.client_id.is_empty() && !k.clean && !v5 {
            return refuse(self, 2, 133);
        }
        let mut props: Props = vec![];
        let mut id = k.client_id.clone();
        if id.is_empty() {
            self.assigned += 1;
            id = if self.policy.chatty {
                format!("{}{}", self.policy.prefix, self.assigned)
            } else {
                format!("{}{}", self.assigned, self.policy.prefix)
            };
            clip(&mut id, 65535);
            props.push((18, PVal::Str(id.clone())));
        }
        // the same client again: the older connection goes
        if let Some(old) = self.sess.get(&id).and_then(|s| s.conn) {
            self.hang_up(old, now, 142);
        }
        let mut expiry = if v5 {
            prop(&k.props, 17).unwrap_or(0) as u32
        } else if k.clean {
            0
        } else {
            u32::MAX
        };
        if v5 {
            if let Some(cap) = self.policy.expiry_cap {
                if expiry > cap {
                    expiry = cap;
                    props.push((17, PVal::U32(cap)));
                }
            }
        }
        let mut keep = k.keep_alive as u64;
        if let (true, Some(s)) = (v5, self.policy.server_keep_alive) {
            keep = s as u64;
            props.push((19, PVal::U16(s)));
        }
        let mut pending_will = None;
        if k.clean {
            if let Some(s) = self.sess.remove(&id) {
                pending_will = s.will_due;
            }
        }
        let session = self.sess.contains_key(&id);
        let s = self.sess.entry(id.clone()).or_insert(Sess {
            subs: vec![],
            conn: None,
            expiry,
            gone_at: None,
            offline: VecDeque::new(),
            next: 1,
            will_due: None,
        });
        s.conn = Some(c);
        s.expiry = expiry;
        s.gone_at = None;
        s.will_due = None;
        let problem_info = prop(&k.props, 23) != Some(0);
        if v5 {
            if self.policy.max_qos < 2 {
                props.push((36, PVal::U8(self.policy.max_qos)));
            }
            if !self.policy.retain {
                props.push((37, PVal::U8(0)));
            }
            if !self.policy.wildcards {
                props.push((40, PVal::U8(0)));
            }
            props.push((42, PVal::U8(0)));
            if self.policy.alias_max > 0 || self.policy.chatty {
                props.push((34, PVal::U16(self.policy.alias_max)));
            }
            props.push((33, PVal::U16(self.policy.receive_max)));
            if prop(&k.props, 25) == Some(1) {
                props.push((26, PVal::Str(if self.policy.chatty { format!("{}{}", self.policy.info, id.len() % 10) } else { self.policy.info.clone() })));
            }
            if self.policy.chatty && problem_info {
                props.push((31, PVal::Str(self.policy.reason.clone())));
                props.push((38, PVal::Pair("clients".into(), self.conns.len().to_string())));
                props.push((38, PVal::Pair(self.policy.note.0.clone(), self.policy.note.1.clone())));
            }
            // the client's own method, as a broker without a challenge would confirm it
            props.extend(k.props.iter().filter(|p| p.0 == 21 || p.0 == 22).cloned());
            props.extend(self.policy.say.iter().cloned());
        }
        self.conns.insert(
            c,
            Conn {
                ver,
                id: id.clone(),
                keep,
                last: now,
                will: k.will,
                aliases: BTreeMap::new(),
                out_max: if v5 { prop(&k.props, 34).unwrap_or(0) as u16 } else { 0 },
                out: BTreeMap::new(),
                max_packet: if v5 { prop(&k.props, 39).unwrap_or(u64::MAX) } else { u64::MAX },
                rx_max: if v5 { prop(&k.props, 33).unwrap_or(65535) as usize } else { 65535 },
                problem_info,
                flight: BTreeMap::new(),
                wait: VecDeque::new(),
            },
        );
        self.send(c, Pkt::ConnAck { session, code: 0, props: if v5 { props } else { vec![] } });
        if let Some((_, w, _)) = pending_will {
            self.will(w, now);
        }
        if let Some(s) = self.sess.get_mut(&id) {
            let q = std::mem::take(&mut s.offline);
            for (p, at) in q {
                self.forward(c, p, at, now);
            }
        }
    }

    /// hand a message to a connected client, within its limits
    fn forward(&mut self, c: usize, mut p: Publish, at: u64, now: u64) {
        let Some(x) = self.conns.get_mut(&c) else { return };
        if p.qos > 0 && x.flight.len() >= x.rx_max {
            x.wait.push_back((p, at));
            return;
        }
        let waited = (now - at) / SEC;
        for q in p.props.iter_mut() {
            if let (2, PVal::U32(n)) = (q.0, &mut q.1) {
                if (*n as u64) <= waited {
                    return;
                }
                *n -= waited as u32;
            }
        }
        p.pkid = 0;
        if x.ver == Ver::V4 {
            p.props.clear();
        }
        if p.qos > 0 {
            let id = x.id.clone();
            let Some(s) = self.sess.get_mut(&id) else { return };
            loop {
                p.pkid = s.next;
                s.next = if s.next == u16::MAX { 1 } else { s.next + 1 };
                if !x.flight.contains_key(&p.pkid) {
                    break;
                }
            }
        }
        let (ver, max) = (x.ver, x.max_packet);
        let (qos, pkid) = (p.qos, p.pkid);
        let mut fresh = None;
        if x.out_max > 0 {
            if let Some(a) = x.out.get(&p.topic) {
                p.props.push((35, PVal::U16(*a)));
                p.topic = String::new();
            } else if x.out.len() < x.out_max as usize {
                // downwards from the client's maximum
                let a = x.out_max - x.out.len() as u16;
                p.props.push((35, PVal::U16(a)));
                fresh = Some((p.topic.clone(), a));
            }
        }
        let p = Pkt::Publish(p);
        if max != u64::MAX && (self.rules.frame_len)(ver, &p) as u64 > max {
            return;
        }
        if let Some((t, a)) = fresh {
            x.out.insert(t, a);
        }
        if qos > 0 {
            x.flight.insert(pkid, qos);
        }
        self.routed += 1;
        self.send(c, p);
    }

    fn publish(&mut self, from: Option<&str>, p: Publish, now: u64) -> bool {
        if p.retain {
            if p.payload.is_empty() {
                self.retained.remove(&p.topic);
            } else {
                self.retained.insert(p.topic.clone(), (p.clone(), now));
            }
        }
        let mut any = false;
        let ids: Vec<String> = self.sess.keys().cloned().collect();
        for id in ids {
            let r = self.rules;
            let Some(s) = self.sess.get_mut(&id) else { continue };
            let mut qos = None;
            let mut rap = false;
            let mut subids = vec![];
            for sub in &s.subs {
                if sub.f.nolocal && from == Some(id.as_str()) {
                    continue;
                }
                // plain filters are looked up, only wildcard filters are tried one by one
                let hit = if (r.has_wildcards)(&sub.f.path) {
                    (r.matches)(&p.topic, &sub.f.path)
                } else {
                    p.topic == sub.f.path && (r.matches)(&p.topic, &sub.f.path)
                };
                if hit {
                    qos = Some(qos.unwrap_or(0).max(sub.f.qos));
                    rap |= sub.f.rap;
                    if let Some(n) = sub.id {
                        subids.push(n);
                    }
                }
            }
            let Some(q) = qos else { continue };
            any = true;
            let mut m = p.clone();
            m.dup = false;
            m.qos = p.qos.min(q);
            m.retain = p.retain && rap;
            m.props.retain(|x| x.0 != 35 && x.0 != 11);
            for n in subids {
                m.props.push((11, PVal::Var(n)));
            }
            match s.conn {
                Some(c) => self.forward(c, m, now, now),
                None if m.qos > 0 => s.offline.push_back((m, now)),
                None => {}
            }
        }
        any
    }

    pub fn packet(&mut self, c: usize, p: Pkt, auth: bool, now: u64) {
        if let Pkt::Connect(k) = p {
            if self.conns.contains_key(&c) {
                return self.hang_up(c, now, 130);
            }
            return self.connect(c, *k, auth, now);
        }
        let Some(x) = self.conns.get_mut(&c) else {
            self.acts.push(Act::Close(c));
            return;
        };
        x.last = now;
        let v5 = x.ver == Ver::V5;
        let id = x.id.clone();
        match p {
            Pkt::Publish(mut p) => {
                if v5 {
                    if let Some(a) = prop(&p.props, 35) {
                        let a = a as u16;
                        if a == 0 || a > self.policy.alias_max {
                            return self.hang_up(c, now, 148);
                        }
                        if p.topic.is_empty() {
                            match x.aliases.get(&a) {
                                Some(t) => p.topic = t.clone(),
                                None => return self.hang_up(c, now, 130),
                            }
                        } else {
                            x.aliases.insert(a, p.topic.clone());
                        }
                    } else if p.topic.is_empty() {
                        return self.hang_up(c, now, 130);
                    }
                    if p.qos > self.policy.max_qos {
                        return self.hang_up(c, now, 155);
                    }
                    if p.retain && !self.policy.retain {
                        return self.hang_up(c, now, 154);
                    }
                }
                let (qos, pkid) = (p.qos, p.pkid);
                let code;
                let r = self.rules;
                let bad = if self.policy.chatty { (r.has_wildcards)(&p.topic) } else { !(r.valid_topic)(&p.topic) };
                if bad {
                    if !v5 || qos == 0 {
                        return self.hang_up(c, now, 144);
                    }
                    code = 144;
                } else if self.policy.deny.iter().any(|f| (self.rules.matches)(&p.topic, f)) {
                    code = 135;
                } else {
                    if p.retain && !self.policy.retain {
                        p.retain = false;
                    }
                    code = if self.publish(Some(&id), p, now) { 0 } else { 16 };
                }
                let code = if v5 { code } else { 0 };
                let props = if code >= 128 && self.policy.chatty { vec![(31, PVal::Str(self.policy.reason.clone()))] } else { vec![] };
                match qos {
                    1 => self.send(c, Pkt::Ack { kind: AckKind::PubAck, pkid, reason: code, props }),
                    2 => self.send(c, Pkt::Ack { kind: AckKind::PubRec, pkid, reason: code, props }),
                    _ => {}
                }
            }
            Pkt::Ack { kind, pkid, reason, .. } => {
                let known = x.flight.get(&pkid).copied();
                let code = |ok: bool| if ok || !v5 { 0 } else { 146 };
                let done = match kind {
                    AckKind::PubAck => known == Some(1),
                    AckKind::PubRec if v5 && reason >= 128 => known == Some(2),
                    AckKind::PubRec => {
                        let r = code(known == Some(2));
                        self.send(c, Pkt::Ack { kind: AckKind::PubRel, pkid, reason: r, props: vec![] });
                        false
                    }
                    AckKind::PubRel => {
                        self.send(c, Pkt::Ack { kind: AckKind::PubComp, pkid, reason: code(reason == 0), props: vec![] });
                        false
                    }
                    AckKind::PubComp => known == Some(2),
                };
                if done {
                    let Some(x) = self.conns.get_mut(&c) else { return };
                    x.flight.remove(&pkid);
                    if let Some((p, at)) = x.wait.pop_front() {
                        self.forward(c, p, at, now);
                    }
                }
            }
            Pkt::Subscribe { pkid, filters, props } => {
                let subid = prop(&props, 11);
                let mut codes = vec![];
                let mut give: Vec<Filter> = vec![];
                for mut f in filters {
                    let r = self.rules;
                    let bad = if !(r.valid_filter)(&f.path) {
                        143
                    } else if f.path.starts_with("$share/") {
                        158
                    } else if !self.policy.wildcards && (r.has_wildcards)(&f.path) {
                        162
                    } else {
                        0
                    };
                    if bad != 0 {
                        codes.push(if v5 { bad } else { 128 });
                        continue;
                    }
                    f.qos = f.qos.min(self.policy.max_qos);
                    codes.push(f.qos);
                    let Some(s) = self.sess.get_mut(&id) else { return };
                    let fresh = match s.subs.iter().position(|o| o.f.path == f.path) {
                        Some(i) => {
                            s.subs[i] = Sub { f: f.clone(), id: subid };
                            false
                        }
                        None => {
                            s.subs.push(Sub { f: f.clone(), id: subid });
                            true
                        }
                    };
                    if f.rh == 0 || (f.rh == 1 && fresh) {
                        give.push(f);
                    }
                }
                self.send(c, Pkt::SubAck { pkid, codes, props: vec![] });
                for f in give {
                    let r = self.rules;
                    let hits: Vec<(Publish, u64)> = self
                        .retained
                        .iter()
                        .filter(|(t, _)| {
                            if (r.has_wildcards)(&f.path) {
                                (r.matches)(t, &f.path)
                            } else {
                                **t == f.path && (r.matches)(t, &f.path)
                            }
                        })
                        .map(|x| x.1.clone())
                        .collect();
                    for (mut m, at) in hits {
                        m.dup = false;
                        m.qos = m.qos.min(f.qos);
                        m.props.retain(|x| x.0 != 35 && x.0 != 11);
                        if let Some(n) = subid {
                            m.props.push((11, PVal::Var(n)));
                        }
                        self.forward(c, m, at, now);
                    }
                }
            }
            Pkt::Unsubscribe { pkid, filters, .. } => {
                let mut codes = vec![];
                for f in filters {
                    let Some(s) = self.sess.get_mut(&id) else { return };
                    let n = s.subs.len();
                    s.subs.retain(|o| o.f.path != f);
                    codes.push(if !(self.rules.valid_filter)(&f) {
                        143
                    } else if s.subs.len() == n {
                        17
                    } else {
                        0
                    });
                }
                let codes = if v5 { codes } else { vec![] };
                self.send(c, Pkt::UnsubAck { pkid, codes, props: vec![] });
            }
            Pkt::PingReq => self.send(c, Pkt::PingResp),
            Pkt::Disconnect { reason, props } => {
                if v5 {
                    if let Some(n) = prop(&props, 17) {
                        if let Some(s) = self.sess.get_mut(&id) {
                            if s.expiry == 0 && n != 0 {
                                return self.hang_up(c, now, 130);
                            }
                            s.expiry = n as u32;
                        }
                    }
                }
                self.acts.push(Act::Close(c));
                self.end(c, now, reason != 4);
            }
            _ => self.hang_up(c, now, 130),
        }
    }

    /// everything the broker believes, for comparing two of them
    /// do two brokers hold the same sessions, connections and retained messages?
    pub fn same(&self, o: &Broker) -> bool {
        self.sess.len() == o.sess.len()
            && self.conns.len() == o.conns.len()
            && self.sess.iter().zip(&o.sess).all(|((i, a), (j, b))| {
                i == j
                    && a.conn == b.conn
                    && a.expiry == b.expiry
                    && a.offline == b.offline
                    && a.will_due == b.will_due
                    && a.subs.len() == b.subs.len()
                    && a.subs.iter().zip(&b.subs).all(|(x, y)| x.id == y.id && x.f == y.f)
            })
            && self.conns.iter().zip(&o.conns).all(|((i, a), (j, b))| {
                i == j
                    && a.ver == b.ver
                    && a.id == b.id
                    && a.keep == b.keep
                    && a.will == b.will
                    && a.max_packet == b.max_packet
                    && a.rx_max == b.rx_max
                    && a.out_max == b.out_max
                    && a.flight.keys().eq(b.flight.keys())
            })
            && self.retained.len() == o.retained.len()
            && self.retained.iter().zip(&o.retained).all(|((s, (p, _)), (t, (q, _)))| s == t && p == q)
    }
    pub fn state(&self) -> String {
        let mut o = String::new();
        for (id, s) in &self.sess {
            o += &format!("session {:?} conn {:?} expiry {} filters [", id, s.conn, s.expiry);
            for x in &s.subs {
                o += &format!("{:?} q{} nl={} rap={} rh={} id={:?}, ", x.f.path, x.f.qos, x.f.nolocal, x.f.rap, x.f.rh, x.id);
            }
            o += &format!("] waiting {:?}, will due {:?}\n", s.offline, s.will_due);
        }
        for (c, x) in &self.conns {
            o += &format!(
                "connection {} {:?} of {:?} keep-alive {} will {:?} limits {} {} {} in flight {:?}\n",
                c,
                x.ver,
                x.id,
                x.keep,
                x.will,
                x.max_packet,
                x.rx_max,
                x.out_max,
                x.flight.keys().collect::<Vec<_>>()
            );
        }
        for (t, (p, _)) in &self.retained {
            o += &format!("retained {:?} {:?}\n", t, p);
        }
        o
    }
}

/// a short payload that names its message
pub fn payload(n: u64) -> Bytes {
    Bytes::from(format!("m{}", n).into_bytes())
}
