//! Independent MQTT 3.1.1 / 5 codec written from the standards: the "foreign
//! implementation" of the simulated network, and the grammar oracle.
use crate::model::*;
use crate::rng::Rng;
use bytes::Bytes;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FK {
    StrLen,
    Str,
    Bin,
    PropLen,
    PropId,
    Code,
    Options,
    Level,
    Flags,
    Pkid,
    VarInt,
    Num,
}

/// a field of an encoded body: offset, length, kind
#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub at: usize,
    pub len: usize,
    pub kind: FK,
}

pub struct Enc {
    pub b: Vec<u8>,
    pub f: Vec<Field>,
}

pub fn vbi(out: &mut Vec<u8>, mut n: u64) {
    loop {
        let mut x = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            x |= 0x80;
        }
        out.push(x);
        if n == 0 {
            break;
        }
    }
}
pub fn vbi_len(n: usize) -> usize {
    if n < 128 {
        1
    } else if n < 16384 {
        2
    } else if n < 2097152 {
        3
    } else {
        4
    }
}

impl Enc {
    fn mark(&mut self, at: usize, kind: FK) {
        let len = self.b.len() - at;
        self.f.push(Field { at, len, kind });
    }
    fn u8(&mut self, x: u8, k: FK) {
        self.b.push(x);
        let at = self.b.len() - 1;
        self.mark(at, k);
    }
    fn u16(&mut self, x: u16, k: FK) {
        let at = self.b.len();
        self.b.extend_from_slice(&x.to_be_bytes());
        self.mark(at, k);
    }
    fn u32(&mut self, x: u32, k: FK) {
        let at = self.b.len();
        self.b.extend_from_slice(&x.to_be_bytes());
        self.mark(at, k);
    }
    fn var(&mut self, x: u64, k: FK) {
        let at = self.b.len();
        vbi(&mut self.b, x);
        self.mark(at, k);
    }
    fn bin(&mut self, x: &[u8], k: FK) {
        self.u16(x.len() as u16, FK::StrLen);
        let at = self.b.len();
        self.b.extend_from_slice(x);
        self.mark(at, k);
    }
    fn str(&mut self, x: &str) {
        self.bin(x.as_bytes(), FK::Str);
    }
    fn props(&mut self, props: &Props, order: Option<u64>) {
        let mut e = Enc { b: Vec::new(), f: Vec::new() };
        let mut ps: Vec<&(u8, PVal)> = props.iter().collect();
        if let Some(seed) = order {
            // any order, except that entries of the same id keep theirs
            let mut r = Rng::new(seed);
            let mut slots: Vec<usize> = (0..ps.len()).collect();
            for i in (1..slots.len()).rev() {
                slots.swap(i, r.below(i as u64 + 1) as usize);
            }
            let mut shuffled: Vec<&(u8, PVal)> = slots.iter().map(|i| ps[*i]).collect();
            for id in ps.iter().map(|p| p.0).collect::<std::collections::BTreeSet<_>>() {
                let mut orig = ps.iter().filter(|p| p.0 == id);
                for x in shuffled.iter_mut() {
                    if x.0 == id {
                        *x = *orig.next().unwrap();
                    }
                }
            }
            ps = shuffled;
        }
        for (id, v) in ps {
            e.u8(*id, FK::PropId);
            match v {
                PVal::U8(x) => e.u8(*x, FK::Num),
                PVal::U16(x) => e.u16(*x, FK::Num),
                PVal::U32(x) => e.u32(*x, FK::Num),
                PVal::Var(x) => e.var(*x, FK::VarInt),
                PVal::Str(x) => e.str(x),
                PVal::Bin(x) => e.bin(x, FK::Bin),
                PVal::Pair(a, b) => {
                    e.str(a);
                    e.str(b)
                }
            }
        }
        self.var(e.b.len() as u64, FK::PropLen);
        let off = self.b.len();
        self.b.extend_from_slice(&e.b);
        self.f.extend(e.f.iter().map(|f| Field { at: f.at + off, ..*f }));
    }
}

/// Encoding freedoms the standard leaves to a sender.
#[derive(Clone, Copy, Default)]
pub struct EncOpts {
    pub order: Option<u64>,
    /// 0 = shortest form of acks/disconnect, 1 = explicit reason, 2 = explicit reason and empty properties
    pub form: u8,
}

/// first byte, body and its fields
pub fn encode_body(ver: Ver, p: &Pkt, o: EncOpts) -> (u8, Enc) {
    let mut e = Enc { b: Vec::new(), f: Vec::new() };
    let v5 = ver == Ver::V5;
    let first = match p {
        Pkt::Connect(c) => {
            e.str("MQTT");
            e.u8(c.level, FK::Level);
            let mut fl = 0;
            if c.clean {
                fl |= 2;
            }
            if let Some(w) = &c.will {
                fl |= 4 | (w.qos << 3) | ((w.retain as u8) << 5);
            }
            if !c.user.is_empty() {
                fl |= 0x80;
            }
            if !c.pass.is_empty() {
                fl |= 0x40;
            }
            e.u8(fl, FK::Flags);
            e.u16(c.keep_alive, FK::Num);
            let lay5 = c.level == 5 && v5;
            if lay5 {
                e.props(&c.props, o.order);
            }
            e.str(&c.client_id);
            if let Some(w) = &c.will {
                if lay5 {
                    e.props(&w.props, o.order.map(|x| x ^ 77));
                }
                e.str(&w.topic);
                e.bin(&w.msg, FK::Bin);
            }
            if !c.user.is_empty() {
                e.str(&c.user);
            }
            if !c.pass.is_empty() {
                e.str(&c.pass);
            }
            0x10
        }
        Pkt::ConnAck { session, code, props } => {
            e.u8(*session as u8, FK::Flags);
            e.u8(*code, FK::Code);
            if v5 {
                e.props(props, o.order);
            }
            0x20
        }
        Pkt::Publish(p) => {
            e.str(&p.topic);
            if p.qos > 0 {
                e.u16(p.pkid, FK::Pkid);
            }
            if v5 {
                e.props(&p.props, o.order);
            }
            e.b.extend_from_slice(&p.payload);
            0x30 | (p.retain as u8) | (p.qos << 1) | ((p.dup as u8) << 3)
        }
        Pkt::Ack { kind, pkid, reason, props } => {
            e.u16(*pkid, FK::Num);
            if v5 {
                if !props.is_empty() || o.form >= 2 {
                    e.u8(*reason, FK::Code);
                    e.props(props, o.order);
                } else if *reason != 0 || o.form == 1 {
                    e.u8(*reason, FK::Code);
                }
            }
            match kind {
                AckKind::PubAck => 0x40,
                AckKind::PubRec => 0x50,
                AckKind::PubRel => 0x62,
                AckKind::PubComp => 0x70,
            }
        }
        Pkt::Subscribe { pkid, filters, props } => {
            e.u16(*pkid, FK::Num);
            if v5 {
                e.props(props, o.order);
            }
            for f in filters {
                e.str(&f.path);
                let mut x = f.qos;
                if v5 {
                    x |= ((f.nolocal as u8) << 2) | ((f.rap as u8) << 3) | (f.rh << 4);
                }
                e.u8(x, FK::Options);
            }
            0x82
        }
        Pkt::SubAck { pkid, codes, props } | Pkt::UnsubAck { pkid, codes, props } => {
            e.u16(*pkid, FK::Num);
            if v5 {
                e.props(props, o.order);
            }
            for c in codes {
                e.u8(*c, FK::Code);
            }
            if p.kind() == 9 {
                0x90
            } else {
                0xB0
            }
        }
        Pkt::Unsubscribe { pkid, filters, props } => {
            e.u16(*pkid, FK::Num);
            if v5 {
                e.props(props, o.order);
            }
            for f in filters {
                e.str(f);
            }
            0xA2
        }
        Pkt::PingReq => 0xC0,
        Pkt::PingResp => 0xD0,
        Pkt::Disconnect { reason, props } => {
            if v5 {
                if !props.is_empty() || o.form >= 2 {
                    e.u8(*reason, FK::Code);
                    e.props(props, o.order);
                } else if *reason != 0 || o.form == 1 {
                    e.u8(*reason, FK::Code);
                }
            }
            0xE0
        }
    };
    (first, e)
}

pub fn wrap(first: u8, body: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(body.len() + 5);
    o.push(first);
    vbi(&mut o, body.len() as u64);
    o.extend_from_slice(body);
    o
}

pub fn encode(ver: Ver, p: &Pkt, o: EncOpts) -> Vec<u8> {
    let (first, e) = encode_body(ver, p, o);
    wrap(first, &e.b)
}

// ---------------------------------------------------------------- framing

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Framing {
    /// length field incomplete; the frame is at least this many bytes longer than what is here
    NeedHeader(usize),
    /// length known, body incomplete by this much
    NeedBody(usize),
    BadLen,
    TooBig(usize),
    /// header length, total length
    Frame(usize, usize),
}

pub fn framing(b: &[u8], limit: usize) -> Framing {
    if b.len() < 2 {
        return Framing::NeedHeader(2 - b.len());
    }
    let mut n = 0usize;
    let mut i = 1;
    loop {
        if i == 5 {
            return Framing::BadLen;
        }
        if i >= b.len() {
            return Framing::NeedHeader(1);
        }
        n |= ((b[i] & 0x7f) as usize) << (7 * (i - 1));
        i += 1;
        if b[i - 1] & 0x80 == 0 {
            break;
        }
    }
    if n > limit {
        return Framing::TooBig(n);
    }
    let total = i + n;
    if b.len() < total {
        Framing::NeedBody(total - b.len())
    } else {
        Framing::Frame(i, total)
    }
}

// ---------------------------------------------------------------- decoding

pub struct Dec {
    pub pkt: Result<Pkt, &'static str>,
    /// deviations from the standard that still leave the fields readable
    pub issues: Vec<&'static str>,
    /// the standard gives these bytes no single meaning
    pub unspec: bool,
}

struct R<'a> {
    b: &'a [u8],
    issues: Vec<&'static str>,
    unspec: bool,
}
type Res<T> = Result<T, &'static str>;

impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        if n > self.b.len() {
            return Err("field crosses its boundary");
        }
        let (a, b) = self.b.split_at(n);
        self.b = b;
        Ok(a)
    }
    fn u8(&mut self) -> Res<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Res<u16> {
        let x = self.take(2)?;
        Ok(u16::from_be_bytes([x[0], x[1]]))
    }
    fn u32(&mut self) -> Res<u32> {
        let x = self.take(4)?;
        Ok(u32::from_be_bytes([x[0], x[1], x[2], x[3]]))
    }
    fn var(&mut self) -> Res<u64> {
        let mut n = 0u64;
        for i in 0..4 {
            let x = self.u8()?;
            n |= ((x & 0x7f) as u64) << (7 * i);
            if x & 0x80 == 0 {
                if i + 1 != vbi_len(n as usize) {
                    self.issues.push("overlong variable byte integer");
                }
                return Ok(n);
            }
        }
        Err("malformed variable byte integer")
    }
    fn bin(&mut self) -> Res<&'a [u8]> {
        let n = self.u16()? as usize;
        self.take(n)
    }
    fn str(&mut self) -> Res<String> {
        let b = self.bin()?;
        let x = std::str::from_utf8(b).map_err(|_| "text is not UTF-8")?;
        if x.contains('\0') {
            self.issues.push("U+0000 in text");
        }
        Ok(x.to_string())
    }
    fn props(&mut self, place: Place) -> Res<Props> {
        let n = self.var()? as usize;
        let sec = self.take(n)?;
        let mut r = R { b: sec, issues: Vec::new(), unspec: false };
        let mut out: Props = Vec::new();
        while !r.b.is_empty() {
            let id = r.u8()?;
            let ty = prop_ty(id).ok_or("unknown property")?;
            if !allowed(place).contains(&id) {
                return Err("misplaced property");
            }
            if out.iter().any(|p| p.0 == id) && !multi(place, id) {
                r.unspec = true;
            }
            let v = match ty {
                PTy::U8 => {
                    let x = r.u8()?;
                    if x > 1 {
                        r.issues.push("byte property out of range");
                    }
                    PVal::U8(x)
                }
                PTy::U16 => {
                    let x = r.u16()?;
                    if x == 0 && (id == 33 || id == 35) {
                        r.issues.push("zero property");
                    }
                    PVal::U16(x)
                }
                PTy::U32 => {
                    let x = r.u32()?;
                    if x == 0 && id == 39 {
                        r.issues.push("zero property");
                    }
                    PVal::U32(x)
                }
                PTy::Var => {
                    let x = r.var()?;
                    if x == 0 {
                        r.issues.push("zero subscription identifier");
                    }
                    PVal::Var(x)
                }
                PTy::Str => PVal::Str(r.str()?),
                PTy::Bin => PVal::Bin(Bytes::copy_from_slice(r.bin()?)),
                PTy::Pair => PVal::Pair(r.str()?, r.str()?),
            };
            out.push((id, v));
        }
        self.issues.extend(r.issues);
        self.unspec |= r.unspec;
        Ok(out)
    }
    fn end(&mut self) {
        if !self.b.is_empty() {
            self.issues.push("trailing bytes");
            self.b = &[];
        }
    }
    fn code(&mut self, table: &[u8]) -> Res<u8> {
        let c = self.u8()?;
        if table.contains(&c) {
            Ok(c)
        } else {
            Err("invalid code")
        }
    }
}

fn decode_inner(ver: Ver, first: u8, r: &mut R) -> Res<Pkt> {
    let v5 = ver == Ver::V5;
    let flags = first & 15;
    let want = match first >> 4 {
        6 | 8 | 10 => 2,
        3 => flags,
        _ => 0,
    };
    if flags != want {
        r.issues.push("reserved fixed header flags");
    }
    let p = match first >> 4 {
        1 => {
            let name = r.str()?;
            let level = r.u8()?;
            if name != "MQTT" {
                return Err("wrong protocol name");
            }
            if level != 4 && level != 5 {
                return Err("unknown protocol level");
            }
            if !v5 && level == 5 {
                // a different grammar: outside what a 3.1.1 decoder is held to
                r.unspec = true;
            }
            if v5 && level == 4 {
                r.issues.push("level 4 at an MQTT 5 decoder");
            }
            let fl = r.u8()?;
            if fl & 1 != 0 {
                r.issues.push("reserved connect flag");
            }
            let keep_alive = r.u16()?;
            let lay5 = v5 && level == 5;
            let props = if lay5 { r.props(Place::Connect)? } else { vec![] };
            let client_id = r.str()?;
            let will = if fl & 4 != 0 {
                let props = if lay5 { r.props(Place::Will)? } else { vec![] };
                let topic = r.str()?;
                let msg = Bytes::copy_from_slice(r.bin()?);
                let qos = (fl >> 3) & 3;
                if qos == 3 {
                    return Err("invalid QoS");
                }
                Some(Will { topic, msg, qos, retain: fl & 0x20 != 0, props })
            } else {
                if fl & 0x38 != 0 {
                    return Err("will flags without a will");
                }
                None
            };
            let user = if fl & 0x80 != 0 { r.str()? } else { String::new() };
            let pass = if fl & 0x40 != 0 { r.str()? } else { String::new() };
            if fl & 0xC0 == 0x40 && !v5 {
                r.issues.push("password without user name");
            }
            r.end();
            Pkt::Connect(Box::new(Connect { level, keep_alive, client_id, clean: fl & 2 != 0, will, user, pass, props }))
        }
        2 => {
            let fl = r.u8()?;
            if fl > 1 {
                r.issues.push("reserved connack flags");
            }
            let code = r.code(if v5 { CONNACK5 } else { CONNACK4 })?;
            let props = if v5 {
                if r.b.is_empty() {
                    r.issues.push("property length missing");
                    vec![]
                } else {
                    r.props(Place::ConnAck)?
                }
            } else {
                vec![]
            };
            r.end();
            Pkt::ConnAck { session: fl & 1 != 0, code, props }
        }
        3 => {
            let qos = (flags >> 1) & 3;
            if qos == 3 {
                return Err("invalid QoS");
            }
            let topic = r.str()?;
            if topic.contains(&['#', '+'][..]) {
                r.issues.push("wildcard in topic name");
            }
            let pkid = if qos > 0 { r.u16()? } else { 0 };
            if qos > 0 && pkid == 0 {
                return Err("packet id zero");
            }
            if qos == 0 && flags & 8 != 0 {
                r.issues.push("dup on QoS 0");
            }
            let props = if v5 { r.props(Place::Publish)? } else { vec![] };
            let payload = Bytes::copy_from_slice(r.b);
            r.b = &[];
            Pkt::Publish(Publish { dup: flags & 8 != 0, qos, retain: flags & 1 != 0, topic, pkid, props, payload })
        }
        t @ 4..=7 => {
            let kind = [AckKind::PubAck, AckKind::PubRec, AckKind::PubRel, AckKind::PubComp][t as usize - 4];
            let pkid = r.u16()?;
            if pkid == 0 {
                r.issues.push("packet id zero");
            }
            let (mut reason, mut props) = (0, vec![]);
            if v5 && !r.b.is_empty() {
                reason = r.code(ack_codes(kind))?;
                if !r.b.is_empty() {
                    props = r.props(Place::Ack)?;
                }
            }
            r.end();
            Pkt::Ack { kind, pkid, reason, props }
        }
        8 => {
            let pkid = r.u16()?;
            if pkid == 0 {
                r.issues.push("packet id zero");
            }
            let props = if v5 { r.props(Place::Subscribe)? } else { vec![] };
            let mut filters = vec![];
            while !r.b.is_empty() {
                let path = r.str()?;
                let o = r.u8()?;
                let qos = o & 3;
                if qos == 3 {
                    return Err("invalid QoS");
                }
                let mut f = Filter { path, qos, nolocal: false, rap: false, rh: 0 };
                if v5 {
                    f.nolocal = o & 4 != 0;
                    f.rap = o & 8 != 0;
                    f.rh = (o >> 4) & 3;
                    if f.rh == 3 {
                        return Err("invalid retain handling");
                    }
                    if o & 0xC0 != 0 {
                        r.issues.push("reserved subscription options");
                    }
                } else if o & 0xFC != 0 {
                    r.issues.push("reserved subscription options");
                }
                filters.push(f);
            }
            if filters.is_empty() {
                return Err("empty subscription list");
            }
            Pkt::Subscribe { pkid, filters, props }
        }
        t @ 9 | t @ 11 => {
            let pkid = r.u16()?;
            if pkid == 0 {
                r.issues.push("packet id zero");
            }
            if !v5 && t == 11 {
                r.end();
                return Ok(Pkt::UnsubAck { pkid, codes: vec![], props: vec![] });
            }
            let props = if v5 { r.props(Place::SubAck)? } else { vec![] };
            if r.b.is_empty() {
                return Err("empty acknowledgement list");
            }
            let table = if t == 11 {
                UNSUBACK5
            } else if v5 {
                SUBACK5
            } else {
                SUBACK4
            };
            let mut codes = vec![];
            while !r.b.is_empty() {
                codes.push(r.code(table)?);
            }
            if t == 9 {
                Pkt::SubAck { pkid, codes, props }
            } else {
                Pkt::UnsubAck { pkid, codes, props }
            }
        }
        10 => {
            let pkid = r.u16()?;
            if pkid == 0 {
                r.issues.push("packet id zero");
            }
            let props = if v5 { r.props(Place::Unsubscribe)? } else { vec![] };
            let mut filters = vec![];
            while !r.b.is_empty() {
                filters.push(r.str()?);
            }
            if filters.is_empty() {
                return Err("empty subscription list");
            }
            Pkt::Unsubscribe { pkid, filters, props }
        }
        12 => {
            r.end();
            Pkt::PingReq
        }
        13 => {
            r.end();
            Pkt::PingResp
        }
        14 => {
            let (mut reason, mut props) = (0, vec![]);
            if v5 && !r.b.is_empty() {
                reason = r.code(DISCONNECT5)?;
                if !r.b.is_empty() {
                    props = r.props(Place::Disconnect)?;
                }
            }
            r.end();
            Pkt::Disconnect { reason, props }
        }
        _ => return Err("reserved packet type"),
    };
    Ok(p)
}

/// `frame` is one complete frame, `hlen` its fixed header length.
pub fn decode(ver: Ver, frame: &[u8], hlen: usize) -> Dec {
    let mut r = R { b: &frame[hlen..], issues: Vec::new(), unspec: false };
    if hlen - 1 != vbi_len(frame.len() - hlen) {
        r.issues.push("overlong remaining length");
    }
    let pkt = decode_inner(ver, frame[0], &mut r).map(Pkt::norm);
    Dec { pkt, issues: r.issues, unspec: r.unspec }
}
