//! Packet generation. Every choice comes from the run's choice source.
use crate::model::*;
use crate::refcodec as rc;
use crate::rng::{Rng, Src};
use bytes::Bytes;
use std::cell::RefCell;

/// per-run generation profile ("swarm" configuration)
#[derive(Clone, Debug)]
pub struct Gen {
    pub ver: Ver,
    /// weight per packet kind 1..=14
    pub kinds: [u32; 15],
    /// chance in 100 of each optional property
    pub density: u64,
    /// how often lengths are drawn from the boundary classes, in 100
    pub edges: u64,
    /// allow fields of tens of kilobytes
    pub big: bool,
    /// chance in 100 of padding a packet to a length boundary
    pub pad: u64,
    /// frames of two megabytes and more
    pub huge: bool,
    /// most user properties / subscription ids / filters
    pub many: u64,
    pub qos: [u32; 3],
    /// chance in 100 that a text is one that was used before
    pub again: u64,
    used: RefCell<Vec<String>>,
}

pub const ALL: [u32; 15] = [0, 1, 1, 4, 1, 1, 1, 1, 2, 2, 2, 2, 1, 1, 1];

impl Gen {
    pub fn draw(src: &mut Src, ver: Ver) -> Gen {
        let mut kinds = ALL;
        match src.weighted(&[4, 3, 2]) {
            0 => {}
            1 => {
                // a few kinds only
                let a = src.n(14) + 1;
                let b = src.n(14) + 1;
                for (i, k) in kinds.iter_mut().enumerate() {
                    if i != a && i != b && i != 3 {
                        *k = 0;
                    }
                }
                kinds[a] = 6;
            }
            _ => {
                for k in kinds.iter_mut().skip(1) {
                    *k = src.below(4) as u32;
                }
                kinds[3] += 1;
            }
        }
        Gen {
            ver,
            kinds,
            density: *src.pick(&[30, 0, 8, 60, 100]),
            edges: *src.pick(&[10, 0, 3, 30]),
            big: src.chance(1, 4),
            pad: *src.pick(&[5, 0, 15, 40]),
            huge: src.chance(1, 400),
            many: *src.pick(&[4, 2, 12, 40]),
            qos: *src.pick(&[[1, 1, 1], [1, 0, 0], [0, 1, 0], [0, 0, 1]]),
            again: *src.pick(&[5, 0, 0, 40]),
            used: RefCell::default(),
        }
    }

    fn len(&self, src: &mut Src) -> usize {
        if src.below(100) < 100 - self.edges {
            match src.weighted(&[6, 3, 1]) {
                0 => src.range(0, 8) as usize,
                1 => src.range(8, 40) as usize,
                _ => src.range(40, 200) as usize,
            }
        } else if self.big {
            *src.pick(&[
                127usize, 128, 255, 256, 16382, 16383, 16384, 16385, 32767, 32768, 65533, 65534, 65535,
            ])
        } else {
            *src.pick(&[0usize, 1, 63, 64, 125, 126, 127, 128, 129, 254, 255, 256, 257, 383, 384, 511, 512])
        }
    }

    /// any text, sometimes one that has been used before or part of one
    pub fn text(&self, src: &mut Src, min: usize) -> String {
        if src.below(100) >= 100 - self.again {
            let used = self.used.borrow();
            if !used.is_empty() {
                let t = src.pick(&used);
                if t.len() >= min {
                    return t.clone();
                }
            }
        }
        let mut t = self.plain(src, min);
        if !t.is_empty() && src.chance(1, 12) {
            // wildcards mean nothing outside filters
            let w = *src.pick(&["#", "+", "/#", "+/", "#/"]);
            let at = if src.chance(1, 2) { 0 } else { t.len() };
            if t.len() + w.len() <= 65535 {
                t.insert_str(at, w);
            }
        }
        self.remember(&t);
        t
    }
    fn remember(&self, t: &str) {
        let mut used = self.used.borrow_mut();
        if self.again > 0 && used.len() < 16 {
            used.push(t.to_string());
        }
    }

    fn plain(&self, src: &mut Src, min: usize) -> String {
        let n = self.len(src).max(min);
        let style = src.weighted(&[5, 3, 2, 2, 1, 1, 2]);
        if n == 0 {
            return String::new();
        }
        text(src.sub(), n, style)
    }

    pub fn bin(&self, src: &mut Src) -> Bytes {
        match src.weighted(&[12, 1, 1, 1, 2]) {
            0 => {
                let n = self.len(src);
                bin(src, n)
            }
            1 => {
                let n = self.len(src);
                Bytes::from(vec![*src.pick(&[0u8, 0xff, b' ', b'a', 0x80, 0x30]); n])
            }
            2 => Bytes::from(self.text(src, 0).into_bytes()),
            4 => {
                // begins or ends in what some program takes for special
                let n = self.len(src);
                let m: &[u8] = *src.pick(MAGIC);
                let b = bin(src, n);
                let mut v = match src.below(4) {
                    0 => [m, &b].concat(),
                    1 => [&b, m].concat(),
                    2 => [m, &b, m].concat(),
                    _ => m.to_vec(),
                };
                v.truncate(65535);
                Bytes::from(v)
            }
            _ => {
                // a packet inside a packet
                let o = Gen { ver: self.ver, density: 8, edges: 0, huge: false, pad: 0, ..self.clone() };
                let k = *src.pick(&[12u8, 13, 14, 4, 6, 10, 9]);
                let p = o.packet_of(src, k).norm();
                let mut b = rc::encode(self.ver, &p, rc::EncOpts::default());
                b.truncate(65535);
                Bytes::from(b)
            }
        }
    }

    /// a publishable topic name: at least one character, no wildcard
    pub fn topic(&self, src: &mut Src) -> String {
        if src.below(100) >= 100 - self.again {
            let used = self.used.borrow();
            if !used.is_empty() {
                let t = src.pick(&used);
                if !t.is_empty() && !t.contains(['#', '+']) {
                    return t.clone();
                }
            }
        }
        let t = self.fresh_topic(src);
        self.remember(&t);
        t
    }
    fn fresh_topic(&self, src: &mut Src) -> String {
        if src.chance(1, 60) {
            let n = src.range(2, 60) as usize;
            return src.pick(&["a/", "a", "/", "aa/", "b/a/"]).repeat(n);
        }
        if src.chance(1, 2) {
            let mut t = String::new();
            let levels = if src.chance(1, 60) { src.range(5, 300) } else { src.range(1, 5) };
            if src.chance(1, 12) {
                t.push('$');
            }
            for i in 0..levels {
                if i > 0 {
                    t.push('/');
                }
                t.push_str(src.pick(&["a", "b", "c", "sport", "tennis", "", "é", "日本", "x y", "0", "$b", "$SYS"]));
            }
            if t.is_empty() {
                t.push('a');
            }
            t
        } else {
            self.plain(src, 1)
        }
    }

    pub fn filter(&self, src: &mut Src) -> String {
        if src.chance(1, 100) {
            // one wildcard after another
            let unit = *src.pick(&["+/", "+/a/", "+/+/a/"]);
            let n = src.range(2, 60) as usize;
            return unit.repeat(n) + src.pick(&["b", "#", "", "+", "a"]);
        }
        let mut t = self.topic(src);
        match src.weighted(&[4, 2, 2, 1, 1, 1, 1]) {
            0 => {}
            1 if t.len() < 65000 => t.push_str("/#"),
            2 if t.len() < 65000 => t = format!("+/{}", t),
            3 => t = "#".into(),
            4 => t = "+".into(),
            5 if t.len() < 65000 => t = format!("$share/g/{}", t),
            6 if t.len() < 65000 => {
                // wildcards in the middle, and behind one another
                t = t.split('/').map(|l| if src.chance(1, 2) { "+" } else { l }).collect::<Vec<_>>().join("/");
                if src.chance(1, 2) {
                    t.push_str("/#");
                }
            }
            _ => {}
        }
        t
    }

    pub fn pkid(src: &mut Src) -> u16 {
        match src.weighted(&[3, 3, 4]) {
            0 => src.range(1, 8) as u16,
            1 => *src.pick(&[1u16, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff]),
            _ => src.range(1, 65535) as u16,
        }
    }
    pub fn u16v(src: &mut Src) -> u16 {
        match src.weighted(&[1, 1]) {
            0 => *src.pick(&[1u16, 0, 2, 127, 128, 255, 256, 0x7fff, 0x8000, 65534, 65535]),
            _ => src.range(0, 65535) as u16,
        }
    }
    pub fn u32v(src: &mut Src) -> u32 {
        match src.weighted(&[1, 1, 1]) {
            0 => *src.pick(&[
                1u32,
                0,
                127,
                128,
                255,
                256,
                65535,
                65536,
                0x00ff_ffff,
                0x0100_0000,
                0x7fff_ffff,
                0x8000_0000,
                0xffff_fffe,
                0xffff_ffff,
            ]),
            1 => src.below(1 << 32) as u32,
            _ => src.range(0, 100000) as u32,
        }
    }
    fn subid(src: &mut Src) -> u64 {
        match src.weighted(&[2, 2, 1]) {
            0 => src.range(1, 5),
            1 => *src.pick(&[
                1u64, 126, 127, 128, 129, 16382, 16383, 16384, 16385, 2097151, 2097152, 2097153, 268435454, 268435455,
            ]),
            _ => src.range(1, 268435455),
        }
    }

    pub fn props(&self, src: &mut Src, place: Place) -> Props {
        let mut out = vec![];
        if self.ver == Ver::V4 || (self.density == 0 && !src.chance(1, 20)) {
            return out;
        }
        let d = if src.chance(1, 8) { 100 } else { self.density };
        for id in allowed(place) {
            if src.below(100) < 100 - d {
                continue;
            }
            let times = if *id == 38 || (*id == 11 && place == Place::Publish) {
                let m = src.weighted(&[6, 3, 1, 1]);
                match m {
                    0 => 1,
                    1 => src.range(1, 3),
                    2 => src.range(1, self.many),
                    _ => {
                        if self.many >= 40 {
                            src.range(40, 140)
                        } else {
                            2
                        }
                    }
                }
            } else {
                1
            };
            for _ in 0..times {
                let v = match prop_ty(*id).unwrap() {
                    PTy::U8 => PVal::U8(src.below(2) as u8),
                    PTy::U16 => PVal::U16(match Gen::u16v(src) {
                        0 if *id == 33 || *id == 35 => 1,
                        x => x,
                    }),
                    PTy::U32 => PVal::U32(match Gen::u32v(src) {
                        0 if *id == 39 => 1,
                        x => x,
                    }),
                    PTy::Var => PVal::Var(Gen::subid(src)),
                    PTy::Str => PVal::Str(if *id == 8 { self.topic(src) } else { self.text(src, 0) }),
                    PTy::Bin => PVal::Bin(self.bin(src)),
                    PTy::Pair => PVal::Pair(self.text(src, 0), self.text(src, 0)),
                };
                out.push((*id, v));
            }
        }
        // authentication data only with a method
        if out.iter().any(|p| p.0 == 22) && !out.iter().any(|p| p.0 == 21) {
            out.retain(|p| p.0 != 22);
        }
        out.sort_by_key(|p| p.0);
        out
    }

    pub fn kind(&self, src: &mut Src) -> u8 {
        src.weighted(&self.kinds) as u8
    }

    pub fn packet(&self, src: &mut Src) -> Pkt {
        let k = self.kind(src);
        self.packet_of(src, k)
    }

    pub fn connect(&self, src: &mut Src, level: u8) -> Connect {
        let v5 = level == 5;
        let props = if v5 { self.props(src, Place::Connect) } else { vec![] };
        let mut clean = src.chance(1, 2);
        let client_id = self.text(src, 0);
        if client_id.is_empty() {
            clean = true;
        }
        let will = if src.chance(1, 2) {
            Some(Will {
                topic: self.topic(src),
                msg: self.bin(src),
                qos: src.below(3) as u8,
                retain: src.chance(1, 2),
                props: if v5 { self.props(src, Place::Will) } else { vec![] },
            })
        } else {
            None
        };
        let user = if src.chance(1, 2) { self.text(src, 1) } else { String::new() };
        let pass = if src.chance(1, 2) && (v5 || !user.is_empty()) { self.text(src, 1) } else { String::new() };
        Connect { level, keep_alive: Gen::u16v(src), client_id, clean, will, user, pass, props }
    }

    pub fn packet_of(&self, src: &mut Src, kind: u8) -> Pkt {
        let v5 = self.ver == Ver::V5;
        let mut p = match kind {
            1 => Pkt::Connect(Box::new(self.connect(src, if v5 { 5 } else { 4 }))),
            2 => {
                let code = *src.pick(if v5 { CONNACK5 } else { CONNACK4 });
                Pkt::ConnAck {
                    session: code == 0 && src.chance(1, 2),
                    code,
                    props: self.props(src, Place::ConnAck),
                }
            }
            4..=7 => {
                let kind = [AckKind::PubAck, AckKind::PubRec, AckKind::PubRel, AckKind::PubComp][kind as usize - 4];
                let reason = if v5 && src.chance(1, 2) { *src.pick(ack_codes(kind)) } else { 0 };
                Pkt::Ack { kind, pkid: Gen::pkid(src), reason, props: self.props(src, Place::Ack) }
            }
            8 => {
                let n = self.count(src);
                let filters = (0..n)
                    .map(|_| {
                        let path = self.filter(src);
                        let shared = path.starts_with("$share/");
                        Filter {
                            path,
                            qos: src.below(3) as u8,
                            nolocal: v5 && !shared && src.chance(1, 2),
                            rap: v5 && src.chance(1, 2),
                            rh: if v5 { src.below(3) as u8 } else { 0 },
                        }
                    })
                    .collect();
                Pkt::Subscribe { pkid: Gen::pkid(src), filters, props: self.props(src, Place::Subscribe) }
            }
            9 | 11 => {
                let n = if kind == 11 && !v5 { 0 } else { self.count(src) };
                let table = match (kind, v5) {
                    (9, true) => SUBACK5,
                    (9, false) => SUBACK4,
                    _ => UNSUBACK5,
                };
                let codes = (0..n).map(|_| *src.pick(table)).collect();
                let pkid = Gen::pkid(src);
                let props = self.props(src, Place::SubAck);
                if kind == 9 {
                    Pkt::SubAck { pkid, codes, props }
                } else {
                    Pkt::UnsubAck { pkid, codes, props }
                }
            }
            10 => {
                let n = self.count(src);
                let filters = (0..n).map(|_| self.filter(src)).collect();
                Pkt::Unsubscribe { pkid: Gen::pkid(src), filters, props: self.props(src, Place::Unsubscribe) }
            }
            12 => Pkt::PingReq,
            13 => Pkt::PingResp,
            14 => {
                let reason = if v5 && src.chance(2, 3) { *src.pick(DISCONNECT5) } else { 0 };
                Pkt::Disconnect { reason, props: self.props(src, Place::Disconnect) }
            }
            _ => {
                let qos = src.weighted(&self.qos) as u8;
                let props = self.props(src, Place::Publish);
                let alias = props.iter().any(|p| p.0 == 35);
                let topic = if alias && src.chance(1, 3) { String::new() } else { self.topic(src) };
                let payload = if self.huge && src.chance(1, 4) {
                    let n = *src.pick(&[2097100u64, 2097152, 3000000]) as usize;
                    bin(src, n)
                } else {
                    self.bin(src)
                };
                Pkt::Publish(Publish {
                    dup: qos > 0 && src.chance(1, 3),
                    qos,
                    retain: src.chance(1, 3),
                    topic,
                    pkid: if qos > 0 { Gen::pkid(src) } else { 0 },
                    props,
                    payload,
                })
            }
        };
        if src.below(100) >= 100 - self.pad {
            self.pad_packet(src, &mut p);
        }
        p
    }

    fn count(&self, src: &mut Src) -> u64 {
        match src.weighted(&[5, 3, 1]) {
            0 => 1,
            1 => src.range(1, 4),
            _ if src.chance(1, 60) => src.range(100, 1500),
            _ => src.range(1, self.many.max(1)),
        }
    }

    /// grow the packet until its remaining length, or its property section, sits on an encoding boundary
    fn pad_packet(&self, src: &mut Src, p: &mut Pkt) {
        let v5 = self.ver == Ver::V5;
        let by_props = v5 && src.chance(1, 2);
        let targets: &[usize] = if self.huge {
            &[127, 128, 16383, 16384, 2097151, 2097152]
        } else if self.big {
            &[127, 128, 255, 256, 16383, 16384, 65535, 65536]
        } else {
            &[126, 127, 128, 129, 255, 256]
        };
        let target = *src.pick(targets);
        let mut r = src.sub();
        for _ in 0..3 {
            let (_, e) = rc::encode_body(self.ver, p, rc::EncOpts::default());
            let cur = if by_props {
                // the (first, non-will) property section
                match e.f.iter().find(|f| f.kind == rc::FK::PropLen) {
                    Some(f) => {
                        let mut n = 0usize;
                        for (i, b) in e.b[f.at..f.at + f.len].iter().enumerate() {
                            n |= ((b & 0x7f) as usize) << (7 * i);
                        }
                        n
                    }
                    None => 0,
                }
            } else {
                e.b.len()
            };
            if cur >= target {
                return;
            }
            if !grow(p, target - cur, v5, by_props, &mut r) {
                return;
            }
        }
    }
}

/// add about `n` bytes; false if the packet has nothing to grow
fn grow(p: &mut Pkt, n: usize, v5: bool, by_props: bool, r: &mut Rng) -> bool {
    if !by_props {
        match p {
            Pkt::Publish(x) => {
                let mut v = x.payload.to_vec();
                v.extend((0..n).map(|_| r.next() as u8));
                x.payload = Bytes::from(v);
                return true;
            }
            Pkt::Unsubscribe { filters, .. } => return grow_str(&mut filters[0], n),
            Pkt::Subscribe { filters, .. } => return grow_str(&mut filters[0].path, n),
            Pkt::Connect(c) => {
                // an empty id has forced a clean session; any id may have one
                return grow_str(&mut c.client_id, n);
            }
            Pkt::SubAck { codes, .. } => {
                codes.extend((0..n).map(|_| if r.below(9) == 0 { 128 } else { r.below(3) as u8 }));
                return true;
            }
            Pkt::UnsubAck { codes, .. } if v5 => {
                codes.extend((0..n).map(|_| *[0u8, 17, 128, 131].get(r.below(4) as usize).unwrap()));
                return true;
            }
            _ => {}
        }
    }
    if !v5 {
        return false;
    }
    if let Some(props) = p.props_mut() {
        let mut n = n;
        while n >= 5 {
            let mut part = n.min(40000);
            if n - part > 0 && n - part < 5 {
                part -= 5;
            }
            let c = part - 5;
            let k = c / 2;
            props.push((38, PVal::Pair(text(r.clone(), k, 0), text(Rng::new(r.next()), c - k, 1))));
            n -= part;
        }
        if n > 0 {
            // let a string property take up the rest
            for (_, v) in props.iter_mut() {
                match v {
                    PVal::Str(s) | PVal::Pair(s, _) if s.len() + n < 65000 => {
                        return grow_str(s, n);
                    }
                    _ => {}
                }
            }
            return false;
        }
        props.sort_by_key(|p| p.0);
        return true;
    }
    false
}
fn grow_str(s: &mut String, n: usize) -> bool {
    if s.len() + n > 65535 || s.ends_with('#') || s.ends_with('+') {
        return false;
    }
    for _ in 0..n {
        s.push('p');
    }
    true
}

const MAGIC: &[&[u8]] = &[
    &[0], &[0, 0], &[0, 0, 0, 0], b"\n", b"\r\n", b" ", b"\t", b"\"", b"{", b"[]", b"{}", b"<", b"null", b"0", b"1", b"\\", &[0x1f, 0x8b], &[0x78, 0x9c], b"PK\x03\x04",
    &[0xef, 0xbb, 0xbf], &[0xff, 0xfe], &[0xfe, 0xff], &[0xff], &[0x80], &[0x7f], &[0xff, 0xff, 0xff, 0xff], &[0x28, 0xb5, 0x2f, 0xfd], b"%PDF", b"\x7fELF", &[0x89, b'P', b'N', b'G'],
    &[0xd8, 0xff], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0x1b], &[0x04], &[0x1a], b"MQTT", &[0, 4], &[0xc0, 0], &[0xe0, 0],
];

/// what some program or other takes for special
const ODD: &[&str] = &[
    "\r\n", "\r", "\n", "\t", "\"", "\"\"", "'", "''", "\\", "\\n", "\\\\", "%20", "%2F", "%s", "{}", "&amp;", "//", "/", "./", "../", "$", "$SYS/", "$share/g/", "*", ">", "?",
    " ", "  ", "\u{1}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{ad}", "\u{ff}", "İ", "ı", "ſ", "ﬁ", "\u{212a}", "\u{212b}", "Å", "A\u{30a}", "e\u{301}", "\u{200b}", "\u{200d}", "\u{202e}",
    "\u{2028}", "\u{2029}", "\u{3000}", "\u{d7ff}", "\u{e000}", "\u{f8ff}", "\u{fdd0}", "\u{feff}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10000}", "\u{1ffff}", "\u{e0001}", "null", "nil", "MQTT", "true",
    "0", "-1", ",", ";", ":", "=", "|", "~", "^", "@", "<", "[", "(", "`",
];

/// `n` bytes of text in some style, always valid UTF-8 without U+0000 and without wildcards
pub fn text(mut r: Rng, n: usize, style: usize) -> String {
    let mut s = String::with_capacity(n + 4);
    if n > 1000 {
        // long ones repeat themselves in the middle
        let block = text(Rng(r.next()), 263, style);
        s.push_str(&block);
        let plain = text(Rng(r.next()), 263, if style == 4 { 0 } else { style });
        while s.len() < n - 700 {
            s.push_str(&plain);
        }
    }
    let uni: &[&str] = &["é", "ß", "Ж", "日", "€", "𝄞", "😀", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10ffff}", "\u{feff}"];
    while s.len() < n {
        let left = n - s.len();
        let x = r.next();
        let piece: &str = match style {
            1 if x % 3 == 0 => uni[(x >> 8) as usize % uni.len()],
            2 if x % 4 == 0 => "/",
            3 => uni[(x >> 8) as usize % uni.len()],
            4 if s.is_empty() => "$",
            5 => {
                // any ASCII but NUL and wildcards
                let c = 1 + ((x >> 8) % 127) as u8;
                let c = if c == b'#' || c == b'+' { b' ' } else { c };
                s.push(c as char);
                continue;
            }
            6 if x % 4 == 0 => ODD[(x >> 8) as usize % ODD.len()],
            6 if x % 4 < 3 => {
                // any character, those at either end of a block more often
                let mut c = (x >> 8) as u32 % 0x11_0000;
                if x % 4 == 1 {
                    c = (c & 0x1f_ff00) | [0, 1, 0xfe, 0xff][(x >> 40) as usize % 4];
                }
                match char::from_u32(c) {
                    Some('\0') | Some('#') | Some('+') | None => s.push('z'),
                    Some(c) if c.len_utf8() <= left => s.push(c),
                    Some(_) => s.push('z'),
                }
                continue;
            }
            _ => {
                s.push((b'a' + ((x >> 8) % 26) as u8) as char);
                continue;
            }
        };
        if piece.len() <= left {
            s.push_str(piece);
        } else {
            s.push('z');
        }
    }
    s
}

pub fn bin(src: &mut Src, n: usize) -> Bytes {
    if n == 0 {
        return Bytes::new();
    }
    let mut r = src.sub();
    let mut v = vec![0u8; n];
    for c in v.chunks_mut(8) {
        let x = r.next().to_le_bytes();
        let l = c.len();
        c.copy_from_slice(&x[..l]);
    }
    Bytes::from(v)
}

// ------------------------------------------------------------ hostile bytes

/// Bytes a hostile peer sends, and whether the outer framing is honest (one
/// complete frame whose length field is right).
pub struct Hostile {
    pub bytes: Vec<u8>,
    #[allow(dead_code)]
    pub framed: bool,
    #[allow(dead_code)]
    pub what: &'static str,
}

fn relen(first: u8, body: &[u8]) -> Vec<u8> {
    rc::wrap(first, body)
}

pub fn hostile(src: &mut Src, g: &Gen, framed_only: bool) -> Hostile {
    let mode = if framed_only {
        src.weighted(&[8, 3, 2, 2, 2, 2, 1, 1, 2])
    } else {
        src.weighted(&[8, 3, 2, 2, 2, 2, 1, 1, 2, 2, 2, 2, 1])
    };
    // a damaged packet is as likely to be of one type as of another
    let mut p = if src.chance(1, 3) {
        let k = 1 + src.below(14) as u8;
        g.packet_of(src, k)
    } else {
        g.packet(src)
    };
    if g.ver == Ver::V5 && src.chance(1, 12) {
        misplace(src, &mut p);
        let (first, e) = rc::encode_body(g.ver, &p, rc::EncOpts { order: None, form: 0 });
        return Hostile { bytes: relen(first, &e.b), framed: true, what: "any property" };
    }
    // a little freedom the generator of conformant packets does not take
    let strange = src.chance(1, 5);
    if strange {
        odd(src, g.ver, &mut p);
    }
    let form = src.below(3) as u8;
    let (first, e) = rc::encode_body(g.ver, &p, rc::EncOpts { order: None, form });
    let mut b = e.b.clone();
    if strange && src.chance(1, 2) {
        return Hostile { bytes: relen(first, &b), framed: true, what: "strange values" };
    }
    match mode {
        0 => {
            // damage one to three fields
            let mut what = "field damage";
            for _ in 0..1 + src.weighted(&[5, 1, 1]) {
                if let Some(w) = damage_field(src, &mut b, &e.f) {
                    what = w;
                }
            }
            Hostile { bytes: relen(first, &b), framed: true, what }
        }
        1 => {
            // cut the body, with an honest length
            let n = src.n(b.len() + 1);
            b.truncate(n);
            Hostile { bytes: relen(first, &b), framed: true, what: "cut body" }
        }
        2 => {
            let n = src.range(1, 6);
            for _ in 0..n {
                b.push(src.below(256) as u8);
            }
            Hostile { bytes: relen(first, &b), framed: true, what: "extra bytes" }
        }
        3 => {
            for _ in 0..src.range(1, 3) {
                if !b.is_empty() {
                    let i = src.n(b.len());
                    b[i] ^= 1 << src.below(8);
                }
            }
            Hostile { bytes: relen(first, &b), framed: true, what: "bit flips" }
        }
        4 => {
            let f = src.below(256) as u8;
            Hostile { bytes: relen(f, &b), framed: true, what: "wrong first byte" }
        }
        5 => {
            let f = (first & 0xF0) | src.below(16) as u8;
            Hostile { bytes: relen(f, &b), framed: true, what: "wrong flags" }
        }
        6 => {
            let n = src.range(0, 40) as usize;
            let v: Vec<u8> = (0..n).map(|_| src.below(256) as u8).collect();
            let f = (src.range(1, 14) << 4) as u8 | *src.pick(&[0u8, 2, 4, 1, 3, 8, 15]);
            Hostile { bytes: relen(f, &v), framed: true, what: "random body" }
        }
        7 => {
            // splice two packets' bodies
            let q = g.packet(src);
            let (_, e2) = rc::encode_body(g.ver, &q, rc::EncOpts::default());
            let i = src.n(b.len() + 1);
            let j = src.n(e2.b.len() + 1);
            b.truncate(i);
            b.extend_from_slice(&e2.b[j..]);
            Hostile { bytes: relen(first, &b), framed: true, what: "spliced bodies" }
        }
        8 => {
            // overlong (non-minimal) remaining length encoding
            let mut v = vec![first];
            rc::vbi(&mut v, b.len() as u64);
            let extra = src.range(1, 3) as usize;
            let mut k = v.len();
            while v.len() < 5 && v.len() < k + extra {
                let l = v.len();
                v[l - 1] |= 0x80;
                v.push(0);
            }
            k = v.len();
            v.extend_from_slice(&b);
            Hostile { bytes: v, framed: k <= 5, what: "overlong length" }
        }
        9 => {
            // length field that never ends
            let mut v = vec![first];
            for _ in 0..4 {
                v.push(0x80 | src.below(128) as u8);
            }
            v.push(src.below(256) as u8);
            v.extend_from_slice(&b);
            Hostile { bytes: v, framed: false, what: "bad length" }
        }
        10 => {
            // dishonest length
            let mut v = vec![first];
            let n = match src.weighted(&[2, 2, 1, 1]) {
                0 => b.len() as u64 + src.range(1, 200),
                1 => (b.len() as u64).saturating_sub(src.range(1, 20)),
                2 => src.below(268435456),
                _ => *src.pick(&[268435455u64, 2097152, 65536, 1 << 20]),
            };
            rc::vbi(&mut v, n);
            v.extend_from_slice(&b);
            Hostile { bytes: v, framed: false, what: "dishonest length" }
        }
        11 => {
            let n = src.range(1, 60) as usize;
            let v: Vec<u8> = (0..n).map(|_| src.below(256) as u8).collect();
            Hostile { bytes: v, framed: false, what: "noise" }
        }
        _ => {
            let mut v = relen(first, &b);
            let n = src.n(v.len());
            v.truncate(n);
            Hostile { bytes: v, framed: false, what: "cut frame" }
        }
    }
}

/// as many elements as the frame can hold, each as small as it can be
pub fn bulk(src: &mut Src, g: &Gen, most: u64) -> Vec<u8> {
    let n = src.range(most / 20 + 1, most) as usize;
    let v5 = g.ver == Ver::V5;
    let k = if v5 { src.below(6) } else { src.below(3) };
    let kind = [10u8, 8, 9, 3, 11, *src.pick(&[1u8, 2, 4, 5, 6, 7, 14])][k as usize];
    let mut p = g.packet_of(src, kind);
    let text = src.pick(&["", "a", "a/b"]).to_string();
    let pairs = || (0..n).map(|_| (38u8, PVal::Pair(String::new(), text.clone()))).collect::<Props>();
    let mut by_props = v5 && src.chance(1, 4);
    match &mut p {
        Pkt::Unsubscribe { filters, .. } if !by_props => *filters = vec![text.clone(); n],
        Pkt::Subscribe { filters, .. } if !by_props => {
            *filters = vec![Filter { path: text.clone(), qos: 0, nolocal: false, rap: false, rh: 0 }; n]
        }
        Pkt::SubAck { codes, .. } | Pkt::UnsubAck { codes, .. } if !by_props => *codes = vec![0; n],
        Pkt::Publish(m) if v5 && !by_props => m.props = (0..n).map(|i| (11u8, PVal::Var(1 + (i as u64 & 127)))).collect(),
        _ => by_props = true,
    }
    if by_props {
        if let Some(ps) = p.props_mut() {
            *ps = pairs();
        }
    }
    rc::encode(g.ver, &p, rc::EncOpts::default())
}

/// one more property, well formed, of whatever kind
fn misplace(src: &mut Src, p: &mut Pkt) {
    let id = *src.pick(&[
        1u8, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
    ]);
    let v = match prop_ty(id).unwrap() {
        PTy::U8 => PVal::U8(*src.pick(&[1u8, 0, 2, 255])),
        PTy::U16 => PVal::U16(Gen::u16v(src)),
        PTy::U32 => PVal::U32(Gen::u32v(src)),
        PTy::Var => PVal::Var(Gen::subid(src)),
        PTy::Str => PVal::Str("p".into()),
        PTy::Bin => PVal::Bin(Bytes::from_static(b"b")),
        PTy::Pair => PVal::Pair("k".into(), "v".into()),
    };
    let will = src.chance(1, 2);
    if let Pkt::Connect(c) = p {
        if let (true, Some(w)) = (will, &mut c.will) {
            w.props.push((id, v));
            return;
        }
    }
    if let Some(ps) = p.props_mut() {
        let at = src.n(ps.len() + 1);
        ps.insert(at, (id, v));
    }
}

/// change one field in place; offsets of other fields stay valid only while
/// lengths do, so edits that change length are applied last-field-first by luck
fn damage_field(src: &mut Src, b: &mut Vec<u8>, fields: &[rc::Field]) -> Option<&'static str> {
    use rc::FK;
    if fields.is_empty() {
        return None;
    }
    // choose a kind first, so that rare kinds are reached in big packets
    let mut kinds: Vec<FK> = vec![];
    for f in fields {
        if !kinds.contains(&f.kind) {
            kinds.push(f.kind);
        }
    }
    // fields of which most values are wrong, more often
    let w: Vec<u32> = kinds
        .iter()
        .map(|k| if matches!(k, FK::Code | FK::Options | FK::Level | FK::Flags | FK::PropId) { 3 } else { 2 })
        .collect();
    let k = kinds[src.weighted(&w)];
    let cands: Vec<&rc::Field> = fields.iter().filter(|f| f.kind == k).collect();
    let f = **src.pick(&cands);
    if f.at + f.len > b.len() {
        return None;
    }
    let u16_at = |b: &Vec<u8>, at: usize| u16::from_be_bytes([b[at], b[at + 1]]);
    Some(match f.kind {
        FK::StrLen => {
            let cur = u16_at(b, f.at);
            let rest = b.len() - f.at - 2;
            let n: u16 = match src.weighted(&[3, 3, 2, 2, 1, 1]) {
                0 => cur.wrapping_add(src.range(1, 4) as u16),
                1 => cur.wrapping_sub(src.range(1, 4) as u16),
                2 => (rest as u16).wrapping_add(src.below(3) as u16),
                3 => *src.pick(&[0u16, 65535, 65534, 0x8000, 255, 256]),
                4 => src.below(65536) as u16,
                _ => (rest as u16).wrapping_sub(src.below(6) as u16),
            };
            b[f.at..f.at + 2].copy_from_slice(&n.to_be_bytes());
            "string length"
        }
        FK::Str => {
            if f.len == 0 {
                return None;
            }
            let i = f.at + src.n(f.len);
            match src.weighted(&[3, 2, 1, 1, 2]) {
                4 => {
                    // sequences that only a complete UTF-8 check finds
                    let bad: &[u8] = src.pick::<&[u8]>(&[
                        &[0xed, 0xa0, 0x80],
                        &[0xc0, 0x80],
                        &[0xc1, 0xbf],
                        &[0xf4, 0x90, 0x80, 0x80],
                        &[0xe0, 0x80, 0x80],
                        &[0xe0, 0x9f, 0xbf],
                        &[0xf0, 0x8f, 0xbf, 0xbf],
                        &[0xf8, 0x88, 0x80, 0x80, 0x80],
                        &[0xed, 0xbf, 0xbf],
                        &[0xe2, 0x82],
                        &[0xf0, 0x9f, 0x98],
                        &[0xe2, 0x28, 0xa1],
                        &[0xfe],
                    ]);
                    let at = if src.chance(1, 2) { i } else { (f.at + f.len).saturating_sub(bad.len()).max(f.at) };
                    let n = bad.len().min(f.at + f.len - at);
                    b[at..at + n].copy_from_slice(&bad[..n]);
                }
                0 => b[i] = *src.pick(&[0x80u8, 0xff, 0xc0, 0xc3, 0xf8, 0xed, 0xe2, 0xf0, 0xbf]),
                1 => b[i] = src.below(256) as u8,
                2 => b[f.at + f.len - 1] = *src.pick(&[0xc3u8, 0xe2, 0xf0]),
                _ => b[i] = *src.pick(&[0u8, b'#', b'+', b'$', b'/']),
            }
            "text content"
        }
        FK::Bin => {
            if f.len == 0 {
                return None;
            }
            let i = f.at + src.n(f.len);
            b[i] = src.below(256) as u8;
            "binary content"
        }
        FK::PropLen => {
            let mut cur = 0u64;
            for (i, x) in b[f.at..f.at + f.len].iter().enumerate() {
                cur |= ((x & 0x7f) as u64) << (7 * i);
            }
            let rest = (b.len() - f.at - f.len) as u64;
            let mut v = vec![];
            match src.weighted(&[4, 4, 2, 2, 2, 1, 1]) {
                0 => rc::vbi(&mut v, cur + src.range(1, 5)),
                1 => rc::vbi(&mut v, cur.saturating_sub(src.range(1, 5))),
                2 => rc::vbi(&mut v, rest + src.below(3)),
                3 => rc::vbi(&mut v, *src.pick(&[0u64, 127, 128, 16384, 2097152, 268435455])),
                4 => {
                    // length that runs off the frame's end
                    let keep = f.at + src.n(f.len);
                    b.truncate(keep);
                    for _ in 0..src.range(1, 3) {
                        b.push(0x80 | src.below(128) as u8);
                    }
                    return Some("property length cut");
                }
                5 => {
                    for _ in 0..4 {
                        v.push(0x80 | src.below(128) as u8);
                    }
                    v.push(src.below(256) as u8)
                }
                _ => {
                    rc::vbi(&mut v, cur);
                    let l = v.len();
                    if l < 4 {
                        v[l - 1] |= 0x80;
                        v.push(0);
                    }
                }
            }
            b.splice(f.at..f.at + f.len, v);
            "property length"
        }
        FK::PropId => {
            b[f.at] = match src.weighted(&[3, 1, 1]) {
                0 => *src.pick(&[
                    1u8, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40,
                    41, 42,
                ]),
                1 => *src.pick(&[0u8, 4, 5, 6, 7, 10, 12, 16, 20, 27, 29, 30, 32, 43, 127, 128, 255]),
                _ => src.below(256) as u8,
            };
            "property id"
        }
        FK::Code => {
            b[f.at] = match src.weighted(&[2, 1]) {
                0 => src.below(256) as u8,
                _ => *src.pick(&[3u8, 1, 2, 4, 5, 6, 127, 128, 129, 255, 0x10, 0x11, 0x92]),
            };
            "reason code"
        }
        FK::Options => {
            b[f.at] = src.below(256) as u8;
            "subscription options"
        }
        FK::Level => {
            match src.weighted(&[3, 2, 2, 2]) {
                0 => b[f.at] = *src.pick(&[3u8, 4, 5, 6, 0, 0x83, 0x84, 0x85, 255]),
                1 => b[f.at] = src.below(256) as u8,
                2 => {
                    // another name altogether
                    let n: &[u8] = src.pick::<&[u8]>(&[
                        b"MQIsdp", b"mqtt", b"MQTTT", b"MQT", b"", b"MQTT ", b"Mqtt", b"MQTT\0", b"AMQP", b" MQTT", b"MQTTMQTT",
                    ]);
                    let mut v = (n.len() as u16).to_be_bytes().to_vec();
                    v.extend_from_slice(n);
                    b.splice(0..f.at, v);
                }
                _ => {
                    let i = src.n(f.at);
                    b[i] = b[i].wrapping_add(1 + src.below(255) as u8);
                }
            }
            "protocol name or level"
        }
        FK::Flags => {
            b[f.at] = src.below(256) as u8;
            "flags"
        }
        FK::Pkid => {
            b[f.at] = 0;
            b[f.at + 1] = 0;
            "packet id zero"
        }
        FK::VarInt => {
            let mut v = vec![];
            match src.weighted(&[2, 2, 1]) {
                0 => {
                    for _ in 0..4 {
                        v.push(0x80 | src.below(128) as u8);
                    }
                    v.push(src.below(128) as u8)
                }
                1 => v.push(0),
                _ => {
                    v.push(0x80 | src.below(128) as u8);
                    v.push(0)
                }
            }
            b.splice(f.at..f.at + f.len, v);
            "variable byte integer"
        }
        FK::Num => {
            for i in 0..f.len {
                b[f.at + i] = src.below(256) as u8;
            }
            "number"
        }
    })
}

/// turn a well-formed packet into one that the types allow but the standard does not, or hardly
pub fn odd(src: &mut Src, ver: Ver, p: &mut Pkt) {
    let v5 = ver == Ver::V5;
    let texts = ["\0", "a\0b", "#", "+/#", "\u{feff}", "\u{fffe}", "a b\n", ""];
    for _ in 0..src.range(1, 3) {
        let x = src.below(8);
        let t = src.pick(&texts).to_string();
        match p {
            Pkt::Connect(c) => match x {
                0 => c.user.clear(),
                1 => c.pass = "p".into(),
                2 => {
                    c.client_id = t;
                    c.clean = false;
                }
                3 => c.level = if v5 { 4 } else { 5 },
                4 => c.props.clear(),
                5 => {
                    if let Some(w) = &mut c.will {
                        w.topic = t;
                        w.msg = Bytes::new();
                    }
                }
                _ => {}
            },
            Pkt::ConnAck { session, code, .. } => {
                *session = true;
                if x < 4 {
                    *code = *src.pick(if v5 { CONNACK5 } else { CONNACK4 });
                }
            }
            Pkt::Publish(b) => match x {
                0 => b.dup = true,
                1 | 2 => b.topic = t,
                3 => b.pkid = 0,
                4 => b.payload = Bytes::new(),
                _ => {}
            },
            Pkt::Ack { pkid, .. } => *pkid = 0,
            Pkt::Subscribe { pkid, filters, .. } => match x {
                0 => *pkid = 0,
                1 | 2 => filters.clear(),
                3 => {
                    if let Some(f) = filters.first_mut() {
                        f.path = t;
                    }
                }
                _ => {}
            },
            Pkt::Unsubscribe { pkid, filters, .. } => match x {
                0 => *pkid = 0,
                1 | 2 => filters.clear(),
                3 => {
                    if let Some(f) = filters.first_mut() {
                        *f = t;
                    }
                }
                _ => {}
            },
            Pkt::SubAck { pkid, codes, .. } | Pkt::UnsubAck { pkid, codes, .. } => match x {
                0 => *pkid = 0,
                1 | 2 => codes.clear(),
                _ => {}
            },
            _ => {}
        }
        if v5 && x >= 5 {
            if let Some(ps) = p.props_mut() {
                for q in ps.iter_mut() {
                    match &mut q.1 {
                        PVal::U8(v) => *v = *src.pick(&[2u8, 255, 0]),
                        PVal::U16(v) => *v = *src.pick(&[0u16, 65535]),
                        PVal::U32(v) => *v = *src.pick(&[0u32, u32::MAX]),
                        PVal::Var(v) => *v = *src.pick(&[0u64, 268_435_455]),
                        PVal::Str(v) => *v = src.pick(&texts).to_string(),
                        PVal::Bin(v) => *v = Bytes::new(),
                        PVal::Pair(k, v) => {
                            k.clear();
                            *v = "\0".into();
                        }
                    }
                }
            }
        }
    }
}
