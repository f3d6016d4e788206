//! One run of one property: draws a configuration, builds the world, runs it.
use crate::cover;
use crate::gen::{self, Gen};
use crate::giant;
use crate::model::*;
use crate::qos;
use crate::route;
use crate::real::{self, Flavour, Real};
use crate::refcodec as rc;
use crate::rng::Src;
use crate::seam;
use crate::sim::*;
use crate::soak;
use crate::stats::{St, Stats};
use crate::threads;
use bytes::Bytes;
use std::sync::OnceLock;

/// one run in so many is about a packet of the largest size
const GIANT: u64 = 5000;

pub struct RunRes {
    pub res: Result<(), Viol>,
    pub hash: u64,
    pub trace: Vec<String>,
    pub known: Vec<(String, String)>,
    /// something relevant to the property happened
    pub nontrivial: bool,
    pub sample: String,
}

fn ver(src: &mut Src) -> Ver {
    if src.chance(1, 3) {
        Ver::V4
    } else {
        Ver::V5
    }
}

fn flavour(src: &mut Src) -> Flavour {
    let x = src.below(64);
    Flavour {
        some_empty: x & 1 != 0,
        builders: x & 2 != 0,
        stray_pkid: if x & 12 == 12 { Gen::pkid(src) } else { 0 },
        empty_login: x & 48 == 48,
    }
}

pub fn opts(src: &mut Src) -> rc::EncOpts {
    rc::EncOpts {
        order: if src.chance(1, 2) { Some(src.below(1 << 32)) } else { None },
        form: src.below(3) as u8,
    }
}

/// a conformant packet from a foreign implementation
fn foreign(src: &mut Src, g: &Gen) -> Item {
    let p = g.packet(src);
    let o = opts(src);
    Item::Raw(rc::encode(g.ver, &p, o), Some(p.norm()))
}
fn own(src: &mut Src, g: &Gen) -> Item {
    let p = g.packet(src).norm();
    Item::Real(p, flavour(src))
}

/// a packet the application may build although the standard does not allow it
fn odd(src: &mut Src, g: &Gen) -> Item {
    let mut p = g.packet(src);
    gen::odd(src, g.ver, &mut p);
    Item::Real(p.norm(), flavour(src))
}

fn reader(src: &mut Src) -> Reader {
    *src.pick(&[Reader::Eager, Reader::Lazy, Reader::OneByOne, Reader::Hint])
}

fn nitems(src: &mut Src) -> u64 {
    match src.weighted(&[4, 4, 1]) {
        0 => src.range(1, 3),
        1 => src.range(3, 12),
        _ => src.range(12, 40),
    }
}

/// foreign, damaged and hostile frames mixed
fn mixed(w: &mut World, i: usize, g: &Gen, n: u64, bad: u64, unframed: u64) {
    for _ in 0..n {
        let item = if w.src.below(100) < bad {
            w.st.inc(St::f_hostile);
            if w.src.chance(1, 80) {
                let most = match w.prop {
                    Prop::H01 | Prop::H02 if w.src.chance(1, 400) => 300_000,
                    Prop::H01 | Prop::H02 => 2000,
                    _ => 200,
                };
                let b = gen::bulk(w.src, g, most);
                w.links[i].items.push_back(Item::Raw(b, None));
                continue;
            }
            let un = w.src.below(100) < unframed;
            let h = gen::hostile(w.src, g, !un);
            Item::Raw(h.bytes, None)
        } else {
            foreign(w.src, g)
        };
        w.links[i].items.push_back(item);
    }
}

fn limit(src: &mut Src) -> usize {
    match src.weighted(&[6, 1, 1, 1]) {
        0 => MAXLEN,
        1 => usize::MAX,
        2 => *src.pick(&[64usize, 127, 128, 256, 1024, 16383, 16384, 10 * 1024, 65536]),
        _ => src.range(0, 400) as usize,
    }
}

pub fn run(prop: Prop, src: &mut Src, st: &mut Stats, trace: bool) -> RunRes {
    if prop == Prop::H05 {
        return soak::run(src, st, trace);
    }
    if prop == Prop::C02 {
        return threads::run(src, st, trace);
    }
    run_one(prop, src, st, trace, true)
}
pub fn run_one(prop: Prop, src: &mut Src, st: &mut Stats, trace: bool, giants: bool) -> RunRes {
    seam::set_clock(0);
    if prop == Prop::Q01 {
        return qos::run(src, st, trace);
    }
    if prop == Prop::R03 {
        return cover::run(src, st, trace);
    }
    if matches!(prop, Prop::R01 | Prop::R02) {
        return route::run(prop == Prop::R02, src, st, trace);
    }
    if giants && matches!(prop, Prop::E01 | Prop::E02 | Prop::E03 | Prop::S02) && src.chance(1, GIANT) {
        return giant::run(prop, src, st, trace);
    }
    let resets = !matches!(prop, Prop::V01 | Prop::S04 | Prop::H04);
    let mut net = Net::draw(src, resets);
    if matches!(prop, Prop::H01 | Prop::H02) && src.chance(1, 3) {
        net.flip = *src.pick(&[20, 5, 60]);
    }
    let io0 = seam::io_calls();
    let mut w = World::new(src, st, prop, net, trace);
    build(&mut w);
    let fail_io = prop == Prop::H01 && w.src.chance(1, 2);
    if fail_io {
        w.st.inc(St::f_io);
        seam::fail_io(true);
    }
    let mut res = Ok(());
    if prop == Prop::V01 {
        res = v01_built(&mut w);
    }
    if res.is_ok() {
        res = w.run();
    }
    seam::fail_io(false);
    if prop == Prop::H01 && res.is_ok() {
        // output buffered inside the crate's standard streams counts as well
        let _ = real::guarded(|| {
            use std::io::Write;
            let _ = std::io::stdout().flush();
        });
        if seam::io_calls() != io0 {
            res = viol("system call", format!("crate code made a system call ({})", seam::last_call()));
        }
    }
    let nontrivial = match prop {
        Prop::E03 => w.st.0[St::encodes as usize] > 0,
        Prop::E04 => true,
        _ => w.accepted + w.refused > 0,
    };
    let sample = format!(
        "{:?}: {} link(s) {:?}, {} accepted, {} refused, {} us simulated",
        prop,
        w.links.len(),
        w.links.iter().map(|l| (l.ver, l.reader, l.limit)).collect::<Vec<_>>(),
        w.accepted,
        w.refused,
        w.now
    );
    RunRes { res, hash: w.hash, trace: w.trace.take().unwrap_or_default(), known: std::mem::take(&mut w.known), nontrivial, sample }
}

fn build(w: &mut World) {
    let prop = w.prop;
    match prop {
        Prop::S01 | Prop::S02 | Prop::S03 | Prop::H02 | Prop::H03 | Prop::H01 => {
            let links = if w.src.chance(1, 5) { 2 } else { 1 };
            w.postops = true;
            for i in 0..links {
                let v = ver(w.src);
                let g = Gen::draw(w.src, v);
                let r = match prop {
                    Prop::S02 if w.src.chance(1, 2) => Reader::Hint,
                    _ => reader(w.src),
                };
                let lim = limit(w.src);
                w.links.push(Link::new(v, r, lim));
                w.links[i].cap = *w.src.pick(&[0, 64, 4096]);
                let n = nitems(w.src);
                let bad = *w.src.pick(&[50, 20, 100, if prop == Prop::S01 { 0 } else { 80 }]);
                let un = *w.src.pick(&[10, 0, 50]);
                mixed(w, i, &g, n, bad, un);
            }
        }
        Prop::S04 => {
            let v = ver(w.src);
            let g = Gen::draw(w.src, v);
            let r = *w.src.pick(&[Reader::Eager, Reader::Eager, Reader::Hint, Reader::Lazy]);
            let lim = match w.src.weighted(&[3, 2, 2, 1, 1]) {
                0 => w.src.range(0, 300) as usize,
                1 => *w.src.pick(&[0usize, 1, 2, 126, 127, 128, 129, 16382, 16383, 16384, 16385]),
                2 => w.src.range(0, 20000) as usize,
                3 => *w.src.pick(&[65535usize, 65536, 2097150, 2097151, 2097152, 2097153, 268435454, 268435455, 268435456]),
                _ => *w.src.pick(&[usize::MAX, usize::MAX - 1, usize::MAX - 5, 1 << 32, (1 << 32) + 7, 1 << 31]),
            };
            w.links.push(Link::new(v, r, lim));
            w.links[0].cap = *w.src.pick(&[0, 64]);
            let n = nitems(w.src).min(10);
            for _ in 0..n {
                let item = match w.src.weighted(&[3, 4, 2]) {
                    0 => foreign(w.src, &g),
                    1 => {
                        // announced length at the limit
                        let d = w.src.range(0, 4) as i64 - 2;
                        let len = (lim.min(MAXLEN) as i64 + d).clamp(0, MAXLEN as i64) as usize;
                        announce(w.src, len)
                    }
                    _ => {
                        let len = match w.src.weighted(&[1, 1]) {
                            0 => *w.src.pick(&[
                                0usize, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435454,
                            ]),
                            _ => w.src.below(MAXLEN as u64 + 1) as usize,
                        };
                        announce(w.src, len)
                    }
                };
                w.links[0].items.push_back(item);
            }
        }
        Prop::S05 => {
            let v = ver(w.src);
            let g = Gen::draw(w.src, v);
            let lim = limit(w.src);
            w.links.push(Link::new(v, Reader::Peek, lim));
            let n = nitems(w.src);
            let bad = *w.src.pick(&[30, 0, 80]);
            mixed(w, 0, &g, n, bad, 5);
        }
        Prop::C01 => {
            let links = w.src.range(2, 6) as usize;
            for i in 0..links {
                let v = if w.src.chance(1, 2) { Ver::V4 } else { Ver::V5 };
                let g = Gen::draw(w.src, v);
                let r = *w.src.pick(&[Reader::Eager, Reader::Lazy, Reader::OneByOne]);
                let lim = limit(w.src);
                w.links.push(Link::new(v, r, lim));
                let n = nitems(w.src).min(14);
                for _ in 0..n {
                    let item = match w.src.weighted(&[4, 2, 2, 1]) {
                        0 if w.src.chance(1, 6) => odd(w.src, &g),
                        0 => own(w.src, &g),
                        1 => foreign(w.src, &g),
                        2 => {
                            w.st.inc(St::f_hostile);
                            let h = gen::hostile(w.src, &g, true);
                            Item::Raw(h.bytes, None)
                        }
                        _ => {
                            let (r, what) = cheap_refusal(w.src, &g);
                            Item::Refuse(Box::new(r), what)
                        }
                    };
                    w.links[i].items.push_back(item);
                }
            }
        }
        Prop::E01 | Prop::E02 | Prop::E03 | Prop::I01 | Prop::I02 => {
            let links = if w.src.chance(1, 4) { 2 } else { 1 };
            for i in 0..links {
                let v = match prop {
                    Prop::E01 => Ver::V4,
                    Prop::E02 => Ver::V5,
                    _ => ver(w.src),
                };
                let g = Gen::draw(w.src, v);
                let r = if prop == Prop::I02 { Reader::Eager } else { reader(w.src) };
                let lim = if w.src.chance(1, 2) { MAXLEN } else { usize::MAX };
                let mut l = Link::new(v, r, lim);
                l.foreign_receiver = prop == Prop::I02;
                l.dead = prop == Prop::E03;
                l.cap = *w.src.pick(&[0, 64, 4096]);
                w.links.push(l);
                let n = nitems(w.src);
                let odds = if prop == Prop::E03 { *w.src.pick(&[0, 20, 60]) } else { 0 };
                for _ in 0..n {
                    let item = if prop == Prop::I01 {
                        foreign(w.src, &g)
                    } else if w.src.below(100) < odds {
                        odd(w.src, &g)
                    } else {
                        own(w.src, &g)
                    };
                    w.links[i].items.push_back(item);
                }
            }
        }
        Prop::E04 => {
            let v = ver(w.src);
            let mut g = Gen::draw(w.src, v);
            g.big = false;
            let mut l = Link::new(v, Reader::Eager, MAXLEN);
            l.dead = true;
            w.links.push(l);
            let n = nitems(w.src);
            for _ in 0..n {
                let item = if w.src.chance(1, 2) {
                    if w.src.chance(1, 4) {
                        odd(w.src, &g)
                    } else {
                        own(w.src, &g)
                    }
                } else {
                    let (r, what) = refusal(w.src, &g);
                    Item::Refuse(Box::new(r), what)
                };
                w.links[0].items.push_back(item);
            }
        }
        Prop::H04 => {
            let v = ver(w.src);
            let g = Gen::draw(w.src, v);
            let hops = w.src.range(1, 3) as usize;
            for i in 0..=hops {
                let r = reader(w.src);
                let mut l = Link::new(v, r, MAXLEN);
                l.forward = if i < hops { Some(i + 1) } else { None };
                w.links.push(l);
            }
            let n = nitems(w.src);
            let bad = *w.src.pick(&[70, 40, 100]);
            mixed(w, 0, &g, n, bad, 0);
        }
        Prop::V01 => {
            let links = w.src.range(1, 4) as usize;
            for i in 0..links {
                let v = if w.src.chance(1, 3) { Ver::V5 } else { Ver::V4 };
                let g = Gen::draw(w.src, v);
                let r = reader(w.src);
                let mut l = Link::new(v, r, MAXLEN);
                l.rver = Ver::V5;
                l.auto = true;
                w.links.push(l);
                let mut k = g.connect(w.src, if v == Ver::V4 { 4 } else { 5 });
                let raw = w.src.chance(1, 2);
                if raw && v == Ver::V4 && w.src.chance(1, 12) {
                    // the broker has to see this to answer it with code 2
                    k.client_id.clear();
                    k.clean = false;
                }
                let c = Pkt::Connect(Box::new(k));
                let item = if raw {
                    let o = opts(w.src);
                    Item::Raw(rc::encode(v, &c, o), Some(c.norm()))
                } else {
                    Item::Real(c.norm(), flavour(w.src))
                };
                w.links[i].items.push_back(item);
                let n = w.src.below(6);
                for _ in 0..n {
                    let item = foreign(w.src, &g);
                    w.links[i].items.push_back(item);
                }
            }
        }
        Prop::Q01 | Prop::R01 | Prop::R02 | Prop::R03 | Prop::H05 | Prop::C02 => unreachable!(),
    }
}

/// V01: a CONNECT built for 3.1.1 out of the MQTT 5 types
pub fn v01_built(w: &mut World) -> Result<(), Viol> {
    let mut g = Gen::draw(w.src, Ver::V5);
    g.ver = Ver::V5;
    let mut c = g.connect(w.src, 5);
    c.level = 4;
    if c.user.is_empty() {
        c.pass.clear();
    }
    let keep_props = w.src.chance(1, 3);
    if !keep_props {
        c.props.clear();
        if let Some(x) = &mut c.will {
            x.props.clear();
        }
    }
    let f = flavour(w.src);
    let p = Pkt::Connect(Box::new(c.clone())).norm();
    let r = real::to_real(Ver::V5, &p, f);
    c.props.clear();
    if let Some(x) = &mut c.will {
        x.props.clear();
    }
    let want = Pkt::Connect(Box::new(c)).norm();
    w.note(|| format!("built for 3.1.1 from MQTT 5 types: {:?}", p));
    w.layout4(&r, &want)
}

/// a frame header announcing `len`, with an honest body if that is cheap
fn announce(src: &mut Src, len: usize) -> Item {
    let first = *src.pick(&[0x30u8, 0x10, 0x20, 0x40, 0x82, 0x90, 0xA2, 0xC0, 0xE0, 0x32, 0x3d]);
    let mut v = vec![first];
    rc::vbi(&mut v, len as u64);
    if src.chance(1, 4) {
        // overlong encodings announce the same length
        let more = src.range(1, 3) as usize;
        for _ in 0..more {
            if v.len() < 5 {
                let l = v.len();
                v[l - 1] |= 0x80;
                v.push(0);
            }
        }
    }
    let have = match src.weighted(&[3, 2, 1]) {
        0 => len.min(70_000),
        1 => src.below(len.min(500) as u64 + 1) as usize,
        _ => 0,
    };
    let body = gen::bin(src, have);
    v.extend_from_slice(&body);
    Item::Raw(v, None)
}

// ------------------------------------------------------------ unsendable packets

fn zero_pkid(src: &mut Src, g: &Gen) -> (Real, String) {
    let mut p = g.packet_of(src, 3);
    if let Pkt::Publish(x) = &mut p {
        x.qos = 1 + src.below(2) as u8;
        x.pkid = 0;
        if src.chance(1, 3) {
            // as the constructors leave it: nobody has chosen a packet id yet
            use mqttbytes::{v4, v5};
            let qos = if x.qos == 1 { mqttbytes::QoS::AtLeastOnce } else { mqttbytes::QoS::ExactlyOnce };
            let from = src.chance(1, 2);
            let (t, b) = (x.topic.clone(), x.payload.clone());
            let r = match (g.ver, from) {
                (Ver::V4, true) => Real::V4(v4::Packet::Publish(v4::Publish::from_bytes(t, qos, b))),
                (Ver::V4, false) => Real::V4(v4::Packet::Publish(v4::Publish::new(t, qos, b.to_vec()))),
                (Ver::V5, true) => Real::V5(v5::Packet::Publish(v5::Publish::from_bytes(t, qos, b))),
                (Ver::V5, false) => Real::V5(v5::Packet::Publish(v5::Publish::new(t, qos, b.to_vec()))),
            };
            return (r, format!("{:?} publish without a packet id", g.ver));
        }
    }
    let f = flavour(src);
    (real::to_real(g.ver, &p, f), format!("{:?} publish with packet id zero", g.ver))
}

fn big_subid(src: &mut Src, g: &Gen) -> (Real, String) {
    let v = match src.weighted(&[2, 1, 1]) {
        0 => 268_435_456u64,
        1 => *src.pick(&[268_435_457u64, 1 << 29, u32::MAX as u64, 1 << 32, (1 << 32) + 1, (1 << 60) + 5, u64::MAX >> 1]),
        _ => src.range(268_435_456, 1 << 33),
    };
    let kind = if src.chance(1, 2) { 3 } else { 8 };
    let mut p = g.packet_of(src, kind);
    if let Some(props) = p.props_mut() {
        if kind == 8 {
            props.retain(|x| x.0 != 11);
            props.push((11, PVal::Var(v)));
        } else {
            let at = src.n(props.len() + 1);
            props.insert(at, (11, PVal::Var(v)));
        }
    }
    let what = format!("V5 {} with subscription identifier above 268435455", if kind == 3 { "publish" } else { "subscribe" });
    (real::to_real(Ver::V5, &p, Flavour::default()), what)
}

pub fn cheap_refusal(src: &mut Src, g: &Gen) -> (Real, String) {
    if g.ver == Ver::V5 && src.chance(1, 3) {
        big_subid(src, g)
    } else {
        zero_pkid(src, g)
    }
}

pub fn zeros(n: usize) -> Bytes {
    static Z: OnceLock<Bytes> = OnceLock::new();
    let z = Z.get_or_init(|| Bytes::from(vec![0u8; 268_435_456 + 65536]));
    z.slice(0..n)
}
/// untouched zero pages: costs nothing until someone reads it
fn zero_text(n: usize) -> String {
    unsafe { String::from_utf8_unchecked(vec![0u8; n]) }
}

/// a packet whose frame would be longer than 268435455
fn too_long(src: &mut Src, g: &Gen) -> (Real, String) {
    let n = 268_435_456usize;
    let v5 = g.ver == Ver::V5;
    let kinds: &[u8] = if v5 { &[3, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15] } else { &[3, 1, 8, 10] };
    let k = *src.pick(kinds);
    let mut gg = g.clone();
    gg.pad = 0;
    gg.huge = false;
    let p = gg.packet_of(src, if k == 15 { 1 } else { k });
    let mut r = real::to_real(g.ver, &p, Flavour { some_empty: true, ..Flavour::default() });
    let name = format!("{:?} packet type {} with a frame above 268435455 bytes", g.ver, k);
    use mqttbytes::{v4, v5};
    let t = || zero_text(n);
    match &mut r {
        Real::V4(p) => match p {
            v4::Packet::Publish(x) => {
                // just above the limit: 2 + topic + packet id + payload = 268435456 or a little more
                let head = x.topic.len() + 2 + if x.qos == mqttbytes::QoS::AtMostOnce { 0 } else { 2 };
                let extra = *src.pick(&[0usize, 1, 2, 300]);
                x.payload = zeros(n + extra - head.min(n));
            }
            v4::Packet::Connect(x) => x.client_id = t(),
            v4::Packet::Subscribe(x) => x.filters[0].path = t(),
            v4::Packet::Unsubscribe(x) => x.topics[0] = t(),
            _ => {}
        },
        Real::V5(p) => match p {
            v5::Packet::Publish(x) => {
                if src.chance(1, 3) {
                    x.properties.as_mut().unwrap().user_properties.push((t(), String::new()));
                } else {
                    x.properties = None;
                    let head = x.topic.len() + 3 + if x.qos == mqttbytes::QoS::AtMostOnce { 0 } else { 2 };
                    let extra = *src.pick(&[0usize, 1, 2, 300]);
                    x.payload = zeros(n + extra - head.min(n));
                }
            }
            v5::Packet::Connect(x) => {
                if k == 15 {
                    let mut w = v5::LastWill::new("w", "", mqttbytes::QoS::AtMostOnce, false);
                    w.message = zeros(n);
                    x.last_will = Some(w);
                } else {
                    x.properties.as_mut().unwrap().user_properties.push((t(), String::new()));
                }
            }
            v5::Packet::ConnAck(x) => x.properties.as_mut().unwrap().user_properties.push((String::new(), t())),
            v5::Packet::PubAck(x) => x.properties.as_mut().unwrap().reason_string = Some(t()),
            v5::Packet::PubRec(x) => x.properties.as_mut().unwrap().reason_string = Some(t()),
            v5::Packet::PubRel(x) => x.properties.as_mut().unwrap().reason_string = Some(t()),
            v5::Packet::PubComp(x) => x.properties.as_mut().unwrap().user_properties.push((t(), String::new())),
            v5::Packet::Subscribe(x) => {
                if src.chance(1, 2) {
                    x.filters[0].path = t()
                } else {
                    x.properties.as_mut().unwrap().user_properties.push((t(), String::new()))
                }
            }
            v5::Packet::SubAck(x) => x.properties.as_mut().unwrap().reason_string = Some(t()),
            v5::Packet::Unsubscribe(x) => {
                if src.chance(1, 2) {
                    x.filters[0] = t()
                } else {
                    x.properties.as_mut().unwrap().user_properties.push((t(), String::new()))
                }
            }
            v5::Packet::UnsubAck(x) => x.properties.as_mut().unwrap().reason_string = Some(t()),
            v5::Packet::Disconnect(x) => x.properties.as_mut().unwrap().reason_string = Some(t()),
            _ => {}
        },
    }
    (r, name)
}

/// acknowledgement lists of a quarter gigabyte
fn too_many_codes(src: &mut Src, g: &Gen) -> (Real, String) {
    let n = 268_435_456usize;
    use mqttbytes::{v4, v5};
    let name = format!("{:?} acknowledgement list above 268435455 bytes", g.ver);
    let r = if g.ver == Ver::V4 {
        Real::V4(v4::Packet::SubAck(v4::SubAck::new(
            1,
            vec![v4::SubscribeReasonCode::Success(mqttbytes::QoS::AtMostOnce); n],
        )))
    } else if src.chance(1, 2) {
        Real::V5(v5::Packet::SubAck(v5::SubAck::new(1, vec![v5::SubscribeReasonCode::QoS0; n])))
    } else {
        let mut u = v5::UnsubAck::new(1);
        u.reasons = vec![v5::UnsubAckReason::Success; n];
        Real::V5(v5::Packet::UnsubAck(u))
    };
    (r, name)
}

fn long_text(src: &mut Src) -> String {
    let n = *src.pick(&[65536usize, 65537, 65536 + 5, 70000, 131072]);
    "x".repeat(n)
}
fn long_bin(src: &mut Src) -> Bytes {
    Bytes::from(long_text(src).into_bytes())
}

/// one string or binary field above 65535 bytes
fn oversize(src: &mut Src, g: &Gen) -> (Real, String) {
    let mut gg = g.clone();
    gg.pad = 0;
    gg.huge = false;
    let v5 = g.ver == Ver::V5;
    let kinds: &[u8] = if v5 { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14] } else { &[1, 3, 8, 10] };
    let k = *src.pick(kinds);
    let mut p = gg.packet_of(src, k);
    let place = match k {
        1 => Place::Connect,
        2 => Place::ConnAck,
        3 => Place::Publish,
        4..=7 => Place::Ack,
        8 => Place::Subscribe,
        9 | 11 => Place::SubAck,
        10 => Place::Unsubscribe,
        _ => Place::Disconnect,
    };
    let name = ["", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "", "", "DISCONNECT"][k as usize];
    let mut field = String::new();
    let mut direct: Vec<&str> = match k {
        1 => vec!["client id", "will topic", "will message", "user name", "password"],
        3 => vec!["topic"],
        8 | 10 => vec!["filter"],
        _ => vec![],
    };
    let pids: Vec<u8> = if v5 {
        allowed(place).iter().copied().filter(|i| matches!(prop_ty(*i), Some(PTy::Str | PTy::Bin | PTy::Pair))).collect()
    } else {
        vec![]
    };
    if v5 && k == 1 {
        direct.push("will property");
    }
    let c = src.n(direct.len() + pids.len());
    let set_prop = |src: &mut Src, props: &mut Props, id: u8, field: &mut String| {
        props.retain(|x| x.0 != id);
        let v = match prop_ty(id).unwrap() {
            PTy::Str => PVal::Str(long_text(src)),
            PTy::Bin => PVal::Bin(long_bin(src)),
            _ => {
                if src.chance(1, 2) {
                    field.push_str("key of ");
                    PVal::Pair(long_text(src), "v".into())
                } else {
                    field.push_str("value of ");
                    PVal::Pair("k".into(), long_text(src))
                }
            }
        };
        props.push((id, v));
    };
    if c < direct.len() {
        match (&mut p, direct[c]) {
            (Pkt::Connect(x), d) => {
                let w = x.will.get_or_insert(Will { topic: "w".into(), msg: Bytes::new(), qos: 0, retain: false, props: vec![] });
                field = d.into();
                match d {
                    "client id" => x.client_id = long_text(src),
                    "will topic" => w.topic = long_text(src),
                    "will message" => w.msg = long_bin(src),
                    "user name" => x.user = long_text(src),
                    "password" => {
                        if x.user.is_empty() {
                            x.user = "u".into()
                        }
                        x.pass = long_text(src)
                    }
                    _ => {
                        let ids: Vec<u8> = vec![3, 8, 9, 38];
                        let id = *src.pick(&ids);
                        let mut f = String::new();
                        set_prop(src, &mut w.props, id, &mut f);
                        field = format!("{}will property {}", f, id);
                    }
                }
            }
            (Pkt::Publish(x), _) => {
                field = "topic".into();
                x.topic = long_text(src)
            }
            (Pkt::Subscribe { filters, .. }, _) => {
                field = "filter".into();
                let i = src.n(filters.len());
                filters[i].path = long_text(src)
            }
            (Pkt::Unsubscribe { filters, .. }, _) => {
                field = "filter".into();
                let i = src.n(filters.len());
                filters[i] = long_text(src)
            }
            _ => {}
        }
    } else {
        let id = pids[c - direct.len()];
        let mut f = String::new();
        if let Some(props) = p.props_mut() {
            set_prop(src, props, id, &mut f);
        }
        field = format!("{}property {}", f, id);
    }
    (real::to_real(g.ver, &p, Flavour::default()), format!("{:?} {} {} above 65535 bytes", g.ver, name, field))
}

pub fn refusal(src: &mut Src, g: &Gen) -> (Real, String) {
    match src.weighted(&[400, 400, 300, 60, 1]) {
        1 if g.ver == Ver::V5 => big_subid(src, g),
        2 => oversize(src, g),
        3 => too_long(src, g),
        4 if src.chance(1, 8) => too_many_codes(src, g),
        _ => zero_pkid(src, g),
    }
}
