//! Runs about one packet of the largest size MQTT can represent (a remaining
//! length of 268435455, or a few bytes less) between two neighbours.
use crate::gen::Gen;
use crate::model::*;
use crate::real::{self, Out, Real};
use crate::refcodec as rc;
use crate::rng::Src;
use crate::scenario::{zeros, RunRes};
use crate::sim::*;
use crate::stats::{St, Stats};
use bytes::{Buf, BytesMut};
use mqttbytes::{v4, v5, QoS};
use std::sync::OnceLock;

fn text(n: usize) -> String {
    static T: OnceLock<String> = OnceLock::new();
    T.get_or_init(|| "x".repeat(65535))[..n].to_string()
}

fn say(o: &Out) -> String {
    match o {
        Out::Pkt(_) => "a packet".into(),
        x => x.short(),
    }
}

/// user properties that take exactly `bytes`
fn pairs(mut bytes: usize) -> Vec<(String, String)> {
    const FULL: usize = 5 + 2 * 65535;
    let mut v = vec![];
    while bytes > 0 {
        let n = if bytes <= FULL { bytes } else { FULL.min(bytes - 5) };
        let k = (n - 5).min(65535);
        v.push((text(k), text(n - 5 - k)));
        bytes -= n;
    }
    v
}
/// texts that take exactly `bytes`, each with a cost of `per` beside its characters
fn texts(mut bytes: usize, per: usize) -> Vec<String> {
    let full = per + 65535;
    let mut v = vec![];
    while bytes > 0 {
        let n = if bytes <= full { bytes } else { full.min(bytes - per - 1) };
        v.push(text(n - per));
        bytes -= n;
    }
    v
}

/// a packet whose remaining length is exactly `n`
fn build(src: &mut Src, v: Ver, n: usize) -> (Real, &'static str) {
    let id = Gen::pkid(src);
    let qos = *src.pick(&[QoS::AtMostOnce, QoS::AtLeastOnce, QoS::ExactlyOnce]);
    let idlen = if qos == QoS::AtMostOnce { 0 } else { 2 };
    let topic = text(*src.pick(&[1usize, 2, 100, 65535]));
    if v == Ver::V4 {
        let (p, what) = match src.weighted(&[3, 2, 1, 1]) {
            0 => {
                let mut p = v4::Publish::from_bytes(topic.clone(), qos, zeros(n - 2 - topic.len() - idlen));
                if idlen > 0 {
                    p.pkid = id;
                }
                (v4::Packet::Publish(p), "PUBLISH")
            }
            1 => {
                let c = v4::SubscribeReasonCode::Success(qos);
                (v4::Packet::SubAck(v4::SubAck::new(id, vec![c; n - 2])), "SUBACK")
            }
            2 => {
                let f = texts(n - 2, 3).into_iter().map(|t| v4::SubscribeFilter::new(t, qos));
                let mut s = v4::Subscribe::new("x", qos);
                s.filters = f.collect();
                s.pkid = id;
                (v4::Packet::Subscribe(s), "SUBSCRIBE")
            }
            _ => {
                let mut u = v4::Unsubscribe::new("x");
                u.topics = texts(n - 2, 2);
                u.pkid = id;
                (v4::Packet::Unsubscribe(u), "UNSUBSCRIBE")
            }
        };
        return (Real::V4(p), what);
    }
    // property sections of this size have a length field of four bytes
    let reason = || Some("x".to_string());
    let (p, what) = match src.weighted(&[3, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => {
            let mut p = v5::Publish::from_bytes(topic.clone(), qos, zeros(n - 2 - topic.len() - idlen - 1));
            if idlen > 0 {
                p.pkid = id;
            }
            p.properties = None;
            (v5::Packet::Publish(p), "PUBLISH")
        }
        1 => (v5::Packet::SubAck(v5::SubAck::new(id, vec![v5::SubscribeReasonCode::QoS1; n - 3])), "SUBACK"),
        2 => {
            let mut u = v5::UnsubAck::new(id);
            u.reasons = vec![v5::UnsubAckReason::Success; n - 3];
            (v5::Packet::UnsubAck(u), "UNSUBACK")
        }
        3 => {
            let mut s = v5::Subscribe::new("x", qos);
            s.filters = texts(n - 3, 3).into_iter().map(|t| v5::SubscribeFilter::new(t, qos)).collect();
            s.pkid = id;
            (v5::Packet::Subscribe(s), "SUBSCRIBE")
        }
        4 => {
            let mut u = v5::Unsubscribe::new("x");
            u.filters = texts(n - 3, 2);
            u.pkid = id;
            (v5::Packet::Unsubscribe(u), "UNSUBSCRIBE")
        }
        5 => {
            let mut c = v5::Connect::new("x");
            // protocol name, level, flags, keep alive, property length, client id
            c.properties = Some(v5::ConnectProperties {
                session_expiry_interval: None,
                receive_maximum: None,
                max_packet_size: None,
                topic_alias_max: None,
                request_response_info: None,
                request_problem_info: None,
                user_properties: pairs(n - 10 - 4 - 3),
                authentication_method: None,
                authentication_data: None,
            });
            (v5::Packet::Connect(c), "CONNECT")
        }
        6 => {
            let mut c = v5::ConnAck::new(v5::ConnectReturnCode::Success, false);
            c.properties = Some(v5::ConnAckProperties { user_properties: pairs(n - 2 - 4), ..v5::ConnAckProperties::new() });
            (v5::Packet::ConnAck(c), "CONNACK")
        }
        7 => {
            let mut a = v5::PubAck::new(id);
            a.properties = Some(v5::PubAckProperties { reason_string: reason(), user_properties: pairs(n - 3 - 4 - 4) });
            (v5::Packet::PubAck(a), "PUBACK")
        }
        8 => {
            let mut a = v5::PubRec::new(id);
            a.properties = Some(v5::PubRecProperties { reason_string: None, user_properties: pairs(n - 3 - 4) });
            (v5::Packet::PubRec(a), "PUBREC")
        }
        9 => {
            let mut a = v5::PubRel::new(id);
            a.properties = Some(v5::PubRelProperties { reason_string: reason(), user_properties: pairs(n - 3 - 4 - 4) });
            (v5::Packet::PubRel(a), "PUBREL")
        }
        10 => {
            let mut a = v5::PubComp::new(id);
            a.properties = Some(v5::PubCompProperties { reason_string: None, user_properties: pairs(n - 3 - 4) });
            (v5::Packet::PubComp(a), "PUBCOMP")
        }
        11 => {
            let mut d = v5::Disconnect::new();
            d.properties = Some(v5::DisconnectProperties {
                session_expiry_interval: None,
                reason_string: reason(),
                user_properties: pairs(n - 1 - 4 - 4),
                server_reference: None,
            });
            (v5::Packet::Disconnect(d), "DISCONNECT")
        }
        12 => {
            let mut s = v5::SubAck::new(id, vec![v5::SubscribeReasonCode::QoS2]);
            s.properties = Some(v5::SubAckProperties { reason_string: None, user_properties: pairs(n - 2 - 4 - 1) });
            (v5::Packet::SubAck(s), "SUBACK")
        }
        _ => {
            let mut s = v5::Unsubscribe::new("x");
            s.properties = Some(v5::UnsubscribeProperties { user_properties: pairs(n - 2 - 4 - 3) });
            s.pkid = id;
            (v5::Packet::Unsubscribe(s), "UNSUBSCRIBE")
        }
    };
    (Real::V5(p), what)
}

pub fn run(prop: Prop, src: &mut Src, st: &mut Stats, trace: bool) -> RunRes {
    let v = match prop {
        Prop::E01 => Ver::V4,
        Prop::E02 => Ver::V5,
        _ if src.chance(1, 3) => Ver::V4,
        _ => Ver::V5,
    };
    let n = MAXLEN - *src.pick(&[0usize, 0, 0, 1, 2, 300]);
    let (r, what) = build(src, v, n);
    let mut t = vec![];
    if trace {
        t.push(format!("{:?} {} with a remaining length of {}", v, what, n));
    }
    let res = judge(prop, src, st, v, n, &r, what, &mut t, trace);
    let mut hash = n as u64;
    for b in what.bytes() {
        hash = hash.wrapping_mul(31).wrapping_add(b as u64);
    }
    RunRes {
        res,
        hash,
        trace: t,
        known: vec![],
        nontrivial: true,
        sample: format!("{:?}: {:?} {} of {} bytes", prop, v, what, n),
    }
}

#[allow(clippy::too_many_arguments)]
fn judge(
    prop: Prop,
    src: &mut Src,
    st: &mut Stats,
    v: Ver,
    n: usize,
    r: &Real,
    what: &str,
    t: &mut Vec<String>,
    trace: bool,
) -> Result<(), Viol> {
    let mut b = BytesMut::new();
    let lead = src.chance(1, 2);
    if lead {
        b.extend_from_slice(&[0xC0, 0]);
    }
    let before = b.len();
    st.inc(St::encodes);
    st.inc(St::giants);
    let res = real::encode(r, &mut b);
    if trace {
        t.push(format!("encode -> {:?}, {} bytes appended", res, b.len() as i64 - before as i64));
    }
    let count = match res {
        Ok(Ok(c)) => c,
        // whether it may be refused is not for E03 to say
        Ok(Err(_)) if prop == Prop::E03 => return Ok(()),
        Ok(Err(e)) => return viol("send failed", format!("{:?} {} with a remaining length of {} was refused with {:?}", v, what, n, e)),
        Err(m) => return viol("send failed", format!("{:?} {} with a remaining length of {}: {}", v, what, n, m)),
    };
    if b.len() < before || (lead && b[..2] != [0xC0, 0]) {
        return viol("queued bytes changed", format!("{:?} {} of {} bytes changed bytes queued before it", v, what, n));
    }
    let mut head = vec![b[before]];
    rc::vbi(&mut head, n as u64);
    if b.len() - before != head.len() + n || b[before..before + head.len()] != head[..] {
        return viol(
            "not one frame",
            format!("{:?} {} with a remaining length of {} was encoded as {} bytes", v, what, n, b.len() - before),
        );
    }
    if prop == Prop::E03 {
        if count != b.len() - before {
            return viol("wrong count", format!("{:?} {} of {} bytes appended, {} reported", v, what, b.len() - before, count));
        }
        if let Ok(Some(l)) = real::guarded(|| real::self_len(r)) {
            if l != n {
                return viol("wrong own length", format!("{:?} {} reports length {} and has {}", v, what, l, n));
            }
        }
        return Ok(());
    }
    // the receiving side: an incomplete look first, then all of it with a neighbour
    b.extend_from_slice(&[0xD0, 0]);
    if lead {
        match real::decode(v, &mut b, n).out {
            Out::Pkt(_) => {}
            x => return viol("lost", format!("packet before a {:?} {} of {} bytes: {}", v, what, n, say(&x))),
        }
    }
    let total = head.len() + n;
    let limit = *src.pick(&[n, MAXLEN, usize::MAX]);
    let cut = *src.pick(&[1usize, 4, 5, 6, n / 2, total - 1]);
    let mut whole = b.split_off(cut);
    let got = real::decode(v, &mut b, limit).out;
    if trace {
        t.push(format!("{} bytes arrive, limit {} -> {}", cut, limit, say(&got)));
    }
    if !matches!(got, Out::Need(_)) || b.len() != cut {
        return viol("early", format!("{:?} {} of {} bytes, {} received: {}", v, what, n, cut, say(&got)));
    }
    if let (Out::Need(m), true) = (&got, prop == Prop::S02 && cut >= head.len()) {
        if *m != total - cut {
            return viol("wrong request", format!("{:?} {} of {} bytes, {} received, {} asked for", v, what, n, cut, m));
        }
    }
    b.unsplit(std::mem::take(&mut whole));
    st.inc(St::frames);
    let got = real::decode(v, &mut b, limit).out;
    match got {
        Out::Pkt(p) => {
            st.inc(St::accepted);
            if prop != Prop::S02 && p != *r {
                return viol("changed", format!("{:?} {} of {} bytes arrived changed", v, what, n));
            }
        }
        x => return viol("lost", format!("{:?} {} of {} bytes: {}", v, what, n, say(&x))),
    }
    if b.chunk() != [0xD0, 0] {
        return viol("neighbour", format!("{} bytes left behind a {:?} {} of {} bytes", b.len(), v, what, n));
    }
    Ok(())
}
