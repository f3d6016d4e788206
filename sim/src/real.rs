//! The seam to the code under test: conversion between model packets and the
//! crate's types, and calls into the crate with panics, allocation and system
//! calls observed.
use crate::alloc;
use crate::model::*;
use crate::seam;
use bytes::{Bytes, BytesMut};
use mqttbytes::{v4, v5, Error, FixedHeader, PacketType, Protocol, QoS};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, PartialEq, Debug)]
pub enum Real {
    V4(v4::Packet),
    V5(v5::Packet),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Pkt(Real),
    Need(usize),
    Err(Error),
    Panic(String),
}
impl Out {
    pub fn short(&self) -> String {
        match self {
            Out::Pkt(r) => format!("packet {:?}", from_real(r)),
            Out::Need(n) => format!("asks for {} more", n),
            Out::Err(e) => format!("error {:?}", e),
            Out::Panic(m) => format!("panic {:?}", m),
        }
    }
}

fn q(n: u8) -> QoS {
    match n {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}

macro_rules! table {
    ($name:ident, $t:ty, $($n:expr => $v:path),+ $(,)?) => {
        fn $name(n: u8) -> $t {
            match n { $($n => $v,)+ _ => panic!("harness: code {} for {}", n, stringify!($t)) }
        }
    };
}
use v5::ConnectReturnCode as C5;
table!(connack5, C5, 0 => C5::Success, 128 => C5::UnspecifiedError, 129 => C5::MalformedPacket, 130 => C5::ProtocolError,
  131 => C5::ImplementationSpecificError, 132 => C5::UnsupportedProtocolVersion, 133 => C5::ClientIdentifierNotValid,
  134 => C5::BadUserNamePassword, 135 => C5::NotAuthorized, 136 => C5::ServerUnavailable, 137 => C5::ServerBusy,
  138 => C5::Banned, 140 => C5::BadAuthenticationMethod, 144 => C5::TopicNameInvalid, 149 => C5::PacketTooLarge,
  151 => C5::QuotaExceeded, 153 => C5::PayloadFormatInvalid, 154 => C5::RetainNotSupported, 155 => C5::QoSNotSupported,
  156 => C5::UseAnotherServer, 157 => C5::ServerMoved, 159 => C5::ConnectionRateExceeded);
use v4::ConnectReturnCode as C4;
table!(connack4, C4, 0 => C4::Success, 1 => C4::RefusedProtocolVersion, 2 => C4::BadClientId, 3 => C4::ServiceUnavailable,
  4 => C4::BadUserNamePassword, 5 => C4::NotAuthorized);
use v5::PubAckReason as PA;
table!(puback5, PA, 0 => PA::Success, 16 => PA::NoMatchingSubscribers, 128 => PA::UnspecifiedError,
  131 => PA::ImplementationSpecificError, 135 => PA::NotAuthorized, 144 => PA::TopicNameInvalid,
  145 => PA::PacketIdentifierInUse, 151 => PA::QuotaExceeded, 153 => PA::PayloadFormatInvalid);
use v5::PubRecReason as PR;
table!(pubrec5, PR, 0 => PR::Success, 16 => PR::NoMatchingSubscribers, 128 => PR::UnspecifiedError,
  131 => PR::ImplementationSpecificError, 135 => PR::NotAuthorized, 144 => PR::TopicNameInvalid,
  145 => PR::PacketIdentifierInUse, 151 => PR::QuotaExceeded, 153 => PR::PayloadFormatInvalid);
table!(pubrel5, v5::PubRelReason, 0 => v5::PubRelReason::Success, 146 => v5::PubRelReason::PacketIdentifierNotFound);
table!(pubcomp5, v5::PubCompReason, 0 => v5::PubCompReason::Success, 146 => v5::PubCompReason::PacketIdentifierNotFound);
use v5::SubscribeReasonCode as S5;
table!(suback5, S5, 0 => S5::QoS0, 1 => S5::QoS1, 2 => S5::QoS2, 128 => S5::Unspecified, 131 => S5::ImplementationSpecific,
  135 => S5::NotAuthorized, 143 => S5::TopicFilterInvalid, 145 => S5::PkidInUse, 151 => S5::QuotaExceeded,
  158 => S5::SharedSubscriptionsNotSupported, 161 => S5::SubscriptionIdNotSupported,
  162 => S5::WildcardSubscriptionsNotSupported);
use v5::UnsubAckReason as U5;
table!(unsuback5, U5, 0 => U5::Success, 0x11 => U5::NoSubscriptionExisted, 0x80 => U5::UnspecifiedError,
  0x83 => U5::ImplementationSpecificError, 0x87 => U5::NotAuthorized, 0x8F => U5::TopicFilterInvalid,
  0x91 => U5::PacketIdentifierInUse);
use v5::DisconnectReasonCode as D5;
table!(disconnect5, D5, 0x00 => D5::NormalDisconnection, 0x04 => D5::DisconnectWithWillMessage,
  0x80 => D5::UnspecifiedError, 0x81 => D5::MalformedPacket, 0x82 => D5::ProtocolError,
  0x83 => D5::ImplementationSpecificError, 0x87 => D5::NotAuthorized, 0x89 => D5::ServerBusy,
  0x8B => D5::ServerShuttingDown, 0x8D => D5::KeepAliveTimeout, 0x8E => D5::SessionTakenOver,
  0x8F => D5::TopicFilterInvalid, 0x90 => D5::TopicNameInvalid, 0x93 => D5::ReceiveMaximumExceeded,
  0x94 => D5::TopicAliasInvalid, 0x95 => D5::PacketTooLarge, 0x96 => D5::MessageRateTooHigh,
  0x97 => D5::QuotaExceeded, 0x98 => D5::AdministrativeAction, 0x99 => D5::PayloadFormatInvalid,
  0x9A => D5::RetainNotSupported, 0x9B => D5::QoSNotSupported, 0x9C => D5::UseAnotherServer,
  0x9D => D5::ServerMoved, 0x9E => D5::SharedSubscriptionNotSupported, 0x9F => D5::ConnectionRateExceeded,
  0xA0 => D5::MaximumConnectTime, 0xA1 => D5::SubscriptionIdentifiersNotSupported,
  0xA2 => D5::WildcardSubscriptionsNotSupported);
fn suback4(n: u8) -> v4::SubscribeReasonCode {
    match n {
        0..=2 => v4::SubscribeReasonCode::Success(q(n)),
        _ => v4::SubscribeReasonCode::Failure,
    }
}

// ---- property views ----
struct PV<'a>(&'a Props);
impl<'a> PV<'a> {
    fn get(&self, id: u8) -> Option<&'a PVal> {
        self.0.iter().find(|p| p.0 == id).map(|p| &p.1)
    }
    fn u8(&self, id: u8) -> Option<u8> {
        self.get(id).map(|v| if let PVal::U8(x) = v { *x } else { panic!("harness: property type") })
    }
    fn u16(&self, id: u8) -> Option<u16> {
        self.get(id).map(|v| if let PVal::U16(x) = v { *x } else { panic!("harness: property type") })
    }
    fn u32(&self, id: u8) -> Option<u32> {
        self.get(id).map(|v| if let PVal::U32(x) = v { *x } else { panic!("harness: property type") })
    }
    fn st(&self, id: u8) -> Option<String> {
        self.get(id).map(|v| if let PVal::Str(x) = v { x.clone() } else { panic!("harness: property type") })
    }
    fn bin(&self, id: u8) -> Option<Bytes> {
        self.get(id).map(|v| if let PVal::Bin(x) = v { x.clone() } else { panic!("harness: property type") })
    }
    fn vars(&self, id: u8) -> Vec<usize> {
        self.0
            .iter()
            .filter(|p| p.0 == id)
            .map(|p| if let PVal::Var(x) = &p.1 { *x as usize } else { panic!("harness: property type") })
            .collect()
    }
    fn pairs(&self) -> Vec<(String, String)> {
        self.0
            .iter()
            .filter(|p| p.0 == 38)
            .map(|p| {
                if let PVal::Pair(a, b) = &p.1 {
                    (a.clone(), b.clone())
                } else {
                    panic!("harness: property type")
                }
            })
            .collect()
    }
}

/// Free choices in how a value is built that must not matter.
#[derive(Clone, Copy, Default)]
pub struct Flavour {
    /// an empty property set is passed as Some(empty) instead of None
    pub some_empty: bool,
    /// use the crate's constructors and setters where they fit
    pub builders: bool,
    /// packet id left in a QoS 0 publish
    pub stray_pkid: u16,
    /// absent credentials passed as Some(Login{"" ,""})
    pub empty_login: bool,
}

pub fn to_real(ver: Ver, p: &Pkt, f: Flavour) -> Real {
    match ver {
        Ver::V4 => Real::V4(to_v4(p, f)),
        Ver::V5 => Real::V5(to_v5(p, f)),
    }
}

fn to_v4(p: &Pkt, f: Flavour) -> v4::Packet {
    match p {
        Pkt::Connect(c) => {
            let will = c.will.as_ref().map(|w| {
                if f.builders {
                    v4::LastWill::new(w.topic.clone(), w.msg.to_vec(), q(w.qos), w.retain)
                } else {
                    v4::LastWill { topic: w.topic.clone(), message: w.msg.clone(), qos: q(w.qos), retain: w.retain }
                }
            });
            let proto = if c.level == 5 { Protocol::V5 } else { Protocol::V4 };
            let has = !c.user.is_empty() || !c.pass.is_empty() || f.empty_login;
            if f.builders {
                let mut x = v4::Connect::new(c.client_id.clone());
                if c.level == 5 {
                    x.protocol = proto;
                }
                x.keep_alive = c.keep_alive;
                if !c.clean {
                    x.clean_session = false;
                }
                if will.is_some() {
                    x.last_will = will;
                }
                if has {
                    x.set_login(c.user.clone(), c.pass.clone());
                }
                v4::Packet::Connect(x)
            } else {
                v4::Packet::Connect(v4::Connect {
                    protocol: proto,
                    keep_alive: c.keep_alive,
                    client_id: c.client_id.clone(),
                    clean_session: c.clean,
                    last_will: will,
                    login: if has {
                        Some(if f.some_empty {
                            v4::Login::new(c.user.clone(), c.pass.clone())
                        } else {
                            v4::Login { username: c.user.clone(), password: c.pass.clone() }
                        })
                    } else {
                        None
                    },
                })
            }
        }
        Pkt::ConnAck { session, code, .. } => v4::Packet::ConnAck(if f.builders {
            v4::ConnAck::new(connack4(*code), *session)
        } else {
            v4::ConnAck { session_present: *session, code: connack4(*code) }
        }),
        Pkt::Publish(p) => {
            let mut x = if f.builders {
                v4::Publish::new(p.topic.clone(), q(p.qos), p.payload.to_vec())
            } else {
                v4::Publish::from_bytes(p.topic.clone(), q(p.qos), p.payload.clone())
            };
            // what the constructors leave alone is left alone
            if p.dup {
                x.dup = true;
            }
            if p.retain {
                x.retain = true;
            }
            let pkid = if p.qos == 0 { f.stray_pkid } else { p.pkid };
            if pkid != 0 {
                x.pkid = pkid;
            }
            v4::Packet::Publish(x)
        }
        Pkt::Ack { kind, pkid, .. } => match kind {
            AckKind::PubAck => v4::Packet::PubAck(v4::PubAck::new(*pkid)),
            AckKind::PubRec => v4::Packet::PubRec(v4::PubRec::new(*pkid)),
            AckKind::PubRel => v4::Packet::PubRel(v4::PubRel::new(*pkid)),
            AckKind::PubComp => v4::Packet::PubComp(v4::PubComp::new(*pkid)),
        },
        Pkt::Subscribe { pkid, filters, .. } => {
            if f.builders && !filters.is_empty() {
                let mut x = if f.some_empty {
                    let fs: Vec<_> =
                        filters.iter().map(|y| v4::SubscribeFilter::new(y.path.clone(), q(y.qos))).collect();
                    v4::Subscribe::new_many(fs).expect("new_many of a non-empty list")
                } else {
                    let mut x = v4::Subscribe::new(filters[0].path.clone(), q(filters[0].qos));
                    for y in &filters[1..] {
                        x.add(y.path.clone(), q(y.qos));
                    }
                    x
                };
                x.pkid = *pkid;
                v4::Packet::Subscribe(x)
            } else {
                v4::Packet::Subscribe(v4::Subscribe {
                    pkid: *pkid,
                    filters: filters
                        .iter()
                        .map(|y| v4::SubscribeFilter { path: y.path.clone(), qos: q(y.qos) })
                        .collect(),
                })
            }
        }
        Pkt::SubAck { pkid, codes, .. } => {
            v4::Packet::SubAck(v4::SubAck::new(*pkid, codes.iter().map(|c| suback4(*c)).collect()))
        }
        Pkt::Unsubscribe { pkid, filters, .. } => {
            if f.builders && !filters.is_empty() {
                let mut x = v4::Unsubscribe::new(filters[0].clone());
                x.topics.extend(filters[1..].iter().cloned());
                x.pkid = *pkid;
                v4::Packet::Unsubscribe(x)
            } else {
                v4::Packet::Unsubscribe(v4::Unsubscribe { pkid: *pkid, topics: filters.clone() })
            }
        }
        Pkt::UnsubAck { pkid, .. } => v4::Packet::UnsubAck(v4::UnsubAck::new(*pkid)),
        Pkt::PingReq => v4::Packet::PingReq,
        Pkt::PingResp => v4::Packet::PingResp,
        Pkt::Disconnect { .. } => v4::Packet::Disconnect,
    }
}

macro_rules! opt_props {
    ($f:expr, $p:expr, $e:expr) => {
        if $p.is_empty() && !$f.some_empty {
            None
        } else {
            Some($e)
        }
    };
}

fn to_v5(p: &Pkt, f: Flavour) -> v5::Packet {
    match p {
        Pkt::Connect(c) => {
            let will = c.will.as_ref().map(|w| {
                let v = PV(&w.props);
                let properties = opt_props!(
                    f,
                    w.props,
                    v5::WillProperties {
                        delay_interval: v.u32(24),
                        payload_format_indicator: v.u8(1),
                        message_expiry_interval: v.u32(2),
                        content_type: v.st(3),
                        response_topic: v.st(8),
                        correlation_data: v.bin(9),
                        user_properties: v.pairs(),
                    }
                );
                if f.builders {
                    let mut x = v5::LastWill::new(w.topic.clone(), w.msg.to_vec(), q(w.qos), w.retain);
                    if properties.is_some() {
                        x.properties = properties;
                    }
                    x
                } else {
                    v5::LastWill {
                        topic: w.topic.clone(),
                        message: w.msg.clone(),
                        qos: q(w.qos),
                        retain: w.retain,
                        properties,
                    }
                }
            });
            let v = PV(&c.props);
            let properties = opt_props!(
                f,
                c.props,
                v5::ConnectProperties {
                    session_expiry_interval: v.u32(17),
                    receive_maximum: v.u16(33),
                    max_packet_size: v.u32(39),
                    topic_alias_max: v.u16(34),
                    request_response_info: v.u8(25),
                    request_problem_info: v.u8(23),
                    user_properties: v.pairs(),
                    authentication_method: v.st(21),
                    authentication_data: v.bin(22),
                }
            );
            let has = !c.user.is_empty() || !c.pass.is_empty() || f.empty_login;
            let proto = if c.level == 4 { Protocol::V4 } else { Protocol::V5 };
            if f.builders {
                let mut x = v5::Connect::new(c.client_id.clone());
                if c.level == 4 {
                    x.protocol = proto;
                }
                x.keep_alive = c.keep_alive;
                if !c.clean {
                    x.clean_session = false;
                }
                if will.is_some() {
                    x.last_will = will;
                }
                if properties.is_some() {
                    x.properties = properties;
                }
                if has {
                    x.set_login(c.user.clone(), c.pass.clone());
                }
                v5::Packet::Connect(x)
            } else {
                v5::Packet::Connect(v5::Connect {
                    protocol: proto,
                    keep_alive: c.keep_alive,
                    client_id: c.client_id.clone(),
                    clean_session: c.clean,
                    last_will: will,
                    login: if has {
                        Some(if f.some_empty {
                            v5::Login::new(c.user.clone(), c.pass.clone())
                        } else {
                            v5::Login { username: c.user.clone(), password: c.pass.clone() }
                        })
                    } else {
                        None
                    },
                    properties,
                })
            }
        }
        Pkt::ConnAck { session, code, props } => {
            let v = PV(props);
            let properties = opt_props!(
                f,
                props,
                v5::ConnAckProperties {
                    session_expiry_interval: v.u32(17),
                    receive_max: v.u16(33),
                    max_qos: v.u8(36),
                    retain_available: v.u8(37),
                    max_packet_size: v.u32(39),
                    assigned_client_identifier: v.st(18),
                    topic_alias_max: v.u16(34),
                    reason_string: v.st(31),
                    user_properties: v.pairs(),
                    wildcard_subscription_available: v.u8(40),
                    subscription_identifiers_available: v.u8(41),
                    shared_subscription_available: v.u8(42),
                    server_keep_alive: v.u16(19),
                    response_information: v.st(26),
                    server_reference: v.st(28),
                    authentication_method: v.st(21),
                    authentication_data: v.bin(22),
                }
            );
            let properties = match properties {
                Some(y) if f.builders => {
                    let mut n = v5::ConnAckProperties::new();
                    macro_rules! set {
                        ($($k:ident)*) => { $(if y.$k.is_some() { n.$k = y.$k; })* };
                    }
                    set!(session_expiry_interval receive_max max_qos retain_available max_packet_size
                        assigned_client_identifier topic_alias_max reason_string wildcard_subscription_available
                        subscription_identifiers_available shared_subscription_available server_keep_alive
                        response_information server_reference authentication_method authentication_data);
                    n.user_properties.extend(y.user_properties);
                    Some(n)
                }
                y => y,
            };
            if f.builders {
                let mut x = v5::ConnAck::new(connack5(*code), *session);
                if properties.is_some() {
                    x.properties = properties;
                }
                v5::Packet::ConnAck(x)
            } else {
                v5::Packet::ConnAck(v5::ConnAck { session_present: *session, code: connack5(*code), properties })
            }
        }
        Pkt::Publish(p) => {
            let v = PV(&p.props);
            let properties = opt_props!(
                f,
                p.props,
                v5::PublishProperties {
                    payload_format_indicator: v.u8(1),
                    message_expiry_interval: v.u32(2),
                    topic_alias: v.u16(35),
                    response_topic: v.st(8),
                    correlation_data: v.bin(9),
                    user_properties: v.pairs(),
                    subscription_identifiers: v.vars(11),
                    content_type: v.st(3),
                }
            );
            let mut x = if f.builders {
                v5::Publish::new(p.topic.clone(), q(p.qos), p.payload.to_vec())
            } else {
                v5::Publish::from_bytes(p.topic.clone(), q(p.qos), p.payload.clone())
            };
            // what the constructors leave alone is left alone
            if p.dup {
                x.dup = true;
            }
            if p.retain {
                x.retain = true;
            }
            let pkid = if p.qos == 0 { f.stray_pkid } else { p.pkid };
            if pkid != 0 {
                x.pkid = pkid;
            }
            if properties.is_some() {
                x.properties = properties;
            }
            v5::Packet::Publish(x)
        }
        Pkt::Ack { kind, pkid, reason, props } => {
            let v = PV(props);
            macro_rules! ack {
                ($t:ident, $pt:ident, $code:expr) => {{
                    let properties =
                        opt_props!(f, props, v5::$pt { reason_string: v.st(31), user_properties: v.pairs() });
                    if f.builders {
                        let mut x = v5::$t::new(*pkid);
                        if *reason != 0 {
                            x.reason = $code;
                        }
                        if properties.is_some() {
                            x.properties = properties;
                        }
                        v5::Packet::$t(x)
                    } else {
                        v5::Packet::$t(v5::$t { pkid: *pkid, reason: $code, properties })
                    }
                }};
            }
            match kind {
                AckKind::PubAck => ack!(PubAck, PubAckProperties, puback5(*reason)),
                AckKind::PubRec => ack!(PubRec, PubRecProperties, pubrec5(*reason)),
                AckKind::PubRel => ack!(PubRel, PubRelProperties, pubrel5(*reason)),
                AckKind::PubComp => ack!(PubComp, PubCompProperties, pubcomp5(*reason)),
            }
        }
        Pkt::Subscribe { pkid, filters, props } => {
            let v = PV(props);
            let properties = opt_props!(
                f,
                props,
                v5::SubscribeProperties { id: v.vars(11).first().copied(), user_properties: v.pairs() }
            );
            let rule = |n: u8| match n {
                0 => v5::RetainForwardRule::OnEverySubscribe,
                1 => v5::RetainForwardRule::OnNewSubscribe,
                _ => v5::RetainForwardRule::Never,
            };
            let mk = |y: &Filter| {
                if f.builders {
                    let mut z = v5::SubscribeFilter::new(y.path.clone(), q(y.qos));
                    if y.nolocal {
                        z.set_nolocal(true);
                    }
                    if y.rap {
                        z.set_preserve_retain(true);
                    }
                    if y.rh != 0 {
                        z.set_retain_forward_rule(rule(y.rh));
                    }
                    z
                } else {
                    v5::SubscribeFilter {
                        path: y.path.clone(),
                        qos: q(y.qos),
                        nolocal: y.nolocal,
                        preserve_retain: y.rap,
                        retain_forward_rule: rule(y.rh),
                    }
                }
            };
            let plain = filters.iter().all(|y| !y.nolocal && !y.rap && y.rh == 0);
            let mut x = if f.builders && plain && !filters.is_empty() {
                let mut x = v5::Subscribe::new(filters[0].path.clone(), q(filters[0].qos));
                for y in &filters[1..] {
                    x.add(y.path.clone(), q(y.qos));
                }
                x
            } else if f.builders {
                v5::Subscribe::new_many(filters.iter().map(mk).collect::<Vec<_>>())
            } else {
                let mut x = v5::Subscribe::empty_subscribe();
                x.filters = filters.iter().map(mk).collect();
                x
            };
            x.pkid = *pkid;
            if properties.is_some() {
                x.properties = properties;
            }
            v5::Packet::Subscribe(x)
        }
        Pkt::SubAck { pkid, codes, props } => {
            let v = PV(props);
            let properties =
                opt_props!(f, props, v5::SubAckProperties { reason_string: v.st(31), user_properties: v.pairs() });
            let mut x = v5::SubAck::new(*pkid, codes.iter().map(|c| suback5(*c)).collect());
            if properties.is_some() {
                x.properties = properties;
            }
            v5::Packet::SubAck(x)
        }
        Pkt::Unsubscribe { pkid, filters, props } => {
            let v = PV(props);
            let properties = opt_props!(f, props, v5::UnsubscribeProperties { user_properties: v.pairs() });
            if f.builders && !filters.is_empty() {
                let mut x = v5::Unsubscribe::new(filters[0].clone());
                x.filters.extend(filters[1..].iter().cloned());
                x.pkid = *pkid;
                if properties.is_some() {
                    x.properties = properties;
                }
                v5::Packet::Unsubscribe(x)
            } else {
                v5::Packet::Unsubscribe(v5::Unsubscribe { pkid: *pkid, filters: filters.clone(), properties })
            }
        }
        Pkt::UnsubAck { pkid, codes, props } => {
            let v = PV(props);
            let properties =
                opt_props!(f, props, v5::UnsubAckProperties { reason_string: v.st(31), user_properties: v.pairs() });
            let mut x = v5::UnsubAck::new(*pkid);
            x.reasons = codes.iter().map(|c| unsuback5(*c)).collect();
            if properties.is_some() {
                x.properties = properties;
            }
            v5::Packet::UnsubAck(x)
        }
        Pkt::PingReq => v5::Packet::PingReq,
        Pkt::PingResp => v5::Packet::PingResp,
        Pkt::Disconnect { reason, props } => {
            let v = PV(props);
            let properties = opt_props!(
                f,
                props,
                v5::DisconnectProperties {
                    session_expiry_interval: v.u32(17),
                    reason_string: v.st(31),
                    user_properties: v.pairs(),
                    server_reference: v.st(28),
                }
            );
            let properties = match properties {
                Some(y) if f.builders => {
                    let mut n = v5::DisconnectProperties::new();
                    if y.session_expiry_interval.is_some() {
                        n.session_expiry_interval = y.session_expiry_interval;
                    }
                    if y.reason_string.is_some() {
                        n.reason_string = y.reason_string;
                    }
                    if y.server_reference.is_some() {
                        n.server_reference = y.server_reference;
                    }
                    n.user_properties.extend(y.user_properties);
                    Some(n)
                }
                y => y,
            };
            if f.builders {
                let mut x = v5::Disconnect::new();
                if *reason != 0 {
                    x.reason_code = disconnect5(*reason);
                }
                if properties.is_some() {
                    x.properties = properties;
                }
                v5::Packet::Disconnect(x)
            } else {
                v5::Packet::Disconnect(v5::Disconnect { reason_code: disconnect5(*reason), properties })
            }
        }
    }
}

// ---- crate -> model (deep copies) ----
struct PB(Props);
impl PB {
    fn u8(&mut self, id: u8, v: Option<u8>) {
        if let Some(x) = v {
            self.0.push((id, PVal::U8(x)))
        }
    }
    fn u16(&mut self, id: u8, v: Option<u16>) {
        if let Some(x) = v {
            self.0.push((id, PVal::U16(x)))
        }
    }
    fn u32(&mut self, id: u8, v: Option<u32>) {
        if let Some(x) = v {
            self.0.push((id, PVal::U32(x)))
        }
    }
    fn st(&mut self, id: u8, v: &Option<String>) {
        if let Some(x) = v {
            self.0.push((id, PVal::Str(x.clone())))
        }
    }
    fn bin(&mut self, id: u8, v: &Option<Bytes>) {
        if let Some(x) = v {
            self.0.push((id, PVal::Bin(Bytes::copy_from_slice(x))))
        }
    }
    fn pairs(&mut self, v: &[(String, String)]) {
        for (a, b) in v {
            self.0.push((38, PVal::Pair(a.clone(), b.clone())))
        }
    }
}
fn two(rs: &Option<String>, up: &[(String, String)]) -> Props {
    let mut b = PB(vec![]);
    b.st(31, rs);
    b.pairs(up);
    b.0
}

pub fn from_real(r: &Real) -> Pkt {
    match r {
        Real::V4(p) => from_v4(p),
        Real::V5(p) => from_v5(p).norm(),
    }
}

fn from_v4(p: &v4::Packet) -> Pkt {
    use v4::Packet as P;
    let ack = |kind, pkid| Pkt::Ack { kind, pkid, reason: 0, props: vec![] };
    match p {
        P::Connect(c) => Pkt::Connect(Box::new(Connect {
            level: if c.protocol == Protocol::V4 { 4 } else { 5 },
            keep_alive: c.keep_alive,
            client_id: c.client_id.clone(),
            clean: c.clean_session,
            will: c.last_will.as_ref().map(|w| Will {
                topic: w.topic.clone(),
                msg: Bytes::copy_from_slice(&w.message),
                qos: w.qos as u8,
                retain: w.retain,
                props: vec![],
            }),
            user: c.login.as_ref().map(|l| l.username.clone()).unwrap_or_default(),
            pass: c.login.as_ref().map(|l| l.password.clone()).unwrap_or_default(),
            props: vec![],
        })),
        P::ConnAck(a) => Pkt::ConnAck { session: a.session_present, code: a.code as u8, props: vec![] },
        P::Publish(p) => Pkt::Publish(Publish {
            dup: p.dup,
            qos: p.qos as u8,
            retain: p.retain,
            topic: p.topic.clone(),
            pkid: p.pkid,
            props: vec![],
            payload: Bytes::copy_from_slice(&p.payload),
        }),
        P::PubAck(a) => ack(AckKind::PubAck, a.pkid),
        P::PubRec(a) => ack(AckKind::PubRec, a.pkid),
        P::PubRel(a) => ack(AckKind::PubRel, a.pkid),
        P::PubComp(a) => ack(AckKind::PubComp, a.pkid),
        P::Subscribe(s) => Pkt::Subscribe {
            pkid: s.pkid,
            filters: s
                .filters
                .iter()
                .map(|f| Filter { path: f.path.clone(), qos: f.qos as u8, nolocal: false, rap: false, rh: 0 })
                .collect(),
            props: vec![],
        },
        P::SubAck(s) => Pkt::SubAck {
            pkid: s.pkid,
            codes: s
                .return_codes
                .iter()
                .map(|c| match c {
                    v4::SubscribeReasonCode::Success(q) => *q as u8,
                    v4::SubscribeReasonCode::Failure => 128,
                })
                .collect(),
            props: vec![],
        },
        P::Unsubscribe(u) => Pkt::Unsubscribe { pkid: u.pkid, filters: u.topics.clone(), props: vec![] },
        P::UnsubAck(u) => Pkt::UnsubAck { pkid: u.pkid, codes: vec![], props: vec![] },
        P::PingReq => Pkt::PingReq,
        P::PingResp => Pkt::PingResp,
        P::Disconnect => Pkt::Disconnect { reason: 0, props: vec![] },
    }
}

fn from_v5(p: &v5::Packet) -> Pkt {
    use v5::Packet as P;
    match p {
        P::Connect(c) => {
            let mut b = PB(vec![]);
            if let Some(p) = &c.properties {
                b.u32(17, p.session_expiry_interval);
                b.u16(33, p.receive_maximum);
                b.u32(39, p.max_packet_size);
                b.u16(34, p.topic_alias_max);
                b.u8(25, p.request_response_info);
                b.u8(23, p.request_problem_info);
                b.pairs(&p.user_properties);
                b.st(21, &p.authentication_method);
                b.bin(22, &p.authentication_data);
            }
            Pkt::Connect(Box::new(Connect {
                level: if c.protocol == Protocol::V4 { 4 } else { 5 },
                keep_alive: c.keep_alive,
                client_id: c.client_id.clone(),
                clean: c.clean_session,
                will: c.last_will.as_ref().map(|w| {
                    let mut b = PB(vec![]);
                    if let Some(p) = &w.properties {
                        b.u32(24, p.delay_interval);
                        b.u8(1, p.payload_format_indicator);
                        b.u32(2, p.message_expiry_interval);
                        b.st(3, &p.content_type);
                        b.st(8, &p.response_topic);
                        b.bin(9, &p.correlation_data);
                        b.pairs(&p.user_properties);
                    }
                    Will {
                        topic: w.topic.clone(),
                        msg: Bytes::copy_from_slice(&w.message),
                        qos: w.qos as u8,
                        retain: w.retain,
                        props: b.0,
                    }
                }),
                user: c.login.as_ref().map(|l| l.username.clone()).unwrap_or_default(),
                pass: c.login.as_ref().map(|l| l.password.clone()).unwrap_or_default(),
                props: b.0,
            }))
        }
        P::ConnAck(a) => {
            let mut b = PB(vec![]);
            if let Some(p) = &a.properties {
                b.u32(17, p.session_expiry_interval);
                b.u16(33, p.receive_max);
                b.u8(36, p.max_qos);
                b.u8(37, p.retain_available);
                b.u32(39, p.max_packet_size);
                b.st(18, &p.assigned_client_identifier);
                b.u16(34, p.topic_alias_max);
                b.st(31, &p.reason_string);
                b.pairs(&p.user_properties);
                b.u8(40, p.wildcard_subscription_available);
                b.u8(41, p.subscription_identifiers_available);
                b.u8(42, p.shared_subscription_available);
                b.u16(19, p.server_keep_alive);
                b.st(26, &p.response_information);
                b.st(28, &p.server_reference);
                b.st(21, &p.authentication_method);
                b.bin(22, &p.authentication_data);
            }
            Pkt::ConnAck { session: a.session_present, code: a.code as u8, props: b.0 }
        }
        P::Publish(p) => {
            let mut b = PB(vec![]);
            if let Some(x) = &p.properties {
                b.u8(1, x.payload_format_indicator);
                b.u32(2, x.message_expiry_interval);
                b.u16(35, x.topic_alias);
                b.st(8, &x.response_topic);
                b.bin(9, &x.correlation_data);
                b.pairs(&x.user_properties);
                for s in &x.subscription_identifiers {
                    b.0.push((11, PVal::Var(*s as u64)));
                }
                b.st(3, &x.content_type);
            }
            Pkt::Publish(Publish {
                dup: p.dup,
                qos: p.qos as u8,
                retain: p.retain,
                topic: p.topic.clone(),
                pkid: p.pkid,
                props: b.0,
                payload: Bytes::copy_from_slice(&p.payload),
            })
        }
        P::PubAck(a) => Pkt::Ack {
            kind: AckKind::PubAck,
            pkid: a.pkid,
            reason: a.reason as u8,
            props: a.properties.as_ref().map(|p| two(&p.reason_string, &p.user_properties)).unwrap_or_default(),
        },
        P::PubRec(a) => Pkt::Ack {
            kind: AckKind::PubRec,
            pkid: a.pkid,
            reason: a.reason as u8,
            props: a.properties.as_ref().map(|p| two(&p.reason_string, &p.user_properties)).unwrap_or_default(),
        },
        P::PubRel(a) => Pkt::Ack {
            kind: AckKind::PubRel,
            pkid: a.pkid,
            reason: a.reason as u8,
            props: a.properties.as_ref().map(|p| two(&p.reason_string, &p.user_properties)).unwrap_or_default(),
        },
        P::PubComp(a) => Pkt::Ack {
            kind: AckKind::PubComp,
            pkid: a.pkid,
            reason: a.reason as u8,
            props: a.properties.as_ref().map(|p| two(&p.reason_string, &p.user_properties)).unwrap_or_default(),
        },
        P::Subscribe(s) => {
            let mut b = PB(vec![]);
            if let Some(p) = &s.properties {
                if let Some(id) = p.id {
                    b.0.push((11, PVal::Var(id as u64)));
                }
                b.pairs(&p.user_properties);
            }
            Pkt::Subscribe {
                pkid: s.pkid,
                filters: s
                    .filters
                    .iter()
                    .map(|f| Filter {
                        path: f.path.clone(),
                        qos: f.qos as u8,
                        nolocal: f.nolocal,
                        rap: f.preserve_retain,
                        rh: match f.retain_forward_rule {
                            v5::RetainForwardRule::OnEverySubscribe => 0,
                            v5::RetainForwardRule::OnNewSubscribe => 1,
                            v5::RetainForwardRule::Never => 2,
                        },
                    })
                    .collect(),
                props: b.0,
            }
        }
        P::SubAck(s) => Pkt::SubAck {
            pkid: s.pkid,
            codes: s.return_codes.iter().map(|c| *c as u8).collect(),
            props: s.properties.as_ref().map(|p| two(&p.reason_string, &p.user_properties)).unwrap_or_default(),
        },
        P::Unsubscribe(u) => {
            let mut b = PB(vec![]);
            if let Some(p) = &u.properties {
                b.pairs(&p.user_properties);
            }
            Pkt::Unsubscribe { pkid: u.pkid, filters: u.filters.clone(), props: b.0 }
        }
        P::UnsubAck(u) => Pkt::UnsubAck {
            pkid: u.pkid,
            codes: u.reasons.iter().map(|c| *c as u8).collect(),
            props: u.properties.as_ref().map(|p| two(&p.reason_string, &p.user_properties)).unwrap_or_default(),
        },
        P::PingReq => Pkt::PingReq,
        P::PingResp => Pkt::PingResp,
        P::Disconnect(d) => {
            let mut b = PB(vec![]);
            if let Some(p) = &d.properties {
                b.u32(17, p.session_expiry_interval);
                b.st(31, &p.reason_string);
                b.pairs(&p.user_properties);
                b.st(28, &p.server_reference);
            }
            Pkt::Disconnect { reason: d.reason_code as u8, props: b.0 }
        }
    }
}

// ---- calls into the crate ----

/// Runs crate code: panics become messages, system calls are watched.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    seam::enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    seam::leave();
    r.map_err(|_| seam::take_panic())
}

fn write_real(r: &Real, b: &mut BytesMut) -> Result<usize, Error> {
    match r {
        Real::V4(p) => match p {
            v4::Packet::Connect(x) => x.write(b),
            v4::Packet::ConnAck(x) => x.write(b),
            v4::Packet::Publish(x) => x.write(b),
            v4::Packet::PubAck(x) => x.write(b),
            v4::Packet::PubRec(x) => x.write(b),
            v4::Packet::PubRel(x) => x.write(b),
            v4::Packet::PubComp(x) => x.write(b),
            v4::Packet::Subscribe(x) => x.write(b),
            v4::Packet::SubAck(x) => x.write(b),
            v4::Packet::Unsubscribe(x) => x.write(b),
            v4::Packet::UnsubAck(x) => x.write(b),
            v4::Packet::PingReq => v4::PingReq.write(b),
            v4::Packet::PingResp => v4::PingResp.write(b),
            v4::Packet::Disconnect => v4::Disconnect.write(b),
        },
        Real::V5(p) => match p {
            v5::Packet::Connect(x) => x.write(b),
            v5::Packet::ConnAck(x) => x.write(b),
            v5::Packet::Publish(x) => x.write(b),
            v5::Packet::PubAck(x) => x.write(b),
            v5::Packet::PubRec(x) => x.write(b),
            v5::Packet::PubRel(x) => x.write(b),
            v5::Packet::PubComp(x) => x.write(b),
            v5::Packet::Subscribe(x) => x.write(b),
            v5::Packet::SubAck(x) => x.write(b),
            v5::Packet::Unsubscribe(x) => x.write(b),
            v5::Packet::UnsubAck(x) => x.write(b),
            v5::Packet::PingReq => v5::PingReq.write(b),
            v5::Packet::PingResp => v5::PingResp.write(b),
            v5::Packet::Disconnect(x) => x.write(b),
        },
    }
}

/// Ok(Ok(reported count)), Ok(Err(refusal)), Err(panic message)
pub fn encode(r: &Real, b: &mut BytesMut) -> Result<Result<usize, Error>, String> {
    guarded(|| write_real(r, b))
}

/// what the packet says about its own remaining length, where it says so publicly
pub fn self_len(r: &Real) -> Option<usize> {
    Some(match r {
        Real::V4(p) => match p {
            v4::Packet::Connect(x) => x.len(),
            v4::Packet::Publish(x) => x.len(),
            v4::Packet::SubAck(x) => x.len(),
            v4::Packet::Subscribe(x) => x.len(),
            _ => return None,
        },
        Real::V5(p) => match p {
            v5::Packet::Connect(x) => x.len(),
            v5::Packet::Publish(x) => x.len(),
            v5::Packet::SubAck(x) => x.len(),
            v5::Packet::Subscribe(x) => x.len(),
            v5::Packet::UnsubAck(x) => x.len(),
            v5::Packet::Unsubscribe(x) => x.len(),
            _ => return None,
        },
    })
}

pub struct Decoded {
    pub out: Out,
    /// peak allocation during the call
    pub peak: usize,
}

pub fn decode(ver: Ver, b: &mut BytesMut, max: usize) -> Decoded {
    let m = alloc::begin();
    let r = guarded(|| match ver {
        Ver::V4 => v4::read(b, max).map(Real::V4),
        Ver::V5 => v5::read(b, max).map(Real::V5),
    });
    let peak = alloc::end(m);
    Decoded { out: to_out(r), peak }
}

fn to_out(r: Result<Result<Real, Error>, String>) -> Out {
    match r {
        Ok(Ok(p)) => Out::Pkt(p),
        Ok(Err(Error::InsufficientBytes(n))) => Out::Need(n),
        Ok(Err(e)) => Out::Err(e),
        Err(m) => Out::Panic(m),
    }
}

pub fn check(b: &[u8], max: usize) -> Result<Result<FixedHeader, Error>, String> {
    guarded(|| mqttbytes::check(b.iter(), max))
}

/// the reader of one packet type, on a split-off frame; None where there is none
pub fn read_typed(ver: Ver, t: PacketType, h: FixedHeader, b: Bytes) -> Option<Out> {
    use PacketType as T;
    if matches!(t, T::PingReq | T::PingResp) || (ver == Ver::V4 && t == T::Disconnect) {
        return None;
    }
    let r = guarded(|| match ver {
        Ver::V4 => {
            use v4::Packet as P;
            let p = match t {
                T::Connect => v4::Connect::read(h, b).map(P::Connect),
                T::ConnAck => v4::ConnAck::read(h, b).map(P::ConnAck),
                T::Publish => v4::Publish::read(h, b).map(P::Publish),
                T::PubAck => v4::PubAck::read(h, b).map(P::PubAck),
                T::PubRec => v4::PubRec::read(h, b).map(P::PubRec),
                T::PubRel => v4::PubRel::read(h, b).map(P::PubRel),
                T::PubComp => v4::PubComp::read(h, b).map(P::PubComp),
                T::Subscribe => v4::Subscribe::read(h, b).map(P::Subscribe),
                T::SubAck => v4::SubAck::read(h, b).map(P::SubAck),
                T::Unsubscribe => v4::Unsubscribe::read(h, b).map(P::Unsubscribe),
                _ => v4::UnsubAck::read(h, b).map(P::UnsubAck),
            };
            p.map(Real::V4)
        }
        Ver::V5 => {
            use v5::Packet as P;
            let p = match t {
                T::Connect => v5::Connect::read(h, b).map(P::Connect),
                T::ConnAck => v5::ConnAck::read(h, b).map(P::ConnAck),
                T::Publish => v5::Publish::read(h, b).map(P::Publish),
                T::PubAck => v5::PubAck::read(h, b).map(P::PubAck),
                T::PubRec => v5::PubRec::read(h, b).map(P::PubRec),
                T::PubRel => v5::PubRel::read(h, b).map(P::PubRel),
                T::PubComp => v5::PubComp::read(h, b).map(P::PubComp),
                T::Subscribe => v5::Subscribe::read(h, b).map(P::Subscribe),
                T::SubAck => v5::SubAck::read(h, b).map(P::SubAck),
                T::Unsubscribe => v5::Unsubscribe::read(h, b).map(P::Unsubscribe),
                T::Disconnect => v5::Disconnect::read(h, b).map(P::Disconnect),
                _ => v5::UnsubAck::read(h, b).map(P::UnsubAck),
            };
            p.map(Real::V5)
        }
    });
    Some(to_out(r))
}

/// text fields of an accepted packet, as an application would use them
pub fn texts(p: &Pkt) -> Vec<String> {
    let mut v = vec![];
    match p {
        Pkt::Connect(c) => {
            v.push(c.client_id.clone());
            if let Some(w) = &c.will {
                v.push(w.topic.clone());
            }
        }
        Pkt::Publish(p) => {
            v.push(p.topic.clone());
            for (_, x) in &p.props {
                if let PVal::Str(s) = x {
                    v.push(s.clone())
                }
            }
        }
        Pkt::Subscribe { filters, .. } => v.extend(filters.iter().take(8).map(|f| f.path.clone())),
        Pkt::Unsubscribe { filters, .. } => v.extend(filters.iter().take(8).cloned()),
        _ => {}
    }
    v
}
