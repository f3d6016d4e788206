//! Version-neutral model of MQTT packets, independent of the crate's types.
use bytes::Bytes;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ver {
    V4,
    V5,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum PVal {
    U8(u8),
    U16(u16),
    U32(u32),
    Var(u64),
    Str(String),
    Bin(Bytes),
    Pair(String, String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PTy {
    U8,
    U16,
    U32,
    Var,
    Str,
    Bin,
    Pair,
}

pub type Props = Vec<(u8, PVal)>;

/// Type of every MQTT 5 property, from the standard.
pub fn prop_ty(id: u8) -> Option<PTy> {
    Some(match id {
        1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => PTy::U8,
        19 | 33 | 34 | 35 => PTy::U16,
        2 | 17 | 24 | 39 => PTy::U32,
        11 => PTy::Var,
        3 | 8 | 18 | 21 | 26 | 28 | 31 => PTy::Str,
        9 | 22 => PTy::Bin,
        38 => PTy::Pair,
        _ => return None,
    })
}

/// Where a property set occurs.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    Connect,
    Will,
    ConnAck,
    Publish,
    Ack,
    Subscribe,
    SubAck,
    Unsubscribe,
    Disconnect,
}

pub fn allowed(place: Place) -> &'static [u8] {
    match place {
        Place::Connect => &[17, 33, 39, 34, 25, 23, 38, 21, 22],
        Place::Will => &[24, 1, 2, 3, 8, 9, 38],
        Place::ConnAck => &[17, 33, 36, 37, 39, 18, 34, 31, 38, 40, 41, 42, 19, 26, 28, 21, 22],
        Place::Publish => &[1, 2, 35, 8, 9, 38, 11, 3],
        Place::Ack | Place::SubAck => &[31, 38],
        Place::Subscribe => &[11, 38],
        Place::Unsubscribe => &[38],
        Place::Disconnect => &[17, 31, 38, 28],
    }
}

/// May the property occur more than once there?
pub fn multi(place: Place, id: u8) -> bool {
    id == 38 || (id == 11 && place == Place::Publish)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum AckKind {
    PubAck,
    PubRec,
    PubRel,
    PubComp,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Will {
    pub topic: String,
    pub msg: Bytes,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
}

#[derive(Clone, PartialEq, Eq)]
pub struct Connect {
    pub level: u8,
    pub keep_alive: u16,
    pub client_id: String,
    pub clean: bool,
    pub will: Option<Will>,
    /// empty = absent
    pub user: String,
    pub pass: String,
    pub props: Props,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Publish {
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub topic: String,
    pub pkid: u16,
    pub props: Props,
    pub payload: Bytes,
}

#[derive(Clone, PartialEq, Eq)]
pub struct Filter {
    pub path: String,
    pub qos: u8,
    pub nolocal: bool,
    pub rap: bool,
    pub rh: u8,
}

#[derive(Clone, PartialEq, Eq)]
pub enum Pkt {
    Connect(Box<Connect>),
    ConnAck { session: bool, code: u8, props: Props },
    Publish(Publish),
    Ack { kind: AckKind, pkid: u16, reason: u8, props: Props },
    Subscribe { pkid: u16, filters: Vec<Filter>, props: Props },
    SubAck { pkid: u16, codes: Vec<u8>, props: Props },
    Unsubscribe { pkid: u16, filters: Vec<String>, props: Props },
    UnsubAck { pkid: u16, codes: Vec<u8>, props: Props },
    PingReq,
    PingResp,
    Disconnect { reason: u8, props: Props },
}

impl Pkt {
    pub fn kind(&self) -> u8 {
        match self {
            Pkt::Connect(_) => 1,
            Pkt::ConnAck { .. } => 2,
            Pkt::Publish(_) => 3,
            Pkt::Ack { kind: AckKind::PubAck, .. } => 4,
            Pkt::Ack { kind: AckKind::PubRec, .. } => 5,
            Pkt::Ack { kind: AckKind::PubRel, .. } => 6,
            Pkt::Ack { kind: AckKind::PubComp, .. } => 7,
            Pkt::Subscribe { .. } => 8,
            Pkt::SubAck { .. } => 9,
            Pkt::Unsubscribe { .. } => 10,
            Pkt::UnsubAck { .. } => 11,
            Pkt::PingReq => 12,
            Pkt::PingResp => 13,
            Pkt::Disconnect { .. } => 14,
        }
    }
    pub fn props_mut(&mut self) -> Option<&mut Props> {
        match self {
            Pkt::Connect(c) => Some(&mut c.props),
            Pkt::Publish(p) => Some(&mut p.props),
            Pkt::ConnAck { props, .. }
            | Pkt::Ack { props, .. }
            | Pkt::Subscribe { props, .. }
            | Pkt::SubAck { props, .. }
            | Pkt::Unsubscribe { props, .. }
            | Pkt::UnsubAck { props, .. }
            | Pkt::Disconnect { props, .. } => Some(props),
            Pkt::PingReq | Pkt::PingResp => None,
        }
    }
    /// canonical property order, so that packets compare by meaning
    pub fn norm(mut self) -> Pkt {
        if let Pkt::Connect(c) = &mut self {
            if let Some(w) = &mut c.will {
                w.props.sort_by_key(|p| p.0);
            }
        }
        if let Some(p) = self.props_mut() {
            p.sort_by_key(|p| p.0);
        }
        self
    }
}

pub const CONNACK5: &[u8] = &[
    0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 153, 154, 155, 156, 157, 159,
];
pub const CONNACK4: &[u8] = &[0, 1, 2, 3, 4, 5];
pub const PUBACK5: &[u8] = &[0, 16, 128, 131, 135, 144, 145, 151, 153];
pub const PUBREL5: &[u8] = &[0, 146];
pub const SUBACK5: &[u8] = &[0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162];
pub const SUBACK4: &[u8] = &[0, 1, 2, 128];
pub const UNSUBACK5: &[u8] = &[0, 17, 128, 131, 135, 143, 145];
pub const DISCONNECT5: &[u8] = &[
    0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97,
    0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2,
];
pub fn ack_codes(k: AckKind) -> &'static [u8] {
    match k {
        AckKind::PubAck | AckKind::PubRec => PUBACK5,
        _ => PUBREL5,
    }
}

// ---- printing (short, for traces) ----
pub fn s(x: &str) -> String {
    if x.len() <= 24 {
        format!("{:?}", x)
    } else {
        let cut = x.char_indices().take_while(|(i, _)| *i < 12).last().map(|(i, c)| i + c.len_utf8()).unwrap_or(0);
        format!("{:?}..[{} bytes]", &x[..cut], x.len())
    }
}
pub fn hex(x: &[u8]) -> String {
    let mut o = String::new();
    for b in x.iter().take(48) {
        o.push_str(&format!("{:02x}", b));
    }
    if x.len() > 48 {
        o.push_str(&format!("..[{} bytes]", x.len()));
    }
    o
}
pub fn props_str(p: &Props) -> String {
    let mut o = String::from("{");
    for (i, (id, v)) in p.iter().enumerate() {
        if i > 0 {
            o.push_str(", ");
        }
        if i == 12 {
            o.push_str(&format!("... {} in all", p.len()));
            break;
        }
        o.push_str(&match v {
            PVal::U8(x) => format!("{}:{}u8", id, x),
            PVal::U16(x) => format!("{}:{}u16", id, x),
            PVal::U32(x) => format!("{}:{}u32", id, x),
            PVal::Var(x) => format!("{}:{}var", id, x),
            PVal::Str(x) => format!("{}:{}", id, s(x)),
            PVal::Bin(x) => format!("{}:0x{}", id, hex(x)),
            PVal::Pair(a, b) => format!("{}:({},{})", id, s(a), s(b)),
        });
    }
    o.push('}');
    o
}
impl std::fmt::Debug for Pkt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Pkt::Connect(c) => {
                write!(f, "CONNECT level={} ka={} id={} clean={} ", c.level, c.keep_alive, s(&c.client_id), c.clean)?;
                if let Some(w) = &c.will {
                    write!(
                        f,
                        "will(topic={} msg=0x{} qos={} retain={} props={}) ",
                        s(&w.topic),
                        hex(&w.msg),
                        w.qos,
                        w.retain,
                        props_str(&w.props)
                    )?;
                }
                write!(f, "user={} pass={} props={}", s(&c.user), s(&c.pass), props_str(&c.props))
            }
            Pkt::ConnAck { session, code, props } => {
                write!(f, "CONNACK session={} code={} props={}", session, code, props_str(props))
            }
            Pkt::Publish(p) => write!(
                f,
                "PUBLISH dup={} qos={} retain={} topic={} pkid={} props={} payload=0x{}",
                p.dup,
                p.qos,
                p.retain,
                s(&p.topic),
                p.pkid,
                props_str(&p.props),
                hex(&p.payload)
            ),
            Pkt::Ack { kind, pkid, reason, props } => {
                write!(f, "{:?} pkid={} reason={} props={}", kind, pkid, reason, props_str(props))
            }
            Pkt::Subscribe { pkid, filters, props } => {
                write!(f, "SUBSCRIBE pkid={} n={} [", pkid, filters.len())?;
                for x in filters.iter().take(6) {
                    write!(f, "({} q{} nl={} rap={} rh={})", s(&x.path), x.qos, x.nolocal, x.rap, x.rh)?;
                }
                write!(f, "] props={}", props_str(props))
            }
            Pkt::SubAck { pkid, codes, props } => {
                write!(f, "SUBACK pkid={} codes=0x{} props={}", pkid, hex(codes), props_str(props))
            }
            Pkt::Unsubscribe { pkid, filters, props } => {
                write!(f, "UNSUBSCRIBE pkid={} n={} [", pkid, filters.len())?;
                for x in filters.iter().take(6) {
                    write!(f, "{} ", s(x))?;
                }
                write!(f, "] props={}", props_str(props))
            }
            Pkt::UnsubAck { pkid, codes, props } => {
                write!(f, "UNSUBACK pkid={} codes=0x{} props={}", pkid, hex(codes), props_str(props))
            }
            Pkt::PingReq => write!(f, "PINGREQ"),
            Pkt::PingResp => write!(f, "PINGRESP"),
            Pkt::Disconnect { reason, props } => {
                write!(f, "DISCONNECT reason={} props={}", reason, props_str(props))
            }
        }
    }
}
