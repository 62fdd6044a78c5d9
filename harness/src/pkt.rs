//! Packets as plain data: `P` mirrors the packet record of spec/MqttWire.tla.
//! `build` makes the packet through the packet API, `observe` reads a packet
//! back through its accessors.
use apiformes_packet::prelude::*;
use bytes::Bytes;
use serde_json::Value;
use std::sync::Arc;

/// a virtual byte string: `pre` followed by `n` times `c`
#[derive(Clone, PartialEq, Debug, Default)]
pub struct VB {
    pub pre: Vec<u8>,
    pub n: usize,
    pub c: u8,
}
const RUN: usize = 65;
impl VB {
    pub fn compress(b: &[u8]) -> VB {
        if let Some(&c) = b.last() {
            let n = b.iter().rev().take_while(|x| **x == c).count();
            if n >= RUN {
                return VB { pre: b[..b.len() - n].to_vec(), n, c };
            }
        }
        VB { pre: b.to_vec(), n: 0, c: 0 }
    }
    pub fn expand(&self) -> Vec<u8> {
        let mut v = self.pre.clone();
        v.resize(self.pre.len() + self.n, self.c);
        v
    }
    pub fn json(&self, o: &mut String) {
        o.push_str("{\"pre\":");
        jbytes(&self.pre, o);
        o.push_str(&format!(",\"n\":{},\"c\":{}}}", self.n, self.c));
    }
    pub fn of(v: &Value) -> VB {
        VB {
            pre: bytes_of(&v["pre"]),
            n: v["n"].as_u64().unwrap_or(0) as usize,
            c: v["c"].as_u64().unwrap_or(0) as u8,
        }
    }
}
pub fn jbytes(b: &[u8], o: &mut String) {
    use std::fmt::Write;
    o.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{}", x).unwrap();
    }
    o.push(']');
}
pub fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct W {
    pub ps: Vec<(u8, Vec<u8>)>,
    pub topic: Vec<u8>,
    pub pay: Vec<u8>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct P {
    pub t: u8,
    pub fl: u8,
    pub id: i64,
    pub rc: i64,
    pub ps: Vec<(u8, Vec<u8>)>,
    pub topic: Vec<u8>,
    pub pay: VB,
    pub cid: Vec<u8>,
    pub keep: u16,
    pub cf: u8,
    pub will: Option<W>,
    pub user: Option<Vec<u8>>,
    pub pass: Option<Vec<u8>>,
    pub af: u8,
    pub subs: Vec<(Vec<u8>, u8)>,
    pub rcs: Vec<u8>,
}
impl P {
    pub fn new(t: u8) -> P {
        P {
            t,
            fl: match t {
                6 | 8 | 10 => 2,
                _ => 0,
            },
            id: -1,
            rc: -1,
            ps: vec![],
            topic: vec![],
            pay: VB::default(),
            cid: vec![],
            keep: 0,
            cf: 0,
            will: None,
            user: None,
            pass: None,
            af: 0,
            subs: vec![],
            rcs: vec![],
        }
    }
    /// fields with their default value are left out
    pub fn json(&self, o: &mut String) {
        let d = P::new(0);
        o.push_str(&format!("{{\"t\":{}", self.t));
        if self.fl != d.fl {
            o.push_str(&format!(",\"fl\":{}", self.fl));
        }
        if self.id != d.id {
            o.push_str(&format!(",\"id\":{}", self.id));
        }
        if self.rc != d.rc {
            o.push_str(&format!(",\"rc\":{}", self.rc));
        }
        if self.ps != d.ps {
            o.push_str(",\"ps\":");
            jpairs(&self.ps, o);
        }
        if self.topic != d.topic {
            o.push_str(",\"topic\":");
            jbytes(&self.topic, o);
        }
        if self.pay != d.pay {
            o.push_str(",\"pay\":");
            self.pay.json(o);
        }
        if self.cid != d.cid {
            o.push_str(",\"cid\":");
            jbytes(&self.cid, o);
        }
        if self.keep != d.keep {
            o.push_str(&format!(",\"keep\":{}", self.keep));
        }
        if self.cf != d.cf {
            o.push_str(&format!(",\"cf\":{}", self.cf));
        }
        if let Some(w) = &self.will {
            o.push_str(",\"will\":[");
            jwill(w, o);
            o.push(']');
        }
        if let Some(u) = &self.user {
            o.push_str(",\"user\":[");
            jbytes(u, o);
            o.push(']');
        }
        if let Some(u) = &self.pass {
            o.push_str(",\"pass\":[");
            jbytes(u, o);
            o.push(']');
        }
        if self.af != d.af {
            o.push_str(&format!(",\"af\":{}", self.af));
        }
        if !self.subs.is_empty() {
            o.push_str(",\"subs\":[");
            for (i, (f, x)) in self.subs.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push('[');
                jbytes(f, o);
                o.push_str(&format!(",{}]", x));
            }
            o.push(']');
        }
        if !self.rcs.is_empty() {
            o.push_str(",\"rcs\":");
            jbytes(&self.rcs, o);
        }
        o.push('}');
    }
    pub fn of(v: &Value) -> P {
        let num = |k: &str, d: i64| v[k].as_i64().unwrap_or(d);
        let mut p = P::new(0);
        p.t = num("t", 0) as u8;
        p.fl = num("fl", 0) as u8;
        p.id = num("id", -1);
        p.rc = num("rc", -1);
        p.ps = pairs_of(&v["ps"]);
        p.topic = bytes_of(&v["topic"]);
        p.pay = VB::of(&v["pay"]);
        p.cid = bytes_of(&v["cid"]);
        p.keep = num("keep", 0) as u16;
        p.cf = num("cf", 0) as u8;
        p.will = v["will"].as_array().and_then(|a| a.first()).map(|w| W {
            ps: pairs_of(&w["ps"]),
            topic: bytes_of(&w["topic"]),
            pay: bytes_of(&w["pay"]),
        });
        p.user = v["user"].as_array().and_then(|a| a.first()).map(bytes_of);
        p.pass = v["pass"].as_array().and_then(|a| a.first()).map(bytes_of);
        p.af = num("af", 0) as u8;
        if let Some(a) = v["subs"].as_array() {
            p.subs = a.iter().map(|x| (bytes_of(&x[0]), x[1].as_u64().unwrap() as u8)).collect();
        }
        p.rcs = bytes_of(&v["rcs"]);
        p
    }
}
fn jpairs(ps: &[(u8, Vec<u8>)], o: &mut String) {
    o.push('[');
    for (i, (k, v)) in ps.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("[{},", k));
        jbytes(v, o);
        o.push(']');
    }
    o.push(']');
}
pub fn jwill(w: &W, o: &mut String) {
    o.push_str("{\"ps\":");
    jpairs(&w.ps, o);
    o.push_str(",\"topic\":");
    jbytes(&w.topic, o);
    o.push_str(",\"pay\":");
    jbytes(&w.pay, o);
    o.push('}');
}
fn pairs_of(v: &Value) -> Vec<(u8, Vec<u8>)> {
    match v.as_array() {
        Some(a) => a.iter().map(|x| (x[0].as_u64().unwrap() as u8, bytes_of(&x[1]))).collect(),
        None => vec![],
    }
}

// the names of the reason codes and what MQTT says they are on the wire, written down here
// and not taken from the code
macro_rules! codes {
    ($f:ident, $g:ident, $t:ident, $($x:ident = $n:expr),*) => {
        pub fn $f(b: u8) -> Option<$t> {
            match b {
                $($n => Some($t::$x),)*
                _ => None,
            }
        }
        pub fn $g(c: $t) -> u8 {
            #[allow(unreachable_patterns)]
            match c {
                $($t::$x => $n,)*
                c => c as u8,
            }
        }
    };
}
codes!(connack_rc, connack_code, ConnAckReasonCode,
    Success = 0x0, UnspecifiedError = 0x80, MalformedPacket = 0x81, ProtocolError = 0x82,
    ImplementationSpecificError = 0x83, UnsupportedProtocolVersion = 0x84, ClientIdentifierNotValid = 0x85,
    BadUserNameOrPassword = 0x86, NotAuthorized = 0x87, ServerUnavailable = 0x88, ServerBusy = 0x89, Banned =
    0x8a, BadAuthenicationMethod = 0x8c, TopicNameInvalid = 0x90, PacketTooLarge = 0x95, QuotaExceeded =
    0x97, PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9a, QoSNotSupported = 0x9b, UseAnotherServer =
    0x9c, ServerMoved = 0x9d, ConnectionRateExceeded = 0x9f);
codes!(puback_rc, puback_code, PubAckReasonCode,
    Success = 0x0, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80, ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87, TopicNameInvalid = 0x90, PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99);
codes!(pubrel_rc, pubrel_code, PubRelReasonCode,
    Success = 0x0, PacketIdentifierNotFound = 0x92);
codes!(unsuback_rc, unsuback_code, UnsubAckReasonCode,
    Success = 0x0, NoSubscriptionExisted = 0x11, UnspecifiedError = 0x80, ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87, TopicFilterInvalid = 0x8f, PacketIdentifierInUse = 0x91);
codes!(auth_rc, auth_code, AuthReasonCode,
    Success = 0x0, ContinueAuthentication = 0x18, ReAuthenticate = 0x19);
codes!(disconnect_rc, disconnect_code, DisconnectReasonCode,
    NormalDisconnection = 0x0, DisconnectWithWillMessage = 0x04, UnspecifiedError = 0x80, MalformedPacket =
    0x81, ProtocolError = 0x82, ImplementationSpecificError = 0x83, NotAuthorized = 0x87, ServerBusy = 0x89,
    ServerShuttingDown = 0x8b, BadAuthenicationMethod = 0x8c, KeepAliveTimeout = 0x8d, SessionTakenOver =
    0x8e, TopicFilterInvalid = 0x8f, TopicNameInvalid = 0x90, ReceiveMaximumExceeded = 0x93,
    TopicAliasInvalid = 0x94, PacketTooLarge = 0x95, MessageRateTooHigh = 0x96, QuotaExceeded = 0x97,
    AdministrativeAction = 0x98, PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9a, QoSNotSupported =
    0x9b, UseAnotherServer = 0x9c, ServerMoved = 0x9d, SharedSubscriptionsNotSupported = 0x9e,
    ConnectionRateExceeded = 0x9f, MaximumConnectTime = 0xa0, SubscriptionIdentifiersNotSupported = 0xa1,
    WildcardSubscriptionsNotSupported = 0xa2);
codes!(suback_rc, suback_code, SubAckReasonCode,
    GrantedQoS0 = 0x0, GrantedQoS1 = 0x1, GrantedQoS2 = 0x2, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8f,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, SharedSubscriptionsNotSupported = 0x9e,
    SubscriptionIdentifiersNotSupported = 0xa1, WildcardSubscriptionsNotSupported = 0xa2);

macro_rules! flags {
    ($f:ident, $g:ident, $t:ident, $($x:ident = $n:expr),*) => {
        pub fn $f(v: $t) -> u8 {
            let mut b = 0;
            $(if v.contains($t::$x) { b |= $n; })*
            b
        }
        #[allow(dead_code)]
        pub fn $g(b: u8) -> Option<$t> {
            let mut v = $t::empty();
            let mut all = 0;
            $(all |= $n; if b & $n != 0 { v |= $t::$x; })*
            if b & !all != 0 { None } else { Some(v) }
        }
    };
}
flags!(connect_flags, connect_flags_of, ConnectFlags, CLEAN_START = 2, WILL = 4, WILL_QOS1 = 8, WILL_QOS2 = 16,
    WILL_RETAIN = 32, PASSWORD = 64, USERNAME = 128);
flags!(connack_flags, connack_flags_of, ConnAckFlags, SESSION_PRESENT = 1);
flags!(publish_flags, publish_flags_of, PublishFlags, RETAIN = 1, QOS1 = 2, QOS2 = 4, DUP = 8);
flags!(sub_options, sub_options_of, SubscriptionOptions, QOS1 = 1, QOS2 = 2, NO_LOCAL = 4, RETAIN_AS_PUBLISHED = 8,
    RETAIN_HANDLING1 = 16, RETAIN_HANDLING2 = 32);
fn qos_code(q: QoS) -> u8 {
    match q {
        QoS::QoS0 => 0,
        QoS::QoS1 => 1,
        QoS::QoS2 => 2,
    }
}

pub const PROPS: [(u8, Property, &str); 27] = [
    (1, Property::PayloadFormatIndicator, "byte"),
    (2, Property::MessageExpiryInterval, "u32"),
    (3, Property::ContentType, "str"),
    (8, Property::ResponseTopic, "str"),
    (9, Property::CorrelationData, "bin"),
    (11, Property::SubscriptionIdentifier, "var"),
    (17, Property::SessionExpiryInterval, "u32"),
    (18, Property::AssignedClientIdentifier, "str"),
    (19, Property::ServerKeepAlive, "u16"),
    (21, Property::AuthenticationMethod, "str"),
    (22, Property::AuthenticationData, "bin"),
    (23, Property::RequestProblemInformation, "bool"),
    (24, Property::WillDelayInterval, "u32"),
    (25, Property::RequestResponseInformation, "bool"),
    (26, Property::ResponseInformation, "str"),
    (28, Property::ServerReference, "str"),
    (31, Property::ReasonString, "str"),
    (33, Property::ReceiveMaximum, "u16"),
    (34, Property::TopicAliasMaximum, "u16"),
    (35, Property::TopicAlias, "u16"),
    (36, Property::MaximumQoS, "byte"),
    (37, Property::RetainAvailable, "byte"),
    (38, Property::UserProperty, "str"),
    (39, Property::MaximumPacketSize, "u32"),
    (40, Property::WildcardSubscriptionAvailable, "bool"),
    (41, Property::SubscriptionIdentifierAvailable, "bool"),
    (42, Property::SharedSubscriptionAvailable, "bool"),
];
pub fn prop(k: u8) -> (Property, &'static str) {
    let x = PROPS.iter().find(|x| x.0 == k).unwrap();
    (x.1, x.2)
}
pub fn prop_id(p: &Property) -> u8 {
    PROPS.iter().find(|x| x.1 == *p).unwrap().0
}
pub fn arc(b: &[u8]) -> Arc<str> {
    Arc::from(std::str::from_utf8(b).expect("stimulus is not UTF-8"))
}
type R<T> = Result<T, DataParseError>;
/// a property value of the given type from its bytes as the specification writes them
pub fn value(ty: &str, v: &[u8]) -> R<MqttPropValue> {
    let u32of = |v: &[u8]| u32::from_be_bytes([v[0], v[1], v[2], v[3]]);
    match ty {
        "bool" => Ok(MqttPropValue::new_bool(v[0] != 0)),
        "byte" => Ok(MqttPropValue::new_u8(v[0])),
        "u16" => Ok(MqttPropValue::new_u16(u16::from_be_bytes([v[0], v[1]]))),
        "u32" => Ok(MqttPropValue::new_u32(u32of(v))),
        "var" => MqttPropValue::new_varint(u32of(v)),
        "str" => MqttPropValue::new_string(arc(v)),
        "pair" => MqttPropValue::new_string_pair(arc(v), arc(v)),
        "bin" => MqttPropValue::new_data(Bytes::copy_from_slice(v)),
        _ => panic!("type {}", ty),
    }
}
pub fn value_bytes(k: u8, v: &MqttPropValue) -> Vec<u8> {
    let r = match prop(k).1 {
        "bool" => v.into_bool().map(|b| vec![b as u8]),
        "byte" => v.into_u8().map(|b| vec![b]),
        "u16" => v.into_u16().map(|b| b.to_be_bytes().to_vec()),
        "u32" | "var" => v.into_u32().map(|b| b.to_be_bytes().to_vec()),
        "str" => v.into_str().map(|s| s.as_bytes().to_vec()),
        "bin" => v.into_data().map(|d| d.to_vec()),
        _ => None,
    };
    // not of the type of its property: no specification value looks like this
    r.unwrap_or_else(|| vec![222; 7])
}
fn canon(mut ps: Vec<(u8, Vec<u8>)>) -> Vec<(u8, Vec<u8>)> {
    ps.sort_by_key(|x| x.0);
    ps
}
macro_rules! obs_props {
    ($p:expr) => {
        canon($p.props_iter().map(|(k, v)| (prop_id(k), value_bytes(prop_id(k), v))).collect())
    };
}
macro_rules! get_props {
    ($p:expr) => {
        canon(
            PROPS
                .iter()
                .flat_map(|x| $p.get_prop(x.1).unwrap_or(&[]).iter().map(move |v| (x.0, value_bytes(x.0, v))))
                .collect(),
        )
    };
}
pub fn observe_will(w: &Will) -> W {
    let mut w = w.clone();
    W { ps: obs_props!(w), topic: w.topic().as_bytes().to_vec(), pay: w.payload().to_vec() }
}
/// what the accessors of the packet say
pub fn observe(p: &Packet) -> P {
    let mut o;
    match p {
        Packet::Connect(p) => {
            o = P::new(1);
            o.cf = connect_flags(p.flags());
            o.keep = p.keep_alive();
            o.ps = obs_props!(p);
            o.cid = p.clientid().as_bytes().to_vec();
            o.will = p.will().map(observe_will);
            o.user = p.username().map(|s| s.as_bytes().to_vec());
            o.pass = p.password().map(|s| s.to_vec());
        }
        Packet::ConnAck(p) => {
            o = P::new(2);
            o.af = connack_flags(p.flags());
            o.rc = connack_code(p.reason_code()) as i64;
            o.ps = obs_props!(p);
        }
        Packet::Publish(p) => {
            o = P::new(3);
            o.fl = publish_flags(p.flags());
            o.topic = p.topic_name().as_bytes().to_vec();
            o.id = p.packet_identifier().map(|i| i as i64).unwrap_or(-1);
            o.ps = obs_props!(p);
            o.pay = VB::compress(&p.payload());
            if qos_code(p.qos()) != (o.fl >> 1) & 3 {
                o.fl |= 128; // the two accessors disagree
            }
        }
        Packet::PubAck(p) => {
            o = P::new(4);
            o.id = p.identifier() as i64;
            o.rc = puback_code(p.reason_code()) as i64;
            o.ps = obs_props!(p);
        }
        Packet::PubRec(p) => {
            o = P::new(5);
            o.id = p.identifier() as i64;
            o.rc = puback_code(p.reason_code()) as i64;
            o.ps = obs_props!(p);
        }
        Packet::PubRel(p) => {
            o = P::new(6);
            o.id = p.identifier() as i64;
            o.rc = pubrel_code(p.reason_code()) as i64;
            o.ps = obs_props!(p);
        }
        Packet::PubComp(p) => {
            o = P::new(7);
            o.id = p.identifier() as i64;
            o.rc = pubrel_code(p.reason_code()) as i64;
            o.ps = obs_props!(p);
        }
        Packet::Subscribe(p) => {
            o = P::new(8);
            o.id = p.packet_identifier() as i64;
            o.ps = obs_props!(p);
            o.subs = p.topics_iter().map(|(t, f)| (t.as_bytes().to_vec(), sub_options(*f))).collect();
        }
        Packet::SubAck(p) => {
            o = P::new(9);
            o.id = p.identifier() as i64;
            o.ps = obs_props!(p);
            o.rcs = p.reason_codes().iter().map(|r| suback_code(*r)).collect();
        }
        Packet::Unsubscribe(p) => {
            o = P::new(10); // there is no accessor for the identifier
            o.ps = obs_props!(p);
            o.subs = p.topics_iter().map(|t| (t.as_bytes().to_vec(), 0)).collect();
        }
        Packet::UnsubAck(p) => {
            o = P::new(11);
            o.id = p.identifier() as i64;
            o.ps = obs_props!(p);
            o.rcs = p.reason_codes().iter().map(|r| unsuback_code(*r)).collect();
        }
        Packet::PingReq(_) => o = P::new(12),
        Packet::PingRes(_) => o = P::new(13),
        Packet::Disconnect(p) => {
            o = P::new(14);
            o.rc = disconnect_code(p.reason_code()) as i64;
            o.ps = obs_props!(p);
        }
        Packet::Auth(p) => {
            o = P::new(15);
            o.rc = auth_code(p.reason_code()) as i64;
            o.ps = obs_props!(p);
        }
    }
    o
}
/// the properties through the other accessor; those of the last will behind them
pub fn observe_get(p: &Packet) -> Vec<(u8, Vec<u8>)> {
    match p {
        Packet::Connect(p) => {
            let mut v: Vec<(u8, Vec<u8>)> = get_props!(p);
            if let Some(w) = p.will() {
                let ps: Vec<(u8, Vec<u8>)> = get_props!(w);
                v.extend(ps);
            }
            v
        }
        Packet::ConnAck(p) => get_props!(p),
        Packet::Publish(p) => get_props!(p),
        Packet::PubAck(p) => get_props!(p),
        Packet::PubRec(p) => get_props!(p),
        Packet::PubRel(p) => get_props!(p),
        Packet::PubComp(p) => get_props!(p),
        Packet::Subscribe(p) => get_props!(p),
        Packet::SubAck(p) => get_props!(p),
        Packet::Unsubscribe(p) => get_props!(p),
        Packet::UnsubAck(p) => get_props!(p),
        Packet::PingReq(_) | Packet::PingRes(_) => vec![],
        Packet::Disconnect(p) => get_props!(p),
        Packet::Auth(p) => get_props!(p),
    }
}
pub fn get_agrees(p: &Packet, o: &P) -> bool {
    let mut v = o.ps.clone();
    if let Some(w) = &o.will {
        v.extend(w.ps.clone());
    }
    v == observe_get(p)
}

macro_rules! add_props {
    ($x:expr, $ps:expr) => {
        for (k, v) in $ps {
            let (key, ty) = prop(*k);
            $x.add_prop(key, value(ty, v)?)?;
        }
    };
}
pub fn build_will(w: &W) -> R<Will> {
    let mut x = Will::new(arc(&w.topic), Bytes::copy_from_slice(&w.pay))?;
    add_props!(x, &w.ps);
    Ok(x)
}
fn qos(q: u8) -> QoS {
    match q & 3 {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        _ => QoS::QoS2,
    }
}
/// the packet, through the packet API
pub fn build(p: &P) -> R<Packet> {
    macro_rules! ack {
        ($t:ident, $f:ident) => {{
            let mut x = $t::new(p.id as u16);
            x.set_reason_code($f(p.rc as u8).expect("reason code"));
            add_props!(x, &p.ps);
            x.build()
        }};
    }
    Ok(match p.t {
        1 => {
            let mut x = Connect::new(arc(&p.cid))?;
            if p.cf & 2 != 0 {
                x.set_clean_start();
            }
            if let Some(w) = &p.will {
                x.set_will(build_will(w)?);
                x.set_will_qos(qos(p.cf >> 3))?;
                if p.cf & 32 != 0 {
                    x.set_will_retain()?;
                }
            }
            if let Some(u) = &p.user {
                x.set_username(arc(u))?;
            }
            if let Some(u) = &p.pass {
                x.set_password(Bytes::copy_from_slice(u))?;
            }
            x.set_keep_alive(p.keep);
            add_props!(x, &p.ps);
            x.build()
        }
        2 => {
            let mut x = ConnAck::new();
            if p.af & 1 != 0 {
                x.set_session_present();
            }
            x.set_reason_code(connack_rc(p.rc as u8).expect("reason code"));
            add_props!(x, &p.ps);
            x.build()
        }
        3 => {
            let mut x = Publish::new(arc(&p.topic), Bytes::from(p.pay.expand()))?;
            if p.fl & 1 != 0 {
                x.set_retain();
            }
            if p.fl & 8 != 0 {
                x.set_dup();
            }
            x.set_qos(qos(p.fl >> 1));
            if p.id >= 0 {
                x.set_packet_identifier(p.id as u16)?;
            }
            add_props!(x, &p.ps);
            x.build()
        }
        4 => ack!(PubAck, puback_rc),
        5 => ack!(PubRec, puback_rc),
        6 => ack!(PubRel, pubrel_rc),
        7 => ack!(PubComp, pubrel_rc),
        8 => {
            let mut x = Subscribe::new(p.id as u16);
            for (t, o) in &p.subs {
                x.add_topic(arc(t), sub_options_of(*o).expect("options"))?;
            }
            add_props!(x, &p.ps);
            x.build()
        }
        9 => {
            let mut x = SubAck::new(p.id as u16);
            for r in &p.rcs {
                x.add_reason_code(suback_rc(*r).expect("reason code"));
            }
            add_props!(x, &p.ps);
            x.build()
        }
        10 => {
            let mut x = Unsubscribe::new(p.id as u16);
            for (t, _) in &p.subs {
                x.add_topic(arc(t))?;
            }
            add_props!(x, &p.ps);
            x.build()
        }
        11 => {
            let mut x = UnsubAck::new(p.id as u16);
            for r in &p.rcs {
                x.add_reason_code(unsuback_rc(*r).expect("reason code"));
            }
            add_props!(x, &p.ps);
            x.build()
        }
        12 => Ping::new().build_req(),
        13 => Ping::new().build_res(),
        14 => {
            let mut x = Disconnect::new(disconnect_rc(p.rc as u8).expect("reason code"));
            add_props!(x, &p.ps);
            x.build()
        }
        15 => {
            let mut x = Auth::new(auth_rc(p.rc as u8).expect("reason code"));
            add_props!(x, &p.ps);
            x.build()
        }
        _ => panic!("type {}", p.t),
    })
}
