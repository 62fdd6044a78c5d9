//! Drives the packet builders with sequences of calls and records what the packet looks like after each.
use crate::codec::{rand_packet, rand_value, Out};
use crate::pkt::*;
use crate::rng::Rng;
use apiformes_packet::prelude::*;
use bytes::{Bytes, BytesMut};
use serde_json::Value;
use std::fs::File;
use std::io::{BufRead, BufReader};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
struct Call {
    op: String,
    k: u8,
    n: i64,
    ty: String,
    a: VB,
    b: VB,
    p: P,
}
impl Call {
    fn new(op: &str) -> Call {
        Call { op: op.into(), k: 0, n: 0, ty: String::new(), a: VB::default(), b: VB::default(), p: P::new(0) }
    }
    fn of(v: &Value) -> Call {
        Call {
            op: v["op"].as_str().unwrap().into(),
            k: v["k"].as_u64().unwrap_or(0) as u8,
            n: v["n"].as_i64().unwrap_or(0),
            ty: v["ty"].as_str().unwrap_or("").into(),
            a: VB::of(&v["a"]),
            b: VB::of(&v["b"]),
            p: P::of(&v["p"]),
        }
    }
    fn json(&self, o: &mut String) {
        o.push_str(&format!("{{\"op\":\"{}\"", self.op));
        if self.k != 0 {
            o.push_str(&format!(",\"k\":{}", self.k));
        }
        if self.n != 0 {
            o.push_str(&format!(",\"n\":{}", self.n));
        }
        if !self.ty.is_empty() {
            o.push_str(&format!(",\"ty\":\"{}\"", self.ty));
        }
        if self.a != VB::default() {
            o.push_str(",\"a\":");
            self.a.json(o);
        }
        if self.b != VB::default() {
            o.push_str(",\"b\":");
            self.b.json(o);
        }
        if self.p.t != 0 {
            o.push_str(",\"p\":");
            self.p.json(o);
        }
        o.push('}');
    }
}

struct State {
    p: Option<Packet>,
    w: Option<Will>,
}
fn qos(n: i64) -> QoS {
    match n {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        _ => QoS::QoS2,
    }
}
macro_rules! each {
    ($p:expr, $x:ident => $e:expr) => {
        match $p {
            Packet::Connect($x) => $e,
            Packet::ConnAck($x) => $e,
            Packet::Publish($x) => $e,
            Packet::PubAck($x) => $e,
            Packet::PubRec($x) => $e,
            Packet::PubRel($x) => $e,
            Packet::PubComp($x) => $e,
            Packet::Subscribe($x) => $e,
            Packet::SubAck($x) => $e,
            Packet::Unsubscribe($x) => $e,
            Packet::UnsubAck($x) => $e,
            Packet::Disconnect($x) => $e,
            Packet::Auth($x) => $e,
            _ => panic!("a ping has no properties"),
        }
    };
}
fn bare(p: &P) -> Packet {
    // only what the constructor takes
    match p.t {
        2 => ConnAck::new().build(),
        4 => PubAck::new(p.id as u16).build(),
        5 => PubRec::new(p.id as u16).build(),
        6 => PubRel::new(p.id as u16).build(),
        7 => PubComp::new(p.id as u16).build(),
        8 => Subscribe::new(p.id as u16).build(),
        9 => SubAck::new(p.id as u16).build(),
        10 => Unsubscribe::new(p.id as u16).build(),
        11 => UnsubAck::new(p.id as u16).build(),
        12 => Ping::new().build_req(),
        13 => Ping::new().build_res(),
        14 => Disconnect::new(disconnect_rc(p.rc as u8).unwrap()).build(),
        15 => Auth::new(auth_rc(p.rc as u8).unwrap()).build(),
        t => panic!("new {}", t),
    }
}
impl State {
    /// false: the call was refused
    fn call(&mut self, c: &Call) -> bool {
        let text = || arc(&c.a.expand());
        let data = || Bytes::from(c.a.expand());
        match c.op.as_str() {
            "connect" => return Connect::new(text()).map(|x| self.p = Some(x.build())).is_ok(),
            "publish" => return Publish::new(text(), Bytes::from(c.b.expand())).map(|x| self.p = Some(x.build())).is_ok(),
            "new" => {
                self.p = Some(bare(&c.p));
                return true;
            }
            "parse" => {
                let mut b = BytesMut::new();
                build(&c.p).expect("stimulus").to_bytes(&mut b);
                return Packet::from_bytes(&mut b).map(|x| self.p = Some(x)).is_ok();
            }
            "wnew" => return Will::new(text(), Bytes::from(c.b.expand())).map(|w| self.w = Some(w)).is_ok(),
            "wtopic" => return self.w.as_mut().unwrap().set_topic(text()).is_ok(),
            "wpay" => return self.w.as_mut().unwrap().set_payload(data()).is_ok(),
            "wprop" => {
                return value(&c.ty, &c.a.expand())
                    .and_then(|v| self.w.as_mut().unwrap().add_prop(prop(c.k).0, v))
                    .is_ok()
            }
            _ => (),
        }
        let p = self.p.as_mut().unwrap();
        if c.op == "prop" {
            let v = match value(&c.ty, &c.a.expand()) {
                Ok(v) => v,
                Err(_) => return false,
            };
            return each!(p, x => x.add_prop(prop(c.k).0, v).is_ok());
        }
        match (p, c.op.as_str()) {
            (Packet::Connect(x), "will") => x.set_will(self.w.clone().unwrap()),
            (Packet::Connect(x), "wqos") => return x.set_will_qos(qos(c.n)).is_ok(),
            (Packet::Connect(x), "wretain") => return x.set_will_retain().is_ok(),
            (Packet::Connect(x), "clean") => x.set_clean_start(),
            (Packet::Connect(x), "user") => return x.set_username(text()).is_ok(),
            (Packet::Connect(x), "pass") => return x.set_password(data()).is_ok(),
            (Packet::Connect(x), "keep") => x.set_keep_alive(c.n as u16),
            (Packet::Publish(x), "retain") => x.set_retain(),
            (Packet::Publish(x), "dup") => x.set_dup(),
            (Packet::Publish(x), "qos") => x.set_qos(qos(c.n)),
            (Packet::Publish(x), "id") => return x.set_packet_identifier(c.n as u16).is_ok(),
            (Packet::Publish(x), "pay") => {
                if c.k == 0 {
                    x.set_payload(data())
                } else {
                    x.set_payload_bytes(data())
                }
            }
            (Packet::Subscribe(x), "sub") => {
                // bits that are no options at all cannot be passed
                let o = sub_options_of(c.n as u8);
                return o.map(|o| x.add_topic(text(), o).is_ok()).unwrap_or(false);
            }
            (Packet::Unsubscribe(x), "unsub") => return x.add_topic(text()).is_ok(),
            (Packet::SubAck(x), "rc") => x.add_reason_code(suback_rc(c.n as u8).unwrap()),
            (Packet::UnsubAck(x), "rc") => x.add_reason_code(unsuback_rc(c.n as u8).unwrap()),
            (Packet::ConnAck(x), "sp") => x.set_session_present(),
            (Packet::ConnAck(x), "reason") => x.set_reason_code(connack_rc(c.n as u8).unwrap()),
            (Packet::PubAck(x), "reason") => x.set_reason_code(puback_rc(c.n as u8).unwrap()),
            (Packet::PubRec(x), "reason") => x.set_reason_code(puback_rc(c.n as u8).unwrap()),
            (Packet::PubRel(x), "reason") => x.set_reason_code(pubrel_rc(c.n as u8).unwrap()),
            (Packet::PubComp(x), "reason") => x.set_reason_code(pubrel_rc(c.n as u8).unwrap()),
            (_, "build") => (),
            (_, op) => panic!("stimulus {}", op),
        }
        true
    }
    fn look(&self, out: &mut Out, o: &mut String) {
        let w = self.w.as_ref().map(observe_will);
        let wge = match &self.w {
            None => true,
            Some(w0) => {
                let mut c = Connect::new(arc(b"w")).unwrap();
                c.set_will(w0.clone());
                let c = c.build();
                get_agrees(&c, &observe(&c))
            }
        };
        o.push_str(",\"w\":[");
        if let Some(w) = &w {
            jwill(w, o);
        }
        o.push_str(&format!("],\"wge\":{}", wge));
        match &self.p {
            None => o.push_str(",\"fl\":-1,\"ge\":true,\"g\":"),
            Some(p) => {
                let g = observe(p);
                o.push_str(&format!(",\"fl\":{},\"ge\":{},\"g\":", p.frame_len(), get_agrees(p, &g)));
            }
        }
        self.p.as_ref().map(observe).unwrap_or(P::new(0)).json(o);
        let mut b = BytesMut::new();
        if let Some(p) = &self.p {
            p.to_bytes(&mut b);
        }
        o.push_str(",\"b\":");
        VB::compress(&b).json(o);
        o.push_str(",\"o\":");
        out.outcome(&b, o);
    }
}

fn run_calls(out: &mut Out, kind: &str, calls: &[Call], every: bool) {
    let mut s = String::from("{\"calls\":[");
    for (i, c) in calls.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        c.json(&mut s);
    }
    s.push_str("],\"obs\":[");
    let mut st = State { p: None, w: None };
    let mut dead = false;
    for (i, c) in calls.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let mut o = String::new();
        let r = if dead {
            Err(())
        } else {
            catch_unwind(AssertUnwindSafe(|| {
                let ok = st.call(c);
                o = format!("{{\"s\":\"ok\",\"ok\":{}", ok);
                if every || i + 1 == calls.len() {
                    o.push_str(",\"full\":true");
                    st.look(out, &mut o);
                } else {
                    o.push_str(",\"full\":false");
                }
                o.push('}');
            }))
            .map_err(|_| ())
        };
        match r {
            Ok(()) => s.push_str(&o),
            Err(()) => {
                dead = true;
                s.push_str("{\"s\":\"panic\"}");
            }
        }
    }
    s.push_str("]}");
    out.line(kind, &s);
}

fn nasty_text(r: &mut Rng) -> VB {
    let s: &[&str] = &["", "a", "a/b", "é", "+", "#", "a/+/b", "/#", "+/x/#", "a#", "#/a", "a+", "\u{0}", "a\u{1f}", "\u{7f}", "\u{85}", "\u{9f}x", "$x", "\u{10ffff}"];
    match r.below(40) {
        0 | 1 => VB { pre: vec![], n: 65536 + r.below(3), c: 97 },
        2 => VB { pre: vec![43, 47], n: 300, c: 98 },
        3 | 4 => VB { pre: vec![], n: 100 + r.below(60), c: 98 },
        _ => VB { pre: r.pick(s).as_bytes().to_vec(), n: 0, c: 0 },
    }
}
fn nasty_data(r: &mut Rng) -> VB {
    match r.below(40) {
        1 => VB { pre: vec![1], n: 65535, c: 0 },
        2 => VB { pre: vec![], n: 66000, c: 9 },
        _ => VB { pre: (0..r.below(5)).map(|_| r.next() as u8).collect(), n: 0, c: 0 },
    }
}
const TYPES: [&str; 8] = ["bool", "byte", "u16", "u32", "var", "str", "pair", "bin"];
fn rand_prop_call(r: &mut Rng, op: &str) -> Call {
    let mut c = Call::new(op);
    c.k = if r.chance(25) { 38 } else { PROPS[r.below(PROPS.len())].0 };
    c.ty = if r.chance(80) { prop(c.k).1.into() } else { (*r.pick(&TYPES[..])).into() };
    c.a = match c.ty.as_str() {
        "str" | "pair" => nasty_text(r),
        "bin" => nasty_data(r),
        "var" if r.chance(20) => VB { pre: vec![16 + r.below(200) as u8, 0, 0, 0], n: 0, c: 0 },
        "var" => VB { pre: r.pick(&[[0, 0, 0, 1], [0, 0, 0, 127], [0, 0, 0, 128], [0, 0, 63, 255], [0, 0, 64, 0], [0, 31, 255, 255], [0, 32, 0, 0], [15, 255, 255, 255]]).to_vec(), n: 0, c: 0 },
        t => VB { pre: rand_value(r, t), n: 0, c: 0 },
    };
    c
}
fn rand_call(r: &mut Rng, t: u8, w: bool) -> Call {
    if t != 12 && t != 13 && r.chance(35) {
        let op = if t == 1 && w && r.chance(50) { "wprop" } else { "prop" };
        return rand_prop_call(r, op);
    }
    let ops: &[&str] = match t {
        1 if w => &["clean", "keep", "user", "pass", "wnew", "wretain", "wqos", "will", "will", "wtopic", "wpay"],
        1 => &["clean", "keep", "user", "pass", "wnew", "wnew", "wretain", "wqos"],
        2 => &["sp", "reason"],
        3 => &["retain", "dup", "qos", "qos", "id", "pay"],
        4..=7 => &["reason"],
        8 => &["sub"],
        9 | 11 => &["rc"],
        10 => &["unsub"],
        _ => &["build"],
    };
    let mut c = Call::new(r.pick(ops));
    match c.op.clone().as_str() {
        "keep" => c.n = r.below(65536) as i64,
        "id" => c.n = r.below(65536) as i64,
        "user" | "wtopic" | "unsub" => c.a = nasty_text(r),
        "sub" => {
            c.a = nasty_text(r);
            c.n = if r.chance(70) { (r.below(3) | r.below(4) << 2 | r.below(3) << 4) as i64 } else { r.below(256) as i64 };
        }
        "wnew" => {
            c.a = nasty_text(r);
            c.b = nasty_data(r);
        }
        "pass" | "wpay" => c.a = nasty_data(r),
        "pay" => {
            c.a = nasty_data(r);
            c.k = r.below(2) as u8;
        }
        "qos" | "wqos" => c.n = r.below(3) as i64,
        "reason" | "rc" => {
            c.n = loop {
                let x = *r.pick(&[0u8, 1, 2, 16, 17, 128, 131, 135, 143, 145, 146, 151, 153, 159, 162]);
                if match t {
                    2 => connack_rc(x).is_some(),
                    4 | 5 => puback_rc(x).is_some(),
                    6 | 7 => pubrel_rc(x).is_some(),
                    9 => suback_rc(x).is_some(),
                    _ => unsuback_rc(x).is_some(),
                } {
                    break x as i64;
                }
            }
        }
        _ => (),
    }
    c
}
fn rand_calls(r: &mut Rng) -> Vec<Call> {
    let mut v = vec![];
    let t = match r.below(10) {
        0..=3 => 1u8,
        4 | 5 => 3,
        _ => 1 + r.below(15) as u8,
    };
    if r.chance(25) {
        let mut c = Call::new("parse");
        c.p = loop {
            let p = rand_packet(r);
            if p.t == t || r.chance(3) {
                break p;
            }
        };
        v.push(c);
    } else if t == 1 || t == 3 {
        let mut c = Call::new(if t == 1 { "connect" } else { "publish" });
        c.a = VB { pre: b"x".to_vec(), n: 0, c: 0 };
        c.b = if t == 3 { nasty_data(r) } else { VB::default() };
        v.push(c);
    } else {
        let mut c = Call::new("new");
        c.p = P::new(t);
        c.p.id = if (4..=11).contains(&t) { r.below(65536) as i64 } else { -1 };
        c.p.rc = if [2, 4, 5, 6, 7, 14, 15].contains(&t) { 0 } else { -1 };
        v.push(c);
    }
    let t = if v[0].op == "parse" { v[0].p.t } else { t };
    let mut w = false;
    for _ in 0..2 + r.below(14) {
        let c = rand_call(r, t, w);
        if c.op == "wnew" && !w {
            // a refused one leaves no will to go on with
            let len = c.a.pre.len() + c.a.n;
            let ok = len <= 65535 && c.b.pre.len() + c.b.n <= 65535 && !String::from_utf8(c.a.expand()).unwrap().chars().any(|x| x.is_control());
            w = ok;
        }
        v.push(c);
    }
    if r.below(200) == 0 && t != 12 && t != 13 {
        // of the greatest length there is; at the end, because it is long from then on
        let ops: &[&str] = match t {
            1 => &["user", "pass", "prop"],
            3 => &["pay", "prop"],
            8 => &["sub"],
            10 => &["unsub"],
            _ => &["prop"],
        };
        let mut c = Call::new(r.pick(ops));
        c.k = if c.op == "prop" { 38 } else { 0 };
        c.ty = "str".into();
        c.a = VB { pre: b"z".to_vec(), n: 65534, c: 97 };
        v.push(c);
    }
    v
}

fn arg<'a>(args: &'a [String], k: &str, d: &'a str) -> &'a str {
    args.iter().position(|a| a == k).map(|i| &args[i + 1][..]).unwrap_or(d)
}
/// builder --calls FILE --out FILE --seed N --random N
pub fn run(args: &[String]) {
    std::panic::set_hook(Box::new(|_| ()));
    let mut rng = Rng(arg(args, "--seed", "1").parse::<u64>().unwrap().wrapping_mul(104729));
    let mut out = Out::new(arg(args, "--out", "builder.ndjson"));
    let f = arg(args, "--calls", "");
    if !f.is_empty() {
        for l in BufReader::new(File::open(f).unwrap()).lines() {
            let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
            let calls: Vec<Call> = v.as_array().unwrap().iter().map(Call::of).collect();
            run_calls(&mut out, &format!("spec-{}", calls.last().unwrap().op), &calls, false);
        }
    }
    for _ in 0..arg(args, "--random", "0").parse::<usize>().unwrap() {
        let calls = rand_calls(&mut rng);
        run_calls(&mut out, "random", &calls, true);
    }
    out.finish();
    println!("{{\"records\":{},\"kinds\":{}}}", out.count, serde_json::to_string(&out.kinds).unwrap());
}
