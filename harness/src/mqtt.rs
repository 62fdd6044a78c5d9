//! A small MQTT 5 codec of its own, independent of the one under test.
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn varint(mut n: usize, b: &mut Vec<u8>) {
    loop {
        let d = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            b.push(d | 128);
        } else {
            b.push(d);
            return;
        }
    }
}
fn bin(x: &[u8], b: &mut Vec<u8>) {
    b.extend_from_slice(&(x.len() as u16).to_be_bytes());
    b.extend_from_slice(x);
}
/// how a property is written: 1, 2, 4 bytes, 0 for a varint, 's' for a string, 'b' for binary data
fn kind(k: u64) -> char {
    match k {
        1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => '1',
        19 | 33 | 34 | 35 => '2',
        2 | 17 | 24 | 39 => '4',
        11 => 'v',
        9 | 22 => 'b',
        _ => 's',
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// a string of the script, where ~e9~ stands for the character U+00E9
fn text(v: &Value) -> String {
    let s = v.as_str().unwrap();
    if !s.contains('~') {
        return s.to_string();
    }
    s.split('~')
        .enumerate()
        .map(|(k, x)| {
            if k % 2 == 0 {
                x.to_string()
            } else {
                char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap().to_string()
            }
        })
        .collect()
}
/// and back
pub fn script_text(s: String) -> String {
    if s.is_ascii() {
        return s;
    }
    s.chars().map(|c| if c.is_ascii() { c.to_string() } else { format!("~{:x}~", c as u32) }).collect()
}
fn props(v: &Value, b: &mut Vec<u8>) {
    let mut p = vec![];
    for x in v.as_array().unwrap_or(&vec![]) {
        let k = x[0].as_u64().unwrap();
        p.push(k as u8);
        let n = x[1].as_u64().or_else(|| x[1].as_str().and_then(|s| s.parse().ok())).unwrap_or(0);
        match kind(k) {
            '1' => p.push(n as u8),
            '2' => p.extend_from_slice(&(n as u16).to_be_bytes()),
            '4' => p.extend_from_slice(&(n as u32).to_be_bytes()),
            'v' => varint(n as usize, &mut p),
            'b' => bin(text(&x[1]).as_bytes(), &mut p),
            _ => bin(text(&x[1]).as_bytes(), &mut p),
        }
    }
    varint(p.len(), b);
    b.extend_from_slice(&p);
}
/// the levels of a topic, where @40 stands for forty levels
pub fn path(v: &Value) -> String {
    let level = |x| {
        let s = text(x);
        match s.strip_prefix('@').and_then(|n| n.parse().ok()) {
            Some(n) => vec!["d"; n].join("/"),
            None => s,
        }
    };
    v.as_array().unwrap().iter().map(level).collect::<Vec<_>>().join("/")
}
/// and back
pub fn levels(t: &str) -> Vec<String> {
    let mut out = vec![];
    let mut run = 0;
    for x in t.split('/').map(Some).chain(std::iter::once(None)) {
        if x == Some("d") {
            run += 1;
            continue;
        }
        for n in [9000, 3000, 40, 1] {
            while run >= n {
                run -= n;
                out.push(if n == 1 { "d".to_string() } else { format!("@{}", n) });
            }
        }
        out.extend(x.map(|x| x.to_string()));
    }
    out
}
/// the bytes of a payload: its name, and then a pattern that depends on it
pub fn payload(name: &str, n: usize) -> Vec<u8> {
    let mut b: Vec<u8> = name.bytes().take(n).collect();
    let mut h: u32 = name.bytes().fold(17, |h, x| h.wrapping_mul(31).wrapping_add(x as u32));
    while b.len() < n {
        h ^= h << 13;
        h ^= h >> 17;
        h ^= h << 5;
        b.push((h >> 3) as u8);
    }
    b
}
fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut b = vec![first];
    varint(body.len(), &mut b);
    b.extend_from_slice(body);
    b
}

/// The bytes of a packet of a script
pub fn encode(p: &Value) -> Vec<u8> {
    let mut b = vec![];
    match p["t"].as_str().unwrap() {
        "connect" => {
            bin(b"MQTT", &mut b);
            b.push(5);
            let mut f = 0;
            if p["clean"].as_bool().unwrap_or(true) {
                f |= 2;
            }
            let will = !p["will"].is_null();
            if will {
                f |= 4;
            }
            if !p["user"].is_null() {
                f |= 128;
            }
            if !p["pass"].is_null() {
                f |= 64;
            }
            b.push(f);
            b.extend_from_slice(&(p["keep"].as_u64().unwrap_or(60) as u16).to_be_bytes());
            props(&p["props"], &mut b);
            bin(text(&p["id"]).as_bytes(), &mut b);
            if will {
                b.push(0);
                bin(b"will/topic", &mut b);
                bin(b"gone", &mut b);
            }
            for k in ["user", "pass"] {
                if !p[k].is_null() {
                    bin(text(&p[k]).as_bytes(), &mut b);
                }
            }
            frame(0x10, &b)
        }
        "pub" => {
            let fl = p["fl"].as_u64().unwrap_or(0) as u8;
            bin(path(&p["topic"]).as_bytes(), &mut b);
            if fl & 6 != 0 {
                b.extend_from_slice(&(p["pid"].as_u64().unwrap_or(1) as u16).to_be_bytes());
            }
            props(&p["props"], &mut b);
            b.extend_from_slice(&payload(p["pay"][0].as_str().unwrap(), p["pay"][1].as_u64().unwrap() as usize));
            frame(0x30 | fl, &b)
        }
        "sub" => {
            b.extend_from_slice(&(p["pid"].as_u64().unwrap() as u16).to_be_bytes());
            props(&p["props"], &mut b);
            for f in p["fs"].as_array().unwrap() {
                bin(path(&f[0]).as_bytes(), &mut b);
                b.push(f[1].as_u64().unwrap() as u8);
            }
            frame(0x82, &b)
        }
        // anything else comes as it is
        "raw" => unhex(p["hex"].as_str().unwrap()),
        // a frame of a given type with a body of n bytes
        "blob" => {
            let n = p["n"].as_u64().unwrap() as usize;
            frame(p["first"].as_u64().unwrap() as u8, &vec![0x61; n])
        }
        t => panic!("unknown packet {}", t),
    }
}

/// Reads one packet off the front; None if it is not complete
pub fn decode(b: &[u8], pays: &HashMap<Vec<u8>, (String, usize)>) -> Option<(Value, usize)> {
    if b.len() < 2 {
        return None;
    }
    let (mut n, mut k) = (0usize, 1);
    loop {
        if k >= b.len() {
            return None;
        }
        n |= ((b[k] & 127) as usize) << (7 * (k - 1));
        k += 1;
        if b[k - 1] < 128 {
            break;
        }
        if k > 4 {
            return Some((json!({"t": "?", "hex": hex(&b[..b.len().min(40)])}), b.len()));
        }
    }
    if b.len() < k + n {
        return None;
    }
    let f = &b[k..k + n];
    let v = body(b[0], f, pays).unwrap_or_else(|| json!({"t": "?", "hex": hex(&b[..(k + n).min(200)])}));
    let mut v = v;
    v["size"] = json!(k + n);
    Some((v, k + n))
}
fn body(first: u8, f: &[u8], pays: &HashMap<Vec<u8>, (String, usize)>) -> Option<Value> {
    let mut r = Rd { b: f, k: 0 };
    Some(match first {
        0x20 => {
            let sp = r.u8()?;
            let rc = r.u8()?;
            let ps = r.props()?;
            r.end()?;
            json!({"t": "connack", "sp": sp, "rc": rc, "props": ps})
        }
        x if x >> 4 == 3 => {
            let topic = r.text()?;
            let pid = if x & 6 != 0 { r.u16()? } else { 0 };
            let ps = r.props()?;
            let pay = &r.b[r.k..];
            let pay = match pays.get(pay) {
                Some((s, n)) => json!([s, n]),
                None => json!([format!("?{}", hex(&pay[..pay.len().min(40)])), pay.len()]),
            };
            let topic = levels(&topic);
            json!({"t": "pub", "fl": x & 15, "topic": topic, "pid": pid, "props": ps, "pay": pay})
        }
        0x90 => {
            let pid = r.u16()?;
            let ps = r.props()?;
            json!({"t": "suback", "pid": pid, "props": ps, "rcs": &r.b[r.k..]})
        }
        0xe0 => {
            let rc = if f.is_empty() { 0 } else { r.u8()? };
            let ps = if f.len() < 2 { json!([]) } else { r.props()? };
            r.end()?;
            json!({"t": "disconnect", "rc": rc, "props": ps})
        }
        _ => return None,
    })
}
struct Rd<'a> {
    b: &'a [u8],
    k: usize,
}
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.k + n > self.b.len() {
            return None;
        }
        self.k += n;
        Some(&self.b[self.k - n..self.k])
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn u16(&mut self) -> Option<u16> {
        let x = self.take(2)?;
        Some(u16::from_be_bytes([x[0], x[1]]))
    }
    fn text(&mut self) -> Option<String> {
        let n = self.u16()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).ok().map(script_text)
    }
    fn varint(&mut self) -> Option<usize> {
        let mut n = 0;
        for k in 0..4 {
            let x = self.u8()?;
            n |= ((x & 127) as usize) << (7 * k);
            if x < 128 {
                return Some(n);
            }
        }
        None
    }
    fn end(&self) -> Option<()> {
        if self.k == self.b.len() {
            Some(())
        } else {
            None
        }
    }
    fn props(&mut self) -> Option<Value> {
        let n = self.varint()?;
        let mut r = Rd { b: self.take(n)?, k: 0 };
        let mut v = vec![];
        while r.k < r.b.len() {
            let k = r.u8()? as u64;
            let x = match kind(k) {
                '1' => json!(r.u8()?),
                '2' => json!(r.u16()?),
                '4' => {
                    let x = r.take(4)?;
                    // these may be beyond the numbers of TLC
                    json!(u32::from_be_bytes([x[0], x[1], x[2], x[3]]).to_string())
                }
                'v' => json!(r.varint()?),
                _ => json!(r.text()?),
            };
            v.push(json!([k, x]));
        }
        Some(Value::Array(v))
    }
}
