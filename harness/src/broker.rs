//! Runs scripts of client behaviour against real servers on the loopback interface and records what the clients see.
//!
//! A script has phases. In a phase every connection does its actions, all connections at once; then everything
//! settles: each live client makes a request that is refused without effect (a SUBSCRIBE with QoS 1) and waits for
//! the answer, the ones that acted first, so that everything they asked for has been processed and everything that
//! was sent to anyone has arrived.
use crate::mqtt::{decode, encode, hex, path, payload, script_text};
use crate::rng::Rng;
use apiformes_server_lib::{MqttServer, MqttServerConfig, Permeability};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::net::{Ipv4Addr, SocketAddr};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
use tokio::net::{TcpSocket, TcpStream};
use tokio::sync::Notify;
use tokio::time::{sleep, timeout};

pub const PATTERN: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
pub const PRIVATE: [u8; 32] = [
    205, 100, 157, 80, 236, 140, 109, 150, 91, 254, 27, 10, 200, 89, 193, 158, 49, 238, 24, 134, 137, 225, 220, 169,
    32, 209, 239, 35, 2, 254, 0, 166,
];
pub const PUBLIC: [u8; 32] = [
    180, 132, 40, 246, 52, 36, 9, 93, 224, 18, 51, 123, 188, 226, 131, 145, 196, 93, 24, 112, 227, 133, 8, 199, 229,
    139, 2, 248, 5, 115, 136, 37,
];
/// how long anything may take that is to happen
pub const LIMIT: Duration = Duration::from_secs(10);
static COUNTER: AtomicU32 = AtomicU32::new(0);

pub type Pays = Arc<Mutex<HashMap<Vec<u8>, (String, usize)>>>;

/// what a connection has received so far
#[derive(Default)]
pub struct Inbox {
    pub packets: Vec<Value>,
    /// the answers to the requests that only serve to settle
    probes: HashSet<u64>,
    extra: Vec<u64>,
    /// when the end was seen
    pub closed: Option<Instant>,
    /// and that everything before it has been read
    done: bool,
    taken: usize,
}
pub struct Conn {
    number: u64,
    enc: bool,
    writer: Option<OwnedWriteHalf>,
    crypto: Option<Arc<Mutex<snow::TransportState>>>,
    inbox: Arc<Mutex<Inbox>>,
    news: Arc<Notify>,
    paused: Arc<AtomicBool>,
    resume: Arc<Notify>,
    parked: Arc<AtomicBool>,
    reader: Option<tokio::task::JoinHandle<OwnedReadHalf>>,
    stop: Arc<Notify>,
    opened: Instant,
    /// a handshake or a write that failed
    failed: bool,
    probes: u64,
    rng: Rng,
}

async fn read_forever(
    mut r: OwnedReadHalf,
    crypto: Option<Arc<Mutex<snow::TransportState>>>,
    inbox: Arc<Mutex<Inbox>>,
    news: Arc<Notify>,
    paused: Arc<AtomicBool>,
    resume: Arc<Notify>,
    parked: Arc<AtomicBool>,
    stop: Arc<Notify>,
    pays: Pays,
) -> OwnedReadHalf {
    let mut raw: Vec<u8> = vec![];
    let mut plain: Vec<u8> = vec![];
    let mut buf = vec![0u8; 65536];
    loop {
        while paused.load(Ordering::SeqCst) {
            parked.store(true, Ordering::SeqCst);
            tokio::select! { _ = resume.notified() => (), _ = stop.notified() => return r }
        }
        parked.store(false, Ordering::SeqCst);
        let n = tokio::select! {
            n = r.read(&mut buf) => n.unwrap_or(0),
            // something has changed
            _ = resume.notified() => continue,
            _ = stop.notified() => return r,
        };
        if n == 0 {
            let mut i = inbox.lock().unwrap();
            if !plain.is_empty() || !raw.is_empty() {
                i.packets.push(json!({"t": "cut", "n": plain.len() + raw.len(), "size": 0}));
            }
            i.closed = Some(Instant::now());
            i.done = true;
            drop(i);
            news.notify_one();
            news.notify_waiters();
            return r;
        }
        match &crypto {
            None => plain.extend_from_slice(&buf[..n]),
            Some(c) => {
                raw.extend_from_slice(&buf[..n]);
                while raw.len() >= 4 {
                    let l = u32::from_be_bytes([raw[0], raw[1], raw[2], raw[3]]) as usize;
                    if raw.len() < 4 + l {
                        break;
                    }
                    let mut out = vec![0; l];
                    let res = c.lock().unwrap().read_message(&raw[4..4 + l], &mut out);
                    match res {
                        Ok(k) => {
                            out.truncate(k);
                            // each message is one packet
                            let (v, m) = decode(&out, &pays.lock().unwrap())
                                .unwrap_or_else(|| (json!({"t": "?", "hex": hex(&out[..k.min(40)]), "size": 0}), k));
                            let mut v = v;
                            if m != k {
                                v = json!({"t": "?", "hex": hex(&out[..k.min(40)]), "size": 0});
                            }
                            take(v, &inbox);
                        }
                        Err(_) => {
                            inbox.lock().unwrap().packets.push(json!({"t": "unencrypted", "size": 0}));
                        }
                    }
                    raw.drain(..4 + l);
                }
            }
        }
        if crypto.is_none() {
            let mut k = 0;
            while let Some((v, n)) = decode(&plain[k..], &pays.lock().unwrap()) {
                take(v, &inbox);
                k += n;
            }
            plain.drain(..k);
        }
        news.notify_one();
        news.notify_waiters();
    }
}
const PROBE: u64 = 50000;
fn take(v: Value, inbox: &Arc<Mutex<Inbox>>) {
    let mut i = inbox.lock().unwrap();
    if v["t"] == "suback" && v["pid"].as_u64().unwrap() >= PROBE {
        let pid = v["pid"].as_u64().unwrap();
        if i.probes.insert(pid) {
            if v["rcs"] == json!([131]) {
                return;
            }
        } else {
            i.extra.push(pid);
        }
    }
    i.packets.push(v);
}

fn framed(b: &[u8]) -> Vec<u8> {
    let mut x = (b.len() as u32).to_be_bytes().to_vec();
    x.extend_from_slice(b);
    x
}

impl Conn {
    pub async fn open(a: &Value, number: u64, server: &Server, seed: u64, pays: Pays) -> Conn {
        let enc = a["enc"].as_bool().unwrap_or(false);
        let opened = Instant::now();
        let mut c = Conn {
            number,
            enc,
            writer: None,
            crypto: None,
            inbox: Default::default(),
            news: Arc::new(Notify::new()),
            paused: Arc::new(AtomicBool::new(false)),
            resume: Arc::new(Notify::new()),
            parked: Arc::new(AtomicBool::new(false)),
            reader: None,
            stop: Arc::new(Notify::new()),
            opened,
            failed: false,
            probes: 0,
            rng: Rng(seed),
        };
        let sock = TcpSocket::new_v4().unwrap();
        if let Some(n) = a["rcvbuf"].as_u64() {
            sock.set_recv_buffer_size(n as u32).unwrap();
        }
        let addr = if enc { server.noise } else { server.plain };
        let s = match timeout(LIMIT, sock.connect(addr)).await {
            Ok(Ok(s)) => s,
            _ => {
                c.failed = true;
                c.inbox.lock().unwrap().closed = Some(Instant::now());
                return c;
            }
        };
        s.set_nodelay(true).unwrap();
        c.start(s, a, pays).await;
        c
    }
    async fn start(&mut self, s: TcpStream, a: &Value, pays: Pays) {
        let (mut r, mut w) = s.into_split();
        if self.enc {
            match timeout(LIMIT, handshake(&mut r, &mut w, a)).await {
                Ok(Ok(Some(t))) => self.crypto = Some(Arc::new(Mutex::new(t))),
                // bytes have been sent that are no handshake: from now on there is nothing but to wait for the end
                Ok(Ok(None)) => (),
                Ok(Err(_)) | Err(_) => self.failed = true,
            }
        }
        self.writer = Some(w);
        self.reader = Some(tokio::spawn(read_forever(
            r,
            self.crypto.clone(),
            self.inbox.clone(),
            self.news.clone(),
            self.paused.clone(),
            self.resume.clone(),
            self.parked.clone(),
            self.stop.clone(),
            pays,
        )));
    }
    pub async fn write(&mut self, b: &[u8], cut: u64) -> bool {
        let w = match &mut self.writer {
            Some(w) => w,
            None => return false,
        };
        let mut k = 0;
        let mut pieces = 0;
        while k < b.len() {
            let n = match cut {
                0 => b.len(),
                // cuts anywhere
                9999 => 1 + self.rng.below(40),
                n => n as usize,
            };
            let e = (k + n).min(b.len());
            match timeout(LIMIT, w.write_all(&b[k..e])).await {
                Ok(Ok(())) => (),
                _ => {
                    self.failed = true;
                    return false;
                }
            }
            k = e;
            pieces += 1;
            if k < b.len() {
                // so that it is a segment of its own
                if pieces % 3 == 0 && pieces < 100 {
                    sleep(Duration::from_millis(1)).await;
                } else {
                    tokio::task::yield_now().await;
                }
            }
        }
        true
    }
    /// the bytes of these packets as they go over the wire
    pub fn wire(&mut self, ps: &[Value]) -> Vec<u8> {
        let mut out = vec![];
        let c = match &self.crypto {
            None => {
                for p in ps {
                    let b = encode(p);
                    if self.enc {
                        out.extend(framed(&b));
                    } else {
                        out.extend(b);
                    }
                }
                return out;
            }
            Some(c) => c.clone(),
        };
        let mut c = c.lock().unwrap();
        let mut seal = |b: &[u8]| {
            let mut m = vec![0; b.len() + 100];
            match c.write_message(b, &mut m) {
                Ok(n) => m.truncate(n),
                // more than a message of Noise can carry: there is no way to encrypt it
                Err(_) => m.truncate(b.len() + 16),
            }
            m
        };
        let mut k = 0;
        while k < ps.len() {
            let p = &ps[k];
            let b = encode(p);
            let at = p["at"].as_u64().unwrap_or(0) as usize;
            match p["nf"].as_str().unwrap_or("") {
                "" => out.extend(framed(&seal(&b))),
                "flip" => {
                    let mut m = seal(&b);
                    let n = m.len();
                    m[at % n] ^= 1 << (at % 8);
                    out.extend(framed(&m));
                }
                "short" => {
                    let mut m = seal(&b);
                    m.truncate(m.len().saturating_sub(1 + at));
                    out.extend(framed(&m));
                }
                "long" => {
                    let mut m = seal(&b);
                    m.push(0);
                    out.extend(framed(&m));
                }
                "replay" => {
                    let m = framed(&seal(&b));
                    out.extend(&m);
                    out.extend(&m);
                }
                // the next packet arrives in front of this one
                "swap" => {
                    let m = framed(&seal(&b));
                    k += 1;
                    let m2 = framed(&seal(&encode(&ps[k])));
                    out.extend(m2);
                    out.extend(m);
                }
                "drop" => {
                    seal(&b);
                }
                "plain" => out.extend(framed(&b)),
                "bare" => out.extend(&b),
                // the next packet is in the same message
                "join" => {
                    k += 1;
                    let mut b = b;
                    b.extend(encode(&ps[k]));
                    out.extend(framed(&seal(&b)));
                }
                "tail" => {
                    let mut b = b;
                    b.extend_from_slice(&[0u8; 8][..1 + at % 8]);
                    out.extend(framed(&seal(&b)));
                }
                "cut" => {
                    let n = b.len().saturating_sub(1 + at);
                    out.extend(framed(&seal(&b[..n])));
                }
                // a packet in two messages
                "split" => {
                    let n = 1 + at % (b.len() - 1);
                    out.extend(framed(&seal(&b[..n])));
                    out.extend(framed(&seal(&b[n..])));
                }
                "empty" => {
                    out.extend(framed(&seal(&[])));
                    out.extend(framed(&seal(&b)));
                }
                f => panic!("unknown fault {}", f),
            }
            k += 1;
        }
        out
    }
    pub async fn wait<F: FnMut(&Inbox) -> bool>(&self, limit: Duration, mut f: F) -> bool {
        let t = Instant::now();
        loop {
            if f(&self.inbox.lock().unwrap()) {
                return true;
            }
            if t.elapsed() > limit {
                return false;
            }
            let _ = timeout(Duration::from_millis(20), self.news.notified()).await;
        }
    }
    /// has the client not closed it?
    pub fn is_open(&self) -> bool {
        self.writer.is_some()
    }
    pub fn packets(&self) -> Vec<Value> {
        self.inbox.lock().unwrap().packets.clone()
    }
    pub fn closed(&self) -> bool {
        self.inbox.lock().unwrap().closed.is_some()
    }
    pub async fn probe(&mut self) -> Option<u64> {
        let pid = PROBE + self.probes % 10000;
        self.probes += 1;
        let p = json!({"t": "sub", "pid": pid, "fs": [[["settle"], 1]]});
        let b = self.wire(&[p]);
        if self.write(&b, 0).await {
            Some(pid)
        } else {
            None
        }
    }
    /// true if the answer came; false if the end came or nothing
    pub async fn probed(&self, pid: Option<u64>) -> bool {
        let pid = match pid {
            Some(p) => p,
            None => return false,
        };
        self.wait(LIMIT, |i| i.probes.contains(&pid) || i.closed.is_some()).await
            && self.inbox.lock().unwrap().probes.contains(&pid)
    }
    pub async fn close(&mut self, how: &str) {
        match how {
            "half" => {
                if let Some(w) = &mut self.writer {
                    let _ = w.shutdown().await;
                }
            }
            _ => {
                self.stop.notify_one();
                let w = self.writer.take();
                if let (Some(r), Some(w)) = (self.reader.take(), w) {
                    if let Ok(r) = r.await {
                        if let Ok(s) = r.reunite(w) {
                            if how == "rst" {
                                let _ = s.set_linger(Some(Duration::from_secs(0)));
                            }
                            drop(s);
                        }
                    }
                }
            }
        }
    }
}

/// the initiator's part of the handshake, with the fault that the script asks for
async fn handshake(
    r: &mut OwnedReadHalf,
    w: &mut OwnedWriteHalf,
    a: &Value,
) -> Result<Option<snow::TransportState>, Box<dyn std::error::Error + Send + Sync>> {
    let fault = a["hs"].as_str().unwrap_or("");
    let at = a["at"].as_u64().unwrap_or(0) as usize;
    let trickle = a["trickle"].as_u64().unwrap_or(0);
    if fault == "none" {
        return Ok(None);
    }
    let b = snow::Builder::new(PATTERN.parse()?);
    let mine = b.generate_keypair()?;
    let mut key = PUBLIC;
    if fault == "wrongkey" {
        key = [7; 32];
        key[at % 32] = 9;
    }
    if fault == "nearkey" {
        key[at % 31] ^= 1 << (at % 8);
    }
    let mut h = snow::Builder::new(PATTERN.parse()?)
        .local_private_key(&mine.private)
        .remote_public_key(&key)
        .build_initiator()?;
    let mut buf = vec![0; 1000];
    let n = h.write_message(&[], &mut buf)?;
    let mut m = buf[..n].to_vec();
    match fault {
        "flip1" => {
            let n = m.len();
            m[at % n] ^= 1 << (at % 8);
        }
        "short1" => m.truncate(n - 1 - at % n),
        "long1" => m.push(0),
        "random1" => m = (0..n).map(|i| (i * 37 + at) as u8).collect(),
        _ => (),
    }
    let send = |b: Vec<u8>| b;
    let out = send(framed(&m));
    if trickle > 0 {
        for x in out {
            w.write_all(&[x]).await?;
            sleep(Duration::from_millis(trickle)).await;
        }
    } else {
        w.write_all(&out).await?;
    }
    if fault == "twice1" {
        w.write_all(&framed(&m)).await?;
    }
    let mut l = [0; 4];
    if r.read_exact(&mut l).await.is_err() {
        return Ok(None);
    }
    let n = u32::from_be_bytes(l) as usize;
    if n > 10000 {
        return Ok(None);
    }
    let mut m = vec![0; n];
    if r.read_exact(&mut m).await.is_err() {
        return Ok(None);
    }
    if h.read_message(&m, &mut buf).is_err() {
        return Ok(None);
    }
    let n = h.write_message(&[], &mut buf)?;
    let mut m = buf[..n].to_vec();
    match fault {
        "flip3" => {
            let n = m.len();
            m[at % n] ^= 1 << (at % 8);
        }
        "short3" => m.truncate(n - 1 - at % n),
        "long3" => m.push(0),
        "no3" => {
            // straight to the transport messages
            return Ok(Some(h_into(h)?));
        }
        "stop3" => return Ok(None),
        _ => (),
    }
    w.write_all(&framed(&m)).await?;
    if fault == "twice3" {
        w.write_all(&framed(&m)).await?;
    }
    Ok(Some(h_into(h)?))
}
fn h_into(h: snow::HandshakeState) -> Result<snow::TransportState, snow::Error> {
    h.into_transport_mode()
}

pub struct Server {
    pub plain: SocketAddr,
    pub noise: SocketAddr,
    srv: Option<MqttServer>,
}
impl Server {
    /// someone else's server
    pub fn at(addr: SocketAddr) -> Server {
        Server { plain: addr, noise: addr, srv: None }
    }
    pub async fn start(cfg: &Value) -> Result<Server, String> {
        for _ in 0..50 {
            let n = COUNTER.fetch_add(1, Ordering::SeqCst);
            let pid = std::process::id();
            let ip = Ipv4Addr::new(127, (1 + pid % 250) as u8, (n / 250 % 250) as u8, (1 + n % 250) as u8);
            let port = 20000 + ((pid / 250 * 2) % 4000) as u16;
            let (plain, noise) = (SocketAddr::from((ip, port)), SocketAddr::from((ip, port + 1)));
            let both = cfg["noise"].as_bool().unwrap_or(true);
            let c = MqttServerConfig {
                mqtt_socketaddr: if cfg["plain"].as_bool().unwrap_or(true) { Some(plain) } else { None },
                keep_alive: cfg["keep"].as_u64().unwrap_or(60) as u16,
                dispatcher_queue_size: cfg["queue"].as_u64().unwrap_or(65536) as usize,
                max_packet_size: cfg["max"].as_u64().unwrap_or(65536) as u32,
                noise_socketaddr: if both { Some(noise) } else { None },
                channel_permeability: if cfg["strict"].as_bool().unwrap_or(false) {
                    Permeability::Strict
                } else {
                    Permeability::Permissive
                },
                private_key: PRIVATE,
            };
            match tokio::spawn(MqttServer::new(c)).await {
                Err(_) => return Err("panic".into()),
                Ok(Ok(srv)) => return Ok(Server { plain, noise, srv: Some(srv) }),
                // the address is taken
                Ok(Err(_)) => continue,
            }
        }
        Err("no address".into())
    }
    /// a client identifier as the specification knows it
    pub async fn clients(&self, names: &HashMap<String, String>) -> Vec<String> {
        let srv = self.srv.as_ref().unwrap();
        let l = match timeout(LIMIT, srv.clients()).await {
            Ok(l) => l,
            Err(_) => return vec!["<hangs>".into()],
        };
        let mut v: Vec<String> =
            l.iter().map(|x| names.get(&**x).cloned().unwrap_or_else(|| script_text(x.to_string()))).collect();
        v.sort();
        v
    }
    async fn look(&self, topic: &str, names: &HashMap<String, String>) -> Vec<String> {
        let srv = self.srv.as_ref().unwrap();
        let l = match timeout(LIMIT, srv.get_topics().get_all_subscribed(topic)).await {
            Ok(l) => l,
            Err(_) => return vec!["<hangs>".into()],
        };
        let mut v: Vec<String> =
            l.keys().map(|x| names.get(&**x).cloned().unwrap_or_else(|| script_text(x.to_string()))).collect();
        v.sort();
        v
    }
}

fn strings(v: &Value) -> Vec<String> {
    let mut x: Vec<String> =
        v.as_array().unwrap_or(&vec![]).iter().map(|x| x.as_str().unwrap().to_string()).collect();
    x.sort();
    x
}
fn numbers(v: &Value) -> Vec<u64> {
    v.as_array().unwrap_or(&vec![]).iter().map(|x| x.as_u64().unwrap()).collect()
}

fn remember(p: &Value, pays: &Pays) {
    if p["t"] == "pub" {
        let (s, n) = (p["pay"][0].as_str().unwrap(), p["pay"][1].as_u64().unwrap() as usize);
        pays.lock().unwrap().insert(payload(s, n), (s.to_string(), n));
    }
}

/// the actions of one connection in one phase
async fn act(mut c: Option<Conn>, number: u64, actions: Vec<Value>, server: Arc<Server>, seed: u64, pays: Pays) -> Option<Conn> {
    for a in actions {
        match a["a"].as_str().unwrap() {
            "open" => c = Some(Conn::open(&a, number, &server, seed, pays.clone()).await),
            "send" => {
                if let Some(c) = &mut c {
                    let ps = a["ps"].as_array().unwrap();
                    for p in ps {
                        remember(p, &pays);
                    }
                    let b = c.wire(ps);
                    c.write(&b, a["cut"].as_u64().unwrap_or(0)).await;
                }
            }
            // many publishes with consecutive payloads
            "flood" => {
                if let Some(c) = &mut c {
                    let n = a["n"].as_u64().unwrap();
                    let per = a["per"].as_u64().unwrap_or(1);
                    let mut k = 0;
                    while k < n {
                        let mut ps = vec![];
                        while ps.len() < per as usize && k < n {
                            let mut p = a["p"].clone();
                            p["pay"][0] = json!(format!("{}.{}", p["pay"][0].as_str().unwrap(), k));
                            remember(&p, &pays);
                            ps.push(p);
                            k += 1;
                        }
                        let b = c.wire(&ps);
                        if !c.write(&b, a["cut"].as_u64().unwrap_or(0)).await {
                            break;
                        }
                    }
                }
            }
            "close" => {
                if let Some(c) = &mut c {
                    c.close(a["how"].as_str().unwrap()).await;
                }
            }
            "pause" => {
                if let Some(c) = &mut c {
                    c.paused.store(true, Ordering::SeqCst);
                    c.resume.notify_one();
                    while !c.parked.load(Ordering::SeqCst) && !c.closed() {
                        sleep(Duration::from_millis(1)).await;
                    }
                }
            }
            "resume" => {
                if let Some(c) = &mut c {
                    c.paused.store(false, Ordering::SeqCst);
                    c.resume.notify_one();
                }
            }
            // wait until so many packets have come in all
            "await" => {
                if let Some(c) = &c {
                    let n = a["n"].as_u64().unwrap() as usize;
                    c.wait(LIMIT, |i| i.packets.len() >= n || i.closed.is_some()).await;
                }
            }
            "sleep" => sleep(Duration::from_millis(a["ms"].as_u64().unwrap())).await,
            x => panic!("unknown action {}", x),
        }
    }
    c
}

/// an identifier that the broker made up for connection k becomes ?k
fn learn(c: &Conn, names: &mut HashMap<String, String>) {
    let mut i = c.inbox.lock().unwrap();
    for p in i.packets.iter_mut() {
        if p["t"] != "connack" || p["named"] == true {
            continue;
        }
        p["named"] = json!(true);
        for x in p["props"].as_array_mut().unwrap() {
            if x[0] == 18 {
                let id = x[1].as_str().unwrap().to_string();
                let fresh = !id.is_empty() && !names.contains_key(&id);
                if fresh {
                    names.insert(id, format!("?{}", c.number));
                    x[1] = json!(format!("?{}", c.number));
                } else {
                    x[1] = json!(format!("!{}", id));
                }
            }
        }
    }
}

/// the names of messages that are sent in bulk
fn bulks(script: &Value) -> HashSet<String> {
    let none = vec![];
    let phases = script["phases"].as_array().unwrap_or(&none).iter();
    let acts = phases.flat_map(|p| p["do"].as_array().unwrap_or(&none)).flat_map(|d| d["as"].as_array().unwrap_or(&none));
    acts.filter(|a| a["bulk"] == true).map(|a| a["p"]["pay"][0].as_str().unwrap().to_string()).collect()
}
/// an uninterrupted sequence NAME.0, NAME.1, ... of such messages becomes one entry
fn compress(got: Vec<Value>, bulk: &HashSet<String>) -> Vec<Value> {
    if bulk.is_empty() {
        return got;
    }
    let mut out: Vec<Value> = vec![];
    // what the next one of the sequence would look like
    let mut next: Option<(Value, String, u64)> = None;
    for g in got {
        let name = g["pay"][0].as_str().unwrap_or("").to_string();
        let x = match name.rsplit_once('.') {
            Some((x, k)) if bulk.contains(x) => (x.to_string(), k.parse::<u64>().unwrap()),
            _ => {
                next = None;
                out.push(g);
                continue;
            }
        };
        if let Some((like, n, k)) = &mut next {
            let mut same = g.clone();
            same["pay"][0] = like["pay"][0].clone();
            if *n == x.0 && *k == x.1 && same == *like {
                *k += 1;
                let run = &mut out.last_mut().unwrap()["run"];
                *run = json!(run.as_u64().unwrap() + 1);
                continue;
            }
        }
        next = Some((g.clone(), x.0.clone(), x.1 + 1));
        let mut g = g;
        if x.1 == 0 {
            g["pay"][0] = json!(x.0);
        }
        g["run"] = json!(1);
        out.push(g);
    }
    out
}

/// one script from start to end; the record and whether it got stuck
async fn play(script: &Value, seed: u64) -> (Value, bool) {
    let mut rec = script.clone();
    let server = match Server::start(&script["cfg"]).await {
        Ok(s) => Arc::new(s),
        Err(e) => {
            rec["end"] = json!(format!("no start: {}", e));
            rec["phases"] = json!([]);
            return (rec, true);
        }
    };
    let pays: Pays = Default::default();
    let mut conns: HashMap<u64, Conn> = HashMap::new();
    let mut names: HashMap<String, String> = HashMap::new();
    let mut done = vec![];
    let mut racers: Vec<u64> = vec![];
    let bulk = bulks(script);
    let mut stuck_any = false;
    for (pn, ph) in script["phases"].as_array().unwrap().iter().enumerate() {
        crate::watch::step();
        let mut out = ph.clone();
        let mut live = numbers(&ph["live"]);
        let race = numbers(&ph["race"]);
        let ends = numbers(&ph["ends"]);
        let mut tasks = vec![];
        let mut actors = vec![];
        let began = Instant::now();
        for d in ph["do"].as_array().unwrap() {
            let k = d["c"].as_u64().unwrap();
            let c = conns.remove(&k);
            actors.push(k);
            let acts = d["as"].as_array().unwrap().clone();
            tasks.push((
                k,
                tokio::spawn(act(c, k, acts, server.clone(), seed ^ (k << 20) ^ ((pn as u64) << 40), pays.clone())),
            ));
        }
        for (k, t) in tasks {
            match t.await {
                Ok(Some(c)) => {
                    conns.insert(k, c);
                }
                Ok(None) => (),
                Err(e) => {
                    eprintln!("driver: {}", e);
                    std::process::exit(2);
                }
            }
        }
        let mut stuck = vec![];
        let want = strings(&ph["clients"]);
        let mut clients = vec![];
        // of those who race for an identifier one remains
        if !race.is_empty() {
            racers.extend(&race);
            let t = Instant::now();
            while race.iter().filter(|k| conns.get(k).map_or(false, |c| !c.closed())).count() != 1 {
                if t.elapsed() > LIMIT {
                    stuck_any = true;
                    break;
                }
                sleep(Duration::from_millis(2)).await;
            }
        }
        live.extend(racers.iter().filter(|k| conns.get(k).map_or(false, |c| !c.closed())));
        // settle: first those who have acted, then the ends of connections, then all who are there
        for round in 0..2 {
            let mut waiting = vec![];
            for k in &live {
                if stuck.contains(k) || (round == 0 && !actors.contains(k)) {
                    continue;
                }
                if let Some(c) = conns.get_mut(k) {
                    let pid = c.probe().await;
                    waiting.push((*k, pid));
                }
            }
            for (k, pid) in waiting {
                if !conns[&k].probed(pid).await && !conns[&k].closed() {
                    stuck.push(k);
                }
            }
            if round == 1 {
                break;
            }
            for c in conns.values() {
                learn(c, &mut names);
            }
            for k in &ends {
                if let Some(c) = conns.get(k) {
                    if c.writer.is_some() && !c.wait(LIMIT, |i| i.done).await {
                        stuck_any = true;
                    }
                }
            }
            // the end of a connection that reads nothing shows when one writes to it
            for k in numbers(&ph["dead"]) {
                if let Some(c) = conns.get_mut(&k) {
                    let t = Instant::now();
                    while !c.closed() {
                        if !c.write(&[0xc0], 0).await {
                            c.inbox.lock().unwrap().closed = Some(Instant::now());
                        } else if t.elapsed() > LIMIT {
                            stuck_any = true;
                            break;
                        } else {
                            sleep(Duration::from_millis(10)).await;
                        }
                    }
                }
            }
            let t = Instant::now();
            loop {
                clients = server.clients(&names).await;
                if clients == want || t.elapsed() > LIMIT || !stuck.is_empty() || stuck_any {
                    break;
                }
                sleep(Duration::from_millis(2)).await;
            }
            stuck_any |= clients != want;
        }
        // collect
        let mut recv = vec![];
        let mut closed = vec![];
        let mut times = vec![];
        let mut ks: Vec<u64> = conns.keys().cloned().collect();
        ks.sort();
        for k in ks {
            let c = &conns[&k];
            learn(c, &mut names);
            let mut i = c.inbox.lock().unwrap();
            let from = i.taken;
            i.taken = i.packets.len();
            let mut got: Vec<Value> = compress(i.packets[from..].to_vec(), &bulk);
            for x in i.extra.drain(..) {
                got.push(json!({"t": "again", "pid": x, "size": 0}));
            }
            if !got.is_empty() {
                recv.push(json!([k, got]));
            }
            if i.closed.is_some() {
                closed.push(k);
            }
            times.push(json!([
                k,
                i.closed.map(|t| t.duration_since(c.opened).as_millis() as u64).unwrap_or(0),
                c.opened.elapsed().as_millis() as u64
            ]));
        }
        let mut looks = vec![];
        for l in ph["looks"].as_array().unwrap_or(&vec![]) {
            let want = strings(&l[1]);
            let topic = path(&l[0]);
            let t = Instant::now();
            let a = loop {
                let a = server.look(&topic, &names).await;
                if a == want || t.elapsed() > LIMIT || !stuck.is_empty() {
                    break a;
                }
                sleep(Duration::from_millis(2)).await;
            };
            looks.push(json!([l[0], a]));
        }
        stuck_any |= !stuck.is_empty();
        out["recv"] = json!(recv);
        out["closed"] = json!(closed);
        out["stuck"] = json!(stuck);
        out["listed"] = json!(clients);
        out["seen"] = json!(looks);
        if ph["timed"].as_bool().unwrap_or(false) {
            out["times"] = json!(times);
            out["took"] = json!(began.elapsed().as_millis() as u64);
        }
        done.push(out);
        if stuck_any {
            break;
        }
    }
    rec["phases"] = json!(done);
    // the end
    let mut server = match Arc::try_unwrap(server) {
        Ok(s) => s,
        Err(_) => unreachable!(),
    };
    let srv = server.srv.take().unwrap();
    // what goes on meanwhile
    let quiet = Arc::new(Server { plain: server.plain, noise: server.noise, srv: None });
    let mut busy = vec![];
    for d in script["atend"].as_array().unwrap_or(&vec![]) {
        let k = d["c"].as_u64().unwrap();
        let c = conns.remove(&k);
        let acts = d["as"].as_array().unwrap().clone();
        busy.push((k, tokio::spawn(act(c, k, acts, quiet.clone(), seed ^ (k << 20), pays.clone()))));
    }
    if let Some(ms) = script["wait"].as_u64() {
        sleep(Duration::from_millis(ms)).await;
    }
    let t = Instant::now();
    let h = tokio::spawn(async move { srv.shutdown().await });
    let mut end = match timeout(LIMIT, h).await {
        Ok(Ok(())) => "ok",
        Ok(Err(_)) => "panic",
        Err(_) => "hangs",
    };
    if end == "ok" {
        for a in [server.plain, server.noise] {
            if let Ok(Ok(_)) = timeout(LIMIT, TcpStream::connect(a)).await {
                end = "accepts";
            }
        }
    }
    rec["end"] = json!(end);
    rec["shut"] = json!(t.elapsed().as_millis() as u64);
    for (k, t) in busy {
        match t.await {
            Ok(Some(c)) => {
                conns.insert(k, c);
            }
            Ok(None) => (),
            Err(e) => {
                eprintln!("driver: {}", e);
                std::process::exit(2);
            }
        }
    }
    let mut open = vec![];
    for (k, c) in &conns {
        if c.writer.is_some() {
            c.paused.store(false, Ordering::SeqCst);
            c.resume.notify_one();
            let limit = Duration::from_millis(if stuck_any || end != "ok" { 500 } else { 5000 });
            let registered = c.inbox.lock().unwrap().packets.iter().any(|p| p["t"] == "connack" && p["rc"] == 0);
            if registered && !c.wait(limit, |i| i.closed.is_some()).await {
                open.push(*k);
            }
        }
    }
    rec["open"] = json!(open);
    stuck_any |= end != "ok";
    (rec, stuck_any)
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|x| x == k).map(|i| args[i + 1].clone())
}

/// broker --scripts FILE --out FILE [--seed N] [--jobs N] [--threads N] [--delays PER_MILLE]
pub fn run(args: &[String]) {
    if std::env::var("RUST_LOG").is_ok() {
        tracing_subscriber::fmt().with_env_filter(tracing_subscriber::EnvFilter::from_default_env()).init();
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VERIF_PANICS").is_ok() {
            eprintln!("{}", i);
        }
    }));
    let scripts: Vec<Value> = BufReader::new(File::open(arg(args, "--scripts").unwrap()).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let seed: u64 = arg(args, "--seed").map(|x| x.parse().unwrap()).unwrap_or(1);
    let jobs: usize = arg(args, "--jobs").map(|x| x.parse().unwrap()).unwrap_or(16);
    let threads: usize = arg(args, "--threads").map(|x| x.parse().unwrap()).unwrap_or(8);
    let delays: u64 = arg(args, "--delays").map(|x| x.parse().unwrap()).unwrap_or(0);
    apiformes_server_lib::verif::set_delays(delays, seed);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build().unwrap();
    let n = scripts.len();
    let scripts = Arc::new(scripts);
    let next = Arc::new(AtomicUsize::new(0));
    let bad = Arc::new(AtomicUsize::new(0));
    let recs: Arc<Mutex<Vec<(usize, String)>>> = Default::default();
    rt.block_on(async {
        let mut hs = vec![];
        for _ in 0..jobs {
            let (scripts, next, bad, recs) = (scripts.clone(), next.clone(), bad.clone(), recs.clone());
            hs.push(tokio::spawn(async move {
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    // a broken server makes every script slow: some of them are enough
                    if k >= scripts.len() || bad.load(Ordering::SeqCst) >= 6 {
                        return;
                    }
                    let (rec, stuck) = play(&scripts[k], seed ^ (k as u64).wrapping_mul(7919)).await;
                    if stuck {
                        bad.fetch_add(1, Ordering::SeqCst);
                    }
                    recs.lock().unwrap().push((k, rec.to_string()));
                }
            }));
        }
        for h in hs {
            if h.await.is_err() {
                eprintln!("driver: panic");
                std::process::exit(2);
            }
        }
    });
    let mut recs = std::mem::take(&mut *recs.lock().unwrap());
    recs.sort();
    let mut out = BufWriter::new(File::create(arg(args, "--out").unwrap()).unwrap());
    for (_, r) in &recs {
        writeln!(out, "{}", r).unwrap();
    }
    out.flush().unwrap();
    println!("{}", json!({"scripts": n, "played": recs.len(), "stuck": bad.load(Ordering::SeqCst)}));
    std::process::exit(0);
}
