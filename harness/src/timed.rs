//! Connections that take their time: what they send when, and when the broker closes them.
//! The clock is that of the machine, or (--jump) one that jumps from one quarter of the keep-alive to the next: then each
//! server has a thread of its own, whose clock is put forward while nobody is doing anything.
use crate::broker::{Server, PATTERN, PUBLIC};
use crate::mqtt::encode;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use tokio::sync::{mpsc, oneshot};
use tokio::time::sleep;

/// what time it is, in milliseconds
struct Time {
    begun: Instant,
    /// what the clock has been put forward
    jumped: AtomicU64,
    /// up to when everyone may go on, if somebody decides that
    released: Option<AtomicU64>,
    /// what everyone is waiting for
    waits: Mutex<Vec<Option<u64>>>,
}
impl Time {
    fn new(jumps: bool, n: usize) -> Arc<Time> {
        Arc::new(Time {
            begun: Instant::now(),
            jumped: AtomicU64::new(0),
            released: if jumps { Some(AtomicU64::new(0)) } else { None },
            waits: Mutex::new(vec![None; n]),
        })
    }
    fn now(&self) -> u64 {
        self.begun.elapsed().as_millis() as u64 + self.jumped.load(Ordering::SeqCst)
    }
    fn reached(&self, at: u64) -> bool {
        match &self.released {
            Some(r) => r.load(Ordering::SeqCst) >= at,
            None => self.now() >= at,
        }
    }
    fn wait(&self, who: usize, at: Option<u64>) {
        self.waits.lock().unwrap()[who] = at;
    }
    async fn until(&self, who: usize, at: u64, or: impl Fn() -> bool) {
        self.wait(who, Some(at));
        while !self.reached(at) && !or() {
            sleep(Duration::from_millis(if self.released.is_some() { 2 } else { at.saturating_sub(self.now()).clamp(1, 20) })).await;
        }
        self.wait(who, None);
    }
}

/// the clock that everything in this program reads, which a thread can put forward for itself
mod clock {
    use std::cell::Cell;
    #[repr(C)]
    pub struct Timespec {
        s: i64,
        ns: i64,
    }
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    const CLOCK_GETTIME: i64 = 228;
    thread_local! {
        static JUMPED: Cell<u64> = const { Cell::new(0) };
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clock: i32, to: *mut Timespec) -> i32 {
        if syscall(CLOCK_GETTIME, clock as i64, to) != 0 {
            return -1;
        }
        let ms = JUMPED.with(|j| j.get()) as i64;
        if ms > 0 {
            (*to).s += ms / 1000;
            (*to).ns += ms % 1000 * 1_000_000;
            if (*to).ns >= 1_000_000_000 {
                (*to).s += 1;
                (*to).ns -= 1_000_000_000;
            }
        }
        0
    }
    pub fn put_forward(ms: u64) {
        JUMPED.with(|j| j.set(j.get() + ms))
    }
}

/// a server whose clock jumps when it is told to
struct Jumper {
    tell: mpsc::UnboundedSender<(u64, oneshot::Sender<()>)>,
}
impl Jumper {
    async fn start(cfg: Value) -> Result<(Jumper, Arc<Server>), String> {
        let (tx, rx) = oneshot::channel();
        let (tell, mut told) = mpsc::unbounded_channel::<(u64, oneshot::Sender<()>)>();
        std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            rt.block_on(async move {
                let server = Server::start(&cfg).await.map(Arc::new);
                let _ = tx.send(server);
                while let Some((ms, done)) = told.recv().await {
                    clock::put_forward(ms);
                    // whatever waits for time looks at the clock again
                    tokio::task::yield_now().await;
                    let _ = done.send(());
                }
            });
        });
        let server = rx.await.map_err(|_| "no server".to_string())??;
        Ok((Jumper { tell }, server))
    }
    async fn put_forward(&self, ms: u64) {
        let (tx, rx) = oneshot::channel();
        let _ = self.tell.send((ms, tx));
        let _ = rx.await;
    }
    /// until everything that is due has happened
    async fn settle(&self, lag: &AtomicU64) {
        let (mut k, mut n) = (0, 0);
        while k < 4 && n < 50 {
            n += 1;
            let t = Instant::now();
            self.put_forward(0).await;
            sleep(Duration::from_millis(10)).await;
            let late = (t.elapsed().as_millis() as u64).saturating_sub(12);
            lag.fetch_max(late, Ordering::SeqCst);
            if late < 20 {
                k += 1;
            }
        }
    }
    async fn jump(&self, time: &Time, to: u64, lag: &AtomicU64) {
        let d = to.saturating_sub(time.now());
        if d > 0 {
            time.jumped.fetch_add(d, Ordering::SeqCst);
            self.put_forward(d).await;
        }
        self.settle(lag).await;
    }
    /// from tick to tick: shortly before it, at it, and beyond it as long as something may be due
    async fn conduct(&self, time: Arc<Time>, first: u64, last: u64, tick: u64, horizon: u64, lag: Arc<AtomicU64>) {
        let mut most = 0;
        for k in 0..=horizon {
            let t = last + k * tick + 5;
            if k > 0 {
                self.jump(&time, first + k * tick - 2000, &lag).await;
                self.jump(&time, t, &lag).await;
            }
            let until = time.now().max(t);
            time.released.as_ref().unwrap().store(until, Ordering::SeqCst);
            // until they have all done what they do
            sleep(Duration::from_millis(10)).await;
            while time.waits.lock().unwrap().iter().any(|w| w.map_or(true, |w| w <= until)) {
                sleep(Duration::from_millis(5)).await;
            }
            self.settle(&lag).await;
            most = most.max(time.now() - t);
            while time.now() < t + most + 1000 {
                self.jump(&time, time.now() + 400, &lag).await;
            }
            crate::watch::step();
        }
    }
}

fn framed(b: &[u8]) -> Vec<u8> {
    let mut x = (b.len() as u32).to_be_bytes().to_vec();
    x.extend_from_slice(b);
    x
}

/// what has arrived, and when the end was seen
#[derive(Default)]
struct Heard {
    bytes: Vec<u8>,
    end: Option<u64>,
}

async fn play(server: Arc<Server>, sc: Value, keep_ms: u64, id: String, time: Arc<Time>, who: usize, opened: u64) -> Value {
    let enc = sc["enc"].as_bool().unwrap();
    let tick = sc["tick"].as_u64().unwrap_or(keep_ms / sc["keep"].as_u64().unwrap());
    let ms = || time.now() - opened;
    let mut rec = sc.clone();
    rec["keep"] = json!(keep_ms);
    let s = match TcpStream::connect(if enc { server.noise } else { server.plain }).await {
        Ok(s) => s,
        Err(e) => {
            rec["end"] = json!(format!("no connection: {}", e));
            time.wait(who, Some(u64::MAX));
            return rec;
        }
    };
    let connected = ms();
    s.set_nodelay(true).unwrap();
    let (mut r, mut w) = s.into_split();
    let heard: Arc<Mutex<Heard>> = Default::default();
    let h2 = heard.clone();
    let t2 = time.clone();
    let reader = tokio::spawn(async move {
        let mut b = [0; 4096];
        loop {
            let n = r.read(&mut b).await.unwrap_or(0);
            let mut h = h2.lock().unwrap();
            if n == 0 {
                h.end = Some(t2.now());
                return;
            }
            h.bytes.extend_from_slice(&b[..n]);
        }
    });
    let mut noise = {
        let b = snow::Builder::new(PATTERN.parse().unwrap());
        let k = b.generate_keypair().unwrap();
        Some(
            snow::Builder::new(PATTERN.parse().unwrap())
                .local_private_key(&k.private)
                .remote_public_key(&PUBLIC)
                .build_initiator()
                .unwrap(),
        )
    };
    let mut crypto: Option<snow::TransportState> = None;
    // the bytes of the unit that is being sent
    let mut unit = String::new();
    let mut left: Vec<u8> = vec![];
    let mut sent = vec![];
    let mut buf = vec![0; 2000];
    for a in sc["acts"].as_array().unwrap() {
        time.until(who, opened + a[0].as_u64().unwrap() * tick, || false).await;
        if heard.lock().unwrap().end.is_some() {
            break;
        }
        let u = a[1].as_str().unwrap();
        if u != unit {
            let bytes = match u {
                "m1" => {
                    let n = noise.as_mut().unwrap().write_message(&[], &mut buf).unwrap();
                    framed(&buf[..n])
                }
                "m3" => {
                    // the answer to the first one
                    let t = Instant::now();
                    let m = loop {
                        {
                            let mut h = heard.lock().unwrap();
                            if h.bytes.len() >= 4 {
                                let n = u32::from_be_bytes([h.bytes[0], h.bytes[1], h.bytes[2], h.bytes[3]]) as usize;
                                if h.bytes.len() >= 4 + n {
                                    let m = h.bytes[4..4 + n].to_vec();
                                    h.bytes.drain(..4 + n);
                                    break Some(m);
                                }
                            }
                            if h.end.is_some() || t.elapsed() > Duration::from_millis(500) {
                                break None;
                            }
                        }
                        sleep(Duration::from_millis(2)).await;
                    };
                    let mut x = noise.take().unwrap();
                    if m.map_or(false, |m| x.read_message(&m, &mut buf).is_ok()) {
                        let n = x.write_message(&[], &mut buf).unwrap();
                        crypto = Some(x.into_transport_mode().unwrap());
                        framed(&buf[..n])
                    } else {
                        break;
                    }
                }
                _ => {
                    let p = encode(&json!({"t": "connect", "id": id, "props": [[38, "a property that makes it long enough"]]}));
                    match &mut crypto {
                        Some(c) => {
                            let n = c.write_message(&p, &mut buf).unwrap();
                            framed(&buf[..n])
                        }
                        None => p,
                    }
                }
            };
            unit = u.to_string();
            left = bytes;
        }
        let b: Vec<u8> = if a[2] == "part" { left.drain(..1).collect() } else { std::mem::take(&mut left) };
        let before = ms();
        if w.write_all(&b).await.is_err() {
            break;
        }
        sent.push(json!([before, ms(), u, a[2]]));
    }
    // silence until the end
    time.until(who, opened + sc["horizon"].as_u64().unwrap() * tick, || heard.lock().unwrap().end.is_some()).await;
    let end = ms();
    let closed = heard.lock().unwrap().end.map(|t| t - opened);
    // is there someone who answers?
    let mut alive = false;
    let mut acked = false;
    if closed.is_none() {
        let before = heard.lock().unwrap().bytes.len();
        acked = before > 0 && unit == "c";
        let p = encode(&json!({"t": "sub", "pid": 9, "props": [], "fs": [[["x"], 32]]}));
        let b = match &mut crypto {
            Some(c) => {
                let n = c.write_message(&p, &mut buf).unwrap();
                framed(&buf[..n])
            }
            None => p,
        };
        if acked && w.write_all(&b).await.is_ok() {
            let t = Instant::now();
            while !alive && t.elapsed() < Duration::from_secs(5) {
                sleep(Duration::from_millis(10)).await;
                alive = heard.lock().unwrap().bytes.len() > before;
            }
        }
    }
    let names = server.clients(&HashMap::new()).await;
    rec["connected"] = json!(connected);
    rec["sent"] = json!(sent);
    rec["closed"] = json!(closed.map(|x| x as i64).unwrap_or(-1));
    rec["end"] = json!(end);
    rec["alive"] = json!(alive && acked);
    rec["listed"] = json!(names.contains(&id));
    reader.abort();
    time.wait(who, Some(u64::MAX));
    rec
}

/// timed --scripts FILE --out FILE --keep SECONDS[,SECONDS...] [--jump yes]
pub fn run(args: &[String]) {
    let arg = |k: &str| args.iter().position(|x| x == k).map(|i| args[i + 1].clone());
    let scripts: Vec<Value> = BufReader::new(File::open(arg("--scripts").unwrap()).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let jumps = arg("--jump").is_some();
    let keeps: Vec<u64> = arg("--keep").unwrap().split(',').map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| ()));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap();
    let recs = rt.block_on(async {
        // how late everything is
        let lag = Arc::new(AtomicU64::new(0));
        let over = Arc::new(AtomicBool::new(false));
        let (l2, o2) = (lag.clone(), over.clone());
        let watch = tokio::spawn(async move {
            while !o2.load(Ordering::SeqCst) {
                let t = Instant::now();
                sleep(Duration::from_millis(10)).await;
                let late = (t.elapsed().as_millis() as u64).saturating_sub(12);
                l2.fetch_max(late, Ordering::SeqCst);
            }
        });
        let mut jobs = vec![];
        let mut n = 0;
        for k in keeps {
            for part in scripts.chunks(40) {
                let cfg = json!({"keep": k, "queue": 65536, "max": 65536});
                let fail = |e| {
                    eprintln!("driver: {}", e);
                    std::process::exit(2)
                };
                let (jumper, server) = if jumps {
                    let (j, s) = Jumper::start(cfg).await.unwrap_or_else(fail);
                    (Some(j), s)
                } else {
                    (None, Arc::new(Server::start(&cfg).await.unwrap_or_else(|e| {
                        eprintln!("driver: {}", e);
                        std::process::exit(2);
                    })))
                };
                let time = Time::new(jumps, part.len());
                let (mut first, mut last) = (u64::MAX, 0);
                for (who, s) in part.iter().enumerate() {
                    n += 1;
                    let opened = time.now();
                    first = first.min(opened);
                    last = last.max(opened);
                    jobs.push(tokio::spawn(play(
                        server.clone(),
                        s.clone(),
                        k * 1000,
                        format!("timed{}", n),
                        time.clone(),
                        who,
                        opened,
                    )));
                    // not all at once
                    if n % 10 == 0 {
                        sleep(Duration::from_millis(3)).await;
                    }
                }
                if let Some(j) = jumper {
                    let sc = &part[0];
                    let tick = k * 1000 / sc["keep"].as_u64().unwrap();
                    let (lag, horizon) = (lag.clone(), sc["horizon"].as_u64().unwrap());
                    tokio::spawn(async move {
                        j.conduct(time, first, last, tick, horizon, lag).await;
                        // the server stays
                        std::future::pending::<()>().await;
                    });
                }
            }
        }
        let mut recs = vec![];
        for j in jobs {
            match j.await {
                Ok(r) => {
                    crate::watch::step();
                    recs.push(r)
                }
                Err(e) => {
                    eprintln!("driver: {}", e);
                    std::process::exit(2);
                }
            }
        }
        over.store(true, Ordering::SeqCst);
        let _ = watch.await;
        let lag = lag.load(Ordering::SeqCst);
        for r in &mut recs {
            r["lag"] = json!(lag);
        }
        println!("{}", json!({"played": recs.len(), "lag": lag}));
        recs
    });
    let mut out = BufWriter::new(File::create(arg("--out").unwrap()).unwrap());
    for r in &recs {
        writeln!(out, "{}", r).unwrap();
    }
    out.flush().unwrap();
    std::process::exit(0);
}
