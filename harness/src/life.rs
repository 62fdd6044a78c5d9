//! Servers that are started, fail to start, and are shut down, several of them in one process.
use crate::broker::{Conn, Server, LIMIT, PRIVATE};
use crate::mqtt::payload;
use apiformes_server_lib::{MqttServer, MqttServerConfig, Permeability};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::net::{Ipv4Addr, SocketAddr};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::net::TcpListener;
use tokio::time::{sleep, timeout};

fn sorted(v: &Value) -> Vec<String> {
    let mut x: Vec<String> = v.as_array().unwrap().iter().map(|x| x.to_string()).collect();
    x.sort();
    x
}

struct World {
    addrs: Vec<SocketAddr>,
    servers: Vec<Option<MqttServer>>,
    uses: Vec<(u64, u64)>,
    held: HashMap<u64, TcpListener>,
    conns: Vec<Conn>,
}

impl World {
    async fn call(&mut self, x: &Value) -> &'static str {
        let n = |k: usize| x[k].as_u64().unwrap();
        match x[0].as_str().unwrap() {
            "start" => {
                let addr = |k| if k == 0 { None } else { Some(self.addrs[k as usize - 1]) };
                let cfg = MqttServerConfig {
                    mqtt_socketaddr: addr(n(2)),
                    keep_alive: 60,
                    dispatcher_queue_size: 4096,
                    max_packet_size: 4096,
                    noise_socketaddr: addr(n(3)),
                    channel_permeability: Permeability::Permissive,
                    private_key: PRIVATE,
                };
                match tokio::spawn(timeout(LIMIT, MqttServer::new(cfg))).await {
                    Err(_) => "panic",
                    Ok(Err(_)) => "hangs",
                    Ok(Ok(Err(_))) => "no",
                    Ok(Ok(Ok(s))) => {
                        self.servers[n(1) as usize - 1] = Some(s);
                        self.uses[n(1) as usize - 1] = (n(2), n(3));
                        "ok"
                    }
                }
            }
            "stop" => match self.servers[n(1) as usize - 1].take() {
                None => "?",
                Some(s) => {
                    self.uses[n(1) as usize - 1] = (0, 0);
                    match timeout(LIMIT, s.shutdown()).await {
                        Ok(()) => "ok",
                        Err(_) => "hangs",
                    }
                }
            },
            "hold" => match TcpListener::bind(self.addrs[n(1) as usize - 1]).await {
                Ok(l) => {
                    self.held.insert(n(1), l);
                    "ok"
                }
                Err(_) => "no",
            },
            "leave" => {
                self.held.remove(&n(1));
                "ok"
            }
            "open" => {
                let a = self.addrs[n(1) as usize - 1];
                let enc = self.uses.iter().any(|u| u.1 == n(1));
                let mut c = Conn::open(
                    &json!({ "enc": enc }),
                    self.conns.len() as u64 + 1,
                    &Server::at(a),
                    1,
                    Arc::new(Mutex::new((1..4).map(|k| (payload(&k.to_string(), 1), (k.to_string(), 1))).collect())),
                )
                .await;
                let p = json!({"t": "connect", "id": x[2], "props": []});
                let b = c.wire(&[p]);
                c.write(&b, 0).await;
                let mut ok = false;
                c.wait(LIMIT, |i| {
                    ok = i.packets.iter().any(|p| p["t"] == "connack" && p["rc"] == 0);
                    ok || i.closed.is_some()
                })
                .await;
                self.conns.push(c);
                if ok {
                    "ok"
                } else {
                    "no"
                }
            }
            "sub" => {
                let c = &mut self.conns[n(1) as usize - 1];
                let b = c.wire(&[json!({"t": "sub", "pid": 7, "props": [], "fs": [[["x"], 32]]})]);
                c.write(&b, 0).await;
                if c.wait(LIMIT, |i| i.packets.iter().any(|p| p["t"] == "suback" && p["pid"] == 7 && p["rcs"] == json!([0]))).await {
                    "ok"
                } else {
                    "no"
                }
            }
            _ => {
                self.conns[n(1) as usize - 1].close("close").await;
                "ok"
            }
        }
    }
    /// what can be seen
    async fn look(&self, want: &Value) -> Value {
        let mut free = vec![];
        // trying an address takes it for a moment
        for k in 0..self.addrs.len() {
            if TcpListener::bind(self.addrs[k]).await.is_ok() {
                free.push(k + 1);
            }
        }
        let mut lists = vec![];
        for s in &self.servers {
            lists.push(match s {
                None => json!([]),
                Some(s) => match timeout(LIMIT, s.clients()).await {
                    Ok(l) => {
                        let mut l: Vec<String> = l.iter().map(|x| x.to_string()).collect();
                        l.sort();
                        json!(l)
                    }
                    Err(_) => json!(["hangs"]),
                },
            });
        }
        let open: Vec<usize> =
            (0..self.conns.len()).filter(|k| !self.conns[*k].closed() && self.conns[*k].is_open()).map(|k| k + 1).collect();
        let mut w = want.clone();
        w["free"] = json!(free);
        w["lists"] = json!(lists);
        w["open"] = json!(open);
        w
    }
}

fn same(a: &Value, b: &Value) -> bool {
    sorted(&a["free"]) == sorted(&b["free"])
        && sorted(&a["open"]) == sorted(&b["open"])
        && a["lists"].as_array().unwrap().iter().zip(b["lists"].as_array().unwrap()).all(|(x, y)| sorted(x) == sorted(y))
}

async fn play(script: &Value, number: u64) -> Value {
    let pid = std::process::id() as u64;
    let ip = Ipv4Addr::new(127, (1 + pid % 250) as u8, (1 + number / 250 % 250) as u8, (1 + number % 250) as u8);
    let port = 26000 + ((pid / 250 * 3) % 4000) as u16;
    let mut w = World {
        addrs: (0..3).map(|k| SocketAddr::from((ip, port + k))).collect(),
        servers: vec![None, None],
        uses: vec![(0, 0), (0, 0)],
        held: HashMap::new(),
        conns: vec![],
    };
    let mut ops = vec![];
    let mut end = "ok";
    for o in script["ops"].as_array().unwrap() {
        let res = w.call(&o["call"]).await;
        let t = Instant::now();
        let mut seen = w.look(o).await;
        while !same(&seen, o) && t.elapsed() < LIMIT {
            sleep(Duration::from_millis(2)).await;
            seen = w.look(o).await;
        }
        seen["res"] = json!(res);
        let broken = !same(&seen, o) || (res != "ok" && res != "no");
        ops.push(seen);
        if broken {
            end = "broken";
            break;
        }
    }
    // everyone sends a message
    let open: Vec<usize> = (0..w.conns.len()).filter(|k| w.conns[*k].is_open() && !w.conns[*k].closed()).collect();
    if end == "ok" {
        for k in &open {
            let c = &mut w.conns[*k];
            let p = json!({"t": "pub", "fl": 0, "topic": ["x"], "props": [], "pay": [format!("{}", k + 1), 1]});
            let b = c.wire(&[p]);
            c.write(&b, 0).await;
        }
        for _ in 0..2 {
            for k in &open {
                let p = w.conns[*k].probe().await;
                if !w.conns[*k].probed(p).await {
                    end = "silent";
                }
            }
        }
    }
    let mut heard = vec![];
    for c in &w.conns {
        let mut got: Vec<i64> = c
            .packets()
            .iter()
            .filter(|p| p["t"] == "pub")
            .map(|p| p["pay"][0].as_str().and_then(|x| x.parse().ok()).unwrap_or(-1))
            .collect();
        got.sort();
        heard.push(got);
    }
    for s in w.servers.drain(..).flatten() {
        if timeout(LIMIT, s.shutdown()).await.is_err() {
            end = "hangs";
        }
    }
    json!({"ops": ops, "heard": heard, "end": end})
}

/// life --scripts FILE --out FILE --threads N --jobs N --delays PER_MILLE
pub fn run(args: &[String]) {
    let arg = |k: &str| args.iter().position(|x| x == k).map(|i| args[i + 1].clone());
    let num = |k: &str, d: usize| arg(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    apiformes_server_lib::verif::set_delays(num("--delays", 0) as u64, num("--seed", 1) as u64);
    let scripts: Arc<Vec<Value>> = Arc::new(
        BufReader::new(File::open(arg("--scripts").unwrap()).unwrap())
            .lines()
            .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
            .collect(),
    );
    std::panic::set_hook(Box::new(|_| ()));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(num("--threads", 8)).enable_all().build().unwrap();
    let recs: Vec<Value> = rt.block_on(async {
        let next = Arc::new(AtomicU64::new(0));
        let mut jobs = vec![];
        for _ in 0..num("--jobs", 64) {
            let (next, scripts) = (next.clone(), scripts.clone());
            jobs.push(tokio::spawn(async move {
                let mut out = vec![];
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k as usize >= scripts.len() {
                        return out;
                    }
                    out.push((k, play(&scripts[k as usize], k).await));
                    crate::watch::step();
                }
            }));
        }
        let mut all = vec![];
        for j in jobs {
            match j.await {
                Ok(x) => all.extend(x),
                Err(e) => {
                    eprintln!("driver: {}", e);
                    std::process::exit(2);
                }
            }
        }
        all.sort_by_key(|x| x.0);
        all.into_iter().map(|x| x.1).collect()
    });
    println!("{}", json!({"played": recs.len()}));
    let mut out = BufWriter::new(File::create(arg("--out").unwrap()).unwrap());
    for r in &recs {
        writeln!(out, "{}", r).unwrap();
    }
    out.flush().unwrap();
    std::process::exit(0);
}
