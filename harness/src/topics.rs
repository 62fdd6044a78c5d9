//! Drives the topics table: sequential histories, and concurrent ones under a scheduler that lets one call at a
//! time take one lock, or on several threads.
use crate::rng::Rng;
use apiformes_packet::prelude::QoS;
use apiformes_server_lib::verif::{SubscriptionFlags, SubscriptionInfo, TopicsTable};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::fs::File;
use std::future::Future;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone)]
struct Call {
    op: &'static str,
    client: u32,
    topic: String,
    qos: u8,
    flags: u8,
}

fn levels(v: &Value) -> String {
    crate::mqtt::path(v)
}
fn split(t: &str, op: &str) -> Value {
    if op == "all" {
        return json!([]);
    }
    json!(crate::mqtt::levels(t))
}
impl Call {
    fn of(v: &Value) -> Call {
        match v[0].as_str().unwrap() {
            "look" => Call { op: "look", client: 0, topic: levels(&v[1]), qos: 0, flags: 0 },
            o => Call {
                op: match o {
                    "sub" => "sub",
                    "unsub" => "unsub",
                    "all" => "all",
                    _ => panic!("unknown call {}", o),
                },
                client: v[1].as_u64().unwrap() as u32,
                topic: levels(&v[2]),
                qos: v[3][0].as_u64().unwrap() as u8,
                flags: v[3][1].as_u64().unwrap() as u8,
            },
        }
    }
    fn json(&self) -> Value {
        if self.op == "look" {
            return json!(["look", split(&self.topic, "look")]);
        }
        json!([self.op, self.client, split(&self.topic, self.op), [self.qos, self.flags]])
    }
}

fn name(c: u32) -> Arc<str> {
    Arc::from(format!("client-{}", c))
}
fn unname(c: &str) -> u32 {
    c.strip_prefix("client-").and_then(|x| x.parse().ok()).unwrap_or(999_999)
}
fn qos(q: u8) -> QoS {
    match q {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        _ => QoS::QoS2,
    }
}
fn flags(f: u8) -> SubscriptionFlags {
    let mut x = SubscriptionFlags::empty();
    if f & 1 != 0 {
        x |= SubscriptionFlags::NO_LOCAL;
    }
    if f & 2 != 0 {
        x |= SubscriptionFlags::RETAIN_AS_PUBLISHED;
    }
    x
}
fn answers(m: HashMap<Arc<str>, SubscriptionInfo>) -> Vec<(u32, u8, u8)> {
    let mut v: Vec<_> = m
        .iter()
        .map(|(c, i)| {
            let q = match i.qos {
                QoS::QoS0 => 0,
                QoS::QoS1 => 1,
                QoS::QoS2 => 2,
            };
            let mut f = 0;
            if i.flags.contains(SubscriptionFlags::NO_LOCAL) {
                f |= 1;
            }
            if i.flags.contains(SubscriptionFlags::RETAIN_AS_PUBLISHED) {
                f |= 2;
            }
            (unname(c), q, f)
        })
        .collect();
    v.sort();
    v
}
fn ans_json(a: &[(u32, u8, u8)]) -> Value {
    Value::Array(a.iter().map(|x| json!([x.0, [x.1, x.2]])).collect())
}

async fn perform(t: &TopicsTable, c: &Call) -> Vec<(u32, u8, u8)> {
    match c.op {
        "sub" => t.subscribe(name(c.client), Arc::from(&*c.topic), qos(c.qos), flags(c.flags)).await,
        "unsub" => t.unsubscribe(name(c.client), &c.topic).await,
        "all" => t.unsubscribe_all(name(c.client)).await,
        "look" => return answers(t.get_all_subscribed(&c.topic).await),
        _ => unreachable!(),
    }
    vec![]
}

/// does the call to its end on its own, or reports how it does not end
fn alone(rt: &tokio::runtime::Runtime, t: &TopicsTable, c: &Call) -> Result<Vec<(u32, u8, u8)>, String> {
    crate::watch::step();
    let r = catch_unwind(AssertUnwindSafe(|| {
        rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(3), perform(t, c)).await })
    }));
    match r {
        Err(_) => Err("panic".into()),
        Ok(Err(_)) => Err("never returns".into()),
        Ok(Ok(a)) => Ok(a),
    }
}

fn history(rt: &tokio::runtime::Runtime, calls: &[Call], kinds: &mut HashMap<&'static str, u64>) -> Value {
    let t = TopicsTable::new();
    let mut steps = vec![];
    for c in calls {
        *kinds.entry(c.op).or_default() += 1;
        match alone(rt, &t, c) {
            Ok(a) if c.op == "look" => steps.push(json!(["look", split(&c.topic, "look"), ans_json(&a)])),
            Ok(_) => steps.push(c.json()),
            Err(e) => {
                steps.push(c.json());
                steps.push(json!(["died", e]));
                std::mem::forget(t);
                break;
            }
        }
    }
    json!({ "steps": steps })
}

fn rand_levels(r: &mut Rng, filter: bool, pool: &[&str]) -> String {
    loop {
        let n = 1 + r.below(5);
        let mut v: Vec<&str> = (0..n)
            .map(|_| if filter && r.chance(30) { "+" } else { *r.pick(pool) })
            .collect();
        if filter && r.chance(25) {
            v.pop();
            v.push("#");
        }
        let s = v.join("/");
        if !s.is_empty() {
            return s;
        }
    }
}
fn rand_history(r: &mut Rng) -> Vec<Call> {
    let long = ["x", "y", "", "$SYS", "é", "longer level with spaces", "x y", "$"];
    let short = ["a", "b", ""];
    let deep = crate::mqtt::path(&json!(["e", *r.pick(&["@40", "@3000"]), "e"]));
    let deep = ["x", "y", &deep];
    let pool: &[&str] = if r.chance(3) {
        &deep
    } else if r.chance(70) {
        &short
    } else {
        &long
    };
    let clients = 1 + r.below(4) as u32;
    // a few filters that come again and again
    let favourites: Vec<String> = (0..2 + r.below(6)).map(|_| rand_levels(r, true, pool)).collect();
    let n = 6 + r.below(40);
    let mut v = vec![];
    for _ in 0..n {
        let topic = if r.chance(80) { r.pick(&favourites).clone() } else { rand_levels(r, true, pool) };
        let client = 1 + r.below(clients as usize) as u32;
        let c = match r.below(10) {
            0..=4 => Call { op: "sub", client, topic, qos: r.below(3) as u8, flags: r.below(4) as u8 },
            5..=6 => Call { op: "unsub", client, topic, qos: 0, flags: 0 },
            7 => Call { op: "all", client, topic: String::new(), qos: 0, flags: 0 },
            _ => Call { op: "look", client: 0, topic: rand_levels(r, false, pool), qos: 0, flags: 0 },
        };
        v.push(c);
    }
    let mut seen = HashSet::new();
    for f in &favourites {
        // a topic that this filter may match
        for _ in 0..2 {
            let t = f
                .split('/')
                .flat_map(|l| match l {
                    "+" => vec![*r.pick(pool)],
                    "#" => (0..r.below(3)).map(|_| *r.pick(pool)).collect(),
                    x => vec![x],
                })
                .collect::<Vec<_>>()
                .join("/");
            if !t.is_empty() && seen.insert(t.clone()) {
                v.push(Call { op: "look", client: 0, topic: t, qos: 0, flags: 0 });
            }
        }
    }
    v
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|x| x == k).map(|i| args[i + 1].clone())
}
fn num(args: &[String], k: &str, d: u64) -> u64 {
    arg(args, k).map(|x| x.parse().unwrap()).unwrap_or(d)
}
fn read(path: &str) -> Vec<Value> {
    BufReader::new(File::open(path).unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect()
}

pub fn seq(args: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut out = BufWriter::new(File::create(arg(args, "--out").unwrap()).unwrap());
    let mut kinds = HashMap::new();
    let mut n = 0;
    for k in ["--match", "--calls"] {
        if let Some(p) = arg(args, k) {
            for t in read(&p) {
                let mut calls: Vec<Call> = t["calls"].as_array().unwrap().iter().map(Call::of).collect();
                for l in t["looks"].as_array().unwrap() {
                    calls.push(Call { op: "look", client: 0, topic: levels(l), qos: 0, flags: 0 });
                }
                writeln!(out, "{}", history(&rt, &calls, &mut kinds)).unwrap();
                n += 1;
            }
        }
    }
    let mut r = Rng(num(args, "--seed", 1));
    for _ in 0..num(args, "--random", 0) {
        let calls = rand_history(&mut r);
        writeln!(out, "{}", history(&rt, &calls, &mut kinds)).unwrap();
        n += 1;
    }
    out.flush().unwrap();
    println!("{}", json!({"histories": n, "kinds": kinds}));
}

// ---------------------------------------------------------------------------------------------------------------

/// a call in progress
struct Running {
    f: Pin<Box<dyn Future<Output = Vec<(u32, u8, u8)>>>>,
    flag: Arc<Flag>,
    waker: Waker,
    begun: Option<u64>,
    done: Option<(u64, Vec<(u32, u8, u8)>)>,
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// One poll of the given call, with leave to take one lock
fn step<'a>(
    r: &'a mut Running,
    closed: &'a mut tokio::sync::mpsc::UnboundedReceiver<()>,
) -> impl Future<Output = Poll<Vec<(u32, u8, u8)>>> + 'a {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if std::mem::take(&mut first) {
            // come back with a fresh budget
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        // tokio gives a task 128 operations between two yields: use up all but one
        for _ in 0..127 {
            let _ = closed.poll_recv(cx);
        }
        r.flag.0.store(false, Ordering::SeqCst);
        let mut c = Context::from_waker(&r.waker);
        Poll::Ready(r.f.as_mut().poll(&mut c))
    })
}

struct Outcome {
    ops: Vec<(u64, u64, Vec<(u32, u8, u8)>)>,
    end: String,
    fin: Vec<(String, Vec<(u32, u8, u8)>)>,
    swept: Vec<(String, Vec<(u32, u8, u8)>)>,
    /// at every step: who could go and who went
    choices: Vec<(Vec<usize>, usize)>,
}

struct Scenario {
    init: Vec<Call>,
    ops: Vec<Call>,
    looks: Vec<String>,
}

/// one schedule: `plan` names the choice at each of the first steps (an index into those who can go)
fn schedule(rt: &tokio::runtime::Runtime, sc: &Scenario, plan: &mut dyn FnMut(usize, &[usize], Option<usize>) -> usize) -> Outcome {
    let t = Arc::new(TopicsTable::new());
    let mut o = Outcome { ops: vec![], end: "ok".into(), fin: vec![], swept: vec![], choices: vec![] };
    for c in &sc.init {
        if let Err(e) = alone(rt, &t, c) {
            o.end = format!("{} in {}", e, c.json());
            return o;
        }
    }
    let mut runs: Vec<Running> = sc
        .ops
        .iter()
        .map(|c| {
            let (t, c) = (t.clone(), c.clone());
            let flag = Arc::new(Flag(AtomicBool::new(true)));
            Running {
                f: Box::pin(async move { perform(&t, &c).await }),
                waker: Waker::from(flag.clone()),
                flag,
                begun: None,
                done: None,
            }
        })
        .collect();
    let mut clock = 0;
    let end = catch_unwind(AssertUnwindSafe(|| {
        rt.block_on(async {
            let (_, mut closed) = tokio::sync::mpsc::unbounded_channel();
            let mut last = None;
            let mut k = 0;
            let mut idle = 0;
            loop {
                let able: Vec<usize> = (0..runs.len())
                    .filter(|&x| runs[x].done.is_none() && runs[x].flag.0.load(Ordering::SeqCst))
                    .collect();
                if able.is_empty() {
                    if runs.iter().all(|x| x.done.is_some()) {
                        return "ok".to_string();
                    }
                    idle += 1;
                    if idle > 200 {
                        return "deadlock".to_string();
                    }
                    tokio::time::sleep(std::time::Duration::from_millis(5)).await;
                    continue;
                }
                let x = if able.len() == 1 { able[0] } else { plan(k, &able, last) };
                if able.len() > 1 {
                    o.choices.push((able.clone(), x));
                    k += 1;
                }
                last = Some(x);
                let r = &mut runs[x];
                if r.begun.is_none() {
                    clock += 1;
                    r.begun = Some(clock);
                }
                if let Poll::Ready(a) = step(r, &mut closed).await {
                    clock += 1;
                    r.done = Some((clock, a));
                }
            }
        })
    }));
    o.end = end.unwrap_or_else(|_| "panic".to_string());
    if o.end != "ok" {
        std::mem::forget(runs);
        std::mem::forget(t);
        return o;
    }
    for r in runs {
        let (e, a) = r.done.unwrap();
        o.ops.push((r.begun.unwrap(), e, a));
    }
    afterwards(rt, &t, sc, &mut o.fin, &mut o.swept, &mut o.end);
    o
}

/// look at the table, then remove everything by the calls meant for that and look again
fn afterwards(
    rt: &tokio::runtime::Runtime,
    t: &TopicsTable,
    sc: &Scenario,
    fin: &mut Vec<(String, Vec<(u32, u8, u8)>)>,
    swept: &mut Vec<(String, Vec<(u32, u8, u8)>)>,
    end: &mut String,
) {
    let mut todo: Vec<(u8, Call)> = vec![];
    let look = |x: &String| Call { op: "look", client: 0, topic: x.clone(), qos: 0, flags: 0 };
    for x in &sc.looks {
        todo.push((1, look(x)));
    }
    let clients: HashSet<u32> = sc.init.iter().chain(sc.ops.iter()).map(|c| c.client).filter(|c| *c != 0).collect();
    for c in clients {
        todo.push((0, Call { op: "all", client: c, topic: String::new(), qos: 0, flags: 0 }));
    }
    for x in &sc.looks {
        todo.push((2, look(x)));
    }
    for (k, c) in todo {
        match alone(rt, t, &c) {
            Ok(a) if k == 1 => fin.push((c.topic, a)),
            Ok(a) if k == 2 => swept.push((c.topic, a)),
            Ok(_) => {}
            Err(e) => {
                *end = format!("{} afterwards in {}", e, c.json());
                return;
            }
        }
    }
}

fn looks_json(v: &[(String, Vec<(u32, u8, u8)>)]) -> Value {
    Value::Array(v.iter().map(|(t, a)| json!({"t": split(t, "look"), "r": ans_json(a)})).collect())
}
fn record(sc: &Scenario, o: &Outcome, sched: bool) -> Value {
    let ops: Vec<Value> = sc
        .ops
        .iter()
        .zip(&o.ops)
        .map(|(c, (b, e, a))| json!({"c": c.json(), "b": b, "e": e, "r": ans_json(a)}))
        .collect();
    let mut v = json!({
        "init": sc.init.iter().map(|c| c.json()).collect::<Vec<_>>(),
        "ops": ops, "fin": looks_json(&o.fin), "swept": looks_json(&o.swept), "end": o.end,
    });
    if sched {
        v["sched"] = json!(o.choices.iter().map(|c| c.1).collect::<Vec<_>>());
    }
    if o.end != "ok" {
        v["called"] = json!(sc.ops.iter().map(|c| c.json()).collect::<Vec<_>>());
    }
    v
}

/// all schedules of a scenario, depth first, up to `max`, switching between calls that could go on at most `bound`
/// times; then `random` seeded ones if that was not all
fn explore(
    rt: &tokio::runtime::Runtime,
    sc: &Scenario,
    max: u64,
    bound: usize,
    random: u64,
    rng: &mut Rng,
    emit: &mut dyn FnMut(&Outcome),
) -> (u64, bool) {
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    let mut n = 0;
    let mut full = true;
    while let Some(prefix) = stack.pop() {
        if n >= max {
            full = false;
            break;
        }
        n += 1;
        let o = schedule(rt, sc, &mut |k, able, last| {
            if k < prefix.len() {
                if able.contains(&prefix[k]) {
                    return prefix[k];
                }
                return able[0];
            }
            match last {
                Some(l) if able.contains(&l) => l,
                _ => able[0],
            }
        });
        // branch at every later choice
        let mut pre = 0;
        let mut last = None;
        for (k, (able, x)) in o.choices.iter().enumerate() {
            if k >= prefix.len() {
                for y in able {
                    if y != x {
                        let cost = matches!(last, Some(l) if able.contains(&l) && l != *y) as usize;
                        if pre + cost > bound {
                            full = false;
                            continue;
                        }
                        let mut p: Vec<usize> = o.choices[..k].iter().map(|c| c.1).collect();
                        p.push(*y);
                        stack.push(p);
                    }
                }
            }
            if matches!(last, Some(l) if able.contains(&l) && l != *x) {
                pre += 1;
            }
            last = Some(*x);
        }
        emit(&o);
        if o.end != "ok" {
            return (n, false);
        }
    }
    if !full {
        for _ in 0..random {
            n += 1;
            let o = schedule(rt, sc, &mut |_, able, _| *rng.pick(able));
            emit(&o);
            if o.end != "ok" {
                break;
            }
        }
    }
    (n, full)
}

/// several threads at once, without any control
fn stress(seed: u64, threads: usize, per: usize) -> Value {
    let mut r = Rng(seed);
    let filters = ["a", "a/b", "a/#", "+/b", "#", "a/b/c", "b/+", "/a"];
    let topics = ["a", "a/b", "a/b/c", "b/b", "/a"];
    let mut init = vec![];
    for c in 1..=3 {
        if r.chance(70) {
            init.push(Call { op: "sub", client: c, topic: r.pick(&filters).to_string(), qos: 0, flags: r.below(4) as u8 });
        }
    }
    let plans: Vec<Vec<Call>> = (0..threads)
        .map(|k| {
            (0..per)
                .map(|_| {
                    let client = 1 + ((k + r.below(2)) % 3) as u32;
                    let topic = r.pick(&filters).to_string();
                    match r.below(10) {
                        0..=3 => Call { op: "sub", client, topic, qos: r.below(3) as u8, flags: r.below(4) as u8 },
                        4..=5 => Call { op: "unsub", client, topic, qos: 0, flags: 0 },
                        6 => Call { op: "all", client, topic: String::new(), qos: 0, flags: 0 },
                        _ => Call { op: "look", client: 0, topic: r.pick(&topics).to_string(), qos: 0, flags: 0 },
                    }
                })
                .collect()
        })
        .collect();
    let sc = Scenario {
        init,
        ops: plans.iter().flatten().cloned().collect(),
        looks: topics.iter().map(|x| x.to_string()).collect(),
    };
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut o = Outcome { ops: vec![], end: "ok".into(), fin: vec![], swept: vec![], choices: vec![] };
    let t = Arc::new(TopicsTable::new());
    for c in &sc.init {
        if let Err(e) = alone(&rt, &t, c) {
            o.end = e;
            return record(&sc, &o, false);
        }
    }
    let clock = Arc::new(AtomicU64::new(0));
    let got: Arc<Mutex<Vec<Vec<(u64, u64, Vec<(u32, u8, u8)>)>>>> = Arc::new(Mutex::new(vec![vec![]; threads]));
    let left = Arc::new(AtomicUsize::new(threads));
    let gate = Arc::new(std::sync::Barrier::new(threads));
    let mut hs = vec![];
    for (k, plan) in plans.into_iter().enumerate() {
        let (t, clock, got, left, gate) = (t.clone(), clock.clone(), got.clone(), left.clone(), gate.clone());
        hs.push(std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            gate.wait();
            for c in plan {
                let b = clock.fetch_add(1, Ordering::SeqCst);
                let a = match catch_unwind(AssertUnwindSafe(|| rt.block_on(perform(&t, &c)))) {
                    Ok(a) => a,
                    Err(_) => return,
                };
                let e = clock.fetch_add(1, Ordering::SeqCst);
                got.lock().unwrap()[k].push((b, e, a));
            }
            left.fetch_sub(1, Ordering::SeqCst);
        }));
    }
    let t0 = std::time::Instant::now();
    while left.load(Ordering::SeqCst) > 0 && t0.elapsed().as_secs() < 20 && hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(std::time::Duration::from_micros(200));
    }
    // the last decrement and the end of its thread are not one
    if left.load(Ordering::SeqCst) > 0 {
        o.end = if hs.iter().all(|h| h.is_finished()) { "panic" } else { "never returns" }.into();
        std::mem::forget(t);
        return record(&sc, &o, false);
    }
    o.ops = got.lock().unwrap().iter().flatten().cloned().collect();
    afterwards(&rt, &t, &sc, &mut o.fin, &mut o.swept, &mut o.end);
    record(&sc, &o, false)
}

pub fn conc(args: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = BufWriter::new(File::create(arg(args, "--out").unwrap()).unwrap());
    let mut rng = Rng(num(args, "--seed", 1));
    let (max, bound, random) = (num(args, "--max", 1000), num(args, "--bound", 99) as usize, num(args, "--random", 0));
    let (mut scenarios, mut runs, mut complete, mut histories) = (0, 0, 0, 0);
    if let Some(p) = arg(args, "--scen") {
        let todo: Vec<Scenario> = read(&p)
            .iter()
            .map(|v| {
                let calls = |k: &str| v[k].as_array().unwrap().iter().map(Call::of).collect::<Vec<_>>();
                Scenario {
                    init: calls("init"),
                    ops: calls("ops"),
                    looks: v["looks"].as_array().unwrap().iter().map(levels).collect(),
                }
            })
            .collect();
        let next = AtomicUsize::new(0);
        let seed = rng.next();
        let res: Mutex<Vec<(usize, Vec<String>, u64, bool)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= todo.len() {
                            return;
                        }
                        let mut seen = HashSet::new();
                        let mut lines = vec![];
                        let mut rng = Rng(seed ^ k as u64);
                        let (n, full) = explore(&rt, &todo[k], max, bound, random, &mut rng, &mut |o| {
                            // the schedule is told for the first of those with the same history only
                            if seen.insert(record(&todo[k], o, false).to_string()) {
                                lines.push(record(&todo[k], o, true).to_string());
                            }
                        });
                        res.lock().unwrap().push((k, lines, n, full));
                    }
                });
            }
        });
        let mut res = res.into_inner().unwrap();
        res.sort_by_key(|x| x.0);
        for (_, lines, n, full) in res {
            scenarios += 1;
            runs += n;
            complete += full as u64;
            for l in lines {
                histories += 1;
                writeln!(out, "{}", l).unwrap();
            }
        }
    }
    let stressed = num(args, "--stress", 0);
    for _ in 0..stressed {
        let threads = 3 + rng.below(3);
        let v = stress(rng.next(), threads, 6);
        let bad = v["end"] != "ok";
        writeln!(out, "{}", v).unwrap();
        if bad {
            break;
        }
    }
    out.flush().unwrap();
    println!(
        "{}",
        json!({"scenarios": scenarios, "schedules": runs, "complete": complete, "histories": histories, "stressed": stressed})
    );
    // calls that never return may have left threads behind
    std::process::exit(0);
}
