//! Drives the packet parser and serialiser and records what they do.
use crate::pkt::*;
use crate::rng::Rng;
use apiformes_packet::prelude::*;
use bytes::{Buf, BufMut, Bytes, BytesMut};
use serde_json::Value;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::VecDeque;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Cursor, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

/// counts what is allocated, so that the cost of parsing can be recorded
pub struct Counting;
static CUR: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = CUR.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        PEAK.fetch_max(c, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let d = n as i64 - l.size() as i64;
        let c = CUR.fetch_add(d, Relaxed) + d;
        PEAK.fetch_max(c, Relaxed);
        System.realloc(p, l, n)
    }
}

/// a buffer that lies in several chunks
struct Chunks<'a> {
    data: &'a [u8],
    cuts: &'a [usize],
    pos: usize,
    at: usize,
}
impl<'a> Chunks<'a> {
    fn new(data: &'a [u8], cuts: &'a [usize]) -> Self {
        Chunks { data, cuts, pos: 0, at: 0 }
    }
}
impl Buf for Chunks<'_> {
    fn remaining(&self) -> usize {
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        let e = self.cuts.get(self.at).copied().unwrap_or(self.data.len());
        &self.data[self.pos..e]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.remaining());
        self.pos += n;
        while self.at < self.cuts.len() && self.cuts[self.at] <= self.pos {
            self.at += 1;
        }
    }
}
/// the same, one byte per chunk
struct Bytewise<'a> {
    data: &'a [u8],
    pos: usize,
}
impl Buf for Bytewise<'_> {
    fn remaining(&self) -> usize {
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        &self.data[self.pos..(self.pos + 1).min(self.data.len())]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.remaining());
        self.pos += n;
    }
}

static STARTED: AtomicU64 = AtomicU64::new(0);
fn now(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64 + 1
}

pub struct Out {
    w: BufWriter<File>,
    cur: File,
    t0: Instant,
    pub count: usize,
    pub kinds: std::collections::BTreeMap<String, usize>,
    pub parses: usize,
}
impl Out {
    pub fn new(path: &str) -> Out {
        let t0 = Instant::now();
        let cur = File::create(format!("{}.cur", path)).unwrap();
        let hang = format!("{}.hang", path);
        let _ = std::fs::remove_file(&hang);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = STARTED.load(Relaxed);
            if s != 0 && now(t0) > s + 20_000 {
                std::fs::write(&hang, "hang").unwrap();
                std::process::exit(9);
            }
        });
        Out {
            w: BufWriter::new(File::create(path).unwrap()),
            cur,
            t0,
            count: 0,
            kinds: Default::default(),
            parses: 0,
        }
    }
    /// the input that is about to be parsed, for the case that the process does not survive it
    fn begin(&mut self, b: &[u8]) {
        let l = b.len().min(4096);
        self.cur.write_all_at(&(l as u64).to_le_bytes(), 0).unwrap();
        self.cur.write_all_at(&b[..l], 8).unwrap();
    }
    pub fn line(&mut self, kind: &str, s: &str) {
        crate::watch::step();
        self.w.write_all(s.as_bytes()).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.count += 1;
        *self.kinds.entry(kind.to_string()).or_default() += 1;
    }
    pub fn finish(&mut self) {
        self.w.flush().unwrap();
    }
    /// parse `b` and write down the outcome
    pub fn outcome(&mut self, b: &[u8], s: &mut String) {
        self.begin(b);
        self.parse(b).0.json(s);
    }
    fn parse<B: Buf>(&mut self, mut buf: B) -> (Outcome, i64) {
        self.parses += 1;
        STARTED.store(now(self.t0), Relaxed);
        let before = buf.remaining();
        let base = CUR.load(Relaxed);
        PEAK.store(base, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| Packet::from_bytes(&mut buf)));
        let al = PEAK.load(Relaxed) - base;
        let o = match r {
            Err(_) => Outcome::bad("panic"),
            Ok(Err(DataParseError::InsufficientBuffer { .. })) => Outcome::bad("more"),
            Ok(Err(_)) => Outcome::bad("bad"),
            Ok(Ok(p)) => {
                let n = before - buf.remaining();
                catch_unwind(AssertUnwindSafe(|| Outcome::ok(n, &p))).unwrap_or_else(|_| Outcome::bad("panic"))
            }
        };
        STARTED.store(0, Relaxed);
        (o, al)
    }
}

#[derive(Clone, PartialEq)]
struct Outcome {
    s: &'static str,
    n: usize,
    fl: usize,
    p: Option<P>,
    re: VB,
    ge: bool,
}
impl Outcome {
    fn bad(s: &'static str) -> Outcome {
        Outcome { s, n: 0, fl: 0, p: None, re: VB::default(), ge: true }
    }
    fn ok(n: usize, p: &Packet) -> Outcome {
        let mut re = BytesMut::new();
        p.to_bytes(&mut re);
        let o = observe(p);
        let ge = get_agrees(p, &o);
        Outcome { s: "ok", n, fl: p.frame_len(), p: Some(o), re: VB::compress(&re), ge }
    }
    /// the same apart from the order of the properties in the bytes
    fn same(&self, o: &Outcome) -> bool {
        self.s == o.s
            && self.n == o.n
            && self.fl == o.fl
            && self.p == o.p
            && self.re.pre.len() + self.re.n == o.re.pre.len() + o.re.n
    }
    fn json(&self, o: &mut String) {
        o.push_str(&format!("{{\"s\":\"{}\"", self.s));
        if let Some(p) = &self.p {
            o.push_str(&format!(",\"n\":{},\"fl\":{},\"ge\":{},\"p\":", self.n, self.fl, self.ge));
            p.json(o);
            o.push_str(",\"re\":");
            self.re.json(o);
        }
        o.push('}');
    }
}

/// Parse `b` in one piece and in other pieces. `vp`: a proper prefix of a valid packet
fn dec(out: &mut Out, rng: &mut Rng, kind: &str, b: &[u8], vp: bool, splits: usize) {
    out.begin(b);
    let (o, al) = out.parse(b);
    let mut fr: Vec<Outcome> = vec![];
    let mut nfr = 0;
    let mut add = |x: Outcome| {
        nfr += 1;
        if !x.same(&o) && !fr.iter().any(|y| x.same(y)) {
            fr.push(x);
        }
    };
    add(out.parse(Cursor::new(b)).0);
    if splits > 0 {
        add(out.parse(Bytewise { data: b, pos: 0 }).0);
        add(out.parse(Bytes::copy_from_slice(b)).0);
        add(out.parse(BytesMut::from(b)).0);
        let k = if b.is_empty() { 0 } else { rng.below(b.len()) };
        let mut dq: VecDeque<u8> = b[..k].iter().copied().collect();
        for x in &b[k..] {
            dq.push_back(*x);
        }
        add(out.parse(dq).0);
        add(out.parse(b[..k].chain(&b[k..])).0);
        for i in 0..splits {
            let cuts: Vec<usize> = if b.len() < 2 {
                vec![]
            } else if splits >= b.len() {
                vec![1 + i % (b.len() - 1)]
            } else {
                let m = 1 + rng.below(4);
                let mut c: Vec<usize> = (0..m).map(|_| 1 + rng.below(b.len() - 1)).collect();
                c.sort();
                c.dedup();
                c
            };
            add(out.parse(Chunks::new(b, &cuts)).0);
        }
    }
    let mut s = String::from("{\"k\":\"dec\",\"b\":");
    VB::compress(b).json(&mut s);
    s.push_str(&format!(",\"vp\":{},\"al\":{},\"nfr\":{},\"o\":", vp, al, nfr));
    o.json(&mut s);
    s.push_str(",\"fr\":[");
    for (i, f) in fr.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        f.json(&mut s);
    }
    s.push_str("]}");
    out.line(kind, &s);
}

/// Build `p` through the API, look at it, serialise it, parse it back
fn enc(out: &mut Out, kind: &str, p: &P) -> Option<Vec<u8>> {
    let mut s = String::from("{\"k\":\"enc\",\"p\":");
    p.json(&mut s);
    let built = catch_unwind(AssertUnwindSafe(|| build(p)));
    let pk = match built {
        Ok(Ok(pk)) => pk,
        r => {
            s.push_str(if r.is_err() { ",\"s\":\"panic\"}" } else { ",\"s\":\"refused\"}" });
            out.line(kind, &s);
            return None;
        }
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let g = observe(&pk);
        let ge = get_agrees(&pk, &g);
        let mut b = BytesMut::new();
        pk.to_bytes(&mut b);
        let fl = pk.frame_len();
        // into a buffer of exactly the announced size, in two pieces
        let mut x = vec![0u8; fl];
        let k = fl / 2;
        let sv = catch_unwind(AssertUnwindSafe(|| {
            let (l, r) = x.split_at_mut(k);
            let mut m = l.chain_mut(r);
            pk.to_bytes(&mut m);
            m.remaining_mut()
        }));
        let mut v = Vec::new();
        pk.clone().to_bytes(&mut v);
        let sv = matches!(sv, Ok(0)) && observe_len(&x) && x.len() == b.len() && v.len() == b.len();
        (g, ge, b, fl, sv)
    }));
    match r {
        Err(_) => {
            s.push_str(",\"s\":\"panic\"}");
            out.line(kind, &s);
            None
        }
        Ok((g, ge, b, fl, sv)) => {
            s.push_str(&format!(",\"s\":\"ok\",\"fl\":{},\"ge\":{},\"sv\":{},\"g\":", fl, ge, sv));
            g.json(&mut s);
            s.push_str(",\"b\":");
            VB::compress(&b).json(&mut s);
            s.push_str(",\"o\":");
            out.begin(&b);
            let (o, _) = out.parse(&b[..]);
            o.json(&mut s);
            s.push('}');
            out.line(kind, &s);
            Some(b.to_vec())
        }
    }
}
fn observe_len(x: &[u8]) -> bool {
    !x.is_empty()
}

fn varint(mut x: usize, o: &mut Vec<u8>) {
    loop {
        let b = (x & 127) as u8;
        x >>= 7;
        if x > 0 {
            o.push(b | 128)
        } else {
            o.push(b);
            break;
        }
    }
}
/// header length and body of a frame
fn body(b: &[u8]) -> Option<(usize, &[u8])> {
    let mut l = 0usize;
    for i in 1..5 {
        let x = *b.get(i)? as usize;
        l |= (x & 127) << (7 * (i - 1));
        if x < 128 {
            return b.get(i + 1..i + 1 + l).map(|s| (i + 1, s));
        }
    }
    None
}
fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![first];
    varint(body.len(), &mut o);
    o.extend_from_slice(body);
    o
}

fn text(r: &mut Rng, max: usize) -> Vec<u8> {
    let cs = ["a", "b", "z", " ", "é", "ß", "中", "🦀", "~", "\u{a0}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "$", "/"];
    let n = if r.chance(5) { r.below(300) } else { r.below(max) };
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(&cs[..]));
    }
    s.into_bytes()
}
fn filter(r: &mut Rng) -> Vec<u8> {
    let mut v: Vec<String> = vec![];
    for _ in 0..1 + r.below(4) {
        v.push(match r.below(5) {
            0 => "+".into(),
            1 => "".into(),
            _ => String::from_utf8(text(r, 3)).unwrap().replace('/', ""),
        });
    }
    if r.chance(30) {
        v.push("#".into());
    }
    v.join("/").into_bytes()
}
fn blob(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = if r.chance(5) { r.below(400) } else { r.below(max) };
    (0..n).map(|_| r.next() as u8).collect()
}
const OWNERS: [(u8, &[u16]); 27] = [
    (1, &[3, 16]), (2, &[3, 16]), (3, &[3, 16]), (8, &[3, 16]), (9, &[3, 16]), (11, &[3, 8]), (17, &[1, 2, 14]),
    (18, &[2]), (19, &[2]), (21, &[1, 2, 15]), (22, &[1, 2, 15]), (23, &[1]), (24, &[16]), (25, &[1]), (26, &[2]),
    (28, &[2, 14]), (31, &[2, 4, 5, 6, 7, 9, 11, 14, 15]), (33, &[1, 2]), (34, &[1, 2]), (35, &[3]), (36, &[2]),
    (37, &[2]), (38, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16]), (39, &[1, 2]), (40, &[2]), (41, &[2]), (42, &[2]),
];
pub fn rand_value(r: &mut Rng, ty: &str) -> Vec<u8> {
    match ty {
        "bool" => vec![r.below(2) as u8],
        "byte" => vec![r.below(2) as u8],
        "u16" => (1 + r.below(65535) as u16).to_be_bytes().to_vec(),
        "u32" => (1 + (r.next() >> r.below(32)) as u32 % 0xfffffffe).to_be_bytes().to_vec(),
        "var" => (1 + ((r.next() as u32 & 0xfffffff) >> r.below(28)) % 0xffffffe).to_be_bytes().to_vec(),
        "str" => text(r, 8),
        _ => blob(r, 8),
    }
}
fn rand_props(r: &mut Rng, owner: u16) -> Vec<(u8, Vec<u8>)> {
    let mut ps = vec![];
    let p = *r.pick(&[0, 10, 30, 60]);
    for (k, os) in OWNERS.iter() {
        if !os.contains(&owner) {
            continue;
        }
        let n = if *k == 38 && r.chance(p) { 1 + r.below(4) } else { r.chance(p) as usize };
        for _ in 0..n {
            ps.push((*k, rand_value(r, prop(*k).1)));
        }
    }
    ps
}
pub fn rand_packet(r: &mut Rng) -> P {
    let t = 1 + r.below(15) as u8;
    let mut p = P::new(t);
    let id = 1 + r.below(65535) as i64;
    if t != 12 && t != 13 {
        p.ps = rand_props(r, t as u16);
    }
    let codes: Vec<u8> = (0..=255u8)
        .filter(|b| match t {
            2 => connack_rc(*b).is_some(),
            4 | 5 => puback_rc(*b).is_some(),
            6 | 7 => pubrel_rc(*b).is_some(),
            9 => suback_rc(*b).is_some(),
            11 => unsuback_rc(*b).is_some(),
            14 => disconnect_rc(*b).is_some(),
            15 => auth_rc(*b).is_some(),
            _ => false,
        })
        .collect();
    match t {
        1 => {
            p.cid = text(r, 10);
            p.keep = r.next() as u16;
            p.cf = (r.below(2) << 1) as u8;
            if r.chance(50) {
                p.will = Some(W { ps: rand_props(r, 16), topic: text(r, 6), pay: blob(r, 6) });
                p.cf |= 4 | (r.below(3) << 3) as u8 | (r.below(2) << 5) as u8;
            }
            if r.chance(50) {
                p.user = Some(text(r, 6));
                p.cf |= 128;
            }
            if r.chance(50) {
                p.pass = Some(blob(r, 6));
                p.cf |= 64;
            }
        }
        2 => {
            p.rc = *r.pick(&codes) as i64;
            p.af = if p.rc == 0 { r.below(2) as u8 } else { 0 };
        }
        3 => {
            let q = r.below(3) as u8;
            p.fl = q << 1 | r.below(2) as u8 | if q > 0 { (r.below(2) << 3) as u8 } else { 0 };
            p.topic = text(r, 10);
            if q > 0 {
                p.id = id;
            }
            p.pay = VB::compress(&if r.chance(10) { vec![r.next() as u8; r.below(20000)] } else { blob(r, 20) });
        }
        4..=7 => {
            p.id = id;
            p.rc = *r.pick(&codes) as i64;
        }
        8 | 10 => {
            p.id = id;
            for _ in 0..1 + r.below(4) {
                let o = if t == 8 { (r.below(3) | r.below(4) << 2 | r.below(3) << 4) as u8 } else { 0 };
                p.subs.push((filter(r), o));
            }
        }
        9 | 11 => {
            p.id = id;
            p.rcs = (0..1 + r.below(5)).map(|_| *r.pick(&codes)).collect();
        }
        14 | 15 => p.rc = *r.pick(&codes) as i64,
        _ => (),
    }
    p
}

fn mutate(r: &mut Rng, b: &[u8], pool: &[Vec<u8>]) -> Vec<u8> {
    const SPECIAL: [u8; 24] =
        [0, 1, 2, 3, 4, 5, 16, 31, 32, 35, 38, 43, 47, 48, 63, 64, 126, 127, 128, 129, 194, 192, 237, 255];
    let mut v = b.to_vec();
    let hdr = body(b).map(|x| x.0);
    let inside = hdr.is_some() && r.chance(60); // keep the header right
    let h = if inside { hdr.unwrap() } else { 0 };
    let mut x = v.split_off(h);
    for _ in 0..1 + r.below(2) {
        let n = x.len();
        match r.below(7) {
            0 | 1 if n > 0 => {
                let i = r.below(n);
                x[i] = *r.pick(&SPECIAL);
            }
            2 if n > 0 => {
                let i = r.below(n);
                x[i] ^= 1 << r.below(8);
            }
            3 if n > 0 => {
                let i = r.below(n);
                x[i] = x[i].wrapping_add(if r.chance(50) { 1 } else { 255 });
            }
            4 => {
                let i = r.below(n + 1);
                x.insert(i, *r.pick(&SPECIAL));
            }
            5 if n > 0 => {
                x.remove(r.below(n));
            }
            6 if n > 0 => {
                let i = r.below(n);
                let j = i + r.below(n - i + 1);
                let part = x[i..j].to_vec();
                let src = if r.chance(50) { part } else { r.pick(pool).iter().copied().take(12).collect() };
                let k = r.below(x.len() + 1);
                for (m, c) in src.into_iter().enumerate() {
                    x.insert(k + m, c);
                }
            }
            _ => x.truncate(r.below(n + 1)),
        }
    }
    if inside {
        frame(b[0], &x)
    } else {
        v.extend(x);
        v
    }
}

fn arg<'a>(args: &'a [String], k: &str, d: &'a str) -> &'a str {
    args.iter().position(|a| a == k).map(|i| &args[i + 1][..]).unwrap_or(d)
}

/// codec --cases FILE --out FILE --seed N --scale PERCENT --groups a,b,c
pub fn run(args: &[String]) {
    std::panic::set_hook(Box::new(|_| ()));
    let mut rng = Rng(arg(args, "--seed", "1").parse::<u64>().unwrap().wrapping_mul(7919));
    let scale: usize = arg(args, "--scale", "100").parse().unwrap();
    let groups: Vec<&str> = arg(args, "--groups", "enc,cases,prefix,tail,cut,mutate,random,topics").split(',').collect();
    let on = |g: &str| groups.contains(&g);
    let mut out = Out::new(arg(args, "--out", "codec.ndjson"));
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        // one input, given as a list of numbers
        let b: Vec<u8> = args[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        dec(&mut out, &mut rng, "dec", &b, false, 8);
        out.finish();
        return;
    }
    let mut good: Vec<P> = vec![];
    let mut all: Vec<Vec<u8>> = vec![];
    let f = BufReader::new(File::open(arg(args, "--cases", "cases.ndjson")).unwrap());
    for l in f.lines() {
        let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
        all.push(VB::of(&v["b"]).expand());
        if v["api"] == true {
            good.push(P::of(&v["p"]));
        }
    }
    let n = |base: usize| (base * scale / 100).max(1);
    // the bytes of valid packets, small ones
    let mut valid: Vec<Vec<u8>> = vec![];
    let extra = n(1500);
    for _ in 0..extra {
        good.push(rand_packet(&mut rng));
    }
    let known = good.len() - extra;
    for (i, p) in good.iter().enumerate() {
        let kind = if i < known { "enc-spec" } else { "enc-random" };
        let b = if on("enc") {
            enc(&mut out, kind, p)
        } else {
            // only the bytes are wanted
            catch_unwind(AssertUnwindSafe(|| {
                build(p).ok().map(|x| {
                    let mut b = BytesMut::new();
                    x.to_bytes(&mut b);
                    b.to_vec()
                })
            }))
            .unwrap_or(None)
        };
        if let Some(b) = b {
            if b.len() < 400 {
                valid.push(b);
            }
        }
    }
    if on("cases") {
        for b in &all {
            dec(&mut out, &mut rng, "dec-spec", b, false, 2);
        }
        for b in valid.iter().skip(known) {
            dec(&mut out, &mut rng, "dec-valid", b, false, 2);
        }
    }
    // a build that cannot serialise leaves no valid bytes of its own
    let pool: Vec<Vec<u8>> = all.iter().filter(|b| b.len() > 1 && b.len() < 400).cloned().collect();
    let spec_valid: Vec<Vec<u8>> = all[..known.min(all.len())].iter().filter(|b| b.len() < 400).cloned().collect();
    if on("prefix") {
        for (i, b) in spec_valid.iter().enumerate() {
            let step = if scale >= 100 && i % 4 == 0 && b.len() < 60 { 1 } else { 1 + b.len() / 8 };
            let mut k = rng.below(step);
            while k < b.len() {
                dec(&mut out, &mut rng, "dec-prefix", &b[..k], true, if on("split") { b.len() } else { 0 });
                k += step;
            }
        }
        // headers of packets too long to spell out, alone and with the beginning of a body
        for t in [0x30u8, 0x31, 0x32, 0x34, 0x3d, 0x82, 0x90, 0xa2, 0xb0] {
            for (lo, hi) in [(9usize, 127), (128, 16383), (16384, 2097151), (2097152, 268435455)] {
                for l in [lo, hi, lo + rng.below(hi - lo)] {
                    let mut b = vec![t];
                    let mut x = l;
                    while x > 127 {
                        b.push(128 | (x & 127) as u8);
                        x >>= 7;
                    }
                    b.push(x as u8);
                    for k in 1..=b.len() {
                        dec(&mut out, &mut rng, "dec-prefix", &b[..k], true, if on("split") { k } else { 0 });
                    }
                    let body: &[u8] = match t {
                        0x30 | 0x31 => &[0, 2, 97, 47, 0, 1, 2],
                        0x32 | 0x34 | 0x3d => &[0, 2, 97, 47, 1, 2, 0, 1],
                        0x82 => &[0, 9, 0, 0, 1, 97, 0, 0],
                        0xa2 => &[0, 9, 0, 0, 1, 97, 0, 1],
                        _ => &[0, 9, 0, 0, 0],
                    };
                    let h = b.len();
                    b.extend_from_slice(body);
                    for k in [h + 1 + rng.below(body.len()), b.len()] {
                        dec(&mut out, &mut rng, "dec-prefix", &b[..k], true, 0);
                    }
                }
            }
        }
        for b in all.iter().filter(|b| b.len() >= 400).take(n(40)) {
            for _ in 0..2 {
                // of the generated frames only the well-formed ones are this long
                let k = rng.below(b.len());
                dec(&mut out, &mut rng, "dec-prefix", &b[..k], true, 0);
            }
        }
    }
    if on("tail") {
        for _ in 0..n(3000) {
            let mut b = rng.pick(&spec_valid).clone();
            if rng.chance(50) {
                b.extend_from_slice(&rng.pick(&pool).clone());
            } else {
                b.extend(blob(&mut rng, 12));
            }
            dec(&mut out, &mut rng, "dec-tail", &b, false, 1);
        }
    }
    if on("cut") {
        // complete frames whose body ends too early or too late
        for _ in 0..n(4000) {
            let b = rng.pick(&spec_valid).clone();
            if let Some((_, x)) = body(&b) {
                let mut x = x.to_vec();
                if rng.chance(60) {
                    x.truncate(rng.below(x.len() + 1));
                } else {
                    let i = rng.below(x.len() + 1);
                    let ins = blob(&mut rng, 4);
                    for (m, c) in ins.into_iter().enumerate() {
                        x.insert(i + m, c);
                    }
                }
                let mut f = frame(b[0], &x);
                if rng.chance(30) {
                    f.extend(blob(&mut rng, 6));
                }
                dec(&mut out, &mut rng, "dec-cut", &f, false, 1);
            }
        }
    }
    if on("mutate") {
        for _ in 0..n(9000) {
            let b = if rng.chance(70) { rng.pick(&spec_valid).clone() } else { rng.pick(&valid).clone() };
            let m = mutate(&mut rng, &b, &pool);
            dec(&mut out, &mut rng, "dec-mutated", &m, false, 1);
        }
    }
    if on("random") {
        for _ in 0..n(3000) {
            let mut b = blob(&mut rng, 30);
            if rng.chance(70) {
                let first = [16, 32, 48, 50, 61, 64, 80, 98, 112, 130, 144, 162, 176, 192, 208, 224, 240][rng.below(17)];
                b = frame(first, &b);
            }
            dec(&mut out, &mut rng, "dec-random", &b, false, 1);
        }
    }
    if on("split") {
        // every way to cut a small frame in two, and many to cut it into more
        for _ in 0..n(1500) {
            let b = if rng.chance(60) { rng.pick(&spec_valid).clone() } else { rng.pick(&pool).clone() };
            let s = if b.len() < 80 { b.len() } else { 20 };
            dec(&mut out, &mut rng, "dec-split", &b, false, s);
            dec(&mut out, &mut rng, "dec-split", &b, false, s.min(b.len() / 2));
        }
    }
    if on("topics") {
        topics(&mut out, &mut rng, scale);
    }
    out.finish();
    println!("{{\"records\":{},\"parses\":{},\"kinds\":{}}}", out.count, out.parses, serde_json::to_string(&out.kinds).unwrap());
}

/// One text as topic and as filter, through the builders and through the parser
fn topic(out: &mut Out, s: &[u8]) {
    let st = arc(s);
    let q = |f: &mut dyn FnMut() -> bool| match catch_unwind(AssertUnwindSafe(f)) {
        Ok(true) => "\"y\"",
        Ok(false) => "\"n\"",
        Err(_) => "\"panic\"",
    };
    let a = q(&mut || Publish::new(st.clone(), Bytes::new()).is_ok());
    let b = q(&mut || Subscribe::new(1).add_topic(st.clone(), SubscriptionOptions::empty()).is_ok());
    let c = q(&mut || Unsubscribe::new(1).add_topic(st.clone()).is_ok());
    let d = q(&mut || MqttTopic::new(st.clone()).is_ok());
    let w = q(&mut || MqttTopic::new(st.clone()).map(|t| t.is_wildcard()).unwrap_or(false));
    let mut l = (s.len() as u16).to_be_bytes().to_vec();
    l.extend_from_slice(s);
    let mut pp = |first: u8, body: Vec<u8>| {
        let f = frame(first, &body);
        out.begin(&f);
        match out.parse(&f[..]).0 {
            Outcome { s: "ok", .. } => "\"y\"",
            Outcome { s: "panic", .. } => "\"panic\"",
            _ => "\"n\"",
        }
    };
    let long = s.len() > 65535;
    let (e, f, g) = if long {
        ("\"n\"", "\"n\"", "\"n\"")
    } else {
        (
            pp(48, [&l[..], &[0]].concat()),
            pp(130, [&[0, 1, 0], &l[..], &[0]].concat()),
            pp(162, [&[0, 1, 0], &l[..]].concat()),
        )
    };
    let mut o = String::from("{\"k\":\"topic\",\"b\":");
    VB::compress(s).json(&mut o);
    o.push_str(&format!(
        ",\"bp\":{},\"bs\":{},\"bu\":{},\"mt\":{},\"mw\":{},\"pp\":{},\"ps\":{},\"pu\":{}}}",
        a, b, c, d, w, e, f, g
    ));
    out.line("topic", &o);
}
fn topics(out: &mut Out, rng: &mut Rng, scale: usize) {
    let al: [&str; 6] = ["a", "/", "+", "#", "$", "é"];
    let depth = if scale >= 400 { 6 } else { 5 };
    let mut layer: Vec<String> = vec![String::new()];
    for _ in 0..=depth {
        for s in &layer {
            topic(out, s.as_bytes());
        }
        layer = layer.iter().flat_map(|s| al.iter().map(move |c| format!("{}{}", s, c))).collect();
        if layer[0].len() > depth {
            break;
        }
    }
    // every character that is a control character, or next to one, or otherwise at an edge
    for c in (0..0x180u32).chain([0x7ff, 0x800, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0x10ffff, 0x2028, 0x200b]) {
        if let Some(c) = char::from_u32(c) {
            topic(out, format!("{}", c).as_bytes());
            topic(out, format!("a/{}b", c).as_bytes());
            topic(out, format!("+/{}/#", c).as_bytes());
        }
    }
    for n in [127usize, 128, 65534, 65535, 65536, 70000] {
        topic(out, &vec![b'a'; n]);
        let mut v = vec![b'b'; n];
        v[0] = b'+';
        v[1] = b'/';
        topic(out, &v);
        v[n - 2] = b'/';
        v[n - 1] = b'#';
        topic(out, &v);
        v[n - 2] = b'x';
        topic(out, &v);
    }
    for _ in 0..(2000 * scale / 100) {
        let mut f = String::from_utf8(filter(rng)).unwrap();
        for _ in 0..rng.below(3) {
            let mut cs: Vec<char> = f.chars().collect();
            let i = rng.below(cs.len() + 1);
            cs.insert(i, *rng.pick(&['#', '+', '/', 'q', '$', '\u{7}']));
            f = cs.into_iter().collect();
        }
        topic(out, f.as_bytes());
    }
}
