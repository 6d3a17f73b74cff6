//! Drives the real storage crate (over the arrow2/parquet2 stand-ins) and records what it does.
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use drvlib::*;
mod store;
mod sys;
mod merges;
use store::*;

static BEAT: AtomicU64 = AtomicU64::new(0);
static N: AtomicUsize = AtomicUsize::new(0);
pub fn alive() { BEAT.fetch_add(1, SeqCst); }
/// a store that hangs is an observation like any other
fn watchdog() { std::thread::spawn(|| { sys::mine(); let mut last = BEAT.load(SeqCst); loop { std::thread::sleep(std::time::Duration::from_secs(60)); let now = BEAT.load(SeqCst); if now == last { println!("no operation came back for a minute"); std::process::exit(3); } last = now; } }); }
fn fresh(dir: &str) -> PathBuf { let p = PathBuf::from(format!("{dir}/db-{}", N.fetch_add(1, SeqCst))); let _ = std::fs::remove_dir_all(&p); std::fs::create_dir_all(&p).unwrap(); p }

// ------------------------------------------------------------------ histories
#[derive(Clone)]
struct Tab { n: String, idx: usize, rep: bool, cols: Vec<String> }
const KEYS: &[i64] = &[0, 1, 2, 3, 4, 5, 6, -1, -7, 2000000000, -2000000000];
const TYPES: &[&str] = &["i64", "str", "i16", "bool", "dec", "ts", "i8", "i32"];
pub fn sample(r: &mut Rng, ty: &str) -> String {
        if r.chance(1, 8) { return "null".into(); }
        match ty {
            "bool" => r.chance(1, 2).to_string(), "str" => format!("'{}", *r.pick(&["", "a", "bb", "longer than the others", "\u{e9}\u{20ac}", "null"])),
            "i8" => (*r.pick(&[0i64, 1, -128, 127])).to_string(), "i16" => (*r.pick(&[0i64, 1, -32768, 32767])).to_string(), "i32" => (*r.pick(&[0i64, 1, i32::MIN as i64, i32::MAX as i64])).to_string(),
            "dec" => (*r.pick(&[0i128, 1, -1, 10i128.pow(27), -(10i128.pow(27))])).to_string(), _ => (*r.pick(&[0i64, 1, -1, i64::MIN, i64::MAX])).to_string(),
        }
    }
struct Gen { rng: Rng, tabs: Vec<Tab>, vers: Vec<i64>, keys: usize }
impl Gen {
    fn new(seed: u64) -> Gen { let mut rng = Rng::new(seed); let mut vers: Vec<i64> = (1..4000).collect(); rng.shuffle(&mut vers); let keys = *rng.pick(&[2usize, 4, 7, 11]); Gen { rng, tabs: vec![], vers, keys } }
    fn create(&mut self, idx: usize, rep: bool, log: Option<usize>) -> Value {
        let n = format!("t{}", self.tabs.len()); let r = &mut self.rng;
        let mut o = json!({"a": "create", "t": n, "idx": idx, "rep": rep, "levels": r.range(3, 5), "l0": r.range(0, 3), "l1": *r.pick(&[1usize, 700, 3000, 100000]), "lmul": r.range(1, 3), "part": *r.pick(&[1usize, 300, 1000, 1 << 20]), "pmul": r.range(1, 2), "rg": *r.pick(&[1usize, 2, 3, 7, 1000]), "arr": *r.pick(&[1usize, 2, 3, 8, 10000]), "chunk": *r.pick(&[1usize, 2, 5, 65536]), "apage": *r.pick(&[1usize, 2, 3, 5, 10000])});
        if r.chance(1, 3) { o["dpage"] = json!(*r.pick(&[1usize, 16, 64])); }
        if let Some(l) = log { o["log"] = json!(l); }
        self.tabs.push(Tab { n, idx, rep, cols: vec![] });
        o
    }
    fn tab(&mut self) -> usize { self.rng.below(self.tabs.len() as u64) as usize }
    fn value(&mut self, ty: &str) -> String { sample(&mut self.rng, ty) }
    fn key(&mut self, t: usize) -> Vec<i64> {
        let (idx, rep) = (self.tabs[t].idx, self.tabs[t].rep);
        let m = if rep { idx - 1 } else { idx };
        let mut k: Vec<i64> = (0..m).map(|_| { let i = self.rng.below(self.keys as u64) as usize; KEYS[i] }).collect();
        if rep { k.push(self.vers.pop().unwrap()); }
        k
    }
    fn insert(&mut self, t: usize) -> Value {
        let key = self.key(t); let mut v = vec![];
        for c in self.tabs[t].cols.clone() { if !self.rng.chance(1, 4) { let x = self.value(coltype(&c)); v.push(json!([c, x])); } }
        self.rng.shuffle(&mut v);
        json!({"a": "ins", "t": self.tabs[t].n, "key": key, "v": v})
    }
    fn field(&mut self, t: usize) -> Value {
        let ty = *self.rng.pick(TYPES); let c = format!("{ty}_{}", self.rng.below(3));
        if !self.tabs[t].cols.contains(&c) { self.tabs[t].cols.push(c.clone()); }
        json!({"a": "field", "t": self.tabs[t].n, "f": c})
    }
    fn flush(&mut self) -> Value { let t = self.tab(); json!({"a": "flush", "t": self.tabs[t].n}) }
    fn step(&mut self) -> Value { let i = *self.rng.pick(&[0, 0, 0, 2, 2, 1]); json!({"a": "step", "i": i}) }
    fn scan_of(&mut self, t: usize, all: bool) -> Value {
        let tb = self.tabs[t].clone(); let mut cols = vec![];
        for c in &tb.cols { if all || self.rng.chance(2, 3) { cols.push(c.clone()); } }
        self.rng.shuffle(&mut cols);
        json!({"a": "scan", "t": tb.n, "idx": tb.idx, "cols": cols})
    }
    fn scan(&mut self) -> Value { let t = self.tab(); self.some(t) }
    /// a scan, now and then without parts of the key
    fn some(&mut self, t: usize) -> Value {
        let mut o = self.scan_of(t, false); let idx = self.tabs[t].idx;
        if o["cols"].as_array().unwrap().is_empty() && idx < 2 || !self.rng.chance(1, 3) { return o; }
        let mut ks: Vec<usize> = (1..=idx).filter(|_| self.rng.chance(1, 2)).collect();
        if ks.is_empty() && o["cols"].as_array().unwrap().is_empty() { ks.push(idx); }
        o["a"] = json!("part"); o["ks"] = json!(ks); o
    }
    fn get(&mut self, t: usize) -> Value {
        let mut key = self.key(t); if self.tabs[t].rep { key.pop(); }
        json!({"a": "get", "t": self.tabs[t].n, "idx": self.tabs[t].idx, "cols": self.tabs[t].cols, "key": key})
    }
    /// calls the store has to refuse
    fn refused(&mut self) -> Value {
        let t = self.tab(); let mut o = self.insert(t); let r = self.rng.below(4);
        match r {
            0 => { o["v"].as_array_mut().unwrap().push(json!(["i64_nowhere", "1"])); o }
            1 => { if let Some(c) = self.tabs[t].cols.first().cloned() { let ty = if coltype(&c) == "str" { "i64" } else { "str" }; o["v"] = json!([[c, if ty == "str" { "'x" } else { "1" }, ty]]); o } else { o } }
            2 => json!({"a": "flush", "t": "nowhere"}),
            _ => json!({"a": "create", "t": self.tabs[t].n, "idx": 1, "rep": false}),
        }
    }
}
struct Hist { st: Store, out: Out }
impl Hist {
    fn new(out: Out, dir: &Path) -> Hist { Hist { st: Store::open(dir).unwrap(), out } }
    fn begin(&mut self, dir: &Path) { self.st.close(); self.st = Store::open(dir).unwrap(); self.out.put(json!({"k": "reset"})); }
    fn ev(&mut self, mut o: Value) -> Value { if self.st.db.is_none() { return json!({"e": "failed"}); } let r = self.st.op(&o); alive(); o["k"] = json!("c"); o["r"] = r.clone(); self.out.put(o); r }
    /// two operations at once: the first stops before its k-th file operation and the second runs against it
    fn par(&mut self, k: i64, mut a: Value, mut b: Value) -> bool {
        if self.st.db.is_none() { return false; }
        let db = self.st.db.as_ref().unwrap().clone(); let db2 = db.clone(); let (a2, b2) = (a.clone(), b.clone());
        let first: Result<Box<dyn FnOnce() -> Value + Send>, usize> = if a["a"] == "step" { Err(self.st.bg[a["i"].as_u64().unwrap() as usize]) } else { let a3 = a.clone(); Ok(Box::new(move || local(&db, &a3))) };
        let (ra, rb, stopped, lives) = sys::overlap(k, first, move || local(&db2, &b2));
        alive();
        a["r"] = ra.unwrap_or(json!({"e": if lives { "ok" } else { "panic" }})); b["r"] = rb;
        let _ = a2;
        self.out.put(json!({"k": "par", "ops": [a, b]}));
        stopped
    }
    fn layout(&mut self, g: &Gen, t: usize) { let tb = &g.tabs[t]; let l = layout(&self.st.dir, &tb.n, tb.idx, &tb.cols); self.out.put(json!({"k": "c", "a": "layout", "t": tb.n, "cols": tb.cols, "o": l, "r": {"e": "ok"}})); }
}
/// backups taken and restored on other threads keep their bytes here
static BAKS: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(vec![]);
fn local(db: &std::sync::Arc<storage::db::OptiDBImpl>, o: &Value) -> Value {
    if o["a"] == "backup" {
        let mut w = Slow(vec![]); let r = guard(|| db.full_backup(&mut w, |_| {})); let b = w.0;
        BAKS.lock().unwrap().push(b);
        return match r { Ok(Ok(())) => json!({"e": "ok"}), Ok(Err(e)) => json!({"e": "other", "m": e.to_string()}), Err(m) => json!({"e": "panic", "m": m}) };
    }
    if o["a"] == "restore" {
        let b = BAKS.lock().unwrap()[o["b"].as_u64().unwrap() as usize].clone();
        return match guard(|| db.full_restore(&mut SlowRead(&b))) { Ok(Ok(())) => json!({"e": "ok"}), Ok(Err(e)) => json!({"e": "other", "m": e.to_string()}), Err(m) => json!({"e": "panic", "m": m}) };
    }
    run(db, o)
}
/// where a backup goes and comes from can be slow
struct Slow(Vec<u8>);
impl std::io::Write for Slow { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { sys::pause(); self.0.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
struct SlowRead<'a>(&'a [u8]);
impl std::io::Read for SlowRead<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { sys::pause(); self.0.read(b) } }

fn s02(a: &Args, rep: bool) {
    let n = if a.thorough { 2600 } else { 320 };
    let per = if a.thorough { 100 } else { 54 };
    let root = fresh(&a.dir);
    sys::watch(root.to_str().unwrap(), -1, false);
    let mut h = Hist::new(Out::new(&a.dir, "trace0.ndjson"), &root.join("none"));
    let mut overlaps = 0;
    for i in 0..n {
        if i > 0 && i % per == 0 { h.out = Out::new(&a.dir, &format!("trace{}.ndjson", i / per)); }
        let mut g = Gen::new(a.seed * 1000 + i as u64 + if rep { 500000 } else { 0 });
        h.begin(&root.join(format!("h{i}")));
        let nt = g.rng.range(1, 2);
        for _ in 0..nt { let idx = if rep { g.rng.range(2, 3) } else { g.rng.range(1, 2) } as usize; let rp = rep && !g.rng.chance(1, 6); let log = if g.rng.chance(1, 3) { Some(*g.rng.pick(&[0usize, 60, 300])) } else { None }; let o = g.create(if rp { idx } else { idx.min(2) }, rp, log); h.ev(o); }
        for _ in 0..g.rng.range(0, 3) { let t = g.tab(); let o = g.field(t); h.ev(o); }
        let len = if a.thorough { g.rng.range(10, 60) } else { g.rng.range(8, 30) };
        for _ in 0..len {
            match g.rng.below(28) {
                0..=10 => { let t = g.tab(); for _ in 0..g.rng.range(1, 3) { let o = g.insert(t); h.ev(o); } }
                11..=12 => { let t = g.tab(); let o = g.field(t); h.ev(o); }
                13..=15 => { let o = g.flush(); h.ev(o); }
                16..=19 => { let o = g.step(); h.ev(o); }
                20..=21 => { let o = g.scan(); h.ev(o); }
                22 => { let o = g.refused(); h.ev(o); }
                23 => { h.ev(json!({"a": "reopen"})); }
                24 if g.tabs.len() < 3 && g.rng.chance(1, 2) => {
                    // two users create the same table
                    let x = g.create(if rep { 2 } else { 1 }, rep, None); let k = g.rng.range(0, 12);
                    h.par(k, x.clone(), x);
                    let t = g.tabs.len() - 1; let o = g.insert(t); h.ev(o); h.ev(json!({"a": "reopen"})); let o = g.scan_of(t, true); h.ev(o);
                }
                _ => {
                    let t = g.tab();
                    let x = match g.rng.below(6) { 0..=1 => json!({"a": "flush", "t": g.tabs[t].n}), 2..=3 => json!({"a": "step", "i": 0}), 4 => g.some(t), _ => g.insert(t) };
                    let y = match g.rng.below(6) { 0..=1 => g.insert(t), 2..=3 => g.scan_of(t, true), 4 => json!({"a": "flush", "t": g.tabs[t].n}), _ => g.some(t) };
                    let k = if g.rng.chance(1, 3) { g.rng.range(0, 5) } else { g.rng.range(0, 22) };
                    if h.par(k, x, y) { overlaps += 1; }
                }
            }
        }
        for t in 0..g.tabs.len() { let o = g.scan_of(t, true); h.ev(o); }
        if i % 4 == 0 { h.ev(json!({"a": "step", "i": 0})); h.ev(json!({"a": "step", "i": 2})); h.ev(json!({"a": "reopen"})); for t in 0..g.tabs.len() { let o = g.scan_of(t, true); h.ev(o); } }
    }
    println!("{overlaps} overlapping pairs");
}
/// compaction: many parts, the levels looked at after each round
fn s04(a: &Args) {
    let n = if a.thorough { 700 } else { 130 };
    let per = if a.thorough { 40 } else { 18 };
    let root = fresh(&a.dir);
    let mut h = Hist::new(Out::new(&a.dir, "trace0.ndjson"), &root.join("none"));
    for i in 0..n {
        if i > 0 && i % per == 0 { h.out = Out::new(&a.dir, &format!("trace{}.ndjson", i / per)); }
        let mut g = Gen::new(a.seed * 1000 + i as u64 + 40000);
        h.begin(&root.join(format!("h{i}")));
        let rp = g.rng.chance(1, 2); let idx = if rp { g.rng.range(2, 3) } else { g.rng.range(1, 2) } as usize;
        let o = g.create(idx, rp, None); h.ev(o);
        if g.rng.chance(1, 2) { let o = g.field(0); h.ev(o); }
        g.keys = *g.rng.pick(&[4usize, 7, 11]);
        for _ in 0..(if a.thorough { g.rng.range(4, 12) } else { g.rng.range(3, 6) }) {
            for _ in 0..g.rng.range(1, 3) {
                // runs of neighbouring keys, so that parts are narrow enough to be apart
                let base = g.rng.below(g.keys as u64) as usize;
                for _ in 0..g.rng.range(1, 4) { let mut o = g.insert(0); let k = KEYS[(base + g.rng.below(2) as usize) % g.keys]; if !(rp && idx == 1) { o["key"][0] = json!(k); } h.ev(o); }
                let o = g.flush(); h.ev(o); h.layout(&g, 0);
            }
            if g.rng.chance(1, 8) { let o = g.field(0); h.ev(o); }
            h.ev(json!({"a": "step", "i": 0}));
            h.layout(&g, 0);
            if g.rng.chance(1, 4) { h.ev(json!({"a": "step", "i": 2})); h.layout(&g, 0); }
            if g.rng.chance(1, 6) { h.ev(json!({"a": "reopen"})); h.layout(&g, 0); }
        }
        let o = g.scan_of(0, true); h.ev(o);
    }
}
/// backups and restores
fn s06(a: &Args) {
    let n = if a.thorough { 2000 } else { 240 };
    let per = if a.thorough { 130 } else { 40 };
    let root = fresh(&a.dir);
    sys::watch(root.to_str().unwrap(), -1, false);
    let mut h = Hist::new(Out::new(&a.dir, "trace0.ndjson"), &root.join("none"));
    for i in 0..n {
        if i > 0 && i % per == 0 { h.out = Out::new(&a.dir, &format!("trace{}.ndjson", i / per)); }
        let mut g = Gen::new(a.seed * 1000 + i as u64 + 60000);
        h.begin(&root.join(format!("h{i}")));
        BAKS.lock().unwrap().clear();
        let mut saved: Vec<Vec<Tab>> = vec![];
        let mut made = 0usize;
        let len = if a.thorough { g.rng.range(20, 70) } else { g.rng.range(14, 34) };
        for j in 0..len {
            let w = if g.tabs.is_empty() { 0 } else { g.rng.below(26) + 1 };
            match w {
                0 | 1 => { let rp = g.rng.chance(1, 3); let idx = if rp { 2 } else { g.rng.range(1, 2) } as usize; let mut o = g.create(idx, rp, None); let n = format!("t{made}"); made += 1; o["t"] = json!(n); g.tabs.last_mut().unwrap().n = n; h.ev(o); }
                2..=10 => { let t = g.tab(); let o = g.insert(t); h.ev(o); }
                11..=12 => { let t = g.tab(); let o = g.field(t); h.ev(o); }
                13..=14 => { let o = g.flush(); h.ev(o); }
                15..=17 => { let o = g.step(); h.ev(o); }
                18 => { h.ev(json!({"a": "reopen"})); }
                19..=21 => { let b = saved.len(); saved.push(g.tabs.clone()); if h.st.db.is_none() { continue; } let r = local(h.st.db.as_ref().unwrap(), &json!({"a": "backup"})); alive(); h.out.put(json!({"k": "c", "a": "backup", "b": b, "r": r})); }
                22..=23 => {
                    // a backup while something else goes on
                    let b = saved.len(); saved.push(g.tabs.clone()); let t = g.tab();
                    let y = match g.rng.below(4) { 0..=1 => g.insert(t), 2 => json!({"a": "flush", "t": g.tabs[t].n}), _ => json!({"a": "scan", "t": g.tabs[t].n, "idx": g.tabs[t].idx, "cols": g.tabs[t].cols}) };
                    let k = if g.rng.chance(1, 3) { g.rng.range(0, 8) } else { g.rng.range(0, 40) };
                    if g.rng.chance(1, 4) { h.par(k, json!({"a": "step", "i": 0}), json!({"a": "backup", "b": b})); } else { h.par(k, json!({"a": "backup", "b": b}), y); }
                }
                _ => if !saved.is_empty() {
                    let b = g.rng.below(saved.len() as u64) as usize; if h.st.db.is_none() || BAKS.lock().unwrap().len() <= b { continue; }
                    let bytes = BAKS.lock().unwrap()[b].clone();
                    if g.rng.chance(1, 4) {
                        // a damaged copy: cut short, or its end overwritten
                        let mut bad = bytes.clone();
                        if g.rng.chance(1, 2) { let n = bad.len(); if g.rng.chance(1, 4) { bad[n - 8..].fill(0x5a) } else { bad[n - 1 - g.rng.below(8) as usize] ^= 1 << g.rng.below(8) } } else { let n = g.rng.below(bad.len() as u64) as usize; bad.truncate(n); }
                        while h.st.baks.len() <= b { h.st.baks.push(vec![]); } h.st.baks[b] = bad;
                        let mut o = json!({"a": "restore", "b": b}); let r = h.st.op(&o); alive(); o["k"] = json!("c"); o["a"] = json!("badrestore"); o["r"] = r; h.out.put(o);
                        for t in 0..g.tabs.len() { let o = g.scan_of(t, true); h.ev(o); }
                        if g.rng.chance(1, 2) { h.ev(json!({"a": "reopen"})); for t in 0..g.tabs.len() { let o = g.scan_of(t, true); h.ev(o); } }
                        continue;
                    }
                    while h.st.baks.len() <= b { h.st.baks.push(vec![]); } h.st.baks[b] = bytes;
                    if g.rng.chance(1, 3) {
                        // a restore while something else goes on
                        let t = g.tab(); let y = match g.rng.below(4) { 0..=1 => g.insert(t), 2 => json!({"a": "flush", "t": g.tabs[t].n}), _ => json!({"a": "scan", "t": g.tabs[t].n, "idx": g.tabs[t].idx, "cols": g.tabs[t].cols}) };
                        let k = if g.rng.chance(1, 3) { g.rng.range(0, 8) } else { g.rng.range(0, 60) };
                        if g.rng.chance(1, 4) { h.par(k, y, json!({"a": "restore", "b": b})); } else { h.par(k, json!({"a": "restore", "b": b}), y); }
                    } else { h.ev(json!({"a": "restore", "b": b})); }
                    g.tabs = saved[b].clone();
                    for t in 0..g.tabs.len() { let o = g.scan_of(t, true); h.ev(o); }
                    if g.rng.chance(1, 3) { h.ev(json!({"a": "step", "i": 2})); h.ev(json!({"a": "step", "i": 0})); }
                    if g.rng.chance(1, 3) { h.ev(json!({"a": "reopen"})); }
                },
            }
            if j == len - 1 { for t in 0..g.tabs.len() { let o = g.scan_of(t, true); h.ev(o); } }
        }
    }
}
/// point lookups and conditional writes
fn s07(a: &Args) {
    let n = if a.thorough { 1800 } else { 180 };
    let per = if a.thorough { 100 } else { 30 };
    let root = fresh(&a.dir);
    sys::watch(root.to_str().unwrap(), -1, false);
    let mut h = Hist::new(Out::new(&a.dir, "trace0.ndjson"), &root.join("none"));
    for i in 0..n {
        if i > 0 && i % per == 0 { h.out = Out::new(&a.dir, &format!("trace{}.ndjson", i / per)); }
        let mut g = Gen::new(a.seed * 1000 + i as u64 + 70000);
        h.begin(&root.join(format!("h{i}")));
        let rp = i % 3 != 0; let idx = if rp { g.rng.range(2, 3) } else { g.rng.range(1, 2) } as usize;
        let o = g.create(idx, rp, None); h.ev(o);
        for _ in 0..g.rng.range(0, 3) { let o = g.field(0); h.ev(o); }
        g.keys = *g.rng.pick(&[2usize, 4, 11, 11]);
        let mut read: Vec<Vec<i64>> = vec![];          // versions somebody has read
        if rp && i % 10 == 1 {
            // more keys read than the store remembers
            let mut first = None;
            for k in 0..13i64 { let mut o = g.insert(0); o["key"][0] = json!(k); h.ev(o.clone()); let mut q = g.get(0); q["a"] = json!("gcas"); q["key"] = json!(ints(&o["key"])[..idx - 1]); h.ev(q); first.get_or_insert(o); }
            let first = first.unwrap(); let v = g.insert(0); let mut o = first.clone(); o["key"][idx - 1] = v["key"][idx - 1].clone(); h.ev(o);
            let mut o = first.clone(); o["a"] = json!("rep"); h.ev(o);
        }
        for _ in 0..(if a.thorough { g.rng.range(20, 80) } else { g.rng.range(14, 34) }) {
            match g.rng.below(if rp { 27 } else { 16 }) {
                0..=5 => { let o = g.insert(0); h.ev(o); }
                6 => { let o = g.field(0); h.ev(o); }
                7..=8 => { let o = g.flush(); h.ev(o); }
                9..=10 => { let o = g.step(); h.ev(o); }
                11 => { h.ev(json!({"a": "reopen"})); read.clear(); }
                12..=15 => { let mut o = g.get(0); if rp && g.rng.chance(1, 4) && !read.is_empty() { o["key"] = json!(g.rng.pick(&read).clone()); } h.ev(o); }
                16..=19 => { let mut o = g.get(0); o["a"] = json!("gcas"); let r = h.ev(o); if let Some(x) = r["o"].get(0) { read.push(ints(&x[0])); } }
                20..=23 => if !read.is_empty() { let mut o = g.insert(0); o["a"] = json!("rep"); o["key"] = json!(g.rng.pick(&read).clone()); h.ev(o); },
                24 => { let mut o = g.insert(0); o["a"] = json!("rep"); h.ev(o); }
                _ => if !read.is_empty() {
                    let k = g.rng.pick(&read).clone();
                    let mut x = g.insert(0); x["a"] = json!("rep"); x["key"] = json!(k);
                    let y = match g.rng.below(4) { 0..=1 => { let mut y = g.insert(0); y["a"] = json!("rep"); y["key"] = json!(k); y } 2 => { let mut y = g.insert(0); let v = y["key"][idx - 1].clone(); y["key"] = json!(k); y["key"][idx - 1] = v; y } _ => { let mut y = g.get(0); y["key"] = json!(k[..idx - 1]); y["a"] = json!("gcas"); y } };
                    let k = g.rng.range(0, 8); h.par(k, x, y);
                }
            }
        }
        let o = g.scan_of(0, true); h.ev(o);
    }
}
// ------------------------------------------------------------------ crashes
/// child process: the script, one letter per finished operation, the end before the given file operation
fn child(v: &[String]) -> ! {
    quiet_panics();
    sys::mine();
    let dir = PathBuf::from(&v[0]);
    let script: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&v[1]).unwrap()).unwrap();
    sys::watch(v[0].as_str(), v[2].parse().unwrap(), v[3] == "1");
    let say = |c: &str| unsafe { libc::syscall(libc::SYS_write, 1, c.as_ptr(), c.len()); };
    match Store::open(&dir) {
        Err(m) => { say("F"); eprintln!("{m}"); }
        Ok(mut st) => { say("S"); for o in &script { let r = st.op(o); say(if r["e"] == "ok" { "O" } else { eprintln!("{o} {r}"); "X" }); } }
    }
    say(&format!("N{}", sys::count()));
    unsafe { libc::_exit(0) }
}
/// child process: opens what a crash left, and goes on
fn recover(v: &[String]) -> ! {
    quiet_panics();
    sys::mine();
    let script: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&v[1]).unwrap()).unwrap();
    let mut out = vec![];
    match Store::open(&PathBuf::from(&v[0])) {
        Err(m) => out.push(json!({"k": "c", "a": "open", "r": {"e": "failed", "m": m}})),
        Ok(mut st) => { out.push(json!({"k": "c", "a": "open", "r": {"e": "ok"}})); for o in &script { let mut o = o.clone(); let r = st.op(&o); o["k"] = json!("c"); o["r"] = r; out.push(o); } std::mem::forget(st); }
    }
    println!("{}", serde_json::to_string(&out).unwrap());
    std::process::exit(0)
}
fn spawn(args: &[&str]) -> (String, i32, String) {
    use std::os::unix::process::ExitStatusExt;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap()).args(args).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().unwrap();
    let (mut o, mut e) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let to = std::thread::spawn(move || { sys::mine(); let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut o, &mut s); s });
    let te = std::thread::spawn(move || { sys::mine(); let mut s = vec![]; let _ = std::io::Read::read_to_end(&mut e, &mut s); String::from_utf8_lossy(&s).to_string() });
    for i in 0..40000 { match c.try_wait().unwrap() { Some(st) => { return (to.join().unwrap(), st.code().unwrap_or(-st.signal().unwrap_or(1)), te.join().unwrap()) } None => std::thread::sleep(std::time::Duration::from_micros(if i < 500 { 300 } else { 1500 })) } }
    let _ = c.kill(); let _ = c.wait(); (to.join().unwrap(), -99, te.join().unwrap())
}
struct Script { tabs: Vec<Tab>, ops: Vec<Value>, after: Vec<Value> }
fn script(seed: u64, thorough: bool) -> Script {
    let mut g = Gen::new(seed);
    let mut ops = vec![];
    let nt = if g.rng.chance(1, 4) { 2 } else { 1 };
    for i in 0..nt { let rp = g.rng.chance(1, 4); let idx = if rp { 2 } else { g.rng.range(1, 2) } as usize; let log = if g.rng.chance(1, 3) { Some(*g.rng.pick(&[0usize, 60, 200])) } else { None }; let mut o = g.create(idx, rp, log); o["l0"] = json!(g.rng.range(0, 1)); if i == 0 { o["l1"] = json!(*g.rng.pick(&[1usize, 700])); } ops.push(o); }
    for t in 0..g.tabs.len() { if g.rng.chance(1, 2) { ops.push(g.field(t)); } }
    for _ in 0..(if thorough { g.rng.range(8, 24) } else { g.rng.range(6, 14) }) {
        ops.push(match g.rng.below(14) { 0..=5 => { let t = g.tab(); g.insert(t) } 6 => { let t = g.tab(); let f = format!("i64_n{}", ops.len()); g.tabs[t].cols.push(f.clone()); json!({"a": "field", "t": g.tabs[t].n, "f": f}) } 7..=9 => g.flush(), 10..=12 => json!({"a": "step", "i": 0}), _ => json!({"a": "step", "i": 2}) });
    }
    let mut after = vec![];
    for t in 0..g.tabs.len() { let tb = g.tabs[t].clone(); after.push(json!({"a": "scan", "t": tb.n, "idx": tb.idx, "cols": []})); }
    if g.rng.chance(1, 2) {
        // what is written next to what the crash left behind
        for t in 0..g.tabs.len() { for _ in 0..g.rng.range(1, 3) { let key = g.key(t); after.push(json!({"a": "ins", "t": g.tabs[t].n, "key": key, "v": []})); } }
        after.push(json!({"a": "reopen"}));
        for t in 0..g.tabs.len() { let tb = g.tabs[t].clone(); after.push(json!({"a": "scan", "t": tb.n, "idx": tb.idx, "cols": []})); }
    }
    for t in 0..g.tabs.len() {
        let key = g.key(t); let n = g.tabs[t].n.clone(); let idx = g.tabs[t].idx;
        after.push(json!({"a": "ins", "t": n, "key": key, "v": []}));
        after.push(json!({"a": "flush", "t": n})); after.push(json!({"a": "step", "i": 0})); after.push(json!({"a": "step", "i": 2}));
        after.push(json!({"a": "scan", "t": n, "idx": idx, "cols": []}));
        let key = g.key(t); after.push(json!({"a": "ins", "t": n, "key": key, "v": []}));
    }
    after.push(json!({"a": "reopen"}));
    for t in 0..g.tabs.len() { let tb = g.tabs[t].clone(); after.push(json!({"a": "scan", "t": tb.n, "idx": tb.idx, "cols": tb.cols})); }
    // fields added twice would be refused
    let mut seen = std::collections::HashSet::new();
    ops.retain(|o| o["a"] != "field" || seen.insert(format!("{}{}", o["t"], o["f"])));
    Script { tabs: g.tabs, ops, after }
}
fn s01(a: &Args) {
    let scripts = if a.thorough { 160 } else { 24 };
    let per = if a.thorough { usize::MAX } else { 50 };
    let root = fresh(&a.dir);
    let mut jobs: Vec<(usize, i64, bool, Option<i64>)> = vec![];
    let mut list = vec![];
    let mut rng = Rng::new(a.seed);
    for i in 0..scripts {
        let sc = script(a.seed * 1000 + i as u64, a.thorough);
        let f = root.join(format!("s{i}.json")); std::fs::write(&f, serde_json::to_string(&sc.ops).unwrap()).unwrap();
        std::fs::write(root.join(format!("a{i}.json")), serde_json::to_string(&sc.after).unwrap()).unwrap();
        std::fs::write(root.join("none.json"), "[]").unwrap();
        let d = root.join(format!("d{i}")); std::fs::create_dir_all(&d).unwrap();
        let (o, _, _) = spawn(&["child", d.to_str().unwrap(), f.to_str().unwrap(), "-1", "0"]);
        alive();
        let n: i64 = o.split('N').nth(1).and_then(|x| x.trim().parse().ok()).unwrap_or(200);
        // every crash point, or as many as time allows, spread evenly
        let mut pts: Vec<(i64, bool)> = (0..n).map(|p| (p, false)).chain((0..n).map(|p| (p, true))).collect();
        if pts.len() > per { rng.shuffle(&mut pts); pts.truncate(per); }
        for (p, torn) in pts { jobs.push((i, p, torn, None)); if a.thorough || rng.chance(1, 6) { jobs.push((i, p, torn, Some(rng.range(0, 6)))); } }
        jobs.push((i, -1, false, None));
        list.push(sc);
    }
    let next = AtomicUsize::new(0);
    let res: Vec<std::sync::Mutex<Vec<Value>>> = jobs.iter().map(|_| Default::default()).collect();
    std::thread::scope(|sp| for w in 0..8 { let (jobs, list, next, res, root) = (&jobs, &list, &next, &res, &root); sp.spawn(move || { sys::mine(); loop {
        let j = next.fetch_add(1, SeqCst); if j >= jobs.len() { break; }
        let (i, p, torn, again) = jobs[j]; let sc = &list[i];
        let d = root.join(format!("w{w}-{j}")); std::fs::create_dir_all(&d).unwrap();
        let ds = d.to_str().unwrap(); let sf = root.join(format!("s{i}.json")); let af = root.join(format!("a{i}.json"));
        let mut ev = vec![json!({"k": "reset", "crash": p, "torn": torn, "again": again.is_some()})];
        let (o, code, err) = spawn(&["child", ds, sf.to_str().unwrap(), &p.to_string(), if torn { "1" } else { "0" }]);
        let acks: Vec<char> = o.chars().take_while(|c| "SFOX".contains(*c)).collect();
        let mut m = 0;
        for c in acks.iter().filter(|c| **c != 'S') { if *c == 'F' { ev.push(json!({"k": "c", "a": "open", "r": {"e": "failed", "m": err}})); break; } let mut x = sc.ops[m].clone(); x["k"] = json!("c"); x["r"] = json!({"e": if *c == 'O' { "ok" } else { "failed" }, "m": if *c == 'O' { String::new() } else { err.clone() }}); ev.push(x); m += 1; }
        if code != 77 && code != 0 { ev.push(json!({"k": "c", "a": "open", "r": {"e": "failed", "m": format!("process ended {code}: {err}")}})); }
        if code == 77 && m < sc.ops.len() { ev.push(json!({"k": "c", "a": "cut", "op": sc.ops[m], "r": {"e": "ok"}})); }
        if let Some(q) = again { let _ = spawn(&["child", ds, root.join("none.json").to_str().unwrap(), &q.to_string(), if torn { "1" } else { "0" }]); }
        // what has no table yet cannot be gone on with
        let made = |t: &str| ev.iter().any(|e| e["a"] == "create" && e["t"] == t);
        let after: Vec<Value> = if sc.tabs.iter().all(|t| made(&t.n)) && (sc.ops.iter().skip(m).all(|o| o["a"] != "field")) { sc.after.clone() } else { sc.after.iter().filter(|o| o["t"].as_str().map_or(true, |t| made(t)) && (o["cols"].as_array().map_or(true, |c| c.is_empty()))).cloned().collect() };
        let af2 = d.with_extension("json"); std::fs::write(&af2, serde_json::to_string(&after).unwrap()).unwrap();
        let _ = af;
        let (o, code, err) = spawn(&["recover", ds, af2.to_str().unwrap()]);
        match serde_json::from_str::<Vec<Value>>(&o) { Ok(v) if code == 0 => ev.extend(v), _ => ev.push(json!({"k": "c", "a": "open", "r": {"e": "failed", "m": format!("process ended {code}: {err}")}})) }
        let _ = std::fs::remove_dir_all(&d); let _ = std::fs::remove_file(&af2);
        *res[j].lock().unwrap() = ev; alive();
    } }); });
    let nf = if a.thorough { 24 } else { 6 };
    for f in 0..nf { let mut out = Out::new(&a.dir, &format!("trace{f}.ndjson")); for (j, r) in res.iter().enumerate() { if j % nf == f { for e in r.lock().unwrap().iter() { out.put(e.clone()); } } } }
    println!("{} crashes", jobs.len());
}
fn main() {
    let v: Vec<String> = std::env::args().collect();
    if v[1] == "child" { child(&v[2..]); }
    if v[1] == "recover" { recover(&v[2..]); }
    quiet_panics();
    sys::mine();
    watchdog();
    let a = args();
    match a.prop.as_str() {
        "S01" => s01(&a), "S02" => s02(&a, false), "S03" => merges::s03(&a), "S04" => s04(&a), "S05" => s02(&a, true), "S06" => s06(&a), "S07" => s07(&a),
        p => { eprintln!("unknown property {p}"); std::process::exit(2) }
    }
    for e in std::fs::read_dir(&a.dir).unwrap().flatten() { if e.file_name().to_string_lossy().starts_with("db-") { let _ = std::fs::remove_dir_all(e.path()); } }
    std::process::exit(0);
}
