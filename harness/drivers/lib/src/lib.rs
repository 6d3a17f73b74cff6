//! Shared by all drivers: seeded randomness, trace writing, panic capture.
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use serde_json::{json, Value};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9E3779B97F4A7C15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.next() % ((b - a + 1) as u64)) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j); } }
}

pub struct Out { w: std::io::BufWriter<std::fs::File>, pub n: usize }
impl Out {
    pub fn new(dir: &str, name: &str) -> Self {
        std::fs::create_dir_all(dir).unwrap();
        Out { w: std::io::BufWriter::new(std::fs::File::create(format!("{dir}/{name}")).unwrap()), n: 0 }
    }
    pub fn put(&mut self, v: Value) { serde_json::to_writer(&mut self.w, &v).unwrap(); self.w.write_all(b"\n").unwrap(); self.n += 1; }
}
impl Drop for Out { fn drop(&mut self) { self.w.flush().unwrap(); } }

thread_local! { static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// panics inside `guard` are observations; any other panic is a driver error and is printed
pub fn quiet_panics() { std::panic::set_hook(Box::new(|i| if GUARDED.with(|g| g.get()) == 0 || std::env::var("PANICS").is_ok() { eprintln!("driver panic: {i}") })); }
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
    })
}
pub struct Args { pub prop: String, pub seed: u64, pub thorough: bool, pub dir: String, pub rest: Vec<String> }
pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    Args { prop: a[1].clone(), seed: a[2].parse().unwrap(), thorough: a[3] == "thorough", dir: a[4].clone(), rest: a[5..].to_vec() }
}
