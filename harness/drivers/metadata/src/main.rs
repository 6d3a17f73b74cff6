//! Drives the real metadata crate (over the TransactionDB stand-in) and records what it does.
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use drvlib::*;
use metadata::error::MetadataError;
use metadata::MetadataProvider;
use storage::db::{OptiDBImpl, Options};
use storage::table::Options as TableOptions;

mod catalogue;
mod people;
mod org;

#[derive(Clone)]
pub struct Env { pub name: String, pub opti: Arc<OptiDBImpl>, pub md: Arc<MetadataProvider>, pub tdb: Arc<rocksdb::TransactionDB> }
static N: AtomicUsize = AtomicUsize::new(0);
pub fn opti(dir: &str) -> Arc<OptiDBImpl> {
    let d = format!("{dir}/opti-{}", N.fetch_add(1, Ordering::SeqCst));
    let db = Arc::new(OptiDBImpl::open(d.into(), Options {}).unwrap());
    db.create_table(common::types::TABLE_EVENTS.to_string(), TableOptions::test(false)).unwrap();
    for i in 0..common::GROUPS_COUNT { db.create_table(common::group_col(i), TableOptions::test(true)).unwrap(); }
    // its threads never need to be waited for
    std::mem::forget(db.clone());
    db
}
impl Env {
    pub fn new(opti: &Arc<OptiDBImpl>) -> Env { let name = format!("mem-{}", N.fetch_add(1, Ordering::SeqCst)); let (md, tdb) = Self::provider(&name, opti); Env { name, opti: opti.clone(), md, tdb } }
    fn provider(name: &str, opti: &Arc<OptiDBImpl>) -> (Arc<MetadataProvider>, Arc<rocksdb::TransactionDB>) { let tdb = Arc::new(metadata::rocksdb::new(name).unwrap()); (Arc::new(MetadataProvider::try_new(tdb.clone(), opti.clone()).unwrap()), tdb) }
    /// a new provider over the same stored data: nothing but what was committed survives
    pub fn reopen(&mut self) { (self.md, self.tdb) = Self::provider(&self.name, &self.opti); }
}
pub fn kind(e: &MetadataError) -> &'static str {
    match e {
        MetadataError::AlreadyExists(_) => "exists", MetadataError::NotFound(_) => "notfound", MetadataError::BadRequest(_) => "bad", MetadataError::Forbidden(_) => "forbidden",
        MetadataError::Internal(_) => "internal", MetadataError::Store(_) => "opti", MetadataError::RocksDb(_) => "store", _ => "other",
    }
}
/// Runs one call; a panic is an outcome too.
pub fn call(f: impl FnOnce() -> Result<Value, MetadataError>) -> Value {
    match guard(f) { Ok(Ok(v)) => json!({"e": "ok", "o": v}), Ok(Err(e)) => json!({"e": kind(&e)}), Err(p) => json!({"e": "panic", "m": p}) }
}
/// Runs the calls on their own threads in a schedule drawn from `rng`.
pub fn par(rng: &mut Rng, jobs: Vec<Box<dyn FnOnce() -> Value + Send>>) -> Vec<Value> {
    let mode = rng.below(3); let mut last = usize::MAX;
    let (rs, _) = rocksdb::ctl::run(jobs, |en| {
        // uniformly random, or mostly staying with one thread, or mostly alternating
        let stay = en.contains(&last);
        let p = match mode { 1 if stay && rng.chance(4, 5) => last, 2 if stay && en.len() > 1 && rng.chance(4, 5) => *en.iter().find(|x| **x != last).unwrap(), _ => *rng.pick(en) };
        last = p; p
    });
    rs.into_iter().map(|r| r.unwrap_or_else(|_| json!({"e": "panic"}))).collect()
}
fn main() {
    quiet_panics();
    let a = args();
    match a.prop.as_str() {
        "M01" => catalogue::m01(&a), "M05" => catalogue::m05(&a), "M07" => catalogue::m07(&a), "M08" => org::m08(&a),
        "M02" => people::m02(&a), "M03" => people::m03(&a), "M04" => people::m04(&a),
        "M06" => org::m06(&a), "M09" => org::m09(&a),
        p => { eprintln!("unknown property {p}"); std::process::exit(2) }
    }
    // the storage threads never end by themselves
    std::process::exit(0);
}
