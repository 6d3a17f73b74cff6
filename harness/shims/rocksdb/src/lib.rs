//! Offline stand-in for `rocksdb::TransactionDB` (pessimistic transactions): an ordered byte map, shared
//! between reopenings of one path inside a process. Reads see the transaction's own writes over the latest
//! committed state; put/delete/get_for_update take an exclusive key lock until the transaction ends; a
//! plain get takes none. `ctl` lets a driver step threads through a chosen interleaving and fail commits.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex, OnceLock};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error { message: String }
impl Error { pub fn into_string(self) -> String { self.message } fn new(m: &str) -> Self { Error { message: m.into() } } }
impl AsRef<str> for Error { fn as_ref(&self) -> &str { &self.message } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.message) } }
impl std::error::Error for Error {}
impl From<Error> for String { fn from(e: Error) -> String { e.message } }

#[derive(Default, Clone)]
pub struct Options;
impl Options { pub fn create_if_missing(&mut self, _: bool) {} pub fn create_missing_column_families(&mut self, _: bool) {} }
#[derive(Default, Clone)]
pub struct TransactionDBOptions;
#[derive(Default, Clone)]
pub struct TransactionOptions;
#[derive(Default, Clone)]
pub struct WriteOptions;
#[derive(Default, Clone)]
pub struct ReadOptions;
pub struct ColumnFamilyDescriptor;
impl ColumnFamilyDescriptor { pub fn new<S: Into<String>>(_: S, _: Options) -> Self { ColumnFamilyDescriptor } }
#[derive(Clone, Copy)]
pub enum Direction { Forward, Reverse }
#[derive(Clone, Copy)]
pub enum IteratorMode<'a> { Start, End, From(&'a [u8], Direction) }

#[derive(Default)]
struct Inner { map: BTreeMap<Vec<u8>, Vec<u8>>, locks: HashMap<Vec<u8>, u64>, next_tx: u64 }
type Shared = Arc<(Mutex<Inner>, Condvar)>;
fn registry() -> &'static Mutex<HashMap<PathBuf, Shared>> {
    static R: OnceLock<Mutex<HashMap<PathBuf, Shared>>> = OnceLock::new();
    R.get_or_init(Default::default)
}

pub struct TransactionDB { inner: Shared }
pub struct Transaction<'a, DB> { db: &'a DB, id: u64, writes: RefCell<BTreeMap<Vec<u8>, Option<Vec<u8>>>> }
pub type KVBytes = (Box<[u8]>, Box<[u8]>);
pub struct DBIter(std::vec::IntoIter<KVBytes>);
impl Iterator for DBIter { type Item = Result<KVBytes, Error>; fn next(&mut self) -> Option<Self::Item> { self.0.next().map(Ok) } }

impl TransactionDB {
    pub fn open_cf_descriptors<P: AsRef<Path>, I: IntoIterator<Item = ColumnFamilyDescriptor>>(_: &Options, _: &TransactionDBOptions, path: P, _: I) -> Result<Self, Error> {
        let inner = registry().lock().unwrap().entry(path.as_ref().to_path_buf()).or_default().clone();
        Ok(TransactionDB { inner })
    }
    pub fn open<P: AsRef<Path>>(o: &Options, t: &TransactionDBOptions, path: P) -> Result<Self, Error> { Self::open_cf_descriptors(o, t, path, []) }
    pub fn transaction(&self) -> Transaction<'_, TransactionDB> {
        ctl::point("begin");
        let mut g = self.inner.0.lock().unwrap();
        g.next_tx += 1;
        Transaction { db: self, id: g.next_tx, writes: Default::default() }
    }
    pub fn transaction_opt(&self, _: &WriteOptions, _: &TransactionOptions) -> Transaction<'_, TransactionDB> { self.transaction() }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> { ctl::point("get"); Ok(self.inner.0.lock().unwrap().map.get(k.as_ref()).cloned()) }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> { let t = self.transaction(); t.put(k, v)?; t.commit() }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> { let t = self.transaction(); t.delete(k)?; t.commit() }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, p: P) -> DBIter { self.transaction().prefix_iterator(p) }
    pub fn iterator(&self, m: IteratorMode) -> DBIter { self.transaction().iterator(m) }
    /// Everything stored, for the driver's own observations (no schedule point).
    pub fn vp_dump(&self) -> Vec<(Vec<u8>, Vec<u8>)> { self.inner.0.lock().unwrap().map.iter().map(|(a, b)| (a.clone(), b.clone())).collect() }
}

impl<'a> Transaction<'a, TransactionDB> {
    fn lock(&self, k: &[u8]) -> Result<(), Error> {
        loop {
            {
                let mut g = self.db.inner.0.lock().unwrap();
                match g.locks.get(k) {
                    Some(o) if *o != self.id => {}
                    _ => { g.locks.insert(k.to_vec(), self.id); return Ok(()); }
                }
                if !ctl::stepped() {
                    let (g2, t) = self.db.inner.1.wait_timeout_while(g, std::time::Duration::from_secs(1), |i| i.locks.get(k).map(|o| *o != self.id).unwrap_or(false)).unwrap();
                    drop(g2);
                    if t.timed_out() { return Err(Error::new("Operation timed out: Timeout waiting to lock key")); }
                    continue;
                }
            }
            if !ctl::blocked() { return Err(Error::new("Operation timed out: Timeout waiting to lock key")); }
        }
    }
    fn read(&self, k: &[u8]) -> Option<Vec<u8>> {
        if let Some(v) = self.writes.borrow().get(k) { return v.clone(); }
        self.db.inner.0.lock().unwrap().map.get(k).cloned()
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> { ctl::point("get"); Ok(self.read(k.as_ref())) }
    pub fn get_pinned<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> { self.get(k) }
    pub fn get_for_update<K: AsRef<[u8]>>(&self, k: K, _exclusive: bool) -> Result<Option<Vec<u8>>, Error> {
        ctl::point("get_for_update"); self.lock(k.as_ref())?; Ok(self.read(k.as_ref()))
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        ctl::point("put"); self.lock(k.as_ref())?;
        self.writes.borrow_mut().insert(k.as_ref().to_vec(), Some(v.as_ref().to_vec())); Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        ctl::point("delete"); self.lock(k.as_ref())?;
        self.writes.borrow_mut().insert(k.as_ref().to_vec(), None); Ok(())
    }
    pub fn iterator(&self, m: IteratorMode) -> DBIter {
        ctl::point("iterate");
        let mut v = self.db.inner.0.lock().unwrap().map.clone();
        for (k, w) in self.writes.borrow().iter() { match w { Some(x) => { v.insert(k.clone(), x.clone()); } None => { v.remove(k); } } }
        let mut l: Vec<KVBytes> = v.into_iter().map(|(a, b)| (a.into_boxed_slice(), b.into_boxed_slice())).collect();
        match m {
            IteratorMode::Start => {}
            IteratorMode::End => l.reverse(),
            IteratorMode::From(k, Direction::Forward) => l.retain(|x| x.0.as_ref() >= k),
            IteratorMode::From(k, Direction::Reverse) => { l.retain(|x| x.0.as_ref() <= k); l.reverse() }
        }
        DBIter(l.into_iter())
    }
    /// No prefix extractor is configured by the code under test, so this seeks and then runs to the end.
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, p: P) -> DBIter { self.iterator(IteratorMode::From(p.as_ref(), Direction::Forward)) }
    pub fn commit(self) -> Result<(), Error> {
        ctl::point("commit");
        if ctl::take_failure() { return Err(Error::new("IO error: injected commit failure")); }
        let mut g = self.db.inner.0.lock().unwrap();
        for (k, w) in std::mem::take(&mut *self.writes.borrow_mut()) { match w { Some(x) => { g.map.insert(k, x); } None => { g.map.remove(&k); } } }
        Ok(())
    }
    pub fn rollback(&self) -> Result<(), Error> { self.writes.borrow_mut().clear(); Ok(()) }
}
impl<'a, DB> Drop for Transaction<'a, DB> {
    fn drop(&mut self) {
        // SAFETY-free: only TransactionDB is ever used as DB
        let db = self.db as *const DB as *const TransactionDB;
        let db = unsafe { &*db };
        let mut g = match db.inner.0.lock() { Ok(g) => g, Err(e) => e.into_inner() };
        let id = self.id;
        g.locks.retain(|_, o| *o != id);
        drop(g);
        db.inner.1.notify_all();
        ctl::released();
    }
}

/// Schedule and failure control for drivers.
pub mod ctl {
    use std::cell::Cell;
    use std::sync::{Arc, Condvar, Mutex};
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    enum S { Running, AtPoint, Blocked, Done }
    struct St { s: Vec<S>, grant: Option<usize>, deadlock: bool, log: Vec<(usize, &'static str)>, pending: Vec<&'static str> }
    pub struct Sched { m: Mutex<St>, c: Condvar }
    thread_local! {
        static ME: std::cell::RefCell<Option<(Arc<Sched>, usize)>> = const { std::cell::RefCell::new(None) };
        static FAIL: Cell<usize> = const { Cell::new(0) };
    }
    /// The n-th commit from now on this thread fails (1 = the next).
    pub fn fail_commit(n: usize) { FAIL.with(|f| f.set(n)) }
    pub(crate) fn take_failure() -> bool { FAIL.with(|f| { let v = f.get(); if v > 0 { f.set(v - 1); } v == 1 }) }
    fn me() -> Option<(Arc<Sched>, usize)> { ME.with(|m| m.borrow().clone()) }
    pub(crate) fn stepped() -> bool { me().is_some() }
    fn wait_grant(sc: &Sched, id: usize, st: S, what: &'static str) -> bool {
        let mut g = sc.m.lock().unwrap();
        g.s[id] = st; g.pending[id] = what; sc.c.notify_all();
        while g.grant != Some(id) { g = sc.c.wait(g).unwrap(); }
        g.grant = None; g.s[id] = S::Running;
        let d = g.deadlock; g.deadlock = false; g.log.push((id, what));
        sc.c.notify_all();
        !(st == S::Blocked && d)
    }
    pub(crate) fn point(what: &'static str) { if let Some((sc, id)) = me() { wait_grant(&sc, id, S::AtPoint, what); } }
    pub(crate) fn blocked() -> bool { match me() { Some((sc, id)) => wait_grant(&sc, id, S::Blocked, "lock"), None => true } }
    pub(crate) fn released() { if let Some((sc, _)) = me() { let mut g = sc.m.lock().unwrap(); for s in g.s.iter_mut() { if *s == S::Blocked { *s = S::AtPoint; } } } }
    /// Runs the jobs one step at a time. `choose(enabled)` picks which of the enabled threads moves next.
    /// Returns each job's result and the interleaving taken.
    pub fn run<T: Send + 'static>(jobs: Vec<Box<dyn FnOnce() -> T + Send>>, mut choose: impl FnMut(&[usize]) -> usize) -> (Vec<std::thread::Result<T>>, Vec<(usize, &'static str)>) {
        let n = jobs.len();
        let sc = Arc::new(Sched { m: Mutex::new(St { s: vec![S::Running; n], grant: None, deadlock: false, log: vec![], pending: vec![""; n] }), c: Condvar::new() });
        let hs: Vec<_> = jobs.into_iter().enumerate().map(|(i, j)| { let sc = sc.clone(); std::thread::spawn(move || {
            ME.with(|m| *m.borrow_mut() = Some((sc.clone(), i)));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j));
            ME.with(|m| *m.borrow_mut() = None);
            let mut g = sc.m.lock().unwrap(); g.s[i] = S::Done;
            for s in g.s.iter_mut() { if *s == S::Blocked { *s = S::AtPoint; } }
            drop(g); sc.c.notify_all(); r
        }) }).collect();
        loop {
            let mut g = sc.m.lock().unwrap();
            while g.grant.is_some() || g.s.iter().any(|s| *s == S::Running) { g = sc.c.wait(g).unwrap(); }
            if g.s.iter().all(|s| *s == S::Done) { break; }
            let en: Vec<usize> = (0..n).filter(|i| g.s[*i] == S::AtPoint).collect();
            let pick = if en.is_empty() { g.deadlock = true; (0..n).find(|i| g.s[*i] == S::Blocked).unwrap() } else { choose(&en) };
            g.grant = Some(pick);
            sc.c.notify_all();
        }
        let r = hs.into_iter().map(|h| h.join().unwrap()).collect();
        let log = sc.m.lock().unwrap().log.clone();
        (r, log)
    }
}
