//! One open store, its operations as data (so that they can be scripted, recorded and replayed in
//! another process) and what can be seen of it from outside.
use std::path::{Path, PathBuf};
use std::sync::Arc;
use arrow2::array::*;
use arrow2::datatypes::DataType;
use common::types::DType;
use drvlib::*;
use futures::StreamExt;
use storage::db::{OptiDBImpl, Options};
use storage::error::StoreError;
use storage::table::Options as TableOptions;
use storage::{KeyValue, NamedValue, Value as Cell};
use crate::sys;

pub struct Store { pub dir: PathBuf, pub db: Option<Arc<OptiDBImpl>>, pub bg: Vec<usize>, pub old: Vec<usize>, pub baks: Vec<Vec<u8>> }
pub fn dtype(s: &str) -> DType { match s { "i8" => DType::Int8, "i16" => DType::Int16, "i32" => DType::Int32, "i64" => DType::Int64, "bool" => DType::Boolean, "dec" => DType::Decimal, "str" => DType::String, "ts" => DType::Timestamp, x => panic!("{x}") } }
/// columns are named after their type: `i64_a`
pub fn coltype(name: &str) -> &str { name.split('_').next().unwrap() }
fn cell(ty: &str, s: &str) -> Cell {
    if s == "null" { return match ty { "i8" => Cell::Int8(None), "i16" => Cell::Int16(None), "i32" => Cell::Int32(None), "i64" => Cell::Int64(None), "bool" => Cell::Boolean(None), "dec" => Cell::Decimal(None), "str" => Cell::String(None), _ => Cell::Timestamp(None) }; }
    match ty { "i8" => Cell::Int8(Some(s.parse().unwrap())), "i16" => Cell::Int16(Some(s.parse().unwrap())), "i32" => Cell::Int32(Some(s.parse().unwrap())), "i64" => Cell::Int64(Some(s.parse().unwrap())), "bool" => Cell::Boolean(Some(s == "true")), "dec" => Cell::Decimal(Some(s.parse().unwrap())), "str" => Cell::String(Some(s[1..].to_string())), "ts" => Cell::Timestamp(Some(s.parse().unwrap())), x => panic!("{x}") }
}
fn show(c: &Cell) -> String {
    match c { Cell::Int8(Some(v)) => v.to_string(), Cell::Int16(Some(v)) => v.to_string(), Cell::Int32(Some(v)) => v.to_string(), Cell::Int64(Some(v)) => v.to_string(), Cell::Boolean(Some(v)) => v.to_string(), Cell::Decimal(Some(v)) => v.to_string(), Cell::String(Some(v)) => format!("'{v}"), Cell::Timestamp(Some(v)) => v.to_string(), Cell::Null | Cell::Int8(None) | Cell::Int16(None) | Cell::Int32(None) | Cell::Int64(None) | Cell::Boolean(None) | Cell::Decimal(None) | Cell::String(None) | Cell::Timestamp(None) => "null".into(), x => format!("?{x:?}") }
}
pub fn show_at(a: &dyn Array, i: usize) -> String {
    if a.is_null(i) { return "null".into(); }
    macro_rules! p { ($t:ty) => { a.as_any().downcast_ref::<PrimitiveArray<$t>>().map_or("?type".to_string(), |x| x.value(i).to_string()) } }
    match a.data_type() {
        DataType::Int8 => p!(i8), DataType::Int16 => p!(i16), DataType::Int32 => p!(i32), DataType::Int64 | DataType::Timestamp(_, _) => p!(i64), DataType::Decimal(_, _) => p!(i128),
        DataType::Boolean => a.as_any().downcast_ref::<BooleanArray>().map_or("?type".to_string(), |x| x.value(i).to_string()),
        DataType::Utf8 => a.as_any().downcast_ref::<Utf8Array<i32>>().map_or("?type".to_string(), |x| format!("'{}", x.value(i))),
        t => format!("?{t:?}"),
    }
}
pub fn key_at(a: &dyn Array, i: usize) -> i64 { a.as_any().downcast_ref::<PrimitiveArray<i64>>().unwrap().value(i) }
pub fn row_at(arrs: &[Box<dyn Array>], idx: usize, i: usize) -> Value {
    json!([(0..idx).map(|k| key_at(arrs[k].as_ref(), i)).collect::<Vec<_>>(), arrs[idx..].iter().map(|a| show_at(a.as_ref(), i)).collect::<Vec<_>>()])
}
fn kind(e: &StoreError) -> &'static str { match e { StoreError::AlreadyExists(_) => "exists", StoreError::Internal(_) => "internal", _ => "other" } }
fn res(f: impl FnOnce() -> Result<Value, StoreError>) -> Value {
    match guard(f) { Ok(Ok(v)) => json!({"e": "ok", "o": v}), Ok(Err(e)) => json!({"e": kind(&e), "m": e.to_string()}), Err(m) => json!({"e": "panic", "m": m}) }
}
pub fn s<'a>(o: &'a Value, f: &str) -> &'a str { o[f].as_str().unwrap_or_else(|| panic!("{f} in {o}")) }
pub fn strs(o: &Value) -> Vec<String> { o.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() }
pub fn ints(o: &Value) -> Vec<i64> { o.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() }
pub fn keyname(i: usize) -> String { format!("i64_k{i}") }
fn named(o: &Value) -> Vec<NamedValue> {
    let mut v: Vec<NamedValue> = ints(&o["key"]).iter().enumerate().map(|(i, x)| NamedValue::new(keyname(i), Cell::Int64(Some(*x)))).collect();
    for p in o["v"].as_array().unwrap() { let n = p[0].as_str().unwrap(); v.push(NamedValue::new(n.to_string(), cell(p.get(2).and_then(|x| x.as_str()).unwrap_or(coltype(n)), p[1].as_str().unwrap()))); }
    v
}
pub fn topts(o: &Value) -> TableOptions {
    let u = |f: &str, d: usize| o[f].as_u64().map_or(d, |x| x as usize);
    TableOptions { index_cols: u("idx", 1), is_replacing: o["rep"].as_bool().unwrap_or(false), levels: u("levels", 4), l0_max_parts: u("l0", 1), l1_max_size_bytes: u("l1", 100000), level_size_multiplier: u("lmul", 2), max_log_length_bytes: u("log", 1 << 30), merge_max_l1_part_size_bytes: u("part", 1 << 20), merge_part_size_multiplier: u("pmul", 2), merge_data_page_size_limit_bytes: o["dpage"].as_u64().map(|x| x as usize), merge_row_group_values_limit: u("rg", 1000), merge_array_size: u("arr", 10000), merge_chunk_size: u("chunk", 65536), merge_array_page_size: u("apage", 10000), merge_max_page_size: u("mpage", 1 << 20) }
}
impl Store {
    pub fn open(dir: &Path) -> Result<Store, String> {
        let base = sys::threads();
        let d = dir.to_path_buf();
        let db = match guard(move || OptiDBImpl::open(d, Options {})) { Ok(Ok(db)) => db, Ok(Err(e)) => return Err(e.to_string()), Err(p) => return Err(format!("panic: {p}")) };
        Ok(Store { dir: dir.to_path_buf(), db: Some(Arc::new(db)), bg: sys::background(base), old: vec![], baks: vec![] })
    }
    pub fn close(&mut self) {
        let Some(db) = self.db.take() else { return };
        let t = std::thread::spawn(move || { sys::mine(); drop(db) });
        // the store waits for its compactor, which gets one more round
        let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
        while !t.is_finished() && std::time::Instant::now() < end { sys::step_until(self.bg[0], || t.is_finished()); std::thread::sleep(std::time::Duration::from_micros(100)); }
        let _ = t.join();
    }
    pub fn op(&mut self, o: &Value) -> Value {
        let db = self.db.as_ref().unwrap().clone();
        match s(o, "a") {
            "step" => { drop(db); let i = self.bg[o["i"].as_u64().unwrap() as usize]; 
                // threads of a store that was closed go on if nobody stopped them
                if o["i"] == 2 { self.old.retain(|g| sys::step(*g) == 1); }
                json!({"e": if sys::step(i) == 1 { "ok" } else { "panic" }}) }
            "reopen" => { drop(db); self.close(); self.old.push(self.bg[2]); match Store::open(&self.dir) { Ok(mut st) => { self.db = st.db.take(); self.bg = st.bg.clone(); json!({"e": "ok"}) } Err(m) => json!({"e": "failed", "m": m}) } }
            "backup" => { let mut b = vec![]; let r = res(|| { db.full_backup(&mut b, |_| {})?; Ok(json!(0)) }); let i = o["b"].as_u64().unwrap() as usize; while self.baks.len() <= i { self.baks.push(vec![]); } self.baks[i] = b; r }
            "restore" => { let b = self.baks[o["b"].as_u64().unwrap() as usize].clone(); res(|| { db.full_restore(&mut b.as_slice())?; Ok(json!(0)) }) }
            _ => { let r = run(&db, o); drop(db); r }
        }
    }
}
impl Drop for Store { fn drop(&mut self) { self.close() } }
fn scan(db: &Arc<OptiDBImpl>, t: &str, keys: &[usize], cols: &[String]) -> Value {
    let idx = keys.len();
    res(|| loop {
        let sch = db.schema(t)?;
        let mut proj: Vec<usize> = keys.to_vec();
        for c in cols { proj.push(sch.fields.iter().position(|f| &f.name == c).ok_or(StoreError::Internal(format!("no column {c}")))?); }
        let order = { let mut v: Vec<usize> = (0..cols.len()).collect(); v.sort_by_key(|i| proj[idx + i]); v };
        // columns come in the order of the schema
        let mut back = vec![0; cols.len()]; for (p, i) in order.iter().enumerate() { back[*i] = p; }
        proj.sort();
        let mut st = db.scan(t, proj)?;
        // a restore in between may have moved the columns
        if format!("{:?}", db.schema(t)?.fields) != format!("{:?}", sch.fields) { continue; }
        let mut rows = vec![];
        while let Some(c) = futures::executor::block_on(st.next()) {
            let c = c?; let arrs = c.arrays();
            for i in 0..c.len() { let r = row_at(arrs, idx, i); let v = strs(&r[1]); rows.push(json!([r[0], back.iter().map(|p| v[*p].clone()).collect::<Vec<_>>()])); }
        }
        return Ok(json!(rows));
    })
}
pub fn run(db: &Arc<OptiDBImpl>, o: &Value) -> Value {
    let t = || s(o, "t");
    let key = || ints(&o["key"]).into_iter().map(KeyValue::Int64).collect::<Vec<_>>();
    // a row as [key, values of the columns asked for]
    let pick = |r: Option<Vec<Cell>>| -> Result<Value, StoreError> {
        let Some(r) = r else { return Ok(json!([])) };
        let sch = db.schema(t())?; let idx = o["idx"].as_u64().unwrap() as usize;
        let k: Vec<i64> = r[..idx].iter().map(|c| match c { Cell::Int64(Some(v)) => *v, _ => -999 }).collect();
        let v: Vec<String> = strs(&o["cols"]).iter().map(|c| sch.fields.iter().position(|f| &f.name == c).and_then(|i| r.get(i)).map_or("?none".to_string(), show)).collect();
        Ok(json!([[k, v]]))
    };
    match s(o, "a") {
        "create" => res(|| { db.create_table(t().to_string(), topts(o))?; for i in 0..o["idx"].as_u64().unwrap() as usize { db.add_field(t(), &keyname(i), DType::Int64, false)?; } Ok(json!(0)) }),
        "field" => res(|| { db.add_field(t(), s(o, "f"), dtype(coltype(s(o, "f"))), true)?; Ok(json!(0)) }),
        "ins" => { let v = named(o); res(|| { db.insert(t(), v)?; Ok(json!(0)) }) }
        "rep" => { let v = named(o); res(|| { db.replace(t(), v)?; Ok(json!(0)) }) }
        "scan" => scan(db, t(), &(0..o["idx"].as_u64().unwrap() as usize).collect::<Vec<_>>(), &strs(&o["cols"])),
        // a scan that shows only some parts of the key
        "part" => scan(db, t(), &ints(&o["ks"]).iter().map(|i| *i as usize - 1).collect::<Vec<_>>(), &strs(&o["cols"])),
        "flush" => res(|| { db.flush(t())?; Ok(json!(0)) }),
        "get" => res(|| pick(db.get(t(), key())?)),
        "gcas" => res(|| pick(db.get_cas(t(), key())?)),
        x => panic!("{x}"),
    }
}
// ------------------------------------------------------------------ what is on disk
pub fn disk_metadata(dir: &Path, t: &str) -> storage::metadata::Metadata {
    let b = std::fs::read(dir.join("tables").join(t).join("metadata")).unwrap();
    prost::Message::decode(&b[12..]).unwrap()
}
/// the rows of a part: [key, values] with the values of `cols` (null where the part has no such column)
pub fn part_rows(p: &Path, idx: usize, cols: &[String]) -> Vec<Value> {
    use arrow2::io::parquet::read;
    let mut f = std::fs::File::open(p).unwrap();
    let md = read::read_metadata(&mut f).unwrap();
    let sch = read::infer_schema(&md).unwrap();
    let mut out = vec![];
    for c in read::FileReader::new(f, md.row_groups.clone(), sch.clone(), Some(1 << 20), None, None) {
        let c = c.unwrap(); let a = c.arrays();
        for i in 0..c.len() {
            out.push(json!([(0..idx).map(|k| key_at(a[k].as_ref(), i)).collect::<Vec<_>>(), cols.iter().map(|n| sch.fields.iter().position(|f| &f.name == n).map_or("null".into(), |x| show_at(a[x].as_ref(), i))).collect::<Vec<_>>()]));
        }
    }
    out
}
/// parts per level as the metadata on disk lists them: id, size, recorded boundaries, rows
pub fn layout(dir: &Path, t: &str, idx: usize, cols: &[String]) -> Value {
    let md = disk_metadata(dir, t);
    let kv = |v: &Vec<storage::metadata::KeyValue>| v.iter().map(|k| k.int64.map_or(-999, |x| x as i64)).collect::<Vec<_>>();
    json!(md.levels.iter().enumerate().map(|(l, lv)| lv.parts.iter().map(|p| {
        let path = dir.join("tables").join(t).join("levels").join(l.to_string()).join(format!("{}.parquet", p.id));
        let rows = match guard(|| part_rows(&path, idx, cols)) { Ok(r) => json!(r), Err(_) => json!([[[-999], ["missing"]]]) };
        json!({"id": p.id, "size": p.size_bytes, "lo": kv(&p.min), "hi": kv(&p.max), "n": p.values, "rows": rows})
    }).collect::<Vec<_>>()).collect::<Vec<_>>())
}
