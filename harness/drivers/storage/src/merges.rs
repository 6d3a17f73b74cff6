//! Merges of sorted files, called directly.
use std::path::Path;
use std::sync::Arc;
use arrow2::array::*;
use arrow2::chunk::Chunk;
use arrow2::datatypes::{DataType, Field, Schema};
use arrow2::io::parquet::write::{transverse, CompressionOptions, Encoding, FileWriter, RowGroupIterator, Version, WriteOptions};
use drvlib::*;
use storage::parquet::parquet_merger::{merge, Options};
use crate::store::*;

fn array(ty: &str, v: &[String]) -> Box<dyn Array> {
    macro_rules! p { ($t:ty) => { PrimitiveArray::<$t>::from(v.iter().map(|s| if s == "null" { None } else { Some(s.parse::<$t>().unwrap()) }).collect::<Vec<_>>()) } }
    match ty {
        "i8" => p!(i8).boxed(), "i16" => p!(i16).boxed(), "i32" => p!(i32).boxed(), "i64" => p!(i64).boxed(), "ts" => p!(i64).to(dt("ts")).boxed(), "dec" => p!(i128).to(dt("dec")).boxed(),
        "bool" => BooleanArray::from(v.iter().map(|s| if s == "null" { None } else { Some(s == "true") }).collect::<Vec<_>>()).boxed(),
        _ => Utf8Array::<i32>::from(v.iter().map(|s| if s == "null" { None } else { Some(s[1..].to_string()) }).collect::<Vec<_>>()).boxed(),
    }
}
fn dt(ty: &str) -> DataType { DataType::try_from(dtype(ty)).unwrap() }
type Row = (Vec<i64>, Vec<String>);
fn write(p: &Path, idx: usize, cols: &[String], rows: &[Row], group: usize, page: Option<usize>) {
    let mut fields: Vec<Field> = (0..idx).map(|i| Field::new(keyname(i), DataType::Int64, false)).collect();
    for c in cols { fields.push(Field::new(c.clone(), dt(coltype(c)), true)); }
    let schema = Schema::from(fields);
    let o = WriteOptions { write_statistics: true, compression: CompressionOptions::Uncompressed, version: Version::V2, data_pagesize_limit: page };
    let chunks: Vec<_> = rows.chunks(group).map(|g| {
        let mut arrs: Vec<Box<dyn Array>> = (0..idx).map(|i| PrimitiveArray::<i64>::from(g.iter().map(|r| Some(r.0[i])).collect::<Vec<_>>()).boxed()).collect();
        for (c, n) in cols.iter().enumerate() { arrs.push(array(coltype(n), &g.iter().map(|r| r.1[c].clone()).collect::<Vec<_>>())); }
        Ok(Chunk::new(arrs))
    }).collect();
    let enc = schema.fields.iter().map(|f| transverse(&f.data_type, |_| Encoding::Plain)).collect();
    let groups = RowGroupIterator::try_new(chunks.into_iter(), &schema, o, enc).unwrap();
    let mut w = FileWriter::try_new(std::io::BufWriter::new(std::fs::File::create(p).unwrap()), schema, o).unwrap();
    for g in groups { w.write(g.unwrap()).unwrap(); }
    w.end(None).unwrap();
}
pub fn s03(a: &Args) {
    let n = if a.thorough { 15000 } else { 1500 };
    let per = if a.thorough { 900 } else { 250 };
    let dir = std::path::PathBuf::from(format!("{}/db-m", a.dir));
    let mut out = Out::new(&a.dir, "trace0.ndjson");
    for i in 0..n {
        if i > 0 && i % per == 0 { out = Out::new(&a.dir, &format!("trace{}.ndjson", i / per)); }
        let mut r = Rng::new(a.seed * 100000 + i as u64);
        let _ = std::fs::remove_dir_all(&dir); std::fs::create_dir_all(dir.join("out")).unwrap();
        let rep = r.chance(1, 4); let idx = if rep { r.range(2, 3) } else { r.range(1, 3) } as usize;
        // one schema of the table, of which older files have the first columns only
        let mut all: Vec<String> = ["i64_a", "str_a", "i16_a", "bool_a", "dec_a", "ts_a", "i8_a", "i32_a"].map(|s| s.to_string()).to_vec(); r.shuffle(&mut all); all.truncate(r.range(0, 3) as usize);
        let keys = r.range(1, 12); let wide = r.chance(1, 3); let mut ver = 0i64; let unique = r.chance(1, 3); let mut used = 0i64;
        let streams = r.range(1, 4); let mut ins = vec![]; let mut paths = vec![];
        for s in 0..streams {
            let nc = if s == 0 { all.len() } else { r.range(0, all.len() as i64) as usize };
            let cols = &all[..nc];
            let len = *r.pick(&[1i64, 1, 2, 3, 5, 8, 15]); let base = r.range(0, 10);
            let mut rows: Vec<Row> = (0..len).map(|_| {
                let mut k: Vec<i64> = (0..idx).map(|_| r.range(0, keys)).collect();
                if wide { k[0] += base * keys; }
                if unique { used += 1; k[0] = k[0] * 1000 + used; }
                if rep { ver += 1; k[idx - 1] = (ver * 7919) % 100003; }
                (k, cols.iter().map(|c| crate::sample(&mut r, coltype(c))).collect())
            }).collect();
            rows.sort_by(|x, y| x.0.cmp(&y.0));
            let p = dir.join(format!("in{s}.parquet"));
            write(&p, idx, cols, &rows, *r.pick(&[1usize, 2, 3, 5, 100]), *r.pick(&[None, Some(1), Some(20), Some(40), Some(100)]));
            ins.push(json!({"cols": cols, "rows": rows.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()}));
            paths.push(p);
        }
        let o = Options { index_cols: idx, is_replacing: rep, data_page_size_limit_bytes: *r.pick(&[None, Some(1usize), Some(16), Some(64), Some(4096)]), row_group_values_limit: *r.pick(&[1usize, 2, 3, 5, 10, 1000]), array_page_size: *r.pick(&[1usize, 2, 3, 4, 7, 10000]), out_part_id: r.range(0, 5) as usize, merge_max_page_size: 1 << 20, max_part_size_bytes: *r.pick(&[None, Some(1usize), Some(300), Some(900), Some(100000)]) };
        let (from, lim) = (o.out_part_id, o.max_part_size_bytes);
        let res = guard(|| {
            let readers = paths.iter().map(|p| std::fs::File::open(p).unwrap()).collect::<Vec<_>>();
            merge(readers, Arc::new(storage::Fs::new()), dir.join("out"), from, "t", 0, o).map_err(|e| e.to_string())
        });
        let pv = |v: &Vec<storage::parquet::ParquetValue>| v.iter().map(|x| match x { storage::parquet::ParquetValue::Int64(i) => *i, _ => -999 }).collect::<Vec<_>>();
        let r = match res {
            Ok(Ok(files)) => { let v = guard(|| files.iter().map(|f| json!({"id": f.id, "n": f.values, "lo": pv(&f.min), "hi": pv(&f.max), "rows": part_rows(&f.path, idx, &all), "len": (std::fs::metadata(&f.path).unwrap().len() == f.size_bytes)})).collect::<Vec<_>>()); match v { Ok(v) => json!({"e": "ok", "o": v}), Err(m) => json!({"e": "unreadable", "m": m}) } }
            Ok(Err(e)) => json!({"e": "error", "m": e}), Err(m) => json!({"e": "panic", "m": m}),
        };
        crate::alive();
        out.put(json!({"k": "merge", "idx": idx, "rep": rep, "cols": all, "ins": ins, "from": from, "max": lim.map_or(0, |x| x), "r": r}));
    }
}
