//! Q02, Q03, Q04, Q05, Q06: the operators of the query crate, planned by its own planner over tables split into batches at will
use crate::*;
use arrow::array::*;
use arrow::datatypes::{DataType, Field, Schema, TimeUnit};
use arrow::record_batch::RecordBatch;
use common::{DECIMAL_PRECISION, DECIMAL_SCALE};
use datafusion::datasource::{provider_as_source, MemTable};
use datafusion::execution::context::{SessionContext, SessionState};
use datafusion::execution::runtime_env::RuntimeEnv;
use datafusion::physical_plan::collect;
use datafusion::prelude::SessionConfig;
use datafusion_common::{Column, ScalarValue};
use datafusion_expr::{col, Expr, Extension, LogicalPlan, LogicalPlanBuilder, UserDefinedLogicalNode};
use query::physical_plan::planner::QueryPlanner;
use std::sync::Arc;

pub type Rows = Vec<RecordBatch>;
/// cuts a table into batches, and these into partitions
pub fn cut(rng: &mut Rng, b: &RecordBatch, parts: usize) -> Vec<Rows> {
    let mut out: Vec<Rows> = (0..parts).map(|_| vec![]).collect();
    let (mut i, n) = (0, b.num_rows());
    let mean = *rng.pick(&[1, 2, 4, 100]);
    while i < n { let k = (1 + rng.below(mean) as usize).min(n - i); out[rng.below(parts as u64) as usize].push(b.slice(i, k)); i += k; if rng.chance(1, 12) { out[0].push(b.slice(0, 0)); } }
    out
}
pub fn scan(schema: Arc<Schema>, parts: Vec<Rows>) -> LogicalPlan {
    let names: Vec<String> = schema.fields().iter().map(|f| f.name().clone()).collect();
    let t = MemTable::try_new(schema, parts).unwrap();
    let b = LogicalPlanBuilder::scan("t", provider_as_source(Arc::new(t)), None).unwrap();
    b.project(names.iter().map(|n| col(format!("t.{n}")).alias(n)).collect::<Vec<_>>()).unwrap().build().unwrap()
}
pub fn ext(n: impl UserDefinedLogicalNode + 'static) -> LogicalPlan { LogicalPlan::Extension(Extension { node: Arc::new(n) }) }
static RUNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn run_plan(rt: &tokio::runtime::Runtime, plan: LogicalPlan, target: usize) -> Result<Vec<RecordBatch>, String> {
    // the rows of a batch between operators: it may never show in what comes out
    let size = [8192usize, 2, 8192, 1, 3, 8192, 7][RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 7];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(async {
        let state = SessionState::new_with_config_rt(SessionConfig::new().with_target_partitions(target).with_batch_size(size), Arc::new(RuntimeEnv::default())).with_query_planner(Arc::new(QueryPlanner {}));
        let ctx = SessionContext::new_with_state(state.clone());
        let p = state.create_physical_plan(&plan).await.map_err(|e| e.to_string())?;
        collect(p, ctx.task_ctx()).await.map_err(|e| e.to_string())
    })));
    r.unwrap_or_else(|e| Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())))
}
fn opt<T>(x: Option<T>) -> Value where Value: From<T> { x.map_or(json!([]), |x| json!([Value::from(x)])) }
/// one row of a history: values are in hundredths
#[derive(Clone)]
pub struct Fact { pub u: Option<i64>, pub t: i64, pub m: Option<bool>, pub v: Option<i64>, pub g: Option<i64>, pub h: Option<bool> }
#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Dec, I64, I32, I16, I8, F64 }
fn values(k: Kind, it: impl Iterator<Item = Option<i64>>) -> ArrayRef {
    match k {
        Kind::Dec => Arc::new(it.map(|v| v.map(|x| x as i128 * 10i128.pow(DECIMAL_SCALE as u32 - 2))).collect::<Decimal128Array>().with_precision_and_scale(DECIMAL_PRECISION, DECIMAL_SCALE).unwrap()),
        Kind::I64 => Arc::new(it.map(|v| v.map(|x| x / 100)).collect::<Int64Array>()),
        Kind::I32 => Arc::new(it.map(|v| v.map(|x| (x / 100) as i32)).collect::<Int32Array>()),
        Kind::I16 => Arc::new(it.map(|v| v.map(|x| (x / 100) as i16)).collect::<Int16Array>()),
        Kind::I8 => Arc::new(it.map(|v| v.map(|x| (x / 100) as i8)).collect::<Int8Array>()),
        Kind::F64 => Arc::new(it.map(|v| v.map(|x| x as f64 / 100.0)).collect::<Float64Array>()),
    }
}
pub fn table(f: &[Fact], k: Kind) -> RecordBatch {
    let v = values(k, f.iter().map(|x| x.v));
    let schema = Schema::new(vec![Field::new("project_id", DataType::Int64, false), Field::new("user", DataType::Int64, true), Field::new("ts", DataType::Timestamp(TimeUnit::Millisecond, None), false), Field::new("m", DataType::Boolean, true), Field::new("v", v.data_type().clone(), true), Field::new("g", DataType::Int64, true), Field::new("h", DataType::Boolean, true), Field::new("e", DataType::Int64, false)]);
    RecordBatch::try_new(Arc::new(schema), vec![Arc::new(Int64Array::from(vec![1; f.len()])), Arc::new(f.iter().map(|x| x.u).collect::<Int64Array>()), Arc::new(TimestampMillisecondArray::from(f.iter().map(|x| x.t).collect::<Vec<_>>())), Arc::new(f.iter().map(|x| x.m).collect::<BooleanArray>()), v, Arc::new(f.iter().map(|x| x.g).collect::<Int64Array>()), Arc::new(f.iter().map(|x| x.h).collect::<BooleanArray>()), Arc::new(Int64Array::from(vec![7; f.len()]))]).unwrap()
}
pub fn history(rng: &mut Rng, k: Kind, users: i64, max: u64, strays: bool) -> Vec<Fact> {
    let n = rng.below(max);
    (0..n).map(|_| Fact { u: if strays && rng.chance(1, 10) { None } else { Some(rng.range(0, users)) }, t: rng.range(0, 20) * 1000, m: match rng.below(6) { 0 => None, 1 => Some(false), _ => Some(true) },
        v: if rng.chance(1, 6) { None } else { Some(match k { Kind::Dec => *rng.pick(&[0i64, 1, 50, 100, 125, 300, -200, 9999]), Kind::F64 => *rng.pick(&[0i64, 25, 50, 100, 125, 300, -200, 5000]), _ => *rng.pick(&[0i64, 100, 200, 300, -200, 5000]) }) },
        g: if rng.chance(1, 4) { None } else { Some(rng.range(0, 2)) }, h: if rng.chance(1, 3) { None } else { Some(rng.chance(1, 2)) } }).collect()
}
pub fn facts(f: &[Fact]) -> Value { json!(f.iter().map(|x| json!({"u": opt(x.u), "t": x.t, "m": x.m == Some(true), "v": opt(x.v), "g": x.g.map_or("~".into(), |g| g.to_string()), "h": x.h.map_or("~".into(), |h| h.to_string())})).collect::<Vec<_>>()) }
const OPS: [&str; 6] = ["eq", "neq", "lt", "lte", "gt", "gte"];
const FNS: [&str; 5] = ["count", "sum", "min", "max", "avg"];
mod seg {
    use super::*;
    use query::logical_plan::segment::*;
    pub fn op(s: &str) -> Operator { match s { "eq" => Operator::Eq, "neq" => Operator::NotEq, "lt" => Operator::Lt, "lte" => Operator::LtEq, "gt" => Operator::Gt, _ => Operator::GtEq } }
    pub fn expr(rng: &mut Rng, k: Kind, depth: usize) -> (SegmentExpr, Value) {
        if depth > 0 && rng.chance(1, 2) {
            let (a, x) = expr(rng, k, depth - 1); let (b, y) = expr(rng, k, depth - 1);
            return if rng.chance(1, 2) { (SegmentExpr::And(Box::new(a), Box::new(b)), json!({"k": "and", "l": x, "r": y})) } else { (SegmentExpr::Or(Box::new(a), Box::new(b)), json!({"k": "or", "l": x, "r": y})) };
        }
        let (tr, w) = match rng.below(4) { 0 => (TimeRange::None, json!({"from": 0, "to": 100000})), 1 => { let a = rng.range(0, 20) * 1000; (TimeRange::From(a), json!({"from": a, "to": 100000})) } 2 => { let a = rng.range(0, 20) * 1000; let b = a + rng.range(0, 15) * 1000; (TimeRange::Between(a, b), json!({"from": a, "to": b})) } _ => { let n = rng.range(1, 15) * 1000; (TimeRange::Last(n, 20000), json!({"from": 20000 - n, "to": 100000})) } };
        let o = *rng.pick(&OPS);
        let (filter, all) = if rng.chance(1, 4) { (datafusion_expr::lit(true), true) } else { (col("m"), false) };
        let (ts, pc) = (Column::from_name("ts"), Column::from_name("user"));
        if rng.chance(1, 2) {
            let r = rng.range(0, 4);
            (SegmentExpr::Count { filter, ts_col: ts, partition_col: pc, time_range: tr, op: op(o), right: r, time_window: None }, json!({"k": "count", "w": w, "all": all, "op": o, "right": 100 * r}))
        } else {
            let f = if k == Kind::Dec { *rng.pick(&["sum", "min", "max", "avg"]) } else { *rng.pick(&["sum", "min", "max", "count"]) };
            let agg = match f { "sum" => AggregateFunction::Sum, "min" => AggregateFunction::Min, "max" => AggregateFunction::Max, "avg" => AggregateFunction::Avg, _ => AggregateFunction::Count };
            let r = if k == Kind::Dec { *rng.pick(&[0i64, 1, 50, 100, 125, 300, -200]) } else { *rng.pick(&[0i64, 100, 200, 300, -200]) };
            let right = if k == Kind::Dec { ScalarValue::Decimal128(Some(r as i128 * 10i128.pow(DECIMAL_SCALE as u32 - 2)), DECIMAL_PRECISION, DECIMAL_SCALE) } else { ScalarValue::Int64(Some(r / 100)) };
            (SegmentExpr::Aggregate { filter, predicate: Column::from_name("v"), ts_col: ts, partition_col: pc, time_range: tr, agg, op: op(o), right, time_window: None }, json!({"k": "agg", "w": w, "all": all, "op": o, "fn": f, "right": r}))
        }
    }
}
pub fn segments(a: &Args) {
    use query::logical_plan::segment::SegmentNode;
    let mut rng = Rng::new(a.seed ^ 0x5e60);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    for f in 0..if a.thorough { 8 } else { 4 } {
        let mut o = Out::new(&a.dir, &format!("trace{f}.ndjson"));
        for _ in 0..if a.thorough { 6000 } else { 700 } {
            let k = if rng.chance(1, 2) { Kind::Dec } else { Kind::I64 };
            let mut h = if rng.chance(1, 40) { history(&mut rng, k, 60, 250, true) } else { history(&mut rng, k, 5, 25, true) }; h.sort_by_key(|x| (x.u, x.t));
            let (e, j) = seg::expr(&mut rng, k, 2);
            let b = table(&h, k);
            let plan = scan(b.schema(), cut(&mut rng, &b, 1));
            let r = SegmentNode::try_new(plan, e, Column::from_name("user")).map_err(|e| e.to_string()).and_then(|n| run_plan(&rt, ext(n), 1));
            let (st, out, err) = match r { Ok(bs) => (true, bs.iter().flat_map(|b| b.column(0).as_any().downcast_ref::<Int64Array>().unwrap().iter().collect::<Vec<_>>()).flatten().collect::<Vec<i64>>(), String::new()), Err(e) => (false, vec![], e) };
            o.put(json!({"k": "seg", "fail": false, "rows": facts(&h), "expr": j, "ok": st, "out": out, "err": err}));
        }
    }
}

/// values of a column times ten thousand
fn cells(a: &ArrayRef) -> Vec<Option<i64>> {
    let n = a.len();
    macro_rules! of { ($t:ty, $f:expr) => { { let x = a.as_any().downcast_ref::<$t>().unwrap(); (0..n).map(|i| if x.is_null(i) { None } else { Some($f(x.value(i))) }).collect() } } }
    match a.data_type() {
        DataType::Int8 => of!(Int8Array, |v: i8| v as i64 * 10000), DataType::Int16 => of!(Int16Array, |v: i16| v as i64 * 10000), DataType::Int32 => of!(Int32Array, |v: i32| v as i64 * 10000), DataType::Int64 => of!(Int64Array, |v: i64| v.saturating_mul(10000)),
        DataType::UInt8 => of!(UInt8Array, |v: u8| v as i64 * 10000), DataType::UInt16 => of!(UInt16Array, |v: u16| v as i64 * 10000), DataType::UInt32 => of!(UInt32Array, |v: u32| v as i64 * 10000), DataType::UInt64 => of!(UInt64Array, |v: u64| v as i64 * 10000),
        DataType::Float32 => of!(Float32Array, |v: f32| (v as f64 * 10000.0).round() as i64), DataType::Float64 => of!(Float64Array, |v: f64| (v * 10000.0).round() as i64),
        DataType::Decimal128(_, s) => { let m = 10i128.pow(*s as u32); of!(Decimal128Array, |v: i128| (v.saturating_mul(10000) / m) as i64) }
        t => panic!("{t:?}"),
    }
}
pub fn aggs(a: &Args) {
    use query::logical_plan::SortField;
    use query::logical_plan::partitioned_aggregate::*;
    use query::logical_plan::segment::SegmentNode;
    let mut rng = Rng::new(a.seed ^ 0xa660);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let per_user = a.prop == "Q04";
    let of = |f: &str| match f { "sum" => AggregateFunction::Sum, "min" => AggregateFunction::Min, "max" => AggregateFunction::Max, "avg" => AggregateFunction::Avg, _ => AggregateFunction::Count };
    for f in 0..if a.thorough { 8 } else { 4 } {
        let mut o = Out::new(&a.dir, &format!("ops{f}.ndjson"));
        for _ in 0..if a.thorough { 2500 } else { 350 } {
            let k = *rng.pick(&[Kind::Dec, Kind::Dec, Kind::I64, Kind::I32, Kind::I16, Kind::I8]);
            // most histories are small; some have users enough to fill many batches
            let mut h = if rng.chance(1, 25) { history(&mut rng, k, 60, 250, true) } else { history(&mut rng, k, 6, 30, true) };
            if k == Kind::I8 { for x in h.iter_mut() { if x.v == Some(5000) { x.v = Some(12000) } } }
            for x in h.iter_mut() { x.u = x.u.map(|u| u + 1) }
            let b = table(&h, k);
            let segmented = matches!(k, Kind::Dec | Kind::I64) && rng.chance(1, 2);
            let target = if segmented { 1 } else { *rng.pick(&[1usize, 2, 3]) };
            let cuts = 1 + rng.below(3) as usize;
            let plan = scan(b.schema(), cut(&mut rng, &b, cuts));
            let mut segs = vec![];
            let inputs: Option<Vec<LogicalPlan>> = segmented.then(|| (0..1 + rng.below(2)).map(|_| {
                let (e, j) = seg::expr(&mut rng, k, 1); segs.push(j);
                let p = LogicalPlanBuilder::from(scan(b.schema(), cut(&mut rng, &b, 1))).sort(vec![col("user").sort(true, false)]).unwrap().build().unwrap();
                ext(SegmentNode::try_new(p, e, Column::from_name("user")).unwrap())
            }).collect());
            let groups: Vec<&str> = match rng.below(3) { 0 => vec!["g"], 1 => vec!["h"], _ => vec!["g", "h"] };
            let ge: Vec<(Expr, SortField)> = groups.iter().map(|g| (col(*g), SortField { data_type: b.schema().field_with_name(g).unwrap().data_type().clone() })).collect();
            let mut ms = vec![]; let mut ae = vec![];
            for i in 0..1 + rng.below(3) {
                let all = rng.chance(1, 2);
                let filter = (!all).then(|| col("m"));
                let (groups, partition_col) = (Some(ge.clone()), Column::from_name("user"));
                let (fo, fi) = (*rng.pick(&FNS), *rng.pick(&FNS));
                let (e, j) = match (per_user, rng.below(3)) {
                    (false, 0) => (AggregateExpr::Count { filter, groups, predicate: Column::from_name("e"), partition_col, distinct: false }, json!({"k": "countEvents", "all": all, "out": "", "in": ""})),
                    (false, _) => (AggregateExpr::Aggregate { filter, groups, partition_col, predicate: Column::from_name("v"), agg: of(fo) }, json!({"k": "aggregateProperty", "all": all, "out": fo, "in": ""})),
                    (_, 0) => (AggregateExpr::PartitionedCount { filter, outer_fn: AggregateFunction::Count, groups, partition_col, distinct: true }, json!({"k": "countUniqueGroups", "all": all, "out": "", "in": ""})),
                    (_, 1) => (AggregateExpr::PartitionedCount { filter, outer_fn: of(fo), groups, partition_col, distinct: false }, json!({"k": "countPerGroup", "all": all, "out": fo, "in": ""})),
                    _ => (AggregateExpr::PartitionedAggregate { filter, inner_fn: of(fi), outer_fn: of(fo), predicate: Column::from_name("v"), groups, partition_col }, json!({"k": "aggregatePropertyPerGroup", "all": all, "out": fo, "in": fi})),
                };
                ms.push(j); ae.push((e, format!("0_{i}")));
            }
            let names: Vec<String> = ae.iter().map(|(e, n)| format!("{n}_{}", e.field_names()[0])).collect();
            let r = PartitionedAggregatePartialNode::try_new(plan, inputs, Column::from_name("user"), ae.clone()).and_then(|n| {
                let fe = ae.into_iter().map(|(e, n)| { let p = Column::from_qualified_name(format!("{}_{}", n, e.field_names()[0])); let mut e = e.change_predicate(Column::from_name("segment"), p); match &mut e { AggregateExpr::Count { filter, .. } | AggregateExpr::Aggregate { filter, .. } | AggregateExpr::PartitionedCount { filter, .. } | AggregateExpr::PartitionedAggregate { filter, .. } => *filter = None } (e, n) }).collect();
                PartitionedAggregateFinalNode::try_new(ext(n), fe)
            }).map_err(|e| e.to_string()).and_then(|n| run_plan(&rt, ext(n), target));
            let (st, out, err) = match r {
                Err(e) => (false, vec![], e),
                Ok(bs) => (true, bs.iter().flat_map(|b| {
                    let t = |n: &str| -> Vec<String> { match b.column_by_name(n) { None => vec!["~".into(); b.num_rows()], Some(c) => (0..b.num_rows()).map(|i| if c.is_null(i) { "~".into() } else { arrow::util::display::array_value_to_string(c, i).unwrap() }).collect() } };
                    let (s, g, h) = (t("segment"), t("g"), t("h"));
                    let cs: Vec<Vec<Option<i64>>> = names.iter().map(|n| cells(b.column_by_name(n).unwrap())).collect();
                    (0..b.num_rows()).map(|i| json!({"s": s[i].parse::<i64>().unwrap() + 1, "g": g[i], "h": h[i], "cells": cs.iter().map(|c| c[i].filter(|x| x.abs() < 1 << 31).map_or(if c[i].is_some() { json!([2147483647]) } else { json!([]) }, |x| json!([x]))).collect::<Vec<_>>()})).collect::<Vec<_>>()
                }).collect::<Vec<_>>(), String::new()),
            };
            o.put(json!({"k": "agg", "fail": false, "rows": facts(&h), "segs": segs, "ms": ms, "groups": groups, "ok": st, "out": out, "err": err, "target": target, "cuts": cuts}));
        }
    }
}

/// funnels over tables cut at will (Q05)
pub fn funnels(a: &Args) {
    use common::query::TimeIntervalUnit;
    use query::logical_plan::funnel::*;
    use query::logical_plan::SortField;
    let mut rng = Rng::new(a.seed ^ 0xf0f0);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    for f in 0..if a.thorough { 8 } else { 4 } {
        let mut o = Out::new(&a.dir, &format!("ops{f}.ndjson"));
        for _ in 0..if a.thorough { 2500 } else { 400 } {
            let n = 1 + rng.below(4) as usize;
            let base = chrono::DateTime::parse_from_rfc3339(*rng.pick(&["2022-12-31T20:00:00Z", "2021-06-30T22:30:00Z", "2024-02-28T21:10:00Z", "2022-10-02T20:00:00Z"])).unwrap().timestamp_millis();
            let far = rng.chance(1, 4);
            let grid = if far { 86_400_000i64 * 5 } else { 600_000 };
            struct Row { u: Option<i64>, t: i64, st: Vec<Option<bool>>, ex: Vec<Option<bool>>, c: Option<i64>, d: Option<i64>, g: Option<i64>, h: Option<bool> }
            let users = 1 + rng.below(5);
            let mut rows: Vec<Row> = vec![];
            let mixed = rng.chance(1, 3);
            for u in 0..users {
                let mut t = rng.range(0, 10);
                let len = *rng.pick(&[0u64, 2, 5, 9, 14]);
                let (mut at, c0) = (0usize, rng.range(0, 2));
                for _ in 0..len {
                    t += 1 + if rng.chance(1, 4) { rng.range(0, 12) } else { rng.range(0, 2) };
                    // mostly the next step, sometimes any
                    let s = if rng.chance(2, 3) { let s = at % n; at += 1; s } else { rng.below(n as u64 + 1) as usize };
                    let st = (0..n).map(|i| if mixed && rng.chance(1, 6) { None } else { Some(i == s || (mixed && rng.chance(1, 5))) }).collect();
                    let ex = (0..2).map(|_| match rng.below(14) { 0 => Some(true), 1 => None, _ => Some(false) }).collect();
                    rows.push(Row { u: if rng.chance(1, 20) { None } else { Some(u as i64 - 1) }, t: t * grid + if !far && rng.chance(1, 8) { rng.range(0, 999) } else { 0 }, st, ex, c: if rng.chance(1, 10) { None } else { Some(if rng.chance(1, 10) { rng.range(0, 2) } else { c0 }) }, d: if rng.chance(1, 9) { Some(rng.range(0, 3)) } else { Some(c0 + 1) }, g: if rng.chance(1, 6) { None } else { Some(if rng.chance(1, 3) { u as i64 % 2 } else { 0 }) }, h: if rng.chance(1, 6) { None } else { Some(rng.chance(1, 4)) } });
                }
            }
            // times of a user without a key are unordered among themselves: they don't count
            rows.sort_by_key(|r| (r.u, r.t));
            let dec = |v: Option<i64>| v.map(|x| x as i128 * 10i128.pow(DECIMAL_SCALE as u32 - 2));
            let mut fields = vec![Field::new("project_id", DataType::Int64, false), Field::new("user", DataType::Int64, true), Field::new("created_at", DataType::Timestamp(TimeUnit::Millisecond, None), false), Field::new("c", DataType::Int64, true), Field::new("d", DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE), true), Field::new("g", DataType::Int64, true), Field::new("h", DataType::Boolean, true)];
            let mut cols: Vec<ArrayRef> = vec![Arc::new(Int64Array::from(vec![1; rows.len()])), Arc::new(rows.iter().map(|r| r.u).collect::<Int64Array>()), Arc::new(TimestampMillisecondArray::from(rows.iter().map(|r| base + r.t).collect::<Vec<_>>())), Arc::new(rows.iter().map(|r| r.c).collect::<Int64Array>()), Arc::new(rows.iter().map(|r| dec(r.d)).collect::<Decimal128Array>().with_precision_and_scale(DECIMAL_PRECISION, DECIMAL_SCALE).unwrap()), Arc::new(rows.iter().map(|r| r.g).collect::<Int64Array>()), Arc::new(rows.iter().map(|r| r.h).collect::<BooleanArray>())];
            for i in 0..n { fields.push(Field::new(format!("s{i}"), DataType::Boolean, true)); cols.push(Arc::new(rows.iter().map(|r| r.st[i]).collect::<BooleanArray>())); }
            for i in 0..2 { fields.push(Field::new(format!("x{i}"), DataType::Boolean, true)); cols.push(Arc::new(rows.iter().map(|r| r.ex[i]).collect::<BooleanArray>())); }
            let b = RecordBatch::try_new(Arc::new(Schema::new(fields)), cols).unwrap();
            let groups: Vec<&str> = rng.pick(&[vec![], vec![], vec!["g"], vec!["h"], vec!["g", "h"]]).clone();
            let hold: Vec<&str> = rng.pick(&[vec![], vec![], vec![], vec!["c"], vec!["d"], vec!["c", "d"]]).clone();
            let any: Vec<Vec<(usize, usize)>> = (0..n).map(|_| if rng.chance(1, 12) { (0..1 + rng.below(2)).map(|_| { let a = rng.below(n as u64) as usize; (a, a + rng.below((n - a) as u64) as usize) }).collect() } else { vec![] }).collect();
            let excl: Vec<Option<(usize, usize)>> = (0..*rng.pick(&[0usize, 0, 0, 1, 2])).map(|_| if rng.chance(1, 2) { None } else { let a = rng.below(n as u64) as usize; Some((a, a + rng.below((n - a) as u64) as usize)) }).collect();
            let unique = rng.chance(1, 2);
            let unit = match rng.below(if far { 4 } else { 3 }) { 0 => None, 1 => Some(TimeIntervalUnit::Day), 2 => Some(if far { TimeIntervalUnit::Month } else { TimeIntervalUnit::Hour }), _ => Some(TimeIntervalUnit::Week) };
            let window = grid * *rng.pick(&[1i64, 2, 3, 5, 8, 100]);
            let ge = (!groups.is_empty()).then(|| groups.iter().map(|g| (col(*g), g.to_string(), SortField { data_type: b.schema().field_with_name(g).unwrap().data_type().clone() })).collect());
            let (from, to) = (chrono::DateTime::from_timestamp_millis(base).unwrap(), chrono::DateTime::from_timestamp_millis(base + grid * 200).unwrap());
            let spec = Funnel { ts_col: Column::from_name("created_at"), from, to, window: chrono::Duration::milliseconds(window), steps: (0..n).map(|i| (col(format!("s{i}")), if any[i].is_empty() { StepOrder::Exact } else { StepOrder::Any(any[i].clone()) })).collect(), exclude: (!excl.is_empty()).then(|| excl.iter().enumerate().map(|(i, s)| ExcludeExpr { expr: col(format!("x{i}")), steps: s.map(|(from, to)| ExcludeSteps { from, to }) }).collect()), constants: (!hold.is_empty()).then(|| hold.iter().map(|c| col(*c)).collect()), count: if unique { Count::Unique } else { Count::NonUnique }, filter: None, touch: None, partition_col: col("user"), time_interval: unit.clone(), groups: ge };
            // far apart: seconds instead of thousandths
            let scale = if far { 1000i64 } else { 1 };
            let (target, cuts) = (*rng.pick(&[1usize, 2, 3]), 1 + rng.below(3) as usize);
            let plan = scan(b.schema(), cut(&mut rng, &b, cuts));
            let r = FunnelNode::new(plan, None, Column::from_name("user"), spec).map_err(|e| e.to_string()).and_then(|x| run_plan(&rt, ext(x), target));
            let text = |v: Option<String>| v.unwrap_or("~".into());
            let key = |r: &Row, which: &[&str]| which.iter().map(|g| text(match *g { "g" => r.g.map(|x| x.to_string()), "h" => r.h.map(|x| x.to_string()), "c" => r.c.map(|x| x.to_string()), _ => r.d.map(|x| x.to_string()) })).collect::<Vec<_>>().join("|");
            let (st, out, err) = match r {
                Err(e) => (false, vec![], e),
                Ok(bs) => (true, bs.iter().flat_map(|b| {
                    let int = |n: String, i: usize| { let c = b.column_by_name(&n).unwrap(); match c.data_type() { DataType::Decimal128(_, s) => (c.as_any().downcast_ref::<Decimal128Array>().unwrap().value(i) / 10i128.pow(*s as u32 - if n.contains("ratio") { 2 } else { 0 })) as i64, _ => c.as_any().downcast_ref::<Int64Array>().unwrap().value(i) } };
                    let lim = |x: i64| x.clamp(-2147483647, 2147483647);
                    (0..b.num_rows()).map(|i| json!({"g": groups.iter().map(|g| { let c = b.column_by_name(g).unwrap(); if c.is_null(i) { "~".to_string() } else { arrow::util::display::array_value_to_string(c, i).unwrap() } }).collect::<Vec<_>>().join("|"),
                        "ts": if unit.is_none() { "all".to_string() } else { chrono::DateTime::from_timestamp_millis(b.column_by_name("ts").unwrap().as_any().downcast_ref::<TimestampMillisecondArray>().unwrap().value(i)).unwrap().format("%Y-%m-%dT%H:%M:%S").to_string() },
                        "steps": (0..n).map(|k| json!({"total": int(format!("step{k}_total"), i), "conv": lim(int(format!("step{k}_conversion_ratio"), i)), "avg": lim(int(format!("step{k}_avg_time_to_convert"), i) / scale), "avgs": lim(int(format!("step{k}_avg_time_to_convert_from_start"), i) / scale), "dropped": int(format!("step{k}_dropped_off"), i), "dropr": lim(int(format!("step{k}_drop_off_ratio"), i)), "ttc": lim(int(format!("step{k}_time_to_convert"), i) / scale), "ttcs": lim(int(format!("step{k}_time_to_convert_from_start"), i) / scale)})).collect::<Vec<_>>()})).collect::<Vec<_>>()
                }).collect::<Vec<_>>(), String::new()),
            };
            let rs: Vec<Value> = rows.iter().map(|r| json!({"u": opt(r.u), "t": r.t / scale, "at": inst_ms(base + r.t), "g": key(r, &groups), "c": key(r, &hold), "st": r.st.iter().map(|x| *x == Some(true)).collect::<Vec<_>>(), "ex": r.ex.iter().map(|x| *x == Some(true)).collect::<Vec<_>>()})).collect();
            o.put(json!({"k": "fun", "fail": false, "rows": rs, "p": {"n": n, "any": any, "window": window / scale, "excl": excl.iter().map(|e| e.map_or(json!([]), |(a, b)| json!([a, b]))).collect::<Vec<_>>(), "hold": !hold.is_empty(), "unique": unique, "unit": match unit { None => "", Some(TimeIntervalUnit::Day) => "day", Some(TimeIntervalUnit::Hour) => "hour", Some(TimeIntervalUnit::Week) => "week", _ => "month" }}, "ok": st, "out": out, "err": err, "target": target, "cuts": cuts}));
        }
    }
}
fn inst_ms(ms: i64) -> Value { json!({"d": ms.div_euclid(86_400_000), "s": ms.rem_euclid(86_400_000) / 1000, "n": 0}) }
