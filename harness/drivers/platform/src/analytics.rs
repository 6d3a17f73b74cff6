//! Q01, Q03, Q04, Q06: reports asked over generated histories of events
use crate::ask::Site;
use crate::*;
use chrono::{DateTime, Duration, TimeZone, Utc};
use std::collections::{BTreeMap, BTreeSet};

pub const EVENTS: [&str; 3] = ["Buy", "Look", "Quit"];
const USERS: [&str; 6] = ["ann", "bob", "cy", "dee", "eve", "fay"];
const COLORS: [&str; 5] = ["red", "reed", "Red", "blue", "be"];
pub const TIERS: [&str; 4] = ["gold", "golden", "iron", "tin"];
pub const PRICES: [i64; 8] = [0, 5, 100, 250, 725, 1000, -300, 100000]; // hundredths
pub const PLANS: [&str; 2] = ["pro", "free"];
pub fn day0() -> DateTime<Utc> { Utc.with_ymd_and_hms(2021, 1, 1, 0, 0, 0).unwrap() }
pub fn inst(t: DateTime<Utc>) -> Value { json!({"d": t.timestamp().div_euclid(86400), "s": t.timestamp().rem_euclid(86400), "n": 0}) }
pub fn iso(t: DateTime<Utc>) -> String { t.format("%Y-%m-%dT%H:%M:%SZ").to_string() }
pub fn chars(s: &str) -> Vec<String> { s.chars().map(|c| c.to_string()).collect() }
pub fn num(h: i64) -> Value { if h % 100 == 0 { json!(h / 100) } else { json!(h as f64 / 100.0) } }
pub struct Fact { pub p: usize, pub u: String, pub e: String, pub t: DateTime<Utc> }
pub struct Data { pub rows: Vec<Value>, pub facts: Vec<Fact> }
/// a history of events sent through the real ingestion endpoints
pub fn feed(s: &Site, rng: &mut Rng, n: usize, apart: bool) -> Data {
    let mut moments: Vec<DateTime<Utc>> = (0..10).map(|_| day0() + Duration::days(rng.range(0, 110)) + Duration::hours(rng.range(0, 23))).collect();
    for d in [31, 59, 74, 90] { moments.push(day0() + Duration::days(d)); }
    let mut d = Data { rows: vec![], facts: vec![] };
    let mut plan: BTreeMap<(usize, String), String> = BTreeMap::new();
    // every name is known to every project
    let at = |p: usize, u: &str, e: &str, t: DateTime<Utc>, c: Option<&str>, pr: Option<i64>, v: Option<bool>, w: Option<DateTime<Utc>>, g: Option<&str>, plan: &BTreeMap<(usize, String), String>, d: &mut Data| {
        let mut t = t; while apart && d.facts.iter().any(|f| f.p == p && f.t == t) { t += Duration::seconds(1); }
        let mut m = serde_json::Map::new();
        if let Some(c) = c { m.insert("color".into(), json!(c)); } if let Some(x) = pr { m.insert("price".into(), num(x)); } if let Some(x) = v { m.insert("vip".into(), json!(x)); } if let Some(x) = w { m.insert("when".into(), json!(iso(x))); }
        let gs = g.map_or(json!({}), |g| json!({"company": g}));
        let st = s.track(p, u, e, &iso(t), Value::Object(m), gs);
        if st >= 300 || st == 0 { eprintln!("event not taken: {st}"); std::process::exit(2); }
        let pl = plan.get(&(p, u.to_string()));
        let opt = |x: Option<Value>| x.map_or(json!([]), |x| json!([x]));
        d.rows.push(json!({"p": p, "u": u, "g": opt(g.map(|x| json!(x))), "e": e, "t": inst(t),
            "v": {"color": opt(c.map(|x| json!(chars(x)))), "price": opt(pr.map(|x| json!(x))), "vip": opt(v.map(|x| json!(x))), "when": opt(w.map(inst)), "plan": opt(pl.map(|x| json!(chars(x))))},
            "b": {"color": c.unwrap_or("~"), "price": pr.map_or("~".into(), |x| x.to_string()), "vip": v.map_or("~".into(), |x| x.to_string()), "plan": pl.map_or("~", |x| x.as_str())}}));
        d.facts.push(Fact { p, u: u.into(), e: e.into(), t });
    };
    let ident = |p: usize, u: &str, pl: &str| { let st = s.ing.post(&format!("/api/v1/ingest/{}/identify", s.ps[p].1.replace('/', "%2F")), json!({"group": "user", "id": u, "properties": {"plan": pl}, "context": {}}).to_string(), "3.3.3.3"); if st >= 300 || st == 0 { eprintln!("identify not taken: {st}"); std::process::exit(2); } };
    for p in 0..2 {
        ident(p, USERS[0], "pro"); plan.insert((p, USERS[0].into()), "pro".into());
        let t = moments[rng.below(14) as usize];
        for e in EVENTS { at(p, USERS[0], e, t, Some("red"), Some(100), Some(true), Some(t), Some("acme"), &plan, &mut d); }
        // every text a filter may mention has been seen
        for (i, c) in COLORS.iter().enumerate() { at(p, USERS[i], EVENTS[i % 3], t, Some(c), None, None, None, None, &plan, &mut d); }
        ident(p, USERS[1], "free"); plan.insert((p, USERS[1].into()), "free".into());
    }
    for _ in 0..n {
        let p = if rng.chance(1, 6) { 1 } else { 0 };
        let u = *rng.pick(&USERS);
        if rng.chance(1, 12) { let pl = *rng.pick(&PLANS); ident(p, u, pl); plan.insert((p, u.into()), pl.into()); }
        let m = *rng.pick(&moments);
        let t = match rng.below(6) { 0 => m, 1 => m + Duration::seconds(rng.range(0, 86399)), 2 => m - Duration::seconds(1), 3 => m + Duration::hours(rng.range(1, 30)), 4 => m + Duration::minutes(rng.range(0, 90)), _ => m + Duration::days(rng.range(0, 9)) };
        let c = if rng.chance(3, 4) { Some(*rng.pick(&COLORS)) } else { None };
        let pr = if rng.chance(3, 4) { Some(*rng.pick(&PRICES)) } else { None };
        let v = if rng.chance(2, 3) { Some(rng.chance(1, 2)) } else { None };
        let w = if rng.chance(1, 2) { Some(*rng.pick(&moments)) } else { None };
        let g = if rng.chance(2, 3) { Some(*rng.pick(&["acme", "bolt", "core"])) } else { None };
        at(p, u, *rng.pick(&["Buy", "Buy", "Look", "Quit"]), t, c, pr, v, w, g, &plan, &mut d);
        if rng.chance(1, 9) { s.ing.app.db.flush("events").unwrap(); }
    }
    d
}
pub fn prop_ref(p: &str) -> Value { if p == "plan" || p == "age" { json!({"propertyType": "group", "propertyName": p, "group": 0}) } else if p == "tier" || p == "size" || p == "live" { json!({"propertyType": "group", "propertyName": p, "group": 1}) } else { json!({"propertyType": "event", "propertyName": p}) } }
fn merge(a: Value, b: Value) -> Value { let mut a = a; for (k, v) in b.as_object().unwrap() { a[k] = v.clone(); } a }
/// a filter, as the request says it and as the specification reads it
pub fn filter(rng: &mut Rng, d: &Data, f1: bool) -> (Value, Value) {
    let p = *rng.pick(&["color", "color", "color", "price", "price", "vip", "when", "plan"]);
    filter_on(rng, d, f1, p)
}
pub fn filter_on(rng: &mut Rng, d: &Data, f1: bool, p: &str) -> (Value, Value) {
    let many = if f1 { 1 } else { 1 + rng.below(3) as usize };
    let (op, js, abs): (&str, Vec<Value>, Vec<Value>) = match p {
        "color" | "plan" | "tier" => match rng.below(5) {
            0 => (*rng.pick(&["exists", "empty"]), vec![], vec![]),
            1 | 2 => { let pool: &[&str] = match p { "color" => &COLORS, "plan" => &PLANS, _ => &TIERS }; let v: BTreeSet<&str> = (0..many).map(|_| *rng.pick(pool)).collect(); (*rng.pick(&["eq", "neq"]), v.iter().map(|x| json!(x)).collect(), v.iter().map(|x| json!(chars(x))).collect()) }
            3 => { let pats: Vec<Vec<&str>> = vec![vec!["r", "STAR"], vec!["STAR", "e", "STAR"], vec!["r", "ANY", "d"], vec!["r", "e", "d"], vec!["STAR", "d"], vec!["ANY", "e"], vec!["p", "STAR"], vec!["f", "r", "e", "ANY"]]; let v: Vec<Vec<&str>> = (0..many).map(|_| rng.pick(&pats).clone()).collect(); (*rng.pick(&["like", "notLike"]), v.iter().map(|x| json!(x.iter().map(|c| match *c { "STAR" => "%", "ANY" => "_", c => c }).collect::<String>())).collect(), v.iter().map(|x| json!(x)).collect()) }
            _ => { let pats: Vec<(&str, Vec<&str>)> = vec![("^r", vec!["r", "STAR"]), ("e", vec!["STAR", "e", "STAR"]), ("r.d", vec!["STAR", "r", "ANY", "d", "STAR"]), ("d$", vec!["STAR", "d"]), ("^b.*e$", vec!["b", "STAR", "e"]), ("^R", vec!["R", "STAR"]), ("ro$", vec!["STAR", "r", "o"])]; let v: Vec<(&str, Vec<&str>)> = (0..many).map(|_| rng.pick(&pats).clone()).collect(); (*rng.pick(&["regex", "notRegex"]), v.iter().map(|x| json!(x.0)).collect(), v.iter().map(|x| json!(x.1)).collect()) }
        },
        "price" | "size" | "age" => if rng.chance(1, 6) { (*rng.pick(&["exists", "empty"]), vec![], vec![]) } else { let v: BTreeSet<i64> = (0..many).map(|_| *rng.pick(&PRICES)).collect(); (*rng.pick(&["eq", "neq", "gt", "gte", "lt", "lte"]), v.iter().map(|x| num(*x)).collect(), v.iter().map(|x| json!(x)).collect()) },
        "vip" | "live" => match rng.below(4) { 0 => ("true", vec![], vec![]), 1 => ("false", vec![], vec![]), 2 => (*rng.pick(&["exists", "empty"]), vec![], vec![]), _ => { let b = rng.chance(1, 2); (*rng.pick(&["eq", "neq"]), vec![json!(b)], vec![json!(b)]) } },
        _ => if rng.chance(1, 5) { (*rng.pick(&["exists", "empty"]), vec![], vec![]) } else { let v: BTreeSet<DateTime<Utc>> = (0..many).map(|_| d.facts[rng.below(d.facts.len() as u64) as usize].t).collect(); (*rng.pick(&["eq", "neq", "gt", "gte", "lt", "lte"]), v.iter().map(|x| json!(x.timestamp_millis())).collect(), v.iter().map(|x| inst(*x)).collect()) },
    };
    let mut j = merge(json!({"type": "property", "operation": op}), prop_ref(p)); if !js.is_empty() { j["value"] = json!(js); }
    (j, json!({"p": p, "op": op, "vals": abs}))
}
/// the window of a question: as asked, as read, and the clock it is asked at
pub fn window(rng: &mut Rng, d: &Data, unit: &str) -> (Value, Value, Option<i64>) {
    let some = |rng: &mut Rng| { let t = d.facts[rng.below(d.facts.len() as u64) as usize].t; match rng.below(3) { 0 => t, 1 => t + Duration::seconds(rng.range(-1, 1)), _ => t + Duration::hours(rng.range(-20, 20)) } };
    let max = match unit { "hour" => Duration::hours(40), "day" => Duration::days(30), "week" => Duration::weeks(14), _ => Duration::days(200) };
    let a = some(rng);
    match rng.below(4) {
        0 => { let cur = a.max(day0() + Duration::days(1)); let (lu, n) = match unit { "hour" => ("hour", rng.range(1, 40)), "day" => (*rng.pick(&["day", "week"]), rng.range(1, 4)), "week" => (*rng.pick(&["week", "month"]), rng.range(1, 3)), _ => (*rng.pick(&["month", "day", "year"]), rng.range(1, 3)) };
            (json!({"type": "last", "last": n, "unit": lu}), json!({"k": "last", "n": n, "unit": lu, "cur": inst(cur), "from": inst(cur)}), Some(cur.timestamp())) }
        1 => { let cur = a + Duration::seconds(rng.range(0, max.num_seconds())); (json!({"type": "from", "from": iso(a)}), json!({"k": "from", "from": inst(a), "cur": inst(cur), "n": 0, "unit": ""}), Some(cur.timestamp())) }
        _ => { let mut b = some(rng); let mut a = a; if b < a { std::mem::swap(&mut a, &mut b); } if b - a > max { b = a + max; } if rng.chance(1, 2) { a -= Duration::hours(rng.range(0, 10)); b += Duration::days(1).min(max / 8); }
            (json!({"type": "between", "from": iso(a), "to": iso(b)}), json!({"k": "between", "from": inst(a), "cur": inst(b), "n": 0, "unit": ""}), None) }
    }
}
const AGGS: [&str; 5] = ["count", "sum", "min", "max", "avg"];
fn measure(rng: &mut Rng, prop: &str, i: usize) -> (Value, Value) {
    let kinds: &[&str] = match prop { "Q01" => &["countEvents", "countEvents", "countUniqueGroups"], "Q03" => &["countEvents", "aggregateProperty", "aggregateProperty", "aggregateProperty"], "Q04" => &["countUniqueGroups", "dailyActiveGroups", "countPerGroup", "aggregatePropertyPerGroup", "aggregatePropertyPerGroup"], _ => &["countEvents", "countUniqueGroups", "dailyActiveGroups", "countPerGroup", "aggregateProperty", "aggregatePropertyPerGroup"] };
    let k = if prop == "Q01" && i > 0 { "countUniqueGroups" } else { *rng.pick(kinds) };
    let (outer, inner) = (*rng.pick(&AGGS), *rng.pick(&AGGS));
    let j = match k { "countPerGroup" => json!({"type": k, "aggregate": outer}), "aggregateProperty" => json!({"type": k, "propertyType": "event", "propertyName": "price", "aggregate": outer}), "aggregatePropertyPerGroup" => json!({"type": k, "propertyType": "event", "propertyName": "price", "aggregate": outer, "aggregatePerGroup": inner}), _ => json!({"type": k}) };
    (j, json!({"k": k, "out": outer, "in": inner}))
}
fn brks(rng: &mut Rng, prop: &str) -> Vec<&'static str> {
    let mut v = vec![]; let (a, b) = match prop { "Q01" => (1, 5), "Q06" => (2, 3), _ => (1, 2) };
    if rng.chance(a, b) { v.push(*rng.pick(&["color", "color", "vip", "plan"])); if rng.chance(1, 4) { let x = *rng.pick(&["color", "vip", "plan"]); if !v.contains(&x) { v.push(x); } } }
    v
}
pub struct Custom { pub id: u64, pub alts: Value }
pub fn customs(s: &Site, rng: &mut Rng, d: &Data, n: usize) -> Vec<Custom> {
    (0..n).filter_map(|i| {
        let (mut js, mut abs) = (vec![], vec![]);
        for _ in 0..1 + rng.below(2) { let e = *rng.pick(&EVENTS); let fs: Vec<(Value, Value)> = (0..rng.below(2)).map(|_| filter(rng, d, true)).collect();
            let mut j = json!({"eventType": "regular", "eventName": e}); if !fs.is_empty() { j["filters"] = json!(fs.iter().map(|x| x.0.clone()).collect::<Vec<_>>()); }
            js.push(j); abs.push(json!({"e": e, "f": fs.iter().map(|x| x.1.clone()).collect::<Vec<_>>()})); }
        let r = s.ing.app.send("POST", &format!("/api/v1/projects/{}/schema/custom-events", s.ps[0].0), Some(&s.tok), &[], Some(json!({"name": format!("c{i}"), "status": "enabled", "isSystem": false, "events": js})));
        if r.st >= 300 { eprintln!("custom event refused: {} {}", r.st, r.body); }
        r.body["id"].as_u64().map(|id| Custom { id, alts: json!(abs) })
    }).collect()
}
pub fn event(rng: &mut Rng, cs: &[Custom]) -> (Value, String, Value) {
    if !cs.is_empty() && rng.chance(1, 5) { let c = &cs[rng.below(cs.len() as u64) as usize]; return (json!({"eventType": "custom", "eventId": c.id}), c.id.to_string(), c.alts.clone()); }
    let e = *rng.pick(&["Buy", "Buy", "Look", "Quit"]);
    (json!({"eventType": "regular", "eventName": e}), e.to_string(), json!([{"e": e, "f": []}]))
}
fn scaled(v: &Value) -> i64 { match v { Value::Number(n) => (n.as_f64().unwrap() * 10000.0).round() as i64, Value::String(s) => s.parse::<f64>().map_or(-77777, |x| (x * 10000.0).round() as i64), _ => -99999 } }
fn said(name: &str, v: &Value) -> String { match v { Value::Null => "~".into(), Value::String(s) => s.clone(), Value::Bool(b) => b.to_string(), Value::Number(n) if name == "price" => ((n.as_f64().unwrap() * 100.0).round() as i64).to_string(), x => x.to_string() } }
fn question(a: &Args, s: &Site, rng: &mut Rng, d: &Data, cs: &[Custom], ds: usize) -> Value {
    let unit = *rng.pick(&["hour", "day", "day", "week", "month", "year"]);
    let (tj, ta, cur) = window(rng, d, unit);
    let grp = if rng.chance(1, 3) { 1 } else { 0 };
    let nf = |rng: &mut Rng| if a.prop == "Q01" { 1 + rng.below(2) } else if rng.chance(1, 4) { 1 } else { 0 };
    let glob: Vec<(Value, Value)> = if rng.chance(1, 3) { (0..nf(rng)).map(|_| filter(rng, d, false)).collect() } else { vec![] };
    let common = brks(rng, &a.prop);
    let (mut ej, mut ea, mut keys) = (vec![], vec![], BTreeSet::new());
    for _ in 0..if a.prop == "Q06" { 1 + rng.below(3) } else { 1 + rng.below(5) / 4 } {
        let (mut e, name, alts) = event(rng, cs);
        let fs: Vec<(Value, Value)> = (0..nf(rng)).map(|_| filter(rng, d, false)).collect();
        let own = if rng.chance(1, 5) { brks(rng, &a.prop).into_iter().filter(|x| !common.contains(x)).collect() } else { vec![] };
        let (mut qj, mut qa) = (vec![], vec![]);
        for i in 0..if a.prop == "Q01" { 1 } else { 1 + rng.below(3) } as usize { let (j, x) = measure(rng, &a.prop, i); let label = match x["k"].as_str().unwrap() { "countEvents" => "count".to_string(), "countPerGroup" => format!("per {}", x["out"]), "aggregateProperty" => format!("agg {}", x["out"]), "aggregatePropertyPerGroup" => format!("{x}"), k => k.to_string() };
            let label = if label == "per \"count\"" { "count".into() } else { label };
            if keys.insert((name.clone(), label)) { qj.push(j); qa.push(x); } }
        if qj.is_empty() { continue; }
        e["queries"] = json!(qj); if !fs.is_empty() { e["filters"] = json!(fs.iter().map(|x| x.0.clone()).collect::<Vec<_>>()); }
        if !own.is_empty() { e["breakdowns"] = json!(own.iter().map(|p: &&str| merge(json!({"type": "property"}), prop_ref(p))).collect::<Vec<_>>()); }
        ej.push(e); ea.push(json!({"name": name, "alts": alts, "f": fs.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "brk": own, "qs": qa}));
    }
    let p = if rng.chance(1, 10) { 1 } else { 0 };
    let p = if ea.iter().any(|e| e["name"].as_str().unwrap().parse::<u64>().is_ok()) { 0 } else { p };
    let mut b = json!({"time": tj, "group": grp, "intervalUnit": unit, "chartType": "line", "analysis": {"type": "linear"}, "events": ej});
    if !common.is_empty() { b["breakdowns"] = json!(common.iter().map(|p| merge(json!({"type": "property"}), prop_ref(p))).collect::<Vec<_>>()); }
    if !glob.is_empty() { b["filters"] = json!({"groupsCondition": "and", "groups": [{"filtersCondition": "and", "filters": glob.iter().map(|x| x.0.clone()).collect::<Vec<_>>()}]}); }
    let r = s.ask(p, &format!("queries/event-segmentation?format=json{}", cur.map_or(String::new(), |c| format!("&timestamp={c}"))), b.clone());
    let names: BTreeSet<String> = common.iter().map(|x| x.to_string()).chain(ea.iter().flat_map(|e| e["brk"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()))).collect();
    let empty = vec![]; let cols = r.body["columns"].as_array().unwrap_or(&empty);
    let get = |n: &str| cols.iter().find(|c| c["name"] == n).and_then(|c| c["data"].as_array());
    let times: Vec<String> = cols.iter().filter_map(|c| c["name"].as_str()).filter(|n| n.len() == 19 && n.as_bytes()[10] == b'T').map(|x| x.to_string()).collect();
    let n = cols.first().and_then(|c| c["data"].as_array()).map_or(0, |x| x.len());
    let at = |c: &str, i: usize| get(c).and_then(|x| x.get(i)).cloned().unwrap_or(json!("?missing"));
    let rows: Vec<Value> = (0..n).map(|i| { let mut bk = serde_json::Map::new(); bk.insert("_".into(), json!("")); for x in &names { bk.insert(x.clone(), json!(said(x, &at(x, i)))); }
        json!({"ev": at("Event", i), "fml": at("Formula", i), "avg": scaled(&at("Average", i)), "brk": bk, "cells": times.iter().map(|t| scaled(&at(t, i))).collect::<Vec<_>>()}) }).collect();
    json!({"k": "q", "fail": false, "ds": ds, "p": p, "grp": grp, "unit": unit, "time": ta, "glob": glob.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "brk": common, "names": names, "evs": ea, "st": r.st, "cols": times, "rows": rows, "body": b.to_string(), "err": if r.st == 200 { "".to_string() } else { r.body.to_string() }})
}
pub fn run(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x9a << 16 ^ (a.prop.as_bytes()[2] as u64) << 8);
    for f in 0..if a.thorough { 7 } else { 4 } {
        let mut o = Out::new(&a.dir, &format!("trace{f}.ndjson")); let mut ds = 0; let mut line = 0;
        for _ in 0..if a.thorough { 8 } else { 2 } {
            let s = Site::new(a, 2); let n = 25 + rng.below(40) as usize; let d = feed(&s, &mut rng, n, false);
            let cs = customs(&s, &mut rng, &d, 4);
            o.put(json!({"k": "data", "fail": false, "rows": d.rows})); line += 1; ds = line;
            for _ in 0..if a.thorough { 250 } else { 120 } { o.put(question(a, &s, &mut rng, &d, &cs, ds)); line += 1; }
        }
    }
}

/// a funnel, as it is asked and as the specification reads it
fn funnel(s: &Site, rng: &mut Rng, d: &Data, cs: &[Custom], ds: usize) -> Value {
    let unit = *rng.pick(&["hour", "day", "week", "month", "year"]);
    let (tj, ta, cur) = if rng.chance(1, 3) { window(rng, d, unit) } else { let (a, b) = (day0() - Duration::days(rng.range(0, 3)), day0() + Duration::days(rng.range(90, 125))); (json!({"type": "between", "from": iso(a), "to": iso(b)}), json!({"k": "between", "from": inst(a), "cur": inst(b), "n": 0, "unit": ""}), None) };
    let grp = if rng.chance(1, 4) { 1 } else { 0 };
    let p = if rng.chance(1, 8) { 1 } else { 0 };
    let cs = if p == 0 { cs } else { &[] };
    let fs = |rng: &mut Rng, j: &mut Value, one: u64| -> Vec<Value> { let f: Vec<(Value, Value)> = if rng.chance(1, one) { (0..1 + rng.below(2)).map(|_| filter(rng, d, false)).collect() } else { vec![] }; if !f.is_empty() || rng.chance(1, 12) { j["filters"] = json!(f.iter().map(|x| x.0.clone()).collect::<Vec<_>>()); } f.into_iter().map(|x| x.1).collect() };
    let n = *rng.pick(&[1usize, 2, 2, 2, 3, 3, 4, 5]);
    let (mut sj, mut sa, mut any) = (vec![], vec![], vec![]);
    for _ in 0..n {
        let (mut ej, mut ea) = (vec![], vec![]);
        for _ in 0..1 + rng.below(5) / 4 { let (mut e, _, alts) = event(rng, cs); let f = fs(rng, &mut e, 4); ea.push(json!({"alts": alts, "f": f})); ej.push(e); }
        let o: Vec<(usize, usize)> = if rng.chance(1, 12) { (0..1 + rng.below(2)).map(|_| { let a = rng.below(n as u64) as usize; (a, a + rng.below((n - a) as u64) as usize) }).collect() } else { vec![] };
        sj.push(json!({"events": ej, "order": if o.is_empty() { json!({"type": "exact"}) } else { json!({"type": "any", "steps": o}) }})); sa.push(json!(ea)); any.push(json!(o));
    }
    let (mut xj, mut xa, mut excl) = (vec![], vec![], vec![]);
    for _ in 0..*rng.pick(&[0usize, 0, 0, 1, 1, 2]) {
        let (mut e, _, alts) = event(rng, cs); let f = fs(rng, &mut e, 3);
        let st = match rng.below(3) { 0 => json!([]), 1 => { e["steps"] = json!({"type": "all"}); json!([0, n - 1]) } _ => { let a = rng.below(n as u64) as usize; let b = a + rng.below((n - a) as u64) as usize; e["steps"] = json!({"type": "between", "from": a + 1, "to": b + 1}); json!([a, b]) } };
        xj.push(e); xa.push(json!({"alts": alts, "f": f})); excl.push(st);
    }
    let mut some = |of: &[&'static str]| -> Vec<&'static str> { let mut v = vec![]; if rng.chance(1, 3) { v.push(*rng.pick(of)); if rng.chance(1, 4) { let x = *rng.pick(of); if !v.contains(&x) { v.push(x); } } } v };
    let brk = some(&["color", "vip", "plan", "price"]);
    let hold = some(&["color", "vip", "plan", "price"]);
    let mut b = json!({"time": tj, "group": grp, "steps": sj});
    let glob = if rng.chance(1, 4) { let f: Vec<(Value, Value)> = (0..1 + rng.below(2)).map(|_| filter(rng, d, false)).collect(); b["filters"] = json!({"groupsCondition": "and", "groups": [{"filtersCondition": "and", "filters": f.iter().map(|x| x.0.clone()).collect::<Vec<_>>()}]}); f.into_iter().map(|x| x.1).collect() } else { vec![] };
    let (wn, wu, ws) = match rng.below(6) { 0 => { let n = rng.range(1, 30); (n, "hour", n * 3600) } 1 => { let n = rng.range(1, 9); (n, "day", n * 86400) } 2 => { let n = rng.range(1, 5); (n, "week", n * 7 * 86400) } 3 | 4 => { let n = rng.range(1, 3); (n, "month", n * 31 * 86400) } _ => (1, "year", 372 * 86400) };
    b["timeWindow"] = json!({"n": wn, "unit": wu});
    let over = rng.chance(1, 2); b["chartType"] = if over { json!({"type": "conversionOverTime", "intervalUnit": unit}) } else if rng.chance(1, 4) { json!({"type": "frequency"}) } else { json!({"type": "steps"}) };
    let unique = rng.chance(1, 2); b["count"] = json!(if unique { "unique" } else { "nonUnique" });
    if !brk.is_empty() { b["breakdowns"] = json!(brk.iter().map(|p| merge(json!({"type": "property"}), prop_ref(p))).collect::<Vec<_>>()); }
    if !hold.is_empty() { b["holdingConstants"] = json!(hold.iter().map(|p| prop_ref(p)).collect::<Vec<_>>()); }
    if !xj.is_empty() { b["exclude"] = json!(xj); }
    let r = s.ask(p, &format!("queries/funnel?format=json{}", cur.map_or(String::new(), |c| format!("&timestamp={c}"))), b.clone());
    let steps = r.body["steps"].as_array().cloned().unwrap_or_default();
    let num = |v: &Value| match v { Value::Number(n) => n.as_f64().unwrap(), Value::String(s) => s.parse().unwrap_or(-777.0), _ => -999.0 };
    let lim = |x: f64| (x.floor() as i64).clamp(-2147483647, 2147483647);
    let len = steps.first().and_then(|s| s["data"].as_array()).map_or(0, |x| x.len());
    let data = |k: usize, i: usize| steps[k]["data"].get(i).cloned().unwrap_or(Value::Null);
    let same = steps.iter().all(|s| s["data"].as_array().is_some_and(|x| x.len() == len)) && (0..len).all(|i| (0..steps.len()).all(|k| data(k, i)["groups"] == data(0, i)["groups"] && data(k, i)["ts"] == data(0, i)["ts"]));
    let out: Vec<Value> = (0..len).map(|i| { let x = data(0, i);
        let g: Vec<String> = x["groups"].as_array().cloned().unwrap_or_default().iter().skip(1).zip(brk.iter().copied().chain(std::iter::repeat("?"))).map(|(v, n)| match v.as_str().unwrap_or("?") { "" => "~".into(), t if n == "price" => t.parse::<f64>().map_or(t.to_string(), |x| ((x * 100.0).round() as i64).to_string()), t => t.to_string() }).collect();
        json!({"g": g, "ts": if over { DateTime::from_timestamp_millis(x["ts"].as_i64().unwrap_or(0)).unwrap().format("%Y-%m-%dT%H:%M:%S").to_string() } else { "all".into() },
            "steps": (0..steps.len()).map(|k| { let y = data(k, i); json!({"total": lim(num(&y["total"])), "conv": lim((num(&y["conversionRatio"]) * 100.0).round()), "avg": lim(num(&y["avgTimeToConvert"]) / 1000.0), "avgs": lim(num(&y["avgTimeToConvertFromStart"]) / 1000.0), "dropped": lim(num(&y["droppedOff"])), "dropr": lim((num(&y["dropOffRatio"]) * 100.0).round()), "ttc": lim(num(&y["timeToConvert"]) / 1000.0), "ttcs": lim(num(&y["timeToConvertFromStart"]) / 1000.0)}) }).collect::<Vec<_>>()}) }).collect();
    json!({"k": "f", "fail": false, "ds": ds, "p": p, "grp": grp, "time": ta, "glob": glob, "brk": brk, "hold": hold, "steps": sa, "ex": xa, "q": {"n": n, "any": any, "window": ws, "excl": excl, "hold": !hold.is_empty(), "unique": unique, "unit": if over { unit } else { "" }}, "st": r.st, "named": same && steps.len() == n, "out": out, "body": b.to_string(), "err": if r.st == 200 { "".to_string() } else { r.body.to_string() }})
}
pub fn funnels(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0xf9a << 12);
    for f in 0..if a.thorough { 7 } else { 4 } {
        let mut o = Out::new(&a.dir, &format!("trace{f}.ndjson")); let mut line = 0;
        for _ in 0..if a.thorough { 6 } else { 2 } {
            let s = Site::new(a, 2); let n = 30 + rng.below(50) as usize; let mut d = feed(&s, &mut rng, n, true);
            let cs = customs(&s, &mut rng, &d, 4);
            d.rows.sort_by_key(|r| (r["t"]["d"].as_i64(), r["t"]["s"].as_i64()));
            o.put(json!({"k": "data", "fail": false, "rows": d.rows})); line += 1; let ds = line;
            for _ in 0..if a.thorough { 250 } else { 100 } { o.put(funnel(&s, &mut rng, &d, &cs, ds)); line += 1; }
        }
    }
}
