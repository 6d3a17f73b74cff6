//! Q07: searches over the records of events and groups, records by id, and the values of properties
use crate::analytics::*;
use crate::app::Reply;
use crate::ask::Site;
use crate::ingest::{read, table};
use crate::*;
use chrono::{DateTime, Duration};
use common::types::TABLE_EVENTS;
use common::group_col;
use std::collections::{BTreeMap, BTreeSet};

type Said = BTreeMap<String, String>;
/// names a property as requests do, and as rows here do
const EVP: [&str; 15] = ["color", "price", "vip", "when", "plan", "age", "tier", "size", "live", "event", "event_id", "created_at", "group_0", "group_1", "ip"];
const GRP: [&[&str]; 2] = [&["plan", "age", "id", "created_at"], &["tier", "size", "live", "id", "created_at"]];
fn numeric(p: &str) -> bool { matches!(p, "price" | "size" | "age") }
fn whole(p: &str) -> bool { matches!(p, "event_id") }
fn hundredths(t: &str) -> i64 { t.parse::<f64>().map_or(-77777, |x| (x * 100.0).round() as i64) }
/// a stored value as it reads, and as a filter sees it
fn both(t: &str, v: &str) -> (String, Value) {
    match t { "n" => (hundredths(v).to_string(), json!([hundredths(v)])), "b" => (v.into(), json!([v == "true"])), "t" => (v.into(), json!([inst(DateTime::from_timestamp_millis(v.parse().unwrap()).unwrap())])), _ => (v.into(), json!([chars(v)])) }
}
fn row(s: &Site, t: i64, raw: &BTreeMap<String, String>) -> Value {
    let r = read(&s.ing.app.md, t, raw);
    let (mut said, mut v) = (Said::new(), serde_json::Map::new());
    let names: Vec<&str> = if t < 0 { EVP.to_vec() } else { GRP[t as usize].to_vec() };
    for n in &names { said.insert(n.to_string(), "~".into()); }
    for n in ["color", "price", "vip", "when", "plan", "age", "tier", "size", "live"] { v.insert(n.into(), json!([])); }
    let mut put = |n: &str, ty: &str, x: &str| { let (a, b) = both(ty, x); said.insert(n.into(), a); v.insert(n.into(), b); };
    for x in r["vals"].as_array().unwrap() { put(x[0].as_str().unwrap(), x[1].as_str().unwrap(), x[2].as_str().unwrap()); }
    if t < 0 { for x in r["gvals"].as_array().unwrap() { put(x[1].as_str().unwrap(), x[2].as_str().unwrap(), x[3].as_str().unwrap()); } }
    let at = r["at"].as_str().unwrap(); let ms: i64 = at.parse().unwrap();
    said.insert("created_at".into(), at.into());
    if t < 0 {
        said.insert("event".into(), r["ev"].as_str().unwrap().into()); said.insert("event_id".into(), r["n"].to_string()); said.insert("group_0".into(), r["text"].as_str().unwrap().into());
        for g in r["gk"].as_array().unwrap() { if g[0] == 1 { said.insert("group_1".into(), g[2].as_str().unwrap().into()); } }
        let ip = r["ip"].as_str().unwrap(); said.insert("ip".into(), if ip.is_empty() { "~".into() } else { ip_text(s, r["p"].as_u64().unwrap(), ip) });
    } else { said.insert("id".into(), r["text"].as_str().unwrap().into()); }
    let p = s.ps.iter().position(|x| x.0 == r["p"].as_u64().unwrap()).unwrap();
    json!({"p": p, "grp": t, "n": r["n"], "e": if t < 0 { r["ev"].clone() } else { json!("") }, "t": inst(DateTime::from_timestamp_millis(ms).unwrap()), "v": v, "s": said})
}
fn ip_text(s: &Site, p: u64, raw: &str) -> String { s.ing.app.md.dictionaries.get_value(p, TABLE_EVENTS, "ip", raw.parse().unwrap_or(0)).unwrap_or(raw.into()) }
fn pref(g: i64, p: &str) -> Value { if g < 0 { prop_ref(p) } else { json!({"propertyType": "group", "propertyName": p, "group": g}) } }
/// the name a row uses for an answered property; the ones never given a value are ""
fn key(g: i64, c: &Value) -> String {
    let (n, ty) = (c["propertyName"].as_str().unwrap_or("?"), c["propertyType"].as_str().unwrap_or("?")); let cg = c["group"].as_i64().unwrap_or(-1);
    let known = if g < 0 { EVP.contains(&n) && pref(-1, n)["propertyType"] == ty && (ty == "event" || pref(-1, n)["group"] == cg) } else { GRP[g as usize].contains(&n) && ty == "group" && cg == g };
    if known { n.into() } else { "".into() }
}
fn said(p: &str, v: &Value) -> String { match v { Value::Null => "~".into(), Value::String(s) => s.clone(), Value::Bool(b) => b.to_string(), Value::Number(n) if numeric(p) => ((n.as_f64().unwrap_or(-7777.0) * 100.0).round() as i64).to_string(), Value::Number(n) if n.is_f64() => n.as_f64().unwrap().round().to_string(), x => x.to_string() } }
/// an answer's columns as rows; ok says whether every column is of the same length and the ones not looked at say nothing
fn shape(g: i64, r: &Reply, asked: &[String], compact: bool) -> (Vec<Said>, bool) {
    let empty = vec![];
    let cols: Vec<(String, Vec<Value>, bool)> = if compact { r.body.as_array().unwrap_or(&empty).iter().enumerate().map(|(i, c)| (asked.get(i).cloned().unwrap_or("?".into()), c.as_array().cloned().unwrap_or_default(), true)).collect() }
        else { r.body["columns"].as_array().unwrap_or(&empty).iter().map(|c| (key(g, c), c["data"].as_array().cloned().unwrap_or_default(), matches!(c["propertyName"].as_str(), Some("project_id" | "version")))).collect() };
    let n = cols.first().map_or(0, |c| c.1.len());
    let mut ok = cols.iter().all(|c| c.1.len() == n) && (r.body.is_array() == compact);
    let mut rows = vec![Said::new(); n];
    for (k, d, skip) in &cols { for (i, v) in d.iter().enumerate().take(n) { if k.is_empty() { if !*skip && !(v.is_null() || v.as_f64() == Some(0.0)) { ok = false; } } else if rows[i].insert(k.clone(), said(k, v)).is_some() { ok = false; } } }
    if !compact && !asked.is_empty() && cols.iter().map(|c| c.0.clone()).collect::<Vec<_>>() != asked && n > 0 { ok = false; }
    (rows, ok)
}
fn group_of(fs: &[(Value, Value)]) -> Value { json!({"groupsCondition": "and", "groups": [{"filtersCondition": "and", "filters": fs.iter().map(|x| x.0.clone()).collect::<Vec<_>>()}]}) }
fn abs(fs: &[(Value, Value)]) -> Vec<Value> { fs.iter().map(|x| x.1.clone()).collect() }
fn some(rng: &mut Rng, of: &[&str]) -> Vec<String> { let mut v: Vec<String> = vec![]; for _ in 0..1 + rng.below(4) { let x = rng.pick(of).to_string(); if !v.contains(&x) { v.push(x); } } v }
fn efilter(rng: &mut Rng, d: &Data, f1: bool) -> (Value, Value) { if rng.chance(1, 5) { let p = *rng.pick(&["tier", "size", "live", "age"]); filter_on(rng, d, f1, p) } else { filter(rng, d, f1) } }
fn err(r: &Reply) -> String { if r.st == 200 { "".into() } else { r.body.to_string() } }
fn search(s: &Site, rng: &mut Rng, d: &Data, cs: &[Custom], ds: usize, every: bool) -> Value {
    let g: i64 = if every { -1 } else { *rng.pick(&[-1, -1, -1, 0, 1]) }; let p = if !every && rng.chance(1, 6) { 1 } else { 0 };
    let unit = *rng.pick(&["day", "week", "month", "month", "year"]);
    let (tj, ta, cur) = if !every && rng.chance(1, 3) { window(rng, d, unit) } else { let (a, b) = (day0() - Duration::days(rng.range(0, 3)), day0() + Duration::days(if every { 150 } else { rng.range(60, 130) })); (json!({"type": "between", "from": iso(a), "to": iso(b)}), json!({"k": "between", "from": inst(a), "cur": inst(b), "n": 0, "unit": ""}), None) };
    let (mut b, mut evs, mut none) = (json!({}), vec![], false);
    if g < 0 || rng.chance(3, 4) { b["time"] = tj; } else { none = true; }
    let glob: Vec<(Value, Value)> = if !every && rng.chance(1, 2) { (0..1 + rng.below(2)).map(|_| if g < 0 { efilter(rng, d, false) } else { let x = *rng.pick(if g == 0 { &["plan", "age"][..] } else { &["tier", "size", "live"][..] }); filter_on(rng, d, false, x) }).collect() } else { vec![] };
    if !glob.is_empty() { b["filters"] = group_of(&glob); } else if rng.chance(1, 8) { b["filters"] = json!({"groupsCondition": "and", "groups": []}); }
    if g < 0 && !every && rng.chance(2, 3) {
        let mut ej = vec![];
        for _ in 0..1 + rng.below(4) / 2 { let (mut e, _, alts) = event(rng, if p == 0 { cs } else { &[] }); let fs: Vec<(Value, Value)> = if rng.chance(1, 2) { (0..1 + rng.below(2)).map(|_| efilter(rng, d, false)).collect() } else { vec![] };
            if !fs.is_empty() || rng.chance(1, 6) { e["filters"] = json!(fs.iter().map(|x| x.0.clone()).collect::<Vec<_>>()); } ej.push(e); evs.push(json!({"alts": alts, "f": abs(&fs)})); }
        b["events"] = json!(ej);
    }
    if g >= 0 { b["group"] = json!(g); }
    let of: &[&str] = if g < 0 { &EVP } else { GRP[g as usize] };
    let asked = if rng.chance(2, 3) { some(rng, of) } else { vec![] };
    if !asked.is_empty() { b["properties"] = json!(asked.iter().map(|x| pref(g, x)).collect::<Vec<_>>()); }
    let compact = !asked.is_empty() && rng.chance(1, 4);
    let r = s.ask(p, &format!("{}-records/search?format={}{}", if g < 0 { "event" } else { "group" }, if compact { "jsonCompact" } else { "json" }, cur.map_or(String::new(), |c| format!("&timestamp={c}"))), b.clone());
    let (rows, ok) = shape(g, &r, &asked, compact);
    json!({"k": "search", "ds": ds, "p": p, "grp": g, "all": none, "time": ta, "evs": evs, "glob": abs(&glob), "keys": if asked.is_empty() { of.iter().map(|x| x.to_string()).collect() } else { asked }, "st": r.st, "ok": ok, "rows": rows, "body": b.to_string(), "err": err(&r)})
}
fn one(s: &Site, rng: &mut Rng, rows: &[Value], ds: usize, must: Option<(i64, bool)>) -> Value {
    let g: i64 = must.map_or_else(|| *rng.pick(&[-1, -1, 0, 1]), |m| m.0); let p = if must.is_none() && rng.chance(1, 5) { 1 } else { 0 };
    let of: Vec<&Value> = rows.iter().filter(|r| r["grp"] == g).collect();
    let id = match must.map_or_else(|| rng.below(8), |m| m.1 as u64) { 0 if must.is_some() => "123456".into(), 0 if g < 0 => format!("{}", of.len() as u64 + rng.below(3)), 0 => rng.pick(&["nobody", "ann", "acme", "ANN"]).to_string(), _ => { let r = loop { let r = of[rng.below(of.len() as u64) as usize]; if must.is_none() || r["p"] == 0 { break r; } }; r["s"][if g < 0 { "event_id" } else { "id" }].as_str().unwrap().to_string() } };
    let r = s.ing.app.send("GET", &format!("/api/v1/projects/{}/{}/{id}", s.ps[p].0, if g < 0 { "event-records".to_string() } else { format!("group-records/{g}") }), Some(&s.tok), &[], None);
    let (mut out, mut ok) = (Said::new(), true); let empty = vec![];
    for c in r.body["properties"].as_array().unwrap_or(&empty) { let k = key(g, c); let v = &c["value"]; if k.is_empty() { if !v.is_null() && !matches!(c["propertyName"].as_str(), Some("project_id" | "version")) { ok = false; } } else if out.insert(k.clone(), said(&k, v)).is_some() { ok = false; } }
    json!({"k": "one", "ds": ds, "p": p, "grp": g, "id": id, "st": r.st, "ok": ok, "out": out, "err": err(&r)})
}
fn values(s: &Site, rng: &mut Rng, d: &Data, cs: &[Custom], ds: usize) -> Value {
    let p = if rng.chance(1, 6) { 1 } else { 0 };
    let prop = *rng.pick(&["color", "color", "price", "price", "vip", "when", "plan", "age", "tier", "size", "live", "event", "event_id", "created_at", "group_0", "group_1", "ip"]);
    let mut b = pref(-1, prop); let (mut evs, mut f) = (vec![], vec![]);
    if rng.chance(1, 2) { let (e, _, alts) = event(rng, if p == 0 { cs } else { &[] }); for (k, v) in e.as_object().unwrap() { b[k] = v.clone(); } evs.push(json!({"alts": alts, "f": []})); }
    if !EVP[9..].contains(&prop) && rng.chance(1, 3) { let x = filter_on(rng, d, false, prop); b["filter"] = json!({"operation": x.0["operation"], "value": x.0["value"]}); f.push(x); }
    let r = s.ask(p, "property-values", b.clone());
    let empty = vec![]; let data = r.body["data"].as_array().unwrap_or(&empty);
    let vals: Vec<String> = data.iter().map(|v| said(prop, v)).collect();
    // how the values order: texts by their bytes, the others by size
    let set: BTreeSet<String> = vals.iter().cloned().collect();
    let num = numeric(prop) || whole(prop) || prop == "when" || prop == "created_at";
    let mut sorted: Vec<&String> = set.iter().collect(); if num { sorted.sort_by_key(|x| x.parse::<i64>().unwrap_or(i64::MAX)); }
    let rank = |x: &String| sorted.iter().position(|y| *y == x).unwrap();
    json!({"k": "values", "ds": ds, "p": p, "grp": -1, "prop": prop, "num": numeric(prop) || whole(prop), "evs": evs, "f": abs(&f), "st": r.st, "vals": vals, "ranks": vals.iter().map(rank).collect::<Vec<_>>(), "body": b.to_string(), "err": err(&r)})
}
pub fn run(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x7ec << 12);
    for f in 0..if a.thorough { 7 } else { 4 } {
        let mut o = Out::new(&a.dir, &format!("trace{f}.ndjson")); let mut line = 0;
        for i in 0..if a.thorough { 6 } else { 2 } {
            let s = Site::new(a, 2); let n = if i == 0 { 110 } else { 20 + rng.below(40) as usize };
            // companies and users say things about themselves before, between and after the events
            let ident = |rng: &mut Rng, p: usize, g: &str, id: &str, at: Option<DateTime<chrono::Utc>>, full: bool| {
                let mut m = serde_json::Map::new();
                if g == "company" { if full || rng.chance(2, 3) { m.insert("tier".into(), json!(*rng.pick(&TIERS))); } if full || rng.chance(1, 2) { m.insert("size".into(), num(*rng.pick(&PRICES))); } if full || rng.chance(1, 3) { m.insert("live".into(), json!(rng.chance(1, 2))); } }
                else { if full || rng.chance(1, 2) { m.insert("plan".into(), json!(*rng.pick(&PLANS))); } if full || rng.chance(1, 2) { m.insert("age".into(), num(*rng.pick(&PRICES))); } }
                if m.is_empty() { return; }
                let mut b = json!({"group": g, "id": id, "properties": m, "context": {}}); if let Some(t) = at { b["timestamp"] = json!(iso(t)); }
                let st = s.ing.post(&format!("/api/v1/ingest/{}/identify", s.ps[p].1.replace('/', "%2F")), b.to_string(), "3.3.3.3");
                if st >= 300 || st == 0 { eprintln!("identify not taken: {st}"); std::process::exit(2); }
            };
            for p in 0..2 { ident(&mut rng, p, "user", "bob", None, true);
                for (k, t) in TIERS.iter().enumerate() { let b = json!({"group": "company", "id": (["acme", "bolt", "core", "dust"][k]), "properties": {"tier": t, "size": 5, "live": true}, "context": {}, "timestamp": iso(day0() + Duration::days(3 + k as i64))}); let st = s.ing.post(&format!("/api/v1/ingest/{}/identify", s.ps[p].1.replace('/', "%2F")), b.to_string(), "3.3.3.3"); if st >= 300 || st == 0 { eprintln!("identify not taken: {st}"); std::process::exit(2); } } }
            let mut d = feed(&s, &mut rng, n / 2, false);
            for _ in 0..12 { let p = rng.below(5) as usize / 4; let t = day0() + Duration::days(rng.range(0, 100)); if rng.chance(1, 2) { let u = *rng.pick(&["ann", "bob", "cy", "dee", "eve"]); ident(&mut rng, p, "user", u, Some(t), false); } else { let c = *rng.pick(&["acme", "bolt", "core", "dust", "edge"]); ident(&mut rng, p, "company", c, Some(t), false); } }
            let d2 = feed(&s, &mut rng, n / 2, false); d.facts.extend(d2.facts);
            if rng.chance(1, 2) { s.ing.app.db.flush("events").unwrap(); for g in 0..2 { s.ing.app.db.flush(&group_col(g)).unwrap(); } }
            let cs = customs(&s, &mut rng, &d, 4);
            let mut rows: Vec<Value> = table(&s.ing.app.db, TABLE_EVENTS).iter().map(|r| row(&s, -1, r)).collect();
            for g in 0..2 { rows.extend(table(&s.ing.app.db, &group_col(g)).iter().map(|r| row(&s, g as i64, r))); }
            o.put(json!({"k": "data", "rows": rows})); line += 1; let ds = line;
            for q in 0..if a.thorough { 250 } else { 110 } { o.put(match q { 0..=5 => one(&s, &mut rng, &rows, ds, Some((q as i64 / 2 - 1, q % 2 == 0))), 6 => search(&s, &mut rng, &d, &cs, ds, true), _ => match rng.below(6) { 0 => one(&s, &mut rng, &rows, ds, None), 1 => values(&s, &mut rng, &d, &cs, ds), _ => search(&s, &mut rng, &d, &cs, ds, false) } }); line += 1; }
        }
    }
}
