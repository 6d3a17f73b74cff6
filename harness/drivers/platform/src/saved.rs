//! P04 (what is saved through the API reads back as it was sent), P03 (server settings)
use crate::app::*;
use crate::*;
use common::rbac::*;
use metadata::accounts::CreateAccountRequest;

// --- canonical text of a value: leaves with their paths; nothing and empty lists have none ------------
fn num(n: &serde_json::Number) -> String { let s = n.to_string(); let s = if s.contains('e') || s.contains('E') { format!("{:.12}", n.as_f64().unwrap()) } else { s }; if s.contains('.') { s.trim_end_matches('0').trim_end_matches('.').to_string() } else { s } }
fn leaves(path: &str, v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Null => {}
        Value::Bool(b) => out.push(format!("{path}={b}")),
        Value::Number(n) => out.push(format!("{path}={}", num(n))),
        Value::String(s) => out.push(format!("{path}='{}'", if s.ends_with("+00:00") { s.replace("+00:00", "Z") } else { s.clone() })),
        Value::Array(l) => l.iter().enumerate().for_each(|(i, x)| leaves(&format!("{path}/{i}"), x, out)),
        Value::Object(m) => m.iter().for_each(|(k, x)| if !(k == "filtersCondition" && x == "and") { leaves(&format!("{path}/{k}"), x, out) }),
    }
}
pub fn text(v: &Value) -> String { let mut o = vec![]; leaves("", v, &mut o); o.sort(); o.join(" ") }
/// the same query with only the first of its groups of filters, and without the conditions between filters
fn first_group(q: &Value) -> Value {
    let mut q = q.clone();
    if let Some(f) = q.get_mut("filters").filter(|f| f.is_object()) {
        let g = f["groups"].get(0).cloned().map(|mut g| { g.as_object_mut().unwrap().remove("filtersCondition"); g });
        *f = json!({"groups": g.into_iter().collect::<Vec<_>>()});
    }
    q
}
// --- queries -----------------------------------------------------------------------------------------
const UNIT: [&str; 5] = ["hour", "day", "week", "month", "year"];
const OPS: [&str; 14] = ["eq", "neq", "gt", "gte", "lt", "lte", "true", "false", "exists", "empty", "regex", "like", "notLike", "notRegex"];
// the others are not implemented on this side of the API
const AGG: [&str; 5] = ["count", "sum", "min", "max", "avg"];
fn unit(r: &mut Rng) -> Value { json!(*r.pick(&UNIT)) }
fn time_text(r: &mut Rng) -> Value { let d = chrono::DateTime::from_timestamp_millis(1_600_000_000_000 + r.below(90_000_000_000) as i64 / if r.chance(1, 2) { 1 } else { 1000 } * if r.chance(1, 2) { 1 } else { 1000 }).unwrap(); json!(d.to_rfc3339_opts(chrono::SecondsFormat::AutoSi, true)) }
fn time(r: &mut Rng) -> Value { match r.below(3) { 0 => json!({"type": "between", "from": time_text(r), "to": time_text(r)}), 1 => json!({"type": "from", "from": time_text(r)}), _ => json!({"type": "last", "last": r.range(0, 90), "unit": unit(r)}) } }
fn name(r: &mut Rng) -> String { let v = ["Name", "Price of it", "a", "Ünïcode ✓", "x/y z", "quote\"s", "p'q", "0", ""]; r.pick(&v).to_string() }
fn prop(r: &mut Rng) -> Value { match r.below(5) { 0 | 1 => json!({"propertyType": "event", "propertyName": name(r)}), 2 | 3 => json!({"propertyType": "group", "propertyName": name(r), "group": r.below(5)}), _ => json!({"propertyType": "custom", "propertyId": r.below(1 << 40)}) } }
fn value(r: &mut Rng) -> Value { match r.below(8) { 0 => json!(true), 1 => json!(false), 2 => json!(name(r)), 3 => json!(r.range(-5, 5)), 4 => json!(r.range(-4_000_000_000, 4_000_000_000)), 5 => json!(r.range(-100000, 100000) as f64 / 100.0), 6 => json!(r.range(-100000, 100000) as f64 / 100000.0), _ => json!(r.below(1 << 50)) } }
fn maybe(r: &mut Rng, f: impl FnOnce(&mut Rng) -> Value) -> Value { if r.chance(1, 3) { Value::Null } else { f(r) } }
fn many(r: &mut Rng, lo: u64, hi: u64, f: impl Fn(&mut Rng) -> Value) -> Value { let n = lo + r.below(hi - lo + 1); Value::Array((0..n).map(|_| f(r)).collect()) }
fn merge(mut a: Value, b: Value) -> Value { for (k, v) in b.as_object().unwrap() { a[k] = v.clone(); } a }
fn filter(r: &mut Rng) -> Value { merge(merge(json!({"type": "property"}), prop(r)), json!({"operation": *r.pick(&OPS), "value": maybe(r, |r| many(r, 0, 3, value))})) }
fn filters(r: &mut Rng) -> Value { maybe(r, |r| many(r, 0, 3, filter)) }
fn event(r: &mut Rng) -> Value { if r.chance(2, 3) { json!({"eventType": "regular", "eventName": name(r)}) } else { json!({"eventType": "custom", "eventId": r.below(1 << 40)}) } }
fn breakdown(r: &mut Rng) -> Value { merge(json!({"type": "property"}), prop(r)) }
fn groups(r: &mut Rng) -> Value {
    let n = if r.chance(1, 6) { 2 } else if r.chance(1, 8) { 0 } else { 1 };
    let g: Vec<Value> = (0..n).map(|_| { let f = many(r, 1, 3, filter); if r.chance(1, 5) { json!({"filtersCondition": *r.pick(&["and", "or"]), "filters": f}) } else { json!({"filters": f}) } }).collect();
    if r.chance(1, 6) { json!({"groupsCondition": *r.pick(&["and", "or"]), "groups": g}) } else { json!({"groups": g}) }
}
fn seg_time(r: &mut Rng) -> Value { match r.below(4) { 0 => json!({"type": "between", "from": time_text(r), "to": time_text(r)}), 1 => json!({"type": "last", "last": r.range(1, 30), "unit": unit(r)}), 2 => json!({"type": "afterFirstUse", "within": r.range(1, 30), "unit": unit(r)}), _ => json!({"type": "windowEach", "n": r.range(1, 30), "unit": unit(r)}) } }
fn did(r: &mut Rng) -> Value {
    let op = *r.pick(&OPS);
    match r.below(4) {
        0 => json!({"type": "count", "operation": op, "value": r.range(0, 9), "time": seg_time(r)}),
        1 => merge(merge(json!({"type": "relativeCount"}), event(r)), json!({"operation": op, "filters": filters(r), "time": seg_time(r)})),
        2 => merge(merge(json!({"type": "aggregateProperty"}), prop(r)), json!({"aggregate": *r.pick(&["min", "max", "sum", "avg", "median", "distinctCount", "percentile25", "percentile75", "percentile90", "percentile99"]), "operation": op, "value": maybe(r, value), "time": seg_time(r)})),
        _ => json!({"type": "historicalCount", "operation": op, "value": r.below(9), "time": seg_time(r)}),
    }
}
fn seg(r: &mut Rng) -> Value {
    json!({"name": name(r), "conditions": many(r, 1, 2, |r| many(r, 1, 2, |r| match r.below(3) {
        0 => json!({"type": "hasPropertyValue", "property": prop(r), "operation": *r.pick(&OPS), "value": maybe(r, |r| many(r, 0, 2, value))}),
        1 => json!({"type": "hadPropertyValue", "property": prop(r), "operation": *r.pick(&OPS), "value": maybe(r, |r| many(r, 0, 2, value)), "time": seg_time(r)}),
        _ => merge(merge(json!({"type": "didEvent"}), event(r)), json!({"filters": filters(r), "aggregate": did(r)})),
    }))})
}
fn metric(r: &mut Rng) -> Value {
    match r.below(9) {
        0 => json!({"type": "countEvents"}), 1 => json!({"type": "countUniqueGroups"}), 2 => json!({"type": "dailyActiveGroups"}), 3 => json!({"type": "weeklyActiveGroups"}), 4 => json!({"type": "monthlyActiveGroups"}),
        5 => json!({"type": "countPerGroup", "aggregate": *r.pick(&AGG)}),
        6 => merge(merge(json!({"type": "aggregatePropertyPerGroup"}), prop(r)), json!({"aggregatePerGroup": *r.pick(&["count", "sum", "min", "max", "avg"]), "aggregate": *r.pick(&AGG)})),
        7 => merge(merge(json!({"type": "aggregateProperty"}), prop(r)), json!({"aggregate": *r.pick(&AGG)})),
        _ => json!({"type": "formula", "formula": name(r)}),
    }
}
pub fn es(r: &mut Rng) -> Value {
    let analysis = match r.below(4) { 0 => json!({"type": "linear"}), 1 => json!({"type": "rollingAverage", "window": r.below(9), "unit": unit(r)}), 2 => json!({"type": "logarithmic"}), _ => json!({"type": "cumulative"}) };
    json!({"type": "eventSegmentation", "time": time(r), "group": r.below(5), "intervalUnit": unit(r), "chartType": *r.pick(&["line", "column", "pie"]), "analysis": analysis,
        "compare": maybe(r, |r| json!({"offset": r.below(9), "unit": unit(r)})),
        "events": many(r, 0, 3, |r| merge(event(r), json!({"filters": filters(r), "breakdowns": maybe(r, |r| many(r, 0, 2, breakdown)), "queries": many(r, 1, 3, metric)}))),
        "filters": maybe(r, groups), "breakdowns": maybe(r, |r| many(r, 0, 2, breakdown)), "segments": if r.chance(1, 4) { many(r, 0, 2, seg) } else { Value::Null }})
}
pub fn funnel(r: &mut Rng) -> Value {
    let steps = 1 + r.below(4);
    let chart = match r.below(4) { 0 => json!({"type": "steps"}), 1 => json!({"type": "conversionOverTime", "intervalUnit": unit(r)}), 2 => json!({"type": "timeToConvert", "intervalUnit": unit(r), "minInterval": r.range(0, 99), "maxInterval": r.range(0, 99)}), _ => json!({"type": "frequency"}) };
    json!({"type": "funnel", "time": time(r), "group": r.below(5),
        "steps": many(r, steps, steps, |r| json!({"events": many(r, 1, 2, |r| merge(event(r), json!({"filters": filters(r)}))), "order": if r.chance(1, 2) { json!({"type": "exact"}) } else { json!({"type": "any", "steps": many(r, 1, 2, |r| json!([r.below(5), r.below(5)]))}) }})),
        "timeWindow": {"n": r.below(99), "unit": *r.pick(&["hour", "day", "week", "month", "year", "session"])}, "chartType": chart, "count": *r.pick(&["unique", "nonUnique", "session"]),
        "filter": maybe(r, |r| match r.below(3) { 0 => json!({"type": "dropOffOnAnyStep"}), 1 => json!({"type": "dropOffOnStep", "step": r.below(5)}), _ => json!({"type": "timeToConvert", "from": r.range(-9, 9), "to": r.range(0, 99)}) }),
        "touch": maybe(r, |r| match r.below(3) { 0 => json!({"type": "first"}), 1 => json!({"type": "last"}), _ => json!({"type": "step", "step": r.below(5)}) }),
        "holdingConstants": maybe(r, |r| many(r, 0, 2, prop)),
        "exclude": maybe(r, |r| many(r, 0, 2, |r| merge(event(r), json!({"filters": filters(r), "steps": maybe(r, |r| if r.chance(1, 3) { json!({"type": "all"}) } else { json!({"type": "between", "from": 1 + r.below(4), "to": 1 + r.below(4)}) })})))),
        "breakdowns": maybe(r, |r| many(r, 0, 2, breakdown)), "segments": if r.chance(1, 4) { many(r, 0, 2, seg) } else { Value::Null }, "filters": maybe(r, groups)})
}
fn query(r: &mut Rng) -> Value { if r.chance(1, 2) { es(r) } else { funnel(r) } }
// --- resources ---------------------------------------------------------------------------------------
/// kind, path, every field, those set on creation, those set on update
struct Kind { k: &'static str, path: &'static str, global: bool, fields: &'static [&'static str], create: &'static [&'static str], patch: &'static [&'static str] }
const KINDS: [Kind; 10] = [
    Kind { k: "report", path: "/projects/{p}/reports", global: false, fields: &["tags", "name", "description", "type", "query"], create: &["tags", "name", "description", "type", "query"], patch: &["tags", "name", "description", "type", "query"] },
    Kind { k: "dashboard", path: "/projects/{p}/dashboards", global: false, fields: &["tags", "name", "description", "panels"], create: &["tags", "name", "description", "panels"], patch: &["tags", "name", "description", "panels"] },
    Kind { k: "bookmark", path: "/projects/{p}/bookmarks", global: false, fields: &["query"], create: &["query"], patch: &[] },
    Kind { k: "event", path: "/projects/{p}/schema/events", global: false, fields: &["tags", "name", "displayName", "description", "status", "isSystem", "userProperties"], create: &["tags", "name", "displayName", "description", "status", "isSystem"], patch: &["tags", "displayName", "description", "status"] },
    Kind { k: "cevent", path: "/projects/{p}/schema/custom-events", global: false, fields: &["tags", "name", "description", "status", "isSystem", "events"], create: &["tags", "name", "description", "status", "isSystem", "events"], patch: &["tags", "name", "description", "status", "events"] },
    Kind { k: "eprop", path: "/projects/{p}/schema/event-properties", global: false, fields: PROPF, create: &[], patch: &["tags", "displayName", "description", "status"] },
    Kind { k: "gprop", path: "/projects/{p}/schema/group-properties/0", global: false, fields: PROPF, create: &[], patch: &["tags", "displayName", "description", "status"] },
    Kind { k: "project", path: "/projects", global: true, fields: &["tags", "name", "description", "sessionDurationSeconds", "sdkToken", "eventsCount"], create: &["tags", "name", "description", "sessionDurationSeconds"], patch: &["tags", "name", "description", "sessionDurationSeconds", "token"] },
    Kind { k: "org", path: "/organizations", global: true, fields: &["name"], create: &["name"], patch: &["name"] },
    Kind { k: "account", path: "/accounts", global: true, fields: &["email", "name", "force_update_password", "force_update_email", "role"], create: &["email", "name", "forceUpdatePassword", "forceUpdateEmail", "role", "password"], patch: &["email", "name", "forceUpdatePassword", "role", "password"] },
];
const PROPF: &[&str] = &["name", "displayName", "description", "tags", "typ", "groupId", "order", "dataType", "status", "hidden", "isSystem", "nullable", "isArray", "isDictionary", "dictionaryType", "events"];
const BOOK: [&str; 9] = ["id", "createdAt", "updatedAt", "createdBy", "updatedBy", "projectId", "created_at", "updated_at", "created_by"];
fn secs(v: &Value) -> i64 { v.as_str().and_then(|s| chrono::DateTime::parse_from_rfc3339(s).ok()).map(|d| d.timestamp()).unwrap_or(0) }
/// an object as the platform shows it
fn shown(k: &Kind, p: u64, v: &Value) -> Value {
    let g = |a: &str, b: &str| v.get(a).or(v.get(b)).cloned().unwrap_or(Value::Null);
    let id = match &v["id"] { Value::String(s) => s.clone(), Value::Number(n) => n.to_string(), _ => "".into() };
    let f: serde_json::Map<String, Value> = k.fields.iter().map(|f| (f.to_string(), json!(text(&v[*f])))).collect();
    let more: Vec<String> = v.as_object().map(|m| m.keys().filter(|x| !k.fields.contains(&x.as_str()) && !BOOK.contains(&x.as_str()) && !["eventProperties", "updated_by", "organizations", "projects", "teams"].contains(&x.as_str())).cloned().collect()).unwrap_or_default();
    json!({"id": id, "f": f, "by": g("createdBy", "created_by").as_u64().unwrap_or(0), "upd": g("updatedBy", "updated_by").as_u64().unwrap_or(0), "at": secs(&g("createdAt", "created_at")), "uat": secs(&g("updatedAt", "updated_at")), "p": v["projectId"].as_u64().unwrap_or(p), "ps": if k.k == "event" { v["eventProperties"].as_array().cloned().unwrap_or_default() } else { vec![] }, "more": more})
}
fn want(r: &mut Rng, f: &str, n: usize, evs: &[String], ces: &[String]) -> Value {
    match f {
        "name" => json!(if r.chance(1, 5) { name(r) } else if r.chance(1, 3) { format!("n{}", r.below(6)) } else { format!("n-{n}") }),
        "displayName" => maybe(r, |r| json!(if r.chance(1, 2) { format!("d{}", r.below(6)) } else { format!("d-{n}") })),
        "description" => maybe(r, |r| json!(name(r))), "tags" => maybe(r, |r| many(r, 0, 3, |r| json!(name(r)))),
        "status" => json!(*r.pick(&["enabled", "disabled"])), "isSystem" | "forceUpdatePassword" | "forceUpdateEmail" => json!(r.chance(1, 2)),
        "type" => json!(*r.pick(&["eventSegmentation", "funnel"])), "query" => query(r),
        "panels" => many(r, 0, 3, |r| json!({"type": "report", "reportId": r.below(1 << 40), "x": r.below(12), "y": r.below(1000), "w": 1 + r.below(12), "h": 1 + r.below(9)})),
        "events" => { let mut once = false; let l = (0..1 + r.below(3)).map(|_| merge(if !once && !ces.is_empty() && r.chance(1, 4) { once = true; json!({"eventType": "custom", "eventId": r.pick(ces).parse::<u64>().unwrap()}) } else { json!({"eventType": "regular", "eventName": if r.chance(1, 12) { "nobody".to_string() } else { r.pick(evs).clone() }}) }, json!({"filters": filters(r)}))).collect(); Value::Array(l) }
        "sessionDurationSeconds" => json!(r.below(100000)), "token" => json!(format!("token-{}", r.below(8))),
        "email" => json!(if r.chance(1, 3) { format!("e{}@x.io", r.below(4)) } else { format!("e-{n}@x.io") }), "role" => maybe(r, |_| json!("Admin")), "password" => json!(format!("pw{n}")),
        _ => unreachable!("{f}"),
    }
}
pub fn p04(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x904); let db = store(&a.dir);
    for t in 0..if a.thorough { 8 } else { 1 } {
        let mut o = Out::new(&a.dir, &format!("trace{t}.ndjson"));
        for _ in 0..if a.thorough { 12 } else { 5 } { history(&db, &mut rng, &mut o, if a.thorough { 500 } else { 260 }); }
    }
}
fn history(db: &std::sync::Arc<storage::db::OptiDBImpl>, rng: &mut Rng, o: &mut Out, steps: usize) {
    let app = App::new(db);
    let acc = |e: &str| app.md.accounts.create(CreateAccountRequest { created_by: 1, password_hash: "h".into(), email: e.into(), name: None, force_update_password: false, force_update_email: false, role: Some(Role::Admin), organizations: None, projects: None, teams: None }).unwrap().id;
    let who = [acc("root@x.io"), acc("sub@x.io")];
    let org = app.md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: who[0], name: "home".into() }).unwrap().id;
    let tok: Vec<String> = who.iter().map(|w| app.token(*w, org)).collect();
    let mut known: Vec<(usize, u64, String)> = vec![]; // kind, project, id
    let mut prjs: Vec<u64> = vec![];
    for n in 0..2 { let r = app.send("POST", "/api/v1/projects", Some(&tok[0]), &[], Some(json!({"name": format!("home{n}")}))); assert_eq!(r.st, 201); prjs.push(r.body["id"].as_u64().unwrap()); }
    let list = |k: &Kind, p: u64, t: &str| -> (u16, Vec<Value>) { let r = app.send("GET", &format!("/api/v1{}", k.path.replace("{p}", &p.to_string())), Some(t), &[], None); (r.st, r.body["data"].as_array().cloned().unwrap_or_default()) };
    // what is there from the start
    let mut given = vec![];
    for (i, k) in KINDS.iter().enumerate() { if k.k == "bookmark" { continue } for p in if k.global { vec![0] } else { prjs.clone() } { for v in list(k, p, &tok[0]).1 { let s = shown(k, p, &v); known.push((i, p, s["id"].as_str().unwrap().to_string())); let mut s = s; s["k"] = json!(k.k); s["p"] = json!(p); given.push(s); } } }
    let home: Vec<String> = [who[0].to_string(), who[1].to_string()].to_vec();
    o.put(json!({"k": "reset", "given": given}));
    let mut plain: std::collections::BTreeMap<(u64, String), Vec<String>> = Default::default(); // custom events made of regular events only, and these
    for n in 0..steps {
        let i = if rng.chance(1, 3) { rng.below(2) as usize } else { rng.below(KINDS.len() as u64) as usize }; let k = &KINDS[i]; let w = rng.below(2) as usize;
        let p = if k.global { 0 } else { *rng.pick(&prjs) };
        let base = format!("/api/v1{}", k.path.replace("{p}", &p.to_string()));
        let evs: Vec<String> = if k.k == "cevent" { list(&KINDS[3], p, &tok[0]).1.iter().map(|e| e["name"].as_str().unwrap().to_string()).collect() } else { vec![] };
        let of: Vec<String> = known.iter().filter(|x| x.0 == i && x.1 == p).map(|x| x.2.clone()).collect();
        let id = if of.is_empty() || rng.chance(1, 12) { if k.k == "bookmark" { "nothere".to_string() } else { "987".to_string() } } else { rng.pick(&of).clone() };
        let keep = k.global && (k.k == "account" && home.contains(&id) || k.k == "org" && id == org.to_string() || k.k == "project" && prjs.contains(&id.parse().unwrap_or(0)));
        let body = |rng: &mut Rng, fields: &[&str], all: bool, nested: bool| { let mut b = json!({}); let ces: Vec<String> = if nested { plain.keys().filter(|x| x.0 == p && x.1 != id).map(|x| x.1.clone()).collect() } else { vec![] };
            for f in fields { if all || rng.chance(1, 2) { let v = want(rng, f, n, &evs, &ces); let optional = ["tags", "description", "displayName", "role", "sessionDurationSeconds"].contains(f) || (*f == "query" && k.k == "bookmark") || (*f == "name" && k.k == "account");
                if all && optional && rng.chance(1, 5) { continue } b[*f] = v; } } b };
        let texts = |b: &Value| { let mut m = serde_json::Map::new(); for (f, v) in b.as_object().unwrap() { m.insert(f.clone(), json!(text(v))); } Value::Object(m) };
        let alt = |b: &Value| if b.get("query").is_some() { text(&first_group(&b["query"])) } else { "".into() };
        let needs = |b: &Value| { let (mut ns, mut cs) = (vec![], vec![]); if k.k == "cevent" { for e in b["events"].as_array().cloned().unwrap_or_default() { if e["eventType"] == "regular" { ns.push(text(&e["eventName"])) } else { let c = e["eventId"].to_string(); ns.extend(plain.get(&(p, c.clone())).cloned().unwrap_or_default()); cs.push(c) } } } (ns, cs) };
        let got = |r: &Reply| json!({"st": r.st, "raw": if r.st / 100 == 2 { "".to_string() } else { r.body.to_string().chars().take(300).collect::<String>() }, "o": if r.st / 100 == 2 { vec![shown(k, p, &r.body)] } else { vec![] }});
        let line = match rng.below(12) {
            0..=3 if !k.create.is_empty() => {
                let b = body(rng, k.create, true, true); let (ns, cs) = needs(&b);
                let r = app.send("POST", &base, Some(&tok[w]), &[], Some(b.clone())); let x = got(&r);
                if r.st == 201 { let id = x["o"][0]["id"].as_str().unwrap().to_string(); if k.k == "cevent" && cs.is_empty() { plain.insert((p, id.clone()), ns.clone()); } known.push((i, p, id)); }
                json!({"k": "create", "kind": k.k, "p": p, "w": who[w], "body": texts(&b), "alt": alt(&b), "ns": ns, "cs": cs, "ans": x})
            }
            4..=6 if !k.patch.is_empty() && !(keep && k.k == "account") => {
                let b = body(rng, k.patch, false, false); let (ns, cs) = needs(&b);
                let r = app.send("PUT", &format!("{base}/{id}"), Some(&tok[w]), &[], Some(b.clone()));
                if r.st == 200 && k.k == "cevent" && b.get("events").is_some() { if cs.is_empty() { plain.insert((p, id.clone()), ns.clone()); } else { plain.remove(&(p, id.clone())); } }
                json!({"k": "update", "kind": k.k, "p": p, "w": who[w], "id": id, "body": texts(&b), "alt": alt(&b), "ns": ns, "cs": cs, "ans": got(&r)})
            }
            7 if k.k != "bookmark" && !keep => { let r = app.send("DELETE", &format!("{base}/{id}"), Some(&tok[w]), &[], None); if k.k == "cevent" { plain.remove(&(p, id.clone())); } if rng.chance(2, 3) { known.retain(|x| !(x.0 == i && x.1 == p && x.2 == id)); } json!({"k": "delete", "kind": k.k, "p": p, "w": who[w], "id": id, "ans": got(&r)}) }
            8 if k.k != "bookmark" => { let (st, l) = list(k, p, &tok[w]); json!({"k": "list", "kind": k.k, "p": p, "w": who[w], "ans": {"st": st, "o": l.iter().map(|v| shown(k, p, v)).collect::<Vec<_>>()}}) }
            9 if k.k == "event" => { let prop = 1 + rng.below(4); let add = rng.chance(2, 3); let r = app.send(if add { "POST" } else { "DELETE" }, &format!("{base}/{id}/properties/{prop}"), Some(&tok[w]), &[], None); json!({"k": if add { "attach" } else { "detach" }, "kind": k.k, "p": p, "w": who[w], "id": id, "prop": prop, "ans": got(&r)}) }
            _ => { let r = app.send("GET", &format!("{base}/{id}"), Some(&tok[w]), &[], None); json!({"k": "get", "kind": k.k, "p": p, "w": who[w], "id": id, "ans": got(&r)}) }
        };
        let mut line = line; line["now"] = json!(chrono::Utc::now().timestamp()); line["fail"] = json!(false);
        o.put(line);
    }
}
// --- P03: server settings and backups ------------------------------------------------------------------
const TEXTS: [&str; 13] = ["authAccessToken", "authRefreshToken", "authAdminDefaultPassword", "backupEncryptionPassword", "backupProviderS3Bucket", "backupProviderS3Path", "backupProviderS3Region", "backupProviderS3AccessKey", "backupProviderS3SecretKey", "backupProviderGcpBucket", "backupProviderGcpPath", "backupProviderGcpKey", "backupProvider"];
const EVERY: [&str; 5] = ["hourly", "daily", "weekly", "monthly", "yearly"];
/// the settings as they are stored, under the API's names
fn stored(app: &App) -> (Value, String) {
    use metadata::settings::*;
    let c = app.md.settings.load().unwrap();
    (json!({"authAccessToken": c.auth_access_token, "authRefreshToken": c.auth_refresh_token, "authAdminDefaultPassword": c.auth_admin_default_password, "backupEnabled": c.backup_enabled,
        "backupEncryptionEnabled": c.backup_encryption_enabled, "backupEncryptionPassword": c.backup_encryption_password, "backupCompressionEnabled": c.backup_compression_enabled,
        "backupProvider": match c.backup_provider { BackupProvider::Local => "local", BackupProvider::S3 => "s3", BackupProvider::GCP => "gcp" },
        "backupProviderS3Bucket": c.backup_provider_s3_bucket, "backupProviderS3Path": c.backup_provider_s3_path, "backupProviderS3Region": c.backup_provider_s3_region, "backupProviderS3AccessKey": c.backup_provider_s3_access_key, "backupProviderS3SecretKey": c.backup_provider_s3_secret_key,
        "backupProviderGcpBucket": c.backup_provider_gcp_bucket, "backupProviderGcpPath": c.backup_provider_gcp_path, "backupProviderGcpKey": c.backup_provider_gcp_key,
        "backupScheduleInterval": match c.backup_schedule_interval { BackupScheduleInterval::Hourly => "hourly", BackupScheduleInterval::Daily => "daily", BackupScheduleInterval::Weekly => "weekly", BackupScheduleInterval::Monthly => "monthly", BackupScheduleInterval::Yearly => "yearly" },
        "backupScheduleStartHour": c.backup_schedule_start_hour}), c.backup_provider_local_path)
}
fn backup_shown(v: &Value) -> Value {
    let t = |x: &Value| x.as_str().unwrap_or("").to_string(); let p = &v["provider"];
    json!({"id": v["id"], "prov": [t(&p["type"]), t(&p["path"]), t(&p["bucket"]), t(&p["region"])], "status": [t(&v["status"]), v["inProgressProgress"].as_u64().unwrap_or(0), t(&v["failedError"])], "enc": v["isEncrypted"],
        "more": v.as_object().map(|m| m.keys().filter(|k| !["id", "provider", "status", "inProgressProgress", "failedError", "isEncrypted", "createdAt", "updatedAt"].contains(&k.as_str())).cloned().collect::<Vec<_>>()).unwrap_or_default()})
}
pub fn p03(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x903); let db = store(&a.dir);
    for t in 0..if a.thorough { 8 } else { 1 } {
        let mut o = Out::new(&a.dir, &format!("trace{t}.ndjson"));
        for _ in 0..if a.thorough { 60 } else { 40 } { server(&db, &mut rng, &mut o, if a.thorough { 300 } else { 150 }); }
    }
}
fn server(db: &std::sync::Arc<storage::db::OptiDBImpl>, rng: &mut Rng, o: &mut Out, steps: usize) {
    use metadata::backups::{Provider, Status};
    let mut app = App::new(db);
    let acc = |app: &App, e: &str, r: Option<Role>| app.md.accounts.create(CreateAccountRequest { created_by: 1, password_hash: "h".into(), email: e.into(), name: None, force_update_password: false, force_update_email: false, role: r, organizations: None, projects: None, teams: None }).unwrap().id;
    let (root, other) = (acc(&app, "root@x.io", Some(Role::Admin)), acc(&app, "sub@x.io", None));
    let org = app.md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: other, name: "home".into() }).unwrap().id;
    let mut first = settings(); first.backup_provider_local_path = if rng.chance(1, 2) { "/var/b".into() } else { "".into() }; first.backup_enabled = rng.chance(1, 2); app.md.settings.save(&first).unwrap();
    let (c, dir) = stored(&app);
    o.put(json!({"k": "reset", "c": c, "dir": dir}));
    let mut seen: Vec<u64> = vec![];
    for n in 0..steps {
        let admin = !rng.chance(1, 12); let who = if admin { "admin" } else { "other" }; let t = app.token(if admin { root } else { other }, org);
        let list = |app: &App| -> (u16, Vec<Value>) { let r = app.send("GET", "/api/v1/admin/backups", Some(&app.token(root, org)), &[], None); (r.st, r.body["data"].as_array().cloned().unwrap_or_default()) };
        let id = if seen.is_empty() || rng.chance(1, 8) { 900 + rng.below(3) } else { *rng.pick(&seen) };
        let mut line = match rng.below(16) {
            0..=6 => {
                let mut q = serde_json::Map::new(); let mut read = true;
                let k = if rng.chance(1, 2) { 1 + rng.below(2) } else { rng.below(9) };
                for _ in 0..k {
                    let (f, v) = match rng.below(9) {
                        0 => ("backupEnabled", json!(rng.chance(2, 3))), 1 => ("backupEncryptionEnabled", json!(rng.chance(1, 2))), 2 => ("backupCompressionEnabled", json!(rng.chance(1, 2))),
                        3 => ("backupProvider", json!(*rng.pick(&["local", "s3", "gcp"]))), 4 => ("backupScheduleInterval", json!(*rng.pick(&EVERY))), 5 => ("backupScheduleStartHour", json!(rng.below(24))),
                        _ => (*rng.pick(&TEXTS[..12]), json!(if rng.chance(1, 4) { "".to_string() } else if rng.chance(1, 4) { name(rng) } else { format!("v{n}-{}", rng.below(3)) }))
                    };
                    q.insert(f.into(), v);
                }
                let mut sent = q.clone();
                if rng.chance(1, 6) { sent.insert(rng.pick(&TEXTS).to_string(), Value::Null); for (f, v) in &sent { if v.is_null() { q.remove(f); } } }
                if rng.chance(1, 12) { read = false; let (f, v) = match rng.below(6) { 0 => ("backupProvider", json!("ftp")), 1 => ("backupProvider", json!("S3")), 2 => ("backupScheduleInterval", json!("never")), 3 => ("backupScheduleStartHour", json!(-1)), 4 => ("backupEnabled", json!("yes")), _ => ("backupProviderS3Bucket", json!(7)) }; sent.insert(f.into(), v); }
                let r = app.send("PUT", "/api/v1/admin/settings", Some(&t), &[], Some(Value::Object(sent.clone())));
                json!({"k": "put", "as": who, "read": read, "q": q, "st": r.st, "o": if r.st == 200 { r.body } else { json!({}) }})
            }
            7 | 8 => { let r = app.send("GET", "/api/v1/admin/settings", Some(&t), &[], None); json!({"k": "get", "as": who, "st": r.st, "o": if r.st == 200 { r.body } else { json!({}) }}) }
            9 => { let (c, dir) = stored(&app); json!({"k": "stored", "c": c, "dir": dir}) }
            10 | 11 => {
                let r = app.send("POST", "/api/v1/admin/backups/backup", Some(&t), &[], None); let mut l = json!({"k": "backup", "as": who, "st": r.st, "id": 0});
                if r.st / 100 == 2 { let fresh: Vec<Value> = list(&app).1.iter().map(backup_shown).filter(|b| !seen.contains(&b["id"].as_u64().unwrap_or(0))).collect(); if let Some(b) = fresh.last() { let i = b["id"].as_u64().unwrap(); seen.push(i); l["id"] = json!(i); l["o"] = one(b); } }
                l
            }
            12 => { let r = app.send("GET", &format!("/api/v1/admin/backups/{id}"), Some(&t), &[], None); let mut l = json!({"k": "bget", "as": who, "id": id, "st": r.st}); if r.st == 200 { l["o"] = one(&backup_shown(&r.body)); } l }
            13 if rng.chance(1, 2) => { let r = app.send("GET", "/api/v1/admin/backups", Some(&t), &[], None); json!({"k": "blist", "as": who, "st": r.st, "list": r.body["data"].as_array().map(|l| l.iter().map(|b| one(&backup_shown(b))).collect::<Vec<_>>()).unwrap_or_default()}) }
            13 => { let l = app.md.backups.list().unwrap().data; json!({"k": "job", "list": l.iter().map(|b| json!({"id": b.id, "pw": b.password.clone().unwrap_or_default(), "enc": b.is_encrypted, "prov": match &b.provider { Provider::Local(p) => json!(["local", p.to_str().unwrap(), "", ""]), Provider::S3(s) => json!(["s3", s.path, s.bucket, s.region]), Provider::GCP(g) => json!(["gcp", g.path, g.bucket, ""]) }})).collect::<Vec<_>>()}) }
            14 => { let idle: Vec<u64> = app.md.backups.list().unwrap().data.iter().filter(|b| rng.chance(1, 4) || b.status == Status::Idle).map(|b| b.id).collect(); if idle.is_empty() { continue } let id = *rng.pick(&idle);
                let (st, x) = match rng.below(5) { 0 => { let p = rng.below(101); (json!(["inProgress", p, ""]), Status::InProgress(p as usize)) } 1 => (json!(["uploading", 0, ""]), Status::Uploading), 2 => { let e = *rng.pick(&["boom", ""]); (json!(["failed", 0, e]), Status::Failed(e.into())) } _ => (json!(["completed", 0, ""]), Status::Completed) };
                app.md.backups.update_status(id, x).unwrap(); json!({"k": "report", "id": id, "status": st}) }
            _ => match rng.below(3) { 0 => { app = App::again(db, app.tdb.clone()); continue } 1 if app.md.backups.delete(id).is_ok() => json!({"k": "drop", "id": id}), _ => continue }
        };
        line["fail"] = json!(false);
        o.put(line);
    }
}
/// what a backup shows, if it shows nothing else
fn one(b: &Value) -> Value { let mut b = b.clone(); if b["more"].as_array().map_or(true, |m| m.is_empty()) { b.as_object_mut().unwrap().remove("more"); } b }
