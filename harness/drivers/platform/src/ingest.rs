//! I01, I02: events and group records sent to the real ingestion endpoints, read back from the store
use crate::app::*;
use crate::*;
use arrow2::array::*;
use arrow2::datatypes::DataType;
use axum::body::Body;
use axum::extract::ConnectInfo;
use axum::http::Request;
use axum::Router;
use common::rbac::*;
use common::types::*;
use common::{group_col, GROUPS_COUNT};
use futures::StreamExt;
use ingester::destinations::local;
use ingester::executor::Executor;
use ingester::transformers::{geo, user_agent};
use metadata::properties::{Properties, Property};
use metadata::MetadataProvider;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::SocketAddr;
use std::sync::Arc;
use storage::db::OptiDBImpl;
use tower::ServiceExt;

const GEO: &str = r#"{"1.1.1.1": {"country": {"names": {"en": "Peru", "de": "PeruD"}}, "city": {"names": {"en": "Lima"}}}, "2.2.2.2": {"country": {"names": {"en": "Chad", "fr": "Tchad"}}}, "3.3.3.3": {"country": {"names": {"fr": "Inde"}}, "city": {}}, "::7": {"city": {"names": {"en": "Oslo"}}}}"#;
fn geo_of(ip: &str) -> Vec<(&'static str, &'static str)> { match ip { "1.1.1.1" => vec![("Country", "Peru"), ("City", "Lima")], "2.2.2.2" => vec![("Country", "Chad")], "::7" => vec![("City", "Oslo")], _ => vec![] } }
type Props = Vec<(String, &'static str, String)>; // name, type, canonical value
/// user agents and what is known from them
fn uas() -> Vec<(&'static str, Vec<(&'static str, &'static str)>)> {
    vec![
        ("Chrome/46.0.2490|Mac,Apple,Air|Mac OS/10.11.6.2", vec![("Client Family", "Chrome"), ("Client Version Major", "46"), ("Client Version Minor", "0"), ("Version Patch", "2490"), ("Device Family", "Mac"), ("Device Brand", "Apple"), ("Device Model", "Air"), ("OS", "Mac OS"), ("OS Family", "Mac OS 10.11.6.2"), ("OS Version Major", "10"), ("OS Version Minor", "11"), ("OS Version Patch", "6"), ("OS Version Patch Minor", "2")]),
        ("Safari/9|Phone|iOS/9.3", vec![("Client Family", "Safari"), ("Client Version Major", "9"), ("Device Family", "Phone"), ("OS", "iOS"), ("OS Family", "iOS 9.3"), ("OS Version Major", "9"), ("OS Version Minor", "3")]),
        ("Edge/1.7", vec![("Client Family", "Edge"), ("Client Version Major", "1"), ("Client Version Minor", "7"), ("Device Family", "Other"), ("OS", "Other"), ("OS Family", "Other")]),
        ("Bot||Linux/5", vec![("Client Family", "Bot"), ("Device Family", "Other"), ("OS", "Linux"), ("OS Family", "Linux 5"), ("OS Version Major", "5")]),
        ("", vec![("Client Family", "Other"), ("Device Family", "Other"), ("OS", "Other"), ("OS Family", "Other")]),
    ]
}
pub struct Ing { pub app: App, pub router: Router }
impl Ing {
    pub fn over(app: App) -> Ing {
        let tr: Vec<Arc<dyn ingester::Transformer<ingester::Track>>> = vec![
            Arc::new(user_agent::track::UserAgent::try_new(app.md.event_properties.clone(), uaparser::UserAgentParser::from_bytes(b"").unwrap()).unwrap()),
            Arc::new(geo::track::Geo::try_new(app.md.event_properties.clone(), maxminddb::Reader::from_source(GEO.as_bytes().to_vec()).unwrap()).unwrap())];
        let t = Executor::<ingester::Track>::new(tr, vec![Arc::new(local::track::Local::new(app.db.clone(), app.md.clone()))], app.db.clone(), app.md.clone());
        let i = Executor::<ingester::Identify>::new(vec![], vec![Arc::new(local::identify::Local::new(app.db.clone(), app.md.clone()))], app.db.clone(), app.md.clone());
        let router = ingester::sources::http::attach_routes(Router::new(), t, i);
        Ing { app, router }
    }
    pub fn post(&self, path: &str, body: String, from: &str) -> u16 {
        let mut rq = Request::builder().method("POST").uri(path).body(Body::from(body)).unwrap();
        rq.extensions_mut().insert(ConnectInfo(SocketAddr::new(from.parse().unwrap(), 4000)));
        guard(|| self.app.rt.block_on(async { self.router.clone().oneshot(rq).await.unwrap().status().as_u16() })).unwrap_or(0)
    }
}
fn cell(a: &dyn Array, i: usize) -> Option<String> {
    if a.is_null(i) { return None; }
    macro_rules! p { ($t:ty) => { a.as_any().downcast_ref::<PrimitiveArray<$t>>().map_or("?type".to_string(), |x| x.value(i).to_string()) } }
    Some(match a.data_type() {
        DataType::Int8 => p!(i8), DataType::Int16 => p!(i16), DataType::Int32 => p!(i32), DataType::Int64 | DataType::Timestamp(_, _) => p!(i64), DataType::Decimal(_, _) => p!(i128),
        DataType::Boolean => a.as_any().downcast_ref::<BooleanArray>().map_or("?type".to_string(), |x| x.value(i).to_string()),
        DataType::Utf8 => a.as_any().downcast_ref::<Utf8Array<i32>>().map_or("?type".to_string(), |x| x.value(i).to_string()),
        t => format!("?{t:?}"),
    })
}
pub type Raw = BTreeMap<String, String>; // column -> raw value, nulls left out
pub fn table(db: &Arc<OptiDBImpl>, t: &str) -> Vec<Raw> {
    let f: Vec<String> = db.schema(t).unwrap().fields.iter().map(|f| f.name.clone()).collect();
    if f.is_empty() { return vec![]; }
    let mut st = db.scan(t, (0..f.len()).collect()).unwrap(); let mut out = vec![];
    while let Some(c) = futures::executor::block_on(st.next()) { let c = c.unwrap(); for i in 0..c.len() { out.push(f.iter().zip(c.arrays()).filter_map(|(n, a)| cell(a.as_ref(), i).map(|v| (n.clone(), v))).collect()); } }
    out
}
/// every stored row, with the table it is in
fn rows(db: &Arc<OptiDBImpl>) -> BTreeMap<(i64, Raw), usize> {
    let mut m = BTreeMap::new();
    for r in table(db, TABLE_EVENTS) { *m.entry((-1, r)).or_default() += 1; }
    for g in 0..GROUPS_COUNT { for r in table(db, &group_col(g)) { *m.entry((g as i64, r)).or_default() += 1; } }
    m
}
/// a decimal with 16 digits after the point, as the shortest text
pub fn dec(v: i128) -> String {
    let (n, d) = (v < 0, v.unsigned_abs()); let (i, f) = (d / 10u128.pow(16), d % 10u128.pow(16));
    let f = format!("{f:016}"); let f = f.trim_end_matches('0');
    format!("{}{i}{}{f}", if n { "-" } else { "" }, if f.is_empty() { "" } else { "." })
}
fn typ(p: &Property) -> &'static str { match (&p.data_type, p.is_dictionary) { (DType::String, _) => "s", (DType::Decimal, _) => "n", (DType::Boolean, _) => "b", (DType::Timestamp, _) => "t", _ => "?" } }
fn val(md: &MetadataProvider, p: u64, dict: &str, prop: &Property, raw: &str) -> String {
    if prop.is_dictionary { return md.dictionaries.get_value(p, dict, &prop.column_name(), raw.parse().unwrap_or(0)).unwrap_or(format!("?{raw}")); }
    match prop.data_type { DType::Decimal => raw.parse().map(dec).unwrap_or("?".into()), _ => raw.to_string() }
}
fn named(md: &MetadataProvider, p: u64, dict: &str, ps: &Properties, r: &Raw, used: &mut BTreeSet<String>) -> Vec<Value> {
    let mut v: Vec<Value> = ps.list(p).unwrap().data.iter().filter(|x| !x.is_system).filter_map(|x| r.get(&x.column_name()).map(|raw| { used.insert(x.column_name()); json!([x.name, typ(x), val(md, p, dict, x, raw)]) })).collect();
    v.sort_by_key(|x| x.to_string()); v
}
fn text(md: &MetadataProvider, p: u64, t: &str, col: &str, id: &str) -> String { id.parse().ok().and_then(|i| md.dictionaries.get_value(p, t, col, i).ok()).unwrap_or(format!("?{id}")) }
/// a row as what it says
pub fn read(md: &MetadataProvider, t: i64, r: &Raw) -> Value {
    let i = |c: &str| r.get(c).and_then(|x| x.parse::<i64>().ok()).unwrap_or(-1);
    let p = i("project_id"); let pid = p as u64; let mut used: BTreeSet<String> = ["project_id", "created_at"].iter().map(|x| x.to_string()).collect();
    let at = r.get("created_at").cloned().unwrap_or("?".into());
    if t < 0 {
        let vals = named(md, pid, TABLE_EVENTS, &md.event_properties, r, &mut used);
        let mut gvals = vec![]; for g in 0..GROUPS_COUNT { for v in named(md, pid, &group_col(g), &md.group_properties[g], r, &mut used) { gvals.push(json!([g, v[0], v[1], v[2]])); } }
        let mut gk = vec![]; for g in 0..GROUPS_COUNT { let c = group_col(g); used.insert(c.clone()); if g > 0 { if let Some(id) = r.get(&c) { gk.push(json!([g, i(&c), text(md, pid, TABLE_EVENTS, &c, id)])); } } }
        for c in ["event_id", "event", "ip"] { used.insert(c.into()); }
        let u = group_col(0); let uid = r.get(&u).cloned().unwrap_or("?".into());
        let ev = r.get("event").cloned().unwrap_or("?".into());
        let evn = match (ev.parse().ok().and_then(|e| md.events.get_by_id(pid, e).ok()).map(|e| e.name), text(md, pid, TABLE_EVENTS, COLUMN_EVENT, &ev)) { (Some(a), b) if a == b => a, (a, b) => format!("?{a:?}/{b}") };
        json!({"t": -1, "p": p, "uid": i(&u), "text": text(md, pid, TABLE_EVENTS, &u, &uid), "ev": evn, "n": i("event_id"), "at": at, "vals": vals, "gvals": gvals, "gk": gk, "ip": r.get("ip").cloned().unwrap_or("".into()), "rest": r.keys().filter(|k| !used.contains(*k)).count()})
    } else {
        let vals = named(md, pid, &group_col(t as usize), &md.group_properties[t as usize], r, &mut used);
        for c in ["id", "version"] { used.insert(c.into()); }
        json!({"t": t, "p": p, "uid": i("id"), "text": text(md, pid, &group_col(t as usize), "id", &r.get("id").cloned().unwrap_or("?".into())), "n": i("version"), "at": at, "vals": vals, "rest": r.keys().filter(|k| !used.contains(*k)).count()})
    }
}
fn cat(md: &MetadataProvider, p: u64) -> Value {
    let mut evs = vec![]; let props: HashMap<u64, Property> = md.event_properties.list(p).unwrap().data.into_iter().map(|x| (x.id, x)).collect();
    for e in md.events.list(p).unwrap().data { evs.push(json!([e.name, e.event_properties.unwrap_or_default().iter().map(|i| props.get(i).map_or("?".to_string(), |x| x.name.clone())).collect::<Vec<_>>()])); }
    let groups: Vec<Value> = md.groups.list_groups(p).unwrap().data.iter().map(|g| json!([g.id, g.name])).collect();
    let mut ps = vec![]; for x in props.values().filter(|x| !x.is_system) { ps.push(json!([-1, x.name, typ(x)])); }
    for g in 0..GROUPS_COUNT { for x in md.group_properties[g].list(p).unwrap().data.iter().filter(|x| !x.is_system) { ps.push(json!([g, x.name, typ(x)])); } }
    ps.sort_by_key(|x| x.to_string());
    json!({"k": "cat", "fail": false, "p": p, "events": evs, "groups": groups, "props": ps})
}
// ------------------------------------------------------------------ requests
struct Proj { id: u64, token: String, sure: BTreeMap<(i64, String), &'static str>, users: BTreeSet<String>, anons: BTreeSet<String>, groups: Vec<String> }
fn value(rng: &mut Rng, t: &'static str) -> (Value, String) {
    match t {
        "s" => { let v = rng.pick(&["red", "blue", "Ünï", "", "12", "true", "a b", "2020-01-01", "red "]).to_string(); (json!(v), v) }
        "b" => { let b = rng.chance(1, 2); (json!(b), b.to_string()) }
        "t" => { let (s, ms) = rng.pick(&[("2020-01-02T03:04:05Z", "1577934245000"), ("2021-07-01T00:00:00+03:00", "1625086800000"), ("1969-12-31T23:59:58.250Z", "-1750"), ("2038-02-01T00:00:00.007Z", "2148595200007")]).clone(); (json!(s), ms.into()) }
        _ => match rng.below(8) {
            0 => (json!(0), "0".into()), 1 => (json!(-7), "-7".into()), 2 => (json!(2.5), "2.5".into()), 3 => (json!(999999999999i64), "999999999999".into()), 4 => (json!(-0.125), "-0.125".into()), 5 => (json!(0.0001), "0.0001".into()), 6 => (json!(1234567.75), "1234567.75".into()),
            _ => { let n = rng.range(1, 500); (json!(n), n.to_string()) } },
    }
}
const EVS: [&str; 8] = ["Buy", "Look", "Click", "Page", "Sign Up", "Session End", "buy", "Ünlike"];
const PN: [&str; 7] = ["color", "Price", "price", "vip", "when", "Country", "Name"];
const TYPES: [&str; 4] = ["s", "n", "b", "t"];
/// properties: mostly of the type they were first used with
fn props(rng: &mut Rng, pr: &Proj, at: i64, max: u64) -> (serde_json::Map<String, Value>, Props, bool) {
    let (mut m, mut out, mut clash) = (serde_json::Map::new(), vec![], false);
    for _ in 0..rng.below(max + 1) {
        let n = rng.pick(&PN).to_string(); if m.contains_key(&n) { continue }
        let was = pr.sure.get(&(at, n.clone())).copied();
        let t = match was { Some(t) if rng.chance(19, 20) => t, Some(_) => *rng.pick(&TYPES), None => *rng.pick(&TYPES) };
        if was.is_some_and(|w| w != t) { clash = true; }
        let (v, c) = value(rng, t); m.insert(n.clone(), v); out.push((n, t, c));
    }
    (m, out, clash)
}
fn when(rng: &mut Rng) -> (Option<&'static str>, &'static str) { match rng.below(6) { 0 => (None, "now"), 1 => (Some("2021-03-04T05:06:07.089Z"), "1614834367089"), 2 => (Some("2019-12-31T23:59:59.999-01:30"), "1577842199999"), 3 => (Some("1970-01-01T00:00:00Z"), "0"), 4 => (Some("2024-02-29T12:00:00Z"), "1709208000000"), _ => (Some("2021-03-04T05:06:08Z"), "1614834368000") } }
fn pv(p: &Props) -> Vec<Value> { p.iter().map(|(n, t, v)| json!([n, t, v])).collect() }
fn history(a: &Args, rng: &mut Rng, o: &mut Out, steps: usize) {
    let db = store(&a.dir); let mut ing = Ing::over(App::new(&db));
    o.put(json!({"k": "reset"}));
    let org = { let md = &ing.app.md; let acc = md.accounts.create(metadata::accounts::CreateAccountRequest { created_by: 1, password_hash: "x".into(), email: "root@x.io".into(), name: None, force_update_password: false, force_update_email: false, role: Some(Role::Admin), organizations: None, projects: None, teams: None }).unwrap().id; (acc, md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: acc, name: "o".into() }).unwrap().id) };
    let mut ps: Vec<Proj> = vec![]; let mut seen = rows(&db); let mut fresh = 0; let uas = uas();
    for step in 0..steps {
        if ps.len() < 2 && (step < 2 || rng.chance(1, 8)) {
            let tok = ing.app.token(org.0, org.1);
            let r = ing.app.send("POST", "/api/v1/projects", Some(&tok), &[], Some(json!({"name": format!("p{}", ps.len())})));
            if r.st != 201 { panic!("no project: {} {}", r.st, r.body); }
            let (id, token) = (r.body["id"].as_u64().unwrap(), r.body["sdkToken"].as_str().unwrap().to_string());
            let c = cat(&ing.app.md, id); let mut l = c.clone(); l["k"] = json!("project"); l["token"] = json!(token); o.put(l);
            let sure = c["props"].as_array().unwrap().iter().map(|x| ((x[0].as_i64().unwrap(), x[1].as_str().unwrap().to_string()), *TYPES.iter().find(|t| **t == x[2].as_str().unwrap()).unwrap_or(&"?"))).collect();
            ps.push(Proj { id, token, sure, users: Default::default(), anons: Default::default(), groups: vec!["user".into()] });
            seen = rows(&db);
            continue;
        }
        let pi = rng.below(ps.len() as u64) as usize; let pid = ps[pi].id;
        match rng.below(24) {
            0 => { // sessions end
                let ended = std::cell::RefCell::new(vec![]); let all = rng.chance(1, 2);
                ing.app.md.sessions.check_for_deletion(pid, |s| { let e = all || s.user_id % 2 == 0; if e { ended.borrow_mut().push(s.user_id); } Ok(e) }).unwrap();
                o.put(json!({"k": "ended", "fail": false, "p": pid, "uids": ended.into_inner()})); continue }
            1 => { let tdb = ing.app.tdb.clone(); ing = Ing::over(App::again(&db, tdb)); continue }
            _ => {}
        }
        let track = rng.chance(7, 10); let (ts, at) = when(rng); let from = *rng.pick(&["1.1.1.1", "2.2.2.2", "3.3.3.3", "9.9.9.9"]);
        let own_ip = rng.chance(1, 3); let ip = if own_ip { *rng.pick(&["1.1.1.1", "2.2.2.2", "3.3.3.3", "4.4.4.4", "::7"]) } else { from };
        let mut ctx = serde_json::Map::new(); if own_ip { ctx.insert("ip".into(), json!(ip)); }
        let (mut bad, mut token) = (false, ps[pi].token.clone());
        if rng.chance(1, 30) { token = rng.pick(&["nope", "", "x/y"]).to_string(); }
        let known = ps.iter().any(|p| p.token == token);
        let mut body = serde_json::Map::new(); if let Some(t) = ts { body.insert("timestamp".into(), json!(t)); }
        let mut line = json!({"fail": false, "p": if known { pid } else { 0 }, "at": at, "ip": ip, "huge": false});
        let path; let mut refused;
        if track {
            let (mut m, mut pp, clash) = props(rng, &ps[pi], -1, 4); refused = clash;
            if rng.chance(1, 40) { m.insert("huge".into(), json!(1e15)); pp.push(("huge".into(), "n", "1000000000000000".into())); refused = true; line["huge"] = json!(true); }
            if !m.is_empty() || rng.chance(1, 2) { body.insert("properties".into(), Value::Object(m)); }
            let ev = *rng.pick(&EVS); body.insert("event".into(), json!(ev));
            let mut sys: Vec<Value> = geo_of(ip).iter().map(|(n, v)| json!([n, "s", v])).collect();
            if rng.chance(1, 4) { let (ua, k) = rng.pick(&uas).clone(); ctx.insert("userAgent".into(), json!(ua)); for (n, v) in k { sys.push(json!([n, "s", v])); } }
            let mut utm = vec![];
            if rng.chance(1, 4) { let mut c = serde_json::Map::new(); for (k, n) in [("source", "UTM Source"), ("medium", "UTM Medium"), ("campaign", "UTM Campaign"), ("term", "UTM Term"), ("content", "UTM Content")] { if k == "source" || rng.chance(1, 2) { let v = format!("{k}{}", rng.below(3)); c.insert(k.into(), json!(v)); utm.push(json!([n, "s", v])); } } ctx.insert("campaign".into(), Value::Object(c)); }
            if rng.chance(1, 6) { ctx.insert("library".into(), json!({"name": "js", "version": "1"})); ctx.insert("page".into(), json!({"path": "/x"})); }
            // who
            let mut who = rng.below(9); if refused && who >= 6 { who = 0; }
            let u = rng.pick(&["ann", "bob", "cy", "ann "]).to_string(); let an = rng.pick(&["a-1", "a-2", "a-3"]).to_string();
            let (mut uu, mut aa) = match who { 0..=2 => (u, String::new()), 3..=5 => (String::new(), an), _ => (u, an) };
            if rng.chance(1, 40) { uu.clear(); aa.clear(); refused = true; }
            let hasg = rng.chance(1, 3); let mut gs = BTreeMap::new();
            if hasg { for _ in 0..rng.below(3) { let n = if rng.chance(1, 12) { format!("g{}", rng.below(9)) } else { rng.pick(&["company", "team"]).to_string() }; gs.insert(n, rng.pick(&["k1", "k2", "ann", "k 3"]).to_string()); } }
            let over = ps[pi].groups.len() + gs.keys().filter(|n| !ps[pi].groups.contains(*n)).count() > GROUPS_COUNT; refused |= over;
            // who a refused request was about isn't seen, so it is somebody known or never seen again
            if refused { if !uu.is_empty() && !aa.is_empty() { aa.clear(); } if !uu.is_empty() && !ps[pi].users.contains(&uu) { fresh += 1; uu = format!("u{fresh}"); } if !aa.is_empty() && !ps[pi].anons.contains(&aa) { fresh += 1; aa = format!("v{fresh}"); } for k in gs.values_mut() { fresh += 1; *k = format!("w{fresh}"); } }
            if !uu.is_empty() { body.insert("userId".into(), json!(uu)); } if !aa.is_empty() { body.insert("anonymousId".into(), json!(aa)); }
            if hasg { body.insert("groups".into(), json!(gs)); }
            line["k"] = json!("track"); line["u"] = json!(uu); line["a"] = json!(aa); line["ev"] = json!(ev); line["props"] = json!(pv(&pp)); line["sys"] = json!(sys); line["utm"] = json!(utm); line["hasg"] = json!(hasg); line["groups"] = json!(gs.iter().map(|(n, k)| json!([n, k])).collect::<Vec<_>>());
            path = "track";
        } else {
            let g = if rng.chance(1, 14) { format!("g{}", rng.below(9)) } else { rng.pick(&["user", "company", "user", "team"]).to_string() };
            let gi = ps[pi].groups.iter().position(|x| *x == g);
            let (mut m, mut pp, clash) = props(rng, &ps[pi], gi.map_or(99, |x| x as i64), 4); refused = clash || (gi.is_none() && ps[pi].groups.len() >= GROUPS_COUNT);
            if rng.chance(1, 40) { m.insert("huge".into(), json!(-1e14)); pp.push(("huge".into(), "n", "-100000000000000".into())); refused = true; line["huge"] = json!(true); }
            if !m.is_empty() || rng.chance(1, 2) { body.insert("properties".into(), Value::Object(m)); }
            let mut id = rng.pick(if g == "user" { &["ann", "bob", "cy", "ann "] } else { &["k1", "k2", "ann", "k 3"] }).to_string();
            if refused { fresh += 1; id = format!("u{fresh}"); }
            body.insert("group".into(), json!(g)); body.insert("id".into(), json!(id));
            line["k"] = json!("identify"); line["u"] = json!(id); line["g"] = json!(g); line["props"] = json!(pv(&pp));
            path = "identify";
        }
        body.insert("context".into(), Value::Object(ctx));
        let mut text = Value::Object(body.clone()).to_string();
        if rng.chance(1, 25) { // something that can't be read
            bad = true;
            text = match rng.below(8) { 0 => String::new(), 1 => text[..text.len() - 1].to_string(), 2 => "[]".into(), 3 => { body.remove("context"); Value::Object(body).to_string() } 4 => { body.remove(if track { "event" } else { "id" }); Value::Object(body).to_string() } 5 => { body.insert("properties".into(), json!({"color": null})); Value::Object(body).to_string() } 6 => { body.insert("properties".into(), json!({"color": ["x"]})); Value::Object(body).to_string() } _ => { body.insert("timestamp".into(), json!("yesterday")); Value::Object(body).to_string() } };
        }
        line["bad"] = json!(bad);
        let t0 = chrono::Utc::now().timestamp_millis();
        let tk = token.replace('/', "%2F"); let st = if token.is_empty() { 404 } else { ing.post(&format!("/api/v1/ingest/{tk}/{path}"), text, from) };
        let t1 = chrono::Utc::now().timestamp_millis();
        line["st"] = json!(st);
        let now = rows(&db); let md = &ing.app.md;
        let mut new: Vec<Value> = vec![]; for ((t, r), n) in &now { for _ in seen.get(&(*t, r.clone())).copied().unwrap_or(0)..*n { let mut x = read(md, *t, r); if at == "now" && x["at"].as_str().and_then(|x| x.parse::<i64>().ok()).is_some_and(|x| (t0..=t1).contains(&x)) { x["at"] = json!("now"); } new.push(x); } }
        let gone: usize = seen.iter().map(|(k, n)| n.saturating_sub(now.get(k).copied().unwrap_or(0))).sum();
        new.sort_by_key(|x| x["n"].as_i64().unwrap());
        line["rows"] = json!(new); line["gone"] = json!(gone); line["kept"] = json!(now.values().sum::<usize>() as i64 - new.len() as i64);
        line["gids"] = json!(md.groups.list_groups(pid).unwrap().data.iter().map(|g| json!([g.id, g.name])).collect::<Vec<_>>());
        line["cnt"] = json!(if known { md.projects.get_by_id(pid).unwrap().events_count } else { 0 });
        seen = now;
        let ok = st < 300 && st > 0;
        if ok { let p = &mut ps[pi]; if track { let (u, x) = (line["u"].as_str().unwrap().to_string(), line["a"].as_str().unwrap().to_string()); if !u.is_empty() { p.users.insert(u); } if !x.is_empty() { p.anons.insert(x); } } else if line["g"] == "user" { p.users.insert(line["u"].as_str().unwrap().to_string()); } }
        o.put(line);
        if !ok || rng.chance(1, 8) {
            let c = cat(&ing.app.md, pid); o.put(c);
        }
        let c = cat(&ing.app.md, pid); let p = &mut ps[pi];
        p.sure = c["props"].as_array().unwrap().iter().map(|x| ((x[0].as_i64().unwrap(), x[1].as_str().unwrap().to_string()), *TYPES.iter().find(|t| **t == x[2].as_str().unwrap()).unwrap_or(&"?"))).collect();
        p.groups = { let mut g: Vec<(u64, String)> = c["groups"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap(), x[1].as_str().unwrap().to_string())).collect(); g.sort(); g.into_iter().map(|x| x.1).collect() };
    }
    // what is stored in the end
    let md = &ing.app.md; let mut all: Vec<Value> = vec![]; for ((t, r), n) in rows(&db) { for _ in 0..n { all.push(read(md, t, &r)); } }
    o.put(json!({"k": "all", "fail": false, "rows": all.iter().map(|r| json!([r["t"], r["p"], r["n"], r["uid"], r["text"], r["vals"]])).collect::<Vec<_>>()}));
}
pub fn run(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x101 ^ (a.prop.len() as u64) ^ (a.prop.as_bytes()[2] as u64) << 8);
    for f in 0..if a.thorough { 6 } else { 1 } {
        let mut o = Out::new(&a.dir, &format!("trace{f}.ndjson"));
        for _ in 0..if a.thorough { 25 } else { 10 } { history(a, &mut rng, &mut o, if a.thorough { 90 } else { 50 }); }
    }
}
