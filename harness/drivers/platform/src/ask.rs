//! Questions about ingested events, asked through the platform's HTTP API.
use crate::*;
use crate::app::*;
use crate::ingest::Ing;
use std::sync::Arc;

pub struct Site { pub ing: Ing, pub tok: String, pub org: u64, pub ps: Vec<(u64, String)> }
impl Site {
    pub fn new(a: &Args, n: usize) -> Site {
        let db = store(&a.dir); let ing = Ing::over(App::new(&db));
        let md = &ing.app.md;
        let acc = md.accounts.create(metadata::accounts::CreateAccountRequest { created_by: 1, password_hash: "x".into(), email: "root@x.io".into(), name: None, force_update_password: false, force_update_email: false, role: Some(common::rbac::Role::Admin), organizations: None, projects: None, teams: None }).unwrap().id;
        let org = md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: acc, name: "o".into() }).unwrap().id;
        let tok = ing.app.token(acc, org);
        let ps = (0..n).map(|i| { let r = ing.app.send("POST", "/api/v1/projects", Some(&tok), &[], Some(json!({"name": format!("p{i}")}))); (r.body["id"].as_u64().unwrap(), r.body["sdkToken"].as_str().unwrap().to_string()) }).collect();
        Site { ing, tok, org, ps }
    }
    pub fn track(&self, p: usize, user: &str, ev: &str, at: &str, props: Value, groups: Value) -> u16 {
        self.ing.post(&format!("/api/v1/ingest/{}/track", self.ps[p].1.replace('/', "%2F")), json!({"event": ev, "userId": user, "timestamp": at, "properties": props, "groups": groups, "context": {}}).to_string(), "3.3.3.3")
    }
    pub fn ask(&self, p: usize, what: &str, body: Value) -> Reply { self.ing.app.send("POST", &format!("/api/v1/projects/{}/{}", self.ps[p].0, what), Some(&self.tok), &[], Some(body)) }
}
pub fn explore(a: &Args) {
    let s = Site::new(a, 2);
    for (u, e, t, pr) in [("ann", "Buy", "01T10", json!({"price": 5, "color": "red"})), ("ann", "Buy", "02T10", json!({"price": 7.5, "color": "blue"})), ("bob", "Buy", "02T11", json!({"price": 1, "color": "red"})), ("bob", "Look", "03T11", json!({"color": "red", "good": true})), ("cy", "Look", "03T12", json!({}))] {
        println!("{}", s.track(0, u, e, &format!("2021-03-{t}:00:00Z"), pr, json!({})));
    }
    s.ing.app.db.flush("events").unwrap();
    println!("{}", s.track(0, "cy", "Buy", "2021-03-03T12:30:00Z", json!({"price": 3, "color": "red"}), json!({})));
    println!("{}", s.track(1, "zed", "Buy", "2021-03-02T12:00:00Z", json!({"price": 100, "color": "green"}), json!({})));
    println!("{}", s.track(1, "zed", "Look", "2021-03-02T13:00:00Z", json!({"price": 100, "color": "green"}), json!({})));
    for (g, id, pr) in [("user", "ann", json!({"age": 5, "city": "Rome"})), ("company", "acme", json!({"size": 5, "city": "Rome"})), ("company", "umbrella", json!({"size": 7}))] {
        println!("{}", s.ing.post(&format!("/api/v1/ingest/{}/identify", s.ps[0].1), json!({"group": g, "id": id, "context": {}, "properties": pr}).to_string(), "3.3.3.3"));
    }
    let time = json!({"type": "between", "from": "2021-03-01T00:00:00Z", "to": "2021-03-04T00:00:00Z"});
    let show = |n: &str, what: &str, b: Value| { let r = s.ask(0, what, b); println!("== {n}\n{} {}", r.st, r.body); };
    let get = |what: &str| { let r = s.ing.app.send("GET", &format!("/api/v1/projects/{}/{what}", s.ps[0].0), Some(&s.tok), &[], None); println!("== {what}\n{} {}", r.st, r.body); };
    show("all", "event-records/search", json!({"time": time}));
    show("all events no filters", "event-records/search", json!({"time": time, "events": [{"eventType": "regular", "eventName": "Look"}], "properties": [{"propertyType": "event", "propertyName": "color"}]}));
    show("all events filters []", "event-records/search", json!({"time": time, "events": [{"eventType": "regular", "eventName": "Look", "filters": []}], "properties": [{"propertyType": "event", "propertyName": "color"}, {"propertyType": "event", "propertyName": "good"}]}));
    show("price", "event-records/search", json!({"time": time, "properties": [{"propertyType": "event", "propertyName": "price"}]}));
    for i in [1, 2, 3, 4, 99] { get(&format!("event-records/{i}")); }
    for g in 0..2 { show("grp all", "group-records/search", json!({"group": g})); }
    show("grp filter", "group-records/search", json!({"group": 0, "properties": [{"propertyType": "group", "group": 0, "propertyName": "age"}]}));
    show("grp filter", "group-records/search", json!({"group": 0, "time": time, "filters": {"groups": [{"filters": [{"type": "property", "propertyType": "group", "group": 0, "propertyName": "city", "operation": "eq", "value": ["Rome"]}]}]}}));
    get("group-records/0/ann"); get("group-records/1/acme"); get("group-records/1/nobody"); get("group-records/0/bob");
    for p in ["color", "price", "good"] { show(p, "property-values", json!({"propertyType": "event", "propertyName": p})); show(p, "property-values", json!({"propertyType": "event", "propertyName": p, "eventType": "regular", "eventName": "Buy"}));}
    get("schema/event-properties"); get("schema/group-properties/0"); get("schema/group-properties/1");
}
