//! C01 (what each role grants), P01 (every operation is gated)
use crate::app::*;
use crate::*;
use common::rbac::*;
use platform::{Context, PlatformError};

pub const ORG: [(&str, Option<OrganizationRole>); 4] = [("none", None), ("owner", Some(OrganizationRole::Owner)), ("admin", Some(OrganizationRole::Admin)), ("member", Some(OrganizationRole::Member))];
pub const PRJ: [(&str, Option<ProjectRole>); 5] = [("none", None), ("owner", Some(ProjectRole::Owner)), ("admin", Some(ProjectRole::Admin)), ("member", Some(ProjectRole::Member)), ("reader", Some(ProjectRole::Reader))];
use OrganizationPermission as OP; use Permission as SP; use ProjectPermission as PP;
const SRV: [SP; 7] = [SP::All, SP::ManageAccounts, SP::ViewAccounts, SP::ManageOrganizations, SP::ViewOrganizations, SP::ManageProjects, SP::ManageServer];
const ORGP: [OP; 6] = [OP::All, OP::ViewOrganization, OP::ManageOrganization, OP::ManageProjects, OP::ExploreProjects, OP::DeleteOrganization];
const PRJP: [PP; 11] = [PP::All, PP::ManageProject, PP::DeleteProject, PP::ViewProject, PP::ManageSchema, PP::DeleteSchema, PP::ViewSchema, PP::InviteMembers, PP::ManageMembers, PP::ExploreReports, PP::ManageReports];
fn list<R: Clone>(ids: &[u64], roles: &[Option<R>], r: &mut Rng) -> Option<Vec<(u64, R)>> {
    let mut v: Vec<(u64, R)> = ids.iter().zip(roles).filter_map(|(i, x)| x.clone().map(|x| (*i, x))).collect();
    r.shuffle(&mut v);
    if v.is_empty() && r.chance(1, 2) { None } else { Some(v) }
}
pub fn c01(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0xC01);
    // ids of organizations and projects overlap, so that one is never taken for the other
    let worlds: &[[u64; 2]] = if a.thorough { &[[1, 2], [7, 3], [2, 1], [0, 1]] } else { &[[1, 2]] };
    for (w, ids) in worlds.iter().enumerate() {
        let mut o = Out::new(&a.dir, &format!("trace{w}.ndjson"));
        for srv in [false, true] { for o1 in &ORG { for o2 in &ORG { for p1 in &PRJ { for p2 in &PRJ { for team in [false, true] {
            if team && rng.chance(2, 3) { continue }
            let ctx = Context { account_id: 5, organization_id: ids[0], role: srv.then_some(Role::Admin), organizations: list(ids, &[o1.1.clone(), o2.1.clone()], &mut rng), projects: list(ids, &[p1.1.clone(), p2.1.clone()], &mut rng), teams: team.then(|| vec![(ids[0], Role::Admin)]), ..Default::default() };
            let mut other = 0u64;
            let mut ok = |r: Result<platform::Result<()>, String>| match r { Ok(Ok(())) => true, Ok(Err(PlatformError::Forbidden(_))) => false, _ => { other += 1; false } };
            let g: Vec<_> = SRV.iter().filter(|p| ok(guard(|| ctx.check_permission((*p).clone())))).map(|p| format!("{p:?}")).collect();
            let mut go = vec![]; let mut gp = vec![];
            for i in 0..3 { let org = if i < 2 { ids[i] } else { 99 };
                for p in &ORGP { if ok(guard(|| ctx.check_organization_permission(org, p.clone()))) { go.push(json!([i + 1, format!("{p:?}")])) } }
                for j in 0..3 { let prj = if j < 2 { ids[j] } else { 99 }; for p in &PRJP { if ok(guard(|| ctx.check_project_permission(org, prj, p.clone()))) { gp.push(json!([i + 1, j + 1, format!("{p:?}")])) } } } }
            o.put(json!({"k": "roles", "srv": srv, "orgs": [o1.0, o2.0, "none"], "prjs": [p1.0, p2.0, "none"], "g": g, "go": go, "gp": gp, "other": other}));
        }}}}}}
    }
}

// --------------------------------------------------------------------------------------------------
struct Op { name: &'static str, m: &'static str, path: &'static str, body: fn(u64, u64) -> Option<Value> }
const NB: fn(u64, u64) -> Option<Value> = |_, _| None;
fn nm(p: u64, n: u64) -> String { format!("x-p{p}-{n}") }
fn es() -> Value { json!({"type": "eventSegmentation", "time": {"type": "last", "last": 1, "unit": "day"}, "group": 0, "intervalUnit": "day", "chartType": "line", "analysis": {"type": "linear"}, "events": []}) }
/// {p} project, {o} organization, {a} account, {x} an object of the project made for this call
const OPS: &[Op] = &[
    Op { name: "prj_create", m: "POST", path: "/projects", body: |p, n| Some(json!({"name": nm(p, n)})) },
    Op { name: "prj_list", m: "GET", path: "/projects", body: NB },
    Op { name: "prj_get", m: "GET", path: "/projects/{p}", body: NB },
    Op { name: "prj_update", m: "PUT", path: "/projects/{p}", body: |_, n| Some(json!({"description": format!("d{n}")})) },
    Op { name: "prj_delete", m: "DELETE", path: "/projects/{p}", body: NB },
    Op { name: "ev_create", m: "POST", path: "/projects/{p}/schema/events", body: |p, n| Some(json!({"name": nm(p, n), "status": "enabled", "isSystem": false})) },
    Op { name: "ev_list", m: "GET", path: "/projects/{p}/schema/events", body: NB },
    Op { name: "ev_get", m: "GET", path: "/projects/{p}/schema/events/{x}", body: NB },
    Op { name: "ev_name", m: "GET", path: "/projects/{p}/schema/events/name/{n}", body: NB },
    Op { name: "ev_update", m: "PUT", path: "/projects/{p}/schema/events/{x}", body: |_, n| Some(json!({"description": format!("d{n}")})) },
    Op { name: "ev_delete", m: "DELETE", path: "/projects/{p}/schema/events/{x}", body: NB },
    Op { name: "ev_attach", m: "POST", path: "/projects/{p}/schema/events/{x}/properties/1", body: NB },
    Op { name: "ev_detach", m: "DELETE", path: "/projects/{p}/schema/events/{x}/properties/1", body: NB },
    Op { name: "ce_create", m: "POST", path: "/projects/{p}/schema/custom-events", body: |p, n| Some(json!({"name": nm(p, n), "status": "enabled", "isSystem": false, "events": [{"eventType": "regular", "eventName": "Click"}]})) },
    Op { name: "ce_list", m: "GET", path: "/projects/{p}/schema/custom-events", body: NB },
    Op { name: "ce_get", m: "GET", path: "/projects/{p}/schema/custom-events/{x}", body: NB },
    Op { name: "ce_update", m: "PUT", path: "/projects/{p}/schema/custom-events/{x}", body: |_, n| Some(json!({"description": format!("d{n}")})) },
    Op { name: "ce_delete", m: "DELETE", path: "/projects/{p}/schema/custom-events/{x}", body: NB },
    Op { name: "ep_list", m: "GET", path: "/projects/{p}/schema/event-properties", body: NB },
    Op { name: "ep_get", m: "GET", path: "/projects/{p}/schema/event-properties/{x}", body: NB },
    Op { name: "ep_name", m: "GET", path: "/projects/{p}/schema/event-properties/name/{n}", body: NB },
    Op { name: "ep_update", m: "PUT", path: "/projects/{p}/schema/event-properties/{x}", body: |_, n| Some(json!({"description": format!("d{n}")})) },
    Op { name: "ep_delete", m: "DELETE", path: "/projects/{p}/schema/event-properties/{x}", body: NB },
    Op { name: "gp_list", m: "GET", path: "/projects/{p}/schema/group-properties/1", body: NB },
    Op { name: "gp_get", m: "GET", path: "/projects/{p}/schema/group-properties/1/{x}", body: NB },
    Op { name: "gp_name", m: "GET", path: "/projects/{p}/schema/group-properties/1/name/{n}", body: NB },
    Op { name: "gp_update", m: "PUT", path: "/projects/{p}/schema/group-properties/1/{x}", body: |_, n| Some(json!({"description": format!("d{n}")})) },
    Op { name: "gp_delete", m: "DELETE", path: "/projects/{p}/schema/group-properties/1/{x}", body: NB },
    Op { name: "gr_create", m: "POST", path: "/projects/{p}/groups", body: |p, n| Some(json!({"name": format!("x-p{p}-g"), "displayName": format!("g{n}")})) },
    Op { name: "gr_list", m: "GET", path: "/projects/{p}/groups", body: NB },
    Op { name: "values", m: "POST", path: "/projects/{p}/property-values", body: |_, _| Some(json!({"propertyType": "event", "propertyName": "Name"})) },
    Op { name: "rp_create", m: "POST", path: "/projects/{p}/reports", body: |p, n| Some(json!({"name": nm(p, n), "type": "eventSegmentation", "query": es()})) },
    Op { name: "rp_list", m: "GET", path: "/projects/{p}/reports", body: NB },
    Op { name: "rp_get", m: "GET", path: "/projects/{p}/reports/{x}", body: NB },
    Op { name: "rp_update", m: "PUT", path: "/projects/{p}/reports/{x}", body: |_, n| Some(json!({"description": format!("d{n}")})) },
    Op { name: "rp_delete", m: "DELETE", path: "/projects/{p}/reports/{x}", body: NB },
    Op { name: "ds_create", m: "POST", path: "/projects/{p}/dashboards", body: |p, n| Some(json!({"name": nm(p, n), "panels": []})) },
    Op { name: "ds_list", m: "GET", path: "/projects/{p}/dashboards", body: NB },
    Op { name: "ds_get", m: "GET", path: "/projects/{p}/dashboards/{x}", body: NB },
    Op { name: "ds_update", m: "PUT", path: "/projects/{p}/dashboards/{x}", body: |_, n| Some(json!({"description": format!("d{n}")})) },
    Op { name: "ds_delete", m: "DELETE", path: "/projects/{p}/dashboards/{x}", body: NB },
    Op { name: "bm_create", m: "POST", path: "/projects/{p}/bookmarks", body: |_, _| Some(json!({"query": es()})) },
    Op { name: "bm_get", m: "GET", path: "/projects/{p}/bookmarks/{x}", body: NB },
    Op { name: "er_get", m: "GET", path: "/projects/{p}/event-records/{x}", body: NB },
    Op { name: "er_search", m: "POST", path: "/projects/{p}/event-records/search", body: |_, _| Some(json!({"time": {"type": "last", "last": 1, "unit": "day"}})) },
    Op { name: "grr_get", m: "GET", path: "/projects/{p}/group-records/0/1", body: NB },
    Op { name: "grr_search", m: "POST", path: "/projects/{p}/group-records/search", body: |_, _| Some(json!({"group": 0})) },
    Op { name: "es", m: "POST", path: "/projects/{p}/queries/event-segmentation?format=json", body: |_, _| Some(es()) },
    Op { name: "funnel", m: "POST", path: "/projects/{p}/queries/funnel?format=json", body: |_, _| Some(json!({"time": {"type": "last", "last": 1, "unit": "day"}, "group": 0, "steps": [], "timeWindow": {"n": 1, "unit": "day"}, "chartType": {"type": "steps"}, "count": "unique"})) },
    Op { name: "org_create", m: "POST", path: "/organizations", body: |_, n| Some(json!({"name": format!("org{n}")})) },
    Op { name: "org_list", m: "GET", path: "/organizations", body: NB },
    Op { name: "org_get", m: "GET", path: "/organizations/{o}", body: NB },
    Op { name: "org_update", m: "PUT", path: "/organizations/{o}", body: |_, n| Some(json!({"name": format!("o{n}")})) },
    Op { name: "org_delete", m: "DELETE", path: "/organizations/{o}", body: NB },
    Op { name: "org_switch", m: "POST", path: "/auth/switch-organization/{o}", body: NB },
    Op { name: "acc_create", m: "POST", path: "/accounts", body: |_, n| Some(json!({"password": "p", "email": format!("n{n}@x.io"), "forceUpdatePassword": false, "forceUpdateEmail": false})) },
    Op { name: "acc_list", m: "GET", path: "/accounts", body: NB },
    Op { name: "acc_get", m: "GET", path: "/accounts/{a}", body: NB },
    Op { name: "acc_update", m: "PUT", path: "/accounts/{a}", body: |_, n| Some(json!({"salt": "", "password": "q", "email": format!("u{n}@x.io"), "name": "n", "forceUpdatePassword": true, "role": "Admin", "organizations": [], "projects": [], "teams": []})) },
    Op { name: "acc_delete", m: "DELETE", path: "/accounts/{a}", body: NB },
    Op { name: "bk_list", m: "GET", path: "/admin/backups", body: NB },
    Op { name: "bk_create", m: "POST", path: "/admin/backups/backup", body: NB },
    Op { name: "bk_get", m: "GET", path: "/admin/backups/1", body: NB },
    Op { name: "st_get", m: "GET", path: "/admin/settings", body: NB },
    Op { name: "st_put", m: "PUT", path: "/admin/settings", body: |_, n| Some(json!({"backupProviderS3Path": format!("p{n}")})) },
];
/// names of this driver's objects anywhere in a reply
fn names(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => { if let Some(Value::String(s)) = m.get("name") { if s.starts_with("x-p") { out.push(s.split('-').nth(1).unwrap().to_string()) } } m.values().for_each(|x| names(x, out)) }
        Value::Array(l) => l.iter().for_each(|x| names(x, out)), _ => {}
    }
}
#[derive(Clone)]
struct Who { srv: bool, o: [usize; 2], p: [usize; 2], torg: u64, team: bool }
fn flag() -> metadata::properties::CreatePropertyRequest { metadata::properties::CreatePropertyRequest { created_by: 1, tags: None, name: String::new(), description: None, display_name: None, typ: metadata::properties::Type::Event, data_type: common::types::DType::Boolean, status: metadata::properties::Status::Enabled, hidden: false, is_system: false, nullable: true, is_array: false, is_dictionary: false, dictionary_type: None } }
/// Two organizations; projects 1 and 2 in the first, 3 in the second.
struct World { app: App, root: u64, cnt: u64, accs: Vec<u64>, pool: std::collections::HashMap<(String, u64), (String, String)> }
impl World {
    fn new(db: &std::sync::Arc<storage::db::OptiDBImpl>, who: &[Who], rng: &mut Rng) -> World {
        let mut w = World { app: App::new(db), root: 0, cnt: 100, accs: vec![], pool: Default::default() };
        w.root = w.account("root@x.io".into(), Some(Role::Admin), None, None, None);
        for i in 0..2 { w.app.md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: w.root, name: format!("o{i}") }).unwrap(); }
        for i in 1..=3u64 { let r = w.send("POST", "/projects", if i == 3 { 2 } else { 1 }, Some(json!({"name": nm(i, 0)}))); assert!(r.st / 100 == 2, "{}", r.body); }
        for i in 1..=3u64 { w.prop("gp", i); }
        for c in who { let id = w.account(format!("a{}@x.io", w.accs.len()), c.srv.then_some(Role::Admin), list(&[1, 2], &[ORG[c.o[0]].1.clone(), ORG[c.o[1]].1.clone()], rng), list(&[1, 3], &[PRJ[c.p[0]].1.clone(), PRJ[c.p[1]].1.clone()], rng), c.team.then(|| vec![(1, Role::Admin)])); w.accs.push(id); }
        w
    }
    fn account(&self, email: String, role: Option<Role>, organizations: Option<Vec<(u64, OrganizationRole)>>, projects: Option<Vec<(u64, ProjectRole)>>, teams: Option<Vec<(u64, Role)>>) -> u64 { self.app.md.accounts.create(metadata::accounts::CreateAccountRequest { created_by: 1, password_hash: "h".into(), email, name: None, force_update_password: false, force_update_email: false, role, organizations, projects, teams }).unwrap().id }
    fn send(&self, m: &str, path: &str, org: u64, body: Option<Value>) -> Reply { self.app.send(m, &format!("/api/v1{path}"), Some(&self.app.token(self.root, org)), &[], body) }
    fn prop(&mut self, family: &str, p: u64) -> (String, String) {
        self.cnt += 1;
        let (typ, props) = if family == "ep" { (metadata::properties::Type::Event, &self.app.md.event_properties) } else { (metadata::properties::Type::Group(1), &self.app.md.group_properties[1]) };
        let b = props.create(p, metadata::properties::CreatePropertyRequest { name: nm(p, self.cnt), typ, ..flag() }).unwrap();
        (b.id.to_string(), b.name)
    }
    /// an object of project p (its id and name); the same one until a call may have removed it
    fn object(&mut self, family: &str, p: u64) -> Option<(String, String)> {
        if let Some(x) = self.pool.get(&(family.to_string(), p)) { return Some(x.clone()) }
        let x = match family {
            "ev" | "ce" | "rp" | "ds" => { self.cnt += 1; let c = OPS.iter().find(|o| o.name == format!("{family}_create")).unwrap();
                let r = self.send("POST", &c.path.replace("{p}", &p.to_string()), if p == 3 { 2 } else { 1 }, (c.body)(p, self.cnt)); (r.body.get("id")?.to_string(), nm(p, self.cnt)) }
            "bm" => return Some((String::new(), String::new())),
            "ep" | "gp" => self.prop(family, p),
            _ => return None,
        };
        self.pool.insert((family.to_string(), p), x.clone()); Some(x)
    }
}
pub fn p01(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x901); let db = store(&a.dir);
    // callers: the corners, and some in between
    let w = |srv, o0, o1, p0, p1, torg| Who { srv, o: [o0, o1], p: [p0, p1], torg, team: false };
    let mut who = vec![w(true, 0, 0, 0, 0, 0), w(true, 0, 0, 0, 0, 1), w(false, 0, 0, 0, 0, 1), w(false, 0, 0, 0, 0, 0)];
    for r in 1..4 { who.push(w(false, r, 0, 0, 0, 1)); who.push(w(false, 0, r, 0, 0, 1)); who.push(w(false, r, 0, 0, 0, 2)) }
    for r in 1..5 { who.push(w(false, 3, 0, r, 0, 1)); who.push(w(false, 0, 0, r, 0, 1)); who.push(w(false, 0, 0, 0, r, 1)); who.push(w(false, 3, 3, 0, r, 1)) }
    for _ in 0..if a.thorough { 60 } else { 6 } { who.push(w(false, rng.below(4) as usize, rng.below(4) as usize, rng.below(5) as usize, rng.below(5) as usize, 1 + rng.below(2))) }
    for x in who.iter_mut() { x.team = rng.chance(1, 4) }
    for round in 0..if a.thorough { 6 } else { 1 } {
        let mut o = Out::new(&a.dir, &format!("trace{round}.ndjson"));
        let mut todo = vec![];
        for ai in 0..who.len() { for oi in 0..OPS.len() {
            let targets: &[u64] = if OPS[oi].path.contains("{p}") { &[1, 2, 3, 9] } else if OPS[oi].path.contains("{o}") { &[1, 2, 9] } else { &[0] };
            for t in targets { todo.push((ai, oi, *t)) }
        } }
        rng.shuffle(&mut todo);
        // each operation meets each kind of caller; of the targets, the thorough tier takes all
        if !a.thorough { todo.retain(|(_, oi, t)| *t == 0 || OPS[*oi].path.contains("{o}") || rng.chance(if OPS[*oi].name.contains("search") { 1 } else { 2 }, 4)) }
        for part in todo.chunks(500) {
            let mut wd = World::new(&db, &who, &mut rng);
            for (ai, oi, t) in part { call(&mut wd, &mut o, &who[*ai], *ai, &OPS[*oi], *t, &mut rng); }
        }
        // without a token, or with one that is none
        let wd = World::new(&db, &[], &mut rng);
        for op in OPS { let before = wd.app.digest(); let path = format!("/api/v1{}", op.path.replace("{p}", "1").replace("{o}", "1").replace("{a}", "1").replace("{x}", "1").replace("{n}", "Click"));
            for tok in [None, Some("nonsense".to_string()), Some(platform::auth::token::make_refresh_token(wd.root, chrono::Duration::days(1), "rk0").unwrap())] { let r = wd.app.send(op.m, &path, tok.as_deref(), &[], (op.body)(1, 1)); o.put(json!({"k": "anon", "op": op.name, "st": r.st, "changed": wd.app.digest() != before, "err": r.body.get("error").is_some()})); } }
    }
}
fn call(wd: &mut World, o: &mut Out, w: &Who, ai: usize, op: &Op, t: u64, rng: &mut Rng) {
    wd.cnt += 1;
    let missing = t == 9;
    let (mut p, mut org, mut x, mut name) = (if missing { 999 } else { t }, if missing { 999 } else { t }, "7".to_string(), "none".to_string());
    let mut ex = !missing; let mut caller = wd.accs[ai];
    let family = &op.name[..2];
    if op.path.contains("{x}") || op.path.contains("{n}") { match if missing { None } else { wd.object(family, p) } { Some((i, n)) => { x = i; name = n } None => ex = false } }
    match op.name {
        // a project made to be deleted stands for project t: callers with a role there get it here too
        "prj_delete" if ex => { let r = wd.send("POST", "/projects", if t == 3 { 2 } else { 1 }, Some(json!({"name": nm(t, wd.cnt)}))); p = r.body["id"].as_u64().unwrap();
            let prjs = [(1u64, w.p[0]), (3, w.p[1])].iter().filter_map(|(i, r)| PRJ[*r].1.clone().map(|r| (if *i == t { p } else { *i }, r))).collect();
            caller = wd.account(format!("d{}@x.io", wd.cnt), w.srv.then_some(Role::Admin), list(&[1, 2], &[ORG[w.o[0]].1.clone(), ORG[w.o[1]].1.clone()], rng), Some(prjs), None); }
        "org_delete" if ex => org = wd.app.md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: wd.root, name: format!("tmp{}", wd.cnt) }).unwrap().id,
        "bm_get" if ex => x = wd.app.md.bookmarks.create(p, metadata::bookmarks::CreateBookmarkRequest { created_by: caller, query: None }).unwrap().id,
        "acc_get" | "acc_update" | "acc_delete" => x = wd.account(format!("t{}@x.io", wd.cnt), None, None, None, None).to_string(),
        "bk_create" | "bk_get" => { for b in wd.app.md.backups.list().unwrap().data { let _ = wd.app.md.backups.delete(b.id); } if op.name == "bk_get" { x = wd.app.md.backups.create(metadata::backups::CreateBackupRequest::from_settings(&settings())).unwrap().id.to_string() } }
        _ => {}
    }
    let path = format!("/api/v1{}", op.path.replace("{p}", &p.to_string()).replace("{o}", &org.to_string()).replace("{a}", &x).replace("{x}", &x).replace("{n}", &name).replace("/backups/1", &format!("/backups/{x}")));
    let before = wd.app.digest();
    let r = wd.app.send(op.m, &path, Some(&wd.app.token(caller, w.torg)), &[], (op.body)(if op.path.contains("{p}") { t } else { w.torg }, wd.cnt));
    let changed = wd.app.digest() != before; let ok = r.st / 100 == 2;
    let mut seen = vec![]; names(&r.body, &mut seen); seen.sort(); seen.dedup();
    let ids: Vec<u64> = if op.name == "prj_list" || op.name == "org_list" { r.body["data"].as_array().map(|l| l.iter().filter_map(|x| x["id"].as_u64()).collect()).unwrap_or_default() } else { vec![] };
    // tidy up
    if changed && op.name.ends_with("_delete") { wd.pool.remove(&(family.to_string(), p)); }
    match op.name {
        "prj_create" if ok => { let _ = wd.app.md.projects.delete(r.body["id"].as_u64().unwrap()); }
        "prj_delete" if ex => { let _ = wd.app.md.projects.delete(p); }
        "org_create" if ok => { let _ = wd.app.md.organizations.delete(r.body["id"].as_u64().unwrap()); }
        "org_delete" if ex => { let _ = wd.app.md.organizations.delete(org); }
        "acc_create" if ok => { let _ = wd.app.md.accounts.delete(r.body["id"].as_u64().unwrap()); }
        "acc_get" | "acc_update" | "acc_delete" => { let _ = wd.app.md.accounts.delete(x.parse().unwrap()); }
        _ => {}
    }
    if caller != wd.accs[ai] { let _ = wd.app.md.accounts.delete(caller); }
    o.put(json!({"k": "call", "op": op.name, "srv": w.srv, "orgs": [ORG[w.o[0]].0, ORG[w.o[1]].0], "prjs": [PRJ[w.p[0]].0, "none", PRJ[w.p[1]].0], "torg": w.torg, "t": t, "ex": ex, "st": r.st, "changed": changed, "err": r.body.get("error").is_some(), "seen": seen, "ids": ids, "why": if ok || r.st == 403 { "".into() } else { r.body.to_string().chars().take(200).collect::<String>() }}));
}
