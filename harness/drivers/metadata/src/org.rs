//! M06 (accounts, organizations, projects, teams), M08 (isolation), M09 (settings, backups)
use crate::people::{step, Do};
use crate::*;
use common::rbac::{OrganizationRole as OR, ProjectRole as PR, Role};
use common::types::OptionalProperty as OP;
use metadata::{accounts as ac, backups as bk, organizations as og, projects as pj, settings as st, teams as tm};

fn orole(n: u64) -> OR { match n { 0 => OR::Owner, 1 => OR::Admin, _ => OR::Member } }
fn prole(n: u64) -> PR { match n { 0 => PR::Owner, 1 => PR::Admin, 2 => PR::Member, _ => PR::Reader } }
fn low<T: std::fmt::Debug>(x: T) -> String { format!("{x:?}").to_lowercase() }
fn pairs<T: std::fmt::Debug>(v: &Option<Vec<(u64, T)>>) -> Value { Value::Array(v.iter().flatten().map(|(i, r)| json!([i, low(r)])).collect()) }
fn acc(a: &ac::Account) -> Value { json!({"id": a.id, "email": a.email, "name": a.name.clone().unwrap_or_default(), "role": a.role.as_ref().map(low).unwrap_or_default(), "fp": a.force_update_password, "fe": a.force_update_email, "pw": a.password_hash, "orgs": pairs(&a.organizations), "projs": pairs(&a.projects), "teams": pairs(&a.teams)}) }
fn org(o: &og::Organization) -> Value { json!({"id": o.id, "name": o.name, "members": pairs(&Some(o.members.clone()))}) }
fn prj(p: &pj::Project) -> Value { json!({"id": p.id, "name": p.name, "org": p.organization_id, "token": p.token, "desc": p.description.clone().unwrap_or_default(), "tags": p.tags.clone().unwrap_or_default(), "dur": p.session_duration_seconds, "cnt": p.events_count}) }
fn team(t: &tm::Team) -> Value { json!({"id": t.id, "name": t.name, "org": t.organization_id}) }
fn arr<T>(v: &[T], f: impl Fn(&T) -> Value) -> Value { Value::Array(v.iter().map(f).collect()) }
const TOKENS: [&str; 8] = ["t1", "t2", "t3", "t7", "t4", "t5", "t6", "n"];
pub fn m06(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 6); let od = opti(&a.dir);
    let (episodes, steps, files) = if a.thorough { (600, 60, 8) } else { (48, 40, 4) };
    for f in 0..files {
        let mut out = Out::new(&a.dir, &format!("trace{f}.ndjson"));
        for epi in 0..episodes / files {
            let mut env = Env::new(&od); out.put(json!({"k": "reset"}));
            let teams_of = |env: &Env| tm::Teams::new(env.tdb.clone());
            let big = epi % 4 == 3;
            for s in 0..steps {
                // start with two accounts and an organization
                let forced = match s { 0 | 1 => Some(0), 2 => Some(9), _ => None };
                let teams = Arc::new(teams_of(&env));
                step(&mut rng, &mut env, &mut out, forced.is_none(), |rng| {
                    let n = if big { 14 } else { 4 };
                    let (aid, oid, pid, tid) = (1 + rng.below(n), 1 + rng.below(3), 1 + rng.below(n), 1 + rng.below(3));
                    let email = format!("e{}", 1 + rng.below(n + 1)); let name = (*rng.pick(&["n", "m", "A/b", "10", "n1", "n2"])).to_string();
                    let token = (*rng.pick(&["t1", "t2", "t3", "t7", "t4", "t5", "t6"])).to_string();
                    let role = if rng.chance(1, 3) { Some(Role::Admin) } else { None }; let (or, pr) = (rng.below(3), rng.below(4)); let flag = rng.chance(1, 2);
                    let projs = if rng.chance(1, 2) { Some(vec![(1, prole(pr)), (12, prole(3 - pr))]) } else { None };
                    let tms = if rng.chance(1, 3) { Some(vec![(tid, Role::Admin)]) } else { None };
                    let (desc, tags, dur) = (if flag { Some("d".to_string()) } else { None }, if rng.chance(1, 2) { Some(vec!["x".to_string(), "y".into()]) } else { None }, rng.below(100));
                    let w = forced.unwrap_or_else(|| rng.below(27));
                    match w {
                        0..=3 => { let q = ac::CreateAccountRequest { created_by: 1, password_hash: format!("h{or}"), email: email.clone(), name: if flag { Some(name.clone()) } else { None }, force_update_password: flag, force_update_email: !flag, role, organizations: None, projects: projs, teams: tms };
                            Do::new(json!({"k": "op", "a": "acc_create", "q": acc(&q.clone().into_account(0, Default::default()))}), move |md| Ok(acc(&md.accounts.create(q.clone())?))) }
                        4..=6 => { let m = rng.below(128);
                            let set = |b: u64| m & (1 << b) != 0;
                            fn o<T: Clone>(s: bool, v: &T) -> OP<T> { if s { OP::Some(v.clone()) } else { OP::None } }
                            let nm = if flag { Some(name.clone()) } else { None };
                            let q = ac::UpdateAccountRequest { updated_by: 1, password_hash: o(set(0), &"hh".to_string()), email: o(set(1), &email), name: o(set(2), &nm), force_update_password: o(set(3), &flag), force_update_email: o(set(4), &flag), role: o(set(5), &role), organizations: OP::None, projects: o(set(6), &projs), teams: o(set(6), &tms) };
                            let full = ac::CreateAccountRequest { created_by: 1, password_hash: "hh".into(), email, name: nm, force_update_password: flag, force_update_email: flag, role, organizations: None, projects: projs, teams: tms };
                            let sets: Vec<&str> = [("pw", 0), ("email", 1), ("name", 2), ("fp", 3), ("fe", 4), ("role", 5), ("projs", 6), ("teams", 6)].iter().filter(|x| set(x.1)).map(|x| x.0).collect();
                            Do::new(json!({"k": "op", "a": "acc_update", "id": aid, "set": sets, "q": acc(&full.into_account(0, Default::default()))}), move |md| Ok(acc(&md.accounts.update(aid, q.clone())?))) }
                        7 => Do::new(json!({"k": "op", "a": "acc_delete", "id": aid}), move |md| Ok(acc(&md.accounts.delete(aid)?))),
                        8 => { if rng.chance(1, 2) { Do::new(json!({"k": "op", "a": "acc_get", "id": aid}), move |md| Ok(acc(&md.accounts.get_by_id(aid)?))) } else { Do::new(json!({"k": "op", "a": "acc_email", "email": email}), move |md| Ok(acc(&md.accounts.get_by_email(&email)?))) } }
                        9..=10 => Do::new(json!({"k": "op", "a": "org_create", "by": if forced.is_some() { 1 } else { aid }, "name": name}), move |md| Ok(org(&md.organizations.create(og::CreateOrganizationRequest { created_by: if forced.is_some() { 1 } else { aid }, name: name.clone() })?))),
                        11 => { let setn = rng.chance(3, 4); Do::new(json!({"k": "op", "a": "org_update", "id": oid, "setn": setn, "name": name}), move |md| Ok(org(&md.organizations.update(oid, og::UpdateOrganizationRequest { updated_by: 1, name: if setn { OP::Some(name.clone()) } else { OP::None } })?))) }
                        12..=13 => Do::new(json!({"k": "op", "a": "add", "id": oid, "m": aid, "role": low(orole(or))}), move |md| { md.organizations.add_member(oid, aid, orole(or))?; Ok(json!(0)) }),
                        14 => Do::new(json!({"k": "op", "a": "remove", "id": oid, "m": aid}), move |md| { md.organizations.remove_member(oid, aid)?; Ok(json!(0)) }),
                        15 => Do::new(json!({"k": "op", "a": "role", "id": oid, "m": aid, "role": low(orole(or))}), move |md| { md.organizations.change_member_role(oid, aid, orole(or))?; Ok(json!(0)) }),
                        16 => if rng.chance(1, 2) { Do::new(json!({"k": "op", "a": "org_delete", "id": oid}), move |md| Ok(org(&md.organizations.delete(oid)?))) } else { Do::new(json!({"k": "op", "a": "org_get", "id": oid}), move |md| Ok(org(&md.organizations.get_by_id(oid)?))) },
                        17..=18 => { let q = pj::CreateProjectRequest { created_by: 1, organization_id: oid, name: name.clone(), description: desc.clone(), tags: tags.clone(), token: token.clone(), session_duration_seconds: dur };
                            Do::new(json!({"k": "op", "a": "prj_create", "q": {"name": name, "org": oid, "token": token, "desc": desc.unwrap_or_default(), "tags": tags.unwrap_or_default(), "dur": dur}}), move |md| Ok(prj(&md.projects.create(q.clone())?))) }
                        19..=20 => { let m = rng.below(32); let set = |b: u64| m & (1 << b) != 0;
                            fn o<T: Clone>(s: bool, v: &T) -> OP<T> { if s { OP::Some(v.clone()) } else { OP::None } }
                            let q = pj::UpdateProjectRequest { updated_by: 1, name: o(set(0), &name), description: o(set(1), &desc), tags: o(set(2), &tags), token: o(set(3), &token), session_duration_seconds: o(set(4), &dur) };
                            let sets: Vec<&str> = [("name", 0), ("desc", 1), ("tags", 2), ("token", 3), ("dur", 4)].iter().filter(|x| set(x.1)).map(|x| x.0).collect();
                            Do::new(json!({"k": "op", "a": "prj_update", "id": pid, "set": sets, "q": {"name": name, "org": 0, "token": token, "desc": desc.unwrap_or_default(), "tags": tags.unwrap_or_default(), "dur": dur}}), move |md| Ok(prj(&md.projects.update(pid, q.clone())?))) }
                        21 => match rng.below(4) {
                            0 => Do::new(json!({"k": "op", "a": "prj_delete", "id": pid}), move |md| Ok(prj(&md.projects.delete(pid)?))),
                            1 => Do::new(json!({"k": "op", "a": "prj_get", "id": pid}), move |md| Ok(prj(&md.projects.get_by_id(pid)?))),
                            _ => Do::new(json!({"k": "op", "a": "prj_token", "token": token}), move |md| Ok(prj(&md.projects.get_by_token(&token)?))) },
                        22 => Do::new(json!({"k": "op", "a": "prj_count", "id": pid}), move |md| { md.projects.increment_events_counter(pid)?; Ok(json!(0)) }),
                        23..=24 => { let t = teams.clone(); Do::new(json!({"k": "op", "a": "team_create", "org": oid, "name": name}), move |_| Ok(team(&t.create(oid, tm::CreateTeamRequest { created_by: 1, organization_id: oid, name: name.clone() })?))) }
                        25 => { let t = teams.clone(); Do::new(json!({"k": "op", "a": "team_update", "org": oid, "id": tid, "name": name}), move |_| Ok(team(&t.update(oid, tid, tm::UpdateTeamRequest { updated_by: 1, name: OP::Some(name.clone()) })?))) }
                        _ => { let t = teams.clone(); if rng.chance(1, 2) { Do::new(json!({"k": "op", "a": "team_delete", "org": oid, "id": tid}), move |_| Ok(team(&t.delete(oid, tid)?))) } else { Do::new(json!({"k": "op", "a": "team_get", "org": oid, "id": tid}), move |_| Ok(team(&t.get_by_id(oid, tid)?))) } }
                    }
                });
                if rng.chance(2, 3) || s + 1 == steps {
                    let l = call(|| Ok(json!({"accs": arr(&env.md.accounts.list()?.data, acc), "orgs": arr(&env.md.organizations.list()?.data, org), "prjs": arr(&env.md.projects.list()?.data, prj),
                        "teams": [arr(&teams_of(&env).list(1)?.data, team), arr(&teams_of(&env).list(2)?.data, team), arr(&teams_of(&env).list(3)?.data, team)],
                        "emails": (1..=if big { 15 } else { 5 }).map(|i| { let e = format!("e{i}"); json!([e, env.md.accounts.get_by_email(&e).map(|a| a.id).unwrap_or(0)]) }).collect::<Vec<_>>(),
                        "tokens": TOKENS.iter().map(|t| json!([t, env.md.projects.get_by_token(t).map(|a| a.id).unwrap_or(0)])).collect::<Vec<_>>()})));
                    out.put(json!({"k": "list", "e": l["e"], "v": l.get("o").cloned().unwrap_or(json!(0))}));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------
/// everything that can be read back of one project
fn view(md: &MetadataProvider, p: u64) -> Value {
    use crate::catalogue::list;
    let mut v: Vec<Value> = ["event", "cevent", "eprop", "g0prop", "g1prop", "report", "dash"].iter().map(|k| json!([k, format!("{}", list(md, k, p))])).collect();
    let mut d = vec![]; for t in ["events", "group_0"] { for c in ["c1", "c2"] { for k in 1..6u64 { d.push(md.dictionaries.get_value(p, t, c, k).ok()); } for s in WORDS { d.push(md.dictionaries.get_key(p, t, c, s).ok().map(|k| k.to_string())); } } }
    v.push(json!(["dict", format!("{d:?}")]));
    v.push(json!(["sessions", format!("{:?}", USERS.iter().map(|u| md.sessions.get_by_user_id(p, *u).ok().map(|s| s.created_at)).collect::<Vec<_>>())]));
    let seen = std::sync::Mutex::new(vec![]); let _ = md.sessions.check_for_deletion(p, |s| { seen.lock().unwrap().push(s.user_id); Ok(false) });
    v.push(json!(["live", format!("{:?}", seen.into_inner().unwrap())]));
    v.push(json!(["groups", format!("{:?}", md.groups.list_groups(p).map(|l| l.data).unwrap_or_default())]));
    for k in ["event", "eprop"] { for n in NAMES { v.push(json!([format!("{k}:{n}"), match k { "event" => low(md.events.get_by_name(p, n).map(|e| e.id).ok()), _ => low(md.event_properties.get_by_name(p, n).map(|e| (e.id, e.column_name())).ok()) }])); } }
    Value::Array(v)
}
const WORDS: [&str; 4] = ["a", "b", "a/b", "1"];
const USERS: [u64; 4] = [1, 2, 11, 12];
const NAMES: [&str; 6] = ["a", "b", "a/b", "1", "10", "data"];
pub fn m08(a: &Args) {
    use crate::catalogue::{event_req, exec, prop_req, Op};
    let mut rng = Rng::new(a.seed ^ 8); let (oj, os) = (opti(&a.dir), opti(&a.dir));
    let (episodes, steps, files) = if a.thorough { (240, 60, 8) } else { (24, 36, 4) };
    let projects = [1u64, 11, 2, 12];
    for f in 0..files {
        let mut out = Out::new(&a.dir, &format!("trace{f}.ndjson"));
        for _ in 0..episodes / files {
            // one provider that holds all projects, and one per project that holds nothing else
            let mut joint = Env::new(&oj); let mut solo: Vec<Env> = projects.iter().map(|_| Env::new(&os)).collect();
            out.put(json!({"k": "reset", "views": projects.iter().map(|p| json!([p, view(&joint.md, *p)])).collect::<Vec<_>>()}));
            for (i, p) in projects.iter().enumerate() { for md in [&joint.md, &solo[i].md] { md.events.create(*p, event_req("data", None)).unwrap(); } }
            out.put(json!({"k": "start", "views": projects.iter().map(|p| json!([p, view(&joint.md, *p)])).collect::<Vec<_>>()}));
            for _ in 0..steps {
                let i = rng.below(4) as usize; let p = projects[i];
                let name = (*rng.pick(&NAMES)).to_string(); let id = 1 + rng.below(3); let w = (*rng.pick(&WORDS)).to_string(); let u = *rng.pick(&USERS); let g = rng.below(2); let t = *rng.pick(&["events", "group_0"]); let c = *rng.pick(&["c1", "c2"]); let time = 1_700_000_000 + rng.below(1000) as i64;
                let (label, f): (String, Box<dyn Fn(&MetadataProvider) -> Value>) = match rng.below(17) {
                    0..=8 => {
                        let kind = *rng.pick(&["event", "event", "cevent", "eprop", "eprop", "g0prop", "g1prop", "report", "dash"]); let act = *rng.pick(&["create", "create", "getcreate", "update", "delete"]);
                        let act = if act == "getcreate" && !(kind == "event" || kind.ends_with("prop")) { "create" } else { act };
                        let mut op = Op::new(act, kind, p); op.name = Some(if kind == "cevent" && act == "create" { format!("c{name}") } else { name }); op.dn = Some(if rng.chance(1, 3) { Some(format!("D{id}")) } else { None }); op.id = id;
                        if kind == "cevent" && rng.chance(1, 2) { op.name = None; if act == "create" { op.name = Some("cx".into()) } }
                        (format!("{act} {kind}"), Box::new(move |md| { let mut o = op.clone(); if o.kind == "cevent" && o.a == "create" { o.name = Some(o.name.unwrap()); } cev(md, &o) }))
                    }
                    9..=10 => ("dict".into(), Box::new(move |md| call(|| Ok(json!(md.dictionaries.get_key_or_create(p, t, c, &w)?))))),
                    11 => ("act".into(), Box::new(move |md| call(|| Ok(json!(md.sessions.set_current_time(p, u, chrono::DateTime::from_timestamp(time, 0).unwrap())?))))),
                    12 => ("sweep".into(), Box::new(move |md| call(|| { let n = std::sync::atomic::AtomicU64::new(0); md.sessions.check_for_deletion(p, |s| { n.fetch_add(s.user_id, Ordering::SeqCst); Ok(s.created_at.timestamp() < time) })?; Ok(json!(n.into_inner())) }))),
                    13 => if rng.chance(1, 3) { ("clear".into(), Box::new(move |md| call(|| { md.sessions.clear_project(p)?; Ok(json!(0)) }))) } else { ("group".into(), Box::new(move |md| call(|| Ok(json!(format!("{:?}", md.groups.get_or_create_group(p, name.clone(), "d".into())?)))))) },
                    14 => ("anon".into(), Box::new(move |md| call(|| Ok(json!(md.groups.get_or_create_anonymous_id(p, g, &w)?))))),
                    15 => { let n2 = name; ("merge".into(), Box::new(move |md| call(|| Ok(json!(md.groups.merge_with_anonymous(p, g, &w, &n2, vec![])?.id))))) }
                    _ => if rng.chance(1, 2) { ("user".into(), Box::new(move |md| call(|| Ok(json!(md.groups.create_or_update(p, g, &w, vec![])?.id))))) } else { ("seq".into(), Box::new(move |md| call(|| Ok(json!(md.groups.next_record_sequence(p, g)?))))) },
                };
                let (rj, rs) = (f(&joint.md), f(&solo[i].md));
                if rng.chance(1, 15) { joint.reopen(); }
                if rng.chance(1, 15) { solo[i].reopen(); }
                out.put(json!({"k": "op", "p": p, "what": label, "joint": format!("{rj}"), "solo": format!("{rs}"), "views": projects.iter().map(|p| json!([p, view(&joint.md, *p)])).collect::<Vec<_>>(), "alone": view(&solo[i].md, p)}));
            }
        }
    }
    let _ = prop_req;
    fn cev(md: &MetadataProvider, o: &Op) -> Value {
        // the base event of custom events is called "data" here
        if o.kind == "cevent" && o.a == "create" { let n = o.name.clone().unwrap(); return call(|| Ok(json!(md.custom_events.create(o.p, metadata::custom_events::CreateCustomEventRequest { created_by: 1, tags: None, name: n, description: None, status: metadata::custom_events::Status::Enabled, is_system: false, events: vec![metadata::custom_events::Event { event: common::query::EventRef::RegularName("data".into()), filters: None }] })?.id))); }
        exec(md, o)
    }
}

// ---------------------------------------------------------------------------------------------------
fn sj(s: &st::Settings) -> Value {
    json!({"access": s.auth_access_token, "refresh": s.auth_refresh_token, "pw": s.auth_admin_default_password, "en": s.backup_enabled, "enc": s.backup_encryption_enabled, "encpw": s.backup_encryption_password, "comp": s.backup_compression_enabled,
        "prov": low(&s.backup_provider), "local": s.backup_provider_local_path, "s3b": s.backup_provider_s3_bucket, "s3p": s.backup_provider_s3_path, "s3r": s.backup_provider_s3_region, "s3a": s.backup_provider_s3_access_key, "s3s": s.backup_provider_s3_secret_key,
        "gb": s.backup_provider_gcp_bucket, "gp": s.backup_provider_gcp_path, "gk": s.backup_provider_gcp_key, "int": low(&s.backup_schedule_interval), "hour": s.backup_schedule_start_hour})
}
fn settings(rng: &mut Rng) -> st::Settings {
    let mut s = |n: &str| if rng.chance(1, 6) { String::new() } else { format!("{n}{}", rng.below(3)) };
    let (access, refresh, pw, encpw, local, s3b, s3p, s3r, s3a, s3s, gb, gp, gk) = (s("a"), s("r"), s("w"), s("e"), s("/l"), s("b"), s("p/"), s("g"), s("k"), s("s"), s("gb"), s("/gp"), s("gk"));
    st::Settings { auth_access_token: access, auth_refresh_token: refresh, auth_admin_default_password: pw, backup_enabled: rng.chance(1, 2), backup_encryption_enabled: rng.chance(1, 2), backup_encryption_password: encpw, backup_compression_enabled: rng.chance(1, 2),
        backup_provider: match rng.below(3) { 0 => st::BackupProvider::Local, 1 => st::BackupProvider::S3, _ => st::BackupProvider::GCP }, backup_provider_local_path: local, backup_provider_s3_bucket: s3b, backup_provider_s3_path: s3p, backup_provider_s3_region: s3r, backup_provider_s3_access_key: s3a, backup_provider_s3_secret_key: s3s,
        backup_provider_gcp_bucket: gb, backup_provider_gcp_path: gp, backup_provider_gcp_key: gk,
        backup_schedule_interval: match rng.below(5) { 0 => st::BackupScheduleInterval::Hourly, 1 => st::BackupScheduleInterval::Daily, 2 => st::BackupScheduleInterval::Weekly, 3 => st::BackupScheduleInterval::Monthly, _ => st::BackupScheduleInterval::Yearly }, backup_schedule_start_hour: rng.below(25) as usize }
}
fn provider(p: &bk::Provider) -> Value { match p { bk::Provider::Local(x) => json!(["local", x.to_str().unwrap(), "", ""]), bk::Provider::S3(x) => json!(["s3", x.path, x.bucket, x.region]), bk::Provider::GCP(x) => json!(["gcp", x.path, x.bucket, ""]) } }
fn status(s: &bk::Status) -> Value { match s { bk::Status::Idle => json!(["idle", 0, ""]), bk::Status::InProgress(n) => json!(["progress", n, ""]), bk::Status::Uploading => json!(["uploading", 0, ""]), bk::Status::Failed(m) => json!(["failed", 0, m]), bk::Status::Completed => json!(["completed", 0, ""]) } }
fn bj(b: &bk::Backup) -> Value {
    use chrono::Timelike;
    let path = b.path(); let want = format!("{}T{:02}:00:00.zip", b.created_at.date_naive(), b.created_at.hour());
    json!({"id": b.id, "prov": provider(&b.provider), "status": status(&b.status), "enc": b.is_encrypted, "pw": b.password.clone().unwrap_or_default(), "path": path.strip_suffix(&want).unwrap_or("?")})
}
pub fn m09(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 9); let od = opti(&a.dir);
    let (episodes, steps, files) = if a.thorough { (800, 70, 8) } else { (64, 40, 4) };
    for f in 0..files {
        let mut out = Out::new(&a.dir, &format!("trace{f}.ndjson"));
        for _ in 0..episodes / files {
            let mut env = Env::new(&od); out.put(json!({"k": "reset"}));
            for s in 0..steps {
                step(&mut rng, &mut env, &mut out, true, |rng| {
                    let id = 1 + rng.below(6);
                    match if s == 0 { 0 } else { rng.below(14) } {
                        0..=3 => { let s = settings(rng); Do::new(json!({"k": "op", "a": "save", "q": sj(&s)}), move |md| { md.settings.save(&s)?; Ok(json!(0)) }) }
                        4..=5 => Do::new(json!({"k": "op", "a": "load"}), |md| Ok(sj(&md.settings.load()?))),
                        6..=8 => Do::new(json!({"k": "op", "a": "backup"}), |md| { let s = md.settings.load()?; Ok(bj(&md.backups.create(bk::CreateBackupRequest::from_settings(&s))?)) }),
                        9..=11 => { let x = match rng.below(6) { 0..=2 => bk::Status::InProgress(rng.below(101) as usize), 3 => bk::Status::Uploading, 4 => bk::Status::Failed(["", "boom"][rng.below(2) as usize].into()), _ => bk::Status::Completed }; Do::new(json!({"k": "op", "a": "status", "id": id, "status": status(&x)}), move |md| { md.backups.update_status(id, x.clone())?; Ok(json!(0)) }) }
                        12 => Do::new(json!({"k": "op", "a": "bdelete", "id": id}), move |md| { md.backups.delete(id)?; Ok(json!(0)) }),
                        _ => Do::new(json!({"k": "op", "a": "bget", "id": id}), move |md| Ok(bj(&md.backups.get_by_id(id)?))),
                    }
                });
                if rng.chance(1, 3) { let r = call(|| Ok(arr(&env.md.backups.list()?.data, bj))); out.put(json!({"k": "blist", "e": r["e"], "list": r.get("o").cloned().unwrap_or(json!([]))})); }
            }
        }
    }
}
