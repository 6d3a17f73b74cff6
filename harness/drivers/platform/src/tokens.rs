//! P02: sign-up, log-in, refresh, keys, passwords: histories through the HTTP interface
use crate::app::*;
use crate::*;
use common::rbac::*;
use jsonwebtoken::{decode, encode, Algorithm, DecodingKey, EncodingKey, Header, Validation};

#[derive(Clone)]
struct Tok { raw: String, d: Value }
fn now() -> i64 { chrono::Utc::now().timestamp() }
fn desc(kind: &str, acc: u64, org: u64, key: &str, life: i64, intact: bool) -> Value { json!({"kind": kind, "acc": acc, "org": org, "key": key, "life": life, "intact": intact}) }
fn missing() -> Tok { Tok { raw: String::new(), d: desc("missing", 0, 0, "", 0, false) } }
fn sign(claims: &Value, key: &str, alg: Algorithm) -> String { encode(&Header::new(alg), claims, &EncodingKey::from_secret(key.as_bytes())).unwrap() }
/// what is in a token the platform gave out: its claims, and which of the known keys signed it
fn read(raw: &str, keys: &[String]) -> Tok {
    for k in keys {
        let mut v = Validation::new(Algorithm::HS512); v.required_spec_claims.clear(); v.validate_exp = false;
        if let Ok(t) = decode::<Value>(raw, &DecodingKey::from_secret(k.as_bytes()), &v) {
            let c = t.claims; let n = |f: &str| c.get(f).and_then(|x| x.as_u64());
            let kind = if n("accountId").is_none() { "junk" } else if n("organizationId").is_some() { "access" } else { "refresh" };
            return Tok { raw: raw.into(), d: desc(kind, n("accountId").unwrap_or(0), n("organizationId").unwrap_or(0), k, c.get("exp").and_then(|x| x.as_i64()).unwrap_or(0) - now(), true) };
        }
    }
    Tok { raw: raw.into(), d: desc("junk", 0, 0, "", 0, false) }
}
pub fn p02(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0x902); let db = store(&a.dir);
    for f in 0..if a.thorough { 8 } else { 1 } {
        let mut o = Out::new(&a.dir, &format!("trace{f}.ndjson"));
        for _ in 0..if a.thorough { 60 } else { 25 } { history(&db, &mut rng, &mut o, if a.thorough { 120 } else { 60 }); }
    }
}
const EMAILS: [&str; 7] = ["ann@x.io", "bob@x.io", "cy@x.io", "ANN@x.io", "d.e+f@y.org", "bob@x.i", "not an email"];
const PWS: [&str; 5] = ["abcdefghijklmnop1", "qrstuvwxyz012345A", "ABCDEFGHIJKLMNOP2", "zyxwvutsrqponmlkB", "weak"];
fn history(db: &std::sync::Arc<storage::db::OptiDBImpl>, rng: &mut Rng, o: &mut Out, steps: usize) {
    let app = App::new(db); let (mut ak, mut rk) = ("ak0".to_string(), "rk0".to_string()); let mut keys = vec![ak.clone(), rk.clone()];
    let hash = |p: &str| platform::auth::password::make_password_hash(p).unwrap();
    let root = app.md.accounts.create(metadata::accounts::CreateAccountRequest { created_by: 1, password_hash: hash("rootpassword#1"), email: "root@x.io".into(), name: None, force_update_password: false, force_update_email: false, role: Some(Role::Admin), organizations: None, projects: None, teams: None }).unwrap().id;
    o.put(json!({"k": "reset", "ak": ak, "rk": rk, "root": {"id": root, "email": "root@x.io", "pw": "rootpassword#1", "fp": false, "fe": false, "admin": true}}));
    let mut toks: Vec<Tok> = vec![]; let mut ids = vec![root]; let mut orgs: Vec<u64> = vec![]; let mut pws: std::collections::HashMap<u64, String> = Default::default(); let mut emails: std::collections::HashMap<u64, String> = Default::default();
    let answer = |r: &Reply, keys: &[String], toks: &mut Vec<Tok>| -> Value {
        let given = match (r.body.get("accessToken").and_then(|x| x.as_str()), r.body.get("refreshToken").and_then(|x| x.as_str())) {
            (Some(x), Some(y)) => { let (x, y) = (read(x, keys), read(y, keys)); toks.push(x.clone()); toks.push(y.clone()); vec![json!({"a": x.d, "r": y.d, "cookie": match &r.cookie { None => "none", Some(c) if *c == y.raw => "same", _ => "other" }})] }
            _ => vec![] };
        json!({"st": r.st, "toks": given})
    };
    for step in 0..steps {
        // a token to call with: one that was given out, or one made up
        let pick = |rng: &mut Rng, toks: &Vec<Tok>, refresh: bool, keys: &[String], ids: &[u64], orgs: &[u64]| -> Tok {
            let of: Vec<&Tok> = toks.iter().filter(|t| t.d["kind"] == if refresh { "refresh" } else { "access" }).collect();
            if !of.is_empty() && rng.chance(3, 5) { let n = of.len() as u64; return of[if rng.chance(1, 2) { n - 1 - rng.below(n.min(4)) } else { rng.below(n) } as usize].clone() }
            let (acc, org) = (*rng.pick(ids), if orgs.is_empty() || rng.chance(1, 3) { rng.below(3) } else { *rng.pick(orgs) });
            let mut key = if refresh { rk.clone() } else { ak.clone() }; let mut life = 5000i64; let mut intact = true; let mut alg = Algorithm::HS512; let mut kind = if refresh { "refresh" } else { "access" };
            match rng.below(12) {
                0 => key = if refresh { ak.clone() } else { rk.clone() }, 1 => key = rng.pick(keys).clone(), 2 => key = "guess".into(), 3 => life = -3600, 4 => life = -100,
                5 => { alg = Algorithm::HS256; intact = false } 6 => { alg = Algorithm::HS384; intact = false } 7 => kind = if refresh { "access" } else { "refresh" },
                8 => return missing(), _ => {}
            }
            let mut c = json!({"exp": now() + life, "accountId": acc}); if kind == "access" { c["organizationId"] = json!(org); }
            if rng.chance(1, 12) { c.as_object_mut().unwrap().remove("exp"); intact = false; }
            let mut raw = sign(&c, &key, alg);
            if rng.chance(1, 10) { // someone else's claims under this signature
                let mut parts: Vec<String> = raw.split('.').map(|x| x.to_string()).collect(); c["accountId"] = json!(root); let other = sign(&c, &key, alg); let np = other.split('.').nth(1).unwrap().to_string();
                if np != parts[1] { parts[1] = np; intact = false; raw = parts.join("."); } }
            // an access token read as a refresh token: same claims and more, but the other kind's key
            if kind == "access" && refresh && key == rk { key = ak.clone(); raw = sign(&c, &key, alg); }
            Tok { raw, d: desc(kind, acc, if kind == "access" { org } else { 0 }, &key, life, intact) }
        };
        let email = rng.pick(&EMAILS).to_string(); let good = email != "not an email"; let pw = rng.pick(&PWS).to_string(); let weak = pw == "weak";
        // mostly the right password of somebody
        let who = *rng.pick(&ids);
        let t = if rng.chance(1, 4) || toks.is_empty() { let org = if orgs.is_empty() { 0 } else { *rng.pick(&orgs) }; let acc = if rng.chance(1, 2) { root } else { who }; let mut c = json!({"exp": now() + 9000, "accountId": acc}); c["organizationId"] = json!(org); Tok { raw: sign(&c, &ak, Algorithm::HS512), d: desc("access", acc, org, &ak, 9000, true) } } else { pick(rng, &toks, false, &keys, &ids, &orgs) };
        let caller = t.d["acc"].as_u64().unwrap();
        let bearer = (t.d["kind"] != "missing").then(|| t.raw.clone()); let b = bearer.as_deref();
        let cur = match pws.get(&caller) { Some(p) if rng.chance(3, 4) => p.clone(), _ => pw.clone() };
        let mut line = match rng.below(20) {
            0 | 1 if rng.chance(1, 2) || ids.len() < 3 => { let r = app.send("POST", "/api/v1/auth/signup", None, &[], Some(json!({"email": email, "password": pw, "passwordRepeat": pw, "name": "n"})));
                let x = answer(&r, &keys, &mut toks); let id = x["toks"].get(0).map(|t| t["a"]["acc"].as_u64().unwrap()).unwrap_or(0);
                if r.st == 201 { ids.push(id); pws.insert(id, pw.clone()); emails.insert(id, email.clone()); }
                json!({"k": "signup", "id": id, "email": email, "good": good, "pw": pw, "weak": weak, "ans": x}) }
            0..=4 => { let (em, p) = if rng.chance(2, 3) { (emails.get(&who).cloned().unwrap_or("root@x.io".into()), if rng.chance(3, 4) { pws.get(&who).cloned().unwrap_or("rootpassword#1".into()) } else { pw.clone() }) } else { (email.clone(), pw.clone()) };
                let org: i64 = if rng.chance(1, 2) { -1 } else if orgs.is_empty() || rng.chance(1, 6) { 77 } else { *rng.pick(&orgs) as i64 };
                let ck = org.to_string(); let cookies: Vec<(&str, &str)> = if org >= 0 { vec![("organization_id", &ck)] } else if rng.chance(1, 3) { vec![("organization_id", "x")] } else { vec![] };
                let r = app.send("POST", "/api/v1/auth/login", None, &cookies, Some(json!({"email": em, "password": p})));
                json!({"k": "login", "email": em, "good": em != "not an email", "pw": p, "org": org, "ans": answer(&r, &keys, &mut toks)}) }
            5 | 6 => { let (c, bd) = (if rng.chance(1, 2) { pick(rng, &toks, true, &keys, &ids, &orgs) } else { missing() }, if rng.chance(2, 3) { pick(rng, &toks, true, &keys, &ids, &orgs) } else { missing() });
                let cookies: Vec<(&str, &str)> = if c.d["kind"] != "missing" { vec![("refresh_token", c.raw.as_str())] } else { vec![] };
                let body = if bd.d["kind"] != "missing" { json!({"refreshToken": bd.raw}) } else { json!({}) };
                let r = app.send("POST", "/api/v1/auth/refresh-token", b, &cookies, Some(body));
                json!({"k": "refresh", "a": t.d, "c": c.d, "b": bd.d, "ans": answer(&r, &keys, &mut toks)}) }
            7 => { let org = if orgs.is_empty() || rng.chance(1, 5) { 77 } else { *rng.pick(&orgs) }; let r = app.send("POST", &format!("/api/v1/auth/switch-organization/{org}"), b, &[], None); json!({"k": "switch", "a": t.d, "org": org, "ans": answer(&r, &keys, &mut toks)}) }
            8 | 9 => { let r = app.send("PUT", "/api/v1/profile/password", b, &[], Some(json!({"password": cur, "newPassword": pw}))); if r.st == 200 { pws.insert(caller, pw.clone()); } json!({"k": "chpw", "a": t.d, "cur": cur, "new": pw, "weak": weak, "ans": answer(&r, &keys, &mut toks)}) }
            10 => { let r = app.send("PUT", "/api/v1/profile/email", b, &[], Some(json!({"email": email, "password": cur}))); if r.st == 200 { emails.insert(caller, email.clone()); } json!({"k": "chem", "a": t.d, "cur": cur, "email": email, "good": good, "ans": answer(&r, &keys, &mut toks)}) }
            11 => { let r = app.send("PUT", "/api/v1/profile/set-password", b, &[], Some(json!({"password": pw}))); if r.st == 200 { pws.insert(caller, pw.clone()); } json!({"k": "setpw", "a": t.d, "new": pw, "weak": weak, "ans": answer(&r, &keys, &mut toks)}) }
            12 => { let r = app.send("PUT", "/api/v1/profile/set-email", b, &[], Some(json!({"email": email}))); if r.st == 200 { emails.insert(caller, email.clone()); } json!({"k": "setem", "a": t.d, "email": email, "good": good, "ans": answer(&r, &keys, &mut toks)}) }
            13 => { let (na, nr) = if rng.chance(1, 2) { (format!("ak{step}"), rk.clone()) } else { (ak.clone(), format!("rk{step}")) };
                let r = app.send("PUT", "/api/v1/admin/settings", b, &[], Some(json!({"authAccessToken": na, "authRefreshToken": nr})));
                if r.st == 200 { keys.retain(|k| *k != na && *k != nr); keys.insert(0, na.clone()); keys.insert(0, nr.clone()); ak = na.clone(); rk = nr.clone(); }
                json!({"k": "keys", "a": t.d, "ak": na, "rk": nr, "ans": {"st": r.st, "toks": []}}) }
            14 if good => { let (fp, fe) = (rng.chance(1, 2), rng.chance(1, 2)); let r = app.send("POST", "/api/v1/accounts", b, &[], Some(json!({"password": pw, "email": email, "forceUpdatePassword": fp, "forceUpdateEmail": fe})));
                let id = r.body["id"].as_u64().unwrap_or(0); if r.st == 201 { ids.push(id); pws.insert(id, pw.clone()); emails.insert(id, email.clone()); }
                json!({"k": "newacc", "a": t.d, "id": id, "email": email, "pw": pw, "fp": fp, "fe": fe, "ans": {"st": r.st, "toks": []}}) }
            15 if who != root => { let fp = rng.chance(1, 2); let r = app.send("PUT", &format!("/api/v1/accounts/{who}"), b, &[], Some(json!({"password": pw, "forceUpdatePassword": fp}))); if r.st == 200 { pws.insert(who, pw.clone()); }
                json!({"k": "setacc", "a": t.d, "id": who, "pw": pw, "fp": fp, "ans": {"st": r.st, "toks": []}}) }
            16 if who != root && rng.chance(1, 2) => { let r = app.send("DELETE", &format!("/api/v1/accounts/{who}"), b, &[], None); json!({"k": "delacc", "a": t.d, "id": who, "ans": {"st": r.st, "toks": []}}) }
            17 => { match rng.below(4) {
                0 if orgs.len() < 4 => { let by = *rng.pick(&ids); if app.md.accounts.get_by_id(by).is_err() { continue } let id = app.md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: by, name: format!("o{step}") }).unwrap().id; orgs.push(id); json!({"k": "org", "id": id, "by": by}) }
                1 | 2 if !orgs.is_empty() => { let id = *rng.pick(&orgs); let (rn, role) = rng.pick(&crate::access::ORG[1..]).clone(); let org = app.md.organizations.get_by_id(id).unwrap();
                    if org.is_member(who) { app.md.organizations.remove_member(id, who).unwrap(); json!({"k": "leave", "id": id, "acc": who}) }
                    else if app.md.organizations.add_member(id, who, role.unwrap()).is_ok() { json!({"k": "join", "id": id, "acc": who, "role": rn}) } else { continue } }
                3 if !orgs.is_empty() && rng.chance(1, 3) => { let i = rng.below(orgs.len() as u64) as usize; let id = orgs.remove(i); app.md.organizations.delete(id).unwrap(); json!({"k": "noorg", "id": id}) }
                _ => continue } }
            _ => { let r = app.send("GET", "/api/v1/profile", b, &[], None); json!({"k": "profile", "a": t.d, "ans": {"st": r.st, "toks": []}, "o": {"email": r.body["email"].as_str().unwrap_or(""), "fp": r.body["forceUpdatePassword"].as_bool().unwrap_or(false), "fe": r.body["forceUpdateEmail"].as_bool().unwrap_or(false)}}) }
        };
        line["fail"] = json!(false);
        o.put(line);
    }
}
