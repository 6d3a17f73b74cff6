//! C06, platform part: failures of every layer as the client sees them
use crate::*;
use axum::response::IntoResponse;
use common::error::CommonError;
use ingester::error::IngesterError;
use metadata::error::MetadataError;
use platform::error::AuthError;
use platform::PlatformError;
use query::error::QueryError;

fn show(o: &mut Out, layer: &str, v: &str, m: &str, depth: usize, fields: &[(String, String)], r: axum::response::Response, rt: &tokio::runtime::Runtime) {
    use http_body_util::BodyExt;
    let status = r.status().as_u16();
    let b = rt.block_on(async { r.into_body().collect().await.unwrap().to_bytes() });
    let j: Value = serde_json::from_slice(&b).unwrap_or(json!({}));
    let e = &j["error"];
    let same = match e.get("fields") { Some(Value::Object(f)) => f.len() == fields.len() && fields.iter().all(|(k, v)| f.get(k).and_then(|x| x.as_str()) == Some(v)), _ => fields.is_empty() };
    o.put(json!({"k": "layer", "layer": layer, "v": v, "depth": depth, "status": status, "bstatus": e["status"].as_u64().unwrap_or(0), "has": e["message"].as_str().unwrap_or("").contains(m), "nf": fields.len(), "fields_same": same}));
}
fn serde_err() -> serde_json::Error { serde_json::from_str::<u8>("x").unwrap_err() }
fn metadata(i: usize, m: &str) -> (&'static str, MetadataError, String) {
    let s = m.to_string(); let t = m.to_string();
    match i {
        0 => ("AlreadyExists", MetadataError::AlreadyExists(s), t), 1 => ("NotFound", MetadataError::NotFound(s), t), 2 => ("BadRequest", MetadataError::BadRequest(s), t), 3 => ("Forbidden", MetadataError::Forbidden(s), t),
        4 => ("Internal", MetadataError::Internal(s), t), 5 => ("Store", MetadataError::Store(storage::error::StoreError::Internal(s)), t), 6 => ("Io", MetadataError::Io(std::io::Error::other(s)), t),
        7 => ("Other", MetadataError::Other(anyhow::anyhow!(s)), t), _ => ("FromUtf8", MetadataError::FromUtf8(String::from_utf8(vec![0xff]).unwrap_err()), "utf".into()),
    }
}
fn query(i: usize, m: &str) -> (String, QueryError, String) {
    let s = m.to_string(); let t = m.to_string();
    match i {
        0 => ("Internal".into(), QueryError::Internal(s), t), 1 => ("Plan".into(), QueryError::Plan(s), t), 2 => ("Execution".into(), QueryError::Execution(s), t), 3 => ("Unimplemented".into(), QueryError::Unimplemented(s), t),
        4 => ("Other".into(), QueryError::Other(anyhow::anyhow!(s)), t), 5 => ("Store".into(), QueryError::Store(storage::error::StoreError::Internal(s)), t), 6 => ("DataFusion".into(), QueryError::DataFusion(datafusion_common::DataFusionError::Plan(s)), t),
        7 => ("Common".into(), QueryError::Common(CommonError::BadRequest(s)), String::new()), n => { let (v, e, t) = metadata(n - 8, m); (format!("Metadata.{v}"), QueryError::Metadata(e), t) }
    }
}
fn platform(i: usize, m: &str) -> Option<(String, PlatformError, String, Vec<(String, String)>)> {
    let s = m.to_string(); let t = m.to_string(); let p = |v: &str, e| Some((v.to_string(), e, t.clone(), vec![]));
    match i {
        0 => p("BadRequest", PlatformError::BadRequest(s)), 1 => p("Unimplemented", PlatformError::Unimplemented(s)), 2 => p("AlreadyExists", PlatformError::AlreadyExists(s)), 3 => p("Unauthorized", PlatformError::Unauthorized(s)),
        4 => p("Forbidden", PlatformError::Forbidden(s)), 5 => p("NotFound", PlatformError::NotFound(s)), 6 => p("Internal", PlatformError::Internal(s)), 7 => p("EntityMap", PlatformError::EntityMap(s)),
        8 => p("Other", PlatformError::Other(anyhow::anyhow!(s))), 9 => Some(("Serde".into(), PlatformError::Serde(serde_err()), "expected".into(), vec![])),
        10 => Some(("PasswordHash".into(), PlatformError::PasswordHash(password_hash::Error::Password), String::new(), vec![])),
        11 => Some(("JSONWebToken".into(), PlatformError::JSONWebToken(jsonwebtoken::errors::ErrorKind::InvalidToken.into()), String::new(), vec![])),
        12 => Some(("Decimal".into(), PlatformError::Decimal("x".parse::<rust_decimal::Decimal>().unwrap_err()), String::new(), vec![])),
        13 => Some(("Common.DataFusion".into(), PlatformError::Common(CommonError::DataFusionError(datafusion_common::DataFusionError::Plan(s))), t, vec![])),
        14 => Some(("Common.EntityMapping".into(), PlatformError::Common(CommonError::EntityMapping), String::new(), vec![])),
        15 => p("Common.BadRequest", PlatformError::Common(CommonError::BadRequest(s))), 16 => p("Common.General", PlatformError::Common(CommonError::General(s))),
        17 => Some(("Common.Serde".into(), PlatformError::Common(CommonError::Serde(serde_err())), "expected".into(), vec![])),
        18 => Some(("Auth.InvalidCredentials".into(), AuthError::InvalidCredentials.into(), "invalid credentials".into(), vec![])), 19 => Some(("Auth.InvalidRefreshToken".into(), AuthError::InvalidRefreshToken.into(), "refresh".into(), vec![])),
        20 => Some(("Auth.InvalidPasswordHashing".into(), AuthError::InvalidPasswordHashing.into(), "hashing".into(), vec![])), 21 => Some(("Auth.CantMakeAccessToken".into(), AuthError::CantMakeAccessToken.into(), "access".into(), vec![])),
        22 => Some(("Auth.CantMakeRefreshToken".into(), AuthError::CantMakeRefreshToken.into(), "refresh".into(), vec![])), 23 => Some(("Auth.CantParseBearerHeader".into(), AuthError::CantParseBearerHeader.into(), "bearer".into(), vec![])),
        24 => Some(("Auth.CantParseAccessToken".into(), AuthError::CantParseAccessToken.into(), "access".into(), vec![])),
        25 => Some(("InvalidFields".into(), PlatformError::InvalidFields([(s.clone(), "why".to_string()), ("b".to_string(), s.clone())].into_iter().collect()), String::new(), [(s.clone(), "why".to_string()), ("b".to_string(), s)].into_iter().collect::<std::collections::BTreeMap<_, _>>().into_iter().collect())),
        26 => Some(("InvalidFields".into(), PlatformError::invalid_field(m, "why"), String::new(), vec![(s, "why".to_string())])),
        27..=35 => { let (v, e, t) = metadata(i - 27, m); Some((format!("Metadata.{v}"), PlatformError::Metadata(e), t, vec![])) }
        36..=52 => { let (v, e, t) = query(i - 36, m); Some((format!("Query.{v}"), PlatformError::Query(e), t, vec![])) }
        _ => None,
    }
}
pub fn c06(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0xC06); let mut o = Out::new(&a.dir, "tracelayer.ndjson");
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let texts = ["no such thing", "a", "event 5 of \"x\" is missing", "ключ", "100%"];
    for round in 0..if a.thorough { 40 } else { 4 } {
        for i in 0.. { let m = if round == 0 { "no such thing".to_string() } else { format!("{}{}", rng.pick(&texts[..4]), rng.below(1000)) };
            let Some((v, e, t, f)) = platform(i, &m) else { break };
            show(&mut o, "platform", &v, &t.replace('"', ""), 0, &f, if t.contains('"') { continue } else { e.into_response() }, &rt);
            // wrapped: the outer failure is the one told
            let inner = platform(rng.below(53) as usize, "inner").unwrap().1;
            let (v, e, t, f) = platform(i, &m).unwrap();
            let depth = 1 + rng.below(3) as usize; let mut w = inner.wrap_into(e);
            for _ in 1..depth { w = platform(rng.below(53) as usize, "in between").unwrap().1.wrap_into(w) }
            show(&mut o, "platform", &v, &t, depth, &f, w.into_response(), &rt);
        }
        for i in 0..9 { let (v, e, t) = metadata(i, "no such thing"); show(&mut o, "ingester", &format!("Metadata.{v}"), &t, 0, &[], IngesterError::Metadata(e).into_response(), &rt); }
        for (v, e, t) in [("Internal", IngesterError::Internal("tt".into()), "tt"), ("BadRequest", IngesterError::BadRequest("tt".into()), "tt"), ("Store", IngesterError::Store(storage::error::StoreError::Internal("tt".into())), "tt"), ("Serde", IngesterError::Serde(serde_err()), "expected")] { show(&mut o, "ingester", v, t, 0, &[], e.into_response(), &rt); }
    }
}
