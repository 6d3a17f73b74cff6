//! The whole platform behind its real HTTP router, over in-memory metadata and a scratch store.
use crate::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use axum::body::Body;
use axum::http::Request;
use axum::Router;
use common::config::Config;
use metadata::MetadataProvider;
use storage::db::{OptiDBImpl, Options};
use storage::table::Options as TableOptions;
use tower::ServiceExt;

pub struct App { pub router: Router, pub md: Arc<MetadataProvider>, pub tdb: Arc<rocksdb::TransactionDB>, pub db: Arc<OptiDBImpl>, pub rt: tokio::runtime::Runtime }
pub struct Reply { pub st: u16, pub body: Value, pub cookie: Option<String> }
static N: AtomicUsize = AtomicUsize::new(0);
pub fn store(dir: &str) -> Arc<OptiDBImpl> {
    let d = format!("{dir}/opti-{}", N.fetch_add(1, Ordering::SeqCst));
    let db = Arc::new(OptiDBImpl::open(d.into(), Options {}).unwrap());
    let mut ev = TableOptions::test(false); ev.index_cols = 2; ev.max_log_length_bytes = 1 << 30;
    db.create_table(common::types::TABLE_EVENTS.to_string(), ev).unwrap();
    for i in 0..common::GROUPS_COUNT { let mut g = TableOptions::test(true); g.index_cols = 3; g.max_log_length_bytes = 1 << 30; db.create_table(common::group_col(i), g).unwrap(); }
    std::mem::forget(db.clone());
    db
}
pub fn cfg() -> Config { let mut c = Config::default(); c.auth.access_token_duration = chrono::Duration::days(2); c.auth.refresh_token_duration = chrono::Duration::days(9); c.misc.project_default_session_duration = chrono::Duration::minutes(30); c }
pub fn settings() -> metadata::settings::Settings { metadata::settings::Settings { auth_access_token: "ak0".into(), auth_refresh_token: "rk0".into(), backup_enabled: true, ..Default::default() } }
impl App {
    pub fn new(db: &Arc<OptiDBImpl>) -> App {
        let tdb = Arc::new(metadata::rocksdb::new(format!("plat-{}", N.fetch_add(1, Ordering::SeqCst))).unwrap());
        let app = App::again(db, tdb);
        app.md.settings.save(&settings()).unwrap();
        app
    }
    /// a process over metadata that are there already
    pub fn again(db: &Arc<OptiDBImpl>, tdb: Arc<rocksdb::TransactionDB>) -> App {
        let md = Arc::new(MetadataProvider::try_new(tdb.clone(), db.clone()).unwrap());
        let pp = Arc::new(platform::PlatformProvider::new(md.clone(), Arc::new(query::event_segmentation::EventSegmentationProvider::new(md.clone(), db.clone())), Arc::new(query::funnel::FunnelProvider::new(md.clone(), db.clone())), Arc::new(query::properties::PropertiesProvider::new(md.clone(), db.clone())), Arc::new(query::event_records::EventRecordsProvider::new(md.clone(), db.clone())), Arc::new(query::group_records::GroupRecordsProvider::new(md.clone(), db.clone())), cfg()));
        let router = platform::http::attach_routes(Router::new(), &md, &pp, cfg());
        App { router, md, tdb, db: db.clone(), rt: tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }
    }
    pub fn token(&self, acc: u64, org: u64) -> String { platform::auth::token::make_access_token(acc, org, chrono::Duration::days(1), self.md.settings.load().unwrap().auth_access_token).unwrap() }
    pub fn send(&self, method: &str, path: &str, bearer: Option<&str>, cookies: &[(&str, &str)], body: Option<Value>) -> Reply {
        let mut rq = Request::builder().method(method).uri(path);
        if let Some(b) = bearer { rq = rq.header("authorization", format!("Bearer {b}")); }
        if !cookies.is_empty() { rq = rq.header("cookie", cookies.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join("; ")); }
        let rq = match body { Some(b) => rq.header("content-type", "application/json").body(Body::from(b.to_string())), None => rq.body(Body::empty()) }.unwrap();
        let r = guard(|| self.rt.block_on(async {
            use http_body_util::BodyExt;
            let resp = self.router.clone().oneshot(rq).await.unwrap();
            let st = resp.status().as_u16();
            let cookie = resp.headers().get_all("set-cookie").iter().filter_map(|v| v.to_str().ok()).find_map(|c| c.strip_prefix("refresh_token=").map(|c| c.split(';').next().unwrap_or("").to_string()));
            let b = resp.into_body().collect().await.unwrap().to_bytes();
            Reply { st, body: serde_json::from_slice(&b).unwrap_or(json!({"text": String::from_utf8_lossy(&b)})), cookie }
        }));
        r.unwrap_or_else(|p| Reply { st: 0, body: json!({"panic": p}), cookie: None })
    }
    pub fn digest(&self) -> u64 { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); self.tdb.vp_dump().hash(&mut h); h.finish() }
}
