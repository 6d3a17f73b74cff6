//! Drives the real platform crate: its permission checks, its HTTP routes, its tokens.
use drvlib::*;
mod access;
mod app;
mod errors;
mod ingest;
mod analytics;
mod ask;
mod ops;
mod records;
mod saved;
mod tokens;
fn main() {
    quiet_panics();
    let a = args();
    match a.prop.as_str() {
        "C06" => errors::c06(&a), "C01" => access::c01(&a), "P01" => access::p01(&a), "P02" => tokens::p02(&a), "P03" => saved::p03(&a), "P04" => saved::p04(&a), "I01" | "I02" => ingest::run(&a), "Q03" | "Q04" => { ops::aggs(&a); if std::env::var("OPS").is_err() { analytics::run(&a) } } "Q01" | "Q06" => analytics::run(&a), "Q02" => ops::segments(&a), "Q05" => { ops::funnels(&a); if std::env::var("OPS").is_err() { analytics::funnels(&a) } } "Q07" => records::run(&a), "explore" => ask::explore(&a),
        p => { eprintln!("unknown property {p}"); std::process::exit(2) }
    }
    std::process::exit(0);
}
