//! M01 (ids and names), M05 (custom events), M07 (storage columns)
use crate::*;
use common::query::{EventRef, PropValueFilter, PropValueOperation, PropertyRef};
use common::types::{DType, OptionalProperty};
use datafusion_common::ScalarValue;
use metadata::{custom_events, dashboards, events, properties, reports};

#[derive(Clone, Debug)]
pub struct Op { pub a: &'static str, pub kind: &'static str, pub p: u64, pub id: u64, pub name: Option<String>, pub dn: Option<Option<String>>, pub prop: u64, pub q: u64, pub fail: bool }
impl Op {
    pub fn new(a: &'static str, kind: &'static str, p: u64) -> Op { Op { a, kind, p, id: 0, name: None, dn: None, prop: 0, q: 0, fail: false } }
    pub fn line(&self, r: Value) -> Value {
        json!({"k": "op", "a": self.a, "kind": self.kind, "p": self.p, "id": self.id, "setn": self.name.is_some(), "name": self.name.clone().unwrap_or_default(),
               "setd": self.dn.is_some(), "dn": self.dn.clone().flatten().unwrap_or_default(), "prop": self.prop, "q": qs(&query(self.q)), "fail": self.fail, "r": r})
    }
}
fn o(id: u64, p: u64, name: &str, dn: &Option<String>, ps: &Option<Vec<u64>>, q: String) -> Value { json!({"id": id, "p": p, "name": name, "dn": dn.clone().unwrap_or_default(), "ps": ps.clone().unwrap_or_default(), "q": q}) }
fn ev(e: &events::Event) -> Value { o(e.id, e.project_id, &e.name, &e.display_name, &e.event_properties, String::new()) }
fn pr(e: &properties::Property) -> Value { o(e.id, e.project_id, &e.name, &e.display_name, &None, String::new()) }
fn ce(e: &custom_events::CustomEvent) -> Value { o(e.id, e.project_id, &e.name, &None, &None, String::new()) }
fn da(e: &dashboards::Dashboard) -> Value { o(e.id, e.project_id, &e.name, &None, &None, String::new()) }
fn re(e: &reports::Report) -> Value { o(e.id, e.project_id, &e.name, &None, &None, qs(&e.query)) }
pub fn event_req(name: &str, dn: Option<String>) -> events::CreateEventRequest {
    events::CreateEventRequest { created_by: 1, tags: None, name: name.into(), display_name: dn, description: None, status: events::Status::Enabled, is_system: false, event_properties: None, user_properties: None, custom_properties: None }
}
pub fn prop_req(name: &str, dn: Option<String>, typ: properties::Type, dt: DType, dict: Option<properties::DictionaryType>, nullable: bool) -> properties::CreatePropertyRequest {
    properties::CreatePropertyRequest { created_by: 1, tags: None, name: name.into(), description: None, display_name: dn, typ, data_type: dt, status: properties::Status::Enabled, hidden: false, is_system: false, nullable, is_array: false, is_dictionary: dict.is_some(), dictionary_type: dict }
}
fn opt<T>(x: &Option<T>) -> OptionalProperty<T> where T: Clone { match x { Some(v) => OptionalProperty::Some(v.clone()), None => OptionalProperty::None } }
/// a few saved queries with filters over every stored value type
fn query(n: u64) -> reports::Query {
    use common::event_segmentation as es; use common::query::*;
    let vals: Vec<Option<Vec<ScalarValue>>> = vec![None, Some(vec![]), Some(vec![ScalarValue::Utf8(Some("a\"b".into())), ScalarValue::Utf8(None)]), Some(vec![ScalarValue::Decimal128(Some(-170141183460469231731687303715884105728), 28, 10)]),
        Some(vec![ScalarValue::Boolean(Some(true)), ScalarValue::Int8(Some(-128))]), Some(vec![ScalarValue::TimestampMillisecond(Some(-1), None)]), Some(vec![ScalarValue::Int64(Some(i64::MAX)), ScalarValue::Float64(Some(0.1))]), Some(vec![ScalarValue::Null])];
    let f = PropValueFilter::Property { property: match n % 3 { 0 => PropertyRef::Event("x".into()), 1 => PropertyRef::Group("y".into(), 2), _ => PropertyRef::Custom(7) }, operation: [PropValueOperation::Eq, PropValueOperation::NotLike, PropValueOperation::Gte, PropValueOperation::Empty][(n % 4) as usize].clone(), value: vals[(n % 8) as usize].clone() };
    reports::Query::EventSegmentation(es::EventSegmentationRequest {
        time: match n % 3 { 0 => QueryTime::Last { last: n as i64, unit: TimeIntervalUnit::Week }, 1 => QueryTime::From(chrono::DateTime::from_timestamp(n as i64, 0).unwrap()), _ => QueryTime::Between { from: chrono::DateTime::from_timestamp(-5, 0).unwrap(), to: chrono::DateTime::from_timestamp(n as i64, 5_000_000).unwrap() } },
        group_id: (n % 5) as usize, interval_unit: TimeIntervalUnit::Month, chart_type: es::ChartType::Column, analysis: es::Analysis::Linear, compare: if n % 2 == 0 { Some(es::Compare { offset: n as usize, unit: TimeIntervalUnit::Day }) } else { None },
        events: vec![es::Event::new(EventRef::RegularName("e".into()), Some(vec![f.clone()]), Some(vec![Breakdown::Property(PropertyRef::Event("b".into()))]), vec![es::NamedQuery::new(es::Query::CountEvents, Some("n".into()))])], filters: Some(vec![f]), breakdowns: None, segments: None })
}
fn qs(q: &reports::Query) -> String { format!("{q:?}") }
pub fn exec(md: &MetadataProvider, op: &Op) -> Value {
    let p = op.p; let name = op.name.clone().unwrap_or_default(); let dn = op.dn.clone().flatten();
    if op.fail { rocksdb::ctl::fail_commit(1) }
    let r = call(|| Ok(match (op.kind, op.a) {
        ("event", "create") => ev(&md.events.create(p, event_req(&name, dn))?),
        ("event", "getcreate") => ev(&md.events.get_or_create(p, event_req(&name, dn))?),
        ("event", "update") => ev(&md.events.update(p, op.id, events::UpdateEventRequest { updated_by: 1, name: opt(&op.name), display_name: opt(&op.dn), ..Default::default() })?),
        ("event", "delete") => ev(&md.events.delete(p, op.id)?),
        ("event", "attach") => ev(&md.events.attach_event_property(p, op.id, op.prop)?),
        ("event", "detach") => ev(&md.events.detach_event_property(p, op.id, op.prop)?),
        ("event", "tryattach") => { md.events.try_attach_properties(p, op.id, vec![op.prop, op.prop + 1])?; json!(0) }
        ("cevent", "create") => ce(&md.custom_events.create(p, custom_events::CreateCustomEventRequest { created_by: 1, tags: None, name, description: None, status: custom_events::Status::Enabled, is_system: false, events: vec![custom_events::Event { event: EventRef::RegularName("base".into()), filters: None }] })?),
        ("cevent", "update") => ce(&md.custom_events.update(p, op.id, custom_events::UpdateCustomEventRequest { updated_by: 1, name: opt(&op.name), ..Default::default() })?),
        ("cevent", "delete") => ce(&md.custom_events.delete(p, op.id)?),
        (k, a) if k.ends_with("prop") => {
            let (pp, t) = match k { "eprop" => (&md.event_properties, properties::Type::Event), "g0prop" => (&md.group_properties[0], properties::Type::Group(0)), _ => (&md.group_properties[1], properties::Type::Group(1)) };
            let dt = [DType::String, DType::Int64, DType::Decimal][(name.len() % 3) as usize].clone();
            match a {
                "create" => pr(&pp.create(p, prop_req(&name, dn, t, dt, None, true))?),
                "getcreate" => pr(&pp.get_or_create(p, prop_req(&name, dn, t, dt, None, true))?),
                "update" => pr(&pp.update(p, op.id, properties::UpdatePropertyRequest { updated_by: 1, name: opt(&op.name), display_name: opt(&op.dn), ..Default::default() })?),
                _ => pr(&pp.delete(p, op.id)?),
            }
        }
        ("report", "create") => re(&md.reports.create(p, reports::CreateReportRequest { created_by: 1, tags: None, name, description: None, typ: reports::Type::EventSegmentation, query: query(op.q) })?),
        ("report", "update") => re(&md.reports.update(p, op.id, reports::UpdateReportRequest { updated_by: 1, typ: OptionalProperty::None, name: opt(&op.name), description: OptionalProperty::None, tags: OptionalProperty::None, query: OptionalProperty::Some(query(op.q)) })?),
        ("report", "delete") => re(&md.reports.delete(p, op.id)?),
        ("dash", "create") => da(&md.dashboards.create(p, dashboards::CreateDashboardRequest { created_by: 1, tags: None, name, description: None, panels: vec![] })?),
        ("dash", "update") => da(&md.dashboards.update(p, op.id, dashboards::UpdateDashboardRequest { updated_by: 1, name: opt(&op.name), description: OptionalProperty::None, tags: OptionalProperty::None, panels: OptionalProperty::None })?),
        ("dash", "delete") => da(&md.dashboards.delete(p, op.id)?),
        x => panic!("driver: {x:?}"),
    }));
    rocksdb::ctl::fail_commit(0);
    r
}
pub fn list(md: &MetadataProvider, kind: &str, p: u64) -> Value {
    let r = call(|| Ok(Value::Array(match kind {
        "event" => md.events.list(p)?.data.iter().map(ev).collect(), "cevent" => md.custom_events.list(p)?.data.iter().map(ce).collect(), "eprop" => md.event_properties.list(p)?.data.iter().map(pr).collect(),
        "g0prop" => md.group_properties[0].list(p)?.data.iter().map(pr).collect(), "g1prop" => md.group_properties[1].list(p)?.data.iter().map(pr).collect(),
        "report" => md.reports.list(p)?.data.iter().map(re).collect(), _ => md.dashboards.list(p)?.data.iter().map(da).collect() })));
    if r["e"] == "ok" { r["o"].clone() } else { json!([{"id": -1, "e": r["e"]}]) }
}
fn by_id(md: &MetadataProvider, kind: &str, p: u64, id: u64) -> Value {
    call(|| Ok(match kind { "event" => ev(&md.events.get_by_id(p, id)?), "cevent" => ce(&md.custom_events.get_by_id(p, id)?), "eprop" => pr(&md.event_properties.get_by_id(p, id)?), "g0prop" => pr(&md.group_properties[0].get_by_id(p, id)?), "g1prop" => pr(&md.group_properties[1].get_by_id(p, id)?),
        "report" => re(&md.reports.get_by_id(p, id)?), _ => da(&md.dashboards.get_by_id(p, id)?) }))
}
fn by_name(md: &MetadataProvider, kind: &str, p: u64, n: &str) -> Value {
    call(|| Ok(match kind { "event" => ev(&md.events.get_by_name(p, n)?), "cevent" => ce(&md.custom_events.get_by_name(p, n)?), "eprop" => pr(&md.event_properties.get_by_name(p, n)?), "g0prop" => pr(&md.group_properties[0].get_by_name(p, n)?), _ => pr(&md.group_properties[1].get_by_name(p, n)?) }))
}
const KINDS: [&str; 7] = ["event", "cevent", "eprop", "g0prop", "g1prop", "report", "dash"];
const PROJECTS: [u64; 3] = [1, 11, 2];
fn probe(md: &MetadataProvider, kind: &str, p: u64, names: &[String], ids: &[u64]) -> Value {
    let named = !matches!(kind, "report" | "dash");
    json!({"k": "probe", "kind": kind, "p": p, "list": list(md, kind, p),
        "names": if named { names.iter().map(|n| json!([n, by_name(md, kind, p, n)])).collect::<Vec<_>>() } else { vec![] },
        "ids": ids.iter().map(|i| json!([i, by_id(md, kind, p, *i)])).collect::<Vec<_>>()})
}
pub fn m01(a: &Args) {
    let mut rng = Rng::new(a.seed); let od = opti(&a.dir);
    let episodes = if a.thorough { 900 } else { 60 };
    let files = if a.thorough { 8 } else { 4 };
    for f in 0..files {
        let mut out = Out::new(&a.dir, &format!("trace{f}.ndjson"));
        for epi in 0..episodes / files {
            let mut env = Env::new(&od);
            out.put(json!({"k": "reset"}));
            for p in PROJECTS { env.md.events.create(p, event_req("base", None)).unwrap(); out.put(json!({"k": "op", "a": "create", "kind": "event", "p": p, "id": 0, "setn": true, "name": "base", "setd": true, "dn": "", "prop": 0, "q": "", "fail": false, "r": call(|| Ok(ev(&env.md.events.get_by_name(p, "base")?)))})); }
            let nn = if epi % 4 == 3 { 16 } else { 4 };
            let names: Vec<String> = (0..nn).map(|i| match i { 0 => "a".into(), 1 => "b".into(), 2 => "a/b".into(), 3 => "A".into(), 4 => "X".into(), 5 => "10".into(), _ => format!("n{i}") }).collect();
            let dns: Vec<String> = ["X", "Y", "a", "Z z"].iter().map(|s| s.to_string()).collect();
            let kinds: Vec<&'static str> = if epi % 2 == 0 { KINDS.to_vec() } else { vec![*rng.pick(&KINDS)] };
            let mut ids: std::collections::HashMap<(u64, &str), Vec<u64>> = Default::default();
            let gen = |rng: &mut Rng, ids: &std::collections::HashMap<(u64, &str), Vec<u64>>, kind: &'static str, p: u64| -> Op {
                let named = !matches!(kind, "report" | "dash"); let hasdn = kind == "event" || kind.ends_with("prop");
                let acts: Vec<&'static str> = match kind { "event" => vec!["create", "create", "getcreate", "getcreate", "update", "update", "delete", "attach", "detach", "tryattach"], k if k.ends_with("prop") => vec!["create", "create", "getcreate", "update", "delete"], _ => vec!["create", "create", "update", "delete"] };
                let mut op = Op::new(*rng.pick(&acts), kind, p);
                let known = ids.get(&(p, kind)).cloned().unwrap_or_default();
                op.id = if op.a.contains("create") { 0 } else if known.is_empty() || rng.chance(1, 12) { rng.below(9) } else { *rng.pick(&known) };
                if op.a.contains("create") || (op.a == "update" && rng.chance(2, 3)) { op.name = Some(rng.pick(&names).clone()); }
                if hasdn && (op.a.contains("create") || (op.a == "update" && rng.chance(1, 2))) { op.dn = Some(if rng.chance(2, 5) { None } else { Some(rng.pick(&dns).clone()) }); }
                op.prop = 1 + rng.below(3); op.q = rng.below(40);
                let _ = named;
                op
            };
            let steps = if a.thorough { 60 } else { 30 };
            for _ in 0..steps {
                let kind = *rng.pick(&kinds); let p = if rng.chance(3, 5) { 1 } else { *rng.pick(&PROJECTS) };
                let note = |ids: &mut std::collections::HashMap<(u64, &str), Vec<u64>>, op: &Op, r: &Value| if r["e"] == "ok" && r["o"]["id"].is_u64() { let v = ids.entry((op.p, op.kind)).or_default(); let i = r["o"]["id"].as_u64().unwrap(); if !v.contains(&i) { v.push(i) } };
                match rng.below(12) {
                    0..=2 => {
                        let n = 2 + rng.below(2) as usize;
                        let ops: Vec<Op> = (0..n).map(|_| { let k = if rng.chance(3, 4) { kind } else { *rng.pick(&kinds) }; gen(&mut rng, &ids, k, p) }).collect();
                        let jobs: Vec<Box<dyn FnOnce() -> Value + Send>> = ops.iter().cloned().map(|o| { let md = env.md.clone(); Box::new(move || exec(&md, &o)) as Box<dyn FnOnce() -> Value + Send> }).collect();
                        let rs = par(&mut rng, jobs);
                        for (o, r) in ops.iter().zip(&rs) { note(&mut ids, o, r); }
                        out.put(json!({"k": "par", "ops": ops.iter().zip(rs).map(|(o, r)| o.line(r)).collect::<Vec<_>>()}));
                    }
                    3 => { env.reopen(); }
                    _ => {
                        let mut op = gen(&mut rng, &ids, kind, p);
                        op.fail = rng.chance(1, 10);
                        let r = exec(&env.md, &op);
                        note(&mut ids, &op, &r);
                        out.put(op.line(r));
                    }
                }
                let q = if rng.chance(3, 4) { p } else { *rng.pick(&PROJECTS) };
                let v = ids.get(&(q, kind)).cloned().unwrap_or_default();
                let probe_ids: Vec<u64> = v.iter().copied().chain([0, 1, 2, 99]).collect();
                let few: Vec<String> = if names.len() > 5 { (0..5).map(|_| rng.pick(&names).clone()).collect() } else { names.clone() };
                out.put(probe(&env.md, kind, q, &few, &probe_ids));
            }
            for k in &kinds { for p in PROJECTS { let v = ids.get(&(p, *k)).cloned().unwrap_or_default(); out.put(probe(&env.md, k, p, &names, &v)); } }
        }
    }
}

// ---------------------------------------------------------------------------------------------------
fn filters(n: u64) -> Option<Vec<PropValueFilter>> {
    if n == 0 { return None; }
    let ops = [PropValueOperation::Eq, PropValueOperation::Neq, PropValueOperation::Gt, PropValueOperation::Gte, PropValueOperation::Lt, PropValueOperation::Lte, PropValueOperation::True, PropValueOperation::False, PropValueOperation::Exists, PropValueOperation::Empty, PropValueOperation::Like, PropValueOperation::NotLike, PropValueOperation::Regex, PropValueOperation::NotRegex];
    let v = |n: u64| match n % 12 { 0 => ScalarValue::Utf8(Some("x y".into())), 1 => ScalarValue::Utf8(Some(String::new())), 2 => ScalarValue::Int8(Some(-128)), 3 => ScalarValue::Int16(Some(-32768)), 4 => ScalarValue::Int32(Some(i32::MIN)), 5 => ScalarValue::Int64(Some(i64::MIN)), 6 => ScalarValue::Int64(Some(0)),
        7 => ScalarValue::Decimal128(Some(-5), common::DECIMAL_PRECISION, common::DECIMAL_SCALE), 8 => ScalarValue::Boolean(Some(false)), 9 => ScalarValue::Boolean(Some(true)), 10 => ScalarValue::TimestampMillisecond(Some(0), None), _ => ScalarValue::TimestampMillisecond(Some(-1), None) };
    Some((0..1 + n % 3).map(|i| PropValueFilter::Property { property: match (n + i) % 3 { 0 => PropertyRef::Event("p".into()), 1 => PropertyRef::Group("g".into(), (n % 5) as usize), _ => PropertyRef::Custom(n) }, operation: ops[((n + i) % 14) as usize].clone(),
        value: if (n + i) % 5 == 4 { None } else { Some((0..1 + (n / 7) % 3).map(|j| v(n + i + j)).collect()) } }).collect())
}
/// no values and an empty list of values mean the same
fn fstr(f: &Option<Vec<PropValueFilter>>) -> String {
    format!("{:?}", f.iter().flatten().map(|PropValueFilter::Property { property, operation, value }| (property.clone(), operation.clone(), value.clone().unwrap_or_default())).collect::<Vec<_>>())
}
#[derive(Clone, Debug)]
struct CRef { t: &'static str, id: u64, n: String, f: u64 }
fn crefs(rs: &[CRef]) -> Vec<custom_events::Event> { rs.iter().map(|r| custom_events::Event { event: match r.t { "c" => EventRef::Custom(r.id), "r" => EventRef::Regular(r.id), _ => EventRef::RegularName(r.n.clone()) }, filters: filters(r.f) }).collect() }
fn jref(e: &custom_events::Event) -> Value { let (t, id, n) = match &e.event { EventRef::Custom(i) => ("c", *i, String::new()), EventRef::Regular(i) => ("r", *i, String::new()), EventRef::RegularName(n) => ("n", 0, n.clone()) }; json!({"t": t, "id": id, "n": n, "f": fstr(&e.filters)}) }
fn cd(e: &custom_events::CustomEvent) -> Value { json!({"id": e.id, "name": e.name, "refs": e.events.iter().map(jref).collect::<Vec<_>>()}) }
#[allow(non_upper_case_globals)]
pub fn m05(a: &Args) {
    const p: u64 = 1;
    let mut rng = Rng::new(a.seed ^ 5); let od = opti(&a.dir);
    let episodes = if a.thorough { 1600 } else { 120 }; let files = if a.thorough { 8 } else { 4 };
    for f in 0..files {
        let mut out = Out::new(&a.dir, &format!("trace{f}.ndjson"));
        for epi in 0..episodes / files {
            let mut env = Env::new(&od);
            out.put(json!({"k": "reset", "max": custom_events::MAX_EVENTS_LEVEL}));
            let mut ids: Vec<u64> = vec![]; let mut regs: Vec<u64> = vec![];
            for n in ["e1", "e2"] { let e = env.md.events.create(p, event_req(n, None)).unwrap(); regs.push(e.id); out.put(json!({"k": "reg", "id": e.id, "n": n})); }
            // other projects hold events and custom events of the same ids and names
            for n in ["e1", "e2", "e3"] { env.md.events.create(2, event_req(n, None)).unwrap(); }
            for n in ["x1", "x2"] { env.md.custom_events.create(2, custom_events::CreateCustomEventRequest { created_by: 1, tags: None, name: n.into(), description: None, status: custom_events::Status::Enabled, is_system: false, events: crefs(&[CRef { t: "n", id: 0, n: "e3".into(), f: 0 }]) }).unwrap(); }
            let mut names = 0;
            for step in 0..if a.thorough { 30 } else { 22 } {
                let gen_refs = |rng: &mut Rng, ids: &[u64]| -> Vec<CRef> {
                    let n = if rng.chance(1, 20) { 0 } else { 1 + rng.below(3) };
                    (0..n).map(|_| { let f = if rng.chance(1, 2) { 0 } else { rng.below(400) };
                        match rng.below(8) { 0 => CRef { t: "r", id: *rng.pick(&regs), n: String::new(), f }, 1 => CRef { t: "n", id: 0, n: (*rng.pick(&["e1", "e2", "e2", "e3"])).to_string(), f }, 2 => CRef { t: "r", id: 1 + rng.below(3), n: String::new(), f },
                            _ if !ids.is_empty() => CRef { t: "c", id: if rng.chance(1, 15) { 1 + rng.below(12) } else if rng.chance(2, 3) { ids[ids.len() - 1 - rng.below(ids.len().min(3) as u64) as usize] } else { *rng.pick(ids) }, n: String::new(), f },
                            _ => CRef { t: "n", id: 0, n: "e1".into(), f } } }).collect()
                };
                let create = |env: &Env, name: String, refs: &[CRef], fail: bool| { if fail { rocksdb::ctl::fail_commit(1) } let md = env.md.clone(); let evs = crefs(refs); let r = call(|| Ok(cd(&md.custom_events.create(p, custom_events::CreateCustomEventRequest { created_by: 1, tags: None, name, description: None, status: custom_events::Status::Enabled, is_system: false, events: evs })?))); rocksdb::ctl::fail_commit(0); r };
                let js = |refs: &[CRef]| crefs(refs).iter().map(jref).collect::<Vec<_>>();
                match rng.below(10) {
                    0..=4 => {
                        // chains are grown on purpose, so that the nesting limit is reached
                        let refs = if epi % 3 == 0 && !ids.is_empty() && rng.chance(2, 3) { vec![CRef { t: "c", id: *ids.last().unwrap(), n: String::new(), f: 0 }] } else { gen_refs(&mut rng, &ids) };
                        names += 1; let name = if rng.chance(1, 8) { format!("c{}", 1 + rng.below(names)) } else { format!("c{names}") };
                        let fail = rng.chance(1, 12);
                        let r = create(&env, name.clone(), &refs, fail);
                        if r["e"] == "ok" { ids.push(r["o"]["id"].as_u64().unwrap()) }
                        out.put(json!({"k": "create", "name": name, "refs": js(&refs), "fail": fail, "r": r}));
                    }
                    5..=7 if !ids.is_empty() => {
                        let id = if rng.chance(1, 15) { 99 } else { *rng.pick(&ids) }; let refs = gen_refs(&mut rng, &ids);
                        let upd = |md: &MetadataProvider, id: u64, refs: &[CRef]| call(|| Ok(cd(&md.custom_events.update(p, id, custom_events::UpdateCustomEventRequest { updated_by: 1, events: OptionalProperty::Some(crefs(refs)), ..Default::default() })?)));
                        if rng.chance(1, 3) && ids.len() > 1 {
                            let id2 = *rng.pick(&ids); let mut refs2 = gen_refs(&mut rng, &ids); let mut refs = refs;
                            if rng.chance(1, 2) { refs = vec![CRef { t: "c", id: id2, n: String::new(), f: 0 }]; refs2 = vec![CRef { t: "c", id, n: String::new(), f: 0 }]; }
                            let (m1, m2, r1, r2) = (env.md.clone(), env.md.clone(), refs.clone(), refs2.clone());
                            let rs = par(&mut rng, vec![Box::new(move || upd(&m1, id, &r1)), Box::new(move || upd(&m2, id2, &r2))]);
                            out.put(json!({"k": "par", "ops": [{"k": "update", "id": id, "refs": js(&refs), "fail": false, "r": rs[0]}, {"k": "update", "id": id2, "refs": js(&refs2), "fail": false, "r": rs[1]}]}));
                        } else {
                            let fail = rng.chance(1, 12);
                            if fail { rocksdb::ctl::fail_commit(1) }
                            let r = upd(&env.md, id, &refs); rocksdb::ctl::fail_commit(0);
                            out.put(json!({"k": "update", "id": id, "refs": js(&refs), "fail": fail, "r": r}));
                        }
                    }
                    8 if !ids.is_empty() && rng.chance(1, 2) => { let id = *rng.pick(&ids); let r = call(|| Ok(cd(&env.md.custom_events.delete(p, id)?))); out.put(json!({"k": "delete", "id": id, "r": r})); }
                    _ => { env.reopen(); }
                }
                if step % 2 == 1 || rng.chance(1, 3) {
                    let l = call(|| Ok(Value::Array(env.md.custom_events.list(p)?.data.iter().map(cd).collect())));
                    out.put(json!({"k": "list", "e": l["e"], "list": l.get("o").cloned().unwrap_or(json!([]))}));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------
fn dts() -> Vec<DType> { vec![DType::Int8, DType::Int16, DType::Int32, DType::Int64, DType::Boolean, DType::Timestamp, DType::Decimal, DType::String] }
fn pj(p: &properties::Property) -> Value { json!({"id": p.id, "name": p.name, "col": p.column_name(), "dt": format!("{:?}", p.data_type), "sdt": format!("{:?}", p.data_type()), "dict": p.dictionary_type.as_ref().map(|d| format!("{d:?}")).unwrap_or_default(), "sys": p.is_system, "nul": p.nullable}) }
pub fn m07(a: &Args) {
    use properties::{DictionaryType as D, Type as T};
    let mut rng = Rng::new(a.seed ^ 7);
    let episodes = if a.thorough { 160 } else { 20 }; let files = 4;
    for f in 0..files {
        let mut out = Out::new(&a.dir, &format!("trace{f}.ndjson"));
        for _ in 0..episodes / files {
            let od = opti(&a.dir); let mut env = Env::new(&od);
            out.put(json!({"k": "reset"}));
            let mut ids: Vec<(u64, usize, u64, String)> = vec![]; let mut n = 0;
            let pv = |md: &Arc<MetadataProvider>, g: usize| if g == 9 { md.event_properties.clone() } else { md.group_properties[g].clone() };
            for _ in 0..if a.thorough { 70 } else { 40 } {
                let g = *rng.pick(&[9usize, 9, 0, 1, 4]); let p = *rng.pick(&[1u64, 1, 1, 2]);
                match rng.below(10) {
                    0..=5 => {
                        let k = if rng.chance(1, 4) { 2 } else { 1 };
                        let mk = |rng: &mut Rng, n: &mut u64| {
                            let dict = if rng.chance(1, 3) { Some([D::Int8, D::Int16, D::Int32, D::Int64][rng.below(4) as usize].clone()) } else { None };
                            let dt = if dict.is_some() { DType::String } else { rng.pick(&dts()).clone() };
                            *n += 1;
                            let sys = rng.chance(1, 6);
                            // system properties are declared once per project with the same name and type everywhere
                            let (name, dt, dict) = if sys { let i = rng.below(3); let nm = ["Created At", "ID", "is Known"][i as usize]; (format!("{nm} {}", if g == 9 { "ev".to_string() } else { format!("g{g}") }), [DType::Timestamp, DType::Int64, DType::Boolean][i as usize].clone(), None) } else if rng.chance(1, 8) { (format!("p{}", 1 + rng.below(*n)), dt, dict) } else { (format!("p{n}"), dt, dict) };
                            let nul = sys || rng.chance(3, 4);
                            let mut q = prop_req(&name, None, if g == 9 { T::Event } else { T::Group(g) }, dt, dict, nul);
                            q.is_system = sys; q
                        };
                        let reqs: Vec<_> = (0..k).map(|_| mk(&mut rng, &mut n)).collect();
                        let fail = k == 1 && rng.chance(1, 12);
                        let goc = rng.chance(1, 2);
                        let run = move |md: Arc<MetadataProvider>, q: properties::CreatePropertyRequest| call(|| { let pp = pv(&md, g); Ok(pj(&if goc { pp.get_or_create(p, q)? } else { pp.create(p, q)? })) });
                        let rs = if k == 1 { if fail { rocksdb::ctl::fail_commit(1) } let r = run(env.md.clone(), reqs[0].clone()); rocksdb::ctl::fail_commit(0); vec![r] } else {
                            let jobs = reqs.iter().cloned().map(|q| { let md = env.md.clone(); Box::new(move || run(md, q)) as Box<dyn FnOnce() -> Value + Send> }).collect(); par(&mut rng, jobs) };
                        for r in &rs { if r["e"] == "ok" { ids.push((p, g, r["o"]["id"].as_u64().unwrap(), r["o"]["col"].as_str().unwrap().into())) } }
                        out.put(json!({"k": if k == 1 { "create" } else { "par" }, "g": g, "p": p, "goc": goc, "fail": fail, "reqs": reqs.iter().zip(&rs).map(|(q, r)| json!({"name": q.name, "dt": format!("{:?}", q.data_type), "dict": q.dictionary_type.as_ref().map(|d| format!("{d:?}")).unwrap_or_default(), "sys": q.is_system, "nul": q.nullable, "r": r})).collect::<Vec<_>>()}));
                    }
                    6 if !ids.is_empty() => { let (p, g, id, _) = rng.pick(&ids).clone(); let dn = rng.below(6);
                        let r = call(|| Ok(pj(&pv(&env.md, g).update(p, id, properties::UpdatePropertyRequest { updated_by: 1, name: OptionalProperty::Some("other".into()), display_name: OptionalProperty::Some(Some(format!("d{dn}"))), status: OptionalProperty::Some(properties::Status::Disabled), ..Default::default() })?)));
                        out.put(json!({"k": "update", "g": g, "p": p, "id": id, "r": r})); }
                    7 if !ids.is_empty() && rng.chance(1, 2) => { let (p, g, id, _) = rng.pick(&ids).clone(); let r = call(|| Ok(pj(&pv(&env.md, g).delete(p, id)?))); out.put(json!({"k": "delete", "g": g, "p": p, "id": id, "r": r})); }
                    _ => env.reopen(),
                }
                // lookups by name, id and column, and the columns of the tables
                let l = call(|| Ok(Value::Array(pv(&env.md, g).list(p)?.data.iter().map(pj).collect())));
                let look: Vec<Value> = (0..3).filter_map(|_| if ids.is_empty() { None } else { let (p, g, id, col) = rng.pick(&ids).clone(); let x = pv(&env.md, g); let i = call(|| Ok(pj(&x.get_by_id(p, id)?))); let nm = i["o"]["name"].as_str().unwrap_or("?").to_string();
                    Some(json!({"p": p, "g": g, "id": id, "byid": i, "byname": call(|| Ok(pj(&x.get_by_name(p, &nm)?))), "bycol": call(|| Ok(pj(&x.get_by_column_name(p, &col)?)))})) }).collect();
                out.put(json!({"k": "list", "g": g, "p": p, "e": l["e"], "list": l.get("o").cloned().unwrap_or(json!([])), "look": look}));
                if rng.chance(1, 4) {
                    let cols = |t: &str| env.opti.schema1(t).unwrap().fields.iter().map(|f| json!([f.name(), arrow_name(&f.data_type()), f.is_nullable()])).collect::<Vec<_>>();
                    out.put(json!({"k": "cols", "tables": [[9, cols(common::types::TABLE_EVENTS)], [0, cols("group_0")], [1, cols("group_1")], [4, cols("group_4")]]}));
                }
            }
        }
    }
}
fn arrow_name<T: std::fmt::Debug>(d: &T) -> String { format!("{d:?}") }
