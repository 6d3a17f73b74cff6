//! M02 (dictionaries), M03 (groups and users), M04 (sessions)
use crate::*;
use std::collections::HashMap;
use std::sync::Mutex;
use metadata::groups::{GroupValues, PropertyValue, Value as V};

type Job = Box<dyn FnOnce() -> Value + Send>;
/// one operation with its arguments as recorded, run on a provider
pub struct Do { pub line: Value, pub run: Arc<dyn Fn(&MetadataProvider) -> Value + Send + Sync> }
impl Do {
    pub fn new(line: Value, run: impl Fn(&MetadataProvider) -> Result<Value, MetadataError> + Send + Sync + 'static) -> Do { Do { line, run: Arc::new(move |md| call(|| run(md))) } }
    fn raw(line: Value, run: impl Fn(&MetadataProvider) -> Value + Send + Sync + 'static) -> Do { Do { line, run: Arc::new(run) } }
}
fn with(mut l: Value, fail: bool, r: Value) -> Value {
    let o = l.as_object_mut().unwrap(); o.insert("fail".into(), json!(fail));
    let mut r = r; if let Some(x) = r.as_object_mut().unwrap().remove("x") { o.insert("x".into(), x); }
    if let Some(w) = o.remove("wrap") { // results of other shapes
        let _ = w; }
    o.insert("r".into(), r); l
}
/// one step: a single call (its commit sometimes fails), concurrent calls, or a reopen
pub fn step(rng: &mut Rng, env: &mut Env, out: &mut Out, fails: bool, mut make: impl FnMut(&mut Rng) -> Do) {
    match rng.below(24) {
        0 => env.reopen(),
        1..=7 => {
            let n = if rng.chance(1, 4) { 3 } else { 2 };
            let ops: Vec<Do> = (0..n).map(|_| make(rng)).collect();
            let jobs: Vec<Job> = ops.iter().map(|d| { let (md, f) = (env.md.clone(), d.run.clone()); Box::new(move || f(&md)) as Job }).collect();
            let rs = par(rng, jobs);
            out.put(json!({"k": "par", "ops": ops.into_iter().zip(rs).map(|(d, r)| with(d.line, false, r)).collect::<Vec<_>>()}));
        }
        _ => {
            let d = make(rng); let fail = fails && rng.chance(1, 12);
            if fail { rocksdb::ctl::fail_commit(1) }
            let r = (d.run)(&env.md); rocksdb::ctl::fail_commit(0);
            out.put(with(d.line, fail, r));
        }
    }
}

pub fn m02(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 2); let od = opti(&a.dir);
    let (episodes, steps, files) = if a.thorough { (800, 80, 8) } else { (60, 45, 4) };
    let tables = ["events", "group_0", "group_1", "group_10"]; let dicts = ["e_string_0", "e_string_1", "string_0", "session_id"];
    let words: Vec<String> = ["", "a", "A", "b", "a/b", "keys/1", "values/a", "1", "2", "é", "e\u{301}", " a", "a\u{0}", "/", "id_seq"].iter().map(|s| s.to_string()).chain([String::from("x").repeat(300)]).collect();
    for f in 0..files {
        let mut out = Out::new(&a.dir, &format!("trace{f}.ndjson"));
        for epi in 0..episodes / files {
            let mut env = Env::new(&od); out.put(json!({"k": "reset"}));
            // few columns in half of the episodes, so that calls meet
            let few = epi % 2 == 0;
            for _ in 0..steps {
                step(&mut rng, &mut env, &mut out, true, |rng| {
                    let p = if few { *rng.pick(&[1u64, 2]) } else { *rng.pick(&[1u64, 11, 2]) };
                    let t = if few { tables[0] } else { *rng.pick(&tables) }; let d = if few { *rng.pick(&dicts[..2]) } else { *rng.pick(&dicts) };
                    let s = if few { words[rng.below(6) as usize].clone() } else { rng.pick(&words).clone() };
                    let key = 1 + rng.below(if few { 5 } else { 9 });
                    match rng.below(9) {
                        0..=4 => { let s2 = s.clone(); Do::new(json!({"k": "op", "a": "enc", "p": p, "t": t, "d": d, "s": s, "key": 0}), move |md| Ok(json!(md.dictionaries.get_key_or_create(p, t, d, &s2)?))) }
                        5 => { let s2 = s.clone(); Do::new(json!({"k": "op", "a": "enc", "p": p, "t": t, "d": d, "s": s, "key": 0}), move |md| Ok(json!(metadata::dictionaries::SingleDictionaryProvider::new(p, t.into(), d.into(), md.dictionaries.clone()).get_key_or_create(&s2)?))) }
                        6 => { let s2 = s.clone(); Do::new(json!({"k": "op", "a": "key", "p": p, "t": t, "d": d, "s": s, "key": 0}), move |md| Ok(json!(md.dictionaries.get_key(p, t, d, &s2)?))) }
                        7 => Do::new(json!({"k": "op", "a": "val", "p": p, "t": t, "d": d, "s": "", "key": key}), move |md| Ok(json!(md.dictionaries.get_value(p, t, d, key)?))),
                        _ => Do::new(json!({"k": "op", "a": "val", "p": p, "t": t, "d": d, "s": "", "key": key}), move |md| Ok(json!(metadata::dictionaries::SingleDictionaryProvider::new(p, t.into(), d.into(), md.dictionaries.clone()).get_value(key)?))),
                    }
                });
            }
            // everything that can be decoded, once more, after a restart
            env.reopen();
            for p in [1u64, 2, 11] { for t in if few { &tables[..1] } else { &tables[..] } { for d in if few { &dicts[..2] } else { &dicts[..] } { for key in 0..8u64 {
                let r = call(|| Ok(json!(env.md.dictionaries.get_value(p, t, d, key)?)));
                if r["e"] == "ok" || key < 2 { out.put(json!({"k": "op", "a": "val", "p": p, "t": t, "d": d, "s": "", "key": key, "fail": false, "r": r})); }
            } } } }
        }
    }
}

fn gv(g: GroupValues) -> Value { json!({"id": g.id, "vals": g.values.iter().map(|v| json!([v.property_id, format!("{:?}", v.value)])).collect::<Vec<_>>()}) }
fn vals(rng: &mut Rng) -> Vec<PropertyValue> {
    let mut ids: Vec<u64> = (1..6).collect(); rng.shuffle(&mut ids);
    ids.truncate(rng.below(4) as usize);
    ids.into_iter().map(|property_id| PropertyValue { property_id, value: match rng.below(14) {
        0 => V::Null, 1 => V::Int8(Some(-128)), 2 => V::Int16(Some(-1)), 3 => V::Int32(Some(i32::MIN)), 4 => V::Int64(Some(i64::MIN)), 5 => V::Int64(Some(i64::MAX)), 6 => V::Boolean(Some(rng.chance(1, 2))),
        7 => V::Timestamp(Some(-1)), 8 => V::Decimal(Some(i128::MIN)), 9 => V::Decimal(Some(-5)), 10 => V::String(Some(String::new())), 11 => V::String(Some("é".into())), n => V::String(Some(format!("v{n}{}", rng.below(3)))) } }).collect()
}
fn jv(v: &[PropertyValue]) -> Value { Value::Array(v.iter().map(|v| json!([v.property_id, format!("{:?}", v.value)])).collect()) }
pub fn m03(a: &Args) {
    let mut rng = Rng::new(a.seed ^ 3); let od = opti(&a.dir);
    let (episodes, steps, files) = if a.thorough { (800, 70, 8) } else { (64, 40, 4) };
    for f in 0..files {
        let mut out = Out::new(&a.dir, &format!("trace{f}.ndjson"));
        for epi in 0..episodes / files {
            let mut env = Env::new(&od); out.put(json!({"k": "reset"}));
            let few = epi % 2 == 0;
            for _ in 0..steps {
                step(&mut rng, &mut env, &mut out, true, |rng| {
                    let p = if few { 1 } else { *rng.pick(&[1u64, 11, 2]) }; let g = if few { 0 } else { rng.below(3) };
                    // the same text serves as user and as anonymous id
                    let names = ["u1", "u2", "d1", "u1/x", "10", ""]; let n = if few { 3 } else { 6 };
                    let k = *rng.pick(&names[..n]); let anon = *rng.pick(&names[..n]); let v = vals(rng);
                    match rng.below(12) {
                        0..=1 => Do::new(json!({"k": "op", "a": "anon", "p": p, "g": g, "u": anon}), move |md| Ok(json!(md.groups.get_or_create_anonymous_id(p, g, anon)?))),
                        2..=4 => { let j = jv(&v); Do::new(json!({"k": "op", "a": "merge", "p": p, "g": g, "u": k, "anon": anon, "vals": j}), move |md| Ok(gv(md.groups.merge_with_anonymous(p, g, anon, k, v.clone())?))) }
                        5..=6 => { let j = jv(&v); Do::new(json!({"k": "op", "a": "goc", "p": p, "g": g, "u": k, "vals": j}), move |md| Ok(gv(md.groups.get_or_create(p, g, k, v.clone())?))) }
                        7..=9 => { let j = jv(&v); Do::new(json!({"k": "op", "a": "upd", "p": p, "g": g, "u": k, "vals": j}), move |md| Ok(gv(md.groups.create_or_update(p, g, k, v.clone())?))) }
                        10 => Do::new(json!({"k": "op", "a": "ver", "p": p, "g": g}), move |md| Ok(json!(md.groups.next_record_sequence(p, g)?))),
                        _ => { let n = *rng.pick(&["user", "company", "c/d", "e", "f", "g", "h"]); let dn = format!("D{}", rng.below(2)); let d2 = dn.clone();
                            Do::new(json!({"k": "op", "a": "grp", "p": p, "n": n, "dn": dn}), move |md| { let g = md.groups.get_or_create_group(p, n.into(), d2.clone())?; Ok(json!({"id": g.id, "name": g.name, "dn": g.display_name})) }) }
                    }
                });
                if rng.chance(1, 6) { let p = if few { 1 } else { *rng.pick(&[1u64, 11, 2]) }; let r = call(|| Ok(Value::Array(env.md.groups.list_groups(p)?.data.into_iter().map(|g| json!({"id": g.id, "name": g.name, "dn": g.display_name})).collect()))); out.put(json!({"k": "groups", "p": p, "e": r["e"], "list": r.get("o").cloned().unwrap_or(json!([]))})); }
            }
        }
    }
}

pub fn m04(a: &Args) {
    use chrono::DateTime;
    let mut rng = Rng::new(a.seed ^ 4); let od = opti(&a.dir);
    let (episodes, steps, files) = if a.thorough { (800, 70, 8) } else { (64, 45, 4) };
    for f in 0..files {
        let mut out = Out::new(&a.dir, &format!("trace{f}.ndjson"));
        for epi in 0..episodes / files {
            let mut env = Env::new(&od); out.put(json!({"k": "reset"}));
            let few = epi % 2 == 0; let mut clock = 1_700_000_000i64;
            for _ in 0..steps {
                let touched: Mutex<HashMap<u64, ()>> = Default::default();
                step(&mut rng, &mut env, &mut out, true, |rng| {
                    let p = if few { *rng.pick(&[1u64, 1, 2]) } else { *rng.pick(&[1u64, 11, 2]) };
                    let u = if few { 1 + rng.below(2) } else { *rng.pick(&[1u64, 2, 11, 12, 20]) };
                    clock += rng.range(-3, 12);
                    touched.lock().unwrap().insert(u, ());
                    match rng.below(10) {
                        0..=4 => { let t = clock; let ms = rng.below(1000) as u32; Do::new(json!({"k": "op", "a": "act", "p": p, "u": u, "t": t - 1_700_000_000}), move |md| Ok(json!(md.sessions.set_current_time(p, u, DateTime::from_timestamp(t, ms * 1_000_000).unwrap())?))) }
                        5..=7 => {
                            let cut = clock - rng.range(0, 25); let err = rng.chance(1, 10);
                            Do::raw(json!({"k": "op", "a": "sweep", "p": p, "cut": cut - 1_700_000_000, "err": err}), move |md| {
                                let seen = Mutex::new(vec![]);
                                let mut r = call(|| { md.sessions.check_for_deletion(p, |s| { let t = s.created_at.timestamp(); seen.lock().unwrap().push(json!([s.user_id, t - 1_700_000_000])); if err && t < cut { Err(MetadataError::Internal("x".into())) } else { Ok(t < cut) } })?; Ok(json!(0)) });
                                r.as_object_mut().unwrap().insert("x".into(), Value::Array(seen.into_inner().unwrap())); r
                            })
                        }
                        8 => Do::new(json!({"k": "op", "a": "get", "p": p, "u": u}), move |md| { let s = md.sessions.get_by_user_id(p, u)?; Ok(json!([s.user_id, s.created_at.timestamp() - 1_700_000_000])) }),
                        _ => if rng.chance(1, 4) { Do::new(json!({"k": "op", "a": "clear", "p": p}), move |md| { md.sessions.clear_project(p)?; Ok(json!(0)) }) } else { Do::new(json!({"k": "op", "a": "get", "p": p, "u": u}), move |md| { let s = md.sessions.get_by_user_id(p, u)?; Ok(json!([s.user_id, s.created_at.timestamp() - 1_700_000_000])) }) },
                    }
                });
                for u in touched.into_inner().unwrap().keys() { for p in [1u64, 2] { let r = call(|| { let s = env.md.sessions.get_by_user_id(p, *u)?; Ok(json!([s.user_id, s.created_at.timestamp() - 1_700_000_000])) }); out.put(json!({"k": "op", "a": "get", "p": p, "u": u, "fail": false, "r": r})); } }
            }
        }
    }
}
