use arrow2::datatypes as a2;
use arrow_schema::DataType as A1;
use chrono::{DateTime, Datelike, Timelike, Utc};
use common::query::*;
use common::types::*;
use drvlib::*;
use std::sync::Arc;

fn ts(days: i64, sec: i64, ns: u32) -> DateTime<Utc> { DateTime::from_timestamp(days * 86400 + sec, ns).unwrap() }
fn jt(t: DateTime<Utc>) -> Value {
    let s = t.timestamp();
    json!({"d": s.div_euclid(86400), "s": s.rem_euclid(86400), "n": t.timestamp_subsec_nanos()})
}
const UNITS: [TimeIntervalUnit; 5] = [TimeIntervalUnit::Hour, TimeIntervalUnit::Day, TimeIntervalUnit::Week, TimeIntervalUnit::Month, TimeIntervalUnit::Year];

/// interesting calendar days: around month ends, leap days, year ends, epoch, plus random
fn days(r: &mut Rng, n: usize) -> Vec<i64> {
    let mut v = vec![];
    for y in [1969, 1970, 1972, 1999, 2000, 2001, 2019, 2020, 2021, 2023, 2024, 2025, 2100] {
        for (m, d) in [(1, 1), (1, 29), (1, 30), (1, 31), (2, 27), (2, 28), (3, 1), (3, 31), (4, 30), (5, 31), (6, 30), (8, 31), (9, 30), (10, 31), (11, 30), (12, 30), (12, 31)] {
            v.push(chrono::NaiveDate::from_ymd_opt(y, m, d).unwrap().num_days_from_ce() as i64 - 719163);
        }
        if let Some(d) = chrono::NaiveDate::from_ymd_opt(y, 2, 29) { v.push(d.num_days_from_ce() as i64 - 719163); }
    }
    for _ in 0..n { v.push(r.range(-3000, 60000)); }
    v
}
fn secs(r: &mut Rng) -> (i64, u32) {
    match r.below(6) { 0 => (0, 0), 1 => (86399, 999_000_000), 2 => (3599, 999_999_999), 3 => (3600 * r.range(0, 23), 0), 4 => (3600 * r.range(0, 23) + 1, 1), _ => (r.range(0, 86399), (r.below(1000) * 1_000_000) as u32) }
}

fn c02(a: &Args) {
    let mut r = Rng::new(a.seed); let mut o = Out::new(&a.dir, "trace.ndjson");
    let ds = days(&mut r, if a.thorough { 4000 } else { 150 });
    for d in &ds {
        for u in &UNITS {
            for k in 0..3 {
                let n = match k { 0 => r.range(0, 3), 1 => r.range(0, 40), _ => r.range(-30, 500) };
                let (s, ns) = secs(&mut r);
                let cur = ts(*d, s, ns);
                let q = QueryTime::Last { last: n, unit: u.clone() };
                let res = guard(|| q.range(cur));
                o.put(match res { Ok((f, t)) => json!({"k": "last", "unit": u.as_str(), "n": n, "cur": jt(cur), "from": jt(f), "to": jt(t)}), Err(e) => json!({"k":"last","unit":u.as_str(),"n":n,"cur":jt(cur),"panic":e}) });
            }
        }
        let (s, ns) = secs(&mut r); let cur = ts(*d, s, ns);
        let f = ts(*d - r.range(-400, 800), r.range(0, 86399), 0); let t = ts(*d + r.range(-400, 800), r.range(0, 86399), 5_000_000);
        let (x, y) = QueryTime::Between { from: f, to: t }.range(cur);
        o.put(json!({"k":"between","f":jt(f),"t":jt(t),"cur":jt(cur),"from":jt(x),"to":jt(y)}));
        let (x, y) = QueryTime::From(f).range(cur);
        o.put(json!({"k":"from","f":jt(f),"cur":jt(cur),"from":jt(x),"to":jt(y)}));
    }
    let nn: Vec<i64> = (0..60).chain((0..100).map(|_| r.range(0, 1500))).collect();
    for u in &UNITS { for n in &nn {
        let dur = u.duration(*n);
        o.put(json!({"k":"dur","unit":u.as_str(),"n":n,"ds":dur.num_seconds()/86400,"ss":dur.num_seconds()%86400,"frac":dur.subsec_nanos()}));
        let segs = [("each", SegmentTime::Each { n: *n, unit: u.clone() }), ("last", SegmentTime::Last { n: *n, unit: u.clone() }),
            ("first", SegmentTime::AfterFirstUse { within: *n, unit: u.clone() }), ("from", SegmentTime::From(ts(*n, 0, 0))), ("between", SegmentTime::Between { from: ts(0, 0, 0), to: ts(*n, 0, 0) })];
        for (k, sg) in segs { let w = sg.try_window();
            o.put(json!({"k":"win","seg":k,"unit":u.as_str(),"n":n,"has":w.is_some(),"ds":w.unwrap_or(0)/86_400_000,"ms":w.unwrap_or(0)%86_400_000})); }
        let rd = ts(10957, 3661, 0) + u.relative_duration(*n);
        o.put(json!({"k":"plus","unit":u.as_str(),"n":n,"cur":jt(ts(10957,3661,0)),"to":jt(rd)}));
    }}
    use common::funnel::TimeIntervalUnitSession as S;
    for (nm, u) in [("hour", S::Hour), ("day", S::Day), ("week", S::Week), ("month", S::Month), ("year", S::Year)] { for n in &nn {
        let dur = u.duration(*n);
        o.put(json!({"k":"dur","unit":nm,"n":n,"ds":dur.num_seconds()/86400,"ss":dur.num_seconds()%86400,"frac":dur.subsec_nanos()}));
        let cur = ts(11382 + *n, 7, 0);
        o.put(json!({"k":"plus","unit":nm,"n":n,"cur":jt(cur),"to":jt(cur + u.relative_duration(*n))}));
        o.put(json!({"k":"uname","unit":nm,"name":u.as_str()}));
    }}
    for (nm, u) in ["hour", "day", "week", "month", "year"].iter().zip(UNITS.iter()) { o.put(json!({"k":"uname","unit":nm,"name":u.as_str()})); }
}

fn c03(a: &Args) {
    let mut r = Rng::new(a.seed); let mut o = Out::new(&a.dir, "trace.ndjson");
    for d in days(&mut r, if a.thorough { 4000 } else { 150 }) {
        for u in &UNITS {
            let (s, ns) = secs(&mut r);
            let t = ts(d, s, ns);
            match guard(|| date_trunc(u, t).unwrap()) {
                Ok(x) => o.put(json!({"k":"trunc","unit":u.as_str(),"t":jt(t),"r":jt(x)})),
                Err(e) => o.put(json!({"k":"trunc","unit":u.as_str(),"t":jt(t),"panic":e})),
            }
            let span = match u { TimeIntervalUnit::Hour => r.range(0, 3600 * 30), TimeIntervalUnit::Day => r.range(0, 86400 * 20), TimeIntervalUnit::Week => r.range(0, 86400 * 80), TimeIntervalUnit::Month => r.range(0, 86400 * 420), _ => r.range(0, 86400 * 3000) };
            let span = if r.chance(1, 6) { 0 } else { span };
            let (s2, n2) = secs(&mut r);
            let e = t + chrono::Duration::seconds(span);
            let e = if r.chance(1, 3) { ts(e.timestamp().div_euclid(86400), s2, n2) } else { e };
            let e = if e < t { t } else { e };
            match guard(|| time_columns(t, e, u)) {
                Ok(c) => o.put(json!({"k":"cols","unit":u.as_str(),"from":jt(t),"to":jt(e),"cols":c})),
                Err(p) => o.put(json!({"k":"cols","unit":u.as_str(),"from":jt(t),"to":jt(e),"panic":p})),
            }
        }
        // the request-level entry point
        if r.chance(1, 4) {
            let u = r.pick(&UNITS).clone(); let n = r.range(0, if u == TimeIntervalUnit::Year { 9 } else { 24 });
            let (s, ns) = secs(&mut r); let cur = ts(d, s, ns);
            let req = common::event_segmentation::EventSegmentationRequest { time: QueryTime::Last { last: n, unit: u.clone() }, group_id: 0, interval_unit: u.clone(),
                chart_type: common::event_segmentation::ChartType::Line, analysis: common::event_segmentation::Analysis::Linear, compare: None, events: vec![], filters: None, breakdowns: None, segments: None };
            let cols = guard(|| req.time_columns(cur));
            match cols { Ok(c) => o.put(json!({"k":"reqcols","unit":u.as_str(),"n":n,"cur":jt(cur),"cols":c})), Err(p) => o.put(json!({"k":"reqcols","unit":u.as_str(),"n":n,"cur":jt(cur),"panic":p})) }
        }
    }
    let _ = ts(0, 0, 0).hour();
}

fn dts() -> Vec<(String, DType)> {
    let p = [("string", DType::String), ("int8", DType::Int8), ("int16", DType::Int16), ("int32", DType::Int32), ("int64", DType::Int64), ("decimal", DType::Decimal), ("boolean", DType::Boolean), ("timestamp", DType::Timestamp)];
    let mut v: Vec<(String, DType)> = p.iter().map(|(n, d)| (n.to_string(), d.clone())).collect();
    v.extend(p.iter().map(|(n, d)| (format!("list:{n}"), DType::List(Box::new(d.clone())))));
    v.push(("list:list:int8".into(), DType::List(Box::new(DType::List(Box::new(DType::Int8))))));
    v
}
fn dname(d: &DType) -> String { dts().into_iter().find(|(_, x)| x == d).map(|x| x.0).unwrap_or("?".into()) }
fn c04(a: &Args) {
    let mut o = Out::new(&a.dir, "trace.ndjson");
    let put = |o: &mut Out, k: &str, x: String, r: Result<Result<String, String>, String>| {
        let (st, v) = match r { Ok(Ok(v)) => ("ok", v), Ok(Err(_)) => ("rejected", "".into()), Err(_) => ("rejected", "".into()) };
        o.put(json!({"k":k,"x":x,"st":st,"r":v}));
    };
    for (n, d) in dts() {
        put(&mut o, "short", n.clone(), guard(|| Ok(d.short_name())));
        put(&mut o, "to_engine", n.clone(), guard(|| Ok(format!("{:?}", A1::from(d.clone())))));
        put(&mut o, "engine_back", n.clone(), guard(|| Ok(dname(&DType::from(A1::from(d.clone()))))));
        put(&mut o, "to_store", n.clone(), guard(|| a2::DataType::try_from(d.clone()).map(|x| format!("{x:?}")).map_err(|e| e.to_string())));
        put(&mut o, "store_back", n.clone(), guard(|| DType::try_from(a2::DataType::try_from(d.clone()).map_err(|e| e.to_string())?).map(|x| dname(&x)).map_err(|e| e.to_string())));
        put(&mut o, "json", n.clone(), guard(|| serde_json::to_string(&d).map_err(|e| e.to_string())));
        put(&mut o, "json_back", n.clone(), guard(|| serde_json::from_str::<DType>(&serde_json::to_string(&d).unwrap()).map(|x| dname(&x)).map_err(|e| e.to_string())));
    }
    // foreign types
    use arrow_schema::{Field, IntervalUnit, TimeUnit as TU};
    let mut f1 = vec![A1::Null, A1::Boolean, A1::Int8, A1::Int16, A1::Int32, A1::Int64, A1::UInt8, A1::UInt16, A1::UInt32, A1::UInt64, A1::Float16, A1::Float32, A1::Float64,
        A1::Date32, A1::Date64, A1::Time32(TU::Second), A1::Time64(TU::Nanosecond), A1::Duration(TU::Second), A1::Interval(IntervalUnit::DayTime), A1::Binary, A1::FixedSizeBinary(4), A1::LargeBinary, A1::Utf8, A1::LargeUtf8,
        A1::Decimal128(28, 16), A1::Decimal128(10, 2), A1::Decimal256(40, 4)];
    for u in [TU::Second, TU::Millisecond, TU::Microsecond, TU::Nanosecond] { f1.push(A1::Timestamp(u.clone(), None)); f1.push(A1::Timestamp(u, Some("UTC".into()))); }
    let l: Vec<A1> = f1.iter().map(|d| A1::List(Arc::new(Field::new("item", d.clone(), true)))).collect();
    for d in f1.iter() { put(&mut o, "engine_in", format!("{d:?}"), guard(|| Ok(dname(&DType::from(d.clone()))))); }
    for (i, d) in l.iter().enumerate() { put(&mut o, "engine_in_list", format!("{:?}", f1[i]), guard(|| Ok(dname(&DType::from(d.clone()))))); }
    use a2::DataType as B;
    let mut f2 = vec![B::Null, B::Boolean, B::Int8, B::Int16, B::Int32, B::Int64, B::UInt8, B::UInt16, B::UInt32, B::UInt64, B::Float16, B::Float32, B::Float64, B::Date32, B::Date64,
        B::Time32(a2::TimeUnit::Second), B::Binary, B::FixedSizeBinary(4), B::LargeBinary, B::Utf8, B::LargeUtf8, B::Decimal(28, 16), B::Decimal(10, 2), B::Decimal256(40, 4)];
    for u in [a2::TimeUnit::Second, a2::TimeUnit::Millisecond, a2::TimeUnit::Microsecond, a2::TimeUnit::Nanosecond] { f2.push(B::Timestamp(u, None)); f2.push(B::Timestamp(u, Some("UTC".into()))); }
    for d in f2.iter() {
        put(&mut o, "store_in", format!("{d:?}"), guard(|| DType::try_from(d.clone()).map(|x| dname(&x)).map_err(|e| e.to_string())));
        put(&mut o, "store_in_list", format!("{d:?}"), guard(|| DType::try_from(B::List(Box::new(a2::Field::new("item", d.clone(), true)))).map(|x| dname(&x)).map_err(|e| e.to_string())));
    }
    use arrow::array::Array;
    let b = common::arrow::DecimalBuilder::with_capacity(3).finish();
    o.put(json!({"k":"const","x":"decimal_builder","st":"ok","r":format!("{:?}", b.data_type())}));
    o.put(json!({"k":"const","x":"decimal_precision","st":"ok","r":common::DECIMAL_PRECISION.to_string()}));
    o.put(json!({"k":"const","x":"decimal_scale","st":"ok","r":common::DECIMAL_SCALE.to_string()}));
    o.put(json!({"k":"const","x":"decimal_multiplier","st":"ok","r":common::DECIMAL_MULTIPLIER.to_string()}));
    o.put(json!({"k":"const","x":"time_unit","st":"ok","r":format!("{:?}", TIME_UNIT)}));
    for g in 0..common::GROUPS_COUNT { o.put(json!({"k":"group_col","x":g.to_string(),"st":"ok","r":common::group_col(g)})); }
    o.put(json!({"k":"const","x":"groups","st":"ok","r":common::GROUPS_COUNT.to_string()}));
}

// ------------------------------------------------------------------ C05
use datafusion_common::ScalarValue as SV;
#[serde_with::serde_as]
#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
struct W { #[serde_as(as = "common::scalar::ScalarValueRef")] v: SV }
fn variant(v: &SV) -> String { let s = format!("{:?}", v); s.split('(').next().unwrap().to_string() }
fn scalars(r: &mut Rng) -> Vec<SV> {
    let i = |r: &mut Rng| -> i64 { *r.pick(&[0, 1, -1, 7, 100, -128, 127]) };
    let mut v = vec![SV::Null];
    let tz: Vec<Option<Arc<str>>> = vec![None, Some(Arc::from("UTC")), Some(Arc::from("+02:00"))];
    for some in [true, false, true] {
        macro_rules! o { ($e:expr) => { if some { Some($e) } else { None } } }
        v.push(SV::Boolean(o!(r.chance(1, 2)))); v.push(SV::Float32(o!(i(r) as f32 / 4.0))); v.push(SV::Float64(o!(i(r) as f64 / 8.0)));
        v.push(SV::Decimal128(o!(i(r) as i128 * 10_000_000_000_000_000), 28, 16)); v.push(SV::Decimal128(o!(i(r) as i128), 10, 2));
        v.push(SV::Int8(o!(i(r) as i8))); v.push(SV::Int16(o!(i(r) as i16 * 200))); v.push(SV::Int32(o!(i(r) as i32 * 1_000_000))); v.push(SV::Int64(o!(i(r) * 1_000_000_000_000)));
        v.push(SV::UInt8(o!(i(r) as u8))); v.push(SV::UInt16(o!(i(r) as u16))); v.push(SV::UInt32(o!(i(r) as u32))); v.push(SV::UInt64(o!(i(r) as u64)));
        let s: Vec<&str> = vec!["", "a", "null", "héllo \"q\" \\ \n", "0"];
        v.push(SV::Utf8(o!(r.pick(&s).to_string()))); v.push(SV::LargeUtf8(o!(r.pick(&s).to_string())));
        v.push(SV::Binary(o!(vec![0, 255, i(r) as u8]))); v.push(SV::LargeBinary(o!(vec![]))); v.push(SV::FixedSizeBinary(2, o!(vec![1, 2])));
        v.push(SV::Date32(o!(i(r) as i32))); v.push(SV::Date64(o!(i(r)))); v.push(SV::Time32Second(o!(i(r) as i32))); v.push(SV::Time32Millisecond(o!(i(r) as i32)));
        v.push(SV::Time64Microsecond(o!(i(r)))); v.push(SV::Time64Nanosecond(o!(i(r))));
        for t in &tz { v.push(SV::TimestampSecond(o!(i(r)), t.clone())); v.push(SV::TimestampMillisecond(o!(i(r) * 1_700_000_000_000), t.clone())); v.push(SV::TimestampMicrosecond(o!(i(r)), t.clone())); v.push(SV::TimestampNanosecond(o!(i(r)), t.clone())); }
        v.push(SV::IntervalYearMonth(o!(i(r) as i32)));
        v.push(SV::DurationSecond(o!(i(r)))); v.push(SV::DurationMillisecond(o!(i(r)))); v.push(SV::Float16(if some { Some(Default::default()) } else { None }));
        v.push(SV::IntervalDayTime(if some { Some(Default::default()) } else { None })); v.push(SV::IntervalMonthDayNano(if some { Some(Default::default()) } else { None }));
        if some {
            for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.1, 1e300, f64::MIN_POSITIVE, 1.0 / 3.0] { v.push(SV::Float64(Some(x))); }
            for x in [f32::NAN, f32::INFINITY, -0.0, 0.1, f32::MAX, 1.0 / 3.0] { v.push(SV::Float32(Some(x))); }
            for x in [i64::MAX, i64::MIN, (1 << 53) + 1] { v.push(SV::Int64(Some(x)));  v.push(SV::Decimal128(Some(x as i128 * 1_000_000_007), 28, 16)); }
            v.push(SV::UInt64(Some(u64::MAX))); v.push(SV::Int8(Some(i8::MIN))); v.push(SV::Int16(Some(i16::MIN))); v.push(SV::Int32(Some(i32::MIN))); v.push(SV::Decimal128(Some(i128::MIN), 38, -3)); v.push(SV::Decimal128(Some(-1), 28, 16));
        }
        v.push(SV::Dictionary(Box::new(A1::Int8), Box::new(SV::Utf8(o!("x".to_string())))));
    }
    v
}
fn sv_text(v: &SV) -> String { format!("{v:?}") }
/// JSON has no not-a-number and no infinities
fn jsonable(v: &SV) -> bool { match v { SV::Float32(Some(x)) => x.is_finite(), SV::Float64(Some(x)) => x.is_finite(), _ => true } }
fn c05(a: &Args) {
    let mut r = Rng::new(a.seed); let mut o = Out::new(&a.dir, "trace.ndjson");
    let reps = if a.thorough { 60 } else { 4 };
    for _ in 0..reps { for v in scalars(&mut r) {
        let enc = guard(|| serde_json::to_string(&W { v: v.clone() }));
        match enc {
            Err(_) | Ok(Err(_)) => o.put(json!({"k":"scalar","typ":variant(&v),"jsonable":jsonable(&v),"val":sv_text(&v),"enc":"refused","dec":"none","rtyp":"","rval":""})),
            Ok(Ok(s)) => match guard(|| serde_json::from_str::<W>(&s)) {
                Ok(Ok(w)) => o.put(json!({"k":"scalar","typ":variant(&v),"jsonable":jsonable(&v),"val":sv_text(&v),"enc":"ok","dec":"ok","rtyp":variant(&w.v),"rval":sv_text(&w.v)})),
                _ => o.put(json!({"k":"scalar","typ":variant(&v),"jsonable":jsonable(&v),"val":sv_text(&v),"enc":"ok","dec":"refused","rtyp":"","rval":""})),
            },
        }
    }}
    // patch fields
    #[derive(serde::Deserialize, serde::Serialize, Debug, PartialEq, Clone)]
    struct P { #[serde(default, skip_serializing_if = "OptionalProperty::is_none")] p: OptionalProperty<i64>, #[serde(default, skip_serializing_if = "OptionalProperty::is_none")] o: OptionalProperty<Option<String>>, #[serde(default, skip_serializing_if = "OptionalProperty::is_none")] l: OptionalProperty<Option<Vec<i64>>> }
    fn kind<T>(x: &OptionalProperty<T>) -> &'static str { match x { OptionalProperty::None => "unset", OptionalProperty::Some(_) => "set" } }
    let ps = ["absent", "null", "7", "\"s\""]; let os = ["absent", "null", "\"\"", "\"v\"", "5"]; let ls = ["absent", "null", "[]", "[1,2]"];
    for p in ps { for oo in os { for l in ls {
        let mut parts = vec![];
        if p != "absent" { parts.push(format!("\"p\":{p}")); } if oo != "absent" { parts.push(format!("\"o\":{oo}")); } if l != "absent" { parts.push(format!("\"l\":{l}")); }
        let doc = format!("{{{}}}", parts.join(","));
        match guard(|| serde_json::from_str::<P>(&doc)) {
            Ok(Ok(x)) => {
                let back = guard(|| serde_json::to_string(&x).unwrap()).unwrap_or("panic".into());
                o.put(json!({"k":"patch","p":p,"o":oo,"l":l,"st":"ok","pk":kind(&x.p),"ok":kind(&x.o),"lk":kind(&x.l),
                "pv": match &x.p { OptionalProperty::Some(v) => v.to_string(), _ => "".into() }, "ov": match &x.o { OptionalProperty::Some(v) => serde_json::to_string(v).unwrap(), _ => "".into() }, "lv": match &x.l { OptionalProperty::Some(v) => serde_json::to_string(v).unwrap(), _ => "".into() }, "doc": doc, "back": back,
                "isnone": [x.p.is_none(), x.o.is_none(), x.l.is_none()]}));
                // operations on patch fields
                let m = x.p.clone().map(|v| v + 1); let i: OptionalProperty<i128> = x.p.clone().into(); let t: Result<OptionalProperty<u8>, _> = x.p.clone().try_into();
                let mut ins = x.p.clone(); ins.insert(42);
                o.put(json!({"k":"patchop","set":kind(&x.p)=="set","map":format!("{m:?}"),"into":format!("{i:?}"),"try":format!("{:?}", t),"ins":format!("{ins:?}"),"def":format!("{:?}", OptionalProperty::<i64>::default())}));
            }
            Ok(Err(_)) => o.put(json!({"k":"patch","p":p,"o":oo,"l":l,"st":"refused","pk":"","ok":"","lk":"","pv":"","ov":"","lv":"","doc":doc,"back":"","isnone":[]})),
            Err(_) => o.put(json!({"k":"patch","p":p,"o":oo,"l":l,"st":"panic","pk":"","ok":"","lk":"","pv":"","ov":"","lv":"","doc":doc,"back":"","isnone":[]})),
        }
    }}}
    for (v, x) in [(-1i64, "err"), (256, "err"), (255, "ok")] { let t: Result<OptionalProperty<u8>, _> = OptionalProperty::Some(v).try_into(); o.put(json!({"k":"tryinto","v":v,"exp":x,"r":if t.is_ok(){"ok"}else{"err"}})); }
    for (n, s) in [("asc", SortDirection::Asc), ("desc", SortDirection::Desc)] {
        let j = serde_json::to_string(&s).unwrap(); let b: SortDirection = serde_json::from_str(&j).unwrap();
        o.put(json!({"k":"sort","n":n,"j":j,"same":b==s,"def":format!("{:?}",SortDirection::default())}));
    }
    // saved queries: random requests round trip
    for _ in 0..(if a.thorough { 3000 } else { 200 }) {
        let q = rand_es(&mut r); let j = guard(|| serde_json::to_string(&q).unwrap());
        let same = match &j { Ok(j) => guard(|| serde_json::from_str::<common::event_segmentation::EventSegmentationRequest>(j).map(|b| b == q).unwrap_or(false)).unwrap_or(false), _ => false };
        o.put(json!({"k":"saved","what":"segmentation","enc":j.is_ok(),"same":same}));
        let q = rand_fun(&mut r); let j = guard(|| serde_json::to_string(&q).unwrap());
        let same = match &j { Ok(j) => guard(|| serde_json::from_str::<common::funnel::Funnel>(j).map(|b| b == q).unwrap_or(false)).unwrap_or(false), _ => false };
        o.put(json!({"k":"saved","what":"funnel","enc":j.is_ok(),"same":same}));
    }
}
fn rsv(r: &mut Rng) -> SV { match r.below(7) { 0 => SV::Utf8(Some("x".into())), 1 => SV::Int64(Some(r.range(-5, 5))), 2 => SV::Decimal128(Some(12), 28, 16), 3 => SV::Boolean(Some(true)), 4 => SV::TimestampMillisecond(Some(1_700_000_000_000), None), 5 => SV::Utf8(None), _ => SV::Int8(Some(3)) } }
fn rprop(r: &mut Rng) -> PropertyRef { match r.below(3) { 0 => PropertyRef::Event(format!("e{}", r.below(3))), 1 => PropertyRef::Group(format!("g{}", r.below(3)), r.below(5) as usize), _ => PropertyRef::Custom(r.below(9)) } }
const OPS: [PropValueOperation; 14] = [PropValueOperation::Eq, PropValueOperation::Neq, PropValueOperation::Gt, PropValueOperation::Gte, PropValueOperation::Lt, PropValueOperation::Lte, PropValueOperation::True, PropValueOperation::False, PropValueOperation::Exists, PropValueOperation::Empty, PropValueOperation::Like, PropValueOperation::NotLike, PropValueOperation::Regex, PropValueOperation::NotRegex];
fn rfilt(r: &mut Rng) -> Option<Vec<PropValueFilter>> {
    if r.chance(1, 3) { return None; }
    Some((0..r.below(3)).map(|_| PropValueFilter::Property { property: rprop(r), operation: r.pick(&OPS).clone(), value: if r.chance(1, 4) { None } else { Some((0..r.below(3)).map(|_| rsv(r)).collect()) } }).collect())
}
fn rev(r: &mut Rng) -> EventRef { match r.below(3) { 0 => EventRef::RegularName("ev".into()), 1 => EventRef::Regular(r.below(9)), _ => EventRef::Custom(r.below(9)) } }
fn rqt(r: &mut Rng) -> QueryTime { match r.below(3) { 0 => QueryTime::Between { from: ts(r.range(0, 20000), 5, 0), to: ts(r.range(0, 20000), 7, 1_000_000) }, 1 => QueryTime::From(ts(r.range(0, 20000), 0, 0)), _ => QueryTime::Last { last: r.range(0, 9), unit: r.pick(&UNITS).clone() } } }
fn rst(r: &mut Rng) -> SegmentTime { match r.below(5) { 0 => SegmentTime::Between { from: ts(r.range(0, 9999), 0, 0), to: ts(r.range(0, 9999), 0, 0) }, 1 => SegmentTime::From(ts(3, 4, 0)), 2 => SegmentTime::Last { n: r.range(0, 5), unit: r.pick(&UNITS).clone() }, 3 => SegmentTime::AfterFirstUse { within: 3, unit: r.pick(&UNITS).clone() }, _ => SegmentTime::Each { n: 2, unit: r.pick(&UNITS).clone() } } }
fn rbd(r: &mut Rng) -> Option<Vec<Breakdown>> { if r.chance(1, 2) { None } else { Some((0..r.below(3)).map(|_| Breakdown::Property(rprop(r))).collect()) } }
fn rseg(r: &mut Rng) -> Option<Vec<Segment>> {
    if r.chance(1, 3) { return None; }
    Some(vec![Segment { name: "s".into(), conditions: (0..r.below(3)).map(|_| (0..1 + r.below(2)).map(|_| match r.below(5) {
        0 => SegmentCondition::HasPropertyValue { property: rprop(r), operation: r.pick(&OPS).clone(), value: Some(vec![rsv(r)]) },
        1 => SegmentCondition::HadPropertyValue { property: rprop(r), operation: r.pick(&OPS).clone(), value: None, time: rst(r) },
        2 => SegmentCondition::DidEvent { event: rev(r), filters: rfilt(r), aggregate: DidEventAggregate::Count { operation: r.pick(&OPS).clone(), value: r.range(-3, 9), time: rst(r) } },
        3 => SegmentCondition::DidEvent { event: rev(r), filters: rfilt(r), aggregate: DidEventAggregate::RelativeCount { event: rev(r), operation: r.pick(&OPS).clone(), filters: rfilt(r), time: rst(r) } },
        _ => SegmentCondition::DidEvent { event: rev(r), filters: rfilt(r), aggregate: DidEventAggregate::AggregateProperty { property: rprop(r), aggregate: r.pick(&[QueryAggregate::Min, QueryAggregate::Sum, QueryAggregate::Percentile75th]).clone(), operation: r.pick(&OPS).clone(), value: Some(rsv(r)), time: rst(r) } },
    }).collect()).collect() }])
}
fn rand_es(r: &mut Rng) -> common::event_segmentation::EventSegmentationRequest {
    use common::event_segmentation::*;
    let af = [AggregateFunction::Count, AggregateFunction::Sum, AggregateFunction::Min, AggregateFunction::Max, AggregateFunction::Avg];
    EventSegmentationRequest { time: rqt(r), group_id: r.below(5) as usize, interval_unit: r.pick(&UNITS).clone(), chart_type: r.pick(&[ChartType::Line, ChartType::Column, ChartType::Pie]).clone(),
        analysis: match r.below(4) { 0 => Analysis::Linear, 1 => Analysis::RollingAverage { window: 3, unit: r.pick(&UNITS).clone() }, 2 => Analysis::Logarithmic, _ => Analysis::Cumulative },
        compare: if r.chance(1, 2) { Some(Compare { offset: 2, unit: r.pick(&UNITS).clone() }) } else { None },
        events: (0..1 + r.below(2)).map(|_| Event { event: rev(r), filters: rfilt(r), breakdowns: rbd(r), queries: (0..1 + r.below(2)).map(|_| NamedQuery::new(match r.below(6) {
            0 => Query::CountEvents, 1 => Query::CountUniqueGroups, 2 => Query::DailyActiveGroups, 3 => Query::CountPerGroup { aggregate: r.pick(&af).clone() },
            4 => Query::AggregatePropertyPerGroup { property: rprop(r), aggregate_per_group: r.pick(&[PartitionedAggregateFunction::Sum, PartitionedAggregateFunction::Min]).clone(), aggregate: r.pick(&af).clone() },
            _ => Query::AggregateProperty { property: rprop(r), aggregate: r.pick(&af).clone() } }, if r.chance(1, 2) { Some("n".into()) } else { None })).collect() }).collect(),
        filters: rfilt(r), breakdowns: rbd(r), segments: rseg(r) }
}
fn rand_fun(r: &mut Rng) -> common::funnel::Funnel {
    use common::funnel::*;
    Funnel { time: rqt(r), group_id: r.below(5) as usize, steps: (0..1 + r.below(3)).map(|_| Step { events: (0..1 + r.below(2)).map(|_| Event { event: rev(r), filters: rfilt(r) }).collect(), order: if r.chance(1, 2) { StepOrder::Exact } else { StepOrder::Any(vec![(0, r.below(3) as usize)]) } }).collect(),
        time_window: TimeWindow { n: r.below(9) as usize, unit: r.pick(&[TimeIntervalUnitSession::Hour, TimeIntervalUnitSession::Day, TimeIntervalUnitSession::Week, TimeIntervalUnitSession::Month, TimeIntervalUnitSession::Year, TimeIntervalUnitSession::Session]).clone() },
        chart_type: match r.below(4) { 0 => ChartType::Steps, 1 => ChartType::ConversionOverTime { interval_unit: r.pick(&UNITS).clone() }, 2 => ChartType::TimeToConvert { interval_unit: r.pick(&UNITS).clone(), min_interval: 1, max_interval: r.range(2, 5) }, _ => ChartType::Frequency },
        count: r.pick(&[Count::Unique, Count::NonUnique, Count::Session]).clone(), filter: match r.below(4) { 0 => None, 1 => Some(Filter::DropOffOnAnyStep), 2 => Some(Filter::DropOffOnStep(2)), _ => Some(Filter::TimeToConvert(1, r.range(2, 9))) },
        touch: match r.below(4) { 0 => None, 1 => Some(Touch::First), 2 => Some(Touch::Last), _ => Some(Touch::Step { step: r.below(3) as usize }) },
        holding_constants: if r.chance(1, 2) { None } else { Some(vec![rprop(r)]) }, exclude: if r.chance(1, 2) { None } else { Some(vec![Exclude { event: rev(r), filters: rfilt(r), steps: match r.below(3) { 0 => None, 1 => Some(ExcludeSteps::All), _ => Some(ExcludeSteps::Between(0, r.below(3) as usize)) } }]) },
        breakdowns: rbd(r), segments: rseg(r), filters: rfilt(r) }
}

// ------------------------------------------------------------------ C06 (body part)
fn c06(a: &Args) {
    use axum::response::IntoResponse; use common::http::ApiError; use std::collections::BTreeMap;
    let mut r = Rng::new(a.seed); let mut o = Out::new(&a.dir, "trace.ndjson");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let kinds: Vec<(&str, fn(String) -> ApiError)> = vec![("bad_request", |m| ApiError::bad_request(m)), ("unimplemented", |m| ApiError::unimplemented(m)), ("forbidden", |m| ApiError::forbidden(m)), ("unauthorized", |m| ApiError::unauthorized(m)), ("conflict", |m| ApiError::conflict(m)), ("not_found", |m| ApiError::not_found(m)), ("internal", |m| ApiError::internal(m))];
    let msgs = ["", "boom", "with \"quotes\" and \\", "naïve ünïcode", "line\nbreak"];
    for (k, f) in kinds.iter() { for m in msgs { for nf in 0..3usize { for inner in [false, true] { for order in [0, 1] {
        let mut fields = BTreeMap::new(); for i in 0..nf { fields.insert(format!("f{i}"), format!("e{}", r.below(9))); }
        let mut e = f(m.to_string());
        if order == 0 { if nf > 0 { e = e.with_fields(fields.clone()); } if inner { e = e.append_inner_message("why".into()); } }
        else { if inner { e = e.append_inner_message("why".into()); } if nf > 0 { e = e.with_fields(fields.clone()); } }
        let disp = e.to_string();
        let resp = guard(|| e.into_response());
        match resp { Ok(resp) => {
            let st = resp.status().as_u16();
            let body = rt.block_on(async { use http_body_util::BodyExt; resp.into_body().collect().await.unwrap().to_bytes() });
            let v: Value = serde_json::from_slice(&body).unwrap_or(json!({}));
            let er = v.get("error").cloned().unwrap_or(json!({}));
            let bf: BTreeMap<String, String> = er.get("fields").map(|f| serde_json::from_value(f.clone()).unwrap_or_default()).unwrap_or_default();
            o.put(json!({"k":"body","kind":k,"m":m,"inner":inner,"nf":nf,"status":st,"bstatus":er.get("status").and_then(|x|x.as_i64()).unwrap_or(-1),"bm":er.get("message").and_then(|x|x.as_str()).unwrap_or("<none>"),"disp":disp,"fields_same":bf==fields,"hasf":er.get("fields").is_some(),"hascode":er.get("code").is_some()}));
        } Err(p) => o.put(json!({"k":"body","kind":k,"m":m,"panic":p})) }
    }}}}}
    // request bodies: JSON extractor error paths
    #[derive(serde::Deserialize, serde::Serialize)] #[serde(deny_unknown_fields)] #[allow(dead_code)]
    struct Rq { name: String, n: i64 }
    use axum::extract::FromRequest;
    let cases = [("valid", "application/json", r#"{"name":"a","n":1}"#), ("missing", "application/json", r#"{"name":"a"}"#), ("unknown", "application/json", r#"{"name":"a","n":1,"zz":2}"#), ("type", "application/json", r#"{"name":"a","n":"x"}"#), ("syntax", "application/json", r#"{"name":"#), ("ctype", "text/plain", r#"{"name":"a","n":1}"#), ("dup", "application/json", r#"{"name":"a","name":"b","n":1}"#)];
    for (c, ct, body) in cases {
        let req = axum::http::Request::builder().method("POST").uri("/").header("content-type", ct).body(axum::body::Body::from(body)).unwrap();
        let res = guard(|| rt.block_on(async { common::http::Json::<Rq>::from_request(req, &()).await }));
        match res {
            Ok(Ok(v)) => o.put(json!({"k":"extract","c":c,"st":"ok","status":0,"f":"","fv":"","name":v.0.name})),
            Ok(Err(e)) => o.put(json!({"k":"extract","c":c,"st":"err","status":e.status.as_u16(),"f":e.fields.keys().next().cloned().unwrap_or_default(),"fv":e.fields.values().next().cloned().unwrap_or_default(),"name":""})),
            Err(p) => o.put(json!({"k":"extract","c":c,"st":"panic","status":0,"f":"","fv":"","name":p})),
        }
    }
    for (h, want) in [("0", 0i64), ("12", 12), ("x", -1), ("", -1), ("-4", -1), ("99999999", 99999999)] {
        let mut hm = axum::http::HeaderMap::new(); hm.insert("content-length", h.parse().unwrap());
        o.put(json!({"k":"clen","h":h,"want":want,"r":common::http::content_length(&hm).map(|x| x as i64).unwrap_or(-1)}));
    }
    o.put(json!({"k":"clen","h":"<absent>","want":-1,"r":common::http::content_length(&axum::http::HeaderMap::new()).map(|x| x as i64).unwrap_or(-1)}));
}

// ------------------------------------------------------------------ C07
fn c07(a: &Args) {
    let mut o = Out::new(&a.dir, "trace.ndjson");
    use datafusion_expr::Operator as D; use datafusion::physical_plan::aggregates::AggregateFunction as DA;
    fn st(r: Result<String, String>) -> (String, String) { match r { Ok(v) => ("ok".into(), v), Err(_) => ("refused".into(), "".into()) } }
    for op in OPS.iter() {
        let n = format!("{op:?}");
        let (s1, r1) = st(guard(|| format!("{:?}", Operator::from(op.clone()))));
        let (s2, r2) = st(guard(|| { let d: Result<D, _> = op.clone().try_into(); format!("{:?}", d.unwrap()) }));
        let (s3, r3) = st(guard(|| format!("{:?}", D::from(Operator::from(op.clone())))));
        o.put(json!({"k":"op","n":n,"s1":s1,"r1":r1,"s2":s2,"r2":r2,"s3":s3,"r3":r3,"noval":op.is_without_value()}));
    }
    for op in [Operator::Eq, Operator::NotEq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq, Operator::RegexMatch, Operator::RegexNotMatch] {
        let (s1, r1) = st(guard(|| format!("{:?}", D::from(op)))); let (s2, r2) = st(guard(|| format!("{:?}", Operator::from(D::from(op)))));
        o.put(json!({"k":"oper","n":format!("{op:?}"),"s1":s1,"r1":r1,"s2":s2,"r2":r2}));
    }
    for d in [D::Eq, D::NotEq, D::Lt, D::LtEq, D::Gt, D::GtEq, D::RegexMatch, D::RegexNotMatch, D::Plus, D::And, D::Or, D::Modulo, D::IsDistinctFrom, D::LikeMatch, D::RegexIMatch, D::RegexNotIMatch, D::NotLikeMatch, D::BitwiseAnd] {
        let (s1, r1) = st(guard(|| format!("{:?}", Operator::from(d)))); o.put(json!({"k":"dfop","n":format!("{d:?}"),"s1":s1,"r1":r1}));
    }
    for f in [AggregateFunction::Count, AggregateFunction::Sum, AggregateFunction::Min, AggregateFunction::Max, AggregateFunction::Avg] {
        let (s1, r1) = st(guard(|| format!("{:?}", DA::from(f.clone())))); let (s2, r2) = st(guard(|| format!("{:?}", AggregateFunction::from(DA::from(f.clone())))));
        o.put(json!({"k":"agg","n":format!("{f:?}"),"s1":s1,"r1":r1,"s2":s2,"r2":r2,"disp":f.to_string()}));
    }
    for f in [PartitionedAggregateFunction::Count, PartitionedAggregateFunction::Sum, PartitionedAggregateFunction::Avg, PartitionedAggregateFunction::Min, PartitionedAggregateFunction::Max] { o.put(json!({"k":"pagg","n":format!("{f:?}"),"disp":f.to_string()})); }
    for q in [QueryAggregate::Min, QueryAggregate::Max, QueryAggregate::Sum, QueryAggregate::Avg, QueryAggregate::Median, QueryAggregate::DistinctCount, QueryAggregate::Percentile25th, QueryAggregate::Percentile75th, QueryAggregate::Percentile90th, QueryAggregate::Percentile99th] {
        let (s1, r1) = st(guard(|| format!("{:?}", q.aggregate_function()))); o.put(json!({"k":"qagg","n":format!("{q:?}"),"s1":s1,"r1":r1}));
    }
    for u in [TimeUnit::Second, TimeUnit::Millisecond, TimeUnit::Microsecond, TimeUnit::Nanosecond] {
        let x: arrow_schema::TimeUnit = u.clone().try_into().unwrap(); let b: TimeUnit = x.clone().try_into().unwrap();
        o.put(json!({"k":"tunit","n":format!("{u:?}"),"r":format!("{x:?}"),"b":format!("{b:?}")}));
    }
    for (kind, nm, id, e) in [("name", "Click me", 0u64, EventRef::RegularName("Click me".into())), ("id", "", 17, EventRef::Regular(17)), ("custom", "", 4, EventRef::Custom(4)), ("id", "", 0, EventRef::Regular(0))] { o.put(json!({"k":"evref","kind":kind,"nm":nm,"id":id,"r":e.name()})); }
    for (kind, nm, p) in [("event", "A b", PropertyRef::Event("A b".into())), ("group", "C", PropertyRef::Group("C".into(), 3)), ("group", "", PropertyRef::Group("".into(), 0)), ("custom", "", PropertyRef::Custom(2))] {
        let (s1, r1) = st(guard(|| p.name())); o.put(json!({"k":"propref","kind":kind,"nm":nm,"s1":s1,"r1":r1}));
    }
    // result column names of queries
    use common::event_segmentation::Query as Q;
    let p = PropertyRef::Event("Rev".into());
    let af = [AggregateFunction::Count, AggregateFunction::Sum, AggregateFunction::Min, AggregateFunction::Max, AggregateFunction::Avg];
    let pf = [PartitionedAggregateFunction::Count, PartitionedAggregateFunction::Sum, PartitionedAggregateFunction::Avg, PartitionedAggregateFunction::Min, PartitionedAggregateFunction::Max];
    let mut qs: Vec<(String, String, String, Q)> = vec![("CountEvents".into(), "".into(), "".into(), Q::CountEvents), ("CountUniqueGroups".into(), "".into(), "".into(), Q::CountUniqueGroups), ("DailyActiveGroups".into(), "".into(), "".into(), Q::DailyActiveGroups), ("WeeklyActiveGroups".into(), "".into(), "".into(), Q::WeeklyActiveGroups), ("MonthlyActiveGroups".into(), "".into(), "".into(), Q::MonthlyActiveGroups), ("QueryFormula".into(), "".into(), "".into(), Q::QueryFormula { formula: "a+b".into() })];
    for f in &af { qs.push(("CountPerGroup".into(), format!("{f:?}"), "".into(), Q::CountPerGroup { aggregate: f.clone() })); qs.push(("AggregateProperty".into(), format!("{f:?}"), "".into(), Q::AggregateProperty { property: p.clone(), aggregate: f.clone() }));
        for g in &pf { qs.push(("AggregatePropertyPerGroup".into(), format!("{f:?}"), format!("{g:?}"), Q::AggregatePropertyPerGroup { property: p.clone(), aggregate_per_group: g.clone(), aggregate: f.clone() })); } }
    for (n, f, g, q) in qs { let (s1, r1) = st(guard(|| q.initial_name().to_string())); let (s2, r2) = st(guard(|| q.name())); o.put(json!({"k":"qname","n":n,"f":f,"g":g,"s1":s1,"r1":r1,"s2":s2,"r2":r2})); }
    use common::funnel::ChartType as CT;
    for u in UNITS.iter() { for (n, c) in [("steps", CT::Steps), ("over_time", CT::ConversionOverTime { interval_unit: u.clone() }), ("ttc", CT::TimeToConvert { interval_unit: u.clone(), min_interval: 1, max_interval: 2 }), ("freq", CT::Frequency)] {
        o.put(json!({"k":"chart","n":n,"u":u.as_str(),"r":c.time_interval().map(|x| x.as_str().to_string()).unwrap_or("none".into())})); } }
}

fn main() {
    quiet_panics();
    let a = args();
    match a.prop.as_str() { "C02" => c02(&a), "C03" => c03(&a), "C04" => c04(&a), "C05" => c05(&a), "C06" => c06(&a), "C07" => c07(&a), p => { eprintln!("unknown {p}"); std::process::exit(2) } }
}
