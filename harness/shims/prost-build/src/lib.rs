//! Offline stand-in for `prost-build`: proto3 subset (scalars, optional, repeated, enums, nested
//! references, oneof) -> Rust, with prost's naming rules.
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::path::Path;

#[derive(Clone, Debug)]
struct Field { label: &'static str, ty: String, name: String, tag: u32 }
#[derive(Clone, Debug)]
enum Item { Field(Field), OneOf(String, Vec<Field>) }
#[derive(Clone, Debug)]
struct Msg { name: String, items: Vec<Item> }
#[derive(Clone, Debug)]
struct Enum { name: String, vals: Vec<(String, i32)> }

fn toks(s: &str) -> Vec<String> {
    let mut out = vec![]; let mut cur = String::new(); let mut it = s.chars().peekable(); let mut instr = false;
    while let Some(c) = it.next() {
        if instr { if c == '"' { instr = false; out.push(format!("\"{cur}")); cur.clear(); } else { cur.push(c); } continue; }
        if c == '/' && it.peek() == Some(&'/') { for d in it.by_ref() { if d == '\n' { break; } }
            if !cur.is_empty() { out.push(std::mem::take(&mut cur)); } continue; }
        if c == '"' { instr = true; continue; }
        if c.is_whitespace() { if !cur.is_empty() { out.push(std::mem::take(&mut cur)); } continue; }
        if "{}=;".contains(c) { if !cur.is_empty() { out.push(std::mem::take(&mut cur)); } out.push(c.to_string()); continue; }
        cur.push(c);
    }
    if !cur.is_empty() { out.push(cur); }
    out
}
struct P { t: Vec<String>, i: usize }
impl P {
    fn next(&mut self) -> String { self.i += 1; self.t[self.i - 1].clone() }
    fn peek(&self) -> &str { &self.t[self.i] }
    fn expect(&mut self, s: &str) { let n = self.next(); assert_eq!(n, s, "proto syntax near token {}", self.i); }
    fn field(&mut self) -> Field {
        let mut first = self.next();
        let label = match first.as_str() { "optional" => { first = self.next(); "optional" } "repeated" => { first = self.next(); "repeated" } _ => "" };
        let name = self.next(); self.expect("="); let tag = self.next().parse().unwrap(); self.expect(";");
        Field { label, ty: first, name, tag }
    }
}
fn upper_camel(s: &str) -> String {
    // heck UpperCamelCase on the inputs in use: words split at '_' and lower->upper boundaries
    let mut words: Vec<String> = vec![];
    for part in s.split('_').filter(|x| !x.is_empty()) {
        let cs: Vec<char> = part.chars().collect(); let mut w = String::new();
        for (i, c) in cs.iter().enumerate() {
            let boundary = i > 0 && c.is_uppercase() && (!cs[i - 1].is_uppercase() || (i + 1 < cs.len() && cs[i + 1].is_lowercase()));
            if boundary && !w.is_empty() { words.push(std::mem::take(&mut w)); }
            w.push(*c);
        }
        words.push(w);
    }
    words.iter().map(|w| { let mut c = w.chars(); let f = c.next().unwrap(); f.to_uppercase().collect::<String>() + &c.as_str().to_lowercase() }).collect()
}
fn snake(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() { if c.is_uppercase() { if i > 0 { o.push('_'); } o.extend(c.to_lowercase()); } else { o.push(c); } }
    o
}
fn ident(s: &str) -> String { if ["type", "match", "ref", "use", "mod"].contains(&s) { format!("r#{s}") } else { s.to_string() } }
fn variant(en: &str, v: &str) -> String {
    let full = upper_camel(v);
    match full.strip_prefix(en) { Some(r) if !r.is_empty() && r.chars().next().unwrap().is_uppercase() => r.to_string(), _ => full }
}
fn scalar(t: &str) -> Option<&'static str> {
    Some(match t { "uint64" => "u64", "int64" => "i64", "uint32" => "u32", "int32" => "i32", "bool" => "bool", "string" => "String", "bytes" => "Vec<u8>", _ => return None })
}
struct Ctx { enums: HashMap<String, Enum>, copy: HashMap<String, bool>, pkg: String }
impl Ctx {
    fn rty(&self, t: &str) -> String { scalar(t).map(|s| s.to_string()).unwrap_or_else(|| if self.enums.contains_key(t) { "i32".into() } else { upper_camel(t) }) }
    fn kind(&self, t: &str) -> &'static str { if self.enums.contains_key(t) { "int" } else { match t { "string" => "string", "bytes" => "bytes", "bool" => "bool", _ if scalar(t).is_some() => "int", _ => "msg" } } }
    fn put(&self, t: &str, tag: u32, e: &str) -> String { // e: expression of type &T
        match self.kind(t) {
            "int" => format!("::prost::wire::put_int(buf, {tag}, *{e} as u64);"),
            "bool" => format!("::prost::wire::put_int(buf, {tag}, if *{e} {{ 1 }} else {{ 0 }});"),
            "string" => format!("::prost::wire::put_bytes(buf, {tag}, {e}.as_bytes());"),
            "bytes" => format!("::prost::wire::put_bytes(buf, {tag}, {e}.as_slice());"),
            _ => format!("::prost::wire::put_bytes(buf, {tag}, &::prost::Message::encode_to_vec({e}));"),
        }
    }
    fn get(&self, t: &str) -> String {
        match self.kind(t) {
            "int" => format!("{{ r.expect(wire, 0)?; r.varint()? as {} }}", self.rty(t)),
            "bool" => "{ r.expect(wire, 0)?; r.varint()? != 0 }".into(),
            "string" => "{ r.expect(wire, 2)?; r.string()? }".into(),
            "bytes" => "{ r.expect(wire, 2)?; r.bytes()?.to_vec() }".into(),
            _ => format!("{{ r.expect(wire, 2)?; <{} as ::prost::Message>::decode(r.bytes()?)? }}", self.rty(t)),
        }
    }
    fn nonzero(&self, t: &str, e: &str) -> String {
        match self.kind(t) { "int" => format!("{e} != 0"), "bool" => e.to_string(), _ => format!("!{e}.is_empty()") }
    }
    fn is_copy(&self, m: &Msg, msgs: &[Msg]) -> bool {
        m.items.iter().all(|i| match i {
            Item::Field(f) => f.label != "repeated" && match self.kind(&f.ty) { "int" | "bool" => true, "msg" => msgs.iter().find(|x| x.name == f.ty).map(|x| x.name != m.name && self.is_copy(x, msgs)).unwrap_or(false), _ => false },
            Item::OneOf(_, fs) => fs.iter().all(|f| matches!(self.kind(&f.ty), "int" | "bool")),
        })
    }
}

pub fn compile_protos(protos: &[impl AsRef<Path>], _includes: &[impl AsRef<Path>]) -> std::io::Result<()> {
    let out = std::env::var("OUT_DIR").expect("OUT_DIR");
    let mut pkgs: BTreeMap<String, String> = BTreeMap::new();
    for p in protos {
        println!("cargo:rerun-if-changed={}", p.as_ref().display());
        let src = std::fs::read_to_string(p)?;
        let mut ps = P { t: toks(&src), i: 0 };
        let (mut pkg, mut msgs, mut enums) = (String::from("_"), vec![], vec![]);
        while ps.i < ps.t.len() {
            match ps.next().as_str() {
                "syntax" => { ps.expect("="); ps.next(); ps.expect(";"); }
                "package" => { pkg = ps.next(); ps.expect(";"); }
                "message" => {
                    let name = ps.next(); ps.expect("{"); let mut items = vec![];
                    while ps.peek() != "}" {
                        if ps.peek() == "oneof" { ps.next(); let n = ps.next(); ps.expect("{"); let mut fs = vec![];
                            while ps.peek() != "}" { fs.push(ps.field()); } ps.expect("}"); items.push(Item::OneOf(n, fs)); }
                        else { items.push(Item::Field(ps.field())); }
                    }
                    ps.expect("}"); msgs.push(Msg { name, items });
                }
                "enum" => {
                    let name = ps.next(); ps.expect("{"); let mut vals = vec![];
                    while ps.peek() != "}" { let n = ps.next(); ps.expect("="); let v = ps.next().parse().unwrap(); ps.expect(";"); vals.push((n, v)); }
                    ps.expect("}"); enums.push(Enum { name, vals });
                }
                ";" => {}
                t => panic!("unsupported proto construct {t} in {}", p.as_ref().display()),
            }
        }
        let mut c = Ctx { enums: enums.iter().map(|e| (e.name.clone(), e.clone())).collect(), copy: HashMap::new(), pkg: pkg.clone() };
        for m in &msgs { let v = c.is_copy(m, &msgs); c.copy.insert(m.name.clone(), v); }
        let o = pkgs.entry(c.pkg.clone()).or_default();
        for m in &msgs { gen_msg(&c, m, o); }
        for e in &enums { gen_enum(e, o); }
    }
    for (pkg, code) in pkgs { std::fs::write(Path::new(&out).join(format!("{pkg}.rs")), code)?; }
    Ok(())
}

fn gen_enum(e: &Enum, o: &mut String) {
    let en = upper_camel(&e.name);
    let _ = writeln!(o, "#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]\n#[repr(i32)]\npub enum {en} {{");
    for (n, v) in &e.vals { let _ = writeln!(o, "    {} = {},", variant(&en, n), v); }
    let _ = writeln!(o, "}}\nimpl Default for {en} {{ fn default() -> Self {{ Self::{} }} }}", variant(&en, &e.vals[0].0));
    let _ = writeln!(o, "impl {en} {{\n    pub fn is_valid(v: i32) -> bool {{ Self::try_from(v).is_ok() }}\n    pub fn as_str_name(&self) -> &'static str {{ match self {{");
    for (n, _) in &e.vals { let _ = writeln!(o, "        Self::{} => \"{}\",", variant(&en, n), n); }
    let _ = writeln!(o, "    }} }}\n    pub fn from_str_name(v: &str) -> Option<Self> {{ match v {{");
    for (n, _) in &e.vals { let _ = writeln!(o, "        \"{}\" => Some(Self::{}),", n, variant(&en, n)); }
    let _ = writeln!(o, "        _ => None }} }}\n}}\nimpl TryFrom<i32> for {en} {{ type Error = ::prost::UnknownEnumValue;\n    fn try_from(v: i32) -> Result<Self, ::prost::UnknownEnumValue> {{ match v {{");
    for (n, v) in &e.vals { let _ = writeln!(o, "        {} => Ok(Self::{}),", v, variant(&en, n)); }
    let _ = writeln!(o, "        _ => Err(::prost::UnknownEnumValue(v)) }} }}\n}}\nimpl From<{en}> for i32 {{ fn from(v: {en}) -> i32 {{ v as i32 }} }}");
}

fn gen_msg(c: &Ctx, m: &Msg, o: &mut String) {
    let name = upper_camel(&m.name); let modn = snake(&m.name);
    let copy = if c.copy[&m.name] { ", Copy" } else { "" };
    let _ = writeln!(o, "#[derive(Clone{copy}, PartialEq, Debug, Default)]\npub struct {name} {{");
    for i in &m.items { match i {
        Item::Field(f) => {
            let t = c.rty(&f.ty);
            let t = match (f.label, c.kind(&f.ty)) { ("repeated", _) => format!("Vec<{t}>"), ("optional", _) | (_, "msg") => format!("Option<{t}>"), _ => t };
            let _ = writeln!(o, "    pub {}: {t},", ident(&f.name));
        }
        Item::OneOf(n, _) => { let _ = writeln!(o, "    pub {}: Option<{modn}::{}>,", ident(n), upper_camel(n)); }
    } }
    let _ = writeln!(o, "}}");
    for i in &m.items { if let Item::OneOf(n, fs) = i {
        let _ = writeln!(o, "pub mod {modn} {{\n    #[derive(Clone, PartialEq, Debug)]\n    pub enum {} {{", upper_camel(n));
        for f in fs { let t = c.rty(&f.ty); let t = if c.kind(&f.ty) == "msg" { format!("super::{t}") } else { t }; let _ = writeln!(o, "        {}({t}),", upper_camel(&f.name)); }
        let _ = writeln!(o, "    }}\n}}");
    } }
    // accessors of enum fields
    let _ = writeln!(o, "impl {name} {{");
    for i in &m.items { if let Item::Field(f) = i { if c.enums.contains_key(&f.ty) && f.label != "repeated" {
        let en = upper_camel(&f.ty); let id = ident(&f.name);
        if f.label == "optional" { let _ = writeln!(o, "    pub fn {id}(&self) -> {en} {{ self.{id}.and_then(|v| {en}::try_from(v).ok()).unwrap_or_default() }}\n    pub fn set_{}(&mut self, v: {en}) {{ self.{id} = Some(v as i32) }}", f.name); }
        else { let _ = writeln!(o, "    pub fn {id}(&self) -> {en} {{ {en}::try_from(self.{id}).unwrap_or_default() }}\n    pub fn set_{}(&mut self, v: {en}) {{ self.{id} = v as i32 }}", f.name); }
    } } }
    let _ = writeln!(o, "}}\nimpl ::prost::Message for {name} {{\n    #[allow(unused_variables)]\n    fn encode_raw(&self, buf: &mut Vec<u8>) {{");
    for i in &m.items { match i {
        Item::Field(f) => { let id = ident(&f.name);
            match (f.label, c.kind(&f.ty)) {
                ("repeated", k @ ("int" | "bool")) => { // packed
                    let e = if k == "bool" { "if *v { 1 } else { 0 }" } else { "*v as u64" };
                    let _ = writeln!(o, "        if !self.{id}.is_empty() {{ let mut p = Vec::new(); for v in &self.{id} {{ ::prost::wire::put_varint(&mut p, {e}); }} ::prost::wire::put_bytes(buf, {}, &p); }}", f.tag); }
                ("repeated", _) => { let _ = writeln!(o, "        for v in &self.{id} {{ {} }}", c.put(&f.ty, f.tag, "v")); }
                ("optional", _) | (_, "msg") => { let _ = writeln!(o, "        if let Some(v) = &self.{id} {{ {} }}", c.put(&f.ty, f.tag, "v")); }
                _ => { let _ = writeln!(o, "        if {} {{ let v = &self.{id}; {} }}", c.nonzero(&f.ty, &format!("self.{id}")), c.put(&f.ty, f.tag, "v")); }
            } }
        Item::OneOf(n, fs) => {
            let _ = writeln!(o, "        match &self.{} {{ None => {{}}", ident(n));
            for f in fs { let _ = writeln!(o, "            Some({modn}::{}::{}(v)) => {{ {} }}", upper_camel(n), upper_camel(&f.name), c.put(&f.ty, f.tag, "v")); }
            let _ = writeln!(o, "        }}");
        }
    } }
    let _ = writeln!(o, "    }}\n    #[allow(unused_variables)]\n    fn merge_field(&mut self, tag: u32, wire: u8, r: &mut ::prost::wire::Reader) -> Result<(), ::prost::DecodeError> {{\n        match tag {{");
    for i in &m.items { match i {
        Item::Field(f) => { let id = ident(&f.name); let g = c.get(&f.ty);
            match (f.label, c.kind(&f.ty)) {
                ("repeated", "int" | "bool") => { let conv = if f.ty == "bool" { "r2.varint()? != 0".to_string() } else { format!("r2.varint()? as {}", c.rty(&f.ty)) };
                    let _ = writeln!(o, "            {} => {{ if wire == 2 {{ let b = r.bytes()?; let mut r2 = ::prost::wire::Reader {{ b, i: 0 }}; while r2.i < b.len() {{ let v = {conv}; self.{id}.push(v); }} }} else {{ let v = {g}; self.{id}.push(v); }} }}", f.tag); }
                ("repeated", _) => { let _ = writeln!(o, "            {} => {{ let v = {g}; self.{id}.push(v); }}", f.tag); }
                (_, "msg") => { let _ = writeln!(o, "            {} => {{ r.expect(wire, 2)?; let b = r.bytes()?; ::prost::Message::merge(self.{id}.get_or_insert_with(Default::default), b)?; }}", f.tag); }
                ("optional", _) => { let _ = writeln!(o, "            {} => {{ self.{id} = Some({g}); }}", f.tag); }
                _ => { let _ = writeln!(o, "            {} => {{ self.{id} = {g}; }}", f.tag); }
            } }
        Item::OneOf(n, fs) => for f in fs { let _ = writeln!(o, "            {} => {{ self.{} = Some({modn}::{}::{}({})); }}", f.tag, ident(n), upper_camel(n), upper_camel(&f.name), c.get(&f.ty)); },
    } }
    let _ = writeln!(o, "            _ => r.skip(wire)?,\n        }}\n        Ok(())\n    }}\n}}");
}
