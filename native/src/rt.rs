//! Generic field-by-field save/load comparison of records, driven by their serialized form.
//! A case = (record kind, leaf, alternative value, version, text/binary).  The record's leaves after load must equal
//! the ones before, except where the committed table `baseline/*.txt` says this version of the format does not carry it.
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Mutex;

pub const ENT: &[&str] = &["3DFACE","3DSOLID","ACAD_PROXY_ENTITY","ARC","ARCALIGNEDTEXT","ATTDEF","ATTRIB","BODY","CIRCLE","ELLIPSE","HELIX","IMAGE","INSERT","LEADER","LIGHT","LINE","LWPOLYLINE","MLINE","MTEXT","OLEFRAME","OLE2FRAME","POINT","POLYLINE","RAY","REGION","RTEXT","SECTION","SEQEND","SHAPE","SOLID","SPLINE","TEXT","TOLERANCE","TRACE","DGNUNDERLAY","DWFUNDERLAY","PDFUNDERLAY","VERTEX","WIPEOUT","XLINE"];
pub const OBJ: &[&str] = &["ACAD_PROXY_OBJECT","ACDBDICTIONARYWDFLT","ACDBPLACEHOLDER","AcDbNavisworksModelDef","DATATABLE","DICTIONARY","DICTIONARYVAR","DIMASSOC","FIELD","GEODATA","GROUP","IDBUFFER","IMAGEDEF","IMAGEDEF_REACTOR","LAYER_FILTER","LAYER_INDEX","LAYOUT","LIGHTLIST","MATERIAL","MLEADERSTYLE","MLINESTYLE","OBJECT_PTR","PLOTSETTINGS","RAPIDRTRENDERENVIRONMENT","RAPIDRTRENDERSETTINGS","RASTERVARIABLES","MENTALRAYRENDERSETTINGS","RENDERENVIRONMENT","RENDERGLOBAL","SECTIONMANAGER","SECTIONSETTINGS","SORTENTSTABLE","SPATIAL_FILTER","SPATIAL_INDEX","SUNSTUDY","TABLESTYLE","UNDERLAYDEFINITION","VBA_PROJECT","VISUALSTYLE","WIPEOUTVARIABLES","XRECORD"];

pub fn load_str(s: &str) -> Result<Drawing, String> { load(s.as_bytes()) }

#[derive(Clone)]
pub struct Base { pub name: String, pub val: Value, pub only: Option<String> }

/// one family of records: how to put one in a drawing and how to get it back
pub trait Kind: Sync {
    fn key(&self) -> &'static str;
    fn bases(&self) -> Vec<Base>;
    fn ok(&self, v: &Value) -> Result<(), String>;
    /// the drawing holding the record, and the record as it is in the drawing
    fn put(&self, v: &Value, ver: AcadVersion) -> (Drawing, Value);
    fn get(&self, d: &Drawing, put: &Value) -> Option<Value>;
}
fn jv<T: serde::Serialize>(t: &T) -> Value { serde_json::to_value(t).unwrap() }
fn empty(ver: AcadVersion) -> Drawing { let mut d = Drawing::new(); d.header.version = ver; d.header.handles_enabled = true; d }

/// default dates are "now": fix them
fn fix_dates(v: &mut Value) {
    match v {
        Value::Object(m) => { for (_, x) in m.iter_mut() { fix_dates(x) } }
        Value::Array(a) => { for x in a { fix_dates(x) } }
        Value::String(s) => { let b = s.as_bytes(); if b.len() >= 19 && b[4] == b'-' && b[10] == b'T' && b[13] == b':' { *s = "2020-02-03T04:05:06Z".into() } }
        _ => {}
    }
}
pub struct Ent;
impl Kind for Ent {
    fn key(&self) -> &'static str { "entity" }
    fn bases(&self) -> Vec<Base> {
        let mut v = vec![];
        for n in ENT {
            if let Ok(d) = load_str(&format!("  0\r\nSECTION\r\n  2\r\nENTITIES\r\n  0\r\n{}\r\n  0\r\nENDSEC\r\n  0\r\nEOF\r\n", n)) {
                if let Some(e) = d.entities().next() { v.push(Base { name: n.to_string(), val: jv(e), only: None }) }
            }
        }
        let mut add = |n: &str, e: EntityType| v.push(Base { name: n.into(), val: jv(&Entity::new(e)), only: None });
        add("DIM-ROTATED", EntityType::RotatedDimension(Default::default()));
        add("DIM-RADIAL", EntityType::RadialDimension(Default::default()));
        add("DIM-DIAMETER", EntityType::DiameterDimension(Default::default()));
        add("DIM-ANGULAR", EntityType::AngularThreePointDimension(Default::default()));
        add("DIM-ORDINATE", EntityType::OrdinateDimension(Default::default()));
        let mut p = Polyline::default();
        { let mut tmp = Drawing::new();
          p.add_vertex(&mut tmp, Vertex::new(Point::new(1.0, 2.0, 3.0)));
          p.add_vertex(&mut tmp, Vertex::new(Point::new(4.0, 5.0, 6.0))); }
        add("POLYLINE+VERTICES", EntityType::Polyline(p));
        let mut i = Insert::default();
        { let mut tmp = Drawing::new();
          i.add_attribute(&mut tmp, Attribute { value: "one".into(), ..Default::default() });
          i.add_attribute(&mut tmp, Attribute { value: "two".into(), ..Default::default() }); }
        add("INSERT+ATTRIBUTES", EntityType::Insert(i));
        v
    }
    fn ok(&self, v: &Value) -> Result<(), String> { serde_json::from_value::<Entity>(v.clone()).map(|_| ()).map_err(|e| e.to_string()) }
    fn put(&self, v: &Value, ver: AcadVersion) -> (Drawing, Value) {
        let mut d = empty(ver);
        let w = jv(d.add_entity(serde_json::from_value(v.clone()).unwrap()));
        (d, w)
    }
    fn get(&self, d: &Drawing, _: &Value) -> Option<Value> { if d.entities().count() == 1 { d.entities().next().map(jv) } else { None } }
}
pub struct Obj;
impl Kind for Obj {
    fn key(&self) -> &'static str { "object" }
    fn bases(&self) -> Vec<Base> {
        let mut v = vec![];
        for n in OBJ {
            if let Ok(d) = load_str(&format!("  0\r\nSECTION\r\n  2\r\nOBJECTS\r\n  0\r\n{}\r\n  0\r\nENDSEC\r\n  0\r\nEOF\r\n", n)) {
                if let Some(e) = d.objects().next() { let mut val = jv(e); fix_dates(&mut val); v.push(Base { name: n.to_string(), val, only: None }) }
            }
        }
        let mut add = |n: &str, o: ObjectType| v.push(Base { name: n.into(), val: jv(&Object::new(o)), only: None });
        add("DATATABLE+CELLS", ObjectType::DataTable(DataTable { row_count: 2, column_count: 3, column_names: vec!["c1".into(), "c2".into(), "c3".into()],
            values: vec![vec![Some(DataTableValue::Integer(5)), Some(DataTableValue::Str("x".into())), Some(DataTableValue::Point3D(Point::new(1.5, 2.5, 3.5)))], vec![Some(DataTableValue::Boolean(true)), Some(DataTableValue::Double(1.5)), Some(DataTableValue::Handle(Handle(77)))]], ..Default::default() }));
        v
    }
    fn ok(&self, v: &Value) -> Result<(), String> { serde_json::from_value::<Object>(v.clone()).map(|_| ()).map_err(|e| e.to_string()) }
    fn put(&self, v: &Value, ver: AcadVersion) -> (Drawing, Value) {
        let mut d = empty(ver);
        let w = jv(d.add_object(serde_json::from_value(v.clone()).unwrap()));
        (d, w)
    }
    fn get(&self, d: &Drawing, _: &Value) -> Option<Value> { if d.objects().count() == 1 { d.objects().next().map(jv) } else { None } }
}
pub struct Hdr;
impl Kind for Hdr {
    fn key(&self) -> &'static str { "header" }
    fn bases(&self) -> Vec<Base> {
        let mut v = jv(&Drawing::new().header);
        v.as_object_mut().unwrap().remove("version");
        fix_dates(&mut v);
        vec![Base { name: "HEADER".into(), val: v, only: None }]
    }
    fn ok(&self, v: &Value) -> Result<(), String> {
        let mut v = v.clone(); v["version"] = json!("R2018");
        serde_json::from_value::<dxf::Header>(v).map(|_| ()).map_err(|e| e.to_string())
    }
    fn put(&self, v: &Value, ver: AcadVersion) -> (Drawing, Value) {
        let mut v = v.clone(); v["version"] = json!(format!("{ver:?}"));
        let mut d = Drawing::new();
        d.header = serde_json::from_value(v).unwrap();
        let w = jv(&d.header);
        (d, w)
    }
    fn get(&self, d: &Drawing, _: &Value) -> Option<Value> { Some(jv(&d.header)) }
}
macro_rules! table_kind {
    ($k:ident, $key:expr, $t:ty, $add:ident, $iter:ident) => {
        pub struct $k;
        impl Kind for $k {
            fn key(&self) -> &'static str { $key }
            fn bases(&self) -> Vec<Base> { let t = <$t>::default(); let mut v = jv(&t); v["name"] = json!("the-name"); vec![Base { name: $key.to_uppercase(), val: v, only: None }] }
            fn ok(&self, v: &Value) -> Result<(), String> { serde_json::from_value::<$t>(v.clone()).map(|_| ()).map_err(|e| e.to_string()) }
            fn put(&self, v: &Value, ver: AcadVersion) -> (Drawing, Value) {
                let mut d = empty(ver);
                let w = jv(d.$add(serde_json::from_value(v.clone()).unwrap()));
                (d, w)
            }
            fn get(&self, d: &Drawing, put: &Value) -> Option<Value> { let v: Vec<Value> = d.$iter().filter(|x| json!(x.name) == put["name"]).map(jv).collect(); if v.len() == 1 { v.into_iter().next() } else { None } }
        }
    };
}
table_kind!(TAppId, "app_id", AppId, add_app_id, app_ids);
table_kind!(TBlockRecord, "block_record", BlockRecord, add_block_record, block_records);
table_kind!(TDimStyle, "dim_style", DimStyle, add_dim_style, dim_styles);
table_kind!(TLayer, "layer", Layer, add_layer, layers);
table_kind!(TLineType, "line_type", LineType, add_line_type, line_types);
table_kind!(TStyle, "style", Style, add_style, styles);
table_kind!(TUcs, "ucs", Ucs, add_ucs, ucss);
table_kind!(TView, "view", View, add_view, views);
table_kind!(TViewPort, "view_port", ViewPort, add_view_port, view_ports);
table_kind!(TBlock, "block", Block, add_block, blocks);
pub struct Cls;
impl Kind for Cls {
    fn key(&self) -> &'static str { "class" }
    fn bases(&self) -> Vec<Base> { vec![Base { name: "CLASS".into(), val: jv(&Class::default()), only: None }] }
    fn ok(&self, v: &Value) -> Result<(), String> { serde_json::from_value::<Class>(v.clone()).map(|_| ()).map_err(|e| e.to_string()) }
    fn put(&self, v: &Value, ver: AcadVersion) -> (Drawing, Value) {
        let mut d = empty(ver);
        d.classes.push(serde_json::from_value(v.clone()).unwrap());
        let w = jv(&d.classes[0]);
        (d, w)
    }
    fn get(&self, d: &Drawing, _: &Value) -> Option<Value> { if d.classes.len() == 1 { Some(jv(&d.classes[0])) } else { None } }
}

pub fn leaves(v: &Value, p: &str, out: &mut Vec<String>) {
    match v {
        Value::Object(m) if !m.is_empty() => { for (k, x) in m { leaves(x, &format!("{p}/{}", k.replace('~', "~0").replace('/', "~1")), out) } }
        Value::Array(a) if !a.is_empty() => { for (i, x) in a.iter().enumerate() { leaves(x, &format!("{p}/{i}"), out) } }
        _ => out.push(p.to_string()),
    }
}
fn generic(v: &Value) -> Vec<Value> {
    match v {
        Value::Bool(b) => vec![json!(!b)],
        Value::Number(n) if n.is_f64() => vec![json!(1.5), json!(-2.25), json!(0.0), json!(1234567.125), json!(0.001953125), json!(5.0)],
        Value::Number(_) => vec![json!(1), json!(2), json!(3), json!(0), json!(-1), json!(7), json!(257), json!(32767), json!(70000)],
        Value::String(_) => vec![json!("abc def"), json!(""), json!("caf\u{e9}"), json!("2021-03-04T05:06:07Z"), json!("01234567-89ab-cdef-0123-456789abcdef")],
        Value::Null => vec![json!(1), json!(1.5), json!("abc"), json!(true), json!({"x":1.5,"y":2.5,"z":3.5}), json!(["a"])],
        Value::Array(_) => vec![json!([1.5, 2.5]), json!([3, 4]), json!([true, false]), json!(["a", "b c"]), json!(["2021-03-04T05:06:07Z", "1999-12-31T23:59:58Z"]),
            json!([{"x":1.5,"y":2.5,"z":3.5},{"x":-1.5,"y":-2.5,"z":-3.5}]), json!([{"x":3.0,"y":2.0,"z":4.0},{"x":6.0,"y":7.0,"z":8.0}]), json!([{"x":1.5,"y":2.5,"z":0.0},{"x":-1.5,"y":-2.5,"z":0.0}]), json!([[1,2,3],[4,5,250]]),
            jv(&vec![LwPolylineVertex { x: 1.5, y: 2.5, id: 3, starting_width: 1.25, ending_width: 2.25, bulge: 0.5 }, LwPolylineVertex { x: -1.5, y: -2.5, ..Default::default() }]),
            jv(&vec![TableCellStyle::default(), TableCellStyle { name: "nn".into(), ..Default::default() }]),
            jv(&vec![SectionTypeSettings { section_type: 3, geometry_settings: vec![Default::default(), SectionGeometrySettings { layer_name: "LL".into(), ..Default::default() }], source_object_handles: vec![Handle(5), Handle(6)], ..Default::default() }, SectionTypeSettings::default()]),
            jv(&vec![GeoMeshPoint { source: Point::new(1.5, 2.5, 0.0), destination: Point::new(3.5, 4.5, 0.0) }, GeoMeshPoint { source: Point::new(5.5, 6.5, 0.0), destination: Point::new(7.5, 8.5, 0.0) }]),
            json!([{"offset":1.5,"color":{"raw_value":3},"line_type":"LT"},{"offset":-1.5,"color":{"raw_value":4},"line_type":"L2"}]),
            json!([[{"Integer": 5}, {"Double": 1.5}], [{"Str": "x"}, {"Boolean": true}]]),
            json!([[{"Integer": 5}, {"Integer": 6}], [{"Integer": 7}, {"Integer": 8}]]),
        ],
        Value::Object(_) => vec![json!({"k1": 5, "k2": 6}), json!({"k1": "a", "k2": "b"}), json!({"k1": [5, 6]}), json!({"x":1.5,"y":2.5,"z":3.5})],
    }
}
fn set(base: &Value, path: &str, a: Value) -> Value { let mut t = base.clone(); *t.pointer_mut(path).unwrap() = a; t }
/// well-typed alternatives for one leaf
pub fn alts(k: &dyn Kind, base: &Value, path: &str) -> Vec<Value> {
    let cur = base.pointer(path).unwrap().clone();
    let mut cand = generic(&cur);
    if cur.is_string() {
        if let Err(m) = k.ok(&set(base, path, json!("@@bad"))) {
            if m.contains("expected one of") || m.contains("unknown variant") { cand = m.split('`').skip(3).step_by(2).map(|s| json!(s)).collect() }
        }
    }
    cand.into_iter().filter(|a| *a != cur).filter(|a| k.ok(&set(base, path, a.clone())).is_ok()).collect()
}
/// leaf paths that differ between the record before and the record after
pub fn diff(want: &Value, got: &Value) -> Vec<String> {
    let mut lw = vec![]; leaves(want, "", &mut lw);
    let mut lg = vec![]; leaves(got, "", &mut lg);
    let mut out: Vec<String> = lw.into_iter().filter(|p| got.pointer(p) != want.pointer(p)).collect();
    for p in lg { if want.pointer(&p).is_none() { out.push(p) } }
    out
}
pub fn one(k: &dyn Kind, v: &Value, ver: AcadVersion, bin: bool) -> (Vec<String>, Value, Option<Value>) {
    let (d, want) = match guard(|| k.put(v, ver)) { Ok(x) => x, Err(m) => return (vec![format!("!put {m}")], v.clone(), None) };
    match round_trip(&d, bin) {
        Err(m) => (vec![if m.starts_with("PANIC") { "!panic".into() } else { "!fail".into() }, format!("#{m}")], want, None),
        Ok(d2) => match k.get(&d2, &want) { None => (vec!["!gone".into()], want, None), Some(g) => (diff(&want, &g), want, Some(g)) },
    }
}

pub const MODES: usize = 22;
pub fn mode(i: usize) -> (AcadVersion, bool) { (VERS[i / 2], i % 2 == 1) }
type Table = BTreeMap<String, BTreeMap<String, u32>>; // case -> differing leaf -> modes

pub fn all_bases(k: &dyn Kind) -> Vec<Base> {
    let mut out = vec![];
    for b in k.bases() {
        let mut ls = vec![]; leaves(&b.val, "", &mut ls);
        for l in ls {
            if b.val.pointer(&l).unwrap().is_array() || b.val.pointer(&l).unwrap().is_object() {
                for (i, a) in alts(k, &b.val, &l).into_iter().enumerate() {
                    let val = set(&b.val, &l, a.clone());
                    if a.to_string().contains('{') { out.push(Base { name: format!("{}+{}{}", b.name, l.rsplit('/').next().unwrap(), if i == 0 { String::new() } else { format!("#{i}") }), val, only: Some(l.clone()) }); }
                    else { break }
                }
            }
        }
        out.push(b);
    }
    out
}
/// all single-leaf cases of a family: (base name, leaf, index of alternative, record)
pub fn single_cases(k: &dyn Kind) -> Vec<(String, Value)> {
    let mut cases = vec![];
    for b in all_bases(k) {
        cases.push((format!("{}||", b.name), b.val.clone()));
        let mut ls = vec![]; leaves(&b.val, "", &mut ls);
        for l in ls {
            if let Some(o) = &b.only { if !l.starts_with(o.as_str()) { continue } }
            for (i, a) in alts(k, &b.val, &l).into_iter().enumerate() { cases.push((format!("{}|{}|{}", b.name, l, i), set(&b.val, &l, a))) }
        }
    }
    cases
}
/// random many-leaf cases, reproducible
pub fn multi_cases(k: &dyn Kind, per: usize, seed: u64) -> Vec<(String, Value)> {
    let mut cases = vec![];
    let mut r = Rng::new(seed);
    for b in all_bases(k) {
        let mut ls = vec![]; leaves(&b.val, "", &mut ls);
        let al: Vec<(String, Vec<Value>)> = ls.into_iter().filter(|l| !l.contains("/__")).map(|l| { let a = alts(k, &b.val, &l); (l, a) }).filter(|x| !x.1.is_empty()).collect();
        for n in 0..per {
            let mut v = b.val.clone();
            let dense = n % 2 == 0;
            for (l, a) in &al { if dense || r.below(3) == 0 { let x = r.pick(a).clone(); if let Some(p) = v.pointer_mut(l) { *p = x } } }
            if k.ok(&v).is_ok() { cases.push((format!("{}|multi|{}", b.name, n), v)) }
        }
    }
    cases
}
fn star(p: &str) -> String { p.split('/').map(|x| if !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()) { "*" } else { x }).collect::<Vec<_>>().join("/") }
/// every list of every record kind: 1 to 6 elements whose leaves are varied independently of each other
pub fn list_cases(k: &dyn Kind, per: usize, seed: u64) -> Vec<(String, Value)> {
    let mut cases = vec![];
    let mut r = Rng::new(seed);
    for b in k.bases() {
        let mut arrays: std::collections::BTreeSet<String> = Default::default();
        let mut ls = vec![]; leaves(&b.val, "", &mut ls);
        for l in ls {
            if b.val.pointer(&l).unwrap().is_array() { arrays.insert(l.clone()); }
            let f: Vec<&str> = l.split('/').collect();
            for i in 1..f.len() { let q = f[..i].join("/"); if b.val.pointer(&q).map_or(false, |x| x.is_array()) && !f[..i].iter().any(|x| x.parse::<u32>().is_ok()) { arrays.insert(q); } }
        }
        for l in arrays {
            let cur = b.val.pointer(&l).unwrap().as_array().unwrap().clone();
            let mut pool: Vec<Vec<Value>> = alts(k, &b.val, &l).into_iter().filter_map(|a| a.as_array().cloned()).filter(|a| !a.is_empty()).collect();
            if !cur.is_empty() { pool = vec![cur] }
            if pool.is_empty() { continue }
            for n in 0..per {
                let from = r.pick(&pool).clone();
                let mut v = set(&b.val, &l, Value::Array((0..[1, 3, 4, 6][n % 4]).map(|_| r.pick(&from).clone()).collect()));
                let mut el = vec![]; leaves(v.pointer(&l).unwrap(), &l, &mut el);
                for e in el {
                    if e.contains("/__") && !l.contains("/__") || r.below(3) == 0 { continue }
                    let g: Vec<Value> = generic(v.pointer(&e).unwrap()).into_iter().collect();
                    if g.is_empty() { continue }
                    let w = set(&v, &e, r.pick(&g).clone());
                    if k.ok(&w).is_ok() { v = w }
                }
                cases.push((format!("{}|{}|{n}", b.name, l), v))
            }
        }
    }
    cases
}
pub const LISTS: usize = 12;
pub fn measure(c: Option<&Ctx>, k: &dyn Kind, cases: &[(String, Value)], modes: &[usize], limit: (u64, u64)) -> (Table, BTreeMap<String, String>) {
    let t = Mutex::new(Table::new());
    let msg = Mutex::new(BTreeMap::new());
    par(cases.len(), |i| {
        let (name, v) = &cases[i];
        for &m in modes {
            if let Some(c) = c { if elapsed_over(c, limit.0, limit.1) { return } c.case(&(k.key(), name, m)); }
            let (ver, bin) = mode(m);
            let (d, want, got) = one(k, v, ver, bin);
            if d.is_empty() { continue }
            let mut g = t.lock().unwrap();
            let e = g.entry(name.clone()).or_default();
            for p in &d {
                if p.starts_with('#') { continue }
                *e.entry(p.clone()).or_default() |= 1 << m;
                let key = format!("{name}>{p}>{m}");
                let txt = if p.starts_with('!') { d.join(" ") } else { format!("{p}: {} became {}", want.pointer(p).unwrap_or(&Value::Null), got.as_ref().and_then(|g| g.pointer(p)).unwrap_or(&Value::Null)) };
                let mut mm = msg.lock().unwrap();
                if mm.len() < 300_000 { mm.insert(key, txt); }
            }
        }
    });
    (t.into_inner().unwrap(), msg.into_inner().unwrap())
}
/// what may differ: `loss` is the union over single-leaf cases, `t` the exact single-leaf table
fn dump(t: &Table, all: &[(String, Value)], multi: &Table, lists: &Table) -> String {
    let mut s = String::new();
    let mut noise: BTreeMap<String, BTreeMap<String, u32>> = Default::default();
    for (n, e) in t { if n.ends_with("||") { noise.insert(n.split('|').next().unwrap().into(), e.clone()); } }
    let mut bases: BTreeMap<String, std::collections::BTreeSet<String>> = Default::default();
    for (n, _) in all { let mut p = n.split('|'); let b = p.next().unwrap(); let l = p.next().unwrap(); bases.entry(b.into()).or_default().insert(l.into()); }
    for (b, ls) in &bases {
        s += &format!("B {b}\n");
        for l in ls { if !l.is_empty() { s += &format!("L {l}\n") } }
        if let Some(e) = noise.get(b) { for (p, m) in e { s += &format!("N {p} {m:x}\n") } }
        let empty = Default::default();
        let nz = noise.get(b).unwrap_or(&empty);
        // group equal alternatives of a leaf
        let mut by_leaf: BTreeMap<String, BTreeMap<(String, u32), Vec<String>>> = Default::default();
        for (n, e) in t.range(format!("{b}|")..format!("{b}}}")) {
            let f: Vec<&str> = n.split('|').collect();
            if f[1].is_empty() { continue }
            for (p, m) in e { let x = if p == f[1] { *m } else { m & !nz.get(p).copied().unwrap_or(0) }; if x != 0 { by_leaf.entry(f[1].into()).or_default().entry((p.clone(), x)).or_default().push(f[2].into()) } }
        }
        for (l, g) in by_leaf { for ((p, m), alts) in g { s += &format!("C {l} {} {} {m:x}\n", alts.join(","), if p == l { "=".into() } else { p }) } }
        let mut mu: BTreeMap<String, u32> = Default::default();
        for (n, e) in multi { if n.split('|').next() == Some(b) { for (p, m) in e { *mu.entry(p.clone()).or_default() |= m } } }
        for (p, m) in mu { s += &format!("M {p} {m:x}\n") }
        let mut mu: BTreeMap<String, u32> = Default::default();
        for (n, e) in lists { if n.split('|').next() == Some(b) { for (p, m) in e { *mu.entry(star(p)).or_default() |= m } } }
        for (p, m) in mu { s += &format!("G {p} {m:x}\n") }
    }
    s
}
#[derive(Default)]
struct Allowed { leaves: std::collections::BTreeSet<String>, noise: BTreeMap<String, u32>, cases: BTreeMap<(String, String, String), u32>, multi: BTreeMap<String, u32>, lists: BTreeMap<String, u32>, known_base: bool }
fn parse(text: &str) -> BTreeMap<String, Allowed> {
    let mut out: BTreeMap<String, Allowed> = Default::default();
    let mut b = String::new();
    for line in text.lines() {
        let f: Vec<&str> = line.split(' ').collect();
        match f[0] {
            "B" => { b = line[2..].to_string(); out.entry(b.clone()).or_default().known_base = true }
            "L" => { out.get_mut(&b).unwrap().leaves.insert(f[1].into()); }
            "N" => { out.get_mut(&b).unwrap().noise.insert(f[1].into(), u32::from_str_radix(f[2], 16).unwrap()); }
            "C" => { let a = out.get_mut(&b).unwrap(); for i in f[2].split(',') { *a.cases.entry((f[1].into(), i.into(), if f[3] == "=" { f[1].into() } else { f[3].into() })).or_default() |= u32::from_str_radix(f[4], 16).unwrap() } }
            "G" => { out.get_mut(&b).unwrap().lists.insert(f[1].into(), u32::from_str_radix(f[2], 16).unwrap()); }
            "M" => { out.get_mut(&b).unwrap().multi.insert(f[1].into(), u32::from_str_radix(f[2], 16).unwrap()); }
            _ => {}
        }
    }
    out
}
pub fn baseline_path(k: &dyn Kind) -> String { format!("{}/baseline/{}.txt", env!("CARGO_MANIFEST_DIR"), k.key()) }
pub const MULTI: usize = 24;
pub fn make_baseline(k: &dyn Kind) {
    let modes: Vec<usize> = (0..MODES).collect();
    let cases = single_cases(k);
    let (t, _) = measure(None, k, &cases, &modes, (0, 0));
    let (m, _) = measure(None, k, &multi_cases(k, MULTI, 77), &modes, (0, 0));
    let (g, _) = measure(None, k, &list_cases(k, LISTS, 78), &modes, (0, 0));
    std::fs::write(baseline_path(k), dump(&t, &cases, &m, &g)).unwrap();
    println!("{}: {} single cases", k.key(), cases.len());
}
pub fn check(c: &Ctx, k: &dyn Kind) {
    let all = parse(&std::fs::read_to_string(baseline_path(k)).unwrap());
    let modes: Vec<usize> = (0..MODES).collect();
    let mut cases = single_cases(k);
    cases.retain(|(n, _)| { let f: Vec<&str> = n.split('|').collect(); all.get(f[0]).map_or(false, |a| f[1].is_empty() || a.leaves.contains(f[1])) });
    let found: std::collections::BTreeSet<String> = cases.iter().map(|x| x.0.split('|').next().unwrap().to_string()).collect();
    for b in all.keys() { if !found.contains(b) { c.fail(format!("{}:{b}:missing", k.key()), b.clone(), "a record of this kind can no longer be read from a file or built".to_string()) } }
    if let Some(x) = cases.get(cases.len() / 2) { c.sample(|| format!("{} {}: {}", k.key(), x.0, x.1.to_string().chars().take(300).collect::<String>())) }
    let (t, msg) = measure(Some(c), k, &cases, &modes, (150, 1500));
    for (n, e) in &t {
        let f: Vec<&str> = n.split('|').collect();
        let a = &all[f[0]];
        for (p, m) in e {
            if p.contains("/__") && !a.leaves.contains(p) { continue }
            // the leaf a case sets is judged by the entry of that very case alone
            let ok = if p == f[1] { 0 } else { a.noise.get(p).copied().unwrap_or(0) } | a.cases.get(&(f[1].into(), f[2].into(), p.clone())).copied().unwrap_or(0);
            let bad = m & !ok;
            if bad != 0 { report(c, k, n, p, bad, &msg, &cases) }
        }
    }
    let mut mc = multi_cases(k, c.scale(MULTI, MULTI), 77);
    mc.retain(|(n, _)| all.contains_key(n.split('|').next().unwrap()));
    let (t, msg) = measure(Some(c), k, &mc, &modes, (200, 2500));
    for (n, e) in &t {
        let a = &all[n.split('|').next().unwrap()];
        for (p, m) in e {
            if p.contains("/__") && !a.leaves.contains(p) { continue }
            let mut ok = a.noise.get(p).copied().unwrap_or(0) | a.multi.get(p).copied().unwrap_or(0);
            for ((_, _, q), mm) in &a.cases { if q == p { ok |= mm } }
            let bad = m & !ok;
            if bad != 0 { report(c, k, n, p, bad, &msg, &mc) }
        }
    }
}
pub fn check_lists(c: &Ctx, k: &dyn Kind) {
    let all = parse(&std::fs::read_to_string(baseline_path(k)).unwrap());
    let modes: Vec<usize> = (0..MODES).collect();
    let mut lc = list_cases(k, LISTS, 78);
    lc.retain(|(n, _)| all.contains_key(n.split('|').next().unwrap()));
    let (t, msg) = measure(Some(c), k, &lc, &modes, (250, 2800));
    for (n, e) in &t {
        let a = &all[n.split('|').next().unwrap()];
        for (p, m) in e {
            if p.contains("/__") && !a.leaves.contains(p) && !n.contains("/__") { continue }
            let bad = m & !(a.noise.get(p).copied().unwrap_or(0) | a.lists.get(&star(p)).copied().unwrap_or(0));
            if bad != 0 { report(c, k, n, p, bad, &msg, &lc) }
        }
    }
}
fn report(c: &Ctx, k: &dyn Kind, n: &str, p: &str, bad: u32, msg: &BTreeMap<String, String>, cases: &[(String, Value)]) {
    let m = bad.trailing_zeros() as usize;
    let (ver, bin) = mode(m);
    let txt = msg.get(&format!("{n}>{p}>{m}")).cloned().unwrap_or_default();
    let input = cases.iter().find(|x| x.0 == n).map(|x| x.1.to_string()).unwrap_or_default();
    c.fail(format!("{}:{}:{}", k.key(), n.split('|').next().unwrap(), p), format!("{:?} {} {input}", ver, if bin { "binary" } else { "text" }), format!("{n} {ver:?} {}: {txt}", if bin { "binary" } else { "text" }));
}

pub fn run(c: &Ctx, group: &str) {
    c.bound("every leaf of every record kind set to each of its well-typed alternative values (all enum variants, every boolean, 6 doubles, 9 integers, 5 texts, lists), plus 24 random many-leaf records per kind and 12 records per list with 1 to 6 independently varied elements; all 11 versions, text and binary; compared leaf by leaf with the record before saving, except leaves which the committed table native/baseline lists as not carried by that version's layout; non-trivial: a distinct (kind, leaf, value, version, format)");
    for k in crate::kinds(group) { check(c, &*k); check_lists(c, &*k) }
    if group == "object" { xrecords(c) }
    known_defects(c, group);
}
/// fields lost because the generated code (spec/*.xml) writes them in one group code and reads them from another, or not at all: listed in known-findings.json
fn known_defects(c: &Ctx, group: &str) {
    let pts = json!([{"x":1.5,"y":2.5,"z":0.0},{"x":-1.5,"y":-2.5,"z":0.0}]);
    let cases: Vec<(&str, &str, &str, Value)> = match group {
        "entity" => vec![("mline-vertices", "MLINE", "/specific/MLine/vertices", pts.clone()), ("wipeout-clipping", "WIPEOUT", "/specific/Wipeout/clipping_vertices", pts.clone()),
            ("underlay-points-dgn", "DGNUNDERLAY", "/specific/DgnUnderlay/points", pts.clone()), ("underlay-points-dwf", "DWFUNDERLAY", "/specific/DwfUnderlay/points", pts.clone()), ("underlay-points-pdf", "PDFUNDERLAY", "/specific/PdfUnderlay/points", pts)],
        "object" => vec![("renderenvironment", "RENDERENVIRONMENT", "/specific/RenderEnvironment/far_fog_density_percent", json!(1.5)), ("renderglobal", "RENDERGLOBAL", "/specific/RenderGlobal/image_width", json!(7)),
            ("mentalray", "MENTALRAYRENDERSETTINGS", "/specific/MentalRayRenderSettings/tile_size", json!(7)), ("rapidrt", "RAPIDRTRENDERSETTINGS", "/specific/RapidRenderSettings/render_time_limit", json!(7)),
            ("material-gloss", "MATERIAL", "/specific/Material/specular_gloss_factor", json!(1.5)), ("material-vtile", "MATERIAL", "/specific/Material/map_v_tile", json!(7))],
        _ => vec![],
    };
    for k in crate::kinds(group) {
        let bases = k.bases();
        for (key, b, leaf, v) in &cases {
            if let Some(base) = bases.iter().find(|x| x.name == *b) {
                let (d, want, got) = one(&*k, &set(&base.val, leaf, v.clone()), AcadVersion::R2018, false);
                if d.iter().any(|p| p.starts_with(leaf) || p.starts_with('!')) { c.fail(key.to_string(), want.to_string(), format!("{leaf} is not carried: {} became {:?}", v, got.and_then(|g| g.pointer(leaf).cloned()))) }
            }
        }
    }
}

/// XRECORD: any pairs (all codes except the ones that end the record or start XDATA), each value as its code's type says
fn xrecords(c: &Ctx) {
    c.bound("XRECORD objects with 0 to 14 data pairs of every group code from 1 to 999 that has a type (except 999), R14 to R2018, text and binary");
    let codes: Vec<i32> = (1..999).filter(|x| crate::dec::ty(*x).is_some()).collect();
    par(c.scale(3000, 200000), |i| {
        let mut r = Rng::new(c.seed.wrapping_mul(31).wrapping_add(i as u64));
        let mut x = XRecordObject::default();
        x.duplicate_record_handling = *r.pick(&[dxf::enums::DictionaryDuplicateRecordHandling::NotApplicable, dxf::enums::DictionaryDuplicateRecordHandling::KeepExisting, dxf::enums::DictionaryDuplicateRecordHandling::UseClone]);
        for j in 0..r.below(15) {
            let code = if j == 0 { codes[i % codes.len()] } else if r.below(3) == 0 { *r.pick(&[280, 100, 102, 5, 105, 330, 360, 1, 70]) } else { *r.pick(&codes) };
            let s = *r.pick(&["abc", "", "AcDbXrecord", "{ACAD_REACTORS", "}", "FF", " a b "]);
            x.data_pairs.push(match crate::dec::ty(code).unwrap() {
                crate::dec::T::S => CodePair::new_str(code, s), crate::dec::T::D => CodePair::new_f64(code, r.f64_exact()), crate::dec::T::I16 => CodePair::new_i16(code, r.i16()), crate::dec::T::I32 => CodePair::new_i32(code, r.i32()),
                crate::dec::T::I64 => CodePair::new_i64(code, r.i64()), crate::dec::T::Bool => CodePair::new_bool(code, r.bool()), crate::dec::T::X => CodePair::new_binary(code, (0..r.below(20)).map(|_| r.next() as u8).collect()) });
        }
        let ver = VERS[4 + i % (VERS.len() - 4)]; let bin = r.bool();
        let mut d = empty(ver);
        let show = |x: &XRecordObject| format!("{:?} {:?}", x.duplicate_record_handling, x.data_pairs.iter().map(|p| (p.code, format!("{:?}", p.value))).collect::<Vec<_>>());
        let want = show(&x);
        c.case(&(&want, i % 9, bin));
        d.add_object(Object::new(ObjectType::XRecordObject(x)));
        let inp = || format!("{ver:?} {} {want}", if bin { "binary" } else { "text" });
        match round_trip(&d, bin) {
            Err(e) => c.fail("xrecord:load", inp(), e),
            Ok(d2) => { let got: Vec<String> = d2.objects().filter_map(|o| match o.specific { ObjectType::XRecordObject(ref x) => Some(show(x)), _ => None }).collect(); if got.len() != 1 || got[0] != want { c.fail("xrecord:pairs", inp(), format!("came back as {got:?}")) } }
        }
    });
}
