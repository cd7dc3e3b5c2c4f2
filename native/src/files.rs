//! Whole-file contracts: C19 (any bytes), C20 (unknown content), C21 (order and independence of records), C24 (I/O failures), C26 (equivalent files).
use crate::dec;
use crate::rt::{self, Kind};
use crate::util::*;
use dxf::*;
use serde_json::{json, Value};
use std::io::{Cursor, Read, Write};

fn jv<T: serde::Serialize>(t: &T) -> Value { serde_json::to_value(t).unwrap() }
/// records without their handles (which depend on what else is in the drawing)
fn bare(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter_map(|(k, x)| if k.ends_with("_and_handles") { Some((k.clone(), Value::Array(x.as_array().unwrap().iter().map(|e| bare(&e[0])).collect()))) } else if k.contains("handle") || k == "offset" { None } else { Some((k.clone(), bare(x))) }).collect()),
        Value::Array(a) => Value::Array(a.iter().map(bare).collect()),
        x => x.clone(),
    }
}
fn pool(k: &dyn Kind, per: usize) -> Vec<(String, Value)> {
    let mut v: Vec<(String, Value)> = k.bases().into_iter().map(|b| (b.name, b.val)).collect();
    v.extend(rt::multi_cases(k, per, 77).into_iter().map(|(n, x)| (n.split(['|', '+']).next().unwrap().to_string(), x)));
    v
}
pub struct Pools { ent: Vec<(String, Value)>, obj: Vec<(String, Value)>, tab: Vec<(Box<dyn Kind>, Vec<(String, Value)>)> }
pub fn pools(per: usize) -> Pools {
    Pools { ent: pool(&rt::Ent, per), obj: pool(&rt::Obj, per), tab: crate::kinds("table").into_iter().map(|k| { let p = pool(&*k, per + 2); (k, p) }).collect() }
}
fn blank(ver: AcadVersion) -> Drawing { let mut d = Drawing::new(); d.header.version = ver; d.header.handles_enabled = true; d }
fn ent(v: &Value) -> dxf::entities::Entity { serde_json::from_value(v.clone()).unwrap() }
fn obj(v: &Value) -> dxf::objects::Object { serde_json::from_value(v.clone()).unwrap() }
fn add_table(d: &mut Drawing, key: &str, v: &Value, name: &str) {
    let mut v = v.clone();
    v["name"] = json!(name);
    macro_rules! a { ($m:ident) => {{ d.$m(serde_json::from_value(v).unwrap()); }} }
    match key { "app_id" => a!(add_app_id), "block_record" => a!(add_block_record), "dim_style" => a!(add_dim_style), "layer" => a!(add_layer), "line_type" => a!(add_line_type), "style" => a!(add_style), "ucs" => a!(add_ucs), "view" => a!(add_view), _ => a!(add_view_port) }
}
fn get_table(d: &Drawing, key: &str) -> Vec<Value> {
    match key { "app_id" => d.app_ids().map(jv).collect(), "block_record" => d.block_records().map(jv).collect(), "dim_style" => d.dim_styles().map(jv).collect(), "layer" => d.layers().map(jv).collect(), "line_type" => d.line_types().map(jv).collect(), "style" => d.styles().map(jv).collect(), "ucs" => d.ucss().map(jv).collect(), "view" => d.views().map(jv).collect(), _ => d.view_ports().map(jv).collect() }
}
/// a drawing with some of everything
fn some(r: &mut Rng, p: &Pools, ver: AcadVersion, n: usize) -> Drawing {
    let mut d = blank(ver);
    for _ in 0..1 + r.below(n) { d.add_entity(ent(&r.pick(&p.ent).1)); }
    for _ in 0..r.below(n) { d.add_object(obj(&r.pick(&p.obj).1)); }
    for i in 0..r.below(n) { let (k, l) = r.pick(&p.tab); add_table(&mut d, k.key(), &r.pick(l).1, &format!("n{i}")); }
    for i in 0..r.below(3) { let mut b = Block { name: format!("b{i}"), ..Default::default() }; for _ in 0..r.below(4) { b.entities.push(ent(&r.pick(&p.ent).1)) } d.add_block(b); }
    if r.bool() { d.classes.push(Class::default()) }
    d
}
fn content(d: &Drawing) -> Value {
    let mut v = jv(d);
    fix(&mut v);
    // random where the file has none
    for k in ["fingerprint_guid", "version_guid"] { v["header"].as_object_mut().unwrap().remove(k); }
    v
}
fn fix(v: &mut Value) {
    match v {
        Value::Object(m) => { m.remove("offset"); for (_, x) in m.iter_mut() { fix(x) } }
        Value::Array(a) => { for x in a { fix(x) } }
        Value::String(s) => { let b = s.as_bytes(); if b.len() >= 19 && b[4] == b'-' && b[10] == b'T' && b[13] == b':' && (s.starts_with("202") && &s[..4] > "2024") { *s = "now".into() } }
        _ => {}
    }
}
fn first_diff(a: &Value, b: &Value) -> String { let d = rt::diff(a, b); d.into_iter().take(4).map(|p| format!("{p}: {} / {}", a.pointer(&p).unwrap_or(&Value::Null), b.pointer(&p).unwrap_or(&Value::Null))).collect::<Vec<_>>().join("; ") }

// ---------------------------------------------------------------- C21
/// what may not follow what without changing its meaning: children belong to the record before them
fn attaches(prev: &str, next: &str) -> bool {
    let open = ["ATTRIB", "ATTDEF", "INSERT", "POLYLINE"].iter().any(|p| prev.starts_with(p));
    open && ["MTEXT", "ATTRIB", "VERTEX", "SEQEND"].contains(&next)
}
pub fn order(c: &Ctx) {
    c.bound("random drawings of 2..9 entities, objects and table records of every kind (random field values), written together, in the model and in a block; each record must load exactly as it loads when it is alone in the file, in the order it was added; 11 versions, text and binary; polyline/insert children with the SEQEND record removed from the file");
    let p = pools(2);
    par(c.scale(9000, 200000), |i| {
        if elapsed_over(c, 60, 900) { return }
        let mut r = Rng::new(c.seed.wrapping_mul(6151).wrapping_add(i as u64));
        let (ver, bin) = (*r.pick(VERS), r.bool());
        match r.below(4) {
            0 | 1 => {
                let mut names: Vec<&str> = vec![]; let mut vals = vec![]; let mut want: Vec<Value> = vec![];
                for _ in 0..2 + r.below(8) {
                    let (n, v) = r.pick(&p.ent);
                    let mut d = blank(ver); d.add_entity(ent(v));
                    let Ok(d1) = round_trip(&d, bin) else { continue };
                    let alone: Vec<Value> = d1.entities().map(|e| bare(&jv(e))).collect();
                    if let Some(q) = names.last() { if attaches(q, n) { continue } }
                    if !alone.is_empty() { names.push(n) }
                    vals.push(v.clone()); want.extend(alone);
                }
                let inp = || format!("entities {names:?} {ver:?} binary {bin}: {}", json!(vals));
                c.case(&inp()); c.sample(|| format!("{names:?} {ver:?} binary {bin}"));
                let mut d = blank(ver);
                let in_block = r.bool();
                if in_block { d.add_block(Block { name: "the block".into(), entities: vals.iter().map(ent).collect(), ..Default::default() }); } else { for v in &vals { d.add_entity(ent(v)); } }
                match round_trip(&d, bin) {
                    Err(e) => c.fail(format!("entities-load{}", if in_block { "-block" } else { "" }), inp(), e),
                    Ok(d2) => {
                        let got: Vec<Value> = if in_block { d2.blocks().filter(|b| b.name == "the block").flat_map(|b| b.entities.iter()).map(|e| bare(&jv(e))).collect() } else { d2.entities().map(|e| bare(&jv(e))).collect() };
                        if got.len() != want.len() { c.fail(format!("entities-count{}", if in_block { "-block" } else { "" }), inp(), format!("{} records instead of {}", got.len(), want.len())) }
                        else { for j in 0..got.len() { if got[j] != want[j] { c.fail(format!("entities{}:{}", if in_block { "-block" } else { "" }, names[j]), inp(), format!("record {j} ({}) differs from the same record alone: {}", names[j], first_diff(&want[j], &got[j]))) } } }
                    }
                }
            }
            2 => {
                let mut names: Vec<&str> = vec![]; let mut vals = vec![]; let mut want: Vec<Value> = vec![];
                for _ in 0..2 + r.below(8) {
                    let (n, v) = r.pick(&p.obj);
                    let mut d = blank(ver); d.add_object(obj(v));
                    let Ok(d1) = round_trip(&d, bin) else { continue };
                    let alone: Vec<Value> = d1.objects().map(|e| bare(&jv(e))).collect();
                    if !alone.is_empty() { names.push(n) }
                    vals.push(v.clone()); want.extend(alone);
                }
                let inp = || format!("objects {names:?} {ver:?} binary {bin}: {}", json!(vals));
                c.case(&inp());
                let mut d = blank(ver);
                for v in &vals { d.add_object(obj(v)); }
                match round_trip(&d, bin) {
                    Err(e) => c.fail("objects-load", inp(), e),
                    Ok(d2) => {
                        let got: Vec<Value> = d2.objects().map(|e| bare(&jv(e))).collect();
                        if got.len() != want.len() { c.fail("objects-count", inp(), format!("{} records instead of {}", got.len(), want.len())) }
                        else { for j in 0..got.len() { if got[j] != want[j] { c.fail(format!("objects:{}", names[j]), inp(), format!("record {j} ({}) differs from the same record alone: {}", names[j], first_diff(&want[j], &got[j]))) } } }
                    }
                }
            }
            _ => {
                let mut all = vec![];
                for t in 0..1 + r.below(6) { let (k, l) = r.pick(&p.tab); all.push((k.key(), r.pick(l).1.clone(), format!("name {t}"))) }
                let inp = || format!("tables {ver:?} binary {bin}: {}", json!(all.iter().map(|x| (x.0, &x.1, &x.2)).collect::<Vec<_>>()));
                let mut d = blank(ver);
                for (k, v, n) in &all { add_table(&mut d, k, v, n) }
                c.case(&inp());
                match round_trip(&d, bin) {
                    Err(e) => c.fail("tables-load", inp(), e),
                    Ok(d2) => for (k, _) in &p.tab {
                        let k = k.key();
                        let mut want: Vec<Value> = vec![];
                        for (kk, v, n) in &all { if *kk == k { let mut d1 = blank(ver); add_table(&mut d1, k, v, n); if let Ok(d3) = round_trip(&d1, bin) { want.extend(get_table(&d3, k).iter().filter(|x| x["name"] == json!(n)).map(bare)) } } }
                        let got: Vec<Value> = get_table(&d2, k).iter().filter(|x| x["name"].as_str().unwrap().starts_with("name ")).map(bare).collect();
                        if got != want { c.fail(format!("table:{k}"), inp(), format!("{} records instead of {}, or other values or order: {} instead of {}", got.len(), want.len(), json!(got), json!(want))) }
                        let (g, w): (Vec<Value>, Vec<Value>) = (get_table(&d2, k).iter().map(|x| x["name"].clone()).collect(), get_table(&d, k).iter().map(|x| x["name"].clone()).collect());
                        if g != w && !(k == "block_record" && ver < AcadVersion::R13) && !(k == "view_port" || k == "ucs" || k == "view") { c.fail(format!("table-names:{k}"), inp(), format!("names {g:?} instead of {w:?}")) }
                    },
                }
            }
        }
    });
    // children without SEQEND
    for (name, v) in &p.ent {
        if !name.starts_with("POLYLINE") && !name.starts_with("INSERT") { continue }
        for &ver in VERS {
            let mut d = blank(ver);
            d.add_entity(ent(v)); d.add_entity(ent(&p.ent.iter().find(|x| x.0 == "LINE").unwrap().1));
            let Ok(b) = save(&d, false) else { continue };
            let Ok(d1) = load(&b) else { continue };
            let mut out = vec![]; let mut skip = false;
            for (code, val) in raw(&b) { if code.trim_ascii() == b"0" { skip = val == b"SEQEND" } if !skip { out.push((code, val)) } }
            c.case(&(name, ver as i32));
            match load(&join(&out)) { Err(e) => c.fail(format!("no-seqend-load:{name}"), show(&join(&out)), e), Ok(d2) => { let (a, z): (Vec<Value>, Vec<Value>) = (d1.entities().map(|e| bare(&jv(e))).collect(), d2.entities().map(|e| bare(&jv(e))).collect()); if a != z { c.fail(format!("no-seqend:{name}"), show(&join(&out)), "without the SEQEND record the entities load differently") } } }
        }
    }
}
// ---------------------------------------------------------------- raw pairs of a text file
type Raw = (Vec<u8>, Vec<u8>);
fn raw(b: &[u8]) -> Vec<Raw> {
    let mut l: Vec<Vec<u8>> = b.split(|&c| c == b'\n').map(|x| x.strip_suffix(b"\r").unwrap_or(x).to_vec()).collect();
    if l.last().map(|x| x.is_empty()) == Some(true) { l.pop(); }
    l.chunks(2).map(|c| (c[0].clone(), c.get(1).cloned().unwrap_or_default())).collect()
}
fn join(p: &[Raw]) -> Vec<u8> { let mut o = vec![]; for (a, b) in p { o.extend_from_slice(a); o.extend_from_slice(b"\r\n"); o.extend_from_slice(b); o.extend_from_slice(b"\r\n") } o }
fn is(p: &Raw, code: &str, val: &str) -> bool { p.0.trim_ascii() == code.as_bytes() && p.1 == val.as_bytes() }
fn pr(code: i32, v: impl Into<Vec<u8>>) -> Raw { (format!("{code:>3}").into_bytes(), v.into()) }
fn junk_pair(r: &mut Rng) -> Raw {
    let code = *r.pick(&[1, 2, 3, 5, 8, 10, 20, 30, 40, 62, 70, 90, 100, 160, 210, 280, 290, 310, 330, 350, 420, 460, 470, 1000, 1070]);
    let v = match dec::ty(code).unwrap() { dec::T::S => r.pick(&["0", "1F", "ENDSEC", "{", "}", "abc", "AcDbFoo", ""]).to_string(), dec::T::D => "1.5".into(), dec::T::Bool => "1".into(), dec::T::X => "0AFF".into(), _ => r.below(200).to_string() };
    pr(code, v)
}
// ---------------------------------------------------------------- C20
pub fn unknown(c: &Ctx) {
    c.bound("random drawings with records of every kind; text files with, at random places, comments (999), unknown sections, unknown entities (in the model and in blocks), unknown objects, unknown tables, unknown header variables and blocks of them; the drawing loaded must be the one loaded from the file without them; 11 versions");
    let p = pools(1);
    par(c.scale(6000, 200000), |i| {
        if elapsed_over(c, 60, 900) { return }
        let mut r = Rng::new(c.seed.wrapping_mul(7001).wrapping_add(i as u64));
        let ver = *r.pick(VERS);
        let d = some(&mut r, &p, ver, 5);
        let Ok(b) = save(&d, false) else { return };
        let Ok(d0) = load(&b) else { return };
        let base = content(&d0);
        let pairs = raw(&b);
        // section of each pair
        let mut sec: Vec<String> = vec![]; let mut cur = String::new(); let mut table = String::new(); let mut block = false;
        let mut tabs = vec![];
        for j in 0..pairs.len() {
            if cur.is_empty() && is(&pairs[j], "0", "SECTION") { cur = String::from_utf8_lossy(&pairs[j + 1].1).to_string() }
            if is(&pairs[j], "0", "TABLE") { table = String::from_utf8_lossy(&pairs[j + 1].1).to_string() }
            if is(&pairs[j], "0", "BLOCK") { block = true }
            sec.push(cur.clone()); tabs.push((table.clone(), block));
            if is(&pairs[j], "0", "ENDBLK") { block = false }
            if is(&pairs[j], "0", "ENDTAB") { table.clear() }
            if is(&pairs[j], "0", "ENDSEC") { cur.clear() }
        }
        let kind = r.below(6);
        let mut out: Vec<Raw> = vec![];
        let mut what: Vec<String> = vec![];
        let dense = r.bool();
        for j in 0..pairs.len() {
            let zero = pairs[j].0.trim_ascii() == b"0";
            let start = is(&pairs[j], "0", "SECTION") && (j == 0 || sec[j - 1] != sec[j] || is(&pairs[j - 1], "0", "ENDSEC")) || is(&pairs[j], "0", "EOF");
            let go = if dense { r.below(3) == 0 } else { r.below(40) == 0 };
            if go { match kind {
                0 => { let t = r.pick(&["a comment", "0", "SECTION", "ENDSEC", "EOF", "", "}", "{A"]).to_string(); what.push(format!("comment before pair {j}")); out.push(pr(999, t)) }
                1 if start => { out.push(pr(0, "SECTION")); out.push(pr(2, format!("FOO{j}"))); for _ in 0..r.below(8) { let q = junk_pair(&mut r); out.push(q); if r.below(4) == 0 { out.push(pr(0, "THING")) } } out.push(pr(0, "ENDSEC")); what.push(format!("unknown section before pair {j}")) }
                2 if zero && (sec[j] == "ENTITIES" && !is(&pairs[j], "0", "SECTION") || sec[j] == "BLOCKS" && tabs[j].1 && !is(&pairs[j], "0", "BLOCK")) => { out.push(pr(0, "ACME_ENTITY")); for _ in 0..r.below(8) { let q = junk_pair(&mut r); out.push(q) } what.push(format!("unknown entity before pair {j} in {}", sec[j])) }
                3 if zero && sec[j] == "OBJECTS" && !is(&pairs[j], "0", "SECTION") => { out.push(pr(0, "ACME_OBJECT")); for _ in 0..r.below(8) { let q = junk_pair(&mut r); out.push(q) } what.push(format!("unknown object before pair {j}")) }
                4 if zero && sec[j] == "TABLES" && (is(&pairs[j], "0", "TABLE") || is(&pairs[j], "0", "ENDSEC")) => { out.push(pr(0, "TABLE")); out.push(pr(2, "ACME")); out.push(pr(70, "2")); for _ in 0..r.below(3) { out.push(pr(0, "ACME")); for _ in 0..r.below(5) { let q = junk_pair(&mut r); out.push(q) } } out.push(pr(0, "ENDTAB")); what.push(format!("unknown table before pair {j}")) }
                5 if sec[j] == "HEADER" && (pairs[j].0.trim_ascii() == b"9" || is(&pairs[j], "0", "ENDSEC")) => { out.push(pr(9, format!("$ACME{j}"))); for _ in 0..1 + r.below(3) { let q = junk_pair(&mut r); out.push(q) } what.push(format!("unknown header variable before pair {j}")) }
                _ => {}
            } }
            out.push(pairs[j].clone());
        }
        if what.is_empty() { return }
        let f = join(&out);
        let name = ["comment", "section", "entity", "object", "table", "variable"][kind];
        c.case(&f); c.sample(|| format!("{ver:?} {what:?}").chars().take(300).collect());
        match load(&f) {
            Err(e) => c.fail(format!("load:{name}"), show(&f), format!("{ver:?} {what:?}: {e}")),
            Ok(d1) => { let v = content(&d1); if v != base { c.fail(format!("changed:{name}"), show(&f), format!("{ver:?} {what:?}: {}", first_diff(&base, &v))) } }
        }
    });
}
// ---------------------------------------------------------------- C26
struct Slow<'a>(&'a [u8], usize, u64);
impl Read for Slow<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.2 += 1; if self.2 % 5 == 0 { return Err(std::io::ErrorKind::Interrupted.into()) } let n = b.len().min(self.1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
pub fn equiv(c: &Ctx) {
    c.bound("random drawings with records of every kind, 11 versions; variants of the text file (LF line ends, mixed line ends, byte order mark, spaces and tabs around group codes and numbers, no EOF record, no final line end, blank line at the end) and, text and binary, reading in pieces of 1..7 bytes with interrupted reads and from disk must load as the same drawing");
    let p = pools(1);
    let dir = std::path::PathBuf::from(format!("{}.dir", c.current_file));
    let _ = std::fs::create_dir_all(&dir);
    par(c.scale(4000, 100000), |i| {
        if elapsed_over(c, 60, 900) { return }
        let mut r = Rng::new(c.seed.wrapping_mul(911).wrapping_add(i as u64));
        let ver = *r.pick(VERS);
        let d = some(&mut r, &p, ver, 5);
        let bin = r.below(3) == 0;
        let Ok(b) = save(&d, bin) else { return };
        let Ok(d0) = load(&b) else { return };
        let base = content(&d0);
        let chk = |name: &str, f: &[u8], got: Result<Drawing, String>| match got {
            Err(e) => c.fail(format!("load:{name}"), if bin { hex(f) } else { show(f) }, format!("{ver:?} binary {bin}: {e}")),
            Ok(d1) => { let v = content(&d1); if v != base { c.fail(format!("changed:{name}"), if bin { hex(f) } else { show(f) }, format!("{ver:?} binary {bin}: {}", first_diff(&base, &v))) } }
        };
        c.case(&(i, ver as i32)); c.sample(|| format!("{ver:?} binary {bin} {} bytes", b.len()));
        let step = 1 + r.below(7);
        chk("pieces", &b, guard(|| Drawing::load(&mut Slow(&b, step, 0)).map_err(|e| e.to_string())).and_then(|x| x));
        if i % 16 == 0 {
            let path = dir.join(format!("f{i}.dxf"));
            std::fs::write(&path, &b).unwrap();
            chk("file", &b, guard(|| Drawing::load_file(&path).map_err(|e| e.to_string())).and_then(|x| x));
            // and the file that save_file writes is the stream that save writes
            let r2 = guard(|| (if bin { d.save_file_binary(&path) } else { d.save_file(&path) }).map_err(|e| e.to_string())).and_then(|x| x);
            if let Err(e) = r2 { c.fail("save-file", "", e) } else if std::fs::read(&path).unwrap() != b { c.fail("save-file-bytes", "", "save_file and save write different bytes") }
            let _ = std::fs::remove_file(&path);
        }
        if bin { return }
        let lf: Vec<u8> = b.iter().copied().filter(|&x| x != b'\r').collect();
        chk("lf", &lf, load(&lf));
        let mut mixed = vec![]; for (j, &x) in b.iter().enumerate() { if x == b'\r' && (j * 7 + i) % 3 == 0 { continue } mixed.push(x) }
        chk("mixed", &mixed, load(&mixed));
        let mut bom = vec![0xEF, 0xBB, 0xBF]; bom.extend_from_slice(&b);
        chk("bom", &bom, load(&bom));
        let mut pairs = raw(&b);
        let no_eof = join(&pairs[..pairs.len() - 1]);
        chk("no-eof", &no_eof, load(&no_eof));
        chk("no-final-line-end", &b[..b.len() - 2], load(&b[..b.len() - 2]));
        let mut blank = b.clone(); blank.extend_from_slice(b"\r\n");
        chk("blank-line", &blank, load(&blank));
        for (code, val) in pairs.iter_mut() {
            let n: i32 = std::str::from_utf8(code).unwrap().trim().parse().unwrap();
            let pad = |r: &mut Rng| -> Vec<u8> { let k = r.below(4); (0..k).map(|_| *r.pick(&[b' ', b'\t', b' '])).collect() };
            let mut t = pad(&mut r); t.extend_from_slice(code.trim_ascii()); t.extend(pad(&mut r)); *code = t;
            if !matches!(dec::ty(n), Some(dec::T::S) | Some(dec::T::X) | None) { let mut t = pad(&mut r); t.extend_from_slice(val.trim_ascii()); t.extend(pad(&mut r)); *val = t }
        }
        let sp = join(&pairs);
        chk("spaces", &sp, load(&sp));
    });
    let _ = std::fs::remove_dir_all(&dir);
}
// ---------------------------------------------------------------- C24
struct Failing { left: usize, zero: bool, got: Vec<u8> }
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.left); if n == 0 && !b.is_empty() { return if self.zero { Ok(0) } else { Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full")) } } self.left -= n; self.got.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
struct Short { step: usize, n: u64, got: Vec<u8> }
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.n += 1; if self.n % 4 == 0 { return Err(std::io::ErrorKind::Interrupted.into()) } let n = b.len().min(self.step); self.got.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
struct BadRead<'a>(&'a [u8], usize);
impl Read for BadRead<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { if self.1 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk error")) } let n = b.len().min(self.1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; self.1 -= n; Ok(n) } }
pub fn faults(c: &Ctx) {
    c.bound("drawings with records of every kind; text, binary and DXB; a writer that fails (error or zero bytes accepted) after every number of accepted bytes (all of them for the smallest drawings, every 7th..61st for the others): save must return an error and the bytes accepted must be a prefix of the full output; writers that accept 1..9 bytes at a time and are interrupted: same output; a reader that fails at every offset (same strides): load must return an error; save_file* on a full device must return an error");
    let p = pools(1);
    let n = c.scale(14, 120);
    for i in 0..n {
        let mut r = Rng::new(c.seed.wrapping_mul(123).wrapping_add(i as u64));
        let ver = VERS[i % VERS.len()];
        let mut d = if i < 2 { let mut d = blank(AcadVersion::R12); d.header = Header { version: AcadVersion::R12, ..Default::default() }; d.add_entity(ent(&p.ent[0].1)); d } else { some(&mut r, &p, ver, 6) };
        if i % 4 == 3 && ver >= AcadVersion::R2000 { d.thumbnail = Some(image::DynamicImage::new_rgb8(9, 9)) }
        if i % 5 == 4 { for k in 0..6 { d.add_entity(dxf::entities::Entity::new(dxf::entities::EntityType::Line(dxf::entities::Line::new(Point::origin(), Point::new(k as f64, 2.0, 3.0))))); } }
        let put = |w: &mut dyn Write, mode: usize| -> Result<(), String> { guard(|| match mode { 0 => d.save(w), 1 => d.save_binary(w), _ => d.save_dxb(w) }.map_err(|e| e.to_string())).and_then(|x| x) };
        for mode in 0..3 {
            let name = ["text", "binary", "dxb"][mode];
            let mut full = Vec::new();
            if put(&mut full, mode).is_err() { continue }
            let stride = if i < 2 || mode == 2 { 1 } else { 7 + (i * 6) % 55 };
            let stride = if c.tier == Tier::Thorough { (stride / 6).max(1) } else { stride };
            let full = &full;
            par(full.len() / stride, |k| {
                if elapsed_over(c, 80, 1200) { return }
                let at = k * stride;
                for zero in [false, true] {
                    if zero && k % 4 != 0 { continue }
                    let mut w = Failing { left: at, zero, got: vec![] };
                    c.case(&(i, mode, at, zero));
                    match put(&mut w, mode) {
                        Ok(()) => c.fail(format!("silent:{name}"), format!("drawing {i} ({ver:?}), writer that accepts {at} of {} bytes", full.len()), "save reported success although the writer failed"),
                        Err(e) if e.starts_with("PANIC") => c.fail(format!("panic:{name}"), format!("drawing {i} ({ver:?}), writer that accepts {at} bytes"), e),
                        Err(_) => if w.got[..] != full[..w.got.len()] { c.fail(format!("prefix:{name}"), format!("drawing {i}, {at} bytes"), "the bytes written before the failure are not the beginning of the file") },
                    }
                }
                if k % 3 == 0 {
                    match guard(|| Drawing::load(&mut BadRead(full, at)).map(|_| ()).map_err(|e| e.to_string())).and_then(|x| x) {
                        Ok(()) => c.fail(format!("silent-read:{name}"), format!("drawing {i} ({ver:?}), reader that fails after {at} of {} bytes", full.len()), "load reported success although the reader failed"),
                        Err(e) if e.starts_with("PANIC") => c.fail(format!("panic-read:{name}"), format!("drawing {i} ({ver:?}), reader that fails after {at} bytes"), e),
                        Err(_) => {}
                    }
                }
            });
            for step in 1..10 { let mut w = Short { step, n: 0, got: vec![] }; c.case(&(i, mode, "short", step)); match put(&mut w, mode) { Err(e) => c.fail(format!("short:{name}"), format!("drawing {i}, writer that takes {step} bytes at a time"), e), Ok(()) => if &w.got != full { c.fail(format!("short-bytes:{name}"), format!("drawing {i}, writer that takes {step} bytes at a time"), "bytes are missing or changed") } } }
        }
    }
    use std::os::unix::fs::FileTypeExt;
    if std::fs::metadata("/dev/full").map(|m| m.file_type().is_char_device()).unwrap_or(false) {
        for i in 0..8 {
            let mut r = Rng::new(i);
            let d = if i == 0 { Drawing::new() } else { some(&mut r, &p, VERS[i as usize], 4) };
            for mode in 0..3 { let res = guard(|| match mode { 0 => d.save_file("/dev/full"), 1 => d.save_file_binary("/dev/full"), _ => d.save_file_dxb("/dev/full") }.map_err(|e| e.to_string())).and_then(|x| x); c.case(&("full", i, mode)); match res { Ok(()) => c.fail(format!("full-device:{mode}"), "save_file on /dev/full", "reported success"), Err(e) if e.starts_with("PANIC") => c.fail("full-device-panic", "", e), _ => {} } }
        }
    }
}
// ---------------------------------------------------------------- C19
const NAMES: &[&str] = &["SECTION", "ENDSEC", "EOF", "TABLE", "ENDTAB", "BLOCK", "ENDBLK", "HEADER", "CLASSES", "TABLES", "BLOCKS", "ENTITIES", "OBJECTS", "THUMBNAILIMAGE", "CLASS", "LAYER", "VPORT", "SEQEND", "VERTEX", "ATTRIB", "MTEXT", "POLYLINE", "INSERT", "{", "}", "{ACAD_REACTORS", "AcDbDimension", "AcDbEntity", "$ACADVER", "$HANDSEED", "AC1032", "AC1009", "$DWGCODEPAGE", "FFFFFFFFFFFFFFFF", "0", "1", "-1"];
fn value_for(r: &mut Rng, code: i32) -> Vec<u8> {
    match r.below(10) { 0 => return r.string(8).into_bytes(), 1 => return r.pick(NAMES).as_bytes().to_vec(), 2 => return vec![], _ => {} }
    match dec::ty(code) {
        Some(dec::T::S) => match r.below(4) { 0 => format!("{:X}", { let s = r.below(64); r.next() >> s }).into_bytes(), 1 => rt::ENT[r.below(rt::ENT.len())].into(), 2 => rt::OBJ[r.below(rt::OBJ.len())].into(), _ => r.pick(NAMES).as_bytes().to_vec() },
        Some(dec::T::D) => r.pick(&["0.0", "1.5", "-1", "1e308", "-1e308", "1e-320", "NaN", "inf", "-inf", "99999999999999999999", "2460000.5", ".", "+", "1.5.5", "1,5"]).as_bytes().to_vec(),
        Some(dec::T::X) => r.pick(&["", "0", "00", "0A0B", "ZZ", "28000000", "0A0"]).as_bytes().to_vec(),
        _ => r.pick(&["0", "1", "-1", "2", "3", "32767", "-32768", "65535", "2147483647", "-2147483648", "9223372036854775807", "256", "-257", "x"]).as_bytes().to_vec(),
    }
}
pub fn mutate(r: &mut Rng, p: &Pools) -> Vec<u8> {
    let ver = *r.pick(VERS);
    let bin = r.below(3) == 0;
    let d = some(r, p, ver, 4);
    let Ok(mut b) = save(&d, bin) else { return vec![] };
    match r.below(if bin { 3 } else { 8 }) {
        0 => { let n = r.below(b.len() + 1); b.truncate(n); b }
        1 => { for _ in 0..1 + r.below(6) { let at = r.below(b.len()); b[at] = if r.bool() { r.next() as u8 } else { *r.pick(&[0, 255, b'\n', b'0', b'9', b'-', b'{', 0x80]) } } b }
        2 => { let at = r.below(b.len()); let n = r.below(40); for _ in 0..n { if r.bool() && at < b.len() { b.remove(at); } else { let x = r.next() as u8; b.insert(at.min(b.len()), x) } } b }
        k => {
            let mut q = raw(&b);
            // records to work on: half of the time only the entities and objects
            for _ in 0..1 + r.below(8) {
                if q.is_empty() { break }
                let at = r.below(q.len());
                let code: i32 = std::str::from_utf8(&q[at].0).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0);
                match if k == 7 { 9 } else { r.below(8) } {
                    0 => { q.remove(at); }
                    1 => { let x = q[at].clone(); q.insert(at, x) }
                    2 | 3 => { q[at].1 = value_for(r, code) }
                    4 => { let nc = match r.below(5) { 0 => r.i32(), 1 => r.below(1100) as i32, 2 => 1000 + r.below(72) as i32, 3 => *r.pick(&[0, 5, 100, 102, 999, 1001, 1002, 330, 360, 91, 92, 70, 71, 90]), _ => code }; q[at].0 = nc.to_string().into_bytes(); if r.bool() { q[at].1 = value_for(r, nc) } }
                    5 => { let z = r.below(q.len()); q.swap(at, z) }
                    6 => { let nc = *r.pick(&[0, 5, 100, 102, 70, 71, 72, 73, 74, 90, 91, 92, 93, 40, 41, 1, 2, 3, 310, 330, 340, 1001, 1002]); let v = value_for(r, nc); q.insert(at, pr(nc, v)) }
                    7 => { let n = 1 + r.below(30); let to = (at + n).min(q.len()); q.drain(at..to); }
                    _ => { // every count or number of one record takes an extreme value
                        let mut j = at; while j > 0 && q[j].0.trim_ascii() != b"0" { j -= 1 } j += 1;
                        while j < q.len() && q[j].0.trim_ascii() != b"0" { let cd: i32 = std::str::from_utf8(&q[j].0).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0); if r.below(3) == 0 { q[j].1 = value_for(r, cd) } j += 1 }
                    }
                }
            }
            join(&q)
        }
    }
}
/// one case; returns what went wrong
pub fn try_bytes(b: &[u8]) -> Option<(String, String)> {
    let t = std::time::Instant::now();
    match load(b) {
        Err(e) => { if e.starts_with("PANIC") { return Some(("panic-load".into(), e)) } }
        Ok(d) => {
            for bin in [false, true] { if let Err(e) = save(&d, bin) { if e.starts_with("PANIC") { return Some((format!("panic-save-{}", if bin { "binary" } else { "text" }), e)) } } }
            if let Err(e) = guard(|| { let mut d = d.clone(); d.normalize(); let mut b = Cursor::new(vec![]); let _ = d.save_dxb(&mut b); }) { return Some(("panic-normalize".into(), e)) }
        }
    }
    if t.elapsed().as_secs() > 10 { return Some(("slow".into(), format!("took {} s", t.elapsed().as_secs()))) }
    None
}
/// every value of every record kind and header variable replaced by each of a list of awkward ones
fn awkward(c: &Ctx) {
    c.bound("every value of a saved record of every kind and of every header variable (R12, R2018) replaced by each of 14 awkward texts or 12 extreme numbers");
    const TXT: &[&str] = &["", "{", "}", "{}", "}{", "{\u{e9}", "\\", "\\U+", "\\U+12", "\\U+D800", "^", "%%", "FFFFFFFFFFFFFFFFF", "-1"];
    const NUM: &[&str] = &["0", "-1", "1", "255", "256", "32767", "-32768", "2147483647", "-2147483648", "1e308", "NaN", "-inf"];
    let p = pools(1);
    let mut files: Vec<Vec<Raw>> = vec![];
    for ver in [AcadVersion::R12, AcadVersion::R2018] {
        let strip = |b: Vec<u8>, sec: &str| -> Vec<Raw> { // the wanted section alone
            let q = raw(&b); let mut out = vec![]; let mut keep = false;
            for i in 0..q.len() { if is(&q[i], "0", "SECTION") { keep = q.get(i + 1).map_or(false, |x| x.1 == sec.as_bytes()) } if keep { out.push(q[i].clone()) } if is(&q[i], "0", "ENDSEC") { keep = false } }
            out.push(pr(0, "EOF")); out };
        for v in &p.ent { let mut d = blank(ver); d.add_entity(ent(&v.1)); if let Ok(b) = save(&d, false) { files.push(strip(b, "ENTITIES")) } }
        for v in &p.obj { let mut d = blank(ver); d.add_object(obj(&v.1)); if let Ok(b) = save(&d, false) { files.push(strip(b, "OBJECTS")) } }
        let mut d = some(&mut Rng::new(1), &p, ver, 0); d.normalize();
        if let Ok(b) = save(&d, false) { for s in ["HEADER", "CLASSES", "TABLES", "BLOCKS"] { files.push(strip(b.clone(), s)) } }
    }
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (i, f) in files.iter().enumerate() { for j in 0..f.len() { if f[j].0.trim_ascii() != b"0" { jobs.push((i, j)) } } }
    par(jobs.len(), |n| {
        if elapsed_over(c, 60, 600) { return }
        let (i, j) = jobs[n];
        let code: i32 = std::str::from_utf8(&files[i][j].0).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0);
        let list = if matches!(dec::ty(code), Some(dec::T::S) | Some(dec::T::X)) { TXT } else { NUM };
        for v in list {
            let mut q = files[i].clone(); q[j].1 = v.as_bytes().to_vec();
            let b = join(&q); c.case(&b);
            if let Some((k, m)) = try_bytes(&b) { c.fail(format!("{k}:{}", m.chars().take(60).collect::<String>()), String::from_utf8_lossy(&b).to_string(), m) }
        }
    });
}
pub fn fuzz(c: &Ctx) {
    awkward(c);
    c.bound("valid files with records of every kind (11 versions, text and binary) with random damage: truncation, changed, inserted and removed bytes, removed, repeated, swapped, inserted and changed group code/value pairs, extreme values in every number of a record; loading returns a drawing or an error within 10 s, without panic, and a drawing that loads can be normalized and saved as text, binary and DXB without panic");
    let p = pools(1);
    let slots: Vec<std::sync::Mutex<Option<std::time::Instant>>> = (0..8).map(|_| Default::default()).collect();
    let next_slot = std::sync::atomic::AtomicUsize::new(0);
    let done = std::sync::atomic::AtomicBool::new(false);
    let n = c.scale(60000, 3000000);
    thread_local! { static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
    std::thread::scope(|s| {
        // a case that never ends is reported by the process: its bytes are in the slot's file
        let (slots2, done2) = (&slots, &done);
        s.spawn(move || while !done2.load(std::sync::atomic::Ordering::Relaxed) {
            std::thread::sleep(std::time::Duration::from_millis(200));
            for m in slots2 { if let Some(t) = *m.lock().unwrap() { if t.elapsed().as_secs() > 30 { std::process::exit(77) } } }
        });
        par(n, |i| {
            if elapsed_over(c, 40, 2400) { return }
            let slot = SLOT.with(|x| { if x.get() == usize::MAX { x.set(next_slot.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 8) } x.get() });
            let mut r = Rng::new(c.seed.wrapping_mul(104729).wrapping_add(i as u64));
            let b = mutate(&mut r, &p);
            let _ = std::fs::write(format!("{}.{slot}", c.current_file), &b);
            *slots[slot].lock().unwrap() = Some(std::time::Instant::now());
            c.case(&b); c.sample(|| show(&b).chars().take(200).collect());
            if let Some((k, m)) = try_bytes(&b) { c.fail(format!("{k}:{}", m.chars().take(60).collect::<String>()), if b.iter().all(|x| (9..127).contains(x)) { String::from_utf8_lossy(&b).to_string() } else { hex(&b) }, m) }
            *slots[slot].lock().unwrap() = None;
        });
        done.store(true, std::sync::atomic::Ordering::Relaxed);
    });
    for i in 0..8 { let _ = std::fs::remove_file(format!("{}.{i}", c.current_file)); }
}
