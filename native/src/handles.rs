//! C06 handle text, C07 handle assignment, C08 lookup and references, C09 normalize.
use crate::dec::{self, V};
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use std::collections::{BTreeMap, BTreeSet};

/// every handle of the drawing with where it is
pub fn all_handles(d: &Drawing) -> Vec<(String, u64)> {
    let mut v = top_handles(d);
    let kids = |w: String, e: &Entity, v: &mut Vec<(String, u64)>| match &e.specific {
        EntityType::Polyline(p) => { for (i, x) in p.__vertices_and_handles.iter().enumerate() { v.push((format!("{w}/vertex{i}"), x.1 .0)) } v.push((format!("{w}/seqend"), p.__seqend_handle.0)) }
        EntityType::Insert(p) => { for (i, x) in p.__attributes_and_handles.iter().enumerate() { v.push((format!("{w}/attribute{i}"), x.1 .0)) } v.push((format!("{w}/seqend"), p.__seqend_handle.0)) }
        _ => {}
    };
    for (i, e) in d.entities().enumerate() { kids(format!("entity{i}"), e, &mut v) }
    for (i, b) in d.blocks().enumerate() { for (j, e) in b.entities.iter().enumerate() { v.push((format!("block{i}/entity{j}"), e.common.handle.0)); kids(format!("block{i}/entity{j}"), e, &mut v) } }
    v
}
fn top_handles(d: &Drawing) -> Vec<(String, u64)> {
    let mut v: Vec<(String, u64)> = vec![];
    for (i, x) in d.app_ids().enumerate() { v.push((format!("app_id{i}"), x.handle.0)) }
    for (i, x) in d.blocks().enumerate() { v.push((format!("block{i}"), x.handle.0)) }
    for (i, x) in d.block_records().enumerate() { v.push((format!("block_record{i}"), x.handle.0)) }
    for (i, x) in d.dim_styles().enumerate() { v.push((format!("dim_style{i}"), x.handle.0)) }
    for (i, x) in d.entities().enumerate() { v.push((format!("entity{i}"), x.common.handle.0)) }
    for (i, x) in d.layers().enumerate() { v.push((format!("layer{i}"), x.handle.0)) }
    for (i, x) in d.line_types().enumerate() { v.push((format!("line_type{i}"), x.handle.0)) }
    for (i, x) in d.objects().enumerate() { v.push((format!("object{i}"), x.common.handle.0)) }
    for (i, x) in d.styles().enumerate() { v.push((format!("style{i}"), x.handle.0)) }
    for (i, x) in d.ucss().enumerate() { v.push((format!("ucs{i}"), x.handle.0)) }
    for (i, x) in d.views().enumerate() { v.push((format!("view{i}"), x.handle.0)) }
    for (i, x) in d.view_ports().enumerate() { v.push((format!("view_port{i}"), x.handle.0)) }
    v
}

fn nm(r: &mut Rng) -> String { format!("N{}", r.below(9)) }
pub fn some_entity(r: &mut Rng, d: &mut Drawing) -> Entity {
    let mut e = Entity::new(match r.below(14) {
        0 => EntityType::Line(Default::default()),
        1 => EntityType::Circle(Default::default()),
        2 => EntityType::Text(Text { text_style_name: nm(r), ..Default::default() }),
        3 => EntityType::MText(MText { text_style_name: nm(r), ..Default::default() }),
        4 => EntityType::Leader(Leader { dimension_style_name: nm(r), ..Default::default() }),
        5 => { let mut b = DimensionBase::default(); b.dimension_style_name = nm(r); b.dimension_type = enums::DimensionType::Radius; EntityType::RadialDimension(RadialDimension { dimension_base: b, ..Default::default() }) }
        6 => EntityType::MLine(MLine { style_name: nm(r), ..Default::default() }),
        7 => EntityType::AttributeDefinition(AttributeDefinition { text_style_name: nm(r), ..Default::default() }),
        8 => EntityType::Tolerance(Tolerance { dimension_style_name: nm(r), ..Default::default() }),
        9 | 10 => { let mut p = Polyline::default(); for i in 0..r.below(4) { p.add_vertex(d, Vertex::new(Point::new(i as f64, 0.0, 0.0))); } EntityType::Polyline(p) }
        11 | 12 => { let mut p = Insert::default(); p.name = nm(r); for i in 0..r.below(3) { p.add_attribute(d, Attribute { value: format!("a{i}"), ..Default::default() }); } EntityType::Insert(p) }
        _ => EntityType::LwPolyline(LwPolyline { vertices: vec![Default::default()], ..Default::default() }),
    });
    if r.bool() { e.common.layer = nm(r) }
    if r.bool() { e.common.line_type_name = nm(r) }
    e
}
fn some_object(r: &mut Rng) -> Object {
    Object::new(match r.below(6) {
        0 => ObjectType::PlaceHolder(Default::default()),
        1 => ObjectType::LayerFilter(LayerFilter { layer_names: vec![nm(r), nm(r)], ..Default::default() }),
        2 => ObjectType::LayerIndex(LayerIndex { layer_names: vec![nm(r), nm(r)], ..Default::default() }),
        3 => ObjectType::MLineStyle(MLineStyle { style_name: nm(r), ..Default::default() }),
        4 => ObjectType::PlotSettings(PlotSettings { plot_view_name: nm(r), ..Default::default() }),
        _ => ObjectType::Dictionary(Default::default()),
    })
}
/// one random operation; returns its description
pub fn step(r: &mut Rng, d: &mut Drawing, io: bool) -> String {
    match r.below(if io { 24 } else { 21 }) {
        0 => { d.add_app_id(AppId { name: nm(r), ..Default::default() }); "add_app_id".into() }
        1 => { d.add_block_record(BlockRecord { name: nm(r), ..Default::default() }); "add_block_record".into() }
        2 => { d.add_dim_style(DimStyle { name: nm(r), ..Default::default() }); "add_dim_style".into() }
        3 => { d.add_layer(Layer { name: nm(r), line_type_name: nm(r), ..Default::default() }); "add_layer".into() }
        4 => { d.add_line_type(LineType { name: nm(r), ..Default::default() }); "add_line_type".into() }
        5 => { d.add_style(Style { name: nm(r), ..Default::default() }); "add_style".into() }
        6 => { d.add_ucs(Ucs { name: nm(r), ..Default::default() }); "add_ucs".into() }
        7 => { d.add_view(View { name: nm(r), ..Default::default() }); "add_view".into() }
        8 => { d.add_view_port(ViewPort { name: nm(r), ..Default::default() }); "add_view_port".into() }
        9 | 10 => { let mut b = Block { name: nm(r), layer: nm(r), ..Default::default() }; for _ in 0..r.below(4) { b.entities.push(some_entity(r, d)) } if r.bool() { for e in &mut b.entities { e.common.handle = Handle(5) } } let n = b.entities.len(); d.add_block(b); format!("add_block with {n} entities") }
        11 | 12 | 13 | 14 => { let mut e = some_entity(r, d); if r.below(3) == 0 { e.common.handle = Handle(r.below(40) as u64) } let n = format!("{:?}", e.specific).chars().take(18).collect::<String>(); d.add_entity(e); format!("add_entity {n}") }
        15 => { d.add_object(some_object(r)); "add_object".into() }
        16 => { d.normalize(); "normalize".into() }
        17 => {
            let k = r.below(12); let i = r.below(6);
            match k { 0 => { d.remove_app_id(i); } 1 => { d.remove_block_record(i); } 2 => { d.remove_dim_style(i); } 3 => { d.remove_layer(i); } 4 => { d.remove_line_type(i); } 5 => { d.remove_style(i); } 6 => { d.remove_ucs(i); } 7 => { d.remove_view(i); } 8 => { d.remove_view_port(i); } 9 => { d.remove_block(i); } 10 => { d.remove_entity(i); } _ => { d.remove_object(i); } }
            format!("remove kind {k} index {i}")
        }
        18 => { // owner assignment gives an unassigned item a handle
            let mut l = Layer { name: nm(r), ..Default::default() };
            let mut a = AppId { name: nm(r), ..Default::default() };
            a.set_owner(&mut DrawingItemMut::Layer(&mut l), d);
            d.add_app_id(a); "set_owner".into()
        }
        19 => { // a child added to an entity of the drawing
            let mut t = Drawing::new(); std::mem::swap(&mut t, d);
            let n = t.entities().count();
            if n > 0 { let i = r.below(n); let mut e = t.remove_entity(i).unwrap(); match e.specific { EntityType::Polyline(ref mut p) => { p.add_vertex(&mut t, Vertex::default()); } EntityType::Insert(ref mut p) => { p.add_attribute(&mut t, Attribute::default()); } _ => {} } t.add_entity(e); }
            std::mem::swap(&mut t, d); "add child".into()
        }
        20 => { let e = { let n = d.entities().count(); if n == 0 { None } else { d.entities().nth(r.below(n)).cloned() } }; if let Some(e) = e { d.add_entity(e); } "add a copy".into() }
        21 => { if r.below(6) == 0 { d.clear(); "clear".into() } else { "nothing".into() } }
        _ => {
            let ver = *r.pick(VERS);
            d.header.version = ver;
            d.header.handles_enabled = r.bool();
            let bin = r.bool();
            let s = format!("save/load {ver:?} binary {bin} handles {}", d.header.handles_enabled);
            match round_trip(d, bin) { Ok(x) => { *d = x; s } Err(e) => format!("!{s}: {e}") }
        }
    }
}
pub fn assign(c: &Ctx) {
    c.bound("random histories of up to 40 operations (20 kinds: add of each of the 12 item kinds incl. blocks with entities and children, add_vertex/add_attribute, set_owner, remove, normalize, clear, save+load as text and binary for 11 versions with and without handles); after each operation: every handle nonzero, pairwise distinct, not above the next available one; handles that were already assigned unchanged; files whose items all carry handles (up to 2^64-2) under a valid HANDSEED, and files without handles");
    par(c.scale(2500, 60000), |i| {
        if elapsed_over(c, 50, 900) { return }
        let mut r = Rng::new(c.seed.wrapping_mul(977).wrapping_add(i as u64));
        let mut d = Drawing::new();
        let mut hist: Vec<String> = vec![];
        for _ in 0..(3 + r.below(38)) {
            let before: BTreeMap<u64, String> = all_handles(&d).into_iter().map(|x| (x.1, x.0)).collect();
            let s = step(&mut r, &mut d, true);
            hist.push(s.clone());
            let inp = || format!("history {hist:?}");
            if s.starts_with('!') { return c.fail("load", inp(), s.clone()) }
            let now = all_handles(&d);
            c.case(&(i, hist.len()));
            let mut seen: BTreeMap<u64, String> = BTreeMap::new();
            for (w, h) in &now {
                let kind: String = w.chars().filter(|c| !c.is_ascii_digit()).collect();
                if *h == 0 { return c.fail(format!("zero:{kind}"), inp(), format!("{w} has no handle")) }
                if let Some(o) = seen.insert(*h, w.clone()) { return c.fail(format!("duplicate:{kind}"), inp(), format!("{o} and {w} both have handle {h:X}")) }
                if *h >= d.header.next_available_handle.0 { return c.fail(format!("next:{kind}"), inp(), format!("{w} has handle {h:X}, next available is {:X}", d.header.next_available_handle.0)) }
            }
            if s.starts_with("add_") && s != "add child" || s == "normalize" || s == "set_owner" {
                for (h, w) in &before { if !seen.contains_key(h) { return c.fail("lost", inp(), format!("handle {h:X} of {w} is gone after {s}")) } }
            }
        }
        c.sample(|| format!("{hist:?}"));
    });
    dimstyle_105(c);
    // files: some or all items with handles, HANDSEED present or not
    par(c.scale(1500, 30000), |i| {
        let mut r = Rng::new(c.seed.wrapping_mul(31).wrapping_add(0x55AA + i as u64));
        let with = i % 3 != 0;
        let big = i % 5 == 0;
        let mut next = if big { u64::MAX - 400 } else { 1 + r.below(1000) as u64 };
        let mut used = vec![];
        let mut h = |r: &mut Rng| { next += 1 + r.below(3) as u64; used.push(next); next };
        let mut f = String::new();
        let pair = |f: &mut String, c: i32, v: &str| f.push_str(&format!("{c:3}\r\n{v}\r\n"));
        let mut body = String::new();
        let b = &mut body;
        pair(b, 0, "SECTION"); pair(b, 2, "TABLES");
        for (t, n) in [("LAYER", "LAYER"), ("STYLE", "STYLE"), ("APPID", "APPID"), ("LTYPE", "LTYPE"), ("UCS", "UCS"), ("VIEW", "VIEW"), ("VPORT", "VPORT"), ("DIMSTYLE", "DIMSTYLE"), ("BLOCK_RECORD", "BLOCK_RECORD")] {
            if r.bool() { continue }
            pair(b, 0, "TABLE"); pair(b, 2, t);
            for k in 0..1 + r.below(2) { pair(b, 0, n); if with { pair(b, 5, &format!("{:X}", h(&mut r))) } pair(b, 2, &format!("{n}{k}")); }
            pair(b, 0, "ENDTAB");
        }
        pair(b, 0, "ENDSEC");
        pair(b, 0, "SECTION"); pair(b, 2, "BLOCKS");
        for k in 0..r.below(3) { pair(b, 0, "BLOCK"); if with { pair(b, 5, &format!("{:X}", h(&mut r))) } pair(b, 2, &format!("B{k}")); for _ in 0..r.below(3) { pair(b, 0, "LINE"); if with { pair(b, 5, &format!("{:X}", h(&mut r))) } } pair(b, 0, "ENDBLK"); if with { pair(b, 5, &format!("{:X}", h(&mut r))) } }
        pair(b, 0, "ENDSEC");
        pair(b, 0, "SECTION"); pair(b, 2, "ENTITIES");
        for _ in 0..r.below(5) {
            match r.below(3) {
                0 => { pair(b, 0, "CIRCLE"); if with { pair(b, 5, &format!("{:X}", h(&mut r))) } }
                k => {
                    pair(b, 0, if k == 1 { "POLYLINE" } else { "INSERT" }); if with { pair(b, 5, &format!("{:X}", h(&mut r))) }
                    pair(b, 66, "1");
                    for _ in 0..1 + r.below(3) { pair(b, 0, if k == 1 { "VERTEX" } else { "ATTRIB" }); if with { pair(b, 5, &format!("{:X}", h(&mut r))) } }
                    pair(b, 0, "SEQEND"); if with { pair(b, 5, &format!("{:X}", h(&mut r))) }
                }
            }
        }
        pair(b, 0, "ENDSEC");
        pair(b, 0, "SECTION"); pair(b, 2, "OBJECTS");
        for _ in 0..r.below(4) { pair(b, 0, "ACDBPLACEHOLDER"); if with { pair(b, 5, &format!("{:X}", h(&mut r))) } }
        pair(b, 0, "ENDSEC"); pair(b, 0, "EOF");
        pair(&mut f, 0, "SECTION"); pair(&mut f, 2, "HEADER"); pair(&mut f, 9, "$ACADVER"); pair(&mut f, 1, "AC1018");
        if with || r.bool() { let v = if with { format!("{:X}", next.saturating_add(1 + r.below(5) as u64)) } else { "1".into() }; pair(&mut f, 9, "$HANDSEED"); pair(&mut f, 5, &v) }
        pair(&mut f, 0, "ENDSEC");
        f.push_str(&body);
        c.case(&f);
        let key = |k: &str| format!("file-{k}");
        let mut d = match load(f.as_bytes()) { Ok(d) => d, Err(e) => return c.fail(key("load"), f, e) };
        let chk = |d: &Drawing, when: &str| {
            let mut seen: BTreeMap<u64, String> = BTreeMap::new();
            for (w, h) in all_handles(d) {
                let kind: String = w.chars().filter(|c| !c.is_ascii_digit()).collect();
                if h == 0 { c.fail(key(&format!("zero:{kind}:{when}")), f.clone(), format!("{when}: {w} has no handle")) }
                if let Some(o) = seen.insert(h, w.clone()) { c.fail(key(&format!("duplicate:{kind}:{when}")), f.clone(), format!("{when}: {o} and {w} both have handle {h:X}")) }
            }
            seen
        };
        let s = chk(&d, "after load");
        if with { for u in &used { if !s.contains_key(u) && !f.contains(&format!("ENDBLK\r\n  5\r\n{u:X}\r\n")) { c.fail(key("ignored"), f.clone(), format!("handle {u:X} of the file was not kept")); break } } }
        for _ in 0..6 { step(&mut r, &mut d, false); }
        if !(big) || true { d.normalize(); }
        chk(&d, "after further operations");
    });
}

/// handle of a dimension style as AutoCAD writes it
pub fn dimstyle_105(c: &Ctx) {
    let f = "  0\r\nSECTION\r\n  2\r\nHEADER\r\n  9\r\n$ACADVER\r\n  1\r\nAC1018\r\n  9\r\n$HANDSEED\r\n  5\r\nFF\r\n  0\r\nENDSEC\r\n  0\r\nSECTION\r\n  2\r\nTABLES\r\n  0\r\nTABLE\r\n  2\r\nDIMSTYLE\r\n  0\r\nDIMSTYLE\r\n105\r\n27\r\n  2\r\nD\r\n  0\r\nENDTAB\r\n  0\r\nENDSEC\r\n  0\r\nEOF\r\n";
    c.case(f);
    match load(f.as_bytes()) { Err(e) => c.fail("dimstyle-105-load", f, e), Ok(d) => if d.dim_styles().next().map(|x| x.handle.0) != Some(0x27) { c.fail("dimstyle-105", f, format!("the handle 27 of the dimension style was not kept: {:?}", d.dim_styles().next().map(|x| x.handle))) } }
}
/// owner of a table record
pub fn table_owner(c: &Ctx) {
    let mut d = Drawing::new();
    d.header.version = AcadVersion::R2018;
    if let Some(l) = d.layers_mut().next() { l.__owner_handle = Handle(0x77) }
    c.case("table-owner");
    match round_trip(&d, false) { Err(e) => c.fail("table-owner-load", "", e), Ok(d2) => if d2.layers().next().map(|l| l.__owner_handle.0) != Some(0x77) { c.fail("table-owner", "layer 0 with owner 77, R2018 text", "the owner of a table record is not written") } }
}
pub fn text(c: &Ctx) {
    c.bound("all powers of two and their neighbours, every value 0..70000, 200000 random 64-bit values: text form against an independent conversion; and through text and binary files as the handle of a layer; all hexadecimal spellings (case, leading zeros) read");
    let mut vals: Vec<u64> = (0..70000).collect();
    for k in 0..64 { let p = 1u64 << k; vals.extend([p, p.wrapping_sub(1), p.wrapping_add(1), !p, p | 0xA]) }
    vals.push(u64::MAX);
    let mut r = Rng::new(c.seed);
    for _ in 0..c.scale(200_000, 5_000_000) { let s = r.below(64); vals.push(r.next() >> s) }
    for &v in &vals {
        c.cases.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let s = Handle(v).as_string();
        let want = hexs(v);
        if s != want { c.fail("as-string", format!("{v}"), format!("{s}, expected {want}")) }
        let n = Handle(v).next_handle_value();
        if n.0 == 0 || (v != u64::MAX && n.0 != v + 1) { c.fail("next-value", format!("{v}"), format!("{}", n.0)) }
        if Handle(v).is_empty() != (v == 0) { c.fail("is-empty", format!("{v}"), "") }
    }
    let fv: Vec<u64> = vals[70000..].iter().copied().filter(|v| *v != 0).take(c.scale(3000, 60000)).collect();
    par(fv.len(), |i| {
        let v = fv[i];
        c.case(&v);
        for bin in [false, true] {
            let mut d = Drawing::new();
            d.header.version = if i % 2 == 0 { AcadVersion::R2000 } else { AcadVersion::R2018 };
            if let Some(l) = d.layers_mut().next() { l.handle = Handle(v) }
            let mut e = Entity::new(EntityType::Line(Default::default())); e.common.__owner_handle = Handle(v ^ 3); d.add_entity(e);
            let inp = format!("handle {v:X} binary {bin}");
            let b = match save(&d, bin) { Ok(b) => b, Err(e) => return c.fail("save", inp, e) };
            if !bin { if let Ok(p) = dec::text(&b) { if !p.contains(&(5, V::S(hexs(v).into_bytes()))) { c.fail("not-in-file", inp.clone(), "the handle is not in the file in hexadecimal") } } }
            match load(&b) { Err(e) => c.fail("load", inp, e), Ok(d2) => { let g = (d2.layers().next().map(|l| l.handle.0), d2.entities().next().map(|e| e.common.__owner_handle.0)); if g != (Some(v), Some(v ^ 3)) { c.fail("changed", inp, format!("came back as {g:X?}")) } } }
        }
        // spellings
        for s in [hexs(v), hexs(v).to_lowercase(), format!("{:0>16}", hexs(v))] {
            let f = format!("  0\r\nSECTION\r\n  2\r\nENTITIES\r\n  0\r\nLINE\r\n  5\r\n{s}\r\n  0\r\nENDSEC\r\n  0\r\nEOF\r\n");
            match load(f.as_bytes()) { Err(e) => c.fail("spelling", s, e), Ok(d) => { let g = d.entities().next().map(|e| e.common.handle.0); if g != Some(v) { c.fail("spelling", s, format!("read as {g:?}")) } } }
        }
    });
    for s in ["G", "1G", "-1", "+", "0x10", "12345678901234567", " ", "1 2"] {
        c.case(s);
        let f = format!("  0\r\nSECTION\r\n  2\r\nENTITIES\r\n  0\r\nLINE\r\n  5\r\n{s}\r\n  0\r\nENDSEC\r\n  0\r\nEOF\r\n");
        if let Err(e) = load(f.as_bytes()) { if e.starts_with("PANIC") { c.fail("bad-spelling", s, e) } }
    }
}
fn hexs(mut v: u64) -> String { if v == 0 { return "0".into() } let mut s = vec![]; while v > 0 { s.push(b"0123456789ABCDEF"[(v & 15) as usize]); v >>= 4 } s.reverse(); String::from_utf8(s).unwrap() }

fn kind(i: &DrawingItem) -> &'static str {
    match i { DrawingItem::AppId(_) => "app_id", DrawingItem::Block(_) => "block", DrawingItem::BlockRecord(_) => "block_record", DrawingItem::DimStyle(_) => "dim_style", DrawingItem::Entity(_) => "entity", DrawingItem::Layer(_) => "layer", DrawingItem::LineType(_) => "line_type", DrawingItem::Object(_) => "object", DrawingItem::Style(_) => "style", DrawingItem::Ucs(_) => "ucs", DrawingItem::View(_) => "view", DrawingItem::ViewPort(_) => "view_port" }
}
fn addr(i: &DrawingItem) -> usize {
    match i { DrawingItem::AppId(x) => *x as *const _ as usize, DrawingItem::Block(x) => *x as *const _ as usize, DrawingItem::BlockRecord(x) => *x as *const _ as usize, DrawingItem::DimStyle(x) => *x as *const _ as usize, DrawingItem::Entity(x) => *x as *const _ as usize, DrawingItem::Layer(x) => *x as *const _ as usize, DrawingItem::LineType(x) => *x as *const _ as usize, DrawingItem::Object(x) => *x as *const _ as usize, DrawingItem::Style(x) => *x as *const _ as usize, DrawingItem::Ucs(x) => *x as *const _ as usize, DrawingItem::View(x) => *x as *const _ as usize, DrawingItem::ViewPort(x) => *x as *const _ as usize }
}
fn top(d: &Drawing) -> Vec<(&'static str, usize, u64)> {
    let mut v = vec![];
    for x in d.app_ids() { v.push(("app_id", x as *const _ as usize, x.handle.0)) }
    for x in d.blocks() { v.push(("block", x as *const _ as usize, x.handle.0)) }
    for x in d.block_records() { v.push(("block_record", x as *const _ as usize, x.handle.0)) }
    for x in d.dim_styles() { v.push(("dim_style", x as *const _ as usize, x.handle.0)) }
    for x in d.entities() { v.push(("entity", x as *const _ as usize, x.common.handle.0)) }
    for x in d.layers() { v.push(("layer", x as *const _ as usize, x.handle.0)) }
    for x in d.line_types() { v.push(("line_type", x as *const _ as usize, x.handle.0)) }
    for x in d.objects() { v.push(("object", x as *const _ as usize, x.common.handle.0)) }
    for x in d.styles() { v.push(("style", x as *const _ as usize, x.handle.0)) }
    for x in d.ucss() { v.push(("ucs", x as *const _ as usize, x.handle.0)) }
    for x in d.views() { v.push(("view", x as *const _ as usize, x.handle.0)) }
    for x in d.view_ports() { v.push(("view_port", x as *const _ as usize, x.handle.0)) }
    v
}
fn check_lookup(c: &Ctx, d: &mut Drawing, inp: &dyn Fn() -> String, r: &mut Rng) {
    let t = top(d);
    let used: BTreeSet<u64> = t.iter().map(|x| x.2).collect();
    for (k, a, h) in &t {
        match d.item_by_handle(Handle(*h)) {
            None => c.fail(format!("none:{k}"), inp(), format!("item_by_handle({h:X}) is None, the drawing has a {k} with that handle")),
            Some(i) => if kind(&i) != *k || addr(&i) != *a || i.handle().0 != *h { c.fail(format!("wrong:{k}"), inp(), format!("item_by_handle({h:X}) gave a {} with handle {:X}, not the {k}", kind(&i), i.handle().0)) },
        }
        match d.item_by_handle_mut(Handle(*h)) {
            None => c.fail(format!("none-mut:{k}"), inp(), format!("item_by_handle_mut({h:X}) is None, the drawing has a {k} with that handle")),
            Some(m) => { let i = m.to_drawing_item(); if kind(&i) != *k || addr(&i) != *a || m.handle().0 != *h { c.fail(format!("wrong-mut:{k}"), inp(), format!("item_by_handle_mut({h:X}) gave a {}, not the {k}", kind(&i))) } }
        }
    }
    for h in [0, u64::MAX, 1 << 40, r.next(), r.below(200) as u64, r.below(200) as u64] {
        if used.contains(&h) { continue }
        if let Some(i) = d.item_by_handle(Handle(h)) { c.fail("ghost", inp(), format!("item_by_handle({h:X}) gave a {}", kind(&i))) }
        if d.item_by_handle_mut(Handle(h)).is_some() { c.fail("ghost-mut", inp(), format!("item_by_handle_mut({h:X}) gave an item")) }
    }
    // through the mutable lookup the item itself changes, and nothing else
    if let Some((k, a, h)) = t.get(r.below(t.len().max(1))) {
        let new = d.header.next_available_handle;
        if let Some(mut m) = d.item_by_handle_mut(Handle(*h)) { m.set_handle(new) }
        let t2 = top(d);
        for (x, y) in t.iter().zip(&t2) { let want = if x.1 == *a { new.0 } else { x.2 }; if y.2 != want || t.len() != t2.len() { return c.fail(format!("set:{k}"), inp(), format!("set_handle on the {k} {h:X}: {} {:X} became {:X}", x.0, x.2, y.2)) } }
        if let Some(mut m) = d.item_by_handle_mut(new) { m.set_handle(Handle(*h)) }
    }
}
fn as_mut<'a>(d: &'a mut Drawing, h: u64) -> DrawingItemMut<'a> { d.item_by_handle_mut(Handle(h)).unwrap() }
pub fn lookup(c: &Ctx) {
    table_owner(c);
    c.bound("random drawings of up to 40 items of all 12 kinds, half of them with their handles permuted: lookup of every handle in use (same item by address, right kind), of absent handles and of the empty handle; mutable lookup changes that item only; owner and the other reference accessors of entities and objects: set, get, and get again after save+load, target of each kind, wrong-kind targets give None");
    par(c.scale(1200, 40000), |i| {
        if elapsed_over(c, 40, 900) { return }
        let mut r = Rng::new(c.seed.wrapping_mul(611).wrapping_add(i as u64));
        let mut d = Drawing::new();
        let mut hist = vec![];
        for _ in 0..r.below(40) { hist.push(step(&mut r, &mut d, i % 4 == 0)) }
        if hist.iter().any(|h| h.starts_with('!')) { return c.fail("load", format!("{hist:?}"), "the drawing could not be loaded again") }
        c.case(&hist);
        let inp = || format!("drawing built by {hist:?}");
        if i % 2 == 0 { // handles in no particular order, as in files of other programs
            let mut hs: Vec<u64> = top(&d).iter().map(|x| x.2).collect();
            if r.bool() { hs.reverse() } else { for a in (1..hs.len()).rev() { let b = r.below(a + 1); hs.swap(a, b) } }
            let mut it = hs.into_iter();
            macro_rules! re { ($($f:ident),*) => { $( for x in d.$f() { x.handle = Handle(it.next().unwrap()) } )* } }
            re!(app_ids_mut, block_records_mut, dim_styles_mut, layers_mut, line_types_mut, styles_mut, ucss_mut, views_mut, view_ports_mut, blocks_mut);
            for x in d.entities_mut() { x.common.handle = Handle(it.next().unwrap()) }
            for x in d.objects_mut() { x.common.handle = Handle(it.next().unwrap()) }
        }
        check_lookup(c, &mut d, &inp, &mut r);
        // references
        let t = top(&d);
        if t.is_empty() { return }
        let targets: Vec<(&'static str, u64)> = t.iter().map(|x| (x.0, x.2)).collect();
        let (tk, th) = *r.pick(&targets);
        let mut e = Entity::new(EntityType::Line(Default::default()));
        { let m = as_mut(&mut d, th); e.common.set_owner(&m); e.common.set_plot_style(&m); }
        let eh = d.add_entity(e).common.handle.0;
        let mut o = Object::new(ObjectType::PlaceHolder(Default::default()));
        { let m = as_mut(&mut d, th); o.common.set_owner(&m); }
        let oh = d.add_object(o).common.handle.0;
        let mut m = Object::new(ObjectType::Material(Material { name: "mat".into(), ..Default::default() }));
        m.common.handle = Handle(0);
        let mh = d.add_object(m).common.handle.0;
        let mut e2 = Entity::new(EntityType::Circle(Default::default()));
        { let mat = d.objects().find(|o| o.common.handle.0 == mh).unwrap().clone(); let _ = e2.common.set_material(&mat); }
        let e2h = d.add_entity(e2).common.handle.0;
        let ref_check = |d: &Drawing, when: &str, tk: &str, th: u64| {
            let get = |h: u64| d.entities().find(|e| e.common.handle.0 == h);
            let (Some(e), Some(e2)) = (get(eh), get(e2h)) else { return c.fail("ref-gone", inp(), when.to_string()) };
            let same = |i: Option<DrawingItem>| i.map_or(false, |i| kind(&i) == tk && i.handle().0 == th);
            if !same(e.common.owner(d)) { c.fail(format!("owner:{tk}:{when}"), inp(), format!("{when}: owner of the entity is not the {tk} {th:X}")) }
            if !same(e.common.plot_style(d)) { c.fail(format!("plot-style:{tk}:{when}"), inp(), format!("{when}: plot style of the entity is not the {tk} {th:X}")) }
            if !same(d.objects().find(|o| o.common.handle.0 == oh).and_then(|o| o.common.owner(d))) { c.fail(format!("object-owner:{tk}:{when}"), inp(), format!("{when}: owner of the object is not the {tk} {th:X}")) }
            match e2.common.material(d) { Some(m) if m.common.handle.0 == mh && matches!(m.specific, ObjectType::Material(_)) => {} x => c.fail(format!("material:{when}"), inp(), format!("{when}: material is {:?}", x.map(|m| m.common.handle))) }
            if e2.common.owner(d).is_some() || e2.common.plot_style(d).is_some() { c.fail(format!("no-ref:{when}"), inp(), format!("{when}: an entity without owner has one")) }
            if e.common.material(d).is_some() { c.fail(format!("no-material:{when}"), inp(), format!("{when}: an entity without material has one")) }
        };
        ref_check(&d, "set", tk, th);
        d.header.version = *r.pick(&[AcadVersion::R2007, AcadVersion::R2010, AcadVersion::R2013, AcadVersion::R2018]);
        let bin = r.bool();
        match round_trip(&d, bin) { Err(e) => c.fail("ref-load", inp(), e), Ok(d2) => { ref_check(&d2, "after load", tk, th); let mut d2 = d2; check_lookup(c, &mut d2, &inp, &mut r) } }
    });
}

fn fix_pos(v: &mut serde_json::Value, p: &str, def: serde_json::Value) { if let Some(x) = v.pointer_mut(p) { if x.as_f64().map_or(false, |f| f <= 0.0) { *x = def } } }
fn fix_empty(v: &mut serde_json::Value, p: &str, def: &str) { if let Some(x) = v.pointer_mut(p) { if x == "" { *x = def.into() } } }
/// what normalize may change in one record (kind, value)
fn expected(kind: &str, v: &serde_json::Value) -> serde_json::Value {
    use serde_json::json;
    let mut v = v.clone();
    match kind {
        "__layers" => { fix_empty(&mut v, "/line_type_name", "CONTINUOUS"); if let Some(x) = v.pointer_mut("/color/raw_value") { if *x == json!(0) || *x == json!(256) { *x = json!(7) } } }
        "__styles" => { fix_pos(&mut v, "/text_height", json!(0.0)); fix_pos(&mut v, "/width_factor", json!(1.0)) }
        "__views" => for p in ["/view_height", "/view_width", "/lens_length"] { fix_pos(&mut v, p, json!(1.0)) },
        "__view_ports" => { for p in ["/snap_spacing/x", "/snap_spacing/y", "/snap_spacing/z", "/grid_spacing/x", "/grid_spacing/y", "/grid_spacing/z", "/view_height", "/view_port_aspect_ratio"] { fix_pos(&mut v, p, json!(1.0)) } fix_pos(&mut v, "/lens_length", json!(50.0)); fix_pos(&mut v, "/ucs_icon", json!(3)); fix_pos(&mut v, "/circle_sides", json!(1000)) }
        "__blocks" => fix_empty(&mut v, "/layer", "0"),
        "__entities" => fix_empty(&mut v, "/common/layer", "0"),
        "header" => {
            fix_pos(&mut v, "/default_text_height", json!(0.2)); fix_pos(&mut v, "/trace_width", json!(0.05));
            for (p, d) in [("/text_style", "STANDARD"), ("/current_layer", "0"), ("/current_entity_line_type", "BYLAYER"), ("/dimension_style_name", "STANDARD"), ("/file_name", ".")] { fix_empty(&mut v, p, d) }
            v["next_available_handle"] = json!(0);
        }
        _ => {}
    }
    v
}
const LISTS: &[&str] = &["__app_ids", "__block_records", "__dim_styles", "__layers", "__line_types", "__styles", "__ucss", "__views", "__view_ports", "__blocks", "__entities", "__objects"];
fn has(v: &serde_json::Value, list: &str, name: &str) -> bool { v[list].as_array().map_or(false, |a| a.iter().any(|x| x["name"] == name)) }
fn check_norm(c: &Ctx, d: &mut Drawing, inp: &dyn Fn() -> String) {
    let before = serde_json::to_value(&*d).unwrap();
    if let Err(e) = guard(|| d.normalize()) { return c.fail("panic", inp(), e) }
    let after = serde_json::to_value(&*d).unwrap();
    for (l, names) in [("__app_ids", &["ACAD", "ACADANNOTATIVE", "ACAD_NAV_VCDISPLAY", "ACAD_MLEADERVER"][..]), ("__block_records", &["*MODEL_SPACE", "*PAPER_SPACE"]), ("__dim_styles", &["STANDARD", "ANNOTATIVE"]), ("__styles", &["STANDARD", "ANNOTATIVE"]), ("__layers", &["0"]), ("__line_types", &["BYLAYER", "BYBLOCK", "CONTINUOUS"]), ("__view_ports", &["*ACTIVE"])] {
        for n in names { if !has(&after, l, n) { c.fail(format!("missing:{l}:{n}"), inp(), format!("{n} is not in {l} after normalize")) } }
    }
    if !has(&after, "__layers", after["header"]["current_layer"].as_str().unwrap_or("")) { c.fail("missing:current-layer", inp(), format!("layer {} does not exist", after["header"]["current_layer"])) }
    for f in ["ucs_definition_name", "ucs_name", "ortho_ucs_reference", "paperspace_ucs_definition_name", "paperspace_ucs_name", "paperspace_ortho_ucs_reference"] {
        let n = after["header"][f].as_str().unwrap_or(""); if !n.is_empty() && !has(&after, "__ucss", n) { c.fail(format!("missing:ucs:{f}"), inp(), format!("ucs {n} does not exist")) }
    }
    for l in LISTS {
        let (b, a) = (before[l].as_array().cloned().unwrap_or_default(), after[l].as_array().cloned().unwrap_or_default());
        let key = |x: &serde_json::Value| if x.get("common").is_some() { x["common"]["handle"].clone() } else { x["handle"].clone() };
        let mut rest = a.clone();
        for x in &b {
            let want = expected(l, x);
            match rest.iter().position(|y| key(y) == key(x)) {
                None => c.fail(format!("removed:{l}"), inp(), format!("{l}: {} was removed by normalize", x["name"])),
                Some(i) => { let y = rest.remove(i); if y != want { let df = crate::rt::diff(&want, &y); c.fail(format!("changed:{l}:{}", df.first().cloned().unwrap_or_default()), inp(), format!("{l}: {df:?} is {:?}, expected {:?}", df.first().and_then(|p| y.pointer(p)), df.first().and_then(|p| want.pointer(p)))) } }
            }
        }
        // only what is missing is added
        let names: BTreeSet<String> = b.iter().map(|x| x["name"].to_string()).collect();
        for y in &rest { if matches!(*l, "__blocks" | "__entities" | "__objects" | "__views") || names.contains(&y["name"].to_string()) { c.fail(format!("added:{l}"), inp(), format!("{l}: {} was added though it was there or nothing asks for it", y["name"])) } }
        if matches!(*l, "__blocks" | "__entities" | "__objects") { if b.iter().map(key).collect::<Vec<_>>() != a.iter().map(key).collect::<Vec<_>>() { c.fail(format!("reordered:{l}"), inp(), "") } }
        else { let n: Vec<&str> = a.iter().map(|x| x["name"].as_str().unwrap_or("")).collect(); if n.windows(2).any(|w| w[0] > w[1]) { c.fail(format!("unsorted:{l}"), inp(), format!("{n:?}")) } }
    }
    let (hb, mut ha) = (expected("header", &before["header"]), after["header"].clone());
    ha["next_available_handle"] = serde_json::json!(0);
    if hb != ha { c.fail("changed:header", inp(), format!("{:?}", crate::rt::diff(&hb, &ha))) }
    if before["classes"] != after["classes"] { c.fail("changed:classes", inp(), "") }
    d.normalize();
    let again = serde_json::to_value(&*d).unwrap();
    if again != after { let df = crate::rt::diff(&after, &again); c.fail(format!("not-idempotent:{}", df.first().cloned().unwrap_or_default().split('/').nth(1).unwrap_or("")), inp(), format!("a second normalize changes {:?}", &df[..df.len().min(5)])) }
}
pub fn normal(c: &Ctx) {
    c.bound("random drawings (up to 30 operations, half of them loaded from a file or cleared) with random valid and invalid values (empty names, zero, negative and positive sizes, reserved colours) in the header and every table record, missing and extra entries: the required entries exist, nothing is removed, every value that is valid is unchanged, invalid ones take their default, tables are sorted by name, a second normalize changes nothing");
    par(c.scale(1500, 40000), |i| {
        if elapsed_over(c, 60, 900) { return }
        let mut r = Rng::new(c.seed.wrapping_mul(5323).wrapping_add(i as u64));
        let mut d = Drawing::new();
        let mut hist = vec![];
        if i % 3 == 0 { d.clear(); hist.push("clear".to_string()) }
        for _ in 0..r.below(30) { let s = step(&mut r, &mut d, i % 2 == 0); if s.starts_with('!') { return c.fail("load", format!("{hist:?}"), s) } hist.push(s) }
        let num = |r: &mut Rng| *r.pick(&[0.0, -0.0, -1.0, -0.001, 0.25, 1.0, 7.5, 1e-9, -1e300]);
        let nm2 = |r: &mut Rng| r.pick(&["", "0", "STANDARD", "N1", "N2", "zz", "*ACTIVE", "a b", "BYLAYER"]).to_string();
        if i > 0 {
            let h = &mut d.header;
            h.default_text_height = num(&mut r); h.trace_width = num(&mut r); h.text_style = nm2(&mut r); h.current_layer = nm2(&mut r); h.current_entity_line_type = nm2(&mut r); h.dimension_style_name = nm2(&mut r); h.file_name = nm2(&mut r);
            h.ucs_definition_name = nm2(&mut r); h.ucs_name = nm2(&mut r); h.ortho_ucs_reference = nm2(&mut r); h.paperspace_ucs_definition_name = nm2(&mut r); h.paperspace_ucs_name = nm2(&mut r); h.paperspace_ortho_ucs_reference = nm2(&mut r);
            for l in d.layers_mut() { if r.bool() { l.line_type_name = nm2(&mut r) } l.color = serde_json::from_value(serde_json::json!({"raw_value": *r.pick(&[0i16, 1, 7, 256, 257, -3, 255])})).unwrap() }
            for s in d.styles_mut() { s.text_height = num(&mut r); s.width_factor = num(&mut r) }
            for v in d.views_mut() { v.view_height = num(&mut r); v.view_width = num(&mut r); v.lens_length = num(&mut r) }
            for v in d.view_ports_mut() { v.snap_spacing = Vector::new(num(&mut r), num(&mut r), num(&mut r)); v.grid_spacing = Vector::new(num(&mut r), num(&mut r), num(&mut r)); v.view_height = num(&mut r); v.view_port_aspect_ratio = num(&mut r); v.lens_length = num(&mut r); v.ucs_icon = *r.pick(&[0, -1, 1, 3]); v.circle_sides = *r.pick(&[0, -1, 1, 1000, 20000]) }
            for e in d.entities_mut() { if r.below(3) == 0 { e.common.layer = nm2(&mut r) } }
            for b in d.blocks_mut() { if r.below(3) == 0 { b.layer = nm2(&mut r) } }
            for _ in 0..r.below(4) { let k = r.below(8); let l = r.below(3); match k { 0 => { d.remove_layer(l); } 1 => { d.remove_style(l); } 2 => { d.remove_line_type(l); } 3 => { d.remove_app_id(l); } 4 => { d.remove_dim_style(l); } 5 => { d.remove_view_port(l); } 6 => { d.remove_block_record(l); } _ => { d.remove_ucs(l); } } }
        }
        let txt = serde_json::to_string(&d.header).unwrap_or_default();
        c.case(&(i, &hist));
        let inp = || format!("case {i}: drawing built by {hist:?}, header {}", txt.chars().take(0).collect::<String>());
        check_norm(c, &mut d, &inp);
    });
}
