//! C10 flags, C11 enumerations, C12 colours and line weights, C13 versions, C25 conversions.
use crate::dec::{self, V};
use crate::util::*;
use dxf::entities::*;
use dxf::enums::*;
use dxf::tables::Layer;
use dxf::*;
use serde_json::json;

macro_rules! one_flags {
    ($c:expr, $t:ty, [$(($get:ident, $set:ident, $mask:expr, $raw:expr)),*]) => {{
        let c: &Ctx = $c;
        let name = stringify!($t);
        let gets: Vec<(&str, fn(&$t) -> bool)> = vec![$((stringify!($get), |v: &$t| v.$get())),*];
        let sets: Vec<fn(&mut $t, bool)> = vec![$(|v: &mut $t, b: bool| v.$set(b)),*];
        let raws: Vec<fn(&$t) -> i64> = vec![$($raw),*];
        let masks: Vec<i64> = vec![$($mask),*];
        let mut r = Rng::new(c.seed ^ 0xF1A6);
        let n = gets.len();
        // from the default, from all-set and from random states, set each flag both ways
        for round in 0..c.scale(40, 2000) {
            let mut v = <$t>::default();
            for i in 0..n { let b = match round { 0 => continue, 1 => true, 2 => false, _ => r.bool() }; (sets[i])(&mut v, b) }
            for i in 0..n {
                for b in [true, false] {
                    let before: Vec<bool> = gets.iter().map(|g| (g.1)(&v)).collect();
                    let raw0: Vec<i64> = raws.iter().map(|g| g(&v)).collect();
                    (sets[i])(&mut v, b);
                    c.case(&(name, round, i, b));
                    let inp = format!("{name}: flags {before:?} raw {:x} then {}({b})", raw0[i], stringify!([$($set),*]).split(", ").nth(i).unwrap_or(""));
                    for j in 0..n {
                        let now = (gets[j].1)(&v);
                        let want = if j == i { b } else { before[j] };
                        if now != want { c.fail(format!("flag:{name}:{}", gets[j].0), inp.clone(), format!("{} is {now}, expected {want}", gets[j].0)) }
                    }
                    let want = if b { raw0[i] | masks[i] } else { raw0[i] & !masks[i] };
                    let got = raws[i](&v);
                    if got != want { c.fail(format!("bit:{name}:{}", gets[i].0), inp.clone(), format!("flag word is {got:#x}, expected {want:#x}")) }
                }
            }
        }
        c.sample(|| format!("{name} with {n} flags"));
    }};
}
pub fn flags(c: &Ctx) {
    c.bound("all 144 flag accessors of 23 types: each set to true and false from the default state, the all-set, the all-clear and random states; every other flag, and the raw flag word, compared; the two words of a proxy entity over boundary and random values; dimension type flags through a file; the 19 header/entity/class flag words round-tripped");
    crate::flag_lists!(one_flags, c);
    // two 16-bit words in one 32-bit value
    let vals: Vec<i32> = [0, 1, 2, 255, 256, 32767, 32768, 65535].to_vec();
    let mut r = Rng::new(c.seed);
    for i in 0..c.scale(3000, 100000) {
        let (a, b) = if i < 64 { (vals[i / 8], vals[i % 8]) } else { (r.below(65536) as i32, r.below(65536) as i32) };
        for first in [true, false] {
            let mut p = ProxyEntity::default();
            if first { p.set_object_drawing_format_version(a); p.set_object_mainenance_release_version(b) } else { p.set_object_mainenance_release_version(b); p.set_object_drawing_format_version(a) }
            c.case(&("proxy", a, b, first));
            let g = (p.object_drawing_format_version(), p.object_maintenance_release_version());
            if g != (a, b) { c.fail("proxy-words", format!("format version {a}, maintenance release {b}, order {first}"), format!("read back as {g:?}")) }
        }
    }
    // dimension type with its three flags
    for ty in 0..5usize {
        for m in 0..8 {
            let mut base = DimensionBase { is_block_reference_referenced_by_this_block_only: m & 1 != 0, is_ordinate_x_type: m & 2 != 0, is_at_user_defined_location: m & 4 != 0, ..Default::default() };
            let (t, e) = match ty {
                0 => (DimensionType::RotatedHorizontalOrVertical, EntityType::RotatedDimension(RotatedDimension { dimension_base: { base.dimension_type = DimensionType::RotatedHorizontalOrVertical; base.clone() }, ..Default::default() })),
                1 => (DimensionType::Radius, EntityType::RadialDimension(RadialDimension { dimension_base: { base.dimension_type = DimensionType::Radius; base.clone() }, ..Default::default() })),
                2 => (DimensionType::Diameter, EntityType::DiameterDimension(DiameterDimension { dimension_base: { base.dimension_type = DimensionType::Diameter; base.clone() }, ..Default::default() })),
                3 => (DimensionType::AngularThreePoint, EntityType::AngularThreePointDimension(AngularThreePointDimension { dimension_base: { base.dimension_type = DimensionType::AngularThreePoint; base.clone() }, ..Default::default() })),
                _ => (DimensionType::Ordinate, EntityType::OrdinateDimension(OrdinateDimension { dimension_base: { base.dimension_type = DimensionType::Ordinate; base.clone() }, ..Default::default() })),
            };
            for ver in [AcadVersion::R12, AcadVersion::R13, AcadVersion::R2000, AcadVersion::R2018] {
                let mut d = Drawing::new();
                d.header.version = ver;
                d.add_entity(Entity::new(e.clone()));
                c.case(&("dim", ty, m, ver as i32));
                let inp = format!("{ver:?} dimension {t:?} flags {m:03b}");
                let file = save(&d, false).and_then(|b| dec::text(&b));
                if let Ok(f) = &file { let at = f.iter().position(|p| *p == (0, V::S(b"DIMENSION".to_vec()))); let v = at.and_then(|at| f[at..].iter().find(|p| p.0 == 70)).map(|p| p.1.clone()); let w = V::I((t as i64) | (m as i64 & 1) * 32 | ((m as i64 >> 1) & 1) * 64 | ((m as i64 >> 2) & 1) * 128); if v != Some(w.clone()) { c.fail("dim-type-written", inp.clone(), format!("code 70 is {v:?}, expected {w:?}")) } }
                match round_trip(&d, false) {
                    Err(m) => c.fail("dim-load", inp, m),
                    Ok(d2) => {
                        let b2 = d2.entities().next().and_then(|e| match &e.specific { EntityType::RotatedDimension(x) => Some(x.dimension_base.clone()), EntityType::RadialDimension(x) => Some(x.dimension_base.clone()), EntityType::DiameterDimension(x) => Some(x.dimension_base.clone()), EntityType::AngularThreePointDimension(x) => Some(x.dimension_base.clone()), EntityType::OrdinateDimension(x) => Some(x.dimension_base.clone()), _ => None });
                        match b2 { None => c.fail("dim-kind", inp, "did not come back as a dimension of its kind"), Some(x) => if (x.dimension_type, x.is_block_reference_referenced_by_this_block_only, x.is_ordinate_x_type, x.is_at_user_defined_location) != (t, m & 1 != 0, m & 2 != 0, m & 4 != 0) { c.fail("dim-flags", inp, format!("came back as {:?} {} {} {}", x.dimension_type, x.is_block_reference_referenced_by_this_block_only, x.is_ordinate_x_type, x.is_at_user_defined_location)) } }
                    }
                }
            }
        }
    }
}

macro_rules! one_enum {
    ($c:expr, $e:ident, [$(($v:ident, $n:expr)),*]) => {{
        use enum_primitive::FromPrimitive;
        let c: &Ctx = $c;
        let tab: Vec<(i64, dxf::enums::$e)> = vec![$(($n, dxf::enums::$e::$v)),*];
        $( if dxf::enums::$e::$v as i64 != $n { c.fail(format!("number:{}:{}", stringify!($e), stringify!($v)), stringify!($e).to_string(), format!("{}::{} has number {}, the format says {}", stringify!($e), stringify!($v), dxf::enums::$e::$v as i64, $n)) } )*
        for n in -70000..70000i64 {
            let want = tab.iter().find(|t| t.0 == n).map(|t| t.1);
            let got = [<dxf::enums::$e as FromPrimitive>::from_i64(n), <dxf::enums::$e as FromPrimitive>::from_i32(n as i32), if n == n as i16 as i64 { <dxf::enums::$e as FromPrimitive>::from_i16(n as i16) } else { want }];
            for g in got { if g != want { c.fail(format!("from:{}", stringify!($e)), format!("{n}"), format!("{}: number {n} reads as {g:?}, expected {want:?}", stringify!($e))) } }
        }
        c.cases.fetch_add(140000, std::sync::atomic::Ordering::Relaxed);
        for t in &tab { c.case(&(stringify!($e), t.0)); }
    }};
}
pub fn enums(c: &Ctx) {
    c.bound("all 100 enumerations with their 503 named values: number of each value against the committed table, and reading of every number in -70000..70000; enumeration fields of every record kind set to each value and to 20 numbers outside of the enumeration in the file (text, R2018), which must load");
    crate::enum_lists!(one_enum, c);
    // a number that names no value never makes the file unreadable
    for k in crate::kinds("all") {
        if matches!(k.key(), "class" | "block") { continue }
        for (name, v) in crate::rt::single_cases(&*k) {
            if name.split('|').nth(1) != Some("") { continue }
            let (d, _) = match guard(|| k.put(&v, AcadVersion::R2018)) { Ok(x) => x, Err(_) => continue };
            let pairs = match save(&d, false).and_then(|b| dec::text(&b)) { Ok(p) => p, Err(_) => continue };
            let idx: Vec<usize> = (0..pairs.len()).filter(|&i| matches!(pairs[i].1, V::I(_)) && matches!(dec::ty(pairs[i].0), Some(dec::T::I16)) && !(pairs[i].0 == 90)).collect();
            if idx.len() > 400 && c.tier == Tier::Quick && k.key() != "header" { continue }
            par(idx.len(), |j| {
                let i = idx[j];
                for n in [-1i64, 99, 127, 300, -32768, 32767] {
                    if elapsed_over(c, 60, 600) { return }
                    let mut p = pairs.clone();
                    p[i].1 = V::I(n);
                    c.case(&("enum-file", &name, i, n));
                    match load(&dec::to_text(&p)) {
                        Err(e) if e.starts_with("PANIC") => c.fail(format!("enum-panic:{}:{}", k.key(), name), format!("{name}: code {} = {n}", p[i].0), e),
                        _ => {}
                    }
                }
            });
        }
    }
}

pub fn colors(c: &Ctx) {
    c.bound("every one of the 65536 raw colour and line weight values: predicates, index, setters; colours, line weights and the on/off state of a layer and an entity through text and binary files for every value -260..=260 and a sample of the rest, versions R12, R2000, R2018");
    for raw in i16::MIN..=i16::MAX {
        let col: Color = serde_json::from_value(json!({ "raw_value": raw })).unwrap();
        let inp = format!("colour {raw}");
        c.cases.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let k = [col.is_by_layer(), col.is_by_block(), col.is_by_entity(), col.is_turned_off(), col.is_index()];
        let w = [raw == 256, raw == 0, raw == 257, raw < 0, (1..=255).contains(&raw)];
        if k != w { c.fail("colour-kind", inp.clone(), format!("(by layer, by block, by entity, off, index) = {k:?}, expected {w:?}")) }
        let wi = if (1..=255).contains(&raw) { Some(raw as u8) } else { None };
        if col.index() != wi { c.fail("colour-index", inp.clone(), format!("index {:?}, expected {wi:?}", col.index())) }
        let mut x = col.clone(); x.set_by_layer(); if !x.is_by_layer() || x != Color::by_layer() { c.fail("set-by-layer", inp.clone(), "") }
        let mut x = col.clone(); x.set_by_block(); if !x.is_by_block() || x != Color::by_block() { c.fail("set-by-block", inp.clone(), "") }
        let mut x = col.clone(); x.set_by_entity(); if !x.is_by_entity() || x != Color::by_entity() { c.fail("set-by-entity", inp.clone(), "") }
        let mut x = col.clone(); x.turn_off(); if !x.is_turned_off() || x.index().is_some() { c.fail("turn-off", inp.clone(), "") }
        let lw: LineWeight = serde_json::from_value(json!({ "raw_value": raw })).unwrap();
        if (lw.is_by_block(), lw.is_by_layer(), lw.raw_value()) != (raw == -1, raw == -2, raw) { c.fail("line-weight", format!("line weight {raw}"), format!("{:?}", (lw.is_by_block(), lw.is_by_layer(), lw.raw_value()))) }
    }
    for i in 0..=255u8 { let x = Color::from_index(i); let w = if i == 0 { None } else { Some(i) }; c.case(&("idx", i)); if x.index() != w { c.fail("from-index", format!("{i}"), format!("{:?}", x.index())) } }
    if !LineWeight::by_block().is_by_block() || !LineWeight::by_layer().is_by_layer() || LineWeight::by_block().is_by_layer() { c.fail("line-weight-ctor", "", "") }
    let mut raws: Vec<i16> = (-260..=260).collect();
    let mut r = Rng::new(c.seed);
    raws.extend([i16::MIN, i16::MIN + 1, i16::MAX]);
    for _ in 0..c.scale(200, 20000) { raws.push(r.next() as i16) }
    par(raws.len(), |i| {
        let raw = raws[i];
        for (ver, bin) in [(AcadVersion::R12, false), (AcadVersion::R2000, true), (AcadVersion::R2018, false)] {
            if elapsed_over(c, 90, 900) { return }
            for on in [true, false] {
                let col: Color = serde_json::from_value(json!({ "raw_value": raw })).unwrap();
                let lw: LineWeight = serde_json::from_value(json!({ "raw_value": raw })).unwrap();
                let mut d = Drawing::new();
                d.header.version = ver;
                d.add_layer(Layer { name: "L".into(), color: col.clone(), is_layer_on: on, line_weight: lw.clone(), ..Default::default() });
                let mut e = Entity::new(EntityType::Line(Default::default()));
                e.common.color = col.clone();
                e.common.lineweight_enum_value = raw;
                d.add_entity(e);
                let inp = format!("raw {raw} on {on} {ver:?} binary {bin}");
                c.case(&inp);
                match round_trip(&d, bin) {
                    Err(m) => c.fail("load", inp, m),
                    Ok(d2) => {
                        if let Some(l) = d2.layers().find(|l| l.name == "L") {
                            // a layer's colour number is kept without its sign, the sign says whether the layer is on
                            let want: Color = serde_json::from_value(json!({ "raw_value": raw.checked_abs().unwrap_or(i16::MAX) })).unwrap();
                            if l.color != want { c.fail("layer-colour", inp.clone(), format!("came back as {:?}", l.color)) }
                            if raw != 0 && l.is_layer_on != on { c.fail("layer-on", inp.clone(), format!("is_layer_on came back as {}", l.is_layer_on)) }
                            if ver >= AcadVersion::R2000 && l.line_weight != lw { c.fail("layer-line-weight", inp.clone(), format!("came back as {:?}", l.line_weight)) }
                        } else { c.fail("layer-gone", inp.clone(), "") }
                        match d2.entities().next() { Some(e) => { if e.common.color != col { c.fail("entity-colour", inp.clone(), format!("came back as {:?}", e.common.color)) } if ver >= AcadVersion::R2000 && e.common.lineweight_enum_value != raw { c.fail("entity-line-weight", inp.clone(), format!("came back as {}", e.common.lineweight_enum_value)) } } None => c.fail("entity-gone", inp.clone(), "") }
                    }
                }
            }
        }
    });
}

const NAMES: &[(AcadVersion, &str)] = &[
    (AcadVersion::Version_1_0, "MC0.0"), (AcadVersion::Version_1_2, "AC1.2"), (AcadVersion::Version_1_40, "AC1.40"), (AcadVersion::Version_2_05, "AC1.50"), (AcadVersion::Version_2_10, "AC2.10"), (AcadVersion::Version_2_21, "AC2.21"), (AcadVersion::Version_2_22, "AC2.22"),
    (AcadVersion::Version_2_5, "AC1002"), (AcadVersion::Version_2_6, "AC1003"), (AcadVersion::R9, "AC1004"), (AcadVersion::R10, "AC1006"), (AcadVersion::R12, "AC1009"), (AcadVersion::R13, "AC1012"), (AcadVersion::R14, "AC1014"),
    (AcadVersion::R2000, "AC1015"), (AcadVersion::R2004, "AC1018"), (AcadVersion::R2007, "AC1021"), (AcadVersion::R2010, "AC1024"), (AcadVersion::R2013, "AC1027"), (AcadVersion::R2018, "AC1032"),
];
const ALIAS: &[(&str, AcadVersion)] = &[("AC1001", AcadVersion::Version_2_22), ("AC1011", AcadVersion::R13), ("14", AcadVersion::R14), ("14.01", AcadVersion::R14), ("15.0", AcadVersion::R2000), ("15.05", AcadVersion::R2000), ("15.06", AcadVersion::R2000), ("16.0", AcadVersion::R2004), ("16.1", AcadVersion::R2004), ("16.2", AcadVersion::R2004), ("17.0", AcadVersion::R2007), ("17.1", AcadVersion::R2007), ("17.2", AcadVersion::R2007), ("18.0", AcadVersion::R2010), ("18.1", AcadVersion::R2010), ("18.2", AcadVersion::R2010), ("19.0", AcadVersion::R2013), ("19.1", AcadVersion::R2013), ("19.2", AcadVersion::R2013), ("19.3", AcadVersion::R2013)];
pub fn versions(c: &Ctx) {
    c.bound("all 21 versions: name, parse, order (all 441 pairs), $ACADVER in text and binary files, the version after loading; all 20 alias names; every record kind with default values saved for every version: which sections, tables, subclass markers and record kinds appear");
    let all: Vec<AcadVersion> = NAMES.iter().map(|x| x.0).collect();
    for (i, (v, n)) in NAMES.iter().enumerate() {
        c.case(&("name", n));
        if v.to_string() != *n { c.fail(format!("name:{n}"), format!("{v:?}"), format!("written as {}", v)) }
        match AcadVersion::from(n.to_string()) { Ok(x) if x == *v => {} x => c.fail(format!("parse:{n}"), n.to_string(), format!("read as {:?}", x.ok())) }
        for (j, w) in all.iter().enumerate() { c.case(&(i, j)); if (i < j) != (v < w) || (i == j) != (v == w) || (i > j) != (v > w) { c.fail(format!("order:{v:?}:{w:?}"), "", "the order of versions is not chronological") } }
        for bin in [false, true] {
            let mut d = Drawing::new();
            d.header.version = *v;
            c.case(&("file", i, bin));
            let inp = format!("{v:?} binary {bin}");
            let b = match save(&d, bin) { Ok(b) => b, Err(e) => { c.fail(format!("save:{v:?}"), inp, e); continue } };
            let p = if bin { dec::binary(&b, *v >= AcadVersion::R13) } else { dec::text(&b) };
            match p { Err(e) => c.fail(format!("file:{v:?}:{bin}"), inp.clone(), e), Ok(p) => if let Some(k) = p.iter().position(|x| *x == (9, V::S(b"$ACADVER".to_vec()))) { if p[k + 1] != (1, V::S(n.as_bytes().to_vec())) { c.fail(format!("acadver:{v:?}"), inp.clone(), format!("{:?}", p[k + 1])) } } else { c.fail(format!("acadver:{v:?}"), inp.clone(), "no $ACADVER") } }
            match load(&b) { Err(e) => c.fail(format!("load:{v:?}"), inp, e), Ok(d2) => if d2.header.version != *v { c.fail(format!("version:{v:?}"), inp, format!("came back as {:?}", d2.header.version)) } }
        }
    }
    if AcadVersion::R11.to_string() != "AC1009" || !(AcadVersion::R10 < AcadVersion::R11 && AcadVersion::R11 < AcadVersion::R12) { c.fail("r11", "", "R11 is AC1009 between R10 and R12") }
    for (s, v) in ALIAS { c.case(s); if AcadVersion::from(s.to_string()).ok() != Some(*v) { c.fail(format!("alias:{s}"), s.to_string(), "") } }
    for s in ["", "AC1009 ", "ac1009", "AC10", "AC1033", "AC9999", "x"] {
        c.case(s);
        if AcadVersion::from(s.to_string()).is_ok() { c.fail(format!("accept:{s:?}"), s.to_string(), "a name of no version was accepted") }
        match load(format!("  0\r\nSECTION\r\n  2\r\nHEADER\r\n  9\r\n$ACADVER\r\n  1\r\n{s}\r\n  0\r\nENDSEC\r\n  0\r\nEOF\r\n").as_bytes()) { Err(e) => c.fail("unknown-version", s.to_string(), e), Ok(d) => if d.header.version != AcadVersion::R12 { c.fail("unknown-version", s.to_string(), format!("read as {:?}, expected R12", d.header.version)) } }
    }
    // structure of a file per version
    let mut d = Drawing::new();
    d.classes.push(Class::default());
    d.add_block(Block { name: "B".into(), entities: vec![Entity::new(EntityType::Line(Default::default()))], ..Default::default() });
    for t in [EntityType::Line(Default::default()), EntityType::LwPolyline(LwPolyline { vertices: vec![LwPolylineVertex::default()], ..Default::default() }), EntityType::MText(Default::default()), EntityType::Ellipse(Default::default()), EntityType::Spline(Default::default()), EntityType::Circle(Default::default()), EntityType::RotatedDimension(Default::default()), EntityType::Text(Default::default()), EntityType::Helix(Default::default()), EntityType::Light(Default::default()), EntityType::Polyline({ let mut p = Polyline::default(); p.add_vertex(&mut d, Vertex::default()); p })] { d.add_entity(Entity::new(t)); }
    d.add_object(objects::Object::new(objects::ObjectType::PlaceHolder(Default::default())));
    d.add_object(objects::Object::new(objects::ObjectType::XRecordObject(Default::default())));
    let min: &[(&str, AcadVersion)] = &[("LINE", AcadVersion::R9), ("CIRCLE", AcadVersion::R9), ("TEXT", AcadVersion::R9), ("POLYLINE", AcadVersion::R9), ("DIMENSION", AcadVersion::R9), ("LWPOLYLINE", AcadVersion::R14), ("MTEXT", AcadVersion::R13), ("ELLIPSE", AcadVersion::R13), ("SPLINE", AcadVersion::R13), ("HELIX", AcadVersion::R2007), ("LIGHT", AcadVersion::R2007)];
    for &v in VERS {
        for handles in [true, false] {
            d.header.version = v;
            d.header.handles_enabled = handles;
            c.case(&("struct", v as i32, handles));
            let inp = format!("{v:?} handles {handles}");
            let p = match save(&d, false).and_then(|b| dec::text(&b)) { Ok(p) => p, Err(e) => { c.fail("struct-save", inp, e); continue } };
            let has = |c: i32, s: &str| p.iter().any(|x| x.0 == c && x.1 == V::S(s.as_bytes().to_vec()));
            let sec = |s: &str| p.windows(2).any(|w| w[0] == (0, V::S(b"SECTION".to_vec())) && w[1] == (2, V::S(s.as_bytes().to_vec())));
            let ck = |cond: bool, want: bool, what: &str| if cond != want { c.fail(format!("struct:{what}:{v:?}"), inp.clone(), format!("{what} is {}in the file", if cond { "" } else { "not " })) };
            ck(sec("OBJECTS"), v >= AcadVersion::R13, "OBJECTS section");
            ck(p.windows(2).any(|w| w[0] == (0, V::S(b"TABLE".to_vec())) && w[1] == (2, V::S(b"BLOCK_RECORD".to_vec()))), v >= AcadVersion::R13, "BLOCK_RECORD table");
            for n in ["LINE", "CIRCLE", "TEXT"] { if let Some(k) = p.iter().position(|x| *x == (0, V::S(n.as_bytes().to_vec()))) { ck(p[k + 1..].iter().take_while(|x| x.0 != 0).any(|x| x.0 == 100), v >= AcadVersion::R13, "subclass marker") } }
            let at = p.windows(2).position(|w| w[0] == (0, V::S(b"SECTION".to_vec())) && w[1] == (2, V::S(b"ENTITIES".to_vec()))).unwrap_or(0);
            let ents = &p[at..];
            ck(ents.iter().take_while(|x| **x != (0, V::S(b"ENDSEC".to_vec()))).any(|x| x.0 == 5), v >= AcadVersion::R13 || handles, "entity handle");
            for (n, m) in min { ck(ents.iter().any(|x| *x == (0, V::S(n.as_bytes().to_vec()))), v >= *m, n) }
            ck(has(9, "$HANDSEED"), true, "$HANDSEED");
        }
    }
}

pub fn conversions(c: &Ctx) {
    use chrono::{Datelike, TimeZone, Timelike, Utc};
    c.bound("header dates: every second-aligned instant of a sample of days 1900..2200 (boundaries, leap days, random), local and UTC variables, text and binary; edit durations; UUIDs random and boundary; MATERIAL matrices of 16 distinct values; points and vectors with distinct coordinates");
    let mut r = Rng::new(c.seed ^ 25);
    let mut when = vec![];
    for (y, m, dd) in [(1900, 1, 1), (1900, 1, 2), (1900, 2, 28), (1900, 3, 1), (1970, 1, 1), (1999, 12, 31), (2000, 2, 29), (2004, 2, 29), (2024, 12, 31), (2038, 1, 19), (2099, 12, 31), (2100, 2, 28), (2199, 12, 31)] { for s in [0, 1, 43199, 43200, 43201, 86398, 86399] { when.push((y, m, dd, s)) } }
    for _ in 0..c.scale(3000, 100000) { when.push((1900 + r.below(300) as i32, 1 + r.below(12) as u32, 1 + r.below(28) as u32, r.below(86400) as u32)) }
    par(when.len(), |i| {
        if elapsed_over(c, 60, 900) { return }
        let (y, m, dd, s) = when[i];
        let u = Utc.with_ymd_and_hms(y, m, dd, s / 3600, s / 60 % 60, s % 60).unwrap();
        let l = match chrono::Local.with_ymd_and_hms(y, m, dd, s / 3600, s / 60 % 60, s % 60).single() { Some(l) => l, None => return };
        let mut d = Drawing::new();
        d.header.version = AcadVersion::R2018;
        d.header.creation_date = l; d.header.update_date = l; d.header.creation_date_universal = u; d.header.update_date_universal = u;
        let bin = i % 2 == 0;
        let inp = format!("{u} binary {bin}");
        c.case(&inp);
        let b = match save(&d, bin) { Ok(b) => b, Err(e) => return c.fail("save", inp, e) };
        // independent: Julian day number of the date plus the fraction of the day
        let p = if bin { dec::binary(&b, true) } else { dec::text(&b) }.unwrap_or_default();
        let jd = { let a = (14 - m as i64) / 12; let yy = y as i64 + 4800 - a; let mm = m as i64 + 12 * a - 3; dd as i64 + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045 };
        for var in ["$TDCREATE", "$TDUCREATE"] {
            if let Some(k) = p.iter().position(|x| *x == (9, V::S(var.as_bytes().to_vec()))) { if let V::D(x) = p[k + 1].1 { if (x - (jd as f64 + s as f64 / 86400.0)).abs() > 0.4 / 86400.0 { c.fail(format!("julian:{var}"), inp.clone(), format!("{var} is {x}, the Julian date is {}", jd as f64 + s as f64 / 86400.0)) } } } else { c.fail("no-date", inp.clone(), var.to_string()) }
        }
        match load(&b) {
            Err(e) => c.fail("load", inp, e),
            Ok(d2) => {
                let h = &d2.header;
                for (n, t) in [("creation_date", h.creation_date), ("update_date", h.update_date)] { if t != l { c.fail(format!("date:{n}"), inp.clone(), format!("came back as {t}")) } }
                for (n, t) in [("creation_date_universal", h.creation_date_universal), ("update_date_universal", h.update_date_universal)] { if t != u || t.year() != y || t.second() != s % 60 { c.fail(format!("date:{n}"), inp.clone(), format!("came back as {t}")) } }
            }
        }
    });
    for i in 0..c.scale(600, 20000) {
        let mut d = Drawing::new();
        d.header.version = AcadVersion::R2018;
        let secs = match i { 0 => 0, 1 => 1, 2 => 59, 3 => 86400, 4 => 1 << 31, 5 => 1 << 33, _ => r.next() >> (20 + r.below(40)) };
        d.header.time_in_drawing = std::time::Duration::from_secs(secs);
        let g = match i { 0 => uuid::Uuid::nil(), 1 => uuid::Uuid::from_u128(u128::MAX), 2 => uuid::Uuid::from_u128(1), _ => uuid::Uuid::from_u128((r.next() as u128) << 64 | r.next() as u128) };
        d.header.fingerprint_guid = g; d.header.version_guid = g;
        let inp = format!("duration {secs}s uuid {g}");
        c.case(&inp);
        match round_trip(&d, i % 2 == 1) {
            Err(e) => c.fail("load2", inp, e),
            Ok(d2) => {
                if d2.header.time_in_drawing.as_secs() != secs { c.fail("duration", inp.clone(), format!("came back as {:?}", d2.header.time_in_drawing)) }
                if d2.header.fingerprint_guid != g || d2.header.version_guid != g { c.fail("uuid", inp.clone(), format!("came back as {} {}", d2.header.fingerprint_guid, d2.header.version_guid)) }
            }
        }
    }
    for i in 0..c.scale(200, 5000) {
        let mut v: Vec<f64> = (0..16).map(|k| if i == 0 { k as f64 + 1.0 } else { r.f64_exact() }).collect();
        if i == 1 { v = vec![0.0; 16] }
        let m = TransformationMatrix { m11: v[0], m12: v[1], m13: v[2], m14: v[3], m21: v[4], m22: v[5], m23: v[6], m24: v[7], m31: v[8], m32: v[9], m33: v[10], m34: v[11], m41: v[12], m42: v[13], m43: v[14], m44: v[15] };
        let mut d = Drawing::new();
        d.header.version = AcadVersion::R2018;
        d.add_object(objects::Object::new(objects::ObjectType::Material(objects::Material { diffuse_map_transformation_matrix: m, bump_map_transformation_matrix: m, ..Default::default() })));
        let m43 = TransformationMatrix { m41: 0.0, m42: 0.0, m43: 0.0, m44: 0.0, ..m };
        d.add_object(objects::Object::new(objects::ObjectType::SpatialFilter(objects::SpatialFilter { transformation_matrix: m43, inverse_transformation_matrix: m43, ..Default::default() })));
        let inp = format!("matrix {v:?}");
        c.case(&inp);
        match round_trip(&d, i % 2 == 1) {
            Err(e) => c.fail("load3", inp, e),
            Ok(d2) => for o in d2.objects() {
                match &o.specific {
                    objects::ObjectType::Material(x) => if x.diffuse_map_transformation_matrix != m || x.bump_map_transformation_matrix != m { c.fail("matrix:material", inp.clone(), format!("came back as {:?}", x.diffuse_map_transformation_matrix)) },
                    objects::ObjectType::SpatialFilter(x) => { let f = |t: &TransformationMatrix| TransformationMatrix { m41: 0.0, m42: 0.0, m43: 0.0, m44: 0.0, ..*t }; if f(&x.transformation_matrix) != m43 || f(&x.inverse_transformation_matrix) != m43 { c.fail("matrix:spatial-filter", inp.clone(), format!("came back as {:?} {:?}", x.transformation_matrix, x.inverse_transformation_matrix)) } }
                    _ => {}
                }
            },
        }
    }
    // absurd numbers in date and duration variables do not make a file unreadable
    for x in ["0.0", "-1.0", "1e300", "-1e300", "NaN", "inf", "-inf", "2415020.5", "9999999999.0", "106751991167.0", "18446744073709551615.0"] {
        for var in ["$TDCREATE", "$TDUCREATE", "$TDINDWG", "$TDUSRTIMER"] {
            c.case(&(x, var));
            if let Err(e) = load(format!("  0\r\nSECTION\r\n  2\r\nHEADER\r\n  9\r\n$ACADVER\r\n  1\r\nAC1032\r\n  9\r\n{var}\r\n 40\r\n{x}\r\n  0\r\nENDSEC\r\n  0\r\nEOF\r\n").as_bytes()) { c.fail(format!("absurd:{var}"), format!("{var} = {x}"), e) }
        }
    }
}
