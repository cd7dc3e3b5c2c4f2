//! C18: extended data and extension groups survive, as trees, on every record kind.
use crate::dec;
use crate::util::*;
use dxf::*;
use serde_json::{json, Value};

fn text(r: &mut Rng) -> String { match r.below(8) { 0 => "".into(), 1 => "{".into(), 2 => "}".into(), 3 => " a b ".into(), 4 => "{nested".into(), _ => r.string(12) } }
fn xitem(r: &mut Rng, depth: usize) -> XDataItem {
    match r.below(if depth == 0 { 13 } else { 16 }) {
        0 => XDataItem::Str(text(r)),
        1 => XDataItem::LayerName(text(r)),
        2 => { let n = r.below(40); XDataItem::BinaryData((0..n).map(|_| r.next() as u8).collect()) }
        3 => { let s = r.below(64); XDataItem::Handle(Handle(r.next() >> s)) }
        4 => XDataItem::ThreeReals(r.f64_exact(), r.f64_exact(), r.f64_exact()),
        5 => XDataItem::WorldSpacePosition(Point::new(r.f64_exact(), r.f64_exact(), r.f64_exact())),
        6 => XDataItem::WorldSpaceDisplacement(Point::new(r.f64_exact(), r.f64_exact(), r.f64_exact())),
        7 => XDataItem::WorldDirection(Vector::new(r.f64_exact(), r.f64_exact(), r.f64_exact())),
        8 => XDataItem::Real(r.f64_exact()),
        9 => XDataItem::Distance(r.f64_exact()),
        10 => XDataItem::ScaleFactor(r.f64_exact()),
        11 => XDataItem::Integer(r.i16()),
        12 => XDataItem::Long(r.i32()),
        _ => { let n = r.below(5); XDataItem::ControlGroup((0..n).map(|_| xitem(r, depth - 1)).collect()) }
    }
}
fn xdata(r: &mut Rng) -> Vec<XData> {
    let n = r.below(4);
    (0..n).map(|i| { let k = r.below(7); let depth = r.below(7); XData { application_name: if r.below(4) == 0 { text(r) } else { format!("APP{i}") }, items: (0..k).map(|_| xitem(r, depth)).collect() } }).collect()
}
fn group(r: &mut Rng, depth: usize) -> ExtensionGroup {
    let n = 1 + r.below(5);
    ExtensionGroup {
        application_name: match r.below(5) { 0 => "".into(), 1 => text(r), 2 => "ACAD_REACTORS".into(), _ => format!("G{}", r.below(9)) },
        items: (0..n).map(|_| if depth > 0 && r.below(3) == 0 { ExtensionGroupItem::Group(group(r, depth - 1)) } else {
            let code = *r.pick(&[1, 2, 5, 8, 10, 40, 62, 70, 90, 100, 160, 210, 280, 290, 310, 330, 340, 360, 370, 410, 420, 430, 440, 450, 460, 470, 1000, 1001, 1002, 1004, 1010, 1040, 1070, 1071]);
            let v = match dec::ty(code).unwrap() { dec::T::S => CodePairValue::Str(text(r)), dec::T::I16 => CodePairValue::Short(r.i16()), dec::T::I32 => CodePairValue::Integer(r.i32()), dec::T::I64 => CodePairValue::Long(r.i64()), dec::T::D => CodePairValue::Double(r.f64_exact()), dec::T::Bool => CodePairValue::Boolean(r.below(2) as i16), dec::T::X => { let n = 1 + r.below(20); CodePairValue::Binary((0..n).map(|_| r.next() as u8).collect()) } };
            ExtensionGroupItem::CodePair(CodePair::new(code, v, 0))
        }).collect(),
    }
}
/// offsets within the file are not part of a pair's value
fn strip(v: &mut Value) { match v { Value::Object(m) => { m.remove("offset"); for (_, x) in m.iter_mut() { strip(x) } } Value::Array(a) => for x in a { strip(x) }, _ => {} } }
fn deep_x(n: usize) -> XDataItem { let mut x = XDataItem::ControlGroup(vec![XDataItem::Integer(7)]); for _ in 1..n { x = XDataItem::ControlGroup(vec![XDataItem::Real(1.5), x, XDataItem::Str("after".into())]) } x }
fn deep_g(n: usize) -> ExtensionGroup { let mut g = ExtensionGroup { application_name: "in".into(), items: vec![ExtensionGroupItem::CodePair(CodePair::new_i16(70, 3))] }; for _ in 1..n { g = ExtensionGroup { application_name: "out".into(), items: vec![ExtensionGroupItem::Group(g), ExtensionGroupItem::CodePair(CodePair::new_str(1, "after"))] } } g }

pub fn run(c: &Ctx) {
    c.bound("every record kind that carries them (45 entity kinds, 52 object kinds, 9 tables, blocks) with random extended data trees (all 14 item kinds, up to 3 applications, nesting up to 6 and chains of up to 128) and random extension groups (34 codes of all value types, nesting up to 3 and chains of up to 120): 120 trees per kind, text and binary, R2000..R2018; the record's other fields unchanged by their presence");
    let vers: &[AcadVersion] = &[AcadVersion::R2000, AcadVersion::R2004, AcadVersion::R2007, AcadVersion::R2010, AcadVersion::R2013, AcadVersion::R2018];
    for k in crate::kinds("all") {
        if matches!(k.key(), "header" | "class") { continue }
        let bases = k.bases();
        let per = c.scale(120, 3000);
        par(bases.len() * per, |i| {
            if elapsed_over(c, 60, 900) { return }
            let b = &bases[i / per];
            let mut r = Rng::new(c.seed.wrapping_mul(7919).wrapping_add(i as u64).wrapping_add(k.key().len() as u64 * 1000003));
            let p = if b.val.get("common").is_some() { "/common" } else { "" };
            let mut v = b.val.clone();
            if v.pointer(&format!("{p}/x_data")).is_none() { return }
            let xd = if i % per == 0 { vec![XData { application_name: "DEEP".into(), items: vec![deep_x(1 + r.below(128)), XDataItem::Long(5)] }] } else { xdata(&mut r) };
            let gs = if i % per == 0 { vec![deep_g(1 + r.below(120))] } else { let n = r.below(3); (0..n).map(|_| { let d = r.below(4); group(&mut r, d) }).collect() };
            *v.pointer_mut(&format!("{p}/x_data")).unwrap() = serde_json::to_value(&xd).unwrap();
            let has_g = v.pointer(&format!("{p}/extension_data_groups")).is_some();
            if has_g { *v.pointer_mut(&format!("{p}/extension_data_groups")).unwrap() = serde_json::to_value(&gs).unwrap() }
            let (ver, bin) = (*r.pick(vers), r.bool());
            let inp = || format!("{} {ver:?} binary {bin}: x_data {} groups {}", b.name, serde_json::to_string(&xd).unwrap(), serde_json::to_string(&gs).unwrap());
            c.case(&inp());
            c.sample(|| inp().chars().take(400).collect());
            let (d, want) = match guard(|| k.put(&v, ver)) { Ok(x) => x, Err(e) => return c.fail(format!("put:{}", b.name), inp(), e) };
            match round_trip(&d, bin) {
                Err(e) => {
                    // kinds that this version cannot hold
                    if e.contains("PANIC") || true { c.fail(format!("load:{}:{}", k.key(), b.name), inp(), e) }
                }
                Ok(d2) => match k.get(&d2, &want) {
                    None => { if guard(|| k.put(&b.val, ver)).ok().and_then(|x| round_trip(&x.0, bin).ok().map(|d3| k.get(&d3, &x.1).is_some())) == Some(true) { c.fail(format!("gone:{}:{}", k.key(), b.name), inp(), "the record did not come back") } }
                    Some(g) => {
                        let (mut w, mut g) = (want, g);
                        strip(&mut w); strip(&mut g);
                        for f in ["x_data", "extension_data_groups"] {
                            let (a, z) = (w.pointer(&format!("{p}/{f}")), g.pointer(&format!("{p}/{f}")));
                            if a != z { c.fail(format!("{f}:{}:{}", k.key(), b.name), inp(), format!("{f} came back as {}", z.unwrap_or(&json!(null)))) }
                        }
                        // and they do not disturb the rest of the record
                        if let Some((d0, w0)) = guard(|| k.put(&b.val, ver)).ok() { if let Ok(d3) = round_trip(&d0, bin) { if let Some(mut g0) = k.get(&d3, &w0) {
                            strip(&mut g0);
                            for f in ["x_data", "extension_data_groups"] { for t in [&mut g, &mut g0] { if let Some(x) = t.pointer_mut(&format!("{p}/{f}")) { *x = json!([]) } } }
                            let df = crate::rt::diff(&g0, &g);
                            if !df.is_empty() { c.fail(format!("disturbed:{}:{}", k.key(), b.name), inp(), format!("{df:?} differ from the record without extended data")) }
                        } } }
                    }
                },
            }
        });
    }
}
