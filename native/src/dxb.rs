//! C22 (DXB) and C23 (thumbnail).
use crate::util::*;
use dxf::entities::*;
use dxf::*;
use image::{DynamicImage, GenericImageView};
use std::io::Cursor;

fn n(r: &mut Rng) -> f64 { match r.below(5) { 0 => 0.0, 1 => (r.next() as i16) as f64, 2 => (r.next() as i16) as f64 / 256.0, 3 => f32::from_bits((r.next() as u32 & 0x007f_ffff) | 0x3f80_0000) as f64, _ => -(r.below(1 << 24) as f64) } }
fn p2(r: &mut Rng) -> Point { Point::new(n(r), n(r), 0.0) }
fn p3(r: &mut Rng) -> Point { Point::new(n(r), n(r), n(r)) }
fn layer(r: &mut Rng) -> String { match r.below(5) { 0 => "0".into(), 1 => "".into(), 2 => "LAYER ONE".into(), 3 => { let n = r.below(9); (0..n).map(|_| char::from_u32(1 + r.below(255) as u32).unwrap()).collect() } _ => format!("L{}", r.below(3)) } }
fn raw(i: i16) -> Color { serde_json::from_value(serde_json::json!({"raw_value": i})).unwrap() }
fn color(r: &mut Rng) -> Color { match r.below(6) { 0 => Color::by_block(), 1 => Color::by_layer(), 2 => raw(r.next() as i16), 3 => Color::from_index(7), _ => Color::from_index(r.next() as u8 | 1) } }
fn entity(r: &mut Rng, d: &mut Drawing) -> Entity {
    let sp = match r.below(10) {
        0 => EntityType::Arc(Arc::new(p2(r), n(r), n(r), n(r))),
        1 => EntityType::Circle(Circle::new(p2(r), n(r))),
        2 => EntityType::Face3D(Face3D::new(p3(r), p3(r), p3(r), p3(r))),
        3 => EntityType::Line(Line::new(p3(r), p3(r))),
        4 => EntityType::ModelPoint(ModelPoint::new(p2(r))),
        5 => EntityType::Solid(Solid::new(p2(r), p2(r), p2(r), p2(r))),
        6 => EntityType::Trace(Trace::new(p2(r), p2(r), p2(r), p2(r))),
        7 => EntityType::Text(Text { value: "not in DXB".into(), ..Default::default() }),
        _ => {
            let mut p = Polyline::default();
            p.set_is_closed(r.bool());
            for _ in 0..r.below(6) {
                let mut v = Vertex::new(p2(r));
                if r.bool() { v.bulge = n(r) }
                if r.bool() { v.starting_width = n(r) }
                if r.bool() { v.ending_width = n(r) }
                p.add_vertex(d, v);
            }
            EntityType::Polyline(p)
        }
    };
    let mut e = Entity::new(sp);
    e.common.layer = layer(r);
    e.common.color = color(r);
    e
}
fn key(e: &Entity) -> Option<String> {
    let pt = |p: &Point| format!("({:?} {:?} {:?})", p.x, p.y, p.z);
    let s = match &e.specific {
        EntityType::Arc(a) => format!("arc {} {:?} {:?} {:?}", pt(&a.center), a.radius, a.start_angle, a.end_angle),
        EntityType::Circle(a) => format!("circle {} {:?}", pt(&a.center), a.radius),
        EntityType::Face3D(a) => format!("face {} {} {} {}", pt(&a.first_corner), pt(&a.second_corner), pt(&a.third_corner), pt(&a.fourth_corner)),
        EntityType::Line(a) => format!("line {} {}", pt(&a.p1), pt(&a.p2)),
        EntityType::ModelPoint(a) => format!("point {}", pt(&a.location)),
        EntityType::Solid(a) => format!("solid {} {} {} {}", pt(&a.first_corner), pt(&a.second_corner), pt(&a.third_corner), pt(&a.fourth_corner)),
        EntityType::Trace(a) => format!("trace {} {} {} {}", pt(&a.first_corner), pt(&a.second_corner), pt(&a.third_corner), pt(&a.fourth_corner)),
        EntityType::Polyline(a) => format!("polyline closed {} {:?}", a.is_closed(), a.vertices().map(|v| format!("{} bulge {:?} width {:?} {:?}", pt(&v.location), v.bulge, v.starting_width, v.ending_width)).collect::<Vec<_>>()),
        EntityType::Text(_) => return None,
        x => format!("other {x:?}"),
    };
    Some(format!("{s} layer {:?} color {}", e.common.layer, serde_json::to_value(&e.common.color).unwrap()["raw_value"]))
}
fn dxb(d: &Drawing) -> Result<Vec<u8>, String> { guard(|| { let mut b = Cursor::new(vec![]); d.save_dxb(&mut b).map_err(|e| e.to_string())?; Ok(b.into_inner()) })? }

pub fn run(c: &Ctx) {
    c.bound("random drawings of up to 12 entities of the 8 kinds DXB holds (with single-precision values, layers of Latin-1 text, any colour number) and kinds it does not hold, at top level or in the first block; saved as DXB, decoded by an independent DXB decoder (byte layout) and loaded back; independently encoded DXB files with integer coordinates and scale factors, 2D and 3D line extensions and trace extensions; truncations and single-byte changes of them: no panic");
    par(c.scale(40000, 600000), |i| {
        if elapsed_over(c, 40, 600) { return }
        let mut r = Rng::new(c.seed.wrapping_mul(31337).wrapping_add(i as u64));
        let mut d = Drawing::new();
        let k = r.below(13);
        let es: Vec<Entity> = (0..k).map(|_| entity(&mut r, &mut d)).collect();
        let want: Vec<String> = es.iter().filter_map(key).collect();
        let in_block = r.below(3) == 0 && !es.is_empty();
        let base = p2(&mut r);
        if in_block { let mut b = Block { base_point: base.clone(), ..Default::default() }; b.entities = es; d.add_block(b); } else { for e in es { d.add_entity(e); } }
        c.case(&format!("{in_block} {want:?}"));
        c.sample(|| format!("{want:?}").chars().take(300).collect());
        let inp = || format!("in block {in_block} base {base:?} {want:?}");
        let b = match dxb(&d) { Ok(b) => b, Err(e) => return c.fail("save", inp(), e) };
        match decode(&b) {
            Err(e) => c.fail("bytes", inp(), format!("the written file is not a well-formed DXB file: {e}; {}", hex(&b))),
            Ok((bb, ents)) => {
                if in_block != bb.is_some() || in_block && bb != Some((base.x, base.y)) { c.fail("block-base", inp(), format!("block base written as {bb:?}")) }
                if ents != want { c.fail("written", inp(), format!("the file holds {ents:?}")) }
            }
        }
        match load(&b) {
            Err(e) => c.fail("load", inp(), e),
            Ok(d2) => {
                let got: Vec<String> = if in_block { match d2.blocks().next() { Some(b) => { if b.base_point != base { c.fail("base", inp(), format!("base point {:?}", b.base_point)) } b.entities.iter().filter_map(key).collect() } None => vec!["no block".into()] } } else { d2.entities().filter_map(key).collect() };
                if got != want { c.fail("round-trip", inp(), format!("came back as {got:?}")) }
            }
        }
        // damage: every outcome is a value or an error
        for _ in 0..6 {
            let mut m = b.clone();
            if r.bool() { m.truncate(r.below(m.len() + 1)) } else { let at = r.below(m.len()); m[at] = r.next() as u8 }
            if let Err(e) = load(&m) { if e.starts_with("PANIC") { c.fail("panic", hex(&m), e) } }
        }
    });
    // files of other programs: integer mode, scale factor, extensions
    par(c.scale(40000, 600000), |i| {
        let mut r = Rng::new(c.seed.wrapping_mul(977).wrapping_add(i as u64));
        let int = r.bool();
        let scale: f64 = if int { *r.pick(&[1.0, 0.5, 2.0, 0.001, 100.0, 1.0 / 3.0]) } else { 1.0 };
        let mut b = b"AutoCAD DXB 1.0\r\n\x1a\x00".to_vec();
        let mut want = vec![];
        b.push(135); b.extend_from_slice(&(if int { 0i16 } else { 1 }).to_le_bytes());
        let mut col = 256i16;
        if scale == 1.0 && r.bool() { col = 1 + r.below(255) as i16; b.push(136); b.extend_from_slice(&col.to_le_bytes()) }
        let lay = if r.bool() { let l = format!("L{}", r.below(9)); b.push(129); b.extend_from_slice(l.as_bytes()); b.push(0); l } else { "0".into() };
        if int { b.push(128); b.extend_from_slice(&scale.to_le_bytes()) }
        let num = |r: &mut Rng, b: &mut Vec<u8>| -> f64 { let v = r.next() as i16; if int { b.extend_from_slice(&v.to_le_bytes()); v as f64 * scale } else { b.extend_from_slice(&(v as f32 / 4.0).to_le_bytes()); v as f64 / 4.0 } };
        let tail = format!("layer {:?} color {}", lay, col);
        let f = |p: &[f64; 3]| format!("({:?} {:?} {:?})", p[0], p[1], p[2]);
        let mut last: Option<[f64; 3]> = None;
        let mut lt: Option<([f64; 3], [f64; 3])> = None;
        for _ in 0..1 + r.below(10) {
            match r.below(6) {
                0 => { b.push(1); let a = [num(&mut r, &mut b), num(&mut r, &mut b), num(&mut r, &mut b)]; let z = [num(&mut r, &mut b), num(&mut r, &mut b), num(&mut r, &mut b)]; last = Some(z); want.push(format!("line {} {} {tail}", f(&a), f(&z))) }
                1 => if let Some(a) = last { b.push(130); let z = [num(&mut r, &mut b), num(&mut r, &mut b), 0.0]; last = Some(z); want.push(format!("line {} {} {tail}", f(&a), f(&z))) },
                2 => if let Some(a) = last { b.push(137); let z = [num(&mut r, &mut b), num(&mut r, &mut b), num(&mut r, &mut b)]; last = Some(z); want.push(format!("line {} {} {tail}", f(&a), f(&z))) },
                3 => { b.push(9); let q: Vec<[f64; 3]> = (0..4).map(|_| [num(&mut r, &mut b), num(&mut r, &mut b), 0.0]).collect(); lt = Some((q[2], q[3])); want.push(format!("trace {} {} {} {} {tail}", f(&q[0]), f(&q[1]), f(&q[2]), f(&q[3]))) }
                4 => if let Some((a, z)) = lt { b.push(131); let q: Vec<[f64; 3]> = (0..2).map(|_| [num(&mut r, &mut b), num(&mut r, &mut b), 0.0]).collect(); lt = Some((q[0], q[1])); want.push(format!("trace {} {} {} {} {tail}", f(&a), f(&z), f(&q[0]), f(&q[1]))) },
                _ => { b.push(3); let a = [num(&mut r, &mut b), num(&mut r, &mut b), 0.0]; let ra = num(&mut r, &mut b); want.push(format!("circle {} {:?} {tail}", f(&a), ra)) }
            }
        }
        b.push(0);
        c.case(&b);
        match load(&b) {
            Err(e) => c.fail("foreign-load", hex(&b), format!("{e}; expected {want:?}")),
            Ok(d) => { let got: Vec<String> = d.entities().filter_map(key).collect(); if got != want { c.fail("foreign", hex(&b), format!("expected {want:?} got {got:?}")) } }
        }
    });
}
/// independent DXB reader for files in floating point mode
fn decode(b: &[u8]) -> Result<(Option<(f64, f64)>, Vec<String>), String> {
    let head = b"AutoCAD DXB 1.0\r\n\x1a\x00";
    if !b.starts_with(head) { return Err("sentinel".into()) }
    let mut p = head.len();
    let mut take = |k: usize| -> Result<Vec<u8>, String> { if p + k > b.len() { Err("truncated".into()) } else { p += k; Ok(b[p - k..p].to_vec()) } };
    let (mut layer, mut color, mut base, mut float) = (String::from("0"), 256i16, None, false);
    let mut out: Vec<String> = vec![];
    let mut poly: Option<(String, Vec<String>, String)> = None;
    macro_rules! f { () => {{ if !float { return Err("number before float mode".into()) } let x = take(4)?; f32::from_le_bytes([x[0], x[1], x[2], x[3]]) as f64 }} }
    macro_rules! pt2 { () => {{ let x = f!(); let y = f!(); format!("({:?} {:?} 0.0)", x, y) }} }
    macro_rules! pt3 { () => {{ let x = f!(); let y = f!(); let z = f!(); format!("({:?} {:?} {:?})", x, y, z) }} }
    struct Vx { at: String, bulge: f64, w: (f64, f64) }
    let mut vs: Vec<Vx> = vec![];
    loop {
        let t = take(1)?[0];
        let cl = |color: i16| { color.to_string() };
        let tail = format!("layer {:?} color {}", layer, cl(color));
        match t {
            0 => break,
            1 | 21 => { let (a, z) = (pt3!(), pt3!()); out.push(format!("line {a} {z} {tail}")) }
            2 => { let a = pt2!(); out.push(format!("point {a} {tail}")) }
            3 => { let a = pt2!(); let r = f!(); out.push(format!("circle {a} {r:?} {tail}")) }
            8 => { let a = pt2!(); let (r, s, e) = (f!(), f!(), f!()); out.push(format!("arc {a} {r:?} {s:?} {e:?} {tail}")) }
            9 | 11 => { let q = [pt2!(), pt2!(), pt2!(), pt2!()]; out.push(format!("{} {} {} {} {} {tail}", if t == 9 { "trace" } else { "solid" }, q[0], q[1], q[2], q[3])) }
            22 => { let q = [pt3!(), pt3!(), pt3!(), pt3!()]; out.push(format!("face {} {} {} {} {tail}", q[0], q[1], q[2], q[3])) }
            19 => { let c = take(2)?; poly = Some((format!("{}", i16::from_le_bytes([c[0], c[1]]) != 0), vec![], tail)); vs.clear() }
            20 => { if poly.is_none() { return Err("vertex outside a polyline".into()) } vs.push(Vx { at: pt2!(), bulge: 0.0, w: (0.0, 0.0) }) }
            133 => { let x = f!(); vs.last_mut().ok_or("bulge without vertex")?.bulge = x }
            134 => { let x = f!(); let y = f!(); vs.last_mut().ok_or("width without vertex")?.w = (x, y) }
            17 => { let (cl, _, tl) = poly.take().ok_or("seqend outside a polyline")?; out.push(format!("polyline closed {cl} {:?} {tl}", vs.iter().map(|v| format!("{} bulge {:?} width {:?} {:?}", v.at, v.bulge, v.w.0, v.w.1)).collect::<Vec<_>>())) }
            129 => { let mut s = String::new(); loop { let c = take(1)?[0]; if c == 0 { break } s.push(c as char) } layer = s }
            128 => { take(8)?; return Err("unexpected scale factor".into()) }
            132 => { let x = f!(); let y = f!(); base = Some((x, y)) }
            135 => { let c = take(2)?; float = i16::from_le_bytes([c[0], c[1]]) != 0 }
            136 => { let c = take(2)?; color = i16::from_le_bytes([c[0], c[1]]) }
            x => return Err(format!("item type {x} at byte {}", p - 1)),
        }
    }
    if p != b.len() { return Err("bytes after the end".into()) }
    Ok((base, out))
}

/// C23
pub fn thumbs(c: &Ctx) {
    c.bound("images of every size from 1x1 to 24x24 and some larger ones, of 4 pixel types, with random pixels; all versions, text and binary; pixel-by-pixel comparison after loading; the drawing's other content unchanged; DIBs of other programs (BITMAPINFOHEADER with 0..256 palette colours, V4/V5 headers, 8/24/32 bits) compared with the reference decoding of the complete BMP; every truncation of a thumbnail: no panic");
    let mut sizes: Vec<(u32, u32)> = (1..=24).flat_map(|w| (1..=24).map(move |h| (w, h))).collect();
    sizes.extend([(100, 3), (3, 100), (180, 85), (64, 64), (33, 129)]);
    let sizes = &sizes;
    par(sizes.len(), |i| {
        let (w, h) = sizes[i];
        let mut r = Rng::new(c.seed.wrapping_mul(41).wrapping_add(i as u64));
        let mut px = |k: usize| -> Vec<u8> { (0..k).map(|_| r.next() as u8).collect() };
        let nn = (w * h) as usize;
        let img = match i % 3 { 0 => DynamicImage::ImageRgb8(image::RgbImage::from_raw(w, h, px(nn * 3)).unwrap()), 1 => DynamicImage::ImageRgba8(image::RgbaImage::from_raw(w, h, px(nn * 4)).unwrap()), _ => DynamicImage::ImageLuma8(image::GrayImage::from_raw(w, h, px(nn)).unwrap()) };
        for (vi, &ver) in VERS.iter().enumerate() { for bin in [false, true] {
            if w * h > 100 && (vi + i) % 3 != 0 { continue }
            let mut d = Drawing::new();
            d.header.version = ver;
            d.add_entity(Entity::new(EntityType::Line(Line::new(Point::origin(), Point::new(1.0, 2.0, 3.0)))));
            d.thumbnail = Some(img.clone());
            let inp = || format!("{w}x{h} kind {} {ver:?} binary {bin}", i % 3);
            c.case(&inp()); c.sample(inp);
            match round_trip(&d, bin) {
                Err(e) => c.fail("round-trip", inp(), e),
                Ok(d2) => {
                    if d2.entities().count() != 1 { c.fail("rest", inp(), "the entity is gone") }
                    match &d2.thumbnail {
                        None => if ver >= AcadVersion::R2000 { c.fail("gone", inp(), "no thumbnail after loading") },
                        Some(t) => if t.dimensions() != (w, h) || t.to_rgba8() != img.to_rgba8() { c.fail("pixels", inp(), format!("came back as {:?} with other pixels", t.dimensions())) },
                    }
                }
            }
        } }
    });
    // thumbnails of other programs
    par(c.scale(600, 20000), |i| {
        let mut r = Rng::new(c.seed.wrapping_mul(4321).wrapping_add(i as u64));
        let (w, h) = (1 + r.below(20), 1 + r.below(20));
        let bpp: usize = *r.pick(&[8, 24, 32, 8]);
        let hs: usize = *r.pick(&[40, 108, 124, 40]);
        let colors: usize = if bpp == 8 { *r.pick(&[256, 16, 1, 255]) } else { 0 };
        let stride = (w * bpp / 8 + 3) / 4 * 4;
        let mut dib = vec![];
        dib.extend_from_slice(&(hs as u32).to_le_bytes());
        dib.extend_from_slice(&(w as i32).to_le_bytes());
        dib.extend_from_slice(&(h as i32).to_le_bytes());
        dib.extend_from_slice(&1u16.to_le_bytes());
        dib.extend_from_slice(&(bpp as u16).to_le_bytes());
        dib.extend_from_slice(&0u32.to_le_bytes());
        dib.extend_from_slice(&((stride * h) as u32).to_le_bytes());
        dib.extend_from_slice(&[0; 8]);
        dib.extend_from_slice(&(colors as u32).to_le_bytes());
        dib.extend_from_slice(&0u32.to_le_bytes());
        dib.resize(hs, 0);
        for _ in 0..colors { dib.extend_from_slice(&[r.next() as u8, r.next() as u8, r.next() as u8, 0]) }
        let data = dib.len();
        for _ in 0..stride * h { let x = r.next() as u8; dib.push(if bpp == 8 { (x as usize % colors) as u8 } else { x }) }
        let mut bmp = b"BM".to_vec();
        bmp.extend_from_slice(&((14 + dib.len()) as u32).to_le_bytes());
        bmp.extend_from_slice(&[0; 4]);
        bmp.extend_from_slice(&((14 + data) as u32).to_le_bytes());
        bmp.extend_from_slice(&dib);
        let Ok(want) = image::load_from_memory(&bmp) else { return };
        let chunk = 1 + r.below(127);
        let file = |dib: &[u8]| { let mut s = format!("  0\r\nSECTION\r\n  2\r\nTHUMBNAILIMAGE\r\n 90\r\n{}\r\n", dib.len()); for x in dib.chunks(chunk) { s.push_str("310\r\n"); for y in x { s.push_str(&format!("{y:02X}")) } s.push_str("\r\n") } s.push_str("  0\r\nENDSEC\r\n  0\r\nEOF\r\n"); s };
        let inp = format!("{w}x{h} {bpp} bits header {hs} palette {colors} lines of {chunk} bytes");
        c.case(&inp);
        match load(file(&dib).as_bytes()) {
            Err(e) => c.fail("foreign", file(&dib), format!("{inp}: {e}")),
            Ok(d) => match &d.thumbnail { None => c.fail("foreign-gone", file(&dib), inp), Some(t) => if t.to_rgba8() != want.to_rgba8() { c.fail("foreign-pixels", file(&dib), inp) } },
        }
        let cut = r.below(dib.len() + 1);
        if let Err(e) = load(file(&dib[..cut]).as_bytes()) { if e.starts_with("PANIC") { c.fail("panic", file(&dib[..cut]), e) } }
    });
}
