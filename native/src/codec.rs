//! C03/C04: code pairs of every code survive a binary / text file; C05: every written value has its code's type.
use crate::dec::{self, T, V};
use crate::util::*;
use dxf::objects::*;
use dxf::*;

/// codes that carry plain data in an XRECORD
pub fn data_codes() -> Vec<i32> {
    (1..=1071).filter(|&c| dec::ty(c).is_some() && !matches!(c, 5 | 100 | 102 | 105 | 280 | 999 | 1000..=1071)).collect()
}
fn value(r: &mut Rng, t: T, bin: bool, n: usize) -> CodePairValue {
    match t {
        T::S => CodePairValue::Str(match n { 0 => "".into(), 1 => "abc".into(), 2 => " lead and trail ".into(), 3 => "x".repeat(700), _ => r.string(30) }),
        T::I16 => CodePairValue::Short(match n { 0 => i16::MIN, 1 => i16::MAX, 2 => -1, 3 => 255, 4 => 256, 5 => 0x1A0A, _ => r.i16() }),
        T::I32 => CodePairValue::Integer(match n { 0 => i32::MIN, 1 => i32::MAX, 2 => -1, 3 => 65536, 4 => 0x0A0D1A00, _ => r.i32() }),
        T::I64 => CodePairValue::Long(match n { 0 => i64::MIN, 1 => i64::MAX, 2 => -1, 3 => 1 << 32, 4 => 1 << 53 | 1, _ => r.i64() }),
        T::Bool => CodePairValue::Boolean((n % 2) as i16),
        T::D => CodePairValue::Double(if bin {
            match n { 0 => f64::MAX, 1 => f64::MIN_POSITIVE, 2 => -0.0, 3 => f64::INFINITY, 4 => 5e-324, 5 => 0.1 + 0.2, 6 => -1e300, _ => { let f = f64::from_bits(r.next()); if f.is_nan() { 1.0 / 3.0 } else { f } } }
        } else {
            match n { 0 => 1e15, 1 => 0.000000000001, 2 => -0.5, 3 => 0.1 + 0.2, 4 => 123456789.987654321, 5 => -1e-13, 6 => 1.0 / 3.0, 7 => 10.0, 8 => 100000.0, 9 => 1e300, 10 => -20.05, _ => match r.below(3) { 0 => (r.next() as i64) as f64 / 1e6, 1 => (r.next() as i32) as f64 / 1e12, _ => r.f64_exact() } }
        }),
        T::X => CodePairValue::Binary(match n { 0 => vec![], 1 => vec![0], 2 => (0..=255).collect(), 3 => vec![0x1A, 0x00, 0xFF, 0x0A, 0x0D], 4 => vec![0xAB; 127], 5 => vec![7; 255], _ => { let l = r.below(200); (0..l).map(|_| r.next() as u8).collect() } }),
    }
}
fn rec(pairs: Vec<CodePair>, ver: AcadVersion) -> Drawing {
    let mut d = Drawing::new();
    d.header.version = ver;
    d.add_object(Object::new(ObjectType::XRecordObject(XRecordObject { data_pairs: pairs, ..Default::default() })));
    d
}
fn back(d: &Drawing) -> Option<Vec<CodePair>> {
    let v: Vec<_> = d.objects().collect();
    if v.len() != 1 { return None }
    if let ObjectType::XRecordObject(ref x) = v[0].specific { Some(x.data_pairs.clone()) } else { None }
}
fn eq(a: &CodePair, b: &CodePair, bin: bool) -> bool {
    a.code == b.code && match (&a.value, &b.value) {
        (CodePairValue::Double(x), CodePairValue::Double(y)) => if bin { x.to_bits() == y.to_bits() } else { dec::close(*x, *y) },
        (CodePairValue::Boolean(x), CodePairValue::Boolean(y)) => (*x != 0) == (*y != 0),
        (x, y) => x == y,
    }
}
fn merge(v: &[CodePair]) -> Vec<CodePair> {
    let mut o: Vec<CodePair> = vec![];
    for p in v {
        if let (CodePairValue::Binary(b), Some(CodePair { code, value: CodePairValue::Binary(a), .. })) = (&p.value, o.last_mut()) { if *code == p.code { a.extend_from_slice(b); continue } }
        o.push(p.clone());
    }
    o
}
fn check(c: &Ctx, pairs: Vec<CodePair>, ver: AcadVersion, bin: bool) {
    let kind = if bin { "binary" } else { "text" };
    let inp = || format!("{kind} {ver:?} XRECORD {pairs:?}");
    c.case(&(format!("{pairs:?}"), ver as i32, bin));
    c.sample(|| inp().chars().take(300).collect());
    let d = rec(pairs.clone(), ver);
    let bytes = match save(&d, bin) { Ok(b) => b, Err(e) => return c.fail(format!("save:{kind}"), inp(), e) };
    let file = if bin { dec::binary(&bytes, ver >= AcadVersion::R13) } else { dec::text(&bytes) };
    let file = match file { Ok(f) => f, Err(e) => return c.fail(format!("malformed:{kind}"), inp(), format!("the written file is not a sequence of code pairs: {e}")) };
    // what the file says, read independently
    let want = merge(&pairs);
    let at = file.windows(2).position(|w| w[0] == (100, V::S(b"AcDbXrecord".to_vec())) && w[1].0 == 280);
    if let Some(at) = at {
        let got = dec::join(file[at + 2..].to_vec());
        for (i, w) in want.iter().enumerate() {
            let ok = got.get(i).map_or(false, |g| g.0 == w.code && match (&w.value, &g.1) {
                (CodePairValue::Double(x), V::D(y)) => if bin { x.to_bits() == y.to_bits() } else { dec::close(*x, *y) },
                (CodePairValue::Short(x), V::I(y)) => *x as i64 == *y,
                (CodePairValue::Integer(x), V::I(y)) => *x as i64 == *y,
                (CodePairValue::Long(x), V::I(y)) => *x == *y,
                (CodePairValue::Boolean(x), V::B(y, _)) => (*x != 0) == *y,
                (CodePairValue::Binary(x), V::X(y)) => x == y,
                (CodePairValue::Str(x), V::S(y)) => if x.chars().all(|c| (' '..'\u{7f}').contains(&c) && c != '^' && c != '\\') { x.as_bytes() == &y[..] } else { true },
                _ => false,
            });
            if !ok { return c.fail(format!("file:{kind}:{:?}", dec::ty(w.code).unwrap()), inp(), format!("pair {w:?} is in the file as {:?}", got.get(i))) }
        }
    } else { c.fail("no-xrecord", inp(), "no XRECORD in the file") }
    match load(&bytes) {
        Err(e) => c.fail(format!("load:{kind}"), inp(), e),
        Ok(d2) => match back(&d2) {
            None => c.fail(format!("structure:{kind}"), inp(), "the XRECORD did not come back as one object"),
            Some(got) => {
                let got = merge(&got);
                for (i, w) in want.iter().enumerate() { if !got.get(i).map_or(false, |g| eq(w, g, bin)) { return c.fail(format!("changed:{kind}:{:?}", dec::ty(w.code).unwrap()), inp(), format!("{w:?} came back as {:?}", got.get(i))) } }
                if got.len() != want.len() { c.fail(format!("extra:{kind}"), inp(), format!("{} pairs became {}", want.len(), got.len())) }
            }
        },
    }
}
pub fn run(c: &Ctx, bin: bool) {
    c.bound("XRECORD objects holding every data code 1..=481 (each of the 7 value types) with boundary values and random ones (12 per code), singly and in random sequences of up to 40 pairs; versions R14, R2000, R2004, R2007, R2010, R2018; each file also split into pairs by an independent reader; plus every version R10..R18 of a drawing with one entity per kind");
    let vers: &[AcadVersion] = &[AcadVersion::R14, AcadVersion::R2000, AcadVersion::R2004, AcadVersion::R2007, AcadVersion::R2010, AcadVersion::R2018];
    let codes = data_codes();
    let per = c.scale(12, 120);
    par(codes.len() * per, |i| {
        if elapsed_over(c, 60, 1200) { return }
        let (code, n) = (codes[i / per], i % per);
        let mut r = Rng::new(c.seed.wrapping_add(i as u64));
        let v = value(&mut r, dec::ty(code).unwrap(), bin, n);
        check(c, vec![CodePair::new(code, v, 0)], vers[(i / per + n) % vers.len()], bin);
    });
    par(c.scale(600, 20000), |i| {
        if elapsed_over(c, 70, 1400) { return }
        let mut r = Rng::new(c.seed.wrapping_add(7_000_000 + i as u64));
        let n = 1 + r.below(40);
        let pairs = (0..n).map(|_| { let code = *r.pick(&codes); let k = r.below(16); CodePair::new(code, value(&mut r, dec::ty(code).unwrap(), bin, k), 0) }).collect();
        check(c, pairs, *r.pick(vers), bin);
    });
    // long data: split into several chunks, joined data is the same
    for len in [254usize, 255, 256, 257, 510, 511, 512, 1000, 65536, 70000] {
        for &ver in vers {
            let b: Vec<u8> = (0..len).map(|i| (i * 7 + i / 255) as u8).collect();
            check(c, vec![CodePair::new_i16(70, 1), CodePair::new_binary(310, b), CodePair::new_str(1, "after")], ver, bin);
        }
    }
    // old versions have no XRECORD: numbers and text in entities
    for (k, &ver) in VERS.iter().enumerate() {
        for n in 0..c.scale(20, 400) {
            let mut r = Rng::new(c.seed.wrapping_add((k * 1000 + n) as u64));
            let f = |r: &mut Rng| if bin { loop { let f = f64::from_bits(r.next()); if f.is_finite() { break f } } } else { (r.next() as i64) as f64 / 1e9 };
            let mut d = Drawing::new();
            d.header.version = ver;
            let (p, s) = (Point::new(f(&mut r), f(&mut r), f(&mut r)), r.string(20));
            let mut e = entities::Entity::new(entities::EntityType::Text(entities::Text { location: p.clone(), value: s.clone(), text_height: f(&mut r), ..Default::default() }));
            let h = if let entities::EntityType::Text(ref t) = e.specific { t.text_height } else { 0.0 };
            e.common.layer = "L".into();
            e.common.color = Color::from_index(r.next() as u8);
            let want = e.common.color.index();
            d.add_entity(e);
            let inp = format!("{ver:?} {} TEXT {p:?} {s:?} {h}", if bin { "binary" } else { "text" });
            c.case(&inp);
            match round_trip(&d, bin) {
                Err(m) => c.fail("entity-load", inp, m),
                Ok(d2) => match d2.entities().next().map(|e| (&e.specific, &e.common)) {
                    Some((entities::EntityType::Text(t), cm)) => {
                        let q = |a: f64, b: f64| if bin { a.to_bits() == b.to_bits() } else { dec::close(a, b) };
                        if !(q(t.location.x, p.x) && q(t.location.y, p.y) && q(t.location.z, p.z) && q(t.text_height, h) && t.value == s && (cm.color.index() == want)) { c.fail("entity-changed", inp, format!("came back as {:?} {:?} {} {:?}", t.location, t.value, t.text_height, cm.color.index())) }
                    }
                    _ => c.fail("entity-gone", inp, "no TEXT came back"),
                },
            }
        }
    }
}

/// C05: text and binary saves of the same drawing say the same, and every value has its code's type
pub fn agree(c: &Ctx, d: &Drawing, what: &str) {
    let ver = d.header.version;
    let inp = || format!("{ver:?} {what}");
    let (t, b) = match (save(d, false), save(d, true)) { (Ok(t), Ok(b)) => (t, b), (t, b) => return c.fail(format!("save:{}", key(what)), inp(), format!("{:?} {:?}", t.err(), b.err())) };
    let (t, b) = match (dec::text(&t), dec::binary(&b, ver >= AcadVersion::R13)) {
        (Ok(t), Ok(b)) => (dec::join(t), dec::join(b)),
        (Err(e), _) => return c.fail(format!("type-text:{}", key(what)), inp(), format!("text file: {e}")),
        (_, Err(e)) => return c.fail(format!("type-binary:{}", key(what)), inp(), format!("binary file: {e}")),
    };
    if t.len() != b.len() { return c.fail(format!("agree:{}", key(what)), inp(), format!("{} pairs as text, {} as binary", t.len(), b.len())) }
    for (x, y) in t.iter().zip(&b) { if !dec::same(x, y, ver <= AcadVersion::R2004) { return c.fail(format!("agree:{}", key(what)), inp(), format!("text says {x:?}, binary says {y:?}")) } }
    // the file is made of sections
    if t.first() != Some(&(0, V::S(b"SECTION".to_vec()))) || t.last() != Some(&(0, V::S(b"EOF".to_vec()))) { c.fail(format!("frame:{}", key(what)), inp(), "the file does not start with SECTION and end with EOF") }
}
fn key(what: &str) -> String { what.split('|').take(2).collect::<Vec<_>>().join("|") }
pub fn run_types(c: &Ctx) {
    c.bound("every record kind with every leaf set to each of its alternative values (as for C14-C17), saved as text and as binary for every version; both files split into pairs by an independent reader with its own table of code types, then compared pair by pair");
    for k in crate::kinds("all") {
        let mut cases = crate::rt::single_cases(&*k);
        cases.extend(crate::rt::multi_cases(&*k, c.scale(8, 60), 900 + c.seed));
        c.sample(|| cases[0].0.clone());
        par(cases.len(), |i| {
            if elapsed_over(c, 120, 1500) { return }
            for (j, &ver) in VERS.iter().enumerate() {
                if c.tier == Tier::Quick && cases[i].0.split('|').nth(1) != Some("") && !cases[i].0.contains("|multi|") && !((i + j) % 2 == 0 || j + 1 == VERS.len()) { continue }
                c.case(&(k.key(), &cases[i].0, j));
                if let Ok((d, _)) = guard(|| k.put(&cases[i].1, ver)) { agree(c, &d, &format!("{} {}", k.key(), cases[i].0)) }
            }
        });
    }
}
