//! Text values with control characters and carets survive a save and load; no raw control character in the file.
use crate::util::*;
use dxf::*;

/// where a text value can be put in a drawing so that it is written for every version
pub fn with_text(s: &str, ver: AcadVersion) -> Drawing {
    let mut d = Drawing::new();
    d.header.version = ver;
    d.header.current_layer = s.to_string();
    d.add_entity(entities::Entity::new(entities::EntityType::Text(entities::Text { value: s.to_string(), ..Default::default() })));
    d
}
pub fn texts_back(d: &Drawing) -> Vec<String> {
    let mut v = vec![d.header.current_layer.clone()];
    for e in d.entities() { if let entities::EntityType::Text(ref t) = e.specific { v.push(t.value.clone()) } }
    v
}
pub fn check_text(c: &Ctx, s: &str, ver: AcadVersion, bin: bool, ascii_only: bool) {
    let kind = if bin { "binary" } else { "text" };
    let inp = format!("{s:?} version {ver:?} {kind}");
    c.case(&inp);
    c.sample(|| inp.clone());
    let d = with_text(s, ver);
    let bytes = match save(&d, bin) { Ok(b) => b, Err(e) => return c.fail(format!("save:{kind}"), inp, e) };
    if !bin {
        // an independent reading of the file: CR LF terminated lines, nothing below 0x20 inside one
        for (i, line) in bytes.split(|&b| b == b'\n').enumerate() {
            let line = line.strip_suffix(b"\r").unwrap_or(line);
            if line.iter().any(|&b| b < 0x20) { return c.fail("raw-control", inp, format!("line {} of the file holds a raw control character: {:?}", i + 1, show(line))) }
            if ascii_only && line.iter().any(|&b| b >= 0x80) { return c.fail("non-ascii", inp, format!("line {} of a pre-R2007 text file is not ASCII: {:?}", i + 1, show(line))) }
        }
    }
    match load(&bytes) {
        Err(e) => c.fail(format!("load:{kind}"), inp, e),
        Ok(d2) => {
            let t = texts_back(&d2);
            if t.len() != 2 { return c.fail(format!("structure:{kind}"), inp, format!("{} text values came back, expected 2", t.len())) }
            for x in t { if x != s { return c.fail(format!("text-changed:{kind}"), inp, format!("{s:?} came back as {x:?}")) } }
        }
    }
}
pub fn run(c: &Ctx) {
    c.bound("every single character U+0000..U+00FF alone and after/before '^', every pair of {control, caret, letter}, random texts up to 40 characters; in a header variable and a TEXT entity; R12, R2000, R2010 text and R12, R2000, R2018 binary");
    let mut texts: Vec<String> = vec![];
    for n in 0..=0xFFu32 {
        let ch = char::from_u32(n).unwrap();
        for f in [format!("{ch}"), format!("^{ch}"), format!("{ch}^"), format!("a{ch}b"), format!("{ch}{ch}")] { texts.push(f) }
    }
    let set: Vec<char> = (0..0x20u32).chain([0x20, 0x40, 0x41, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x60, 0x7e]).map(|n| char::from_u32(n).unwrap()).collect();
    for a in &set { for b in &set { texts.push(format!("{a}{b}")); } }
    for a in &set { for t in ["U+0041", "\\U+0041", "U+00E9^", "^U+005E", "U+D83D\\U+DE00"] { texts.push(format!("{a}{t}")); texts.push(format!("x{a}{t}{a}")) } }
    let mut r = Rng::new(c.seed);
    for _ in 0..c.scale(1500, 60000) { texts.push(r.string(40)) }
    let modes = [(AcadVersion::R12, false), (AcadVersion::R2000, false), (AcadVersion::R2010, false), (AcadVersion::R12, true), (AcadVersion::R2000, true), (AcadVersion::R2018, true)];
    par(texts.len(), |i| { for (v, b) in modes { if elapsed_over(c, 60, 900) { return } check_text(c, &texts[i], v, b, false) } });
}
