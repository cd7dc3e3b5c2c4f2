//! Text beyond ASCII survives a save and load of every version; files before R2007 are ASCII.
use crate::c01::check_text;
use crate::util::*;
pub fn run(c: &Ctx) {
    c.bound("every 97th Unicode scalar value and every boundary of the encoding ranges, alone and next to \\U+XXXX look-alikes; random texts up to 40 characters; R10..R2004 text (ASCII file) and R2007..R2018 text, binary of R12/R2004/R2007");
    let mut texts: Vec<String> = vec![];
    let bounds = [0x7fu32, 0x80, 0x81, 0x9f, 0xa0, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0xfffff, 0x100000, 0x10fffe, 0x10ffff];
    let step = if c.tier == Tier::Thorough { 13 } else { 389 };
    for n in bounds.iter().copied().chain((0x80..0x110000).step_by(step)) {
        if let Some(ch) = char::from_u32(n) {
            texts.push(ch.to_string());
            texts.push(format!("a{ch}B"));
            if bounds.contains(&n) { for f in [format!("{ch}{ch}"), format!("\\U+{ch}"), format!("{ch}1234"), format!("\\{ch}"), format!("\u{d7ff}{ch}\u{e000}")] { texts.push(f) } }
        }
    }
    for s in ["\\U+0041", "\\U+00e9", "\\U+D83D", "\\U+D83D\\U+DE00", "\\\\U+0041", "\\U+005CU+0041", "\\u+0041", "\\U+004", "\\U+004G", "U+0041", "\\U+", "\\", "\\U", "\\U+D800\\U+0041", "\\U+DC00", "\\U+FFFF", "\\M+nXXXX", "%%c"] { texts.push(s.into()); texts.push(format!("\u{e9}{s}\u{1f600}")) }
    let mut r = Rng::new(c.seed ^ 2);
    for _ in 0..c.scale(1500, 60000) { texts.push(r.string(40)) }
    // exhaustive short words over the letters of the notation
    let set = ['\\', 'U', '+', '0', 'F', 'D', '8', '\u{e9}', '\u{1f600}'];
    for n in 0..c.scale(1500, 20000) { let mut w = String::from("\\U+"); let mut x = n; for _ in 0..5 { w.push(set[x % set.len()]); x /= set.len() } texts.push(w) }
    let modes = [(AcadVersion::R10, false), (AcadVersion::R2000, false), (AcadVersion::R2004, false), (AcadVersion::R2007, false), (AcadVersion::R2018, false), (AcadVersion::R12, true), (AcadVersion::R2004, true), (AcadVersion::R2007, true)];
    par(texts.len(), |i| { for (v, b) in modes { if elapsed_over(c, 60, 900) { return } check_text(c, &texts[i], v, b, v <= AcadVersion::R2004) } });
}
