//! An independent reading of DXF files: splits a text or binary file into (code, value) pairs from the format's own
//! rules, sharing no code with the crate.
#[derive(Clone, Debug, PartialEq)]
pub enum V { S(Vec<u8>), I(i64), B(bool, i64), D(f64), X(Vec<u8>) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T { S, I16, I32, I64, Bool, D, X }
pub fn ty(code: i32) -> Option<T> {
    Some(match code {
        0..=9 | 100 | 101 | 102 | 105 | 300..=309 | 320..=369 | 390..=399 | 410..=419 | 430..=439 | 470..=481 | 999..=1009 => T::S,
        10..=59 | 110..=149 | 210..=239 | 460..=469 | 1010..=1059 => T::D,
        60..=79 | 170..=179 | 270..=289 | 370..=389 | 400..=409 | 1060..=1070 => T::I16,
        90..=99 | 420..=429 | 440..=459 | 1071 => T::I32,
        160..=169 => T::I64,
        290..=299 => T::Bool,
        310..=319 => T::X,
        _ => return None,
    })
}
pub type Pair = (i32, V);
/// text file -> pairs; every line must be what the code's type allows
pub fn text(b: &[u8]) -> Result<Vec<Pair>, String> {
    let mut lines: Vec<&[u8]> = b.split(|&c| c == b'\n').collect();
    if lines.pop() != Some(b"") { return Err("the last line is not terminated".into()) }
    for l in &mut lines { *l = l.strip_suffix(b"\r").ok_or("a line does not end in CR LF")?; }
    if lines.len() % 2 != 0 { return Err(format!("odd number of lines {}", lines.len())) }
    let mut out = vec![];
    for (i, c) in lines.chunks(2).enumerate() {
        let at = |m: &str| format!("pair {i} {:?}/{:?}: {m}", String::from_utf8_lossy(c[0]), String::from_utf8_lossy(c[1]));
        let code: i32 = std::str::from_utf8(c[0]).ok().and_then(|s| s.trim().parse().ok()).ok_or_else(|| at("code"))?;
        let st = || std::str::from_utf8(c[1]).map(|s| s.trim().to_string()).map_err(|_| at("not text"));
        let v = match ty(code).ok_or_else(|| at("unknown code"))? {
            T::S => V::S(c[1].to_vec()),
            T::I16 => V::I(st()?.parse::<i16>().map_err(|_| at("not a 16-bit integer"))? as i64),
            T::I32 => V::I(st()?.parse::<i32>().map_err(|_| at("not a 32-bit integer"))? as i64),
            T::I64 => V::I(st()?.parse::<i64>().map_err(|_| at("not a 64-bit integer"))?),
            T::Bool => { let n = st()?.parse::<i16>().map_err(|_| at("not a boolean"))? as i64; V::B(n != 0, n) }
            T::D => { let s = st()?; if !s.contains('.') && s != "NaN" && !s.contains("inf") { return Err(at("not a real number")) } V::D(s.parse::<f64>().map_err(|_| at("not a real number"))?) }
            T::X => { let s = st()?; if s.len() % 2 != 0 { return Err(at("odd hex data")) } V::X((0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16)).collect::<Result<_, _>>().map_err(|_| at("not hex data"))?) }
        };
        out.push((code, v));
    }
    Ok(out)
}
/// binary file -> pairs
pub fn binary(b: &[u8], two_bytes: bool) -> Result<Vec<Pair>, String> {
    let head = b"AutoCAD Binary DXF\r\n\x1a\x00";
    if !b.starts_with(head) { return Err("no sentinel".into()) }
    let mut p = head.len();
    let mut out: Vec<Pair> = vec![];
    while p < b.len() {
        let start = p;
        let n = out.len();
        let mut take = |k: usize| -> Result<&[u8], String> { if p + k > b.len() { Err(format!("pair {n} at byte {start}: file ends inside the pair")) } else { p += k; Ok(&b[p - k..p]) } };
        let code = if two_bytes { let c = take(2)?; i16::from_le_bytes([c[0], c[1]]) as i32 } else { let c = take(1)?[0]; if c == 255 { let c = take(2)?; i16::from_le_bytes([c[0], c[1]]) as i32 } else { c as i32 } };
        let v = match ty(code).ok_or_else(|| format!("pair {n} at byte {start}: unknown code {code} (after {:?})", out.last()))? {
            T::S => { let mut s = vec![]; loop { let c = take(1)?[0]; if c == 0 { break } s.push(c) } V::S(s) }
            T::I16 => { let c = take(2)?; V::I(i16::from_le_bytes([c[0], c[1]]) as i64) }
            T::I32 => V::I(i32::from_le_bytes(take(4)?.try_into().unwrap()) as i64),
            T::I64 => V::I(i64::from_le_bytes(take(8)?.try_into().unwrap())),
            T::Bool => { let n = if two_bytes { take(1)?[0] as i64 } else { let c = take(2)?; i16::from_le_bytes([c[0], c[1]]) as i64 }; V::B(n != 0, n) }
            T::D => V::D(f64::from_le_bytes(take(8)?.try_into().unwrap())),
            T::X => { let l = take(1)?[0] as usize; V::X(take(l)?.to_vec()) }
        };
        out.push((code, v));
    }
    Ok(out)
}
/// joins successive chunks of the same code (data longer than one chunk may be split differently)
pub fn join(p: Vec<Pair>) -> Vec<Pair> {
    let mut out: Vec<Pair> = vec![];
    for (c, v) in p {
        if let (V::X(b), Some((lc, V::X(a)))) = (&v, out.last_mut()) { if *lc == c { a.extend_from_slice(b); continue } }
        out.push((c, v));
    }
    out
}
/// `a` (from text) and `b` (from binary) say the same
pub fn same(a: &Pair, b: &Pair, ascii: bool) -> bool {
    if a.0 != b.0 { return false }
    match (&a.1, &b.1) {
        (V::D(x), V::D(y)) => close(*x, *y),
        (V::S(x), V::S(y)) => x == y || ascii && (x.contains(&b'\\')),
        (V::B(x, _), V::B(y, _)) => x == y,
        (x, y) => x == y,
    }
}
/// equal to the 12 decimals a text file keeps
pub fn close(x: f64, y: f64) -> bool { x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 0.500001e-12 || (x - y).abs() <= f64::EPSILON * x.abs().max(y.abs()) }
/// writes pairs as a text file
pub fn to_text(p: &[Pair]) -> Vec<u8> {
    let mut o = vec![];
    for (c, v) in p {
        o.extend_from_slice(format!("{c:>3}\r\n").as_bytes());
        match v { V::S(s) => o.extend_from_slice(s), V::I(i) => o.extend_from_slice(i.to_string().as_bytes()), V::B(_, n) => o.extend_from_slice(n.to_string().as_bytes()), V::D(d) => o.extend_from_slice(format!("{d:?}").as_bytes()), V::X(b) => for x in b { o.extend_from_slice(format!("{x:02X}").as_bytes()) } }
        o.extend_from_slice(b"\r\n");
    }
    o
}
