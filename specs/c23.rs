// ---- little-endian 32-bit fields of a bitmap ----
pub open spec fn b4(v: u32, k: int) -> u8 { if k == 0 { (v & 0xff) as u8 } else if k == 1 { ((v >> 8) & 0xff) as u8 } else if k == 2 { ((v >> 16) & 0xff) as u8 } else { ((v >> 24) & 0xff) as u8 } }
pub open spec fn r32(s: Seq<u8>, o: int) -> u32 { ((s[o] as u32) + (s[o + 1] as u32) * 256 + (s[o + 2] as u32) * 65536 + (s[o + 3] as u32) * 16777216) as u32 }
pub open spec fn w32(s: Seq<u8>, o: int, v: u32) -> Seq<u8> { s.update(o, b4(v, 0)).update(o + 1, b4(v, 1)).update(o + 2, b4(v, 2)).update(o + 3, b4(v, 3)) }
pub proof fn lemma_w32_id(s: Seq<u8>, o: int)
    requires 0 <= o, o + 4 <= s.len(),
    ensures w32(s, o, r32(s, o)) == s,
{
    let (a, b, c, d) = (s[o], s[o + 1], s[o + 2], s[o + 3]);
    let v = r32(s, o);
    assert(v == a as u32 + b as u32 * 256 + c as u32 * 65536 + d as u32 * 16777216);
    assert(v == add(add(add(a as u32, mul(b as u32, 256)), mul(c as u32, 65536)), mul(d as u32, 16777216)));
    assert(v == add(add(add(a as u32, mul(b as u32, 256)), mul(c as u32, 65536)), mul(d as u32, 16777216)) ==> ((v & 0xff) as u8 == a && ((v >> 8) & 0xff) as u8 == b && ((v >> 16) & 0xff) as u8 == c && ((v >> 24) & 0xff) as u8 == d)) by (bit_vector);
    assert(w32(s, o, v) =~= s);
}
// ---- the pairs of a thumbnail section ----
pub open spec fn no_header() -> Seq<u8> { seq![0x42u8, 0x4du8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
pub open spec fn t_stop(s: Seq<Option<SP>>) -> bool { s.len() == 0 || (s[0] is Some && s[0]->Some_0.code == 0) }
// the bytes of the 310 pairs up to the next 0 pair (or the end), and what is left
pub open spec fn t_bytes(s: Seq<Option<SP>>) -> Option<(Seq<u8>, Seq<Option<SP>>)>
    decreases s.len(),
{
    if t_stop(s) { Some((Seq::<u8>::empty(), s)) }
    else if s[0] is Some && s[0]->Some_0.code == 310 && g_bin(s[0]->Some_0) is Some {
        match t_bytes(s.skip(1)) { Some((b, q)) => Some((g_bin(s[0]->Some_0)->Some_0 + b, q)), None => None }
    } else { None }
}
pub open spec fn with_length(b: Seq<u8>) -> Seq<u8> { w32(no_header() + b, 2, (14 + b.len()) as u32) }
pub open spec fn t_section(s: Seq<Option<SP>>) -> Option<(Seq<u8>, Seq<Option<SP>>)> {
    if s.len() > 0 && s[0] is Some && s[0]->Some_0.code == 90 && g_i32(s[0]->Some_0) is Some { match t_bytes(s.skip(1)) { Some((b, q)) => Some((with_length(b), q)), None => None } } else { None }
}
// a bitmap that starts with its 14 byte header: the data offset follows from the size of the second header and the palette
pub open spec fn offset_of(d: Seq<u8>) -> int { 14 + r32(d, 14) as int + r32(d, 46) as int * 4 }
pub open spec fn bmp_ok(d: Seq<u8>) -> bool {
    50 <= d.len() < 0x7fff_ffff && d.take(2) == seq![0x42u8, 0x4du8] && d.subrange(6, 10) == seq![0u8, 0u8, 0u8, 0u8] && r32(d, 2) == d.len() && r32(d, 14) >= 36 && offset_of(d) < 0x7fff_ffff && r32(d, 10) == offset_of(d)
}
// ---- the image library: assumed ----
#[verifier::external_body]
pub struct XImage { x: () }
pub uninterp spec fn bmp(i: XImage) -> Seq<u8>;
pub uninterp spec fn decoded(d: Seq<u8>) -> Option<XImage>;
#[verifier::external_body]
pub fn x_write_bmp(i: &XImage, out: &mut Vec<u8>) -> (r: DxfResult<()>)
    ensures r is Ok ==> final(out)@ == bmp(*i) && bmp_ok(bmp(*i)),
{ unimplemented!() }
#[verifier::external_body]
pub fn x_decode(d: &Vec<u8>) -> (r: DxfResult<XImage>)
    ensures (r is Ok) == (decoded(d@) is Some), r is Ok ==> r->Ok_0 == decoded(d@)->Some_0,
{ unimplemented!() }
// slice::chunks, collected
pub open spec fn joined(c: Seq<Vec<u8>>) -> Seq<u8> decreases c.len() { if c.len() == 0 { seq![] } else { c[0]@ + joined(c.skip(1)) } }
#[verifier::external_body]
pub fn x_chunks(d: &Vec<u8>, from: usize, n: usize) -> (r: Vec<Vec<u8>>)
    requires from <= d@.len(), n > 0,
    ensures joined(r@) == d@.skip(from as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn x_vec_clone(a: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@, { a.clone() }
#[verifier::external_body]
pub fn x_sat_mul(a: usize, b: usize) -> (r: usize) ensures r == if a * b <= usize::MAX { (a * b) as usize } else { usize::MAX }, { a.saturating_mul(b) }
#[verifier::external_body]
pub fn x_sat_add(a: usize, b: usize) -> (r: usize) ensures r == if a + b <= usize::MAX { (a + b) as usize } else { usize::MAX }, { a.saturating_add(b) }
pub open spec fn bin_pairs(c: Seq<Vec<u8>>) -> Seq<SP> { c.map_values(|v: Vec<u8>| p_bin(310, v@)) }
pub open spec fn thumb_pairs(d: Seq<u8>, c: Seq<Vec<u8>>) -> Seq<SP> {
    seq![p_str(0, "SECTION"@), p_str(2, "THUMBNAILIMAGE"@), p_i32(90, (d.len() - 14) as i32)] + bin_pairs(c) + seq![p_str(0, "ENDSEC"@)]
}
// the chunks of a drawing's thumbnail, read back, are its bytes
pub proof fn lemma_chunks(c: Seq<Vec<u8>>, q: Seq<Option<SP>>)
    requires t_stop(q),
    ensures t_bytes(ok_all(bin_pairs(c)) + q) == Some((joined(c), q)),
    decreases c.len(),
{
    let s = ok_all(bin_pairs(c)) + q;
    if c.len() == 0 { assert(s =~= q); }
    else {
        assert(bin_pairs(c)[0] == p_bin(310, c[0]@));
        assert(s[0] == Some(p_bin(310, c[0]@)));
        assert(bin_pairs(c).skip(1) =~= bin_pairs(c.skip(1)));
        assert(s.skip(1) =~= ok_all(bin_pairs(c.skip(1))) + q);
        lemma_chunks(c.skip(1), q);
    }
}
// a bitmap whose header is dropped and rebuilt is the same bitmap
pub proof fn lemma_rebuilt(d: Seq<u8>)
    requires bmp_ok(d),
    ensures w32(with_length(d.skip(14)), 10, offset_of(with_length(d.skip(14))) as u32) == d, with_length(d.skip(14)).len() == d.len(), r32(with_length(d.skip(14)), 14) == r32(d, 14), r32(with_length(d.skip(14)), 46) == r32(d, 46),
{
    let b = d.skip(14);
    let e = with_length(b);
    let n = no_header() + b;
    assert(14 + b.len() == d.len());
    assert(e.len() == d.len());
    lemma_w32_id(d, 2);
    assert forall|k: int| 0 <= k < d.len() && !(10 <= k < 14) implies e[k] == d[k] by {
        if k >= 14 { assert(n[k] == d[k]); }
        else if 2 <= k < 6 { assert(w32(d, 2, d.len() as u32)[k] == d[k]); }
        else if k < 2 { assert(d.take(2)[k] == d[k]); assert(n[k] == no_header()[k]); }
        else { assert(d.subrange(6, 10)[k - 6] == d[k]); assert(n[k] == no_header()[k]); }
    }
    let f = w32(e, 10, offset_of(e) as u32);
    lemma_w32_id(d, 10);
    assert forall|k: int| 0 <= k < d.len() implies f[k] == d[k] by { if 10 <= k < 14 { assert(w32(d, 10, offset_of(d) as u32)[k] == d[k]); } }
    assert(f =~= d);
}
