pub struct Header { pub version: AcadVersion }
pub struct Drawing { pub header: Header }
pub uninterp spec fn pairs_of(d: Drawing) -> Seq<SP>;
pub open spec fn all_writable(ps: Seq<SP>) -> bool { forall|i: int| 0 <= i < ps.len() ==> writable(#[trigger] ps[i]) }
pub open spec fn body(p: SP, text: bool, a: bool, two: bool) -> Seq<u8> { if text { pair_text(p, a) } else { enc_all(parts(p), two) } }
pub open spec fn bodies(ps: Seq<SP>, text: bool, a: bool, two: bool) -> Seq<u8> decreases ps.len() { if ps.len() == 0 { seq![] } else { bodies(ps.drop_last(), text, a, two) + body(ps.last(), text, a, two) } }
pub open spec fn ascii_text(v: AcadVersion) -> bool { vord(v) <= vord(AcadVersion::R2004) }
pub open spec fn file_bytes(d: Drawing, text: bool) -> Seq<u8> { prelude(text) + bodies(pairs_of(d), text, ascii_text(d.header.version), two_bytes(d.header.version)) }
impl Drawing {
// the pairs of a drawing; that each has the type of its code is property C05
#[verifier::external_body]
pub fn code_pairs(&self) -> (r: DxfResult<Vec<CodePair>>) ensures r is Ok ==> pvs(r->Ok_0@) == pairs_of(*self) && all_writable(pairs_of(*self)), { unimplemented!() }
}
#[verifier::external_body]
pub struct XPath { x: () }
#[verifier::external_body]
pub struct XFile { x: () }
// bytes that have left the buffer
pub uninterp spec fn synced(w: XWriter) -> Seq<u8>;
#[verifier::external_body]
pub fn x_create(p: &XPath) -> (r: DxfResult<XFile>) { unimplemented!() }
#[verifier::external_body]
pub fn x_buf(f: XFile) -> (r: XWriter) ensures wr(r) == Seq::<u8>::empty(), { unimplemented!() }
#[verifier::external_body]
pub fn x_flush(w: &mut XWriter) -> (r: DxfResult<()>) ensures wr(*final(w)) == wr(*old(w)), r is Ok ==> synced(*final(w)) == wr(*old(w)), { unimplemented!() }
