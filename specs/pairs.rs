// ---- abstract view of code pairs: group code and value, without the position in the file ----
pub ghost enum SV { Boolean(i16), Integer(i32), Long(i64), Short(i16), Double(f64), Str(Seq<char>), Binary(Seq<u8>) }
pub ghost struct SP { pub code: i32, pub v: SV }
pub open spec fn vv(x: CodePairValue) -> SV {
    match x {
        CodePairValue::Boolean(b) => SV::Boolean(b),
        CodePairValue::Integer(b) => SV::Integer(b),
        CodePairValue::Long(b) => SV::Long(b),
        CodePairValue::Short(b) => SV::Short(b),
        CodePairValue::Double(b) => SV::Double(b),
        CodePairValue::Str(b) => SV::Str(b@),
        CodePairValue::Binary(b) => SV::Binary(b@),
    }
}
pub open spec fn pv(p: CodePair) -> SP { SP { code: p.code, v: vv(p.value) } }
// what a reader still has to deliver: pairs, or a failure of the source (None)
pub open spec fn rv(r: DxfResult<CodePair>) -> Option<SP> { match r { Ok(p) => Some(pv(p)), Err(_) => None } }
pub open spec fn pvs(s: Seq<CodePair>) -> Seq<SP> { s.map_values(|p: CodePair| pv(p)) }
pub open spec fn ok_all(s: Seq<SP>) -> Seq<Option<SP>> { s.map_values(|p: SP| Some(p)) }
pub proof fn lemma_pvs_push(s: Seq<CodePair>, p: CodePair)
    ensures pvs(s.push(p)) == pvs(s).push(pv(p)),
{ assert(pvs(s.push(p)) =~= pvs(s).push(pv(p))); }
pub open spec fn p_str(code: i32, s: Seq<char>) -> SP { SP { code, v: SV::Str(s) } }
pub open spec fn p_f64(code: i32, f: f64) -> SP { SP { code, v: SV::Double(f) } }
pub open spec fn p_i16(code: i32, i: i16) -> SP { SP { code, v: SV::Short(i) } }
pub open spec fn p_i32(code: i32, i: i32) -> SP { SP { code, v: SV::Integer(i) } }
pub open spec fn p_i64(code: i32, i: i64) -> SP { SP { code, v: SV::Long(i) } }
pub open spec fn p_bin(code: i32, b: Seq<u8>) -> SP { SP { code, v: SV::Binary(b) } }
pub open spec fn p_bool(code: i32, b: bool) -> SP { SP { code, v: SV::Boolean(if b { 1i16 } else { 0i16 }) } }
// reading one value back, as the reader functions do
pub open spec fn g_str(p: SP) -> Option<Seq<char>> { match p.v { SV::Str(s) => Some(s), _ => None } }
pub open spec fn g_f64(p: SP) -> Option<f64> { match p.v { SV::Double(s) => Some(s), _ => None } }
pub open spec fn g_i16(p: SP) -> Option<i16> { match p.v { SV::Short(s) => Some(s), SV::Boolean(s) => Some(s), _ => None } }
pub open spec fn g_i32(p: SP) -> Option<i32> { match p.v { SV::Integer(s) => Some(s), _ => None } }
pub open spec fn g_i64(p: SP) -> Option<i64> { match p.v { SV::Long(s) => Some(s), _ => None } }
pub open spec fn g_bin(p: SP) -> Option<Seq<u8>> { match p.v { SV::Binary(s) => Some(s), _ => None } }
pub open spec fn g_bool(p: SP) -> Option<bool> { match p.v { SV::Boolean(s) => Some(s != 0), _ => None } }
// ---- the source behind the reader: a finite sequence of results, then the end for ever ----
#[verifier::external_body]
pub struct XSource { x: () }
pub uninterp spec fn src(s: XSource) -> Seq<DxfResult<CodePair>>;
#[verifier::external_body]
pub fn x_src_next(s: &mut XSource) -> (r: Option<DxfResult<CodePair>>)
    ensures
        src(*old(s)).len() == 0 ==> r is None && src(*final(s)).len() == 0,
        src(*old(s)).len() > 0 ==> r == Some(src(*old(s))[0]) && src(*final(s)) == src(*old(s)).skip(1),
{ unimplemented!() }
pub open spec fn is_comment(r: DxfResult<CodePair>) -> bool { match r { Ok(p) => p.code == 999, Err(_) => false } }
// the results that are not 999 comments, in order
pub open spec fn no_comments(s: Seq<DxfResult<CodePair>>) -> Seq<Option<SP>>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else if is_comment(s[0]) { no_comments(s.skip(1)) } else { seq![rv(s[0])] + no_comments(s.skip(1)) }
}
pub open spec fn top_view(top: Seq<DxfResult<CodePair>>) -> Seq<Option<SP>>
    decreases top.len()
{
    if top.len() == 0 { seq![] } else { seq![rv(top.last())] + top_view(top.drop_last()) }
}
// what `next` will deliver from now on
pub open spec fn stream(it: CodePairPutBack) -> Seq<Option<SP>> { top_view(it.top@) + no_comments(src(it.iter)) }
pub proof fn lemma_stream_put_back(top: Seq<DxfResult<CodePair>>, item: DxfResult<CodePair>, rest: Seq<Option<SP>>)
    ensures top_view(top.push(item)) + rest == seq![rv(item)] + (top_view(top) + rest),
{
    assert(top.push(item).drop_last() =~= top);
    assert(top_view(top.push(item)) + rest =~= seq![rv(item)] + (top_view(top) + rest));
}
#[verifier::external_body]
pub fn x_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { a == b }
#[verifier::external_body]
pub fn x_string_clone(a: &String) -> (r: String) ensures r@ == a@, { a.clone() }
#[verifier::external_body]
pub fn x_bytes_clone(a: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@, { a.clone() }
#[verifier::external_body]
pub fn x_msg(a: &str) -> (r: String) { String::from(a) }
