// ---- text DXF: the two lines of a pair ----
pub open spec fn strip0(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == '0' { strip0(s.drop_last()) } else { s } }
pub open spec fn ftext(d: f64) -> Seq<char> { let t = strip0(fix12(d)); if t.len() > 0 && t.last() == '.' { t.push('0') } else { t } }
pub proof fn lemma_strip0(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), s[k] == '.',
    ensures parse_d(strip0(s)) == parse_d(s), k < strip0(s).len() <= s.len(), strip0(s) == s.take(strip0(s).len() as int),
    decreases s.len(),
{
    if s.last() == '0' {
        let t = s.drop_last();
        assert(k < t.len()) by { if k == s.len() - 1 { assert(s.last() == '.'); } }
        lemma_strip0(t, k);
        axiom_zero(t, k);
        assert(t.push('0') =~= s);
        assert(s.take(strip0(s).len() as int) =~= t.take(strip0(s).len() as int));
    } else { assert(s.take(s.len() as int) =~= s); }
}
pub open spec fn numtext(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> number_char(#[trigger] s[i]) }
pub proof fn lemma_ftext(d: f64) ensures parse_d(ftext(d)) == parse_d(fix12(d)), parse_d(ftext(d)) is Some, numtext(ftext(d)),
{
    axiom_fix12(d); axiom_fix12_parses(d);
    let s = fix12(d);
    let k = point(d);
    if k >= 0 {
        lemma_strip0(s, k);
        let t = strip0(s);
        assert(t[k] == '.');
        assert forall|i: int| 0 <= i < t.len() implies number_char(#[trigger] t[i]) by { assert(t[i] == s[i]); }
        if t.last() == '.' { axiom_zero(t, k); assert(numtext(t.push('0'))); }
    } else { assert(strip0(s) == s); }
}
pub proof fn lemma_trim_num(s: Seq<char>) requires numtext(s), ensures trim(s) == s, no_eol(s), ascii(s),
{
    assert(number_char(s[0])); assert(number_char(s.last()));
    axiom_number_char(s[0]); axiom_number_char(s.last());
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] as u32 != 10 && s[i] as u32 != 13 by { axiom_number_char(s[i]); }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 0x80 by { axiom_number_char(s[i]); }
}
pub proof fn lemma_pad_plain(w: int, n: int) ensures no_eol(pad(w, dec_i(n))), ascii(pad(w, dec_i(n))), no_eol(dec_i(n)), ascii(dec_i(n)), dec_i(n).len() > 0, pad(w, dec_i(n)).len() > 0,
{
    axiom_dec(n);
    let d = dec_i(n); let p = pad(w, d);
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i] as u32) < 0x80 && d[i] as u32 != 10 && d[i] as u32 != 13 by { assert(numeric(d[i])); }
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i] as u32) < 0x80 && p[i] as u32 != 10 && p[i] as u32 != 13 by { if i >= spaces(w - d.len()).len() { assert(p[i] == d[i - spaces(w - d.len()).len()]); } else { assert(p[i] == ' '); } }
}
pub proof fn lemma_hx_plain(b: Seq<u8>) ensures no_eol(hx(b)), ascii(hx(b)),
{
    lemma_hx(b);
    let s = hx(b);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 0x80 && s[i] as u32 != 10 && s[i] as u32 != 13 by { assert(hv(s[i]) >= 0); }
}
pub proof fn lemma_enc_control(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) > 0x1F,
    ensures forall|j: int| 0 <= j < enc(s).len() ==> (#[trigger] enc(s)[j] as u32) > 0x1F,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) > 0x1F by { assert(t[i] == s[i + 1]); }
        lemma_enc_control(t);
        assert(s[0] as u32 > 0x1F);
        lemma_char_of(s[0]);
        assert forall|j: int| 0 <= j < uenc1(s).len() implies (#[trigger] uenc1(s)[j] as u32) > 0x1F by { lemma_u4_control(s, j); }
        assert forall|j: int| 0 <= j < enc(s).len() implies (#[trigger] enc(s)[j] as u32) > 0x1F by {
            if j < uenc1(s).len() { assert(enc(s)[j] == uenc1(s)[j]); } else { assert(enc(s)[j] == enc(t)[j - uenc1(s).len()]); }
        }
    }
}
pub proof fn lemma_u4_control(s: Seq<char>, j: int) requires s.len() > 0, s[0] as u32 > 0x1F, 0 <= j < uenc1(s).len(), ensures uenc1(s)[j] as u32 > 0x1F,
{ }
pub open spec fn vtext(v: SV) -> Seq<char> {
    match v { SV::Boolean(b) => dec_i(b as int), SV::Integer(i) => pad(9, dec_i(i as int)), SV::Long(l) => dec_i(l as int), SV::Short(s) => pad(6, dec_i(s as int)), SV::Double(d) => ftext(d), SV::Str(s) => s, SV::Binary(b) => hx(b) }
}
pub open spec fn wtext(v: SV, a: bool) -> Seq<char> { match v { SV::Str(s) => if a { enc(esc(s)) } else { esc(s) }, _ => vtext(v) } }
pub open spec fn line(s: Seq<char>) -> Seq<u8> { utf8(s + eol()) }
pub open spec fn code_text(c: int) -> Seq<char> { pad(3, dec_i(c)) }
pub open spec fn pair_text(p: SP, a: bool) -> Seq<u8> { line(code_text(p.code as int)) + line(wtext(p.v, a)) }
pub open spec fn file_text(ps: Seq<SP>, a: bool) -> Seq<u8> decreases ps.len() { if ps.len() == 0 { seq![] } else { file_text(ps.drop_last(), a) + pair_text(ps.last(), a) } }
// what a reader gets back: doubles to the twelve decimals of the notation, everything else exactly
pub open spec fn back(v: SV) -> SV { match v { SV::Double(d) => SV::Double(parse_d(fix12(d))->Some_0), _ => v } }
pub open spec fn typed(p: SP) -> bool { kind(p.code as int) is Some && kind_of(p.v) == kind(p.code as int)->Some_0 }
pub proof fn lemma_wtext(v: SV, a: bool) ensures no_eol(wtext(v, a)), a || !(v is Str) ==> ascii(wtext(v, a)),
{
    match v {
        SV::Boolean(b) => lemma_pad_plain(0, b as int),
        SV::Integer(i) => lemma_pad_plain(9, i as int),
        SV::Long(i) => lemma_pad_plain(0, i as int),
        SV::Short(i) => lemma_pad_plain(6, i as int),
        SV::Double(d) => { lemma_ftext(d); lemma_trim_num(ftext(d)); }
        SV::Binary(b) => lemma_hx_plain(b),
        SV::Str(s) => {
            theorem_no_control(s); theorem_ascii(esc(s)); lemma_enc_control(esc(s));
            let t = wtext(v, a);
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] as u32 != 10 && t[i] as u32 != 13 by { }
        }
    }
}
// both lines of a pair as the reader meets them
pub proof fn lemma_pair(p: SP, a: bool, tail: Seq<u8>, w: XEnc, e: XEnc)
    requires is_1252(w), if a { is_1252(e) } else { is_utf8(e) },
    ensures ({
        let x = pair_text(p, a) + tail; let y = line(wtext(p.v, a)) + tail;
        &&& line_of(x, true, w) == Some(code_text(p.code as int)) && after_line(x) == y
        &&& line_of(y, false, e) == Some(wtext(p.v, a)) && after_line(y) == tail
        &&& trim(code_text(p.code as int)) == dec_i(p.code as int) && trim(dec_i(p.code as int)) == dec_i(p.code as int) && dec_i(p.code as int).len() > 0 && parse_i(dec_i(p.code as int)) == Some(p.code as int)
    }),
{
    let c = code_text(p.code as int);
    lemma_pad_plain(3, p.code as int);
    lemma_num(3, p.code as int);
    lemma_wtext(p.v, a);
    let y = line(wtext(p.v, a)) + tail;
    assert((c[0] as u32) < 0x80);
    theorem_line(c, y, true, w);
    theorem_line(wtext(p.v, a), tail, false, e);
    assert(pair_text(p, a) + tail =~= line(c) + y);
}
pub proof fn lemma_read_value(v: SV, a: bool)
    ensures
        v is Boolean ==> parse_d(trim(wtext(v, a))) is Some && to_i16(parse_d(trim(wtext(v, a)))->Some_0) == v->Boolean_0,
        v is Short ==> parse_d(trim(wtext(v, a))) is Some && to_i16(parse_d(trim(wtext(v, a)))->Some_0) == v->Short_0,
        v is Integer ==> parse_i(trim(wtext(v, a))) == Some(v->Integer_0 as int),
        v is Long ==> parse_i(trim(wtext(v, a))) == Some(v->Long_0 as int),
        v is Double ==> parse_d(trim(wtext(v, a))) is Some && parse_d(trim(wtext(v, a))) == parse_d(fix12(v->Double_0)),
        v is Str ==> unesc(if a { dec(wtext(v, a)) } else { wtext(v, a) }) == v->Str_0,
        v is Binary ==> all_hex(wtext(v, a)) && hexs(wtext(v, a)) == v->Binary_0,
{
    match v {
        SV::Boolean(b) => { lemma_num(0, b as int); axiom_dec(b as int); }
        SV::Integer(i) => lemma_num(9, i as int),
        SV::Long(i) => lemma_num(0, i as int),
        SV::Short(i) => { lemma_num(6, i as int); axiom_dec(i as int); }
        SV::Double(d) => { lemma_ftext(d); lemma_trim_num(ftext(d)); }
        SV::Binary(b) => lemma_hx(b),
        SV::Str(s) => { theorem_inverse(s); theorem_unicode_inverse(esc(s)); }
    }
}
pub proof fn lemma_nl_range(s: Seq<u8>) ensures 0 <= nl_at(s) <= s.len(), decreases s.len(), { if s.len() > 0 && s[0] != 10 { lemma_nl_range(s.skip(1)); } }
pub proof fn lemma_line_progress(b: Seq<u8>, w: XEnc)
    requires is_1252(w),
    ensures b.len() > 0 ==> after_line(b).len() < b.len(), b.len() == 0 ==> line_of(b, true, w) == Some(Seq::<char>::empty()) && after_line(b).len() == 0,
{
    lemma_nl_range(b);
    if b.len() == 0 {
        assert(b.take(0) =~= Seq::<u8>::empty());
        assert(line_bytes(Seq::<u8>::empty(), true) =~= Seq::<u8>::empty());
        axiom_utf8_empty(); axiom_decode(w, Seq::<char>::empty());
        assert(utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_trim_empty() ensures trim(Seq::<char>::empty()).len() == 0, { }
pub trait XShow {
    spec fn shown(&self) -> Seq<char>;
    fn show(&self) -> (r: String) ensures r@ == self.shown();
}
impl XShow for i16 { open spec fn shown(&self) -> Seq<char> { dec_i(*self as int) } #[verifier::external_body] fn show(&self) -> (r: String) { format!("{}", self) } }
impl XShow for i32 { open spec fn shown(&self) -> Seq<char> { dec_i(*self as int) } #[verifier::external_body] fn show(&self) -> (r: String) { format!("{}", self) } }
impl XShow for i64 { open spec fn shown(&self) -> Seq<char> { dec_i(*self as int) } #[verifier::external_body] fn show(&self) -> (r: String) { format!("{}", self) } }
impl XShow for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn show(&self) -> (r: String) { format!("{}", self) } }
#[verifier::external_body]
pub fn x_write_line(w: &mut XWriter, s: &String) -> (r: DxfResult<()>) ensures r is Ok ==> wr(*final(w)) == wr(*old(w)) + line(s@), { unimplemented!() }
