// ---- text DXF: numbers, blanks, lines ----
pub uninterp spec fn is_space(c: char) -> bool;
pub open spec fn numeric(c: char) -> bool { ('0' <= c && c <= '9') || c == '-' }
pub axiom fn axiom_space(c: char) ensures c == ' ' ==> is_space(c), numeric(c) ==> !is_space(c);
pub open spec fn trim_l(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_space(s[0]) { trim_l(s.skip(1)) } else { s } }
pub open spec fn trim_r(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_space(s.last()) { trim_r(s.drop_last()) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_r(trim_l(s)) }
#[verifier::external_body]
pub fn x_trimmed(s: &str) -> (r: &str) ensures r@ == trim(s@), { s.trim() }
// decimal notation of an integer, and what the standard parsers make of a text
pub uninterp spec fn dec_i(n: int) -> Seq<char>;
pub uninterp spec fn parse_i(s: Seq<char>) -> Option<int>;
pub uninterp spec fn parse_d(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn to_i16(d: f64) -> i16;
pub axiom fn axiom_dec(n: int) ensures dec_i(n).len() > 0, forall|i: int| 0 <= i < dec_i(n).len() ==> numeric(#[trigger] dec_i(n)[i]), parse_i(dec_i(n)) == Some(n),
    -32768 <= n <= 32767 ==> parse_d(dec_i(n)) is Some && to_i16(parse_d(dec_i(n))->Some_0) == n;
#[verifier::external_body]
pub fn x_parse_i32(s: &str) -> (r: Result<i32, XErr>) ensures r is Ok == (parse_i(s@) is Some && -2147483648 <= parse_i(s@)->Some_0 <= 2147483647), r is Ok ==> r->Ok_0 == parse_i(s@)->Some_0, { unimplemented!() }
#[verifier::external_body]
pub fn x_parse_i64(s: &str) -> (r: Result<i64, XErr>) ensures r is Ok == (parse_i(s@) is Some && -9223372036854775808 <= parse_i(s@)->Some_0 <= 9223372036854775807), r is Ok ==> r->Ok_0 == parse_i(s@)->Some_0, { unimplemented!() }
#[verifier::external_body]
pub fn x_parse_f64(s: &str) -> (r: Result<f64, XErr>) ensures r is Ok == parse_d(s@) is Some, r is Ok ==> r->Ok_0 == parse_d(s@)->Some_0, { unimplemented!() }
#[verifier::external_body]
pub fn x_to_i16(d: f64) -> (r: i16) ensures r == to_i16(d), { d as i16 }
pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| ' ') }
pub open spec fn pad(w: int, s: Seq<char>) -> Seq<char> { spaces(w - s.len()) + s }
#[verifier::external_body]
pub fn x_dec(n: i64) -> (r: String) ensures r@ == dec_i(n as int), { format!("{}", n) }
#[verifier::external_body]
pub fn x_pad(s: String, w: usize) -> (r: String) ensures r@ == pad(w as int, s@), { unimplemented!() }
pub open spec fn all_numeric(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> numeric(#[trigger] s[i]) }
pub proof fn lemma_trim_pad(k: nat, s: Seq<char>)
    requires all_numeric(s), s.len() > 0,
    ensures trim(spaces(k as int) + s) == s,
    decreases k,
{
    let t = spaces(k as int) + s;
    if k == 0 {
        assert(t =~= s);
        axiom_space(s[0]); axiom_space(s.last());
        assert(numeric(s[0]) && numeric(s.last()));
    } else {
        lemma_trim_pad((k - 1) as nat, s);
        axiom_space(' ');
        assert(t[0] == ' ');
        assert(t.skip(1) =~= spaces(k - 1) + s);
    }
}
pub proof fn lemma_num(w: int, n: int) ensures trim(pad(w, dec_i(n))) == dec_i(n), trim(dec_i(n)) == dec_i(n), dec_i(n).len() > 0, parse_i(dec_i(n)) == Some(n),
{
    axiom_dec(n);
    let d = dec_i(n);
    assert(all_numeric(d));
    let k = if w > d.len() { (w - d.len()) as nat } else { 0 };
    assert(spaces(w - d.len()) =~= spaces(k as int));
    lemma_trim_pad(k, d);
    lemma_trim_pad(0, d);
    assert(spaces(0) + d =~= d);
}
// the twelve-decimals notation of a double
pub uninterp spec fn fix12(d: f64) -> Seq<char>;
// position of the decimal point; -1 for texts without one (inf, NaN)
pub uninterp spec fn point(d: f64) -> int;
pub open spec fn dot(c: char) -> bool { c == '.' }
pub axiom fn axiom_fix12(d: f64)
    ensures fix12(d).len() > 0, -1 <= point(d) < fix12(d).len(), point(d) >= 0 ==> fix12(d)[point(d)] == '.', point(d) < 0 ==> fix12(d).last() != '0' && fix12(d).last() != '.',
        forall|i: int| 0 <= i < fix12(d).len() ==> number_char(#[trigger] fix12(d)[i]);
pub open spec fn number_char(c: char) -> bool { numeric(c) || c == '.' || c == 'i' || c == 'n' || c == 'f' || c == 'N' || c == 'a' }
pub axiom fn axiom_number_char(c: char) ensures number_char(c) ==> !is_space(c) && plain(c);
// a zero appended after a decimal point changes nothing
pub axiom fn axiom_zero(s: Seq<char>, k: int) requires 0 <= k < s.len(), s[k] == '.', ensures parse_d(s.push('0')) == parse_d(s);
pub axiom fn axiom_fix12_parses(d: f64) ensures parse_d(fix12(d)) is Some;
#[verifier::external_body]
pub fn x_fix12(d: f64) -> (r: String) ensures r@ == fix12(d), { format!("{:.12}", d) }
#[verifier::external_body]
pub fn x_ends_with(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c), { s.ends_with(c) }
#[verifier::external_body]
pub fn x_pop(s: &mut String) -> (r: Option<char>) ensures old(s)@.len() > 0 ==> final(s)@ == old(s)@.drop_last(), old(s)@.len() == 0 ==> final(s)@ == old(s)@, { s.pop() }
// ---- bytes and lines ----
// characters that need no more than one byte and are not control characters
pub open spec fn plain(c: char) -> bool { 0x20 <= (c as u32) && (c as u32) < 0x7F }
pub open spec fn no_eol(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] as u32 != 10 && s[i] as u32 != 13 }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
pub axiom fn axiom_utf8_add(a: Seq<char>, b: Seq<char>) ensures utf8(a + b) == utf8(a) + utf8(b);
pub axiom fn axiom_utf8_eol(s: Seq<char>) ensures no_eol(s) ==> forall|j: int| 0 <= j < utf8(s).len() ==> #[trigger] utf8(s)[j] != 10;
pub axiom fn axiom_utf8_crlf() ensures utf8(seq!['\r', '\n']) == seq![13u8, 10u8];
// the first byte of a text that starts with an ASCII character is that character
pub axiom fn axiom_utf8_first(s: Seq<char>) ensures s.len() > 0 && (s[0] as u32) < 0x80 ==> utf8(s).len() > 0 && utf8(s)[0] == s[0] as u32;
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct XEnc { x: () }
pub uninterp spec fn decode(e: XEnc, b: Seq<u8>) -> Option<Seq<char>>;
pub uninterp spec fn is_utf8(e: XEnc) -> bool;
pub uninterp spec fn is_1252(e: XEnc) -> bool;
pub axiom fn axiom_decode(e: XEnc, s: Seq<char>) ensures (is_utf8(e) || (is_1252(e) && ascii(s))) ==> decode(e, utf8(s)) == Some(s), is_utf8(e) ==> !is_1252(e);
#[verifier::external_body]
pub fn x_w1252() -> (r: XEnc) ensures is_1252(r), { unimplemented!() }
#[verifier::external_body]
pub fn x_utf8_enc() -> (r: XEnc) ensures is_utf8(r), !is_1252(r), { unimplemented!() }
#[verifier::external_body]
pub fn x_is_1252(e: XEnc) -> (r: bool) ensures r == is_1252(e), { unimplemented!() }
#[verifier::external_body]
pub fn x_decode(e: XEnc, b: &Vec<u8>) -> (r: (String, bool)) ensures r.1 == decode(e, b@) is None, !r.1 ==> r.0@ == decode(e, b@)->Some_0, { unimplemented!() }
#[verifier::external_body]
pub fn x_next_byte(r: &mut XReader) -> (b: Option<Result<u8, XErr>>)
    ensures
        sound(*old(r)) ==> sound(*final(r)) && (b is Some ==> b->Some_0 is Ok),
        b is None ==> rest(*old(r)).len() == 0 && rest(*final(r)) == rest(*old(r)),
        b is Some && b->Some_0 is Ok ==> rest(*old(r)).len() > 0 && b->Some_0->Ok_0 == rest(*old(r))[0] && rest(*final(r)) == rest(*old(r)).skip(1),
        b is Some && b->Some_0 is Err ==> rest(*final(r)).len() <= rest(*old(r)).len(),
{ unimplemented!() }
// position of the first line feed, or the length
pub open spec fn nl_at(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 || s[0] == 10 { 0 } else { 1 + nl_at(s.skip(1)) } }
pub proof fn lemma_nl(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> #[trigger] s[j] != 10, i == s.len() || s[i] == 10,
    ensures nl_at(s) == i,
    decreases s.len(),
{ if i > 0 { let t = s.skip(1); assert forall|j: int| 0 <= j < i - 1 implies #[trigger] t[j] != 10 by { assert(t[j] == s[j + 1]); } assert(s[0] != 10); if i < s.len() { assert(t[i - 1] == s[i]); } lemma_nl(t, i - 1); } }
// the bytes of a line without a byte order mark
pub open spec fn in_bom(i: int, b: u8, first: u8) -> bool { first == 0xEF && (i == 0 || (i == 1 && b == 0xBB) || (i == 2 && b == 0xBF)) }
pub open spec fn line_bytes(s: Seq<u8>, bom: bool) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else if bom && in_bom(s.len() - 1, s.last(), s[0]) { line_bytes(s.drop_last(), bom) } else { line_bytes(s.drop_last(), bom).push(s.last()) }
}
pub proof fn lemma_no_bom(s: Seq<u8>, bom: bool) requires !bom || s.len() == 0 || s[0] != 0xEF, ensures line_bytes(s, bom) == s, decreases s.len(),
{ if s.len() > 0 { lemma_no_bom(s.drop_last(), bom); assert(s.drop_last().push(s.last()) =~= s); } }
// THEOREM: a byte order mark in front changes nothing
pub proof fn theorem_bom(t: Seq<u8>) ensures line_bytes(seq![0xEFu8, 0xBBu8, 0xBFu8] + t, true) == t, decreases t.len(),
{
    let m = seq![0xEFu8, 0xBBu8, 0xBFu8];
    let s = m + t;
    if t.len() == 0 {
        assert(s =~= m); assert(m.drop_last() =~= seq![0xEFu8, 0xBBu8]); assert(seq![0xEFu8, 0xBBu8].drop_last() =~= seq![0xEFu8]); assert(seq![0xEFu8].drop_last() =~= Seq::<u8>::empty());
        reveal_with_fuel(line_bytes, 5);
        assert(line_bytes(s, true) =~= t);
    } else {
        theorem_bom(t.drop_last());
        assert(s.drop_last() =~= m + t.drop_last());
        assert(t.drop_last().push(t.last()) =~= t);
        assert(s.last() == t.last() && s[0] == 0xEF);
    }
}
pub open spec fn strip_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
pub open spec fn min_i(a: int, b: int) -> int { if a < b { a } else { b } }
// one line of a file: its text and what follows it
pub open spec fn line_of(b: Seq<u8>, bom: bool, e: XEnc) -> Option<Seq<char>> { match decode(e, line_bytes(b.take(nl_at(b)), bom)) { Some(s) => Some(strip_cr(s)), None => None } }
pub open spec fn after_line(b: Seq<u8>) -> Seq<u8> { b.skip(min_i(nl_at(b) + 1, b.len() as int)) }
pub open spec fn eol() -> Seq<char> { seq!['\r', '\n'] }
// THEOREM: a written line is read back, and reading stops right after it; a line feed alone or the end of the file do as well
pub proof fn theorem_line(t: Seq<char>, tail: Seq<u8>, bom: bool, e: XEnc)
    requires no_eol(t), is_utf8(e) || (is_1252(e) && ascii(t)), bom ==> t.len() > 0 && (t[0] as u32) < 0x80,
    ensures
        line_of(utf8(t + eol()) + tail, bom, e) == Some(t), after_line(utf8(t + eol()) + tail) == tail,
        line_of(utf8(t).push(10u8) + tail, bom, e) == Some(t), after_line(utf8(t).push(10u8) + tail) == tail,
        line_of(utf8(t), bom, e) == Some(t), after_line(utf8(t)).len() == 0,
{
    axiom_utf8_add(t, eol()); axiom_utf8_crlf(); axiom_utf8_eol(t); axiom_utf8_first(t);
    let u = utf8(t);
    let s = u + seq![13u8, 10u8] + tail;
    assert(utf8(t + eol()) + tail == s);
    assert forall|j: int| 0 <= j < u.len() + 1 implies #[trigger] s[j] != 10 by { if j < u.len() { assert(s[j] == u[j]); } }
    assert(s[u.len() as int + 1] == 10);
    lemma_nl(s, u.len() as int + 1);
    let cr = t.push('\r');
    let one = seq!['\r'];
    axiom_utf8_add(t, one);
    assert(t + one =~= cr);
    axiom_cr();
    assert(s.take(u.len() as int + 1) =~= utf8(cr));
    axiom_decode(e, cr); axiom_decode(e, t);
    assert(is_1252(e) && ascii(t) ==> ascii(cr)) by { assert forall|i: int| 0 <= i < cr.len() && ascii(t) implies (#[trigger] cr[i] as u32) < 0x80 by { if i < t.len() { assert(cr[i] == t[i]); } } }
    axiom_utf8_first(cr);
    if bom { assert(cr[0] == t[0]); }
    lemma_no_bom(utf8(cr), bom);
    assert(strip_cr(cr) =~= t);
    assert(s.skip(u.len() as int + 2) =~= tail);
    let s2 = u.push(10u8) + tail;
    assert forall|j: int| 0 <= j < u.len() implies #[trigger] s2[j] != 10 by { assert(s2[j] == u[j]); }
    lemma_nl(s2, u.len() as int);
    assert(s2.take(u.len() as int) =~= u);
    lemma_no_bom(u, bom);
    assert(strip_cr(t) =~= t) by { if t.len() > 0 { assert(t.last() as u32 != 13); } }
    assert(s2.skip(u.len() as int + 1) =~= tail);
    lemma_nl(u, u.len() as int);
    assert(u.take(u.len() as int) =~= u);
}
pub axiom fn axiom_cr() ensures utf8(seq!['\r']) == seq![13u8];
