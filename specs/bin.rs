// ---- binary DXF: the published layout of one pair ----
pub open spec fn code_bytes(code: int, two: bool) -> Seq<u8> {
    if two { le_bytes(code as nat, 2) } else if code >= 255 { seq![255u8] + le_bytes(code as nat, 2) } else { seq![code as u8] }
}
pub open spec fn val_bytes(v: SV, two: bool) -> Seq<u8> {
    match v {
        SV::Boolean(s) => if two { seq![(n16(s) % 256) as u8] } else { le_bytes(n16(s), 2) },
        SV::Integer(i) => le_bytes(n32(i), 4),
        SV::Long(i) => le_bytes(n64(i), 8),
        SV::Short(i) => le_bytes(n16(i), 2),
        SV::Double(d) => le_bytes(bits64(d) as nat, 8),
        SV::Str(s) => utf8(esc(s)).push(0u8),
        SV::Binary(b) => seq![b.len() as u8] + b,
    }
}
pub open spec fn enc1(p: SP, two: bool) -> Seq<u8> { code_bytes(p.code as int, two) + val_bytes(p.v, two) }
// binary data of more than 255 bytes takes several pairs
pub open spec fn chunks(b: Seq<u8>, n: nat) -> Seq<Seq<u8>> decreases b.len() {
    if n == 0 || b.len() <= n { seq![b] } else { seq![b.take(n as int)] + chunks(b.skip(n as int), n) }
}
#[verifier::external_body]
pub fn x_chunks(b: &Vec<u8>, n: usize) -> (r: Vec<Vec<u8>>)
    requires n > 0, b@.len() > 0,
    ensures r@.len() == chunks(b@, n as nat).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == chunks(b@, n as nat)[i],
{ b.chunks(n).map(|c| c.to_vec()).collect() }
pub proof fn lemma_chunks(b: Seq<u8>, n: nat)
    requires n > 0,
    ensures forall|i: int| 0 <= i < chunks(b, n).len() ==> (#[trigger] chunks(b, n)[i]).len() <= n, flat(chunks(b, n)) == b,
    decreases b.len(),
{
    if b.len() > n {
        lemma_chunks(b.skip(n as int), n);
        let t = chunks(b.skip(n as int), n);
        assert(chunks(b, n).skip(1) =~= t);
        assert(b.take(n as int) + b.skip(n as int) =~= b);
        assert forall|i: int| 0 <= i < chunks(b, n).len() implies (#[trigger] chunks(b, n)[i]).len() <= n by { if i > 0 { assert(chunks(b, n)[i] == t[i - 1]); } }
    } else {
        let o = seq![b];
        assert(o.skip(1) =~= Seq::<Seq<u8>>::empty());
        assert(flat(Seq::<Seq<u8>>::empty()) =~= Seq::<u8>::empty());
        assert(flat(o) == o[0] + flat(o.skip(1)));
        assert(b + Seq::<u8>::empty() =~= b);
    }
}
pub open spec fn flat(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { s[0] + flat(s.skip(1)) } }
pub open spec fn parts(p: SP) -> Seq<SP> { match p.v { SV::Binary(b) => Seq::new(chunks(b, 255).len(), |i: int| p_bin(p.code, chunks(b, 255)[i])), _ => seq![p] } }
pub open spec fn enc_all(ps: Seq<SP>, two: bool) -> Seq<u8> decreases ps.len() { if ps.len() == 0 { seq![] } else { enc_all(ps.drop_last(), two) + enc1(ps.last(), two) } }
pub open spec fn two_bytes(v: AcadVersion) -> bool { vord(v) >= vord(AcadVersion::R13) }
// what can stand in a file: the value has the type of the code, in the ranges the layout has
pub open spec fn writable(p: SP) -> bool {
    &&& kind(p.code as int) is Some && kind_of(p.v) == kind(p.code as int)->Some_0
    &&& (p.v is Boolean ==> 0 <= p.v->Boolean_0 <= 255)
}
pub open spec fn short(p: SP) -> bool { p.v is Binary ==> p.v->Binary_0.len() <= 255 }
pub proof fn lemma_one(p: SP, two: bool) requires short(p), ensures parts(p) == seq![p], enc_all(parts(p), two) == enc1(p, two),
{
    assert(parts(p) =~= seq![p]);
    let o = seq![p];
    assert(o.drop_last() =~= Seq::<SP>::empty());
    assert(enc_all(Seq::<SP>::empty(), two) =~= Seq::<u8>::empty());
    assert(enc_all(o, two) == enc_all(o.drop_last(), two) + enc1(o.last(), two));
    assert(Seq::<u8>::empty() + enc1(p, two) =~= enc1(p, two));
}
pub proof fn lemma_enc_step(ps: Seq<SP>, i: int, two: bool)
    requires 0 <= i < ps.len(),
    ensures enc_all(ps.take(i + 1), two) == enc_all(ps.take(i), two) + enc1(ps[i], two),
{ assert(ps.take(i + 1).drop_last() =~= ps.take(i)); }
pub ghost enum Kind { Boolean, Integer, Long, Short, Double, Str, Binary }
pub open spec fn kind_of(v: SV) -> Kind { match v { SV::Boolean(_) => Kind::Boolean, SV::Integer(_) => Kind::Integer, SV::Long(_) => Kind::Long, SV::Short(_) => Kind::Short, SV::Double(_) => Kind::Double, SV::Str(_) => Kind::Str, SV::Binary(_) => Kind::Binary } }
// value type of every group code (DXF reference)
pub open spec fn kind(c: int) -> Option<Kind> {
    if 0 <= c <= 9 || 100 <= c <= 102 || c == 105 || 300 <= c <= 309 || 320 <= c <= 369 || 390 <= c <= 399 || 410 <= c <= 419 || 430 <= c <= 439 || 470 <= c <= 481 || c == 999 || 1000 <= c <= 1009 { Some(Kind::Str) }
    else if 10 <= c <= 59 || 110 <= c <= 149 || 210 <= c <= 239 || 460 <= c <= 469 || 1010 <= c <= 1059 { Some(Kind::Double) }
    else if 60 <= c <= 79 || 170 <= c <= 179 || 270 <= c <= 289 || 370 <= c <= 389 || 400 <= c <= 409 || 1060 <= c <= 1070 { Some(Kind::Short) }
    else if 90 <= c <= 99 || 420 <= c <= 429 || 440 <= c <= 459 || c == 1071 { Some(Kind::Integer) }
    else if 160 <= c <= 169 { Some(Kind::Long) }
    else if 290 <= c <= 299 { Some(Kind::Boolean) }
    else if 310 <= c <= 319 { Some(Kind::Binary) }
    else { None }
}
pub open spec fn kindv(t: ExpectedType) -> Kind { match t { ExpectedType::Boolean => Kind::Boolean, ExpectedType::Integer => Kind::Integer, ExpectedType::Long => Kind::Long, ExpectedType::Short => Kind::Short, ExpectedType::Double => Kind::Double, ExpectedType::Str => Kind::Str, ExpectedType::Binary => Kind::Binary } }
pub proof fn lemma_enc_empty(ps: Seq<SP>, two: bool, w: Seq<u8>) requires ps.len() == 0, ensures w + enc_all(ps, two) == w,
{ assert(w + enc_all(ps, two) =~= w); }
pub proof fn lemma_kind_range(c: int) requires kind(c) is Some, ensures 0 <= c <= 1071, c != 255, { }
// the first pair of every file, which tells the two layouts apart
pub open spec fn first_pair() -> SP { p_str(0, "SECTION"@) }
pub proof fn lemma_code_bytes(c: int, two: bool)
    requires 0 <= c <= 1071, c != 255,
    ensures two ==> code_bytes(c, two) == seq![(c % 256) as u8, (c / 256) as u8],
        !two && c < 255 ==> code_bytes(c, two) == seq![c as u8],
        !two && c > 255 ==> code_bytes(c, two) == seq![255u8] + le_bytes(c as nat, 2) && le_nat(le_bytes(c as nat, 2)) == c && le_bytes(c as nat, 2).len() == 2,
{
    lemma_p256();
    lemma_le(c as nat, 2);
    assert(le_bytes(c as nat, 2) =~= seq![(c % 256) as u8, (c / 256) as u8]) by { reveal_with_fuel(le_bytes, 3); }
}
// everything the reader needs to know about the value bytes of v followed by tail
pub proof fn lemma_val(v: SV, two: bool, tail: Seq<u8>)
    ensures ({
        let x = val_bytes(v, two) + tail;
        &&& v is Short ==> x.len() >= 2 && le_nat(x.take(2)) == n16(v->Short_0) && x.skip(2) == tail
        &&& v is Boolean && !two ==> x.len() >= 2 && le_nat(x.take(2)) == n16(v->Boolean_0) && x.skip(2) == tail
        &&& v is Boolean && two && 0 <= v->Boolean_0 <= 255 ==> x.len() >= 1 && x[0] == v->Boolean_0 && x.skip(1) == tail
        &&& v is Integer ==> x.len() >= 4 && le_nat(x.take(4)) == n32(v->Integer_0) && x.skip(4) == tail
        &&& v is Long ==> x.len() >= 8 && le_nat(x.take(8)) == n64(v->Long_0) && x.skip(8) == tail
        &&& v is Double ==> x.len() >= 8 && le_nat(x.take(8)) == bits64(v->Double_0) && x.skip(8) == tail
        &&& v is Str ==> nul_at(x) == utf8(esc(v->Str_0)).len() && x.len() > utf8(esc(v->Str_0)).len() && x.take(nul_at(x)) == utf8(esc(v->Str_0)) && x.skip(nul_at(x) + 1) == tail
        &&& v is Binary && v->Binary_0.len() <= 255 ==> x.len() >= 1 && x[0] == v->Binary_0.len() && x.skip(1) == v->Binary_0 + tail && (v->Binary_0 + tail).take(v->Binary_0.len() as int) == v->Binary_0 && (v->Binary_0 + tail).skip(v->Binary_0.len() as int) == tail
    }),
{
    lemma_front(val_bytes(v, two), tail);
    lemma_p256();
    match v {
        SV::Short(s) => lemma_le(n16(s), 2),
        SV::Boolean(s) => { lemma_le(n16(s), 2); },
        SV::Integer(s) => lemma_le(n32(s), 4),
        SV::Long(s) => lemma_le(n64(s), 8),
        SV::Double(s) => lemma_le(bits64(s) as nat, 8),
        SV::Str(s) => {
            theorem_no_control(s);
            axiom_utf8_zero(esc(s));
            lemma_nul(utf8(esc(s)), tail);
        }
        SV::Binary(b) => { assert((val_bytes(v, two) + tail).skip(1) =~= b + tail); lemma_front(b, tail); }
    }
}
