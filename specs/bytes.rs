// ---- bytes: little-endian numbers, a reader (bytes still to come) and a writer (bytes accepted so far) ----
pub open spec fn le_bytes(n: nat, k: nat) -> Seq<u8> decreases k { if k == 0 { seq![] } else { seq![(n % 256) as u8] + le_bytes(n / 256, (k - 1) as nat) } }
pub open spec fn le_nat(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_nat(s.skip(1)) } }
pub open spec fn p256(k: nat) -> nat decreases k { if k == 0 { 1 } else { 256 * p256((k - 1) as nat) } }
pub proof fn lemma_le(n: nat, k: nat)
    requires n < p256(k),
    ensures le_bytes(n, k).len() == k, le_nat(le_bytes(n, k)) == n,
    decreases k,
{
    if k > 0 {
        lemma_le(n / 256, (k - 1) as nat);
        assert(le_bytes(n, k).skip(1) =~= le_bytes(n / 256, (k - 1) as nat));
        assert(le_bytes(n, k)[0] == (n % 256) as u8);
    }
}
pub proof fn lemma_le_len(n: nat, k: nat) ensures le_bytes(n, k).len() == k, decreases k, { if k > 0 { lemma_le_len(n / 256, (k - 1) as nat); } }
pub proof fn lemma_p256() ensures p256(1) == 256, p256(2) == 65536, p256(4) == 4294967296, p256(8) == 18446744073709551616,
{ reveal_with_fuel(p256, 9); assert(p256(8) == 18446744073709551616) by (compute); assert(p256(4) == 4294967296) by (compute); }
// two's complement
pub open spec fn n16(v: i16) -> nat { if v < 0 { (v + 65536) as nat } else { v as nat } }
pub open spec fn n32(v: i32) -> nat { if v < 0 { (v + 4294967296) as nat } else { v as nat } }
pub open spec fn n64(v: i64) -> nat { if v < 0 { (v + 18446744073709551616) as nat } else { v as nat } }
// IEEE bits of a double / float
pub uninterp spec fn bits64(f: f64) -> u64;
pub uninterp spec fn bits32(f: f32) -> u32;
#[verifier::external_body]
pub proof fn axiom_bits64(a: f64, b: f64) ensures bits64(a) == bits64(b) ==> a == b, { }
#[verifier::external_body]
pub fn x_le_i16<const N: usize>(s: &[u8; N]) -> (r: i16) requires N >= 2, ensures n16(r) == le_nat(s@.take(2)), { unimplemented!() }
#[verifier::external_body]
pub fn x_le_i32<const N: usize>(s: &[u8; N]) -> (r: i32) requires N >= 4, ensures n32(r) == le_nat(s@.take(4)), { unimplemented!() }
#[verifier::external_body]
pub fn x_le_i64<const N: usize>(s: &[u8; N]) -> (r: i64) requires N >= 8, ensures n64(r) == le_nat(s@.take(8)), { unimplemented!() }
#[verifier::external_body]
pub fn x_le_f64<const N: usize>(s: &[u8; N]) -> (r: f64) requires N >= 8, ensures bits64(r) as nat == le_nat(s@.take(8)), { unimplemented!() }
#[verifier::external_body]
pub fn x_le_f32<const N: usize>(s: &[u8; N]) -> (r: f32) requires N >= 4, ensures bits32(r) as nat == le_nat(s@.take(4)), { unimplemented!() }

#[verifier::external_body]
pub struct XReader { x: () }
pub uninterp spec fn rest(r: XReader) -> Seq<u8>;
// a source that never fails (bytes in memory)
pub uninterp spec fn sound(r: XReader) -> bool;
#[verifier::external_body]
pub fn x_read(r: &mut XReader, buf: &mut [u8; 1]) -> (n: Result<usize, XErr>)
    ensures
        sound(*old(r)) ==> n is Ok && sound(*final(r)),
        n is Ok && rest(*old(r)).len() == 0 ==> n->Ok_0 == 0 && rest(*final(r)) == rest(*old(r)),
        n is Ok && rest(*old(r)).len() > 0 ==> n->Ok_0 == 1 && final(buf)@[0] == rest(*old(r))[0] && rest(*final(r)) == rest(*old(r)).skip(1),
        n is Err ==> rest(*final(r)).len() <= rest(*old(r)).len(),
{ unimplemented!() }
#[verifier::external_body]
pub struct XWriter { x: () }
pub uninterp spec fn wr(w: XWriter) -> Seq<u8>;
#[verifier::external_body]
pub fn x_write_u8(w: &mut XWriter, b: u8) -> (r: DxfResult<()>) ensures r is Ok ==> wr(*final(w)) == wr(*old(w)).push(b), { unimplemented!() }
#[verifier::external_body]
pub fn x_write_i16(w: &mut XWriter, v: i16) -> (r: DxfResult<()>) ensures r is Ok ==> wr(*final(w)) == wr(*old(w)) + le_bytes(n16(v), 2), { unimplemented!() }
#[verifier::external_body]
pub fn x_write_i32(w: &mut XWriter, v: i32) -> (r: DxfResult<()>) ensures r is Ok ==> wr(*final(w)) == wr(*old(w)) + le_bytes(n32(v), 4), { unimplemented!() }
#[verifier::external_body]
pub fn x_write_i64(w: &mut XWriter, v: i64) -> (r: DxfResult<()>) ensures r is Ok ==> wr(*final(w)) == wr(*old(w)) + le_bytes(n64(v), 8), { unimplemented!() }
#[verifier::external_body]
pub fn x_write_f64(w: &mut XWriter, v: f64) -> (r: DxfResult<()>) ensures r is Ok ==> wr(*final(w)) == wr(*old(w)) + le_bytes(bits64(v) as nat, 8), { unimplemented!() }
#[verifier::external_body]
pub fn x_write_f32(w: &mut XWriter, v: f32) -> (r: DxfResult<()>) ensures r is Ok ==> wr(*final(w)) == wr(*old(w)) + le_bytes(bits32(v) as nat, 4), { unimplemented!() }
#[verifier::external_body]
pub fn x_write_all(w: &mut XWriter, b: &[u8]) -> (r: DxfResult<()>) ensures r is Ok ==> wr(*final(w)) == wr(*old(w)) + b@, { unimplemented!() }
// UTF-8
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub proof fn axiom_utf8_zero(s: Seq<char>)
    requires forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] as u32 != 0,
    ensures forall|j: int| 0 <= j < utf8(s).len() ==> #[trigger] utf8(s)[j] != 0,
{ }
#[verifier::external_body]
pub fn x_as_bytes(s: &String) -> (r: Vec<u8>) ensures r@ == utf8(s@), { s.as_bytes().to_vec() }
// UTF-8, otherwise one character per byte
#[verifier::external_body]
pub fn x_text_of(b: Vec<u8>) -> (r: DxfResult<String>)
    ensures r is Ok, blen(r->Ok_0@) <= 2 * b@.len(), forall|s: Seq<char>| b@ == utf8(s) ==> r->Ok_0@ == s,
{ unimplemented!() }
pub proof fn lemma_push(a: Seq<u8>, b: Seq<u8>, x: u8) ensures (a + b).push(x) == a + b.push(x), { assert((a + b).push(x) =~= a + b.push(x)); }
pub proof fn lemma_cons(a: Seq<u8>, x: u8, b: Seq<u8>) ensures a.push(x) + b == a + (seq![x] + b), { assert(a.push(x) + b =~= a + (seq![x] + b)); }
pub proof fn lemma_single(a: Seq<u8>, x: u8) ensures a.push(x) == a + seq![x], { assert(a.push(x) =~= a + seq![x]); }
pub proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c), { assert((a + b) + c =~= a + (b + c)); }
pub proof fn lemma_take_push(a: Seq<u8>, b: Seq<u8>, i: int) requires 0 <= i < b.len(), ensures (a + b.take(i)).push(b[i]) == a + b.take(i + 1), { assert((a + b.take(i)).push(b[i]) =~= a + b.take(i + 1)); }
#[verifier::external_body]
pub proof fn axiom_utf8_empty() ensures utf8(Seq::<char>::empty()) == Seq::<u8>::empty(), { }
// length in bytes of a text
pub uninterp spec fn blen(s: Seq<char>) -> nat;
#[verifier::external_body]
pub fn x_blen(s: &String) -> (r: usize) ensures r == blen(s@), { s.len() }
#[verifier::external_body]
pub fn x_is_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0), { s.is_empty() }
// position of the first NUL, or the length
pub open spec fn nul_at(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 || s[0] == 0 { 0 } else { 1 + nul_at(s.skip(1)) } }
pub proof fn lemma_nul_range(s: Seq<u8>) ensures 0 <= nul_at(s) <= s.len(), nul_at(s) < s.len() ==> s[nul_at(s)] == 0, decreases s.len(),
{ if s.len() > 0 && s[0] != 0 { lemma_nul_range(s.skip(1)); if nul_at(s) < s.len() { assert(s[nul_at(s)] == s.skip(1)[nul_at(s.skip(1))]); } } }
pub proof fn lemma_nul(a: Seq<u8>, t: Seq<u8>)
    requires forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] != 0,
    ensures nul_at(a.push(0u8) + t) == a.len(), (a.push(0u8) + t).take(a.len() as int) == a, (a.push(0u8) + t).skip(a.len() as int + 1) == t,
    decreases a.len(),
{
    let s = a.push(0u8) + t;
    if a.len() > 0 { let b = a.skip(1); assert(s.skip(1) =~= b.push(0u8) + t); assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] != 0 by { assert(b[j] == a[j + 1]); } lemma_nul(b, t); assert(s[0] == a[0]); }
    assert(s.take(a.len() as int) =~= a);
    assert(s.skip(a.len() as int + 1) =~= t);
}
pub proof fn lemma_nul_step(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), forall|j: int| 0 <= j < i ==> #[trigger] s[j] != 0,
    ensures s[i] == 0 ==> nul_at(s) == i, i + 1 == s.len() && s[i] != 0 ==> nul_at(s) == s.len(),
    decreases i,
{
    if i > 0 { let t = s.skip(1); assert forall|j: int| 0 <= j < i - 1 implies #[trigger] t[j] != 0 by { assert(t[j] == s[j + 1]); } lemma_nul_step(t, i - 1); assert(t[i - 1] == s[i]); assert(s[0] != 0); }
    else if s[0] != 0 && s.len() == 1 { assert(s.skip(1).len() == 0); assert(nul_at(s.skip(1)) == 0); }
}
pub proof fn lemma_front(a: Seq<u8>, t: Seq<u8>) ensures (a + t).take(a.len() as int) == a, (a + t).skip(a.len() as int) == t,
{ assert((a + t).take(a.len() as int) =~= a); assert((a + t).skip(a.len() as int) =~= t); }
