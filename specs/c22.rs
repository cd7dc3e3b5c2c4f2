// ---- doubles are values of which only conversions are known
#[derive(Clone, Copy)]
pub struct F(pub f64);
pub uninterp spec fn f0() -> F;
pub uninterp spec fn f1() -> F;
pub uninterp spec fn wide(x: f32) -> F;
pub uninterp spec fn narrow(x: F) -> f32;
pub uninterp spec fn of_int(x: int) -> F;
pub uninterp spec fn to_i32(x: F) -> i32;
pub uninterp spec fn nonzero(x: F) -> bool;
pub uninterp spec fn f32_of(n: nat) -> f32;
#[verifier::external_body]
pub proof fn axiom_f32(x: f32) ensures f32_of(bits32(x) as nat) == x, { }
// a 16-bit number times 1.0 is that number
#[verifier::external_body]
pub broadcast proof fn axiom_unscaled(v: i16) ensures #[trigger] to_i32(f_mul(of_int(v as int), f1())) == v, { }
#[verifier::external_body]
pub fn x_f0() -> (r: F) ensures r == f0(), { F(0.0) }
#[verifier::external_body]
pub fn x_f1() -> (r: F) ensures r == f1(), { F(1.0) }
pub uninterp spec fn flit(n: int) -> F;
#[verifier::external_body]
pub fn x_flit(n: i64) -> (r: F) ensures r == flit(n as int), { F(n as f64) }
#[verifier::external_body]
pub fn x_narrow(x: F) -> (r: f32) ensures r == narrow(x), { x.0 as f32 }
#[verifier::external_body]
pub fn x_of_f32(x: f32) -> (r: F) ensures r == wide(x), { F(f64::from(x)) }
#[verifier::external_body]
pub fn x_of_i16(x: i16) -> (r: F) ensures r == of_int(x as int), { F(f64::from(x)) }
#[verifier::external_body]
pub fn x_of_i32(x: i32) -> (r: F) ensures r == of_int(x as int), { F(f64::from(x)) }
#[verifier::external_body]
pub fn x_to_i32(x: F) -> (r: i32) ensures r == to_i32(x), { x.0 as i32 }
#[verifier::external_body]
pub fn x_nonzero(x: F) -> (r: bool) ensures r == nonzero(x), { x.0 != 0.0 }
pub uninterp spec fn f_mul(a: F, b: F) -> F;
pub uninterp spec fn f_div(a: F, b: F) -> F;
impl core::ops::Mul for F { type Output = F; #[verifier::external_body] fn mul(self, o: F) -> F { F(self.0 * o.0) } }
impl vstd::std_specs::ops::MulSpecImpl for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> F { f_mul(self, rhs) }
}
impl core::ops::Div for F { type Output = F; #[verifier::external_body] fn div(self, o: F) -> F { F(self.0 / o.0) } }
impl vstd::std_specs::ops::DivSpecImpl for F {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { true }
    open spec fn div_spec(self, rhs: F) -> F { f_div(self, rhs) }
}
#[verifier::external_body]
pub fn x_string(s: &String) -> (r: String) ensures r@ == s@, { s.clone() }
// one byte per character
pub open spec fn latin(s: Seq<char>) -> Seq<u8> { s.map_values(|c: char| c as u8) }

// ---- the numbers of the format: in float mode 4 bytes, in integer mode 2 bytes scaled
pub struct Mode { pub int: bool, pub scale: F }
pub open spec fn i16_at(s: Seq<u8>) -> i16 { choose|v: i16| n16(v) == le_nat(s.take(2)) }
pub open spec fn i32_at(s: Seq<u8>) -> i32 { choose|v: i32| n32(v) == le_nat(s.take(4)) }
pub open spec fn f32_at(s: Seq<u8>) -> f32 { f32_of(le_nat(s.take(4))) }
pub open spec fn nv(m: Mode, s: Seq<u8>) -> F { if m.int { f_mul(of_int(i16_at(s) as int), m.scale) } else { wide(f32_at(s)) } }
pub open spec fn nx(m: Mode, s: Seq<u8>) -> Seq<u8> { if m.int { s.skip(2) } else { s.skip(4) } }
pub open spec fn av(m: Mode, s: Seq<u8>) -> F { if m.int { f_div(f_mul(of_int(i32_at(s) as int), m.scale), flit(1000000)) } else { wide(f32_at(s)) } }
pub open spec fn uv(m: Mode, s: Seq<u8>) -> F { if m.int { f_mul(f_mul(of_int(i32_at(s) as int), flit(65536)), m.scale) } else { wide(f32_at(s)) } }
pub open spec fn wv(m: Mode, s: Seq<u8>) -> i32 { to_i32(f_mul(of_int(i16_at(s) as int), m.scale)) }
pub open spec fn en(x: F) -> Seq<u8> { le_bytes(bits32(narrow(x)) as nat, 4) }
pub open spec fn ew(v: i16) -> Seq<u8> { le_bytes(n16(v), 2) }
// what single precision keeps of a double
pub open spec fn single(x: F) -> F { wide(narrow(x)) }

pub proof fn lemma_num(m: Mode, x: F, u: Seq<u8>)
    requires !m.int
    ensures nv(m, en(x) + u) == single(x), av(m, en(x) + u) == single(x), uv(m, en(x) + u) == single(x), nx(m, en(x) + u) == u, (en(x) + u).skip(4) == u,
{
    lemma_p256();
    lemma_le(bits32(narrow(x)) as nat, 4);
    lemma_front(en(x), u);
    axiom_f32(narrow(x));
}
pub proof fn lemma_word(m: Mode, v: i16, u: Seq<u8>)
    requires m.scale == f1()
    ensures wv(m, ew(v) + u) == v, (ew(v) + u).skip(2) == u,
{
    lemma_p256();
    lemma_le(n16(v), 2);
    lemma_front(ew(v), u);
    assert(n16(i16_at(ew(v) + u)) == n16(v)) by { assert(n16(v) == le_nat((ew(v) + u).take(2))); }
    axiom_unscaled(v);
}
#[verifier::external_body]
pub fn x_reader_of(b: Ghost<Seq<u8>>) -> (r: XReader) ensures rest(r) == b@, sound(r), { unimplemented!() }
