broadcast use vstd::group_vstd_default;
// ---- doubles as reals; every operation is the exact result rounded once (IEEE 754, round to nearest)
#[derive(Clone, Copy)]
pub struct F(pub f64);
pub uninterp spec fn rr(x: F) -> real;
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
// a trigger for the whole numbers an argument is about
pub closed spec fn mark(n: int) -> bool { true }
pub broadcast proof fn mark_all(n: int) ensures #[trigger] mark(n) {}
pub open spec fn is_n(x: real, n: int) -> bool { x == n as real }
pub open spec fn about(x: real, n: int) -> bool { rabs(x - n as real) < 0.5real }
// r is the double nearest to the real x (normal range or exact zero)
pub open spec fn rounded(r: F, x: real) -> bool { rabs(rr(r) - x) * 9007199254740992real <= rabs(x) }
pub uninterp spec fn f_add(a: F, b: F) -> F;
pub broadcast axiom fn axiom_add(a: F, b: F) ensures rounded(#[trigger] f_add(a, b), rr(a) + rr(b));
impl core::ops::Add for F { type Output = F; #[verifier::external_body] fn add(self, o: F) -> F { F(self.0 + o.0) } }
impl vstd::std_specs::ops::AddSpecImpl for F {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: F) -> bool { true }
    open spec fn add_spec(self, rhs: F) -> F { f_add(self, rhs) }
}
pub uninterp spec fn f_sub(a: F, b: F) -> F;
pub broadcast axiom fn axiom_sub(a: F, b: F) ensures rounded(#[trigger] f_sub(a, b), rr(a) - rr(b));
impl core::ops::Sub for F { type Output = F; #[verifier::external_body] fn sub(self, o: F) -> F { F(self.0 - o.0) } }
impl vstd::std_specs::ops::SubSpecImpl for F {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: F) -> bool { true }
    open spec fn sub_spec(self, rhs: F) -> F { f_sub(self, rhs) }
}
pub uninterp spec fn f_mul(a: F, b: F) -> F;
pub broadcast axiom fn axiom_mul(a: F, b: F) ensures rounded(#[trigger] f_mul(a, b), rr(a) * rr(b));
impl core::ops::Mul for F { type Output = F; #[verifier::external_body] fn mul(self, o: F) -> F { F(self.0 * o.0) } }
impl vstd::std_specs::ops::MulSpecImpl for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> F { f_mul(self, rhs) }
}
pub uninterp spec fn f_div(a: F, b: F) -> F;
pub broadcast axiom fn axiom_div(a: F, b: F) requires rr(b) > 0real
ensures rounded(#[trigger] f_div(a, b), rr(a) / rr(b));
impl core::ops::Div for F { type Output = F; #[verifier::external_body] fn div(self, o: F) -> F { F(self.0 / o.0) } }
impl vstd::std_specs::ops::DivSpecImpl for F {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { true }
    open spec fn div_spec(self, rhs: F) -> F { f_div(self, rhs) }
}
#[verifier::external_body]
pub fn x_lit(a: i64) -> (r: F) ensures -9007199254740992 <= a <= 9007199254740992 ==> rr(r) == a as int as real, { F(a as f64) }
#[verifier::external_body]
pub fn x_of_int(a: i64) -> (r: F) ensures -9007199254740992 <= a <= 9007199254740992 ==> rr(r) == a as int as real, { F(a as f64) }
#[verifier::external_body]
pub fn x_u64_f64(a: u64) -> (r: F) ensures a <= 9007199254740992 ==> rr(r) == a as int as real, { F(a as f64) }
#[verifier::external_body]
pub fn x_f64_u64(a: F) -> (r: u64) ensures forall|n: int| 0 <= n <= 9007199254740992 && #[trigger] mark(n) && is_n(rr(a), n) ==> r == n, { a.0 as u64 }
#[verifier::external_body]
pub fn x_f64_i64(a: F) -> (r: i64) ensures forall|n: int| -9007199254740992 <= n <= 9007199254740992 && #[trigger] mark(n) && is_n(rr(a), n) ==> r == n, { a.0 as i64 }
// nearest whole number
impl F {
#[verifier::external_body]
pub fn round(self) -> (r: F) ensures forall|n: int| -9007199254740992 <= n <= 9007199254740992 && #[trigger] mark(n) && about(rr(self), n) ==> is_n(rr(r), n), { F(self.0.round()) }
}
#[verifier::external_body]
pub fn x_is_zero(a: F) -> (r: bool) ensures r == (rr(a) == 0real), { a.0 == 0.0 }
pub uninterp spec fn f0() -> F;
pub uninterp spec fn f1() -> F;
#[verifier::external_body]
pub fn x_f0() -> (r: F) ensures r == f0(), { F(0.0) }
#[verifier::external_body]
pub fn x_f1() -> (r: F) ensures r == f1(), { F(1.0) }
pub open spec fn at(v: Seq<F>, i: int) -> F { if i < v.len() { v[i] } else { f0() } }

// ---- std and chrono: whole seconds on one line of time
pub struct StdDuration { pub s: u64 }
impl StdDuration {
    pub fn as_secs(&self) -> (r: u64) ensures r == self.s, { self.s }
    pub fn from_secs(s: u64) -> (r: Self) ensures r.s == s, { StdDuration { s } }
}
pub struct ChronoDuration { pub s: i64 }
impl ChronoDuration {
    pub fn seconds(s: i64) -> (r: Self) ensures r.s == s, { ChronoDuration { s } }
    pub fn num_seconds(&self) -> (r: i64) ensures r == self.s, { self.s }
}
#[verifier::external_body]
pub fn x_try_seconds(s: i64) -> (r: ChronoDuration) ensures in_range(s as int) ==> r.s == s, { unimplemented!() }
pub fn x_positive(d: &ChronoDuration) -> (r: bool) ensures r == (0 < d.s), { 0 < d.s }
#[derive(Clone, Copy)]
pub struct DateTime { pub s: i64 }
impl DateTime {
    #[verifier::external_body]
    pub fn signed_duration_since(&self, o: DateTime) -> (r: ChronoDuration) ensures r.s == self.s - o.s, { unimplemented!() }
}
pub uninterp spec fn ymd(y: int, mo: int, d: int, h: int, mi: int, s: int) -> int;
#[verifier::external_body]
pub fn x_ymd<T>(z: &T, y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32) -> (r: DateTime) ensures r.s == ymd(y as int, mo as int, d as int, h as int, mi as int, s as int), { unimplemented!() }
#[verifier::external_body]
pub fn x_add_or(e: DateTime, d: ChronoDuration) -> (r: DateTime) ensures d.s >= 0 ==> r.s >= e.s, in_range(d.s as int) ==> r.s == e.s + d.s, { unimplemented!() }
pub struct Local;
pub struct Utc;

// the dates claimed: 1900-01-01 and 2^38 seconds (over 8700 years) from it
pub open spec fn in_range(n: int) -> bool { 0 <= n < 274877906944 }
// the double is within a quarter of a second of day number 2415021 + n/86400
pub open spec fn near(x: real, n: int) -> bool { mark(n) && rabs((x - 2415021real) * 86400real - (n as real)) <= 0.25real }

pub broadcast proof fn lemma_div_24(a: F, b: F) requires rr(b) == 24real, rr(a) >= 0real
    ensures rabs(rr(#[trigger] f_div(a, b)) * 24real - rr(a)) * 9007199254740992real <= rr(a), rr(f_div(a, b)) >= 0real
{ axiom_div(a, b); let q = rr(a) / 24real; assert(rr(a) / rr(b) == q); assert(q * 24real == rr(a)); assert(q >= 0real); }
pub broadcast proof fn lemma_mul_24(a: F, b: F) requires rr(b) == 24real
    ensures rabs(rr(#[trigger] f_mul(a, b)) - rr(a) * 24real) * 9007199254740992real <= rabs(rr(a) * 24real)
{ axiom_mul(a, b); }
pub broadcast proof fn lemma_div_60(a: F, b: F) requires rr(b) == 60real, rr(a) >= 0real
    ensures rabs(rr(#[trigger] f_div(a, b)) * 60real - rr(a)) * 9007199254740992real <= rr(a), rr(f_div(a, b)) >= 0real
{ axiom_div(a, b); let q = rr(a) / 60real; assert(rr(a) / rr(b) == q); assert(q * 60real == rr(a)); assert(q >= 0real); }
pub broadcast proof fn lemma_mul_60(a: F, b: F) requires rr(b) == 60real
    ensures rabs(rr(#[trigger] f_mul(a, b)) - rr(a) * 60real) * 9007199254740992real <= rabs(rr(a) * 60real)
{ axiom_mul(a, b); }
pub broadcast proof fn lemma_div_3600(a: F, b: F) requires rr(b) == 3600real, rr(a) >= 0real
    ensures rabs(rr(#[trigger] f_div(a, b)) * 3600real - rr(a)) * 9007199254740992real <= rr(a), rr(f_div(a, b)) >= 0real
{ axiom_div(a, b); let q = rr(a) / 3600real; assert(rr(a) / rr(b) == q); assert(q * 3600real == rr(a)); assert(q >= 0real); }
pub broadcast proof fn lemma_mul_3600(a: F, b: F) requires rr(b) == 3600real
    ensures rabs(rr(#[trigger] f_mul(a, b)) - rr(a) * 3600real) * 9007199254740992real <= rabs(rr(a) * 3600real)
{ axiom_mul(a, b); }
pub broadcast proof fn lemma_div_1440(a: F, b: F) requires rr(b) == 1440real, rr(a) >= 0real
    ensures rabs(rr(#[trigger] f_div(a, b)) * 1440real - rr(a)) * 9007199254740992real <= rr(a), rr(f_div(a, b)) >= 0real
{ axiom_div(a, b); let q = rr(a) / 1440real; assert(rr(a) / rr(b) == q); assert(q * 1440real == rr(a)); assert(q >= 0real); }
pub broadcast proof fn lemma_mul_1440(a: F, b: F) requires rr(b) == 1440real
    ensures rabs(rr(#[trigger] f_mul(a, b)) - rr(a) * 1440real) * 9007199254740992real <= rabs(rr(a) * 1440real)
{ axiom_mul(a, b); }
pub broadcast proof fn lemma_div_86400(a: F, b: F) requires rr(b) == 86400real, rr(a) >= 0real
    ensures rabs(rr(#[trigger] f_div(a, b)) * 86400real - rr(a)) * 9007199254740992real <= rr(a), rr(f_div(a, b)) >= 0real
{ axiom_div(a, b); let q = rr(a) / 86400real; assert(rr(a) / rr(b) == q); assert(q * 86400real == rr(a)); assert(q >= 0real); }
pub broadcast proof fn lemma_mul_86400(a: F, b: F) requires rr(b) == 86400real
    ensures rabs(rr(#[trigger] f_mul(a, b)) - rr(a) * 86400real) * 9007199254740992real <= rabs(rr(a) * 86400real)
{ axiom_mul(a, b); }
pub broadcast group group_f { mark_all, axiom_add, axiom_sub, lemma_div_24, lemma_mul_24, lemma_div_60, lemma_mul_60, lemma_div_3600, lemma_mul_3600, lemma_div_1440, lemma_mul_1440, lemma_div_86400, lemma_mul_86400 }
