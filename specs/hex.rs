// ---- hexadecimal text ----
pub open spec fn hv(c: char) -> int {
    if '0' <= c && c <= '9' { c as u32 - '0' as u32 }
    else if 'A' <= c && c <= 'F' { c as u32 - 'A' as u32 + 10 }
    else if 'a' <= c && c <= 'f' { c as u32 - 'a' as u32 + 10 }
    else { -1 }
}
pub open spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] hv(s[i]) >= 0 }
pub open spec fn hd(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' }
    else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else if n == 9 { '9' } else if n == 10 { 'A' } else if n == 11 { 'B' }
    else if n == 12 { 'C' } else if n == 13 { 'D' } else if n == 14 { 'E' } else { 'F' }
}
pub proof fn lemma_hd(n: int) requires 0 <= n < 16, ensures hv(hd(n)) == n, {}
// pairing of hex digits from the right: (bytes, a high digit is pending, that digit)
pub open spec fn hst(odd: bool, s: Seq<char>) -> (Seq<u8>, bool, u8)
    decreases s.len()
{
    if s.len() == 0 { (seq![], odd, 0u8) } else {
        let p = hst(odd, s.drop_last());
        let v = hv(s.last()) as u8;
        if p.1 { (p.0.push((p.2 * 16 + v) as u8), false, p.2) } else { (p.0, true, v) }
    }
}
pub open spec fn hexs(s: Seq<char>) -> Seq<u8> { hst(s.len() % 2 != 0, s).0 }
pub proof fn lemma_hst(odd: bool, s: Seq<char>)
    requires all_hex(s),
    ensures hst(odd, s).2 < 16, hst(odd, s).0.len() == (s.len() + if odd { 1int } else { 0int }) / 2, hst(odd, s).1 == ((s.len() % 2 != 0) != odd),
    decreases s.len(),
{ if s.len() > 0 { lemma_hst(odd, s.drop_last()); assert(hv(s.last()) >= 0); } }
// the text that the writer makes of bytes
pub open spec fn hx(b: Seq<u8>) -> Seq<char>
    decreases b.len()
{ if b.len() == 0 { seq![] } else { hx(b.drop_last()) + hx2(b.last()) } }
pub open spec fn hx2(b: u8) -> Seq<char> { seq![hd(b as int / 16), hd(b as int % 16)] }
pub proof fn lemma_hx(b: Seq<u8>)
    ensures hx(b).len() == 2 * b.len(), all_hex(hx(b)), hexs(hx(b)) == b,
    decreases b.len(),
{
    if b.len() > 0 {
        let p = b.drop_last();
        lemma_hx(p);
        let s = hx(p);
        let x = b.last() as int;
        lemma_hd(x / 16); lemma_hd(x % 16);
        let t = hx(b);
        assert(t.drop_last() =~= s.push(hd(x / 16)));
        assert(t.drop_last().drop_last() =~= s);
        assert(t.last() == hd(x % 16) && t.drop_last().last() == hd(x / 16));
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] hv(t[i]) >= 0 by { if i < s.len() { assert(t[i] == s[i]); } else if i == s.len() { assert(t[i] == hd(x / 16)); } else { assert(t[i] == hd(x % 16)); } }
        lemma_hst(false, s);
        assert(hst(false, t.drop_last()) == (p, true, (x / 16) as u8));
        assert(((x / 16) as u8 * 16 + (x % 16) as u8) as u8 == b.last());
        assert(hst(false, t).0 == p.push(b.last()));
        assert(p.push(b.last()) =~= b);
    }
}
// the number that bytes denote, most significant first
pub open spec fn be(b: Seq<u8>) -> int
    decreases b.len()
{ if b.len() == 0 { 0 } else { be(b.drop_last()) * 256 + b.last() } }
pub open spec fn hexn(n: int) -> Seq<char>
    decreases n
{ if n < 16 { seq![hd(n)] } else { hexn(n / 16).push(hd(n % 16)) } }
pub open spec fn p16(k: nat) -> int decreases k { if k == 0 { 1 } else { 16 * p16((k - 1) as nat) } }
pub proof fn lemma_hexn_len(n: int, k: nat)
    requires 0 <= n < p16(k), k > 0,
    ensures hexn(n).len() <= k, hexn(n).len() >= 1,
    decreases n,
{ if n >= 16 { if k == 1 { reveal_with_fuel(p16, 2); assert(false); } lemma_hexn_len(n / 16, (k - 1) as nat); } }
pub proof fn lemma_hexn(n: int)
    requires n >= 0,
    ensures all_hex(hexn(n)), be(hexs(hexn(n))) == n,
    decreases n,
{
    let t = hexn(n);
    if n < 16 {
        lemma_hd(n);
        assert(t.drop_last() =~= seq![]);
        assert(hst(true, t.drop_last()) == (Seq::<u8>::empty(), true, 0u8));
        assert(hexs(t) =~= seq![n as u8]);
        assert(seq![n as u8].drop_last() =~= seq![]);
        assert(be(Seq::<u8>::empty()) == 0);
    } else if n < 256 {
        lemma_hd(n / 16); lemma_hd(n % 16);
        assert(hexn(n / 16) == seq![hd(n / 16)]);
        assert(t =~= seq![hd(n / 16), hd(n % 16)]);
        assert(t.drop_last() =~= seq![hd(n / 16)]);
        assert(t.drop_last().drop_last() =~= seq![]);
        assert(hst(false, t.drop_last().drop_last()) == (Seq::<u8>::empty(), false, 0u8));
        assert(hst(false, t.drop_last()) == (Seq::<u8>::empty(), true, (n / 16) as u8));
        assert(hexs(t) =~= seq![n as u8]);
        assert(seq![n as u8].drop_last() =~= seq![]);
        assert(be(Seq::<u8>::empty()) == 0);
    } else {
        let m = n / 256;
        let d1 = (n / 16) % 16;
        let d0 = n % 16;
        lemma_hexn(m);
        lemma_hd(d1); lemma_hd(d0);
        assert(n / 16 / 16 == m);
        let s = hexn(m);
        assert(hexn(n / 16) == s.push(hd(d1)));
        assert(t.drop_last() =~= s.push(hd(d1)));
        assert(t.drop_last().drop_last() =~= s);
        let odd = s.len() % 2 != 0;
        lemma_hst(odd, s);
        assert(t.len() == s.len() + 2);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] hv(t[i]) >= 0 by { if i < s.len() { assert(t[i] == s[i]); } }
        assert(hst(odd, t.drop_last()) == (hexs(s), true, d1 as u8));
        let l = (d1 as u8 * 16 + d0 as u8) as u8;
        assert(hexs(t) == hexs(s).push(l));
        assert(hexs(s).push(l).drop_last() =~= hexs(s));
        assert(be(hexs(t)) == be(hexs(s)) * 256 + l);
    }
}
pub proof fn lemma_be_pad(b: Seq<u8>)
    ensures be(seq![0u8] + b) == be(b),
    decreases b.len(),
{
    if b.len() == 0 { assert((seq![0u8] + b).drop_last() =~= seq![]); assert(be(Seq::<u8>::empty()) == 0); assert((seq![0u8] + b).last() == 0u8); }
    else { lemma_be_pad(b.drop_last()); assert((seq![0u8] + b).drop_last() =~= seq![0u8] + b.drop_last()); }
}
pub uninterp spec fn is_white(c: char) -> bool;
pub axiom fn axiom_hex_not_white(c: char) ensures hv(c) >= 0 ==> !is_white(c);
#[verifier::external_body]
pub fn x_str_len(s: &str) -> (r: usize) ensures all_hex(s@) ==> r == s@.len(), { s.len() }
#[verifier::external_body]
pub fn x_trim(s: &String) -> (r: &str) ensures s@.len() == 0 || (!is_white(s@[0]) && !is_white(s@.last())) ==> r@ == s@, { s.trim() }
#[verifier::external_body]
pub fn x_be_u64(b: &Vec<u8>) -> (r: u64) requires b@.len() >= 8, ensures r == be(b@.take(8)), { unimplemented!() }
#[verifier::external_body]
pub fn x_fmt_hex(n: u64) -> (r: String) ensures r@ == hexn(n as int), { format!("{:X}", n) }
#[verifier::external_body]
pub fn x_fmt_hex2(b: u8) -> (r: String) ensures r@ == hx2(b), { format!("{:02X}", b) }
#[verifier::external_body]
pub fn x_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@, { s.push_str(t) }
