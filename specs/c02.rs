// C02: specification of the \U+XXXX notation, and the inverse lemma.
pub open spec fn hexdig(c: char) -> Option<u32> {
    let n = c as u32;
    if 0x30 <= n <= 0x39 { Some((n - 0x30) as u32) } else if 0x41 <= n <= 0x46 { Some((n - 0x37) as u32) }
    else if 0x61 <= n <= 0x66 { Some((n - 0x57) as u32) } else { None }
}
// upper-case hexadecimal digit of d < 16
pub open spec fn hexch(d: u32) -> char { if d < 10 { (0x30 + d) as u8 as char } else { (0x37 + d) as u8 as char } }
pub open spec fn fmt_u4(x: u32) -> Seq<char> {
    seq!['\\', 'U', '+', hexch(x / 0x1000), hexch((x / 0x100) % 16), hexch((x / 0x10) % 16), hexch(x % 16)]
}
// the code unit of the escape sequence at the front of s
pub open spec fn unit0(s: Seq<char>) -> Option<u32> {
    if s.len() >= 7 && s[0] == '\\' && s[1] == 'U' && s[2] == '+' && hexdig(s[3]) is Some && hexdig(s[4]) is Some
        && hexdig(s[5]) is Some && hexdig(s[6]) is Some {
        Some((hexdig(s[3])->0 * 0x1000 + hexdig(s[4])->0 * 0x100 + hexdig(s[5])->0 * 0x10 + hexdig(s[6])->0) as u32)
    } else { None }
}
pub open spec fn uenc1(s: Seq<char>) -> Seq<char> {
    let b = s[0] as u32;
    if b >= 0x10000 { fmt_u4((0xD800 + (b - 0x10000) / 0x400) as u32) + fmt_u4((0xDC00 + (b - 0x10000) % 0x400) as u32) }
    else if b >= 128 || unit0(s) is Some { fmt_u4(b) }
    else { seq![s[0]] }
}
pub open spec fn enc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { uenc1(s) + enc(s.skip(1)) }
}
pub open spec fn to_char(n: u32) -> char { if is_scalar(n) { char_of(n) } else { '?' } }
// the character with scalar value n (characterised by its code point)
pub open spec fn cu(c: char) -> u32 { c as u32 }
pub open spec fn char_of(n: u32) -> char { choose|c: char| #[trigger] cu(c) == n }
pub open spec fn dec(t: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { seq![] } else {
        match unit0(t) {
            Some(u) => {
                let low = unit0(t.skip(7));
                if 0xD800 <= u < 0xDC00 && low is Some && 0xDC00 <= low->0 < 0xE000 {
                    if t.skip(7).len() >= 7 {
                        seq![to_char((0x10000 + (u - 0xD800) * 0x400 + (low->0 - 0xDC00)) as u32)] + dec(t.skip(14))
                    } else { seq![] }
                } else { seq![to_char(u)] + dec(t.skip(7)) }
            },
            None => seq![t[0]] + dec(t.skip(1)),
        }
    }
}
// ---- assumed contracts on the standard library ----
#[verifier::external_body]
fn x_fmt_u4(x: u32) -> (r: String)
    requires x <= 0xFFFF,
    ensures r@ == fmt_u4(x),
{ format!("\\U+{:04X}", x) }
#[verifier::external_body]
fn x_to_digit16(c: char) -> (r: Option<u32>) ensures r == hexdig(c), { c.to_digit(16) }
#[verifier::external_body]
fn x_append(s: &mut String, t: &String) ensures final(s)@ == old(s)@ + t@, { s.push_str(t) }
fn x_in(n: &u32, lo: u32, hi: u32) -> (r: bool) ensures r == (lo <= *n < hi), { lo <= *n && *n < hi }
fn x_unwrap_or(o: Option<char>, d: char) -> (r: char) ensures r == (match o { Some(c) => c, None => d }), { match o { Some(c) => c, None => d } }

pub proof fn lemma_char_of(c: char) ensures char_of(c as u32) == c, to_char(c as u32) == c, is_scalar(c as u32) {
    assert(cu(c) == c as u32);
    let d = char_of(c as u32);
    assert(cu(d) == c as u32);
    assert(d as u32 == c as u32);
    assert(d == c);
}
pub proof fn lemma_hex(d: u32) requires d < 16, ensures hexdig(hexch(d)) == Some(d), (hexch(d) as u32) < 128, hexch(d) != '\\' {
    if d < 10 { let k = (0x30 + d) as u8; assert(k == 0x30 + d); assert(hexch(d) as u32 == 0x30 + d); }
    else { let k = (0x37 + d) as u8; assert(k == 0x37 + d); assert(hexch(d) as u32 == 0x37 + d); }
}
pub proof fn lemma_unit_fmt(x: u32, rest: Seq<char>)
    requires x <= 0xFFFF,
    ensures unit0(fmt_u4(x) + rest) == Some(x), (fmt_u4(x) + rest).skip(7) =~= rest, fmt_u4(x).len() == 7,
        forall|j: int| 0 <= j < 7 ==> (#[trigger] fmt_u4(x)[j] as u32) < 128,
{
    let a = x / 0x1000; let b = (x / 0x100) % 16; let c = (x / 0x10) % 16; let d = x % 16;
    assert(a < 16 && a * 0x1000 + b * 0x100 + c * 0x10 + d == x) by (nonlinear_arith)
        requires x <= 0xFFFF, a == x / 0x1000, b == (x / 0x100) % 16, c == (x / 0x10) % 16, d == x % 16;
    lemma_hex(a); lemma_hex(b); lemma_hex(c); lemma_hex(d);
    let s = fmt_u4(x) + rest;
    assert(s[0] == '\\' && s[1] == 'U' && s[2] == '+' && s[3] == hexch(a) && s[4] == hexch(b) && s[5] == hexch(c) && s[6] == hexch(d));
}
// when the encoding of r starts with something other than a backslash, that is r's own first character
pub proof fn lemma_plain_head(r: Seq<char>)
    requires enc(r).len() > 0, enc(r)[0] != '\\',
    ensures r.len() > 0, r[0] == enc(r)[0], enc(r).skip(1) =~= enc(r.skip(1)),
{
    let b = r[0] as u32;
    if b >= 0x10000 { assert(enc(r)[0] == '\\'); } else if b >= 128 || unit0(r) is Some { assert(enc(r)[0] == '\\'); }
}
pub proof fn lemma_no_fake(s: Seq<char>)
    requires s.len() > 0, unit0(s) is None, (s[0] as u32) < 128,
    ensures unit0(seq![s[0]] + enc(s.skip(1))) is None,
{
    let t = seq![s[0]] + enc(s.skip(1));
    if unit0(t) is Some {
        let r0 = s.skip(1);
        assert(t[0] == '\\' && t[1] == 'U' && t[2] == '+');
        assert forall|k: int| 1 <= k < 7 implies t[k] != '\\' by {}
        assert(enc(r0)[0] == t[1]); lemma_plain_head(r0);
        let r1 = r0.skip(1); assert(enc(r1)[0] == enc(r0)[1] && enc(r0)[1] == t[2]); lemma_plain_head(r1);
        let r2 = r1.skip(1); assert(enc(r2)[0] == enc(r1)[1] && enc(r1)[1] == enc(r0)[2] && enc(r0)[2] == t[3]); lemma_plain_head(r2);
        let r3 = r2.skip(1); assert(enc(r3)[0] == enc(r2)[1] && enc(r2)[1] == enc(r1)[2] && enc(r1)[2] == enc(r0)[3] && enc(r0)[3] == t[4]); lemma_plain_head(r3);
        let r4 = r3.skip(1); assert(enc(r4)[0] == enc(r3)[1] && enc(r3)[1] == enc(r2)[2] && enc(r2)[2] == enc(r1)[3] && enc(r1)[3] == enc(r0)[4] && enc(r0)[4] == t[5]); lemma_plain_head(r4);
        let r5 = r4.skip(1); assert(enc(r5)[0] == enc(r4)[1] && enc(r4)[1] == enc(r3)[2] && enc(r3)[2] == enc(r2)[3] && enc(r2)[3] == enc(r1)[4] && enc(r1)[4] == enc(r0)[5] && enc(r0)[5] == t[6]); lemma_plain_head(r5);
        assert(r1[0] == s[2] && r2[0] == s[3] && r3[0] == s[4] && r4[0] == s[5] && r5[0] == s[6] && r0[0] == s[1]);
        assert(s.len() >= 7);
        assert(unit0(s) is Some);
    }
}
// THEOREM: decoding the encoded text gives the text back, for every text.
pub proof fn theorem_unicode_inverse(s: Seq<char>)
    ensures dec(enc(s)) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let c = s[0]; let b = c as u32; let rest = s.skip(1);
        theorem_unicode_inverse(rest);
        lemma_char_of(c);
        assert(seq![c] + rest =~= s);
        if b >= 0x10000 {
            let hi = (0xD800 + (b - 0x10000) / 0x400) as u32; let lo = (0xDC00 + (b - 0x10000) % 0x400) as u32;
            let t2 = fmt_u4(lo) + enc(rest);
            assert(b <= 0x10FFFF);
            lemma_unit_fmt(hi, t2); lemma_unit_fmt(lo, enc(rest));
            assert(enc(s) =~= fmt_u4(hi) + t2);
            assert(enc(s).skip(7) =~= t2); assert(enc(s).skip(14) =~= enc(rest));
            assert(0x10000 + (hi - 0xD800) * 0x400 + (lo - 0xDC00) == b) by (nonlinear_arith)
                requires 0x10000 <= b <= 0x10FFFF, hi == 0xD800 + (b - 0x10000) / 0x400, lo == 0xDC00 + (b - 0x10000) % 0x400;
        } else if b >= 128 || unit0(s) is Some {
            lemma_unit_fmt(b, enc(rest));
            assert(enc(s) =~= fmt_u4(b) + enc(rest));
            assert(enc(s).skip(7) =~= enc(rest));
        } else {
            lemma_no_fake(s);
            assert(enc(s) =~= seq![c] + enc(rest));
            assert(enc(s).skip(1) =~= enc(rest));
        }
    }
}
// THEOREM: the encoded text is ASCII.
pub proof fn theorem_ascii(s: Seq<char>)
    ensures forall|j: int| 0 <= j < enc(s).len() ==> (#[trigger] enc(s)[j] as u32) < 128,
    decreases s.len(),
{
    if s.len() > 0 {
        theorem_ascii(s.skip(1));
        let b = s[0] as u32;
        lemma_char_of(s[0]);
        if b >= 0x10000 {
            let hi = (0xD800 + (b - 0x10000) / 0x400) as u32; let lo = (0xDC00 + (b - 0x10000) % 0x400) as u32;
            lemma_unit_fmt(hi, seq![]); lemma_unit_fmt(lo, seq![]);
            assert forall|j: int| 0 <= j < 14 implies (#[trigger] uenc1(s)[j] as u32) < 128 by {
                if j < 7 { assert(uenc1(s)[j] == fmt_u4(hi)[j]); } else { assert(uenc1(s)[j] == fmt_u4(lo)[j - 7]); }
            }
        } else if b >= 128 || unit0(s) is Some { lemma_unit_fmt(b, seq![]); }
        assert forall|j: int| 0 <= j < enc(s).len() implies (#[trigger] enc(s)[j] as u32) < 128 by {
            if j < uenc1(s).len() { assert(enc(s)[j] == uenc1(s)[j]); }
            else { assert(enc(s)[j] == enc(s.skip(1))[j - uenc1(s).len()]); }
        }
    }
}
