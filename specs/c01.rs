// C01: specification of the caret notation, and the inverse lemma.
pub open spec fn caret() -> char { '^' }
pub open spec fn ctrl(c: char) -> bool { (c as u32) <= 0x1F || c == '^' }
pub open spec fn esc_letter(c: char) -> char { if c == '^' { ' ' } else { (0x40 + (c as u32)) as u8 as char } }
pub open spec fn esc1(c: char) -> Seq<char> { if ctrl(c) { seq!['^', esc_letter(c)] } else { seq![c] } }
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { esc(s.drop_last()) + esc1(s.last()) }
}
// the character that `^x` stands for
pub open spec fn unesc_letter(x: char) -> Option<char> {
    let n = x as u32;
    if x == ' ' { Some('^') } else if 0x40 <= n <= 0x5F { Some((n - 0x40) as u8 as char) } else { None }
}
// state of the decoder after a prefix: (text so far, a caret is pending)
pub open spec fn st(s: Seq<char>) -> (Seq<char>, bool) decreases s.len() {
    if s.len() == 0 { (seq![], false) } else {
        let p = st(s.drop_last());
        let c = s.last();
        if !p.1 { if c == '^' { (p.0, true) } else { (p.0.push(c), false) } }
        else { match unesc_letter(c) { Some(d) => (p.0.push(d), false), None => (p.0.push(c), false) } }
    }
}
pub open spec fn unesc(s: Seq<char>) -> Seq<char> { let p = st(s); if p.1 { p.0.push('^') } else { p.0 } }

pub proof fn lemma_take_step(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures s.take(i + 1).drop_last() == s.take(i), s.take(i + 1).last() == s[i], s.take(i + 1).len() == i + 1,
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_st_push(a: Seq<char>, x: char)
    ensures st(a.push(x)) == ({
        let p = st(a);
        if !p.1 { if x == '^' { (p.0, true) } else { (p.0.push(x), false) } }
        else { match unesc_letter(x) { Some(d) => (p.0.push(d), false), None => (p.0.push(x), false) } } }),
{ assert(a.push(x).drop_last() =~= a); }
pub proof fn lemma_st_plain(s: Seq<char>)
    requires forall|j: int| 0 <= j < s.len() ==> s[j] != '^',
    ensures st(s) == (s, false),
    decreases s.len(),
{ if s.len() > 0 { lemma_st_plain(s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); } }
pub proof fn lemma_letter(c: char)
    requires ctrl(c),
    ensures unesc_letter(esc_letter(c)) == Some(c), !((esc_letter(c) as u32) <= 0x1F),
{
    let n = c as u32;
    if c != '^' {
        assert(n <= 0x1F);
        let k = (0x40 + n) as u8;
        assert(k == 0x40 + n);
        assert(esc_letter(c) as u32 == 0x40 + n);
        assert((n as u8) as char == c);
        assert(((esc_letter(c) as u32) - 0x40) as u8 == n as u8);
    }
}
// THEOREM: decoding the encoded text gives the text back, for every text.
pub proof fn theorem_inverse(s: Seq<char>)
    ensures st(esc(s)) == (s, false), unesc(esc(s)) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let i = s.drop_last();
        let c = s.last();
        theorem_inverse(i);
        assert(i.push(c) =~= s);
        if ctrl(c) {
            lemma_letter(c);
            lemma_st_push(esc(i), '^');
            lemma_st_push(esc(i).push('^'), esc_letter(c));
            assert(esc(s) =~= esc(i).push('^').push(esc_letter(c)));
        } else {
            lemma_st_push(esc(i), c);
            assert(esc(s) =~= esc(i).push(c));
        }
    }
}
// THEOREM: the encoded text holds no character below U+0020 (so no CR, LF or NUL can leak into the file).
pub proof fn theorem_no_control(s: Seq<char>)
    ensures forall|j: int| 0 <= j < esc(s).len() ==> (#[trigger] esc(s)[j] as u32) > 0x1F,
    decreases s.len(),
{
    if s.len() > 0 {
        theorem_no_control(s.drop_last());
        if ctrl(s.last()) { lemma_letter(s.last()); }
        assert forall|j: int| 0 <= j < esc(s).len() implies (#[trigger] esc(s)[j] as u32) > 0x1F by {
            if j < esc(s.drop_last()).len() { assert(esc(s)[j] == esc(s.drop_last())[j]); }
            else { assert(esc(s)[j] == esc1(s.last())[j - esc(s.drop_last()).len()]); }
        }
    }
}
