from pieces import Module, types
from textio import *


def build(repo, spec):
    m = Module(repo, spec)
    e = types(repo)
    m.raw(e[0][:e[0].index('pub struct CodePairPutBack')])
    m.s('bytes.rs', 'text.rs')
    read_line(m, repo)
    parse_fns(m, repo)
    m.raw("""
// THEOREM: a line reads the same with CR LF, with LF, at the end of the file, and behind a byte order mark; a number the same with blanks around it
fn lines_agree(a: &mut XReader, b: &mut XReader, c: &mut XReader, d: &mut XReader, e: XEnc, Ghost(t): Ghost<Seq<char>>, Ghost(tail): Ghost<Seq<u8>>)
    requires
        no_eol(t), t.len() > 0, (t[0] as u32) < 0x80, is_utf8(e) || (is_1252(e) && ascii(t)), sound(*old(a)), sound(*old(b)), sound(*old(c)), sound(*old(d)),
        rest(*old(a)) == utf8(t + eol()) + tail, rest(*old(b)) == utf8(t).push(10u8) + tail, rest(*old(c)) == utf8(t), rest(*old(d)) == (seq![0xEFu8, 0xBBu8, 0xBFu8] + utf8(t)).push(10u8) + tail,
        rest(*old(a)).len() < usize::MAX, rest(*old(d)).len() < usize::MAX, rest(*old(b)).len() < usize::MAX, rest(*old(c)).len() < usize::MAX,
{
    proof { theorem_line(t, tail, true, e); theorem_bom(utf8(t)); axiom_utf8_eol(t); axiom_decode(e, t);
        let m = seq![0xEFu8, 0xBBu8, 0xBFu8] + utf8(t); let s = m.push(10u8) + tail;
        assert forall|j: int| 0 <= j < m.len() implies #[trigger] s[j] != 10 by { if j >= 3 { assert(s[j] == utf8(t)[j - 3]); } }
        lemma_nl(s, m.len() as int); assert(s.take(m.len() as int) =~= m); assert(s.skip(m.len() as int + 1) =~= tail);
        assert(strip_cr(t) =~= t) by { assert(t.last() as u32 != 13); } }
    let x = read_line(a, true, e);
    let y = read_line(b, true, e);
    let z = read_line(c, true, e);
    let w = read_line(d, true, e);
    assert(x is Ok && y is Ok && z is Ok && w is Ok && x->Ok_0@ == t && y->Ok_0@ == t && z->Ok_0@ == t && w->Ok_0@ == t);
    assert(rest(*a) == tail && rest(*b) == tail && rest(*d) == tail);
    /*CANARY*/
}
""")
    return m.done()
