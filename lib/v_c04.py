from pieces import Module, types, versions, code_pair, hex_fns
from binio import writer_struct, expected
from textio import *
import v_c01
import v_c02


def text_base(m, repo, spec):
    e = types(repo)
    m.raw(e[0][:e[0].index('pub struct CodePairPutBack')])
    t = spec('pairs.rs')
    m.raw(t[:t.index('// ---- the source behind')] + t[t.index('#[verifier::external_body]\npub fn x_eq'):])
    m.add(versions(repo))
    b = spec('bin.rs')
    m.raw(b[b.index('pub ghost enum Kind'):b.index('pub proof fn lemma_enc_empty')])
    m.s('bytes.rs', 'text.rs')
    m.add(code_pair(repo))
    m.add(v_c01.piece(repo, spec))
    m.add(v_c02.piece(repo, spec))
    m.s('hex.rs')
    m.add(hex_fns(repo))
    m.s('textval.rs')


def build(repo, spec):
    m = Module(repo, spec)
    text_base(m, repo, spec)
    expected(m, repo)
    read_line(m, repo)
    parse_fns(m, repo)
    value_text(m, repo)
    s = writer_struct(m, repo)
    text_writer(m, repo, s)
    text_reader(m, repo)
    m.raw(TEXT_THEOREM)
    return m.done()


TEXT_THEOREM = r'''
pub open spec fn all_typed(ps: Seq<SP>) -> bool { forall|i: int| 0 <= i < ps.len() ==> typed(#[trigger] ps[i]) }
pub proof fn lemma_file_front(ps: Seq<SP>, a: bool)
    requires ps.len() > 0,
    ensures file_text(ps, a) == pair_text(ps[0], a) + file_text(ps.skip(1), a),
    decreases ps.len(),
{
    if ps.len() == 1 {
        assert(ps.drop_last() =~= Seq::<SP>::empty()); assert(ps.skip(1) =~= Seq::<SP>::empty());
        assert(file_text(Seq::<SP>::empty(), a) =~= Seq::<u8>::empty());
        assert(Seq::<u8>::empty() + pair_text(ps[0], a) =~= pair_text(ps[0], a) + Seq::<u8>::empty());
    } else {
        lemma_file_front(ps.drop_last(), a);
        assert(ps.drop_last().skip(1) =~= ps.skip(1).drop_last());
        lemma_assoc(pair_text(ps[0], a), file_text(ps.skip(1).drop_last(), a), pair_text(ps.last(), a));
    }
}
// THEOREM: the pairs of a text file are read back one by one, to the end of the file
fn theorem_text_file(it: &mut TextCodePairIter, Ghost(ps): Ghost<Seq<SP>>, n: usize, Ghost(a): Ghost<bool>)
    requires
        n == ps.len(), all_typed(ps), sound(old(it).reader), old(it).read_first_line, enc_ok(old(it).string_encoding, a),
        rest(old(it).reader) == file_text(ps, a), old(it).offset + 2 * rest(old(it).reader).len() + 4 <= usize::MAX,
{
    hide(file_text); hide(pair_text); hide(kind); hide(back);
    proof { assert(ps.skip(0) =~= ps); }
    for i in 0..n
        invariant n == ps.len(), all_typed(ps), sound(it.reader), it.read_first_line, enc_ok(it.string_encoding, a), rest(it.reader) == file_text(ps.skip(i as int), a), it.offset + 2 * rest(it.reader).len() + 4 <= usize::MAX,
    {
        proof { lemma_file_front(ps.skip(i as int), a); assert(ps.skip(i as int)[0] == ps[i as int]); assert(ps.skip(i as int).skip(1) =~= ps.skip(i + 1)); assert(typed(ps[i as int])); }
        let r = it.read_code_pair(Ghost(ps[i as int]), Ghost(a), Ghost(file_text(ps.skip(i + 1), a)));
        assert(r is Some && r->Some_0 is Ok && r->Some_0->Ok_0.code == ps[i as int].code && vv(r->Some_0->Ok_0.value) == back(ps[i as int].v));
    }
    proof { reveal(file_text); assert(file_text(ps.skip(n as int), a).len() == 0); }
    let e = it.read_code_pair(Ghost(p_str(0, seq![])), Ghost(a), Ghost(Seq::<u8>::empty()));
    assert(e is None);
    /*CANARY*/
}
// THEOREM: a double whose twelve decimals are all of it is read back exactly
pub proof fn theorem_exact(d: f64) requires parse_d(fix12(d)) == Some(d), ensures back(SV::Double(d)) == SV::Double(d), { }
'''
