"""Specification templates for record readers that take pairs one by one until a stop."""

# %(w)s_step(K, x, p, s): one pair (p) of the record with the pairs that follow (s): the new record and what is left, None: an error
FOLD = """
pub open spec fn %(w)s_fold(%(K)s x: %(T)s, s: St) -> Option<(%(T)s, St)> decreases s.len() {
    if s.len() == 0 { %(end)s } else if s[0] is None { None } else if %(stop)s { Some((x, s)) }
    else { match %(w)s_step(%(k)s x, s[0]->Some_0, s.skip(1)) { None => None, Some((x2, s2)) => if s2.len() < s.len() { %(w)s_fold(%(k)s x2, s2) } else { None } } }
}
// pairs that stand for themselves (they take no others), applied in order
pub open spec fn %(w)s_run(%(K)s x: %(T)s, ps: Seq<SP>) -> Option<%(T)s> decreases ps.len() {
    if ps.len() == 0 { Some(x) } else { match %(w)s_run(%(k)s x, ps.drop_last()) { None => None, Some(y) => if %(w)s_one(ps.last()) { match %(w)s_step(%(k)s y, ps.last(), seq![]) { None => None, Some((z, _)) => Some(z) } } else { None } } }
}
pub proof fn lemma_%(w)s_push(%(K)s x: %(T)s, ps: Seq<SP>, p: SP)
    ensures %(w)s_run(%(k)s x, ps.push(p)) == (match %(w)s_run(%(k)s x, ps) { None => None, Some(y) => if %(w)s_one(p) { match %(w)s_step(%(k)s y, p, seq![]) { None => None, Some((z, _)) => Some(z) } } else { None } }),
{ assert(ps.push(p).drop_last() =~= ps); }
pub proof fn lemma_%(w)s_unfold(%(K)s x: %(T)s, s: St)
    ensures %(w)s_fold(%(k)s x, s) == (if s.len() == 0 { %(end)s } else if s[0] is None { None } else if %(stop)s { Some((x, s)) }
        else { match %(w)s_step(%(k)s x, s[0]->Some_0, s.skip(1)) { None => None, Some((x2, s2)) => if s2.len() < s.len() { %(w)s_fold(%(k)s x2, s2) } else { None } } }),
{ hide(%(w)s_step); }
pub proof fn lemma_%(w)s_run(%(K)s x: %(T)s, ps: Seq<SP>, s: St)
    requires %(w)s_run(%(k)s x, ps) is Some,
    ensures %(w)s_fold(%(k)s x, ok_all(ps) + s) == %(w)s_fold(%(k)s %(w)s_run(%(k)s x, ps)->Some_0, s),
    decreases ps.len(),
{
    hide(%(w)s_step);
    if ps.len() == 0 { assert(ok_all(ps) + s =~= s); }
    else {
        let t = seq![Some(ps.last())] + s;
        assert(ok_all(ps) + s =~= ok_all(ps.drop_last()) + t);
        assert(t[0] == Some(ps.last())); assert(t.skip(1) =~= s);
        lemma_%(w)s_run(%(k)s x, ps.drop_last(), t);
        lemma_%(w)s_one(%(k)s %(w)s_run(%(k)s x, ps.drop_last())->Some_0, ps.last(), s);
    }
}
pub proof fn lemma_%(w)s_one(%(K)s x: %(T)s, p: SP, s: St)
    requires %(w)s_one(p),
    ensures %(w)s_step(%(k)s x, p, s) == (match %(w)s_step(%(k)s x, p, seq![]) { None => None, Some((z, _)) => Some((z, s)) }), !(%(stop1)s),
{ %(one)s }
"""


def fold(w, T, params=(), stop='is0(s)', stop1='p.code == 0', end='None', one='', name_one=None):
    t = FOLD.replace('lemma_%(w)s_one', name_one) if name_one else FOLD
    return t % dict(one=one, w=w, T=T, K=''.join('%s: %s, ' % p for p in params), k=''.join('%s, ' % p[0] for p in params), stop=stop, stop1=stop1, end=end)


def unfold(w, params, x):
    """a proof line that makes runs over pushed pairs unfold"""
    k = ''.join('%s, ' % p for p in params)
    return 'assert forall|ps: Seq<SP>, p: SP| #[trigger] %(w)s_run(%(k)s %(x)s, ps.push(p)) == (match %(w)s_run(%(k)s %(x)s, ps) { None => None, Some(y) => if %(w)s_one(p) { match %(w)s_step(%(k)s y, p, seq![]) { None => None, Some((z, _)) => Some(z) } } else { None } }) by { lemma_%(w)s_push(%(k)s %(x)s, ps, p); }' % dict(w=w, k=k, x=x)
