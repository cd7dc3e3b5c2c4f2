// ---- extension groups: 102 "{name" ... 102 "}" ----
pub ghost enum SG { Pair(SP), Group(Seq<char>, Seq<SG>) }
pub open spec fn gv(x: ExtensionGroupItem) -> SG
    decreases x
{ match x { ExtensionGroupItem::CodePair(p) => SG::Pair(pv(p)), ExtensionGroupItem::Group(g) => SG::Group(g.application_name@, gvs(g.items@)) } }
pub open spec fn gvs(v: Seq<ExtensionGroupItem>) -> Seq<SG>
    decreases v
{ if v.len() == 0 { seq![] } else { gvs(v.drop_last()).push(gv(v.last())) } }
pub proof fn lemma_gvs_push(v: Seq<ExtensionGroupItem>, x: ExtensionGroupItem) ensures gvs(v.push(x)) == gvs(v).push(gv(x)), { assert(v.push(x).drop_last() =~= v); }
pub proof fn lemma_gvs_len(v: Seq<ExtensionGroupItem>) ensures gvs(v).len() == v.len(), decreases v.len(), { if v.len() > 0 { lemma_gvs_len(v.drop_last()); } }
pub open spec fn g_enc(x: SG) -> Seq<SP>
    decreases x
{ match x { SG::Pair(p) => seq![p], SG::Group(n, v) => if v.len() == 0 { seq![] } else { seq![p_str(102, seq!['{'] + n)] + g_encs(v) + seq![p_str(102, seq!['}'])] } } }
pub open spec fn g_encs(v: Seq<SG>) -> Seq<SP>
    decreases v
{ if v.len() == 0 { seq![] } else { g_encs(v.drop_last()) + g_enc(v.last()) } }
pub open spec fn g_h(x: SG) -> nat
    decreases x
{ match x { SG::Group(n, v) => 1 + g_hs(v), _ => 0 } }
pub open spec fn g_hs(v: Seq<SG>) -> nat
    decreases v
{ if v.len() == 0 { 0 } else { let a = g_hs(v.drop_last()); let b = g_h(v.last()); if a > b { a } else { b } } }
// a tree that a file can hold: no empty groups (they are not written), pairs inside are not 102 pairs
pub open spec fn g_ok(x: SG) -> bool
    decreases x
{ match x { SG::Pair(p) => p.code != 102, SG::Group(n, v) => v.len() > 0 && g_oks(v) } }
pub open spec fn g_oks(v: Seq<SG>) -> bool
    decreases v
{ if v.len() == 0 { true } else { g_oks(v.drop_last()) && g_ok(v.last()) } }
pub type St = Seq<Option<SP>>;
pub open spec fn g_close(p: SP) -> bool { p.code == 102 && g_str(p) == Some(seq!['}']) }
pub open spec fn g_open(p: SP) -> bool { p.code == 102 && g_str(p) is Some && g_str(p)->Some_0.len() > 0 && g_str(p)->Some_0[0] == '{' }
// the items of a group at nesting depth `depth` (the outermost group is 0), up to its closing brace
pub open spec fn g_decs(s: St, depth: nat) -> Option<(Seq<SG>, St)>
    decreases s.len()
{
    if s.len() == 0 || s[0] is None { None }
    else if g_close(s[0]->Some_0) { Some((seq![], s.skip(1))) }
    else if s[0]->Some_0.code == 102 {
        if !g_open(s[0]->Some_0) || depth + 1 >= 128 { None } else {
            match g_decs(s.skip(1), depth + 1) {
                Some((v, r)) => if r.len() < s.len() { match g_decs(r, depth) { Some((w, q)) => Some((seq![SG::Group(g_str(s[0]->Some_0)->Some_0.skip(1), v)] + w, q)), None => None } } else { None },
                None => None,
            }
        }
    } else { match g_decs(s.skip(1), depth) { Some((w, q)) => Some((seq![SG::Pair(s[0]->Some_0)] + w, q)), None => None } }
}
pub proof fn lemma_g_len(s: St, depth: nat)
    ensures g_decs(s, depth) is Some ==> g_decs(s, depth)->Some_0.1.len() < s.len(),
    decreases s.len(),
{
    if s.len() == 0 || s[0] is None {} else if g_close(s[0]->Some_0) {} else if s[0]->Some_0.code == 102 {
        if g_open(s[0]->Some_0) && depth + 1 < 128 { lemma_g_len(s.skip(1), depth + 1); match g_decs(s.skip(1), depth + 1) { Some((v, r)) => { lemma_g_len(r, depth); }, None => {} } }
    } else { lemma_g_len(s.skip(1), depth); }
}
pub proof fn lemma_g_inverse(v: Seq<SG>, q: St, rest: St, w: Seq<SG>, depth: nat)
    requires depth + g_hs(v) < 128, g_oks(v), g_decs(q, depth) == Some((w, rest)),
    ensures g_decs(ok_all(g_encs(v)) + q, depth) == Some((v + w, rest)),
    decreases v,
{
    if v.len() == 0 { assert(ok_all(g_encs(v)) + q =~= q); assert(v + w =~= w); }
    else {
        let x = v.last();
        assert(g_ok(x) && g_h(x) <= g_hs(v) && g_hs(v.drop_last()) <= g_hs(v));
        let e = g_enc(x);
        let q2 = ok_all(e) + q;
        match x {
            SG::Pair(p) => {
                assert(q2[0] == Some(p));
                assert(q2.skip(1) =~= q);
            },
            SG::Group(n, u) => {
                let close = p_str(102, seq!['}']);
                let open = p_str(102, seq!['{'] + n);
                assert(q2[0] == Some(open));
                assert((seq!['{'] + n)[0] == '{');
                assert(seq!['}'][0] != '{');
                assert(seq!['{'] + n != seq!['}']);
                let q3 = seq![Some(close)] + q;
                assert(q3[0] == Some(close) && q3.skip(1) =~= q);
                assert(g_decs(q3, depth + 1) == Some((Seq::<SG>::empty(), q)));
                lemma_g_inverse(u, q3, q, Seq::<SG>::empty(), depth + 1);
                assert(u + Seq::<SG>::empty() =~= u);
                assert(q2.skip(1) =~= ok_all(g_encs(u)) + q3);
                assert((seq!['{'] + n).skip(1) =~= n);
            },
        }
        assert(g_decs(q2, depth) == Some((seq![x] + w, rest)));
        lemma_g_inverse(v.drop_last(), q2, rest, seq![x] + w, depth);
        assert(ok_all(g_encs(v)) + q =~= ok_all(g_encs(v.drop_last())) + q2);
        assert(v.drop_last() + (seq![x] + w) =~= v + w);
    }
}
#[verifier::external_body]
pub fn x_starts_with(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c), { s.starts_with(c) }
#[verifier::external_body]
pub fn x_remove0(s: &mut String) requires old(s)@.len() > 0, ensures final(s)@ == old(s)@.skip(1), { s.remove(0); }
#[verifier::external_body]
pub fn x_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@, { s.push_str(t) }
#[verifier::external_body]
pub fn x_pair_clone(p: &CodePair) -> (r: CodePair) ensures pv(r) == pv(*p), { unimplemented!() }
