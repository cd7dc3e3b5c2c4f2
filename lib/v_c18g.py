from pieces import pairs_base, item_text
from rustx import Source
import re


def build(repo, spec):
    m = pairs_base(repo, spec)
    src = Source(repo + '/src/extension_data.rs')
    m.raw(''.join('pub const %s: %s = %s;\n' % c for c in re.findall(r'const (\w+): (\w+) = ([^;]+);', src.src)))
    m.raw(item_text(src, 'enum', 'ExtensionGroupItem'))
    m.raw(item_text(src, 'struct', 'ExtensionGroup'))
    m.s('c18g.rs')
    f = src.fn('ExtensionGroup::read_group_at_depth').expect_sig(r'fn read_group_at_depth\( ?application_name: String, iter: &mut CodePairPutBack, offset: usize, depth: usize,? ?\) -> DxfResult<ExtensionGroup>')
    f.rewrite(r'String::from\(', 'x_msg(', 'String::from(literal) -> assumed contract')
    f.rewrite(r"(\w+)\.starts_with\('\{'\)", r"x_starts_with(&\1, '{')", 'String::starts_with(char) -> assumed contract')
    f.rewrite(r'(\w+)\.remove\(0\);', r'x_remove0(&mut \1);', 'String::remove(0) -> assumed contract')
    f.rewrite(r'name == "\}"', 'x_eq(&name, "}")', 'String == &str -> assumed contract')
    f.annotate_loops([(r'loop', None, """invariant_except_break (match g_decs(stream(*old(iter)), depth as nat) {
                Some((v, q)) => g_decs(stream(*iter), depth as nat) is Some && ({ let (w, q2) = g_decs(stream(*iter), depth as nat)->Some_0; q2 == q && v == gvs(items@) + w }),
                None => true }),
        invariant depth < 128, stream(*iter).len() <= stream(*old(iter)).len(),
        ensures g_decs(stream(*old(iter)), depth as nat) is Some ==> (gvs(items@), stream(*iter)) == g_decs(stream(*old(iter)), depth as nat)->Some_0,
        decreases stream(*iter).len(),""",
                       'let ghost _t = stream(*iter); let ghost _it = items@; proof { reveal_strlit("}"); assert("}"@ =~= seq![\'}\']); assert(gvs(_it) + Seq::<SG>::empty() =~= gvs(_it)); }\n',
                       ' proof { lemma_gvs_push(_it, items@.last()); assert(items@ =~= _it.push(items@.last())); assert forall|w: Seq<SG>| #[trigger] (gvs(_it) + (seq![gv(items@.last())] + w)) =~= gvs(_it).push(gv(items@.last())) + w by {} }')])
    f.rewrite(r'let mut items = vec!\[\];', 'let mut items: Vec<ExtensionGroupItem> = vec![]; proof { assert forall|w: Seq<SG>| #[trigger] (gvs(items@) + w) =~= w by {} }', 'type annotation and ghost step', 1)
    m.fn(f, 'fn read_group_at_depth(application_name: String, iter: &mut CodePairPutBack, offset: usize, depth: usize) -> (r: DxfResult<ExtensionGroup>)', """
    ensures ({ let x = g_decs(stream(*old(iter)), depth as nat); depth < 128 && application_name@.len() > 0 && application_name@[0] == '{' && x is Some
            ==> r is Ok && r->Ok_0.application_name@ == application_name@.skip(1) && (gvs(r->Ok_0.items@), stream(*final(iter))) == x->Some_0 }),
        stream(*final(iter)).len() <= stream(*old(iter)).len(),
    decreases stream(*old(iter)).len(),""", 'ExtensionGroup')
    f = src.fn('ExtensionGroup::read_group').expect_sig(r'fn read_group\( ?application_name: String, iter: &mut CodePairPutBack, offset: usize,? ?\) -> DxfResult<ExtensionGroup>')
    m.fn(f, 'pub fn read_group(application_name: String, iter: &mut CodePairPutBack, offset: usize) -> (r: DxfResult<ExtensionGroup>)', """
    ensures ({ let x = g_decs(stream(*old(iter)), 0); application_name@.len() > 0 && application_name@[0] == '{' && x is Some
            ==> r is Ok && r->Ok_0.application_name@ == application_name@.skip(1) && (gvs(r->Ok_0.items@), stream(*final(iter))) == x->Some_0 }),
        stream(*final(iter)).len() <= stream(*old(iter)).len(),""", 'ExtensionGroup')
    f = src.fn('ExtensionGroup::add_code_pairs').expect_sig(r'fn add_code_pairs\( ?&self, pairs: &mut Vec<CodePair> ?\)')
    f.rewrite(r'(\w+)\.push_str\(', r'x_push_str(&mut \1, ', 'push_str -> assumed contract')
    f.rewrite(r'pair\.clone\(\)', 'x_pair_clone(pair)', 'CodePair::clone -> assumed contract')
    f.rewrite(r'!self\.items\.is_empty\(\)', 'self.items.len() != 0', 'is_empty -> its definition')
    f.annotate_loops([(r'for item in &self\.items', 'for i in 0..self.items.len()', 'invariant self.items@.len() > 0, pvs(pairs@) == pvs(old(pairs)@) + seq![p_str(102, seq![\'{\'] + self.application_name@)] + g_encs(gvs(self.items@.take(i as int))),',
                       'let item = &self.items[i]; proof { assert(self.items@.take(i + 1).drop_last() =~= self.items@.take(i as int)); assert(decreases_to!(self => self.items@)); assert(decreases_to!(self => self.items@[i as int])); assert forall|s: Seq<CodePair>, p: CodePair| #[trigger] pvs(s.push(p)) == pvs(s).push(pv(p)) by { lemma_pvs_push(s, p); } }',
                       " proof { let a = gvs(self.items@.take(i as int)); let b = gvs(self.items@.take(i + 1)); assert(b.drop_last() =~= a); assert(b.last() == gv(*item)); assert(g_encs(b) == g_encs(a) + g_enc(gv(*item))); match item { ExtensionGroupItem::CodePair(p) => { assert(gv(*item) == SG::Pair(pv(*p))); assert(g_enc(gv(*item)) == seq![pv(*p)]); } ExtensionGroupItem::Group(g) => { assert(gv(*item) == SG::Group(g.application_name@, gvs(g.items@))); } } assert(pvs(pairs@) =~= pvs(old(pairs)@) + seq![p_str(102, seq!['{'] + self.application_name@)] + g_encs(b)); }")])
    f.log.append('ExtensionGroup::add_code_pairs: `for x in &v` written as an index loop')
    f.insert_start("""proof { lemma_gvs_len(self.items@); reveal_strlit(""); reveal_strlit("}"); assert("}"@ =~= seq!['}']); assert(self.items@.take(0) =~= seq![]); assert(self.items@.take(self.items@.len() as int) =~= self.items@);
        assert forall|s: Seq<CodePair>, p: CodePair| #[trigger] pvs(s.push(p)) == pvs(s).push(pv(p)) by { lemma_pvs_push(s, p); }
        assert(Seq::<char>::empty().push('{') + self.application_name@ =~= seq!['{'] + self.application_name@);
        assert forall|s: Seq<SP>, p: SP| #[trigger] s.push(p) =~= s + seq![p] + Seq::<SP>::empty() by {} }""")
    G = 'g_enc(SG::Group(self.application_name@, gvs(self.items@)))'
    f.body = f.body[:f.body.rindex('}')] + ' proof { assert(pvs(pairs@) =~= pvs(old(pairs)@) + %s); } }' % G
    m.fn(f, 'pub fn add_code_pairs(&self, pairs: &mut Vec<CodePair>)', 'ensures pvs(final(pairs)@) == pvs(old(pairs)@) + %s,\n decreases self,' % G, 'ExtensionGroup')
    m.raw("""
// THEOREM C18 (extension groups): the pairs of a group, followed by anything, are read back as the same tree and leave exactly what follows
fn c18_group(g: &ExtensionGroup, name: String, iter: &mut CodePairPutBack, Ghost(after): Ghost<St>) -> (r: DxfResult<ExtensionGroup>)
    requires g_oks(gvs(g.items@)), g.items@.len() > 0, g_hs(gvs(g.items@)) < 128, name@ == seq!['{'] + g.application_name@,
        ({ let e = g_enc(SG::Group(g.application_name@, gvs(g.items@))); e[0] == p_str(102, name@) && stream(*old(iter)) == ok_all(e).skip(1) + after }),
    ensures r is Ok && r->Ok_0.application_name@ == g.application_name@ && gvs(r->Ok_0.items@) == gvs(g.items@), stream(*final(iter)) == after,
{
    proof {
        lemma_gvs_len(g.items@);
        let v = gvs(g.items@);
        let close = p_str(102, seq!['}']);
        let q = seq![Some(close)] + after;
        assert(q[0] == Some(close) && q.skip(1) =~= after);
        assert(g_decs(q, 0) == Some((Seq::<SG>::empty(), after)));
        lemma_g_inverse(v, q, after, Seq::<SG>::empty(), 0);
        assert(v + Seq::<SG>::empty() =~= v);
        assert(stream(*iter) =~= ok_all(g_encs(v)) + q);
        assert((seq!['{'] + g.application_name@).skip(1) =~= g.application_name@);
    }
    let r = ExtensionGroup::read_group(name, iter, 0);
    /*CANARY*/
    r
}
""")
    return m.done()
