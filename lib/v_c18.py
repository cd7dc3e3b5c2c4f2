from pieces import pairs_base, hex_fns, item_text, versions, versioned
from rustx import Source
import re

PT = 'ensures r.x == x, r.y == y, r.z == z,'


def geometry(m, repo):
    for f, t in (('point', 'Point'), ('vector', 'Vector')):
        s = Source('%s/src/%s.rs' % (repo, f))
        m.raw(item_text(s, 'struct', t))
        m.fn(s.fn(t + '::new').expect_sig(r'fn new\( ?x: f64, y: f64, z: f64 ?\) -> (Self|%s)' % t), 'pub fn new(x: f64, y: f64, z: f64) -> (r: %s)' % t, PT, t)


def consts(src, names):
    out = []
    for n in names:
        m = re.search(r'const %s: (\w+) = ([^;]+);' % n, src.src)
        out.append('pub const %s: %s = %s;\n' % (n, m.group(1), m.group(2)))
    return ''.join(out)


def build(repo, spec):
    m = pairs_base(repo, spec)
    m.s('hex.rs')
    m.add(hex_fns(repo))
    geometry(m, repo)
    src = Source(repo + '/src/x_data.rs')
    m.raw(''.join('pub const %s: %s = %s;\n' % c for c in re.findall(r'const (\w+): (\w+) = ([^;]+);', src.src)))
    m.raw(item_text(src, 'enum', 'XDataItem'))
    m.raw(item_text(src, 'struct', 'XData'))
    m.s('c18x.rs')
    DEC = 'stream(*final(iter)).len() <= stream(*old(iter)).len(),'
    f = src.fn('XDataItem::read_double').expect_sig(r'fn read_double\( ?iter: &mut CodePairPutBack, expected_code: i32 ?\) -> DxfResult<f64>')
    m.fn(f, 'fn read_double(iter: &mut CodePairPutBack, expected_code: i32) -> (r: DxfResult<f64>)', 'ensures x_f(stream(*old(iter)), expected_code) is Some ==> r is Ok && r->Ok_0 == x_f(stream(*old(iter)), expected_code)->Some_0 && stream(*final(iter)) == stream(*old(iter)).skip(1),\n' + DEC, 'XDataItem')
    for nm, t in (('read_point', 'Point'), ('read_vector', 'Vector')):
        f = src.fn('XDataItem::' + nm).expect_sig(r'fn %s\( ?iter: &mut CodePairPutBack, first: f64, expected_code: i32,? ?\) -> DxfResult<%s>' % (nm, t))
        m.fn(f, 'fn %s(iter: &mut CodePairPutBack, first: f64, expected_code: i32) -> (r: DxfResult<%s>)' % (nm, t), '''requires 0 <= expected_code <= 2000,
    ensures ({ let p = p_f64(expected_code, first); let x = x_3(p, stream(*old(iter))); x is Some ==> r is Ok && (r->Ok_0.x, r->Ok_0.y, r->Ok_0.z) == x->Some_0 && stream(*final(iter)) == stream(*old(iter)).skip(2) }),
''' + DEC, 'XDataItem')
    f = src.fn('XDataItem::read_item').expect_sig(r'fn read_item\( ?pair: &CodePair, iter: &mut CodePairPutBack, depth: usize,? ?\) -> DxfResult<XDataItem>')
    f.rewrite(r'String::from\(', 'x_msg(', 'String::from(literal) -> assumed contract')
    f.rewrite(r'(pair\.assert_string\(\)\?) == ("[^"]*")', r'x_eq(&\1, \2)', 'String == &str -> assumed contract')
    f.annotate_loops([(r'loop', None, '''invariant_except_break is_open(pv(*pair)) ==> (match x_decs(_s0, (depth + 1) as nat) {
                Some((v, q)) => x_decs(stream(*iter), (depth + 1) as nat) is Some && ({ let (w, q2) = x_decs(stream(*iter), (depth + 1) as nat)->Some_0; q2 == q && v == xvs(items@) + w }),
                None => true }),
        invariant depth < 128, pair.code == 1002, _s0 == stream(*old(iter)), stream(*iter).len() <= stream(*old(iter)).len(),
        ensures is_open(pv(*pair)) && x_decs(_s0, (depth + 1) as nat) is Some ==> (xvs(items@), stream(*iter)) == x_decs(_s0, (depth + 1) as nat)->Some_0, stream(*iter).len() <= stream(*old(iter)).len(),
        decreases stream(*iter).len(),''',
                       'let ghost _t = stream(*iter); let ghost _it = items@; proof { reveal_strlit("}"); assert("}"@ =~= seq![\'}\']); if x_decs(_t, (depth + 1) as nat) is Some { if is_close(_t[0]->Some_0) { assert(xvs(_it) + Seq::<SX>::empty() =~= xvs(_it)); } } }\n',
                       ' proof { lemma_xvs_push(_it, items@.last()); assert(items@ =~= _it.push(items@.last())); assert forall|w: Seq<SX>| #[trigger] (xvs(_it) + (seq![xv(items@.last())] + w)) =~= xvs(_it).push(xv(items@.last())) + w by {} }')])
    f.rewrite(r'let mut items = vec!\[\];', 'let mut items: Vec<XDataItem> = vec![]; let ghost _s0 = stream(*iter); proof { assert forall|w: Seq<SX>| #[trigger] (xvs(items@) + w) =~= w by {} }', 'type annotation and ghost copy', 1)
    f.insert_start('proof { assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) =~= s by {} reveal_strlit("}"); assert("}"@ =~= seq![\'}\']); assert forall|s: St| s.len() >= 2 implies #[trigger] s.skip(1).skip(1) =~= s.skip(2) by {} }')
    m.fn(f, 'fn read_item(pair: &CodePair, iter: &mut CodePairPutBack, depth: usize) -> (r: DxfResult<XDataItem>)', '''
    ensures
        ({ let x = x_dec(pv(*pair), stream(*old(iter)), depth as nat); x is Some ==> r is Ok && (xv(r->Ok_0), stream(*final(iter))) == x->Some_0 }),
        ''' + DEC + '\n decreases stream(*old(iter)).len(),', 'XDataItem')
    f = src.fn('XDataItem::add_code_pairs').expect_sig(r'fn add_code_pairs\( ?&self, pairs: &mut Vec<CodePair> ?\)')
    f.rewrite(r'&format!\("\{:02X\}", (\w+)\)', r'&x_fmt_hex2(*\1)', 'format!("{:02X}") -> assumed contract', 1)
    f.rewrite(r'line\.push_str\(', 'x_push_str(&mut line, ', 'push_str -> assumed contract')
    f.annotate_loops([(r'for item in &(items\[\.\.\]|items)', 'for i in 0..items.len()', '''invariant
            decreases_to!(self => items@), pvs(pairs@) == pvs(old(pairs)@) + seq![p_str(1002, seq!['{'])] + x_encs(xvs(items@.take(i as int))),''',
                       'let item = &items[i]; let ghost _p = pvs(pairs@); proof { assert(items@.take(i + 1).drop_last() =~= items@.take(i as int)); assert(decreases_to!(self => items@[i as int])); }',
                       ' proof { let a = xvs(items@.take(i as int)); let b = xvs(items@.take(i + 1)); assert(b.drop_last() =~= a); assert(b.last() == xv(*item)); assert(pvs(pairs@) =~= pvs(old(pairs)@) + seq![p_str(1002, seq![\'{\'])] + x_encs(b)); }'),
                      (r'for b in data', 'for i in 0..data.len()', 'invariant line@ == hx(data@.take(i as int)),', 'let b = &data[i]; proof { assert(data@.take(i + 1).drop_last() =~= data@.take(i as int)); }\n', '')])
    f.log.append('XDataItem::add_code_pairs: `for x in &v` written as an index loop')
    f.insert_start('''proof { reveal_strlit("{"); reveal_strlit("}"); reveal_strlit(""); assert("{"@ =~= seq!['{']); assert("}"@ =~= seq!['}']); assert(""@ =~= seq![]);
        assert forall|s: Seq<CodePair>, p: CodePair| #[trigger] pvs(s.push(p)) == pvs(s).push(pv(p)) by { lemma_pvs_push(s, p); }
        match self { XDataItem::ControlGroup(v) => { assert(v@.take(0) =~= seq![]); assert(v@.take(v@.len() as int) =~= v@); assert(decreases_to!(self => v)); assert(decreases_to!(v => v@)); } XDataItem::BinaryData(d) => { assert(d@.take(0) =~= seq![]); assert(d@.take(d@.len() as int) =~= d@); } _ => {} } }''')
    f.body = f.body[:f.body.rindex('}')] + ' proof { assert(pvs(pairs@) =~= pvs(old(pairs)@) + x_enc(xv(*self))); } }'
    m.fn(f, 'pub fn add_code_pairs(&self, pairs: &mut Vec<CodePair>)', 'ensures pvs(final(pairs)@) == pvs(old(pairs)@) + x_enc(xv(*self)),\n decreases self,', 'XDataItem')

    f = src.fn('XData::read_item').expect_sig(r'fn read_item\( ?application_name: String, iter: &mut CodePairPutBack,? ?\) -> DxfResult<XData>')
    if ' @ ' in f.body:
        f.rewrite(r'Some\(Ok\(pair @ CodePair \{ code: 0, \.\. \}\)\) =>', 'Some(Ok(pair)) if pair.code == 0 =>', 'binding pattern written as a guard', 1)
    f.annotate_loops([(r'loop', None, """invariant_except_break (match x_top(stream(*old(iter))) {
                Some((v, q)) => x_top(stream(*iter)) is Some && ({ let (w, q2) = x_top(stream(*iter))->Some_0; q2 == q && v == xvs(xdata.items@) + w }),
                None => true }),
        invariant xdata.application_name == application_name, stream(*iter).len() <= stream(*old(iter)).len(),
        ensures x_top(stream(*old(iter))) is Some ==> (xvs(xdata.items@), stream(*iter)) == x_top(stream(*old(iter)))->Some_0,
        decreases stream(*iter).len(),""",
                       'let ghost _t = stream(*iter); let ghost _it = xdata.items@; proof { if x_stop(_t) { assert(xvs(_it) + Seq::<SX>::empty() =~= xvs(_it)); if _t.len() > 0 { assert(seq![_t[0]] + _t.skip(1) =~= _t); } else { assert(forall|z: St| z.len() == 0 ==> z =~= _t); } } }\n',
                       ' proof { lemma_xvs_push(_it, xdata.items@.last()); assert(xdata.items@ =~= _it.push(xdata.items@.last())); assert forall|w: Seq<SX>| #[trigger] (xvs(_it) + (seq![xv(xdata.items@.last())] + w)) =~= xvs(_it).push(xv(xdata.items@.last())) + w by {} }')])
    f.insert_start('proof { assert forall|w: Seq<SX>| #[trigger] (Seq::<SX>::empty() + w) =~= w by {} }')
    m.fn(f, 'pub fn read_item(application_name: String, iter: &mut CodePairPutBack) -> (r: DxfResult<XData>)', """
    ensures ({ let x = x_top(stream(*old(iter))); x is Some ==> r is Ok && r->Ok_0.application_name == application_name && (xvs(r->Ok_0.items@), stream(*final(iter))) == x->Some_0 }),
        """ + DEC, 'XData')

    m.add(versions(repo))
    f = versioned(src.fn('XData::add_code_pairs').expect_sig(r'fn add_code_pairs\( ?&self, pairs: &mut Vec<CodePair>, version: AcadVersion ?\)'))
    f.annotate_loops([(r'for item in &self\.items', 'for i in 0..self.items.len()', 'invariant pvs(pairs@) == pvs(old(pairs)@) + seq![p_str(1001, self.application_name@)] + x_encs(xvs(self.items@.take(i as int))),',
                       'let item = &self.items[i]; proof { assert(self.items@.take(i + 1).drop_last() =~= self.items@.take(i as int)); }',
                       " proof { let a = xvs(self.items@.take(i as int)); let b = xvs(self.items@.take(i + 1)); assert(b.drop_last() =~= a); assert(b.last() == xv(*item)); assert(pvs(pairs@) =~= pvs(old(pairs)@) + seq![p_str(1001, self.application_name@)] + x_encs(b)); }")])
    f.log.append('XData::add_code_pairs: `for x in &v` written as an index loop')
    f.insert_start("""proof { assert(self.items@.take(0) =~= seq![]); assert(self.items@.take(self.items@.len() as int) =~= self.items@);
        assert forall|s: Seq<CodePair>, p: CodePair| #[trigger] pvs(s.push(p)) == pvs(s).push(pv(p)) by { lemma_pvs_push(s, p); }
        assert forall|s: Seq<SP>, p: SP| #[trigger] s.push(p) =~= s + seq![p] + Seq::<SP>::empty() by {} }""")
    f.body = f.body[:f.body.rindex('}')] + ' proof { assert(pvs(pairs@) =~= pvs(old(pairs)@) + (if vord(version) >= vord(AcadVersion::R2000) { seq![p_str(1001, self.application_name@)] + x_encs(xvs(self.items@)) } else { seq![] })); } }'
    m.fn(f, 'pub fn add_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion)', """ensures
        pvs(final(pairs)@) == pvs(old(pairs)@) + (if vord(version) >= vord(AcadVersion::R2000) { seq![p_str(1001, self.application_name@)] + x_encs(xvs(self.items@)) } else { seq![] }),""", 'XData')
    m.raw("""
// THEOREM C18 (extended data): what the writer emits for one application, followed by any pairs that end it, is read back as the same tree and leaves exactly those pairs
fn c18_xdata(x: &XData, version: AcadVersion, iter: &mut CodePairPutBack, name: String, Ghost(after): Ghost<St>) -> (r: DxfResult<XData>)
    requires x_hs(xvs(x.items@)) <= 128, x_stop(after), name@ == x.application_name@, vord(version) >= vord(AcadVersion::R2000),
        stream(*old(iter)) == ok_all(x_encs(xvs(x.items@))) + after,
    ensures r is Ok && r->Ok_0.application_name@ == x.application_name@ && xvs(r->Ok_0.items@) == xvs(x.items@), stream(*final(iter)) == after,
{
    proof { lemma_x_inverse_top(xvs(x.items@), after, after, Seq::<SX>::empty()); assert(xvs(x.items@) + Seq::<SX>::empty() =~= xvs(x.items@)); }
    let mut pairs: Vec<CodePair> = Vec::new();
    x.add_code_pairs(&mut pairs, version);
    assert(pvs(pairs@) =~= seq![p_str(1001, x.application_name@)] + x_encs(xvs(x.items@)));
    let r = XData::read_item(name, iter);
    /*CANARY*/
    r
}
""")
    return m.done()
