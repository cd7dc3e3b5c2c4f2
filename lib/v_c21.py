"""collect_entities: every record with its own children, in order, nothing lost and nothing doubled"""
import re
from pieces import Module, Source, LostAnchor, project, generated_dir, types


def build(repo, spec):
    m = Module(repo, spec)
    m.raw('pub struct XSource;\n')
    m.add(types(repo))
    gs = Source(generated_dir() + '/entities.rs')
    es = Source(repo + '/src/entity.rs')
    m.raw('#[derive(Clone, Copy)]\npub struct Handle(pub u64);\n')
    hs = Source(repo + '/src/handle.rs')
    if not re.search(r'pub struct Handle\(pub u64\);', hs.src):
        raise LostAnchor('struct Handle')
    m.fn(hs.fn('Handle::empty').expect_sig(r'fn empty\(\) -> Self'), 'pub fn empty() -> (r: Self)', 'ensures r.0 == 0,', 'Handle')
    m.fn(hs.fn('Handle::is_empty').expect_sig(r'fn is_empty\( ?self ?\) -> bool'), 'pub fn is_empty(self) -> (r: bool)', 'ensures r == (self.0 == 0),', 'Handle')
    d = re.search(r'pub(?:\(crate\))? const AUTO_REPLACE_HANDLE: Handle = (Handle\([^)]*\));', Source(repo + '/src/drawing.rs').src)
    if not d:
        raise LostAnchor('AUTO_REPLACE_HANDLE')
    m.raw('pub const AUTO_REPLACE_HANDLE: Handle = %s;\npub open spec fn auto() -> Handle { AUTO_REPLACE_HANDLE }\n' % d.group(1))
    m.log.append('entities projected to the fields the function names; all other fields are one opaque value x_other that clone keeps')

    def proj(n, fs, drop=()):
        t = project(gs, n, fs)
        m.raw(t.replace(' }\n', ', pub x_other: XOpaque }\n') if fs else 'pub struct %s { pub x_other: XOpaque }\n' % n)
    for n, fs in (('Attribute', ['m_text']), ('AttributeDefinition', ['m_text']), ('Insert', ['__has_attributes', '__attributes_and_handles', '__seqend_handle']),
                  ('Polyline', ['__vertices_and_handles', '__seqend_handle']), ('EntityCommon', ['handle']), ('Vertex', []), ('MText', []), ('Seqend', [])):
        proj(n, fs)
    et = re.sub(r'#\[[^\]]*\]\s*', '', gs.item('enum', 'EntityType'))
    got = dict(re.findall(r'(\w+)\((\w+)\)', et))
    keep = ['Attribute', 'AttributeDefinition', 'Insert', 'Polyline', 'Vertex', 'Seqend', 'MText']
    for k in keep:
        if got.get(k) != k:
            raise LostAnchor('EntityType::' + k)
    m.raw('pub enum EntityType { %s, XOther(XOpaque) }\npub struct Entity { pub common: EntityCommon, pub specific: EntityType }\n' % ', '.join('%s(%s)' % (k, k) for k in keep))
    project(gs, 'Entity', ['common', 'specific'])
    m.s('c21.rs')
    for n in ('Attribute', 'AttributeDefinition', 'Insert', 'Polyline', 'EntityCommon', 'Vertex', 'MText'):
        m.raw('impl %s { #[verifier::external_body] pub fn x_dup(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }\n' % n)
    f = Source(repo + '/src/entity_iter.rs').fn('collect_entities').expect_sig(r'fn collect_entities<I>\(iter: &mut I, entities: &mut Vec<Entity>\) -> DxfResult<\(\)> where I: Iterator<Item = Entity>,?')
    W = r'\s*where\s+I: Iterator<Item = Entity>,?\s*\{'
    f.rewrite(r'fn swallow_seqend<I>\(iter: &mut PutBack<I>\) -> DxfResult<Handle>' + W, '''fn swallow_seqend(iter: &mut PutBack) -> (r: DxfResult<Handle>)
        ensures r is Ok, r->Ok_0 == end_at(left(*old(iter))), left(*final(iter)) == after_end(left(*old(iter))) {
        let ghost _s = left(*iter); proof { if _s.len() > 0 { assert(seq![_s[0]] + _s.skip(1) =~= _s); } }''', 'contract spliced on the nested function', 1)
    f.rewrite(r'fn child_handle\(handle: Handle\) -> Handle \{', 'fn child_handle(handle: Handle) -> (r: Handle) ensures r == ch(handle) {', 'contract spliced on the nested function', 1)
    f.rewrite(r'fn mtext<I>\(iter: &mut PutBack<I>\) -> DxfResult<Option<MText>>' + W, '''fn mtext(iter: &mut PutBack) -> (r: DxfResult<Option<MText>>)
        ensures r is Ok, left(*final(iter)) == att_text(left(*old(iter))), r->Ok_0 == (if text_at(left(*old(iter))) { Some(left(*old(iter))[0]->Text_1) } else { None }) {
        let ghost _s = left(*iter); proof { if _s.len() > 0 { assert(seq![_s[0]] + _s.skip(1) =~= _s); } }''', 'contract spliced on the nested function', 1)
    f.rewrite(r'let mut iter = put_back\(iter\);', 'let mut iter = x_put_back(iter); let ghost _e0 = entities@; let ghost _s0 = left(iter); proof { assert(evs(_e0) + gather(_s0) =~= evs(entities@) + gather(left(iter))); }', 'itertools::put_back -> assumed contract', 1)
    f.rewrite(r'\b(\w+)\.clone\(\)', r'\1.x_dup()', 'derived Clone -> assumed contract (an equal value)')
    STEP = '''let ghost _a = entities@; let ghost _s = left(iter); proof { if _s.len() > 0 { lemma_tail(_s); lemma_shorter(_s.skip(1)); assert(seq![_s[0]] + _s.skip(1) =~= _s); } }
'''
    END = ''' proof { assert(left(iter) == tail_of(_s)); assert(entities@.len() == _a.len() + 1); assert(ev(entities@.last()) == head(_s)); assert(entities@.drop_last() =~= _a); assert(evs(entities@) =~= evs(_a).push(head(_s)));
      assert(evs(_a) + gather(_s) =~= evs(entities@) + gather(left(iter))); }'''
    f.annotate_loops([
        (r'loop', None, 'invariant evs(_e0) + gather(_s0) == evs(entities@) + gather(left(iter)),\n ensures left(iter).len() == 0,\n decreases left(iter).len(),', STEP, END),
        (r'loop', None, '''invariant _s.len() > 0, left(iter).len() < _s.len(), _s[0] is Ins, _s[0]->Ins_1.has, *entities == _en, ins.__has_attributes, ins.x_other == _s[0]->Ins_1.o,
            attsv(ins.__attributes_and_handles@) + atts(left(iter)) == _s[0]->Ins_1.atts + atts(_s.skip(1)), after_atts(left(iter)) == after_atts(_s.skip(1)),
            ensures atts(left(iter)).len() == 0, after_atts(left(iter)) == left(iter),
            decreases left(iter).len(),''',
         'let ghost _t = left(iter); let ghost _v = ins.__attributes_and_handles@; proof { if _t.len() > 0 { assert(seq![_t[0]] + _t.skip(1) =~= _t); } }\n',
         ' proof { assert(ins.__attributes_and_handles@.drop_last() =~= _v); assert(attsv(ins.__attributes_and_handles@) =~= attsv(_v).push((with_text(_t[0]->Att_1, _t.skip(1)), ch(_t[0]->Att_0.handle)))); assert(attsv(_v) + atts(_t) =~= attsv(ins.__attributes_and_handles@) + atts(left(iter))); }'),
        (r'loop', None, '''invariant _s.len() > 0, left(iter).len() < _s.len(), _s[0] is Poly, *entities == _en, poly.x_other == _s[0]->Poly_1.o,
            poly.__vertices_and_handles@ + verts(left(iter)) == _s[0]->Poly_1.verts + verts(_s.skip(1)), after_verts(left(iter)) == after_verts(_s.skip(1)),
            ensures verts(left(iter)).len() == 0, after_verts(left(iter)) == left(iter),
            decreases left(iter).len(),''',
         'let ghost _t = left(iter); let ghost _v = poly.__vertices_and_handles@; proof { if _t.len() > 0 { assert(seq![_t[0]] + _t.skip(1) =~= _t); } }\n',
         ' proof { assert(_v + verts(_t) =~= poly.__vertices_and_handles@ + verts(left(iter))); }'),
    ])
    f.rewrite(r'(let mut (?:ins|poly) = )', r'let ghost _en = *entities; \1', 'ghost copy', None)
    f.insert_before_tail('proof { assert(gather(left(iter)) =~= seq![]); assert(evs(entities@) + gather(left(iter)) =~= evs(entities@)); assert(evs(_e0) + gather(_s0) == evs(entities@)); }')
    m.fn(f, 'pub fn collect_entities(iter: &mut XIter, entities: &mut Vec<Entity>) -> (r: DxfResult<()>)', 'ensures r is Ok, evs(final(entities)@) == evs(old(entities)@) + gather(ents(*old(iter))),')
    m.raw('''
// THEOREM: the records of a file come back in order, once each, with exactly their own vertices, attributes and texts
fn theorem_records(iter: &mut XIter, es: Ghost<Seq<EV>>, rests: Ghost<Seq<Seq<EV>>>)
    requires file_of(es@, rests@), ents(*old(iter)) == rests@[0],
{
    let mut v: Vec<Entity> = Vec::new();
    let r = collect_entities(iter, &mut v);
    proof { lemma_file(es@, rests@); assert(evs(Seq::<Entity>::empty()) + es@ =~= es@); }
    assert(r is Ok);
    assert(evs(v@) == es@);
    /*CANARY*/
}
''')
    return m.done()
