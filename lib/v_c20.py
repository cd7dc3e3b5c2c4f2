from pieces import pairs_base, generated_dir, versions, versioned
from rustx import Source, LostAnchor
import re

DEC = 'stream(*final(iter)).len() <= stream(*old(iter)).len(),'
HEAD = 'proof { if stream(*iter).len() > 0 { assert(seq![stream(*iter)[0]] + stream(*iter).skip(1) =~= stream(*iter)); } }\n'


def pats(f):
    f.rewrite(r'Some\(Ok\((\w+) @ CodePair \{ code: (\d+), \.\. \}\)\) =>', r'Some(Ok(\1)) if \1.code == \2 =>', 'binding pattern written as a guard')
    f.rewrite(r'Some\(Ok\(CodePair \{\s*code: (\d+),\s*value: CodePairValue::Str\(ref (\w+)\),\s*\.\.\s*\}\)\) if \2 == ("\w+") =>', r'Some(Ok(pair)) if x_is(&pair, \1, \3) =>', 'pattern with a text guard -> comparison')
    f.rewrite(r'Some\(Ok\(CodePair \{\s*code: (\d+),\s*value: CodePairValue::Str\((\w+)\),\s*\.\.\s*\}\)\) =>\s*\{', r'Some(Ok(pair)) if pair.code == \1 && pair.is_str() => { let \2 = pair.assert_string()?;', 'pattern Str(s) -> test and read')
    f.rewrite(r'Some\(Ok\(_\)\) =>', 'Some(Ok(pair)) =>', 'unused pair named')
    f.rewrite(r'String::(?:from\("[^"]*"\)|new\(\))', 'x_msg("")', 'String::from(literal) in an error -> assumed contract')
    f.rewrite(r'([\w.]+\(\)\?|\btype_string|\blast_header_variable) == ("[^"]*")', r'x_eq(&\1, \2)', 'String == &str -> assumed contract')
    f.match_str()
    f.merge_guards()
    return f


def swallow(m, f, sig, to, wrap):
    """a loop that takes pairs until a stop"""
    pats(f)
    f.annotate_loops([(r'loop', None, '''invariant_except_break %s(stream(*old(iter))) == %s(stream(*iter)),
        invariant stream(*iter).len() <= stream(*old(iter)).len(),
        ensures %s(stream(*old(iter))) is Some, stream(*iter) == %s(stream(*old(iter)))->Some_0, stream(*iter).len() <= stream(*old(iter)).len(),
        decreases stream(*iter).len(),''' % (to, to, to, to), 'let ghost _t = stream(*iter);' + HEAD, '')])
    f.rewrite(r'None => break', 'None => { proof { assert(stream(*iter) =~= _t); } break }', 'ghost step')
    m.fn(f, sig, 'ensures r is Ok == (%s(stream(*old(iter))) is Some), r is Ok ==> stream(*final(iter)) == %s(stream(*old(iter)))->Some_0,\n' % (to, to) + DEC, wrap)


RECORD = """
// ---- %(T)s ----
#[verifier::external_body]
pub struct %(T)s { x: () }
#[verifier::external_body]
pub struct %(T)sType { x: () }
pub uninterp spec fn %(w)s_kind(t: Seq<char>) -> Option<%(T)sType>;
pub uninterp spec fn %(w)s_new(k: %(T)sType) -> %(T)s;
// a reader of its own: the record, whether it has one, what is left; None: an error
pub uninterp spec fn %(w)s_custom(o: %(T)s, s: St) -> Option<(%(T)s, bool, St)>;
// one pair of the record (which may take further pairs)
pub uninterp spec fn %(w)s_pair(o: %(T)s, p: SP, s: St) -> Option<(%(T)s, St)>;
pub uninterp spec fn %(w)s_post(o: %(T)s) -> Option<%(T)s>;
impl %(T)sType {
#[verifier::external_body]
pub fn from_type_string(t: &String) -> (r: Option<%(T)sType>) ensures r == %(w)s_kind(t@), { unimplemented!() }
}
impl %(T)s {
#[verifier::external_body]
pub fn new(k: %(T)sType) -> (r: %(T)s) ensures r == %(w)s_new(k), { unimplemented!() }
#[verifier::external_body]
pub fn apply_custom_reader(&mut self, iter: &mut CodePairPutBack) -> (r: DxfResult<bool>)
    ensures r is Ok == (%(w)s_custom(*old(self), stream(*old(iter))) is Some), r is Ok ==> (*final(self), r->Ok_0, stream(*final(iter))) == %(w)s_custom(*old(self), stream(*old(iter)))->Some_0,
        stream(*final(iter)).len() <= stream(*old(iter)).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn apply_code_pair(&mut self, pair: &CodePair, iter: &mut CodePairPutBack) -> (r: DxfResult<()>)
    ensures r is Ok == (%(w)s_pair(*old(self), pv(*pair), stream(*old(iter))) is Some), r is Ok ==> (*final(self), stream(*final(iter))) == %(w)s_pair(*old(self), pv(*pair), stream(*old(iter)))->Some_0,
        stream(*final(iter)).len() <= stream(*old(iter)).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn post_parse(&mut self) -> (r: DxfResult<()>) ensures r is Ok == (%(w)s_post(*old(self)) is Some), r is Ok ==> *final(self) == %(w)s_post(*old(self))->Some_0, { unimplemented!() }
}
// the pairs of a record up to the next 0 pair
pub open spec fn %(w)s_body(o: %(T)s, s: St) -> Option<(%(T)s, St)> decreases s.len() {
    if s.len() == 0 || s[0] is None { None } else if is0(s) { Some((o, s)) }
    else { match %(w)s_pair(o, s[0]->Some_0, s.skip(1)) { None => None, Some((o2, s2)) => if s2.len() < s.len() { %(w)s_body(o2, s2) } else { None } } }
}
"""


def records(m, repo, what, known, dim=''):
    """Object::read / Entity::read: the fields of a known record are opaque, its extent is not"""
    T = what
    w = what[0].lower()
    src = Source('%s/src/%s.rs' % (repo, what.lower()))
    m.raw(RECORD % dict(T=T, w=w))
    m.raw("""
%(dimspec)s
pub open spec fn %(w)s_known(k: %(T)sType, s: St) -> Option<(%(T)s, St)> {
    match %(w)s_custom(%(w)s_new(k), s) { None => None, %(known)s }
}
// the next record of the section: unknown ones do not exist
pub open spec fn %(w)s_read(s: St) -> Option<(Option<%(T)s>, St)> decreases s.len() {
    if !is0(s) || txt(s) is None { None }
    else if is_end(txt(s)->Some_0) { Some((None, s)) }
    %(dim)s
    else { match %(w)s_kind(txt(s)->Some_0) {
        Some(k) => match %(w)s_known(k, s.skip(1)) { None => None, Some((o, s2)) => if s2.len() < s.len() { Some((Some(o), s2)) } else { None } },
        None => match to_0(s.skip(1)) { None => None, Some(s2) => if s2.len() < s.len() { %(w)s_read(s2) } else { None } },
    } }
}
pub proof fn lemma_%(w)s_shorter(s: St)
    ensures %(w)s_read(s) is Some ==> %(w)s_read(s)->Some_0.1.len() <= s.len() && (%(w)s_read(s)->Some_0.0 is Some ==> %(w)s_read(s)->Some_0.1.len() < s.len()),
    decreases s.len(),
{ if is0(s) { lemma_len_0(s.skip(1)); if to_0(s.skip(1)) is Some { lemma_%(w)s_shorter(to_0(s.skip(1))->Some_0); } %(dimlen)s } }
// THEOREM: a record of an unknown kind, whatever it contains, is as if it were not there
pub proof fn theorem_unknown_%(T)s(h: SP, b: St, s: St)
    requires h.code == 0, g_str(h) is Some, !is_end(g_str(h)->Some_0), %(w)s_kind(g_str(h)->Some_0) is None, %(nodim)s plain(b), is0(s),
    ensures %(w)s_read(seq![Some(h)] + b + s) == %(w)s_read(s),
{
    let x = seq![Some(h)] + b + s; assert(x.skip(1) =~= b + s); lemma_to_0(b, s); assert(x[0] == Some(h)); assert((b + s).len() < x.len()); /*CANARY*/
}
""" % dict(T=T, w=w, known=known, dim=dim, dimlen='if e_dim(s.skip(1)) is Some && e_dim(s.skip(1))->Some_0.1.len() < s.len() { lemma_e_shorter(e_dim(s.skip(1))->Some_0.1); }' if dim else '', nodim='g_str(h)->Some_0 != "DIMENSION"@,' if dim else '', dimspec="""
// DIMENSION: several kinds under one name; no result: none of them
pub uninterp spec fn e_dim(s: St) -> Option<(Option<Entity>, St)>;
#[verifier::external_body]
pub fn x_e_dim(iter: &mut CodePairPutBack) -> (r: DxfResult<Option<Entity>>)
    ensures r is Ok == (e_dim(stream(*old(iter))) is Some), r is Ok ==> (r->Ok_0, stream(*final(iter))) == e_dim(stream(*old(iter)))->Some_0,
        stream(*final(iter)).len() <= stream(*old(iter)).len(),
{ unimplemented!() }
""" if dim else ''))
    f = src.fn(T + '::read').expect_sig(r'fn read\( ?iter: &mut CodePairPutBack ?\) -> DxfResult<Option<%s>>' % T)
    if dim:
        f.rewrite(r"'new_entity: loop", 'loop', 'label of the outer loop', 1)
        drop_arm(f, r'"DIMENSION" => \{', '{ match x_e_dim(iter)? { Some(_d) => { return Ok(Some(_d)); } None => {} } }', 'the arm for DIMENSION replaced by a call under an assumed contract (no result: `continue`, here the end of the loop body)')
    pats(f)
    I = 'stream(*iter).len() <= _n, '
    f.annotate_loops([
        (r'loop', None, 'invariant %s_read(stream(*old(iter))) == %s_read(stream(*iter)), stream(*iter).len() <= stream(*old(iter)).len(),\n decreases stream(*iter).len(),' % (w, w), 'let ghost _s = stream(*iter); ' + HEAD, ''),
        (r'loop', None, """invariant_except_break %(w)s_body(%(v)s, stream(*iter)) == %(w)s_body(_o1, _s1),
            invariant stream(*iter).len() < _s.len(), _s.len() <= stream(*old(iter)).len(), _rd == %(w)s_read(stream(*old(iter))), REQ
            ensures stream(*iter).len() < _s.len(), %(w)s_body(_o1, _s1) == Some((%(v)s, stream(*iter))), decreases stream(*iter).len(),""".replace('REQ', 'DIMREQ' if False else '(%(w)s_body(_o1, _s1) is None ==> _rd is None),') % dict(w=w, v='entity' if dim else 'obj'), HEAD, ''),
        (r'loop', None, """invariant_except_break to_0(stream(*iter)) == to_0(_s.skip(1)),
            invariant stream(*iter).len() < _s.len(), _s.len() <= stream(*old(iter)).len(), _rd == %s_read(stream(*old(iter))), (to_0(_s.skip(1)) is None ==> _rd is None),
            ensures stream(*iter).len() < _s.len(), to_0(_s.skip(1)) == Some(stream(*iter)), decreases stream(*iter).len(),""" % w, HEAD, ''),
    ])
    v = 'entity' if dim else 'obj'
    f.rewrite(r'let mut %s = %s::new\(e\);' % (v, T), 'let ghost _rd = %s_read(stream(*old(iter))); let mut %s = %s::new(e); let ghost _o1 = %s; let ghost _s1 = stream(*iter);' % (w, v, T, v), 'ghost copies', 1)
    f.rewrite(r'if !%s\.apply_custom_reader\(iter\)\?\s*\{' % v, 'let _c = %s.apply_custom_reader(iter)?; proof { _o1 = %s; _s1 = stream(*iter); } if !_c {' % (v, v), 'ghost copies', 1)
    f.rewrite(r'let ghost _o1', 'let ghost mut _o1', 'ghost', 1)
    f.rewrite(r'let ghost _s1', 'let ghost mut _s1', 'ghost', 1)
    f.rewrite(r'None =>\s*\{(\s*)loop', r'None => {\1let ghost _rd = %s_read(stream(*old(iter))); loop' % w, 'ghost', 1)
    m.fn(f, 'pub fn read(iter: &mut CodePairPutBack) -> (r: DxfResult<Option<%s>>)' % T, """ensures r is Ok == (%s_read(stream(*old(iter))) is Some), r is Ok ==> (r->Ok_0, stream(*final(iter))) == %s_read(stream(*old(iter)))->Some_0,
""" % (w, w) + DEC, T)


def drop_arm(f, start_rx, new, why):
    """replace the block of the arm that starts with start_rx"""
    from rustx import match_close
    ms = list(re.finditer(start_rx, f.body))
    if len(ms) != 1:
        raise LostAnchor('%s: %d arms `%s`' % (f.path, len(ms), start_rx))
    o = ms[0].end() - 1
    e = match_close(f.body, o)
    f.body = f.body[:o] + new + f.body[e:]
    f.log.append('%s: %s' % (f.path, why))


def lists(m, repo):
    m.raw("""
pub uninterp spec fn d_obj(d: Drawing, o: Object) -> Drawing;
#[verifier::external_body]
pub fn x_add_object(d: &mut Drawing, o: Object) ensures *final(d) == d_obj(*old(d), o), { unimplemented!() }
pub open spec fn d_objs(d: Drawing, l: Seq<Object>) -> Drawing decreases l.len() { if l.len() == 0 { d } else { d_objs(d_obj(d, l[0]), l.skip(1)) } }
// what the entities of a section (each gathered with its children, property C21) are added as
pub uninterp spec fn gath(l: Seq<Entity>) -> Seq<Entity>;
pub uninterp spec fn d_ent(d: Drawing, o: Entity) -> Drawing;
#[verifier::external_body]
pub fn x_add_entity(d: &mut Drawing, o: Entity) ensures *final(d) == d_ent(*old(d), o), { unimplemented!() }
pub open spec fn d_ents(d: Drawing, l: Seq<Entity>) -> Drawing decreases l.len() { if l.len() == 0 { d } else { d_ents(d_ent(d, l[0]), l.skip(1)) } }
pub open spec fn objs(d: Drawing, s: St) -> Option<(Drawing, St)> { match o_list(s) { None => None, Some((l, s2)) => Some((d_objs(d, l), s2)) } }
pub open spec fn ents(d: Drawing, s: St) -> Option<(Drawing, St)> { match e_list(s) { None => None, Some((l, s2)) => Some((d_ents(d, gath(l)), s2)) } }
pub struct ObjectIter<'a> { pub iter: &'a mut CodePairPutBack }
pub struct EntityIter<'a> { pub iter: &'a mut CodePairPutBack, pub error: Option<DxfError> }
#[verifier::external_body]
pub fn x_transpose(r: DxfResult<Option<Object>>) -> (t: Option<DxfResult<Object>>)
    ensures r is Err ==> t is Some && t->Some_0 is Err, r is Ok && r->Ok_0 is None ==> t is None, r is Ok && r->Ok_0 is Some ==> t == Some::<DxfResult<Object>>(Ok(r->Ok_0->Some_0)),
{ unimplemented!() }
// collect_entities takes what the iterator yields until it yields nothing (property C21)
#[verifier::external_body]
pub fn x_collect(it: &mut EntityIter, v: &mut Vec<Entity>) -> (r: DxfResult<()>)
    requires old(it).error is None,
    ensures (e_list(stream(*old(it).iter)) is Some) == (final(it).error is None), r is Ok,
        final(it).error is None ==> final(v)@ == old(v)@ + gath(e_list(stream(*old(it).iter))->Some_0.0) && stream(*final(it).iter) == e_list(stream(*old(it).iter))->Some_0.1,
        stream(*final(it).iter).len() <= stream(*old(it).iter).len(), *final(final(it).iter) == *final(old(it).iter),
{ unimplemented!() }
""")
    oi = Source(repo + '/src/object_iter.rs')
    f = oi.fn("Iterator for ObjectIter<'_>::next").expect_sig(r'fn next\(&mut self\) -> Option<DxfResult<Object>>')
    f.rewrite(r'Object::read\(self\.iter\)\.transpose\(\)', 'let _r = Object::read(self.iter); x_transpose(_r)', 'Result::transpose -> assumed contract', 1)
    m.raw("impl<'a> ObjectIter<'a> {\n")
    m.fn(f, 'pub fn next(&mut self) -> (r: Option<DxfResult<Object>>)', """ensures (r is Some && r->Some_0 is Err) == (o_read(stream(*old(self).iter)) is None), !(r is Some && r->Some_0 is Err) ==> (r is None) == (o_read(stream(*old(self).iter))->Some_0.0 is None) && stream(*final(self).iter) == o_read(stream(*old(self).iter))->Some_0.1
        && (r is Some ==> r->Some_0 == Ok::<Object, DxfError>(o_read(stream(*old(self).iter))->Some_0.0->Some_0)),
        stream(*final(self).iter).len() <= stream(*old(self).iter).len(), *final(final(self).iter) == *final(old(self).iter),
""")
    m.raw('}\n')
    ei = Source(repo + '/src/entity_iter.rs')
    m.raw("impl<'a> EntityIter<'a> {\n")
    f = ei.fn("Iterator for EntityIter<'_>::next").expect_sig(r'fn next\(&mut self\) -> Option<Entity>')
    m.fn(f, 'pub fn next(&mut self) -> (r: Option<Entity>)', """ensures old(self).error is Some ==> r is None && final(self).error is Some,
        old(self).error is None ==> (final(self).error is None) == (e_read(stream(*old(self).iter)) is Some) && (final(self).error is None ==> (r, stream(*final(self).iter)) == e_read(stream(*old(self).iter))->Some_0) && (final(self).error is Some ==> r is None), *final(final(self).iter) == *final(old(self).iter),
""")
    f = ei.fn('EntityIter::read_entities_into_vec').expect_sig(r'fn read_entities_into_vec\( ?&mut self, entities: &mut Vec<Entity> ?\) -> DxfResult<\(\)>')
    f.rewrite(r'collect_entities\(self, entities\)', 'x_collect(self, entities)', 'collect_entities -> assumed contract (proved in C21)', 1)
    f.rewrite(r'self\.error\.take\(\)', 'x_take(&mut self.error)', 'Option::take -> assumed contract', 1)
    m.raw("}\n#[verifier::external_body]\npub fn x_take(o: &mut Option<DxfError>) -> (r: Option<DxfError>) ensures r == *old(o), *final(o) is None, { o.take() }\nimpl<'a> EntityIter<'a> {\n")
    m.fn(f, 'pub fn read_entities_into_vec(&mut self, entities: &mut Vec<Entity>) -> (r: DxfResult<()>)', """requires old(self).error is None,
        ensures r is Ok == (e_list(stream(*old(self).iter)) is Some), r is Ok ==> final(entities)@ == old(entities)@ + gath(e_list(stream(*old(self).iter))->Some_0.0) && stream(*final(self).iter) == e_list(stream(*old(self).iter))->Some_0.1,
        stream(*final(self).iter).len() <= stream(*old(self).iter).len(), *final(final(self).iter) == *final(old(self).iter),
""")
    f = ei.fn('EntityIter::new').expect_sig(r"fn new\( ?iter: &'a mut CodePairPutBack ?\) -> Self")
    m.fn(f, "pub fn new(iter: &'a mut CodePairPutBack) -> (r: Self)", 'ensures r.error is None, *r.iter == *old(iter), *final(iter) == *final(r.iter),')
    m.raw('}\n')
    d = Source(repo + '/src/drawing.rs')
    f = d.fn('Drawing::read_objects').expect_sig(r'fn read_objects\( ?&mut self, iter: &mut CodePairPutBack ?\) -> DxfResult<\(\)>')
    f.rewrite(r'if o\.common\.handle\.is_empty\(\) \{\s*self\.add_object\(o\);\s*\} else \{\s*self\.add_object_no_handle_set\(o\);\s*\}', 'x_add_object(self, o);', 'adding an object (C07) -> assumed contract', 1)
    f.rewrite(r'for o in \(ObjectIter \{ iter \}\) \{', 'let mut _it = ObjectIter { iter };\nlet ghost _d0 = *self; let ghost _s0 = stream(*_it.iter); let ghost _f = *final(_it.iter);\nloop { let o = match _it.next() { None => { break; } Some(_o) => _o };', 'for loop written as its definition', 1)
    f.annotate_loops([(r'loop', None, """invariant_except_break (o_list(_s0) is Some) == (o_list(stream(*_it.iter)) is Some), o_list(_s0) is Some ==> o_list(_s0)->Some_0.1 == o_list(stream(*_it.iter))->Some_0.1 && d_objs(_d0, o_list(_s0)->Some_0.0) == d_objs(*self, o_list(stream(*_it.iter))->Some_0.0),
        invariant stream(*_it.iter).len() <= _s0.len(), _s0 == stream(*old(iter)), _d0 == *old(self), *final(_it.iter) == _f,
        ensures o_list(_s0) is Some, stream(*_it.iter) == o_list(_s0)->Some_0.1, *self == d_objs(_d0, o_list(_s0)->Some_0.0), stream(*_it.iter).len() <= _s0.len(),
        decreases stream(*_it.iter).len(),""", """let ghost _s = stream(*_it.iter); proof { lemma_o_shorter(_s);
          if o_read(_s) is Some && o_read(_s)->Some_0.0 is Some { let s2 = o_read(_s)->Some_0.1; let o = o_read(_s)->Some_0.0->Some_0; if o_list(s2) is Some { let l = o_list(s2)->Some_0.0; assert((seq![o] + l)[0] == o); assert((seq![o] + l).skip(1) =~= l); } } }
""", '')])
    SEC = 'ensures r is Ok == (%s(*old(self), stream(*old(iter))) is Some), r is Ok ==> (*final(self), stream(*final(iter))) == %s(*old(self), stream(*old(iter)))->Some_0,\n r is Ok ==> ' + DEC
    m.fn(f, 'fn read_objects(&mut self, iter: &mut CodePairPutBack) -> (r: DxfResult<()>)', SEC % ('objs', 'objs'), 'Drawing')
    f = d.fn('Drawing::read_entities').expect_sig(r'fn read_entities\( ?&mut self, iter: &mut CodePairPutBack ?\) -> DxfResult<\(\)>')
    f.rewrite(r'if e\.common\.handle\.is_empty\(\) \{\s*self\.add_entity\(e\);\s*\} else \{\s*self\.add_entity_no_handle_set\(e\);\s*\}', 'x_add_entity(self, e);', 'adding an entity (C07) -> assumed contract', 1)
    f.rewrite(r'let mut entities = vec!\[\];', 'let mut entities: Vec<Entity> = Vec::new(); let ghost _s0 = stream(*iter.iter); let ghost _d0 = *self;', 'vec![] typed', 1)
    f.rewrite(r'(iter\.read_entities_into_vec\(&mut entities\)\?;)', r'\1 let ghost _l = gath(e_list(_s0)->Some_0.0); proof { assert(entities@ =~= _l); assert(_l.skip(0) =~= _l); }', 'ghost', 1)
    f.annotate_loops([(r'for e in entities', 'for e in it: entities', """invariant it.seq() == _l, it.index@ <= _l.len(), d_ents(*self, _l.skip(it.index@ as int)) == d_ents(_d0, _l),""", 'proof { assert(_l.skip(it.index@)[0] == _l[it.index@]); assert(_l.skip(it.index@).skip(1) =~= _l.skip(it.index@ + 1)); }\n', '')])
    m.fn(f, 'fn read_entities(&mut self, iter: &mut CodePairPutBack) -> (r: DxfResult<()>)', SEC % ('ents', 'ents'), 'Drawing')


TABLES = {'app_ids': 'APPID', 'block_records': 'BLOCK_RECORD', 'dim_styles': 'DIMSTYLE', 'line_types': 'LTYPE', 'layers': 'LAYER', 'styles': 'STYLE', 'ucss': 'UCS', 'views': 'VIEW', 'view_ports': 'VPORT'}


def header(m, repo):
    m.raw(m.spec('c20c.rs').replace('{ TABLES }', '{ %s }' % ' || '.join('n == "%s"@' % t for t in TABLES.values())))
    f = Source(repo + '/src/header.rs').fn('Header::read').expect_sig(r'fn read\( ?iter: &mut CodePairPutBack ?\) -> DxfResult<Header>')
    pats(f)
    f.rewrite(r'header\.version >= AcadVersion::R2007', 'x_from_2007(&header)', 'test of the version: no effect on the pairs', 1)
    f.rewrite(r'iter\.read_as_utf8\(\);', '', 'change of the text encoding: not part of the stream of pairs', 1)
    D = 'h_read(h_default(), stream(*old(iter)))'
    f.annotate_loops([
        (r'loop', None, """invariant_except_break %s == h_read(header, stream(*iter)),
         invariant stream(*iter).len() <= stream(*old(iter)).len(),
         ensures %s == Some((header, stream(*iter))), stream(*iter).len() <= stream(*old(iter)).len(), decreases stream(*iter).len(),""" % (D, D), 'let ghost _s = stream(*iter); let ghost _h = header; let ghost _t = _s;' + HEAD, ''),
        (r'loop', None, """invariant_except_break h_vals(header, last_header_variable@, stream(*iter)) == h_vals(_h, last_header_variable@, _s.skip(1)),
         invariant stream(*iter).len() < _s.len(), _s.len() <= stream(*old(iter)).len(), _rd == %s, h_vals(_h, last_header_variable@, _s.skip(1)) is None ==> _rd is None,
         ensures stream(*iter).len() < _s.len(), h_vals(_h, last_header_variable@, _s.skip(1)) == Some((header, stream(*iter))), decreases stream(*iter).len(),""" % D, 'let ghost _t = stream(*iter); ' + HEAD, ''),
    ])
    f.rewrite(r'(let last_header_variable = [^;]*;)', r'\1 let ghost _rd = %s; proof { assert(is9(_s)); }' % D.replace('\\', ''), 'ghost', 1)
    f.rewrite(r'None => break', 'None => { proof { assert(stream(*iter) =~= _t); } break }', 'ghost step')
    m.fn(f, 'pub fn read(iter: &mut CodePairPutBack) -> (r: DxfResult<Header>)', 'ensures r is Ok == (%s is Some), r is Ok ==> (r->Ok_0, stream(*final(iter))) == %s->Some_0,\n' % (D, D) + DEC, 'Header')


def tables(m, repo):
    gs = Source(generated_dir() + '/tables.rs')
    f = gs.fn('read_specific_table').expect_sig(r'fn read_specific_table\(drawing: &mut Drawing, iter: &mut CodePairPutBack\) -> DxfResult<\(\)>')
    f.rewrite(r'\bread_(\w+)\(drawing, iter\)', lambda x: 'x_table(drawing, iter, "%s")' % TABLES[x.group(1)], 'reader of one table -> assumed contract')
    pats(f)
    f.insert_start(HEAD)
    m.fn(f, 'pub fn read_specific_table(drawing: &mut Drawing, iter: &mut CodePairPutBack) -> (r: DxfResult<()>)', 'ensures r is Ok == (t_read(*old(drawing), stream(*old(iter))) is Some), r is Ok ==> (*final(drawing), stream(*final(iter))) == t_read(*old(drawing), stream(*old(iter)))->Some_0,\n' + DEC)
    d = Source(repo + '/src/drawing.rs')
    for name, cb, tab in (('x_section_tables', 'read_specific_table', 'true'), ('x_section_blocks', 'x_block', 'false')):
        f = d.fn('Drawing::read_section_item').expect_sig(r'fn read_section_item<F>\( ?&mut self, iter: &mut CodePairPutBack, item_type: &str, callback: F,? ?\) -> DxfResult<\(\)> where F: Fn\(&mut Drawing, &mut CodePairPutBack\) -> DxfResult<\(\)>,?')
        f.rewrite(r'\bcallback\(self, iter\)', cb + '(self, iter)', 'the callback instantiated with %s' % cb, 1)
        f.rewrite(r'\bval == item_type\b', 'x_eq(val, item_type)', 'str == str -> assumed contract', 1)
        pats(f)
        X = 'items(%s, item_type@, *old(self), stream(*old(iter)))' % tab
        f.annotate_loops([(r'loop', None, """invariant_except_break %s == items(%s, item_type@, *self, stream(*iter)),
            invariant stream(*iter).len() <= stream(*old(iter)).len(),
            ensures %s == Some((*self, stream(*iter))), stream(*iter).len() <= stream(*old(iter)).len(), decreases stream(*iter).len(),""" % (X, tab, X), HEAD, '')])
        m.fn(f, 'fn %s(&mut self, iter: &mut CodePairPutBack, item_type: &str) -> (r: DxfResult<()>)' % name, 'ensures r is Ok == (%s is Some), r is Ok ==> (*final(self), stream(*final(iter))) == %s->Some_0,\n' % (X, X) + DEC, 'Drawing')


def sections(m, repo):
    f = Source(repo + '/src/drawing.rs').fn('Drawing::read_sections').expect_sig(r'fn read_sections\( ?drawing: &mut Drawing, iter: &mut CodePairPutBack ?\) -> DxfResult<\(\)>')
    f.rewrite(r'Class::read_classes\(drawing, iter\)', 'x_classes(drawing, iter)', 'Class::read_classes -> assumed contract', 1)
    f.rewrite(r'drawing\.read_section_item\(iter, ("\w+"), read_specific_table\)', r'drawing.x_section_tables(iter, \1)', 'instantiated', 1)
    f.rewrite(r'drawing\.read_section_item\(iter, ("\w+"), Block::read_block\)', r'drawing.x_section_blocks(iter, \1)', 'instantiated', 1)
    f.rewrite(r'thumbnail::read_thumbnail\(iter\)', 'x_thumb(iter)', 'read_thumbnail -> assumed contract (C23)', 1)
    pats(f)
    X = 'secs(*old(drawing), stream(*old(iter)))'
    f.annotate_loops([(r'loop', None, """invariant_except_break %s == secs(*drawing, stream(*iter)),
            invariant stream(*iter).len() <= stream(*old(iter)).len(),
            ensures %s == Some((*drawing, stream(*iter))), stream(*iter).len() <= stream(*old(iter)).len(), decreases stream(*iter).len(),""" % (X, X), 'let ghost _t = stream(*iter); ' + HEAD, '')])
    f.rewrite(r'None => break', 'None => { proof { assert(stream(*iter) =~= _t); } break }', 'ghost step')
    m.fn(f, '#[verifier::rlimit(100)]\nfn read_sections(drawing: &mut Drawing, iter: &mut CodePairPutBack) -> (r: DxfResult<()>)', 'ensures r is Ok == (%s is Some), r is Ok ==> (*final(drawing), stream(*final(iter))) == %s->Some_0,\n r is Ok ==> ' % (X, X) + DEC, 'Drawing')


def build(repo, spec):
    m = pairs_base(repo, spec)
    m.raw('impl CodePair {\npub fn is_str(&self) -> (r: bool) ensures r == (g_str(pv(*self)) is Some), { match self.value { CodePairValue::Str(_) => true, _ => false } }\n}\n')
    m.s('c20.rs')
    d = Source(repo + '/src/drawing.rs')
    m.raw('#[verifier::external_body]\npub struct XRest { x: () }\n#[verifier::external_body]\npub struct XImage { x: () }\n#[verifier::external_body]\npub struct Header { x: () }\npub struct Drawing { pub header: Header, pub thumbnail: Option<XImage>, pub x_rest: XRest }\n')
    m.log.append('Drawing: every field but header and thumbnail is one opaque value; Header is opaque')
    swallow(m, d.fn('Drawing::swallow_section').expect_sig(r'fn swallow_section\( ?iter: &mut CodePairPutBack ?\) -> DxfResult<\(\)>'), 'fn swallow_section(iter: &mut CodePairPutBack) -> (r: DxfResult<()>)', 'to_sec', 'Drawing')
    swallow(m, d.fn('Drawing::swallow_table').expect_sig(r'fn swallow_table\( ?iter: &mut CodePairPutBack ?\) -> DxfResult<\(\)>'), 'fn swallow_table(iter: &mut CodePairPutBack) -> (r: DxfResult<()>)', 'to_tab', 'Drawing')
    records(m, repo, 'Object', 'Some((o, c, s1)) => match (if c { Some((o, s1)) } else { o_body(o, s1) }) { None => None, Some((o2, s2)) => match o_post(o2) { None => None, Some(o3) => Some((o3, s2)) } }')
    records(m, repo, 'Entity', 'Some((o, c, s1)) => if c { Some((o, s1)) } else { match e_body(o, s1) { None => None, Some((o2, s2)) => match e_post(o2) { None => None, Some(o3) => Some((o3, s2)) } } }',
            'else if txt(s) == Some("DIMENSION"@) { match e_dim(s.skip(1)) { None => None, Some((Some(e), s2)) => if s2.len() < s.len() { Some((Some(e), s2)) } else { None }, Some((None, s2)) => if s2.len() < s.len() { e_read(s2) } else { None } } }')
    m.s('c20b.rs')
    lists(m, repo)
    header(m, repo)
    tables(m, repo)
    sections(m, repo)
    return m.done()
