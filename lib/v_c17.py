from pieces import pairs_base, hex_fns, item_text, versions, versioned
from rustx import Source, LostAnchor, match_close
from v_c20 import pats, HEAD, DEC
from fold import fold, unfold
import re


def code_consts(f):
    """Str(a) pushes and other shared rewrites of the writers"""
    f.rewrite(r'String::from\(("(?:[^"\\]|\\.)*")\)', r'x_msg(\1)', 'String::from(literal) -> assumed contract')
    return f


def pushes(f):
    f.insert_start('proof { assert forall|s: Seq<CodePair>, p: CodePair| #[trigger] pvs(s.push(p)) == pvs(s).push(pv(p)) by { lemma_pvs_push(s, p); } }\n')
    return f


def helpers(m, repo):
    h = Source(repo + '/src/helper_functions.rs')
    m.fn(h.fn('as_bool').expect_sig(r'fn as_bool\( ?v: i16 ?\) -> bool'), 'pub fn as_bool(v: i16) -> (r: bool)', 'ensures r == (v == 1),')
    m.fn(h.fn('as_i16').expect_sig(r'fn as_i16\( ?b: bool ?\) -> i16'), 'pub fn as_i16(b: bool) -> (r: i16)', 'ensures r == (if b { 1i16 } else { 0i16 }),')


def classes(m, repo):
    src = Source(repo + '/src/class.rs')
    m.raw(item_text(src, 'struct', 'Class'))
    m.raw('pub struct Header { pub version: AcadVersion }\n#[verifier::external_body]\npub struct XRest { x: () }\npub struct Drawing { pub header: Header, pub classes: Vec<Class>, pub blocks: Vec<Block>, pub rest: XRest }\n')
    m.log.append('Drawing: every field but header, classes and blocks is one opaque value; Header: every field but version dropped')
    m.s('c17.rs')
    m.raw(fold('c', 'SC', [('v', 'AcadVersion')]))
    m.raw(m.spec('c17b.rs').replace('UNFOLD_C', unfold('c', ['v'], 'x')))
    f = src.fn('Default for Class::default').expect_sig(r'fn default\(\) -> Self')
    f.insert_start('proof { reveal_strlit(""); }')
    m.fn(f, 'pub fn default() -> (r: Self)', 'ensures cv(r) == c_default(),', 'Class')
    f = versioned(src.fn('Class::read_class').expect_sig(r'fn read_class\( ?typ: &str, drawing: &mut Drawing, iter: &mut CodePairPutBack ?\) -> DxfResult<\(\)>'))
    pats(f)
    f.rewrite(r'\btyp\.to_string\(\)', 'x_str_string(typ)', 'str::to_string -> assumed contract')
    f.annotate_loops([(r'loop', None, '''invariant_except_break c_fold(_v, _c0, _s0) == c_fold(_v, cv(class), stream(*iter)),
        invariant *drawing == *old(drawing), _v == drawing.header.version, _s0 == stream(*old(iter)), _c0 == c_start(_v, typ@), stream(*iter).len() <= _s0.len(),
        ensures c_fold(_v, _c0, _s0) == Some((cv(class), stream(*iter))),
        decreases stream(*iter).len(),''', 'let ghost _t = stream(*iter); let ghost _c = cv(class);' + HEAD, '')])
    f.rewrite(r'(\n\s*)(loop\n)', r'\1let ghost _v = drawing.header.version; let ghost _c0 = cv(class); let ghost _s0 = stream(*iter);\1\2', 'ghost copies', 1)
    f.insert_before_tail('proof { assert(cvs(drawing.classes@) =~= cvs(old(drawing).classes@).push(cv(class))); }') if False else None
    f.rewrite(r'drawing\.classes\.push\(class\);', 'proof { assert(cvs(drawing.classes@.push(class)) =~= cvs(drawing.classes@).push(cv(class))); } drawing.classes.push(class);', 'ghost step', 1)
    m.fn(f, '#[verifier::truncate]\nfn read_class(typ: &str, drawing: &mut Drawing, iter: &mut CodePairPutBack) -> (r: DxfResult<()>)', '''ensures ({ let x = c_fold(old(drawing).header.version, c_start(old(drawing).header.version, typ@), stream(*old(iter)));
        r is Ok == (x is Some) && (r is Ok ==> (cvs(final(drawing).classes@), stream(*final(iter))) == (cvs(old(drawing).classes@).push(x->Some_0.0), x->Some_0.1)) }),
        final(drawing).header == old(drawing).header, final(drawing).blocks == old(drawing).blocks, final(drawing).rest == old(drawing).rest, ''' + DEC, 'Class')
    f = src.fn('Class::read_classes').expect_sig(r'fn read_classes\( ?drawing: &mut Drawing, iter: &mut CodePairPutBack ?\) -> DxfResult<\(\)>')
    pats(f)
    f.annotate_loops([(r'loop', None, '''invariant_except_break (match c_list(_v, _s0) {
                Some((l, q)) => c_list(_v, stream(*iter)) is Some && ({ let (w, q2) = c_list(_v, stream(*iter))->Some_0; q2 == q && cvs(old(drawing).classes@) + l == cvs(drawing.classes@) + w }),
                None => c_list(_v, stream(*iter)) is None }),
        invariant _v == drawing.header.version, _v == old(drawing).header.version, drawing.header == old(drawing).header, drawing.blocks == old(drawing).blocks, drawing.rest == old(drawing).rest, _s0 == stream(*old(iter)), stream(*iter).len() <= _s0.len(),
        ensures c_list(_v, _s0) is Some, stream(*iter) == c_list(_v, _s0)->Some_0.1, cvs(drawing.classes@) == cvs(old(drawing).classes@) + c_list(_v, _s0)->Some_0.0,
        decreases stream(*iter).len(),''', 'let ghost _t = stream(*iter); let ghost _d = cvs(drawing.classes@);' + HEAD
                       + 'proof { assert(_d + Seq::<SC>::empty() =~= _d); if is0(_t) && txt(_t) is Some { let c0 = c_start(_v, txt(_t)->Some_0); lemma_c_len(_v, c0, _t.skip(1)); if c_fold(_v, c0, _t.skip(1)) is Some { let c = c_fold(_v, c0, _t.skip(1))->Some_0.0; assert forall|w: Seq<SC>| #[trigger] (_d + (seq![c] + w)) =~= _d.push(c) + w by {} } } }', '')])
    f.insert_start('let ghost _v = drawing.header.version; let ghost _s0 = stream(*iter); ')
    m.fn(f, 'pub fn read_classes(drawing: &mut Drawing, iter: &mut CodePairPutBack) -> (r: DxfResult<()>)', '''ensures ({ let x = c_list(old(drawing).header.version, stream(*old(iter)));
        r is Ok == (x is Some) && (r is Ok ==> (cvs(final(drawing).classes@), stream(*final(iter))) == (cvs(old(drawing).classes@) + x->Some_0.0, x->Some_0.1)) }),
        final(drawing).header == old(drawing).header, final(drawing).blocks == old(drawing).blocks, ''' + DEC, 'Class')
    f = pushes(versioned(src.fn('Class::add_code_pairs').expect_sig(r'fn add_code_pairs\( ?&self, pairs: &mut Vec<CodePair>, version: AcadVersion ?\)')))
    f.body = f.body.rstrip()[:-1] + ' proof { assert(pvs(pairs@) =~= pvs(old(pairs)@) + c_enc(version, cv(*self))); } }'
    m.fn(f, '#[verifier::truncate]\npub fn add_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion)', 'ensures pvs(final(pairs)@) == pvs(old(pairs)@) + c_enc(version, cv(*self)),', 'Class')
    d = Source(repo + '/src/drawing.rs')
    f = pushes(d.fn('Drawing::add_classes_pairs').expect_sig(r'fn add_classes_pairs\( ?&self, pairs: &mut Vec<CodePair> ?\)'))
    f.rewrite(r'self\.classes\.is_empty\(\)', '(self.classes.len() == 0)', 'Vec::is_empty -> len() == 0')
    f.annotate_loops([(r'for (\w+) in &self\.classes', r'for i in 0..self.classes.len()', '''invariant
            pvs(pairs@) == pvs(old(pairs)@) + seq![p_str(0, "SECTION"@), p_str(2, "CLASSES"@)] + c_encs(self.header.version, cvs(self.classes@.take(i as int))),''',
                       'let c = &self.classes[i]; proof { assert(cvs(self.classes@.take(i + 1)).drop_last() =~= cvs(self.classes@.take(i as int))); assert(cvs(self.classes@.take(i + 1)).last() == cv(*c)); }',
                       ' proof { assert(pvs(pairs@) =~= pvs(old(pairs)@) + seq![p_str(0, "SECTION"@), p_str(2, "CLASSES"@)] + c_encs(self.header.version, cvs(self.classes@.take(i + 1)))); }')])
    f.rewrite(r'(\n\s*)(for i in)', r'\1proof { assert(cvs(self.classes@.take(0)) =~= seq![]); assert(pvs(pairs@) =~= pvs(old(pairs)@) + seq![p_str(0, "SECTION"@), p_str(2, "CLASSES"@)] + c_encs(self.header.version, cvs(self.classes@.take(0)))); }\1\2', 'ghost step', 1)
    f.body = f.body.rstrip()[:-1] + ' proof { assert(self.classes@.take(self.classes@.len() as int) =~= self.classes@); assert(pvs(pairs@) =~= pvs(old(pairs)@) + seq![p_str(0, "SECTION"@), p_str(2, "CLASSES"@)] + c_encs(self.header.version, cvs(self.classes@)) + seq![p_str(0, "ENDSEC"@)]); } }'
    f.log.append('Drawing::add_classes_pairs: `for x in &v` written as an index loop')
    m.fn(f, 'pub fn add_classes_pairs(&self, pairs: &mut Vec<CodePair>)', '''ensures self.classes@.len() == 0 ==> pvs(final(pairs)@) == pvs(old(pairs)@),
        self.classes@.len() > 0 ==> pvs(final(pairs)@) == pvs(old(pairs)@) + seq![p_str(0, "SECTION"@), p_str(2, "CLASSES"@)] + c_encs(self.header.version, cvs(self.classes@)) + seq![p_str(0, "ENDSEC"@)],''', 'Drawing')


def arms_to_ifs(f):
    """`match pair { CodePair { code: 0, value: CodePairValue::Str(ref s), .. } if s == "T" => A, CodePair { code: 0, .. } => B, _ => C }` -> if-chain"""
    mm = [x for x in re.finditer(r'\bmatch pair \{', f.body)]
    if len(mm) != 1:
        raise LostAnchor('%s: match on a pair' % f.path)
    o = f.body.index('{', mm[0].start())
    arms, e = f._arms(f.body, o)
    out = ''
    for pat, g, body in arms:
        if g:
            k = re.fullmatch(r'(?:pair @ )?CodePair \{ ?code: (\d+), value: CodePairValue::Str\(ref (\w+)\), \.\. ?\}', pat)
            t = re.fullmatch(r'(\w+) == ("\w+")', g)
            if not k or not t or t.group(1) != k.group(2):
                raise LostAnchor('%s: arm %s' % (f.path, pat))
            out += 'if x_is(&pair, %s, %s) %s else ' % (k.group(1), t.group(2), body)
        elif pat == '_':
            out += body
        else:
            k = re.fullmatch(r'CodePair \{ ?code: (\d+), \.\. ?\}', pat)
            if not k:
                raise LostAnchor('%s: arm %s' % (f.path, pat))
            out += 'if pair.code == %s %s else ' % (k.group(1), body)
    if pat != '_':
        raise LostAnchor('%s: no last arm' % f.path)
    f.body = f.body[:mm[0].start()] + '{ ' + out + ' }' + f.body[e:]
    f.log.append('%s: match on the whole pair written as an if-chain' % f.path)


def each(f, var, vec, inv, start, end):
    pass


def STEP_(a, e, b):
    w = re.match(r'\w+', e).group(0)
    return ' proof { reveal(%s); assert(pvs(pairs@) %s %s + (%s)); } let ghost %s = pvs(pairs@); proof { lemma_p0(%s); }\n' % (w, '==', a, e, b, b)


class _S:
    def __mod__(self, t):
        return STEP_(*t)


STEP = _S()


def blocks(m, repo):
    src = Source(repo + '/src/block.rs')
    m.s('hex.rs')
    m.add(hex_fns(repo))
    ps = Source(repo + '/src/point.rs')
    m.raw(item_text(ps, 'struct', 'Point'))
    m.fn(ps.fn('Point::new').expect_sig(r'fn new\( ?x: f64, y: f64, z: f64 ?\) -> (Self|Point)'), 'pub fn new(x: f64, y: f64, z: f64) -> (r: Point)', 'ensures r.x == x, r.y == y, r.z == z,', 'Point')
    m.fn(ps.fn('Point::origin').expect_sig(r'fn origin\(\) -> (Self|Point)'), 'pub fn origin() -> (r: Point)', 'ensures r.x == 0.0f64, r.y == 0.0f64, r.z == 0.0f64,', 'Point')
    m.s('c17c.rs')
    m.raw(item_text(src, 'struct', 'Block'))
    m.s('c17d.rs')
    m.raw(fold('b', 'SB', [], stop='endblk(s)', stop1='p.code == 0'))
    m.raw(m.spec('c17e.rs').replace('UNFOLD0', unfold('b', [], 'x0')).replace('UNFOLDX', unfold('b', [], 'x')))
    m.raw("""
impl Drawing {
// proved elsewhere: C06 (fresh handles), C07/C09 (adding a block leaves its fields alone, and gives its entities handles)
#[verifier::external_body]
pub fn next_handle(&mut self) -> (r: Handle) ensures r.0 != 0, final(self).blocks == old(self).blocks, final(self).classes == old(self).classes, final(self).header.version == old(self).header.version, { unimplemented!() }
#[verifier::external_body]
pub fn add_block_no_handle_set(&mut self, block: Block)
    ensures bvs(final(self).blocks@).len() == bvs(old(self).blocks@).len() + 1, bvs(final(self).blocks@).take(bvs(old(self).blocks@).len() as int) == bvs(old(self).blocks@), bv(block).h != 0 ==> b_same(bvs(final(self).blocks@).last(), bv(block)),
        final(self).classes == old(self).classes, final(self).header.version == old(self).header.version,
{ unimplemented!() }
}
""")
    m.log.append('Drawing::next_handle, Drawing::add_block_no_handle_set: assumed contracts here (proved over the real code in C06, C07 and C09)')
    f = src.fn('Default for Block::default').expect_sig(r'fn default\(\) -> Self')
    f.rewrite(r'String::from\(("[^"]*")\)', r'x_str_string(\1)', 'String::from -> assumed contract')
    f.body = re.sub(r'Block \{(.*)\}\s*\}\s*$', r'let r = Block {\1}; proof { assert(ezs(r.entities@) =~= seq![]); assert(gzs(r.extension_data_groups@) =~= seq![]); assert(xzs(r.x_data@) =~= seq![]); } r }', f.body, flags=re.S)
    m.fn(f, 'pub fn default() -> (r: Self)', 'ensures bv(r) == b_default(),', 'Block')
    f = src.fn('Block::read_block').expect_sig(r'fn read_block\( ?drawing: &mut Drawing, iter: &mut CodePairPutBack ?\) -> DxfResult<\(\)>')
    arms_to_ifs(f)
    f.rewrite(r'let mut iter = EntityIter::new\(iter\);\s*iter\.read_entities_into_vec\(&mut current\.entities\)\?;', 'x_read_entities(iter, &mut current.entities)?; ', 'EntityIter::read_entities_into_vec -> assumed contract (C20)', 1)
    for file, c in (('extension_data', 'EXTENSION_DATA_GROUP'), ('x_data', 'XDATA_APPLICATIONNAME')):
        val = re.search(r'const %s: i32 = (\d+);' % c, Source('%s/src/%s.rs' % (repo, file)).src).group(1)
        f.rewrite(r'%s::%s\b' % (file, c), val, 'constant by its value', 1)
    f.rewrite(r'i32::from\((pair\.assert_i16\(\)\?)\)', r'(\1 as i32)', 'i32::from(i16) -> as')
    f.rewrite(r'(current\.extension_data_groups)\.push\(group\);', r'proof { assert(gzs(\1@.push(group)) =~= gzs(\1@).push(gz(group))); } \1.push(group);', 'ghost step', 1)
    f.rewrite(r'(current\.x_data)\.push\(x\);', r'proof { assert(xzs(\1@.push(x)) =~= xzs(\1@).push(xz(x))); } \1.push(x);', 'ghost step', 1)
    pats(f)
    FR = 'bvs(drawing.blocks@) == bvs(old(drawing).blocks@), drawing.classes == old(drawing).classes, drawing.header.version == old(drawing).header.version,'
    DONE = 'b_rec(_s0) is Some ==> stream(*iter) == b_rec(_s0)->Some_0.1 && added(bvs(old(drawing).blocks@), bvs(drawing.blocks@), seq![b_rec(_s0)->Some_0.0])'
    f.annotate_loops([(r'loop', None, """invariant_except_break b_fold(b_default(), _s0) is Some ==> b_fold(bv(current), stream(*iter)) == b_fold(b_default(), _s0), """ + FR + """
        invariant _s0 == stream(*old(iter)), stream(*iter).len() <= _s0.len(),
        ensures """ + DONE + """, stream(*iter).len() <= _s0.len(), drawing.classes == old(drawing).classes, drawing.header.version == old(drawing).header.version,
        decreases stream(*iter).len(),""", 'let ghost _t = stream(*iter); ' + HEAD, ''),
                      (r'loop', None, """invariant_except_break to_0(_t.skip(1)) == to_0(stream(*iter)),
        invariant b_fold(b_default(), _s0) is Some ==> b_fold(b_default(), _s0) == Some((bv(current), _t)), stream(*iter).len() <= _s0.len(), _s0 == stream(*old(iter)), stream(*iter).len() < _t.len(), """ + FR + """
        ensures to_0(_t.skip(1)) == Some(stream(*iter)),
        decreases stream(*iter).len(),""", HEAD, '')])
    f.rewrite(r'(if current\.handle\.is_empty\(\))', r'let ghost _b = bv(current); \1', 'ghost copy', 1)
    f.rewrite(r'(drawing\.add_block_no_handle_set\(current\);)', r'let ghost _c = bv(current); \1 proof { if b_rec(_s0) is Some { let b = b_rec(_s0)->Some_0.0; assert(b == _b); lemma_added0(bvs(old(drawing).blocks@)); assert(b_same(bvs(drawing.blocks@).last(), b)); lemma_added(bvs(old(drawing).blocks@), bvs(old(drawing).blocks@), bvs(drawing.blocks@), seq![], b); assert(Seq::<SB>::empty().push(b) =~= seq![b]); } }', 'ghost step', 1)
    f.insert_start('let ghost _s0 = stream(*iter); ')
    m.fn(f, 'pub fn read_block(drawing: &mut Drawing, iter: &mut CodePairPutBack) -> (r: DxfResult<()>)', """ensures ({ let x = b_rec(stream(*old(iter))); x is Some ==> r is Ok && stream(*final(iter)) == x->Some_0.1 && added(bvs(old(drawing).blocks@), bvs(final(drawing).blocks@), seq![x->Some_0.0]) }),
        final(drawing).classes == old(drawing).classes, final(drawing).header.version == old(drawing).header.version, """ + DEC, 'Block')
    f = versioned(src.fn('Block::add_code_pairs').expect_sig(r'fn add_code_pairs\( ?&self, pairs: &mut Vec<CodePair>, version: AcadVersion, write_handles: bool,? ?\)'))
    f.rewrite(r'self\.description\.is_empty\(\)', 'x_empty(&self.description)', 'String::is_empty -> assumed contract')
    m.raw('#[verifier::external_body]\npub fn x_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0), { s.is_empty() }\n')

    def loop(var, vec, views, encs, enc_args, n):
        V = '%s(self.%s@.take(i as int))' % (views, vec)
        V1 = '%s(self.%s@.take(i + 1))' % (views, vec)
        return (r'for %s in &self\.%s' % (var, vec), 'for i in 0..self.%s.len()' % vec, 'invariant pvs(pairs@) == _p%d + %s(%s%s),' % (n, encs, enc_args, V),
                'let %s = &self.%s[i]; proof { assert(%s.drop_last() =~= %s); }' % (var, vec, V1, V),
                ' proof { assert(pvs(pairs@) =~= _p%d + %s(%s%s)); }' % (n, encs, enc_args, V1))
    f.annotate_loops([loop('group', 'extension_data_groups', 'gzs', 'gz_encs', '', 0), loop('x', 'x_data', 'xzs', 'xz_encs', 'version, ', 1), loop('e', 'entities', 'ezs', 'ez_encs', 'version, write_handles, ', 2), loop('group', 'extension_data_groups', 'gzs', 'gz_encs', '', 3)])
    k = iter(range(9))
    E = [('extension_data_groups', 'gzs', 'gz_encs', ''), ('x_data', 'xzs', 'xz_encs', 'version, '), ('entities', 'ezs', 'ez_encs', 'version, write_handles, '), ('extension_data_groups', 'gzs', 'gz_encs', '')]

    def pre(mm):
        n = next(k)
        vec, views, encs, a = E[n]
        return 'let ghost _p%d = pvs(pairs@); proof { assert(%s(self.%s@.take(0)) =~= seq![]); assert(_p%d + %s(%s%s(self.%s@.take(0))) =~= _p%d); assert(self.%s@.take(self.%s@.len() as int) =~= self.%s@); } %s' % (n, views, vec, n, encs, a, views, vec, n, vec, vec, vec, mm.group(0))
    f.body = re.sub(r'for i in ', pre, f.body)
    for n in (3, 0):
        i = f.body.index('let ghost _p%d' % n)
        j = f.body.rindex('{', 0, i)
        if not re.search(r'if x_ver_ge\(version, AcadVersion::R14\) $', f.body[:j]):
            raise LostAnchor('Block::add_code_pairs: the groups are not written from R14 on')
        e = match_close(f.body, j)
        f.body = f.body[:e] + STEP % ((('_q0', 'b_groups(version, _v)', '_q1') if n == 0 else ('_q4', 'b_groups(version, _v)', '_q5'))) + f.body[e:]
        k = re.search(r'if x_ver_ge\(version, AcadVersion::R14\) $', f.body[:j]).start()
        f.body = f.body[:k] + STEP % ((('_o', 'b0(version, write_handles, _v)', '_q0') if n == 0 else ('_q3', 'b_tail0(version, write_handles, _v)', '_q4'))) + f.body[k:]
    f.rewrite(r'(let ghost _p1 = )', STEP % ('_q1', 'b2(version, _v)', '_q2') + r'\1', 'ghost step', 1)
    f.rewrite(r'(let ghost _p2 = )', STEP % ('_q2', 'xz_encs(version, _v.xd)', '_qx') + r'\1', 'ghost step', 1)
    f.rewrite(r'(pairs\.push\(CodePair::new_str\(0, "ENDBLK"\)\);)', STEP % ('_qx', 'ez_encs(version, write_handles, _v.ents)', '_q3') + r'\1', 'ghost step', 1)
    pushes(f)
    f.insert_start('hide(b0); hide(b2); hide(b_tail0); hide(b_tail2); let ghost _o = pvs(pairs@); let ghost _v = bv(*self); proof { lemma_p0(_o); assert forall|a: Seq<SP>, s: Seq<SP>, p: SP| #[trigger] (a + s).push(p) == a + s.push(p) by { lemma_pp(a, s, p); } }')
    f.body = f.body.rstrip()[:-1] + STEP % ('_q5', 'b_tail2(version, _v)', '_q6') + ' proof { lemma_b_cat(_o, b0(version, write_handles, _v), b_groups(version, _v), b2(version, _v), xz_encs(version, _v.xd), ez_encs(version, write_handles, _v.ents), b_tail0(version, write_handles, _v), b_tail2(version, _v)); } }'
    f.log.append('Block::add_code_pairs: `for x in &v` written as an index loop')
    m.fn(f, '#[verifier::truncate]\n#[verifier::rlimit(40)]\npub fn add_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion, write_handles: bool)', 'ensures pvs(final(pairs)@) == pvs(old(pairs)@) + b_enc(version, write_handles, bv(*self)),', 'Block')
    d = Source(repo + '/src/drawing.rs')
    f = d.fn('Drawing::read_section_item').expect_sig(r'fn read_section_item<F>\( ?&mut self, iter: &mut CodePairPutBack, item_type: &str, callback: F,? ?\) -> DxfResult<\(\)> where F: Fn\(&mut Drawing, &mut CodePairPutBack\) -> DxfResult<\(\)>,?')
    f.rewrite(r'\bcallback\(self, iter\)', 'Block::read_block(self, iter)', 'the callback instantiated with Block::read_block', 1)
    f.rewrite(r'\bval == item_type\b', 'x_eq(val, item_type)', 'str == str -> assumed contract', 1)
    pats(f)
    f.annotate_loops([(r'loop', None, """invariant_except_break bs_read(_s0) is Some ==> bs_read(stream(*iter)) is Some && ({ let (l, q) = bs_read(_s0)->Some_0; let (w, q2) = bs_read(stream(*iter))->Some_0; q == q2 && l == _l + w }),
        invariant item_type@ == "BLOCK"@, _s0 == stream(*old(iter)), stream(*iter).len() <= _s0.len(), bs_read(_s0) is Some ==> added(bvs(old(self).blocks@), bvs(self.blocks@), _l), self.classes == old(self).classes, self.header.version == old(self).header.version,
        ensures bs_read(_s0) is Some ==> stream(*iter) == bs_read(_s0)->Some_0.1 && _l == bs_read(_s0)->Some_0.0,
        decreases stream(*iter).len(),""", 'let ghost _t = stream(*iter); let ghost _b = bvs(self.blocks@);' + HEAD + 'proof { assert(_l + Seq::<SB>::empty() =~= _l); }', '')])
    f.rewrite(r'Block::read_block\(self, iter\)\?;', """Block::read_block(self, iter)?; proof { if bs_read(_s0) is Some { let b = b_rec(_t.skip(1))->Some_0.0; assert forall|w: Seq<SB>| #[trigger] (_l + (seq![b] + w)) =~= _l.push(b) + w by {} lemma_join(bvs(old(self).blocks@), _b, bvs(self.blocks@), _l, b); _l = _l.push(b); } }""", 'ghost step', 1)
    f.insert_start('let ghost _s0 = stream(*iter); let ghost mut _l = Seq::<SB>::empty(); proof { lemma_added0(bvs(self.blocks@)); assert forall|w: Seq<SB>| #[trigger] (_l + w) =~= w by {} }')
    m.fn(f, 'pub fn read_blocks(&mut self, iter: &mut CodePairPutBack, item_type: &str) -> (r: DxfResult<()>)', """requires item_type@ == "BLOCK"@, ensures ({ let x = bs_read(stream(*old(iter))); x is Some ==> r is Ok && stream(*final(iter)) == x->Some_0.1 && added(bvs(old(self).blocks@), bvs(final(self).blocks@), x->Some_0.0) }), """ + DEC, 'Drawing')
    f = pushes(d.fn('Drawing::add_blocks_pairs').expect_sig(r'fn add_blocks_pairs\( ?&self, pairs: &mut Vec<CodePair>, write_handles: bool ?\)'))
    f.rewrite(r'self\.__blocks\b', 'self.blocks', 'field name')
    f.rewrite(r'self\.blocks\.is_empty\(\)', '(self.blocks.len() == 0)', 'Vec::is_empty -> len() == 0')
    S = 'seq![p_str(0, "SECTION"@), p_str(2, "BLOCKS"@)]'
    P = 'pvs(old(pairs)@) + %s + b_encs(self.header.version, write_handles, bvs(self.blocks@.take(%s)))'
    f.annotate_loops([(r'for b in &self\.blocks', 'for i in 0..self.blocks.len()', 'invariant pvs(pairs@) == ' + P % (S, 'i as int') + ',',
                       'let b = &self.blocks[i]; proof { assert(bvs(self.blocks@.take(i + 1)).drop_last() =~= bvs(self.blocks@.take(i as int))); assert(bvs(self.blocks@.take(i + 1)).last() == bv(*b)); }',
                       ' proof { assert(pvs(pairs@) =~= %s); }' % (P % (S, 'i + 1')))])
    f.rewrite(r'(\n\s*)(for i in)', r'\1proof { assert(bvs(self.blocks@.take(0)) =~= seq![]); assert(pvs(pairs@) =~= %s); }\1\2' % (P % (S, '0')), 'ghost step', 1)
    f.body = f.body.rstrip()[:-1] + ' proof { assert(self.blocks@.take(self.blocks@.len() as int) =~= self.blocks@); assert(pvs(pairs@) =~= pvs(old(pairs)@) + %s + b_encs(self.header.version, write_handles, bvs(self.blocks@)) + seq![p_str(0, "ENDSEC"@)]); } }' % S
    f.log.append('Drawing::add_blocks_pairs: `for x in &v` written as an index loop')
    m.fn(f, 'pub fn add_blocks_pairs(&self, pairs: &mut Vec<CodePair>, write_handles: bool)', """ensures self.blocks@.len() == 0 ==> pvs(final(pairs)@) == pvs(old(pairs)@),
        self.blocks@.len() > 0 ==> pvs(final(pairs)@) == pvs(old(pairs)@) + %s + b_encs(self.header.version, write_handles, bvs(self.blocks@)) + seq![p_str(0, "ENDSEC"@)],""" % S, 'Drawing')


def build(repo, spec):
    m = pairs_base(repo, spec)
    m.s('c20.rs')
    m.add(versions(repo))
    helpers(m, repo)
    m.raw('#[verifier::external_body]\npub fn x_str_string(s: &str) -> (r: String) ensures r@ == s@, { s.to_string() }\n')
    classes(m, repo)
    blocks(m, repo)
    return m.done()
