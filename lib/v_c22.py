"""DXB: every entity writer appends exactly the bytes of its record, every entity reader reads exactly that record (both number modes)"""
import re
from pieces import Module, Source, LostAnchor, item_text, project, project_default, generated_dir, types
import binio

P2 = [('x', 'n'), ('y', 'n'), ('z', '0')]
P3 = [('x', 'n'), ('y', 'n'), ('z', 'n')]


def pts(names, p):
    return [(n + '.' + c, k) for n in names for c, k in p]


CORNERS = ['first_corner', 'second_corner', 'third_corner', 'fourth_corner']
# kind: (type byte, fields of the record in the order of the format; 0 = not stored, zero)
KINDS = {
    'Arc': (8, pts(['center'], P2) + [('radius', 'n'), ('start_angle', 'a'), ('end_angle', 'a')]),
    'Circle': (3, pts(['center'], P2) + [('radius', 'n')]),
    'Face3D': (22, pts(CORNERS, P3)),
    'Line': (1, pts(['p1', 'p2'], P3)),
    'ModelPoint': (2, pts(['location'], P2)),
    'Solid': (11, pts(CORNERS, P2)),
    'Trace': (9, pts(CORNERS, P2)),
    'Vertex': (20, pts(['location'], P2)),
}
RNAME = {'Face3D': 'face', 'ModelPoint': 'point'}
FIELDS = {'Arc': ['center', 'radius', 'start_angle', 'end_angle'], 'Circle': ['center', 'radius'], 'Face3D': CORNERS, 'Line': ['p1', 'p2'],
          'ModelPoint': ['location'], 'Solid': CORNERS, 'Trace': CORNERS, 'Vertex': ['location', 'bulge', 'starting_width', 'ending_width']}


def fl(f):
    f.rewrite(r'\bf64\b(?=[,)>\s])', 'F', 'f64 -> F') if False else None
    f.rewrite(r'([\w.]+) != 0\.0\b', r'x_nonzero(\1)', 'comparison of a double with 0.0 -> assumed contract')
    f.rewrite(r'(?<![\w.])0\.0\b', 'x_f0()', 'literal 0.0 -> named constant')
    f.rewrite(r'(?<![\w.])1\.0\b', 'x_f1()', 'literal 1.0 -> named constant')
    f.rewrite(r'(?<![\w.])([1-9][\d_]*)\.0\b', r'x_flit(\1)', 'double literal -> named constant')
    f.rewrite(r'f64::from\(read_(\w+)\(', r'x_of_\1(read_\1(', 'f64::from -> assumed contract')
    f.rewrite(r'= (read_f64\(&mut self\.reader\)\?);', r'= F(\1);', 'f64 -> F')
    f.rewrite(r'= \((.*)\) as i32;', r'= x_to_i32(\1);', 'f64 as i32 -> assumed contract')
    f.rewrite(r'((?:\b\w+\.)+\w+|\b\w+)\.clone\(\)', r'x_dup(&\1)', 'derived Clone -> assumed contract (an equal value)')
    f.rewrite(r'([\w.]+)\.clone_from\(&([\w.]+)\)', r'\1 = x_string(&\2)', 'String::clone_from -> assumed contract')
    return f


def expand(f, hf):
    return binio.expand(f, hf, ('try_option_io_result_into_err',))


def chain(s, ops):
    """the rest of the bytes after each read"""
    out = [s]
    for o in ops:
        out.append({'n': 'nx(mode(*old(self)), %s)', 'a': '%s.skip(4)', 'u': '%s.skip(4)', 'w': '%s.skip(2)'}[o] % out[-1])
    return out


def build(repo, spec):
    m = Module(repo, spec)
    m.add(types(repo))
    m.raw('pub struct XSource;\n')
    m.s('bytes.rs', 'c22.rs')
    hf = binio.readers(m, repo)
    es = Source(repo + '/src/entity.rs')
    gs = Source(generated_dir() + '/entities.rs')
    rs, ws = Source(repo + '/src/dxb_reader.rs'), Source(repo + '/src/dxb_writer.rs')
    ps, cs = Source(repo + '/src/point.rs'), Source(repo + '/src/color.rs')
    m.raw('#[derive(Clone, Copy)]\n' + item_text(ps, 'struct', 'Point').replace('f64', 'F'))
    m.raw('#[derive(Clone, Copy)]\n' + re.sub(r'(\braw_value:)', r'pub \1', item_text(cs, 'struct', 'Color')))
    m.raw('#[verifier::external_body]\npub fn x_dup<T>(x: &T) -> (r: T) ensures r == *x, { unimplemented!() }\n')
    m.fn(ps.fn('Point::new').expect_sig(r'fn new\(x: f64, y: f64, z: f64\) -> Point'), 'pub fn new(x: F, y: F, z: F) -> (r: Point)', 'ensures r == (Point { x, y, z }),', 'Point')
    m.fn(fl(ps.fn('Point::origin').expect_sig(r'fn origin\(\) -> Point')), 'pub fn origin() -> (r: Point)', 'ensures r == (Point { x: f0(), y: f0(), z: f0() }),', 'Point')
    m.fn(cs.fn('Color::from_raw_value').expect_sig(r'fn from_raw_value\(val: i16\) -> Color'), 'pub fn from_raw_value(val: i16) -> (r: Color)', 'ensures r.raw_value == val,', 'Color')
    m.fn(cs.fn('Color::raw_value').expect_sig(r'fn raw_value\(&self\) -> i16'), 'pub fn raw_value(&self) -> (r: i16)', 'ensures r == self.raw_value,', 'Color')
    for k, fs in FIELDS.items():
        m.raw(project(gs, k, fs).replace('f64', 'F'))
    it = item_text(Source(repo + '/src/dxb_item_type.rs'), 'enum', 'DxbItemType')
    m.raw('#[derive(Clone, Copy)]\n#[allow(non_camel_case_types)]\n' + it)
    m.raw(project(gs, 'Polyline', ['flags', '__vertices_and_handles']) + 'pub struct Handle(pub u64);\npub struct Seqend { }\npub struct EntityCommon { pub color: Color, pub layer: String }\n')
    project(gs, 'EntityCommon', ['color', 'layer'])
    et = re.sub(r'#\[[^\]]*\]\s*', '', gs.item('enum', 'EntityType'))
    got = dict(re.findall(r'(\w+)\((\w+)\)', et))
    keep = list(KINDS) + ['Polyline', 'Seqend']
    for k in keep:
        if got.get(k) != k:
            raise LostAnchor('EntityType::' + k)
    m.raw('pub enum EntityType { %s, XOther }\npub struct Entity { pub common: EntityCommon, pub specific: EntityType }\n' % ', '.join('%s(%s)' % (k, k) for k in keep))
    project(gs, 'Entity', ['common', 'specific'])
    # constructors
    for k, fs in FIELDS.items():
        f = es.fn(k + '::new')
        dflt = '..Default::default()'
        if k == 'Vertex':
            d = fl_text(project_default(gs, 'Vertex', fs))
            m.raw('fn x_default_vertex() -> (r: Vertex) ensures r.bulge == f0(), r.starting_width == f0(), r.ending_width == f0() { %s }\n' % d.replace('Point::origin()', 'Point::origin()'))
            f.rewrite(re.escape(dflt), '..x_default_vertex()', 'Default::default() of the projected struct, with the expressions of the source')
        else:
            f.rewrite(r',?\s*' + re.escape(dflt), '', 'Default::default() for fields outside the projection dropped')
        ps_ = re.match(r'fn new\((.*?)\) -> Self', re.sub(r'\s+', ' ', f.sig).replace('pub ', '').strip().replace('( ', '(').replace(', )', ')').replace(' )', ')'))
        if not ps_:
            raise LostAnchor('signature of %s::new' % k)
        args = [a.strip().split(': ') for a in ps_.group(1).split(',')]
        if len(args) != len([x for x in fs if k != 'Vertex' or x == 'location']):
            raise LostAnchor('arguments of %s::new' % k)
        m.fn(f, 'pub fn new(%s) -> (r: Self)' % ', '.join('%s: %s' % (a, t.replace('f64', 'F')) for a, t in args),
             'ensures %s,' % ', '.join('r.%s == %s' % (x, a[0]) for x, a in zip(fs, args)) + (' r.bulge == f0(), r.starting_width == f0(), r.ending_width == f0(),' if k == 'Vertex' else ''), k)
    for nm, sig, rsig, ens in (('is_closed', r'fn is_closed\(&self\) -> bool', 'pub fn is_closed(&self) -> (r: bool)', 'ensures r == closed(self.flags),'),
                               ('set_is_closed', r'fn set_is_closed\(&mut self, val: bool\)', 'pub fn set_is_closed(&mut self, val: bool)', 'ensures closed(final(self).flags) == val, final(self).__vertices_and_handles == old(self).__vertices_and_handles,')):
        f = gs.fn('Polyline::' + nm).expect_sig(sig)
        if nm == 'set_is_closed':
            f.insert_start('let ghost _w = self.flags; proof { assert((_w | 1) & 1 != 0) by (bit_vector); assert((_w & !1) & 1 == 0) by (bit_vector); }')
        m.fn(f, rsig, ens, 'Polyline')
    m.raw('pub open spec fn closed(w: i32) -> bool { w & 1 != 0 }\n')
    m.raw('#[verifier::external_body]\npub fn x_default_polyline() -> (r: Polyline) ensures r.__vertices_and_handles@.len() == 0, { unimplemented!() }\n'
          '#[verifier::external_body]\npub fn x_default_seqend() -> (r: Seqend) { unimplemented!() }\n'
          '#[verifier::external_body]\npub fn x_entity_new(specific: EntityType) -> (r: Entity) ensures r.specific == specific, { unimplemented!() }\n')

    # ---- writer
    m.raw(item_text(ws, 'struct', 'DxbWriter').replace('<T: Write>', '').replace('writer: T', 'pub writer: XWriter'))
    W = 'DxbWriter'

    def wfn(name, sig_rx, sig, ens, pre=None):
        f = fl(ws.fn('DxbWriter::' + name).expect_sig(sig_rx))
        f.rewrite(r'self\s*\.writer\s*\.write_(\w+)::<LittleEndian>\(', r'x_write_\1(&mut self.writer, ', 'WriteBytesExt -> assumed contract (io::Error -> DxfError folded into ?)')
        f.rewrite(r'self\s*\.writer\s*\.write_(u8|all)\(', r'x_write_\1(&mut self.writer, ', 'write_u8 -> assumed contract')
        f.rewrite(r'\bd as f32\b', 'x_narrow(d)', 'f64 as f32 -> assumed contract')
        if pre:
            pre(f)
        m.fn(f, sig, ens, W)
    OUT = 'ensures r is Ok ==> wr(final(self).writer) == %s,'
    O = 'wr(old(self).writer)'
    wfn('write_n', r'fn write_n\(&mut self, d: f64\) -> DxfResult<\(\)>', 'fn write_n(&mut self, d: F) -> (r: DxfResult<()>)', OUT % (O + ' + en(d)'))
    wfn('write_w', r'fn write_w\(&mut self, s: i16\) -> DxfResult<\(\)>', 'fn write_w(&mut self, s: i16) -> (r: DxfResult<()>)', OUT % (O + ' + ew(s)'))
    wfn('write_item_type', r'fn write_item_type\(&mut self, item_type: DxbItemType\) -> DxfResult<\(\)>', 'fn write_item_type(&mut self, item_type: DxbItemType) -> (r: DxfResult<()>)', OUT % (O + '.push(item_type as u8)'))

    def each_char(f):
        f.annotate_loops([(r'for c in value\.chars\(\)', 'for c in it: value.chars()', 'invariant wr(self.writer) == wr(old(self).writer) + latin(value@.take(it.index@)),',
                           'let ghost _i = it.index@; proof { assert(latin(value@.take(_i + 1)) =~= latin(value@.take(_i)).push(c as u8)); assert(wr(old(self).writer) + latin(value@.take(_i + 1)) =~= (wr(old(self).writer) + latin(value@.take(_i))).push(c as u8)); }\n', '')])
        f.insert_start('proof { assert(wr(self.writer) + latin(value@.take(0)) =~= wr(self.writer)); }')
        f.insert_before_tail('proof { assert(value@.take(value@.len() as int) =~= value@); }')
    wfn('write_string', r'fn write_string\(&mut self, value: &str\) -> DxfResult<\(\)>', 'fn write_string(&mut self, value: &str) -> (r: DxfResult<()>)', OUT % (O + ' + latin(value@)'), each_char)
    wfn('write_null_terminated_string', r'fn write_null_terminated_string\(&mut self, value: &str\) -> DxfResult<\(\)>', 'fn write_null_terminated_string(&mut self, value: &str) -> (r: DxfResult<()>)', OUT % ('(' + O + ' + latin(value@)).push(0u8)'))
    for k, (ty, fs) in KINDS.items():
        n = RNAME.get(k, k.lower())
        if k == 'Vertex':
            continue
        e = '%s.push(%du8)' % ('w', ty) + ''.join(' + en(v.%s)' % x for x, kk in fs if kk != '0')
        m.raw('pub open spec fn w_%s(w: Seq<u8>, v: %s) -> Seq<u8> { %s }\n' % (n, k, e))
        wfn('write_' + n, r'fn write_%s\(&mut self, (\w+): &%s\) -> DxfResult<\(\)>' % (n, k), 'fn write_%s(&mut self, %s: &%s) -> (r: DxfResult<()>)' % (n, argname(ws, 'write_' + n), k),
            OUT % ('w_%s(%s, *%s)' % (n, O, argname(ws, 'write_' + n))))
    m.raw('''pub open spec fn w_vertex(w: Seq<u8>, v: Vertex) -> Seq<u8> {
    let a = w.push(20u8) + en(v.location.x) + en(v.location.y);
    let b = if nonzero(v.bulge) { a.push(133u8) + en(v.bulge) } else { a };
    if nonzero(v.starting_width) || nonzero(v.ending_width) { b.push(134u8) + en(v.starting_width) + en(v.ending_width) } else { b }
}
pub open spec fn w_vertices(w: Seq<u8>, vs: Seq<(Vertex, Handle)>) -> Seq<u8> decreases vs.len() { if vs.len() == 0 { w } else { w_vertex(w_vertices(w, vs.drop_last()), vs.last().0) } }
pub open spec fn w_polyline(w: Seq<u8>, v: Polyline) -> Seq<u8> {
    w_vertices(w.push(19u8) + ew(if closed(v.flags) { 1i16 } else { 0i16 }), v.__vertices_and_handles@).push(17u8)
}
pub open spec fn w_entity(w: Seq<u8>, e: EntityType) -> Seq<u8> { match e {
''' + ''.join('    EntityType::%s(v) => w_%s(w, v),\n' % (k, RNAME.get(k, k.lower())) for k in KINDS) + '''    EntityType::Polyline(v) => w_polyline(w, v),
    EntityType::Seqend(_) => w.push(17u8),
    EntityType::XOther => w,
} }
''')
    a = argname(ws, 'write_vertex')
    wfn('write_vertex', r'fn write_vertex\(&mut self, \w+: &Vertex\) -> DxfResult<\(\)>', 'fn write_vertex(&mut self, %s: &Vertex) -> (r: DxfResult<()>)' % a, OUT % ('w_vertex(%s, *%s)' % (O, a)))
    wfn('write_seqend', r'fn write_seqend\(&mut self\) -> DxfResult<\(\)>', 'fn write_seqend(&mut self) -> (r: DxfResult<()>)', OUT % (O + '.push(17u8)'))
    a = argname(ws, 'write_polyline')

    def verts(f):
        f.rewrite(r'for (\w+) in %s\.vertices\(\) \{' % a, r'let mut _i: usize = 0;\n while _i < %s.__vertices_and_handles.len() { let \1 = &%s.__vertices_and_handles[_i].0; _i = _i + 1;' % (a, a),
                  'for over Polyline::vertices() (slice iterator projected to .0, see C21) -> index loop', 1)
        f.annotate_loops([(r'while _i < %s\.__vertices_and_handles\.len\(\)' % a, None,
                           'invariant _i <= %s.__vertices_and_handles@.len(), wr(self.writer) == w_vertices(_b, %s.__vertices_and_handles@.take(_i as int)),\n decreases %s.__vertices_and_handles@.len() - _i,' % (a, a, a),
                           'proof { let t = %s.__vertices_and_handles@.take(_i as int + 1); assert(t.drop_last() =~= %s.__vertices_and_handles@.take(_i as int)); }' % (a, a), '')])
        f.rewrite(r'let mut _i: usize = 0;', r'let ghost _b = wr(self.writer); let mut _i: usize = 0; proof { assert(%s.__vertices_and_handles@.take(0) =~= seq![]); }' % a, 'ghost copy', 1)
        f.rewrite(r'(self\.write_seqend\(\))', r'proof { assert(%s.__vertices_and_handles@.take(_i as int) =~= %s.__vertices_and_handles@); }\n \1' % (a, a), 'proof hint', 1)
    vs = es.fn('Polyline::vertices')
    if not re.search(r'self\.__vertices_and_handles\.iter\(\)\.map\(\|(\w+)\| &\1\.0\)', vs.body):
        raise LostAnchor('Polyline::vertices')
    wfn('write_polyline', r'fn write_polyline\(&mut self, \w+: &Polyline\) -> DxfResult<\(\)>', 'fn write_polyline(&mut self, %s: &Polyline) -> (r: DxfResult<()>)' % a, OUT % ('w_polyline(%s, *%s)' % (O, a)), verts)
    wfn('write_entity', r'fn write_entity\(&mut self, entity: &Entity\) -> DxfResult<\(\)>', 'fn write_entity(&mut self, entity: &Entity) -> (r: DxfResult<()>)', OUT % ('w_entity(%s, entity.specific)' % O),
        lambda f: f.rewrite(r'\(ref (\w+)\)', r'(\1)', 'ref binding under a reference pattern dropped'))

    # ---- reader
    t = item_text(rs, 'struct', 'DxbReader').replace('<T: Read>', '').replace('reader: T', 'reader: XReader').replace('f64', 'F')
    m.raw(re.sub(r'(?m)^(\s+)(\w+:)', r'\1pub \2', t))
    m.raw('''pub open spec fn mode(r: DxbReader) -> Mode { Mode { int: r.is_integer_mode, scale: r.scale_factor } }
// everything but the position in the file
pub open spec fn same(a: DxbReader, b: DxbReader) -> bool { kept(a, b) && a.last_line_point == b.last_line_point && a.last_trace_p3 == b.last_trace_p3 && a.last_trace_p4 == b.last_trace_p4 }
pub open spec fn kept(a: DxbReader, b: DxbReader) -> bool { a.is_integer_mode == b.is_integer_mode && a.scale_factor == b.scale_factor && a.layer_name == b.layer_name && a.current_color == b.current_color && (sound(a.reader) ==> sound(b.reader)) }
impl DxbReader {
// the position is only reported in errors; a file is shorter than 2^64 bytes
#[verifier::external_body]
fn advance_offset(&mut self, offset: usize) ensures same(*old(self), *final(self)), same(*final(self), *old(self)), final(self).reader == old(self).reader, { unimplemented!() }
}
''')
    rs.fn('DxbReader::advance_offset').expect_sig(r'fn advance_offset\(&mut self, offset: usize\)')
    R = 'DxbReader'

    def rfn(name, sig_rx, sig, ens, pre=None):
        f = fl(expand(rs.fn('DxbReader::' + name).expect_sig(sig_rx), hf))
        if pre:
            pre(f)
        m.fn(f, sig, ens, R)
    OLD = 'rest(old(self).reader)'
    for nm, ty, v, sz in (('n', 'F', 'nv', 'if mode(*old(self)).int { 2int } else { 4int }'), ('a', 'F', 'av', '4'), ('u', 'F', 'uv', '4'), ('w', 'i32', 'wv', '2'), ('f', 'F', None, '8')):
        h = 'proof { let s = rest(self.reader); if s.len() >= 2 { lemma_i16_at(s); } if s.len() >= 4 { lemma_i32_at(s); } }' if nm != 'f' else ''
        e = 'ensures same(*old(self), *final(self)), sound(old(self).reader) && %s.len() >= (%s) ==> r is Ok, ' % (OLD, sz)
        e += 'r is Ok ==> %s.len() >= (%s) && rest(final(self).reader) == %s.skip(%s)' % (OLD, sz, OLD, sz)
        if v:
            e += ' && r->Ok_0 == %s(mode(*old(self)), %s)' % (v, OLD)
        if nm == 'n':
            e = e.replace('rest(final(self).reader) == %s.skip(%s)' % (OLD, sz), 'rest(final(self).reader) == nx(mode(*old(self)), %s)' % OLD)
        rfn('read_' + nm, r'fn read_%s\(&mut self\) -> DxfResult<%s>' % (nm, 'f64' if ty == 'F' else ty), 'fn read_%s(&mut self) -> (r: DxfResult<%s>)' % (nm, ty), e + ',', lambda f, h=h: h and f.insert_start(h))
    m.raw('''pub proof fn lemma_n16(a: i16, b: i16) ensures n16(a) == n16(b) ==> a == b {}
pub proof fn lemma_i16_at(s: Seq<u8>) requires s.len() >= 2 ensures forall|v: i16| #[trigger] n16(v) == le_nat(s.take(2)) ==> v == i16_at(s)
{ assert forall|v: i16| #[trigger] n16(v) == le_nat(s.take(2)) implies v == i16_at(s) by { assert(n16(i16_at(s)) == le_nat(s.take(2))); } }
pub proof fn lemma_i32_at(s: Seq<u8>) requires s.len() >= 4 ensures forall|v: i32| #[trigger] n32(v) == le_nat(s.take(4)) ==> v == i32_at(s), forall|v: f32| #[trigger] bits32(v) as nat == le_nat(s.take(4)) ==> v == f32_at(s)
{
    assert forall|v: i32| #[trigger] n32(v) == le_nat(s.take(4)) implies v == i32_at(s) by { assert(n32(i32_at(s)) == le_nat(s.take(4))); }
    assert forall|v: f32| #[trigger] bits32(v) as nat == le_nat(s.take(4)) implies v == f32_at(s) by { axiom_f32(v); }
}
''')
    rfn('wrap_common_values', r'fn wrap_common_values\(&self, specific: EntityType\) -> Entity', 'fn wrap_common_values(&self, specific: EntityType) -> (r: Entity)',
        'ensures r.specific == specific, r.common.color == self.current_color, r.common.layer@ == self.layer_name@,',
        lambda f: f.rewrite(r'Entity::new\(', 'x_entity_new(', 'Entity::new -> assumed contract (default common values, given specific)'))
    COMMON = 'r->Ok_0.common.color == old(self).current_color && r->Ok_0.common.layer@ == old(self).layer_name@'

    def record(name, k, fs, st):
        ops = [kk for _, kk in fs if kk in 'nawu']
        ch = chain(OLD, ops)
        cl, i = [], 0
        v = 'r->Ok_0.specific->%s_0' % k
        for x, kk in fs:
            if kk in 'nawu':
                cl.append('%s.%s == %sv(mode(*old(self)), %s)' % (v, x, kk, ch[i]))
                i += 1
            elif kk == '0':
                cl.append('%s.%s == f0()' % (v, x))
            else:
                cl.append('%s.%s == %s' % (v, x, kk))
        ens = 'ensures %s, r is Ok ==> (r->Ok_0.specific is %s && %s && %s && rest(final(self).reader) == %s),' % (st, k, COMMON, ' && '.join(cl), ch[-1])
        need = sum({'n': 0, 'a': 4, 'w': 2, 'u': 4}[o] for o in ops)
        cnt = ops.count('n')
        ens += ' sound(old(self).reader) && %s.len() >= (if mode(*old(self)).int { %dint } else { %dint }) ==> r is Ok,' % (OLD, need + 2 * cnt, need + 4 * cnt)
        rfn(name, r'fn %s\(&mut self\) -> DxfResult<Entity>' % name, 'fn %s(&mut self) -> (r: DxfResult<Entity>)' % name, ens)
        return ops
    ST = 'same(*old(self), *final(self))'
    KL, KT = 'kept(*old(self), *final(self))', 'kept(*old(self), *final(self))'
    LINE = KL + ', r is Ok ==> final(self).last_line_point == r->Ok_0.specific->Line_0.p2 && final(self).last_trace_p3 == old(self).last_trace_p3 && final(self).last_trace_p4 == old(self).last_trace_p4'
    TRACE = KT + ', r is Ok ==> final(self).last_trace_p3 == r->Ok_0.specific->Trace_0.third_corner && final(self).last_trace_p4 == r->Ok_0.specific->Trace_0.fourth_corner && final(self).last_line_point == old(self).last_line_point'
    for k, (ty, fs) in KINDS.items():
        st = LINE if k == 'Line' else TRACE if k == 'Trace' else ST
        extra = [('bulge', '0'), ('starting_width', '0'), ('ending_width', '0')] if k == 'Vertex' else []
        record('read_' + RNAME.get(k, k.lower()), k, fs + extra, st)
    record('read_line_extension', 'Line', [('p1', 'old(self).last_line_point')] + pts(['p2'], P2), LINE)
    record('read_line_extension_3d', 'Line', [('p1', 'old(self).last_line_point')] + pts(['p2'], P3), LINE)
    record('read_trace_extension', 'Trace', [('first_corner', 'old(self).last_trace_p3'), ('second_corner', 'old(self).last_trace_p4')] + pts(['third_corner', 'fourth_corner'], P2), TRACE)
    rfn('read_polyline', r'fn read_polyline\(&mut self\) -> DxfResult<Entity>', 'fn read_polyline(&mut self) -> (r: DxfResult<Entity>)',
        'ensures %s, r is Ok ==> (r->Ok_0.specific is Polyline && %s && closed(r->Ok_0.specific->Polyline_0.flags) == (wv(mode(*old(self)), %s) != 0) && r->Ok_0.specific->Polyline_0.__vertices_and_handles@.len() == 0 && rest(final(self).reader) == %s.skip(2)), sound(old(self).reader) && %s.len() >= 2 ==> r is Ok,' % (ST, COMMON, OLD, OLD, OLD),
        lambda f: f.rewrite(r'Polyline::default\(\)', 'x_default_polyline()', 'Default -> assumed contract (no vertices)'))
    rfn('read_seqend', r'fn read_seqend\(&mut self\) -> DxfResult<Entity>', 'fn read_seqend(&mut self) -> (r: DxfResult<Entity>)',
        'ensures %s, r is Ok, r->Ok_0.specific is Seqend && %s && rest(final(self).reader) == %s,' % (ST, COMMON, OLD),
        lambda f: f.rewrite(r'Seqend::default\(\)', 'x_default_seqend()', 'Default -> assumed contract'))

    def nulstr(f):
        f.rewrite(r'String::new\(\)', 'x_empty()', 'String::new -> assumed contract')
        f.rewrite(r'(\w+)\.push\((\w+) as char\)', r'x_push(&mut \1, \2)', 'String::push -> assumed contract')
        f.annotate_loops([(r'loop', None, '''invariant same(*old(self), *self), _o == rest(old(self).reader), 0 <= _k <= _o.len(), rest(self.reader) == _o.skip(_k), value@ == unlatin(_o.take(_k)), forall|j: int| 0 <= j < _k ==> #[trigger] _o[j] != 0,
            sound(old(self).reader) && nul_at(_o) < _o.len() ==> sound(self.reader),
            decreases _o.len() - _k,''',
                           'proof { if _k < _o.len() { assert(_o.skip(_k).skip(1) =~= _o.skip(_k + 1)); assert(_o.skip(_k)[0] == _o[_k]); lemma_nul_step(_o, _k); assert(unlatin(_o.take(_k + 1)) =~= unlatin(_o.take(_k)).push(_o[_k] as char)); } lemma_nul_all(_o, _k); }', ' proof { _k = _k + 1; }')])
        f.insert_start('let ghost _o = rest(self.reader); let ghost mut _k: int = 0; proof { assert(_o.skip(0) =~= _o); assert(unlatin(_o.take(0)) =~= seq![]); }')
    m.raw('''pub open spec fn unlatin(b: Seq<u8>) -> Seq<char> { b.map_values(|c: u8| c as char) }
#[verifier::external_body]
pub fn x_empty() -> (r: String) ensures r@ == Seq::<char>::empty(), { String::new() }
#[verifier::external_body]
pub fn x_push(s: &mut String, b: u8) ensures final(s)@ == old(s)@.push(b as char), { s.push(b as char) }
pub proof fn lemma_nul_all(s: Seq<u8>, i: int) requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> #[trigger] s[j] != 0 ensures nul_at(s) >= i decreases i
{ lemma_nul_range(s); if i > 0 { let t = s.skip(1); assert forall|j: int| 0 <= j < i - 1 implies #[trigger] t[j] != 0 by { assert(t[j] == s[j + 1]); } lemma_nul_all(t, i - 1); assert(s[0] != 0); } }
''')
    rfn('read_null_terminated_string', r'fn read_null_terminated_string\(&mut self\) -> DxfResult<String>', 'fn read_null_terminated_string(&mut self) -> (r: DxfResult<String>)',
        'ensures same(*old(self), *final(self)), r is Ok ==> nul_at(%s) < %s.len() && r->Ok_0@ == unlatin(%s.take(nul_at(%s))) && rest(final(self).reader) == %s.skip(nul_at(%s) + 1), sound(old(self).reader) && nul_at(%s) < %s.len() ==> r is Ok,' % ((OLD,) * 8), nulstr)

    # ---- theorems: what an entity writer appends, its reader reads back, whatever follows
    for k, (ty, fs) in KINDS.items():
        if k == 'Vertex':
            continue
        n = RNAME.get(k, k.lower())
        xs = [x for x, kk in fs if kk != '0']
        t = ['tail@']
        for x in reversed(xs):
            t.append('(en(v.%s) + %s)' % (x, t[-1]))
        t.reverse()     # t[0] = whole right-nested body
        acc = ['Seq::<u8>::empty().push(%du8)' % ty]
        for x in xs:
            acc.append(acc[-1] + ' + en(v.%s)' % x)
        steps = ''.join('lemma_assoc(%s, en(v.%s), %s); ' % (acc[i], xs[i], t[i + 1]) for i in reversed(range(len(xs))))
        steps += 'assert(Seq::<u8>::empty().push(%du8) + %s =~= seq![%du8] + %s); ' % (ty, t[0], ty, t[0])
        steps += 'assert((seq![%du8] + %s).skip(1) =~= %s); ' % (ty, t[0], t[0])
        steps += ''.join('lemma_num(mode(*rd), v.%s, %s); ' % (xs[i], t[i + 1]) for i in range(len(xs)))
        steps += ''.join('lemma_le_len(bits32(narrow(v.%s)) as nat, 4); ' % x for x in xs)
        m.raw('''// THEOREM: %(k)s
fn theorem_%(n)s(w: &mut DxbWriter, v: &%(k)s, rd: &mut DxbReader, tail: Ghost<Seq<u8>>)
    requires wr(old(w).writer) == Seq::<u8>::empty(), !old(rd).is_integer_mode,
{
    match w.write_%(n)s(v) { Ok(_) => {}, Err(_) => { return; } }
    let ghost b = wr(w.writer) + tail@;
    rd.reader = x_reader_of(Ghost(b.skip(1)));
    proof { %(steps)s assert(b[0] == %(ty)du8); }
    match rd.read_%(n)s() {
        Ok(e) => {
            assert(e.specific is %(k)s);
%(eqs)s
            assert(rest(rd.reader) == tail@);
            assert(e.common.color == old(rd).current_color && e.common.layer@ == old(rd).layer_name@);
        }
        Err(_) => { assert(false); }
    }
    /*CANARY*/
}
''' % {'k': k, 'n': n, 'ty': ty, 'steps': steps, 'eqs': '\n'.join('            assert(e.specific->%s_0.%s == single(v.%s));' % (k, x, x) for x in xs)})
    return m.done()


def argname(src, fn):
    f = src.fn('DxbWriter::' + fn)
    mm = re.search(r'&mut self, (\w+): &', f.sig)
    if not mm:
        raise LostAnchor(fn)
    return mm.group(1)


def fl_text(t):
    t = re.sub(r'(?<![\w.])0\.0\b', 'x_f0()', t)
    return t
