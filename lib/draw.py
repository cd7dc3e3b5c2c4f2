"""The Drawing skeleton: record lists, handles, lookups, normalization (shared by C07, C08, C09)."""
import re
from pieces import Module, Source, LostAnchor, project, project_default, project_enum, generated_dir, item_text

TABLES = [('app_id', 'AppId', 'app_ids'), ('block_record', 'BlockRecord', 'block_records'), ('dim_style', 'DimStyle', 'dim_styles'),
          ('layer', 'Layer', 'layers'), ('line_type', 'LineType', 'line_types'), ('style', 'Style', 'styles'), ('ucs', 'Ucs', 'ucss'),
          ('view', 'View', 'views'), ('view_port', 'ViewPort', 'view_ports')]
LISTS = [(l, t) for _, t, l in TABLES] + [('blocks', 'Block'), ('entities', 'Entity'), ('objects', 'Object')]
TYPE = dict(LISTS)
EXTRA = {'Layer': ['line_type_name', 'color'], 'Style': ['text_height', 'width_factor'], 'View': ['view_height', 'view_width', 'lens_length'],
         'ViewPort': ['snap_spacing', 'grid_spacing', 'view_height', 'view_port_aspect_ratio', 'lens_length', 'ucs_icon', 'circle_sides']}
DIMS = ['RotatedDimension', 'RadialDimension', 'DiameterDimension', 'AngularThreePointDimension', 'OrdinateDimension']
TEXTS = ['ArcAlignedText', 'Attribute', 'AttributeDefinition', 'MText', 'Text']
HDR = ['next_available_handle', 'current_layer', 'ucs_definition_name', 'ucs_name', 'ortho_ucs_reference', 'paperspace_ucs_definition_name',
       'paperspace_ucs_name', 'paperspace_ortho_ucs_reference', 'default_text_height', 'trace_width', 'text_style', 'current_entity_line_type', 'dimension_style_name', 'file_name']


def types(m):
    repo = m.repo
    g = generated_dir()
    tab, ent, obj, hdr = (Source('%s/%s.rs' % (g, n)) for n in ('tables', 'entities', 'objects', 'header'))
    o = []
    hs = Source(repo + '/src/handle.rs')
    if not re.search(r'pub struct Handle\(pub u64\);', hs.src):
        raise LostAnchor('struct Handle')
    o.append('#[derive(Clone, Copy)]\npub struct Handle(pub u64);\n')
    o.append(re.sub(r'(\w+):', r'pub \1:', item_text(Source(repo + '/src/color.rs'), 'struct', 'Color')).replace('pub pub', 'pub'))
    o.append(item_text(Source(repo + '/src/vector.rs'), 'struct', 'Vector'))
    for _, t, _ in TABLES:
        o.append(project(tab, t, ['name', 'handle'] + EXTRA.get(t, [])))
        if t not in ('Layer', 'Style'):
            o.append('#[verifier::external_body]\npub fn x_default_%s() -> (r: %s) { unimplemented!() }\n' % (t, t))
    o.append(project(Source(repo + '/src/block.rs'), 'Block', ['handle', '__owner_handle', 'layer', 'name', 'entities']))
    o.append('pub struct Vertex { pub x: () }\n')
    for t in TEXTS:
        o.append(project(ent, t, ['text_style_name']))
    o.append(project(ent, 'DimensionBase', ['dimension_style_name']))
    for t in DIMS:
        o.append(project(ent, t, ['dimension_base']))
    for t in ('Leader', 'Tolerance'):
        o.append(project(ent, t, ['dimension_style_name']))
    o.append(project(ent, 'MLine', ['style_name']))
    o.append(project(ent, 'Insert', ['__attributes_and_handles', '__seqend_handle']))
    o.append(project(ent, 'Polyline', ['__vertices_and_handles', '__seqend_handle']))
    o.append(project_enum(ent, 'EntityType', DIMS + TEXTS + ['Leader', 'Tolerance', 'MLine', 'Insert', 'Polyline']))
    o.append(project(ent, 'EntityCommon', ['handle', 'layer', 'line_type_name']))
    o.append(project(ent, 'Entity', ['common', 'specific']))
    o.append(project(obj, 'LayerFilter', ['layer_names']))
    o.append(project(obj, 'LayerIndex', ['layer_names']))
    o.append(project(obj, 'MLineStyle', ['style_name']))
    o.append('#[verifier::external_body]\npub fn x_default_MLineStyle() -> (r: MLineStyle) { unimplemented!() }\n')
    o.append(project(obj, 'PlotSettings', ['plot_view_name']))
    o.append(project_enum(obj, 'ObjectType', ['LayerFilter', 'LayerIndex', 'MLineStyle', 'PlotSettings']))
    o.append(project(obj, 'ObjectCommon', ['handle']))
    o.append('#[verifier::external_body]\npub fn x_default_ObjectCommon() -> (r: ObjectCommon) { unimplemented!() }\n')
    o.append(project(obj, 'Object', ['common', 'specific']))
    o.append(project(hdr, 'Header', HDR))
    o.append(project(Source(repo + '/src/drawing.rs'), 'Drawing', ['header'] + ['__' + l for l, _ in LISTS]))
    mm = re.search(r'const AUTO_REPLACE_HANDLE: Handle = Handle\((\w+)\);', Source(repo + '/src/drawing.rs').src)
    if not mm:
        raise LostAnchor('AUTO_REPLACE_HANDLE')
    o.append('pub const AUTO_REPLACE_HANDLE: Handle = Handle(%s);\n' % mm.group(1))
    m.raw(''.join(o))
    m.log.append('record types projected to the fields that the extracted functions use (other fields are not read or written by them); EntityType/ObjectType variants they do not name are merged into one')


def specs(m):
    o = ['''
pub spec const MAXH: u64 = 0xFFFF_FFFF_FFFF_FFFF;
pub open spec fn one(a: Handle, h: u64) -> nat { if a.0 == h { 1 } else { 0 } }
pub open spec fn nx(d: Drawing) -> u64 { d.header.next_available_handle.0 }
#[verifier::external_body]
pub fn x_string_from(s: &str) -> (r: String) ensures r@ == s@, { String::from(s) }
#[verifier::external_body]
pub fn x_string_clone(a: &String) -> (r: String) ensures r@ == a@, { a.clone() }
#[verifier::external_body]
pub fn x_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { a == b }
#[verifier::external_body]
pub fn x_any<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|x: &T| #[trigger] f.requires((x,)),
    ensures r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&v@[i],), true), !r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
pub fn x_succ_or_1(n: u64) -> (r: u64) ensures r == (if n == u64::MAX { 1u64 } else { (n + 1) as u64 }), { n.checked_add(1).unwrap_or(1) }
''']
    W = {t: 'one(x.handle, h)' for _, t, _ in TABLES}
    W['Object'] = 'one(x.common.handle, h)'
    W['Entity'] = 'one(x.common.handle, h) + kids(x.specific, h)'
    W['Block'] = 'one(x.handle, h) + c_Entity(x.entities@, h)'
    o.append('''pub open spec fn kids(x: EntityType, h: u64) -> nat { match x {
    EntityType::Insert(i) => one(i.__seqend_handle, h) + c_A(i.__attributes_and_handles@, h),
    EntityType::Polyline(i) => one(i.__seqend_handle, h) + c_V(i.__vertices_and_handles@, h),
    _ => 0 } }\n''')
    for nm, t, w in [('A', '(Attribute, Handle)', 'one(x.1, h)'), ('V', '(Vertex, Handle)', 'one(x.1, h)')] + [(t, t, W[t]) for _, t in LISTS]:
        o.append('''pub open spec fn w_{n}(x: {t}, h: u64) -> nat {{ {w} }}
pub open spec fn c_{n}(s: Seq<{t}>, h: u64) -> nat decreases s.len() {{ if s.len() == 0 {{ 0 }} else {{ c_{n}(s.drop_last(), h) + w_{n}(s.last(), h) }} }}
pub broadcast proof fn lemma_push_{n}(s: Seq<{t}>, x: {t}, h: u64) ensures #[trigger] c_{n}(s.push(x), h) == c_{n}(s, h) + w_{n}(x, h) {{ assert(s.push(x).drop_last() =~= s); }}
pub broadcast proof fn lemma_upd_{n}(s: Seq<{t}>, i: int, x: {t}, h: u64) requires 0 <= i < s.len(), ensures #[trigger] c_{n}(s.update(i, x), h) + w_{n}(s[i], h) == c_{n}(s, h) + w_{n}(x, h), decreases s.len(),
{{ if i == s.len() - 1 {{ assert(s.update(i, x).drop_last() =~= s.drop_last()); }} else {{ lemma_upd_{n}(s.drop_last(), i, x, h); assert(s.update(i, x).drop_last() =~= s.drop_last().update(i, x)); }} }}
pub broadcast proof fn lemma_pos_{n}(s: Seq<{t}>, i: int, h: u64) requires 0 <= i < s.len(), ensures #![trigger s[i], c_{n}(s, h)] c_{n}(s, h) >= w_{n}(s[i], h), decreases s.len(),
{{ if i < s.len() - 1 {{ lemma_pos_{n}(s.drop_last(), i, h); }} }}
'''.format(n=nm, t=t, w=w))
    o.append('pub open spec fn cnt(d: Drawing, h: u64) -> nat { %s }\n' % ' + '.join('c_%s(d.__%s@, h)' % (t, l) for l, t in LISTS))
    o.append('''// no handle of a record is at or above the next free handle
pub open spec fn below(d: Drawing) -> bool { forall|h: u64| #![trigger cnt(d, h)] #![trigger c_Ucs(d.__ucss@, h)] #![trigger c_View(d.__views@, h)] 0 < h && h >= nx(d) ==> cnt(d, h) == 0 }
// no two records share a handle
pub open spec fn uniq(d: Drawing) -> bool { forall|h: u64| 0 < h ==> #[trigger] cnt(d, h) <= 1 }
// records were added with fresh handles only
pub open spec fn step(a: Drawing, b: Drawing) -> bool {
    nx(a) <= nx(b) && forall|h: u64| #![trigger cnt(b, h)] #![trigger c_Ucs(b.__ucss@, h)] #![trigger c_View(b.__views@, h)] 0 < h ==> (h < nx(a) ==> cnt(b, h) == cnt(a, h)) && (h >= nx(a) ==> cnt(b, h) <= 1) && (h >= nx(b) ==> cnt(b, h) == 0)
}
''')
    for _, t in LISTS:
        o.append('''pub open spec fn plus_{t}(a: Drawing, x: {t}, b: Drawing) -> bool {{
    nx(a) <= nx(b) && forall|h: u64| #![trigger cnt(b, h)] #![trigger c_Ucs(b.__ucss@, h)] #![trigger c_View(b.__views@, h)] 0 < h ==> (h >= nx(b) ==> cnt(b, h) == 0) && (h < MAXH ==> (if h < nx(a) || w_{t}(x, h) > 0 {{ cnt(b, h) == cnt(a, h) + w_{t}(x, h) }} else {{ cnt(b, h) <= 1 }}))
}}
'''.format(t=t))
    o.append('pub open spec fn same_hdr(a: Drawing, b: Drawing) -> bool { %s }\n' % ' && '.join('a.header.%s == b.header.%s' % (f, f) for f in HDR[1:]))
    g = ['same_hdr(a, b)']
    for l, t in LISTS:
        g.append('a.__{l}@.len() <= b.__{l}@.len() && (forall|i: int| 0 <= i < a.__{l}@.len() ==> #[trigger] b.__{l}@[i] == a.__{l}@[i])'.format(l=l))
    o.append('// every list of b starts with the records of a, unchanged\npub open spec fn grow(a: Drawing, b: Drawing) -> bool { %s }\n' % '\n    && '.join(g))
    for _, t, l in TABLES:
        o.append('pub open spec fn hs_%s(s: Seq<%s>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name@ == n }\npub open spec fn has_%s(d: Drawing, n: Seq<char>) -> bool { hs_%s(d.__%s@, n) }\n' % (t, t, t, t, l))
    for _, t, l in TABLES:
        o.append('pub proof fn lemma_has_%s(a: Drawing, b: Drawing, n: Seq<char>) requires has_%s(a, n), grow(a, b), ensures has_%s(b, n) { let i = choose|i: int| 0 <= i < a.__%s@.len() && (#[trigger] a.__%s@[i]).name@ == n; assert(b.__%s@[i] == a.__%s@[i]); }\n' % (t, t, t, l, l, l, l))
    o.append('pub open spec fn dim_ref(x: EntityType) -> Option<Seq<char>> { match x { %s EntityType::Leader(d) => Some(d.dimension_style_name@), EntityType::Tolerance(d) => Some(d.dimension_style_name@), _ => None } }\n' % ' '.join('EntityType::%s(d) => Some(d.dimension_base.dimension_style_name@),' % d for d in DIMS))
    o.append('pub open spec fn text_ref(x: EntityType) -> Option<Seq<char>> { match x { %s _ => None } }\n' % ' '.join('EntityType::%s(d) => Some(d.text_style_name@),' % d for d in TEXTS))
    o.append('pub open spec fn layer_refs(x: ObjectType) -> Option<Seq<String>> { match x { ObjectType::LayerFilter(l) => Some(l.layer_names@), ObjectType::LayerIndex(l) => Some(l.layer_names@), _ => None } }\n')
    lem = ', '.join('lemma_push_%s, lemma_upd_%s' % (t, t) for t in ['A', 'V'] + [t for _, t in LISTS])
    o.append('pub broadcast group g_cnt { %s }\n' % lem)
    m.raw(''.join(o))


def drawfn(m, src, name, sig_rx, sig, spec, fix=None, wrap='Drawing', loops=None, after=None):
    f = src.fn(name).expect_sig(sig_rx)
    ty = wrap
    f.rewrite(r'String::from\(', 'x_string_from(', 'String::from(&str) -> assumed contract')
    f.rewrite(r'\b([a-z_]+(?:\.\w+)+)\.clone\(\)', r'x_string_clone(&\1)', 'String::clone -> assumed contract')

    def anyrw(mm):
        lst, v, v2, b = mm.group(1), mm.group(2), mm.group(3), mm.group(4).lstrip('*')
        if v != v2 or lst not in TYPE:
            raise LostAnchor('closure in any()')
        bb = b if re.fullmatch(r'\w+', b) else '&' + b
        return 'x_any(&self.__%s, |%s: &%s| -> (r: bool) ensures r == (%s.name@ == %s@) { x_eq(&%s.name, %s) })' % (lst, v, TYPE[lst], v, b, v, bb)
    nb, n = re.subn(r'self\s*\.(\w+)\(\)\s*\.any\(\|(\w+)\|\s*(\w+)\.name == (\*?[\w.]+)\)', anyrw, f.body)
    if n:
        f.log.append('%s: self.<list>().any(|x| x.name == n) -> assumed contract x_any with the closure kept' % name)
    f.body = nb
    f.rewrite(r'(\w+) \{([^{};]*?)\.\.Default::default\(\)', r'\1 {\2..x_default_\1()', 'Default::default() -> unspecified value of the type')
    if fix:
        fix(f)
    if loops is not None:
        f.annotate_loops(loops)
    elif f.loops():
        raise LostAnchor('%s has loops now' % name)
    if after:
        after(f)
    f.insert_start('broadcast use g_cnt;')
    m.fn(f, sig, spec, wrap)
    return f


DFLT = {'Layer': 'x.line_type_name@.len() > 0 && x.color.raw_value != 0 && x.color.raw_value != 256', 'Style': 'x.text_height == 0.0f64 && x.width_factor == 1.0f64'}


def defaults(m):
    g = generated_dir()
    tab = Source('%s/tables.rs' % g)
    cs = Source(m.repo + '/src/color.rs')
    m.fn(cs.fn('Color::from_index').expect_sig(r'fn from_index\(i: u8\) -> Color').rewrite(r'i16::from\((\w+)\)', r'(\1 as i16)', 'lossless i16::from(u8) -> as'), 'pub fn from_index(i: u8) -> (r: Color)', 'ensures r.raw_value == i,', 'Color')
    for _, t, _ in TABLES:
        m.raw('// what a record added under a missing name looks like\npub open spec fn dflt_%s(x: %s) -> bool { %s }\n' % (t, t, DFLT.get(t, 'true')))
    for t in DFLT:
        m.raw('pub fn x_default_%s() -> (r: %s) ensures dflt_%s(r), { proof { reveal_strlit("CONTINUOUS"); } %s }\n' % (t, t, t, project_default(tab, t, ['name', 'handle'] + EXTRA[t])))
        m.fns.append('Default for %s::default (projected)' % t)


def handle_fns(m):
    hs = Source(m.repo + '/src/handle.rs')
    m.fn(hs.fn('Handle::empty').expect_sig(r'fn empty\(\) -> Self'), 'pub fn empty() -> (r: Self)', 'ensures r.0 == 0,', 'Handle')
    m.fn(hs.fn('Handle::is_empty').expect_sig(r'fn is_empty\( ?self ?\) -> bool'), 'pub fn is_empty(self) -> (r: bool)', 'ensures r == (self.0 == 0),', 'Handle')
    n = hs.fn('Handle::next_handle_value').expect_sig(r'fn next_handle_value\( ?self ?\) -> Self')
    n.rewrite(r'([\w.]+)\.checked_add\(1\)\.unwrap_or\(1\)', r'x_succ_or_1(\1)', 'checked_add(1).unwrap_or(1) -> assumed contract')
    m.fn(n, 'pub fn next_handle_value(self) -> (r: Self)', 'ensures r.0 != 0, self.0 < u64::MAX ==> r.0 == self.0 + 1,', 'Handle')


FRAME = ' && '.join('final(self).__%s == old(self).__%s' % (l, l) for l, _ in LISTS) + ' && same_hdr(*old(self), *final(self))'


def only(*ls):
    return ' && '.join('final(self).__%s == old(self).__%s' % (l, l) for l, _ in LISTS if l not in ls)


def heq(f):
    """Handle == Handle (derived PartialEq) written on the wrapped numbers"""
    f.rewrite(r'\b((?:\w+\.)*\w+(?:\.\w+)*) (==|!=) (AUTO_REPLACE_HANDLE|handle)\b(?!\.)', r'\1.0 \2 \3.0', 'derived equality of Handle written on the wrapped number')
    return f


def core(m):
    src = Source(m.repo + '/src/drawing.rs')
    handle_fns(m)
    defaults(m)

    def nh(f):
        f.insert_start('assume(self.header.next_available_handle.0 < u64::MAX); // ASSUMPTION: a drawing does not use up all 2^64 handles\n')
    drawfn(m, src, 'Drawing::next_handle', r'fn next_handle\(&mut self\) -> Handle', 'pub fn next_handle(&mut self) -> (r: Handle)',
           'ensures r.0 != 0, r.0 >= nx(*old(self)), nx(*final(self)) == r.0 + 1, ' + FRAME + ',', nh)
    drawfn(m, src, 'Drawing::reserve_handle', r'fn reserve_handle\(&mut self, handle: Handle\)', 'fn reserve_handle(&mut self, handle: Handle)',
           'ensures nx(*final(self)) >= nx(*old(self)), handle.0 < MAXH ==> nx(*final(self)) > handle.0, handle.0 == MAXH || handle.0 < nx(*old(self)) ==> nx(*final(self)) == nx(*old(self)), nx(*final(self)) == nx(*old(self)) || nx(*final(self)) == handle.0 + 1, ' + FRAME + ',', heq)
    rm = src.fn('Drawing::remove_item').expect_sig(r'fn remove_item<T>\( ?collection: &mut Vec<T>, index: usize ?\) -> Option<T>')
    m.fn(rm, 'fn remove_item<T>(collection: &mut Vec<T>, index: usize) -> (r: Option<T>)', '''ensures
        index < old(collection)@.len() ==> r == Some(old(collection)@[index as int]) && final(collection)@ == old(collection)@.remove(index as int),
        index >= old(collection)@.len() ==> r is None && final(collection)@ == old(collection)@,''', 'Drawing')
    STEP = 'requires below(*old(self)),\nensures below(*final(self)), step(*old(self), *final(self)), grow(*old(self), *final(self)), '

    def fr(l):
        return only(l, 'line_types') if l == 'layers' else only(l)

    def add_ns(snake, t, l):
        drawfn(m, src, 'Drawing::add_%s_no_handle_set' % snake, r'fn add_%s_no_handle_set\( ?&mut self, (mut )?\w+: %s,? ?\) -> &%s' % (snake, t, t),
               'pub fn add_%s_no_handle_set(&mut self, %s: %s) -> (r: &%s)' % (snake, snake, t, t),
               '''requires below(*old(self)), {s}.handle.0 < MAXH,
ensures below(*final(self)), plus_{t}(*old(self), {s}, *final(self)), nx(*final(self)) > {s}.handle.0, grow(*old(self), *final(self)),
    final(self).__{l}@ == old(self).__{l}@.push({s}), *r == {s}, {o},'''.format(s=snake, t=t, l=l, o=fr(l)))

    def add(snake, t, l):
        drawfn(m, src, 'Drawing::add_' + snake, r'fn add_%s\( ?&mut self, mut \w+: %s ?\) -> &%s' % (snake, t, t),
               'pub fn add_%s(&mut self, mut %s: %s) -> (r: &%s)' % (snake, snake, t, t),
               STEP + '''nx(*final(self)) > nx(*old(self)), r.handle.0 >= nx(*old(self)), r.handle.0 != 0, cnt(*final(self), r.handle.0) == 1,
    final(self).__{l}@ == old(self).__{l}@.push(*r), *r == ({t} {{ handle: r.handle, ..{s} }}), {o},'''.format(s=snake, t=t, l=l, o=fr(l)))

    def ensure(fname, snake, t, l, arg):
        drawfn(m, src, 'Drawing::' + fname, r'fn %s\(&mut self, \w+: &str\)' % fname, 'fn %s(&mut self, %s: &str)' % (fname, arg),
               STEP + 'has_%s(*final(self), %s@), has_%s(*old(self), %s@) ==> *final(self) == *old(self), !has_%s(*old(self), %s@) ==> final(self).__%s@.len() == old(self).__%s@.len() + 1 && dflt_%s(final(self).__%s@.last()), %s,' % (t, arg, t, arg, t, arg, l, l, t, l, fr(l)))
    NAMES = {'app_id': 'name', 'block_record': 'name', 'dim_style': 'dim_style_name', 'line_type': 'line_type_name', 'layer': 'layer_name', 'style': 'text_style_name', 'ucs': 'ucs_name', 'view_port': 'name'}
    FN = {'dim_style': 'ensure_dimension_style_is_present', 'style': 'ensure_text_style_is_present'}
    for s, t, l in sorted(TABLES, key=lambda x: x[0] == 'layer'):
        add_ns(s, t, l)
        add(s, t, l)
        if s in NAMES:
            fn = FN.get(s, 'ensure_%s_is_present' % s)
            arg = re.search(r'fn %s\(&mut self, (\w+): &str\)' % fn, src.src)
            if not arg:
                raise LostAnchor(fn)
            ensure(fn, s, t, l, arg.group(1))

    # records that need other records
    def st(name, sigrx, sig, extra, ls, loops=None, fix=None):
        drawfn(m, src, 'Drawing::' + name, sigrx, sig, STEP + extra + ' ' + only(*ls) + ',', fix, loops=loops)

    def each(l, call, seq):
        """loop over a list of strings"""
        return None
    st('ensure_dimension_style_is_present_for_entity', r'fn ensure_dimension_style_is_present_for_entity\(&mut self, entity: &Entity\)', 'fn ensure_dimension_style_is_present_for_entity(&mut self, entity: &Entity)',
       'dim_ref(entity.specific) is Some ==> has_DimStyle(*final(self), dim_ref(entity.specific)->Some_0),', ['dim_styles'])
    st('ensure_text_style_is_present_for_entity', r'fn ensure_text_style_is_present_for_entity\(&mut self, entity: &Entity\)', 'fn ensure_text_style_is_present_for_entity(&mut self, entity: &Entity)',
       'text_ref(entity.specific) is Some ==> has_Style(*final(self), text_ref(entity.specific)->Some_0),', ['styles'])
    st('ensure_text_style_is_present_for_object', r'fn ensure_text_style_is_present_for_object\(&mut self, obj: &Object\)', 'fn ensure_text_style_is_present_for_object(&mut self, obj: &Object)', '', ['styles'])
    st('ensure_line_type_is_present_for_object', r'fn ensure_line_type_is_present_for_object\(&mut self, obj: &Object\)', 'fn ensure_line_type_is_present_for_object(&mut self, obj: &Object)', '', ['line_types'])
    st('ensure_view_is_present', r'fn ensure_view_is_present\(&mut self, obj: &Object\)', 'fn ensure_view_is_present(&mut self, obj: &Object)',
       'obj.specific is PlotSettings ==> has_View(*final(self), obj.specific->PlotSettings_0.plot_view_name@),', ['views'])
    inv = 'invariant below(*self), step(*old(self), *self), grow(*old(self), *self), ' + only('layers', 'line_types').replace('final(self)', 'self') + ', forall|j: int| 0 <= j < _i ==> has_Layer(*self, #[trigger] l.layer_names@[j]@),'
    lp = (r'for layer_name in &l\.layer_names', 'for _i in 0..l.layer_names.len()', inv, 'let ghost _d = *self; let layer_name = &l.layer_names[_i]; ',
          ' proof { assert forall|j: int| 0 <= j < _i + 1 implies has_Layer(*self, #[trigger] l.layer_names@[j]@) by { if j < _i { assert(has_Layer(_d, l.layer_names@[j]@)); lemma_has_Layer(_d, *self, l.layer_names@[j]@); } } }')
    nl = len(src.fn('Drawing::ensure_layer_is_present_for_object').loops())
    st('ensure_layer_is_present_for_object', r'fn ensure_layer_is_present_for_object\(&mut self, obj: &Object\)', 'fn ensure_layer_is_present_for_object(&mut self, obj: &Object)',
       'layer_refs(obj.specific) is Some ==> forall|j: int| 0 <= j < layer_refs(obj.specific)->Some_0.len() ==> has_Layer(*final(self), #[trigger] layer_refs(obj.specific)->Some_0[j]@),', ['layers', 'line_types'], loops=[lp] * nl)
    drawfn(m, src, 'Drawing::add_object_no_handle_set', r'fn add_object_no_handle_set\(&mut self, (mut )?obj: Object\) -> &Object', 'fn add_object_no_handle_set(&mut self, obj: Object) -> (r: &Object)',
           """requires below(*old(self)), obj.common.handle.0 < MAXH,
ensures below(*final(self)), plus_Object(*old(self), obj, *final(self)), nx(*final(self)) > obj.common.handle.0, grow(*old(self), *final(self)),
    final(self).__objects@ == old(self).__objects@.push(obj), *r == obj, """ + only('objects', 'layers', 'line_types', 'styles', 'views') + ',')
    drawfn(m, src, 'Drawing::add_object', r'fn add_object\(&mut self, mut obj: Object\) -> &Object', 'pub fn add_object(&mut self, mut obj: Object) -> (r: &Object)',
           STEP + 'nx(*final(self)) > nx(*old(self)), r.common.handle.0 >= nx(*old(self)), r.common.handle.0 != 0, cnt(*final(self), r.common.handle.0) == 1, final(self).__objects@ == old(self).__objects@.push(*r), r.specific == obj.specific, ' + only('objects', 'layers', 'line_types', 'styles', 'views') + ',')
    m.raw('#[verifier::external_body]\npub fn x_new_object(specific: ObjectType) -> (r: Object) ensures r.specific == specific, { unimplemented!() }\n')

    def fml(f):
        f.rewrite(r'Object::new\(', 'x_new_object(', 'Object::new -> assumed contract')
        f.rewrite(r'self\.objects\(\)\.any\(\|(\w+)\| match (\w+)\.specific \{', r'x_any(&self.__objects, |\1: &Object| -> (r: bool) match \2.specific {', 'any() over objects -> assumed contract')
        f.rewrite(r'-> \(r: bool\) (match [^{]*\{.*?_ => false,?\s*\})\)', r'-> (r: bool) { \1 })', 'closure body braced')
        f.body = re.sub(r'-> \(r: bool\) (match [^{]*\{[^{}]*\})\)', r'-> (r: bool) { \1 })', f.body)
        f.rewrite(r'=> (\w+)\.style_name == (\w+)\.style_name', r'=> x_eq(&\1.style_name, &\2.style_name)', 'String == String -> assumed contract')
    st('ensure_mline_style_is_present_for_entity', r'fn ensure_mline_style_is_present_for_entity\(&mut self, entity: &Entity\)', 'fn ensure_mline_style_is_present_for_entity(&mut self, entity: &Entity)', '',
       ['objects', 'layers', 'line_types', 'styles', 'views'], fix=fml)
    return src, STEP


KIDS = '''
pub open spec fn kidc(x: EntityType, h: u64) -> nat { match x { EntityType::Insert(i) => c_A(i.__attributes_and_handles@, h), EntityType::Polyline(i) => c_V(i.__vertices_and_handles@, h), _ => 0 } }
pub open spec fn seqend_ok(x: EntityType) -> bool { match x { EntityType::Insert(i) => i.__seqend_handle.0 < MAXH, EntityType::Polyline(i) => i.__seqend_handle.0 < MAXH, _ => true } }
// the same entity except for handles of children
pub open spec fn same_body(a: EntityType, b: EntityType) -> bool { match (a, b) {
    (EntityType::Insert(x), EntityType::Insert(y)) => x.__attributes_and_handles@.len() == y.__attributes_and_handles@.len() && forall|i: int| 0 <= i < x.__attributes_and_handles@.len() ==> (#[trigger] y.__attributes_and_handles@[i]).0 == x.__attributes_and_handles@[i].0,
    (EntityType::Polyline(x), EntityType::Polyline(y)) => x.__vertices_and_handles@.len() == y.__vertices_and_handles@.len() && forall|i: int| 0 <= i < x.__vertices_and_handles@.len() ==> (#[trigger] y.__vertices_and_handles@[i]).0 == x.__vertices_and_handles@[i].0,
    _ => a == b } }
pub open spec fn kstep(a: EntityType, b: EntityType, n0: u64, n1: u64) -> bool {
    n0 <= n1 && forall|h: u64| #![trigger kids(b, h)] 0 < h ==> (h >= n1 ==> kids(b, h) == 0) && (h < MAXH ==> if h < n0 || kids(a, h) > 0 { kids(b, h) == kids(a, h) } else { kids(b, h) <= 1 })
}
pub proof fn lemma_none_A(s: Seq<(Attribute, Handle)>, h: u64) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.0 != h, ensures c_A(s, h) == 0, decreases s.len() { if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s.drop_last()[i]).1.0 != h by { assert(s.drop_last()[i] == s[i]); } lemma_none_A(s.drop_last(), h); } }
pub proof fn lemma_none_V(s: Seq<(Vertex, Handle)>, h: u64) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.0 != h, ensures c_V(s, h) == 0, decreases s.len() { if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s.drop_last()[i]).1.0 != h by { assert(s.drop_last()[i] == s[i]); } lemma_none_V(s.drop_last(), h); } }
pub proof fn lemma_none_Entity(s: Seq<Entity>, h: u64) requires forall|i: int| 0 <= i < s.len() ==> w_Entity(#[trigger] s[i], h) == 0, ensures c_Entity(s, h) == 0, decreases s.len() { if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.len() - 1 implies w_Entity(#[trigger] s.drop_last()[i], h) == 0 by { assert(s.drop_last()[i] == s[i]); } lemma_none_Entity(s.drop_last(), h); } }
'''


def kid_fns(m, src):
    m.raw(KIDS)

    def itm(body_of):
        def fix(f):
            heq(f)
        return fix
    # clear_copied_child_handles
    A, V = 'ins.__attributes_and_handles', 'poly.__vertices_and_handles'

    def cl(vec, var):
        return (r'for %s in %s\.iter_mut\(\)' % (var, re.escape(vec)), 'for _i in 0.._n%s' % vec[0],
                'invariant _n%s == _s0.len(), %s@.len() == _s0.len(), forall|j: int| 0 <= j < _i ==> (#[trigger] %s@[j]).1.0 == MAXH, forall|j: int| 0 <= j < _s0.len() ==> (#[trigger] %s@[j]).0 == _s0[j].0,' % (vec[0], vec, vec, vec),
                'let %s = &mut %s[_i]; ' % (var, vec), '')
    f = src.fn('Drawing::clear_copied_child_handles').expect_sig(r'fn clear_copied_child_handles\(entity: &mut Entity\)')
    f.annotate_loops([cl(A, 'a'), cl(V, 'v')])
    for vec in (A, V):
        f.rewrite(r'(for _i in 0\.\._n%s)' % vec[0], r'let _n%s = %s.len(); let ghost _s0 = %s@; \1' % (vec[0], vec, vec), 'ghost copy', 1)
    for vec, n in ((A, 'A'), (V, 'V')):
        f.rewrite(r'(%s\.__seqend_handle = )' % vec.split('.')[0], r'proof { assert forall|h: u64| h < MAXH implies #[trigger] c_%s(%s@, h) == 0 by { lemma_none_%s(%s@, h); } }\n\1' % (n, vec, n, vec), 'lemma call', 1)
    m.fn(f, 'fn clear_copied_child_handles(entity: &mut Entity)', '''ensures final(entity).common == old(entity).common, same_body(old(entity).specific, final(entity).specific),
        old(entity).common.handle.0 == 0 ==> *final(entity) == *old(entity),
        old(entity).common.handle.0 != 0 ==> seqend_ok(final(entity).specific) && forall|h: u64| 0 < h < MAXH ==> #[trigger] kids(final(entity).specific, h) == 0 && kidc(final(entity).specific, h) == 0,''', 'Drawing')

    # ensure_child_handles_are_set
    fr = ' && '.join('self.__%s == old(self).__%s' % (l, l) for l, _ in LISTS) + ' && same_hdr(*old(self), *self)'

    def l1(vec, var, n):
        return (r'for %s in %s\.iter_mut\(\)' % (var, re.escape(vec)), 'for _i in 0.._n%s' % vec[0],
                'invariant _n%s == _s0.len(), %s, nx(*self) >= _n0, %s@ == _s0, forall|j: int| 0 <= j < _i ==> (#[trigger] _s0[j]).1.0 < MAXH ==> _s0[j].1.0 < nx(*self),' % (vec[0], fr, vec),
                'let %s = &mut %s[_i]; ' % (var, vec), '')

    def l2(vec, var, n):
        return (r'for %s in %s\.iter_mut\(\)' % (var, re.escape(vec)), 'for _i in 0.._n%s' % vec[0],
                '''invariant _n{c} == _s0.len(), {fr}, nx(*self) >= _n1, {v}@.len() == _s0.len(), forall|h: u64| _n1 <= h < MAXH ==> #[trigger] c_{n}(_s0, h) == 0,
                    forall|j: int| 0 <= j < _i ==> (#[trigger] {v}@[j]).1.0 < MAXH, forall|j: int| _i <= j < _s0.len() ==> #[trigger] {v}@[j] == _s0[j], forall|j: int| 0 <= j < _s0.len() ==> (#[trigger] {v}@[j]).0 == _s0[j].0,
                    forall|h: u64| #![trigger c_{n}({v}@, h)] 0 < h < MAXH ==> (h < _n1 ==> c_{n}({v}@, h) == c_{n}(_s0, h)) && (h >= _n1 ==> c_{n}({v}@, h) <= 1) && (h >= nx(*self) ==> c_{n}({v}@, h) == 0),'''.format(fr=fr, v=vec, n=n, c=vec[0]),
                'broadcast use g_cnt; let ghost _b = %s@; let ghost _nb = nx(*self); let %s = &mut %s[_i]; ' % (vec, var, vec),
                ' proof {{ let x = {v}@[_i as int]; assert({v}@ =~= _b.update(_i as int, x)); assert forall|h: u64| 0 < h < MAXH implies #[trigger] c_{n}({v}@, h) + w_{n}(_b[_i as int], h) == c_{n}(_b, h) + w_{n}(x, h) by {{ lemma_upd_{n}(_b, _i as int, x, h); }} }}'.format(v=vec, n=n))

    def fix(f):
        heq(f)
    f = src.fn('Drawing::ensure_child_handles_are_set').expect_sig(r'fn ensure_child_handles_are_set\(&mut self, entity: &mut Entity\)')
    heq(f)
    f.annotate_loops([l1(A, 'a', 'A'), l2(A, 'a', 'A'), l1(V, 'v', 'V'), l2(V, 'v', 'V')])
    for vec, n in ((A, 'A'), (V, 'V')):
        nn = [0]

        def rep(mm, vec=vec, n=n, nn=nn):
            nn[0] += 1
            if nn[0] == 1:
                return 'let _n%s = %s.len(); let ghost _n0 = nx(*self); let ghost _s0 = %s@;\n' % (vec[0], vec, vec) + mm.group(0)
            return 'let ghost _n1 = nx(*self); proof {{ assert forall|h: u64| _n1 <= h < MAXH implies #[trigger] c_{n}(_s0, h) == 0 by {{ lemma_none_{n}(_s0, h); }} }}\n'.format(n=n) + mm.group(0)
        f.body = re.sub(r'for _i in 0\.\._n%s' % vec[0], rep, f.body)
        o = vec.split('.')[0]
        f.rewrite(r'(if %s\.__seqend_handle\.is_empty\(\))' % o, r'proof { lemma_none_%s(%s@, MAXH); }\n\1' % (n, vec), 'lemma call', 1)
    f.insert_start('broadcast use g_cnt;')
    m.fn(f, 'fn ensure_child_handles_are_set(&mut self, entity: &mut Entity)', '''requires seqend_ok(old(entity).specific),
ensures final(entity).common == old(entity).common, same_body(old(entity).specific, final(entity).specific),
        kstep(old(entity).specific, final(entity).specific, nx(*old(self)), nx(*final(self))), ''' + FRAME + ',', 'Drawing')


REFS = '''
pub open spec fn refs_ok(d: Drawing, e: Entity) -> bool {
    has_Layer(d, e.common.layer@) && has_LineType(d, e.common.line_type_name@) && (dim_ref(e.specific) is Some ==> has_DimStyle(d, dim_ref(e.specific)->Some_0)) && (text_ref(e.specific) is Some ==> has_Style(d, text_ref(e.specific)->Some_0))
}
// handles of children that an added block entity keeps (it never was part of a drawing)
pub open spec fn ck(s: Seq<Entity>, h: u64) -> nat decreases s.len() { if s.len() == 0 { 0 } else { ck(s.drop_last(), h) + (if s.last().common.handle.0 == 0 { kids(s.last().specific, h) } else { 0 }) } }
pub open spec fn ent_ok(e: Entity) -> bool { e.common.handle.0 < MAXH && seqend_ok(e.specific) }
pub open spec fn same_ent(a: Entity, b: Entity) -> bool { same_body(a.specific, b.specific) && b.common == (EntityCommon { handle: b.common.handle, ..a.common }) }
pub open spec fn same_ents(a: Seq<Entity>, b: Seq<Entity>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_ent(a[i], #[trigger] b[i]) }
pub proof fn lemma_ck(s: Seq<Entity>, t: Seq<Entity>, h: u64)
    requires 0 < h < MAXH, s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).common.handle.0 == 0 && kids(t[i].specific, h) == (if s[i].common.handle.0 == 0 { kids(s[i].specific, h) } else { 0nat }),
    ensures c_Entity(t, h) == ck(s, h), decreases s.len(),
{ if s.len() > 0 { assert(t.last() == t[s.len() - 1]); assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] t.drop_last()[i]).common.handle.0 == 0 && kids(t.drop_last()[i].specific, h) == (if s.drop_last()[i].common.handle.0 == 0 { kids(s.drop_last()[i].specific, h) } else { 0nat }) by { assert(t.drop_last()[i] == t[i]); assert(s.drop_last()[i] == s[i]); } lemma_ck(s.drop_last(), t.drop_last(), h); } }
'''


def entity_fns(m, src, STEP):
    m.raw(REFS)
    LS = ['entities', 'objects', 'layers', 'line_types', 'styles', 'views', 'dim_styles']
    drawfn(m, src, 'Drawing::add_entity_no_handle_set', r'fn add_entity_no_handle_set\(&mut self, mut entity: Entity\) -> &Entity', 'fn add_entity_no_handle_set(&mut self, mut entity: Entity) -> (r: &Entity)',
           """requires below(*old(self)), ent_ok(entity),
ensures below(*final(self)), plus_Entity(*old(self), entity, *final(self)), nx(*final(self)) > entity.common.handle.0, grow(*old(self), *final(self)),
    final(self).__entities@ == old(self).__entities@.push(*r), r.common == entity.common, same_body(entity.specific, r.specific), refs_ok(*final(self), *r), """ + only(*LS) + ',')
    drawfn(m, src, 'Drawing::add_entity', r'fn add_entity\(&mut self, mut entity: Entity\) -> &Entity', 'pub fn add_entity(&mut self, mut entity: Entity) -> (r: &Entity)',
           """requires below(*old(self)), entity.common.handle.0 != 0 || forall|h: u64| nx(*old(self)) <= h < MAXH ==> #[trigger] kidc(entity.specific, h) == 0,
ensures below(*final(self)), grow(*old(self), *final(self)), nx(*final(self)) > nx(*old(self)), r.common.handle.0 >= nx(*old(self)), r.common.handle.0 != 0, cnt(*final(self), r.common.handle.0) == 1,
    final(self).__entities@ == old(self).__entities@.push(*r), same_ent(entity, *r), refs_ok(*final(self), *r),
    // fresh handles once each; of the handles in use before, only those of children that add_vertex/add_attribute gave out for this entity are used again
    forall|h: u64| #![trigger cnt(*final(self), h)] 0 < h < MAXH ==> (if h < nx(*old(self)) { cnt(*final(self), h) == cnt(*old(self), h) + (if entity.common.handle.0 == 0 { kidc(entity.specific, h) } else { 0 }) } else { cnt(*final(self), h) <= 1 }),
    """ + only(*LS) + ',', after=lambda f: (f.insert_start('let ghost _e0 = entity; let ghost _e1 = entity;'), f.rewrite(r'(Drawing::clear_copied_child_handles\(&mut entity\);)', r'\1 let ghost _e1 = entity;', 'ghost copy'), f.insert_before_tail('''proof { let e = entity; let n0 = nx(*old(self)); assert forall|h: u64| 0 < h < MAXH implies (if h < n0 { #[trigger] w_Entity(e, h) == (if _e0.common.handle.0 == 0 { kidc(_e0.specific, h) } else { 0 }) } else { w_Entity(e, h) <= 1 }) by {
        assert(kidc(_e0.specific, h) == kidc(_e0.specific, h)); assert(_e0.common.handle.0 != 0 ==> kids(_e1.specific, h) == 0); assert(kidc(e.specific, h) == (if _e0.common.handle.0 == 0 { kidc(_e0.specific, h) } else { 0 })); } assert(w_Entity(e, e.common.handle.0) == 1); }''')))
    # blocks
    fr = ' && '.join('self.__%s == old(self).__%s' % (l, l) for l, _ in LISTS) + ' && same_hdr(*old(self), *self)'
    f = src.fn('Drawing::ensure_block_entity_handles_are_set').expect_sig(r'fn ensure_block_entity_handles_are_set\(&mut self, block: &mut Block\)')
    f.annotate_loops([
        (r'for ent in &block\.entities', 'for _i in 0..block.entities.len()', 'invariant %s, *block == *old(block), nx(*self) >= nx(*old(self)), forall|j: int| 0 <= j < block.entities@.len() ==> ent_ok(#[trigger] block.entities@[j]), forall|j: int| 0 <= j < _i ==> (#[trigger] block.entities@[j]).common.handle.0 < nx(*self),' % fr, 'let ent = &block.entities[_i]; ', ''),
        (r'for ent in &mut block\.entities', 'for _i in 0.._n', '''invariant _n == _s0.len(), %s, nx(*self) >= _n1, block.entities@.len() == _s0.len(), *block == (Block { entities: block.entities, ..*old(block) }), same_ents(_s0, block.entities@),
            forall|j: int| 0 <= j < _s0.len() ==> ent_ok(#[trigger] _s0[j]), forall|h: u64| _n1 <= h < MAXH ==> #[trigger] c_Entity(_s0, h) == 0,
            forall|j: int| 0 <= j < _i ==> w_Entity(#[trigger] block.entities@[j], MAXH) == 0 && block.entities@[j].common.handle.0 != 0, forall|j: int| _i <= j < _s0.len() ==> #[trigger] block.entities@[j] == _s0[j],
            forall|j: int| 0 <= j < _s0.len() ==> (#[trigger] _s0[j]).common.handle.0 != 0 ==> block.entities@[j].common.handle == _s0[j].common.handle,
            forall|h: u64| #![trigger c_Entity(block.entities@, h)] 0 < h < MAXH ==> (h < _n1 ==> c_Entity(block.entities@, h) == c_Entity(_s0, h)) && (h >= _n1 ==> c_Entity(block.entities@, h) <= 1) && (h >= nx(*self) ==> c_Entity(block.entities@, h) == 0),''' % fr,
         'broadcast use g_cnt; let ghost _b = block.entities@; let ghost _nb = nx(*self); proof { assert(_b[_i as int] == _s0[_i as int]); assert(ent_ok(_s0[_i as int])); assert forall|h: u64| 0 < h < MAXH && h >= _n1 implies #[trigger] w_Entity(_b[_i as int], h) == 0 by { lemma_pos_Entity(_s0, _i as int, h); } } let ent = &mut block.entities[_i]; ',
         ''' proof { let x = block.entities@[_i as int]; assert(block.entities@ =~= _b.update(_i as int, x)); let o = _b[_i as int];
             assert forall|h: u64| 0 < h implies (h >= nx(*self) ==> #[trigger] w_Entity(x, h) == 0) && (h < _n1 ==> w_Entity(x, h) == w_Entity(o, h)) && (_n1 <= h < _nb ==> w_Entity(x, h) == 0) && w_Entity(x, h) <= (if h < _n1 { w_Entity(o, h) } else { 1 }) by { assert(kids(x.specific, h) == kids(x.specific, h)); if h >= _n1 && h < MAXH { assert(w_Entity(o, h) == 0); } }
             assert forall|h: u64| 0 < h < MAXH implies #[trigger] c_Entity(block.entities@, h) + w_Entity(o, h) == c_Entity(_b, h) + w_Entity(x, h) by { lemma_upd_Entity(_b, _i as int, x, h); } }''')])
    f.rewrite(r'(for _i in 0\.\._n\b)', r'let _n = block.entities.len(); let ghost _n1 = nx(*self); let ghost _s0 = block.entities@; proof { assert forall|h: u64| _n1 <= h < MAXH implies #[trigger] c_Entity(_s0, h) == 0 by {} }\n\1', 'ghost copies', 1)
    f.body = f.body.rstrip()[:-1] + ' proof { lemma_none_Entity(block.entities@, MAXH); } }'
    m.fn(f, 'fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block)', """requires forall|j: int| 0 <= j < old(block).entities@.len() ==> ent_ok(#[trigger] old(block).entities@[j]), forall|h: u64| nx(*old(self)) <= h < MAXH ==> #[trigger] c_Entity(old(block).entities@, h) == 0,
ensures *final(block) == (Block { entities: final(block).entities, ..*old(block) }), same_ents(old(block).entities@, final(block).entities@), nx(*final(self)) >= nx(*old(self)),
    forall|j: int| 0 <= j < old(block).entities@.len() ==> (#[trigger] final(block).entities@[j]).common.handle.0 != 0, forall|j: int| 0 <= j < old(block).entities@.len() ==> (#[trigger] old(block).entities@[j]).common.handle.0 != 0 ==> final(block).entities@[j].common.handle == old(block).entities@[j].common.handle,
    forall|h: u64| #![trigger c_Entity(final(block).entities@, h)] 0 < h ==> (h < nx(*old(self)) ==> c_Entity(final(block).entities@, h) == c_Entity(old(block).entities@, h)) && (h >= nx(*old(self)) ==> c_Entity(final(block).entities@, h) <= 1) && (h >= nx(*final(self)) ==> c_Entity(final(block).entities@, h) == 0),
    """ + FRAME + ',', 'Drawing')
    for nm, has, ls in (('layer', 'Layer', ['layers', 'line_types']), ('line_type', 'LineType', ['line_types'])):
        fld = {'layer': 'layer', 'line_type': 'line_type_name'}[nm]
        inv = 'invariant below(*self), step(*old(self), *self), grow(*old(self), *self), ' + (only(*ls)).replace('final(self)', 'self') + ', forall|j: int| 0 <= j < _i ==> has_%s(*self, (#[trigger] block.entities@[j]).common.%s@),' % (has, fld) + (' has_Layer(*self, block.layer@),' if nm == 'layer' else '')
        end = ' proof { %s assert forall|j: int| 0 <= j < _i + 1 implies has_%s(*self, (#[trigger] block.entities@[j]).common.%s@) by { if j < _i { lemma_has_%s(_d, *self, block.entities@[j].common.%s@); } } }' % ('lemma_has_Layer(_d, *self, block.layer@);' if nm == 'layer' else '', has, fld, has, fld)
        drawfn(m, src, 'Drawing::ensure_%s_is_present_for_block' % nm, r'fn ensure_%s_is_present_for_block\(&mut self, block: &Block\)' % nm, 'fn ensure_%s_is_present_for_block(&mut self, block: &Block)' % nm,
               STEP + ('has_Layer(*final(self), block.layer@), ' if nm == 'layer' else '') + 'forall|j: int| 0 <= j < block.entities@.len() ==> has_%s(*final(self), (#[trigger] block.entities@[j]).common.%s@), ' % (has, fld) + only(*ls) + ',',
               loops=[(r'for ent in &block\.entities', 'for _i in 0..block.entities.len()', inv, 'let ghost _d = *self; let ent = &block.entities[_i]; ', end)])
    BS = ['blocks', 'block_records', 'layers', 'line_types']
    drawfn(m, src, 'Drawing::add_block_no_handle_set', r'fn add_block_no_handle_set\(&mut self, mut block: Block\) -> &Block', 'pub fn add_block_no_handle_set(&mut self, mut block: Block) -> (r: &Block)',
           """requires below(*old(self)), block.handle.0 < MAXH, forall|j: int| 0 <= j < block.entities@.len() ==> ent_ok(#[trigger] block.entities@[j]), forall|h: u64| nx(*old(self)) <= h < MAXH ==> #[trigger] c_Entity(block.entities@, h) == 0,
ensures below(*final(self)), plus_Block(*old(self), block, *final(self)), nx(*final(self)) > block.handle.0, grow(*old(self), *final(self)),
    final(self).__blocks@ == old(self).__blocks@.push(*r), *r == (Block { entities: r.entities, ..block }), same_ents(block.entities@, r.entities@), has_BlockRecord(*final(self), block.name@),
    forall|j: int| 0 <= j < block.entities@.len() ==> (#[trigger] r.entities@[j]).common.handle.0 != 0, """ + only(*BS) + ',')
    f = drawfn(m, src, 'Drawing::add_block', r'fn add_block\(&mut self, mut block: Block\) -> &Block', 'pub fn add_block(&mut self, mut block: Block) -> (r: &Block)',
           """requires below(*old(self)), forall|h: u64| nx(*old(self)) <= h < MAXH ==> #[trigger] ck(block.entities@, h) == 0, forall|j: int| 0 <= j < block.entities@.len() ==> (#[trigger] block.entities@[j]).common.handle.0 == 0 ==> seqend_ok(block.entities@[j].specific),
ensures below(*final(self)), grow(*old(self), *final(self)), nx(*final(self)) > nx(*old(self)), r.handle.0 >= nx(*old(self)), r.handle.0 != 0, cnt(*final(self), r.handle.0) == 1,
    final(self).__blocks@ == old(self).__blocks@.push(*r), *r == (Block { handle: r.handle, entities: r.entities, ..block }), same_ents(block.entities@, r.entities@), has_BlockRecord(*final(self), block.name@),
    forall|j: int| 0 <= j < block.entities@.len() ==> (#[trigger] r.entities@[j]).common.handle.0 != 0,
    forall|h: u64| #![trigger cnt(*final(self), h)] 0 < h < MAXH ==> (if h < nx(*old(self)) { cnt(*final(self), h) == cnt(*old(self), h) + ck(block.entities@, h) } else { cnt(*final(self), h) <= 1 }),
    """ + only(*BS) + ',', fix=lambda f: f.rewrite(r'(for ent in &mut block\.entities)', r'let _n = block.entities.len(); let ghost _s0 = block.entities@; let ghost _b0 = block; \1', 'ghost copy', 1),
           loops=[(r'for ent in &mut block\.entities', 'for _i in 0.._n', '''invariant _n == _s0.len(), block.entities@.len() == _s0.len(), block == (Block { entities: block.entities, .._b0 }), same_ents(_s0, block.entities@),
               forall|j: int| 0 <= j < _s0.len() ==> (#[trigger] _s0[j]).common.handle.0 == 0 ==> seqend_ok(_s0[j].specific), forall|j: int| _i <= j < _s0.len() ==> #[trigger] block.entities@[j] == _s0[j],
               forall|j: int| 0 <= j < _i ==> ent_ok(#[trigger] block.entities@[j]) && block.entities@[j].common.handle.0 == 0,
               forall|j: int, h: u64| 0 <= j < _i && 0 < h < MAXH ==> #[trigger] kids(block.entities@[j].specific, h) == (if _s0[j].common.handle.0 == 0 { kids(_s0[j].specific, h) } else { 0nat }),''',
                   'let ghost _b = block.entities@; proof { assert(_b[_i as int] == _s0[_i as int]); } let ent = &mut block.entities[_i]; ', ' proof { assert(block.entities@ =~= _b.update(_i as int, block.entities@[_i as int])); }')],
           after=lambda f: f.insert_before_tail('proof { assert forall|h: u64| 0 < h < MAXH implies #[trigger] c_Entity(block.entities@, h) == ck(_s0, h) by { lemma_ck(_s0, block.entities@, h); } }'))


def histories(m, src):
    for l, t in LISTS:
        m.raw('''pub proof fn lemma_remove_{t}(s: Seq<{t}>, i: int, h: u64) requires 0 <= i < s.len(), ensures c_{t}(s.remove(i), h) + w_{t}(s[i], h) == c_{t}(s, h), decreases s.len(),
{{ if i == s.len() - 1 {{ assert(s.remove(i) =~= s.drop_last()); }} else {{ lemma_remove_{t}(s.drop_last(), i, h); assert(s.remove(i).drop_last() =~= s.drop_last().remove(i)); assert(s.remove(i).last() == s.last()); }} }}
'''.format(t=t))
    SN = {l: s for s, _, l in TABLES}
    SN.update(blocks='block', entities='entity', objects='object')
    for l, t in LISTS:
        f = src.fn('Drawing::remove_' + SN[l]).expect_sig(r'fn remove_%s\(&mut self, index: usize\) -> Option<%s>' % (SN[l], t))
        f.insert_start('proof {{ if index < self.__{l}@.len() {{ assert forall|h: u64| #[trigger] c_{t}(self.__{l}@.remove(index as int), h) + w_{t}(self.__{l}@[index as int], h) == c_{t}(self.__{l}@, h) by {{ lemma_remove_{t}(self.__{l}@, index as int, h); }} }} }}'.format(l=l, t=t))
        m.fn(f, 'pub fn remove_%s(&mut self, index: usize) -> (r: Option<%s>)' % (SN[l], t), '''ensures {o}, final(self).header == old(self).header, forall|h: u64| #![trigger cnt(*final(self), h)] cnt(*final(self), h) <= cnt(*old(self), h),
    index < old(self).__{l}@.len() ==> r == Some(old(self).__{l}@[index as int]) && final(self).__{l}@ == old(self).__{l}@.remove(index as int),
    index >= old(self).__{l}@.len() ==> r is None && final(self).__{l}@ == old(self).__{l}@,'''.format(o=only(l), l=l), 'Drawing')
    es = Source(m.repo + '/src/entity.rs')
    for ty, fn, v, p in (('Insert', 'add_attribute', '__attributes_and_handles', 'att: Attribute'), ('Polyline', 'add_vertex', '__vertices_and_handles', 'vertex: Vertex')):
        f = es.fn('%s::%s' % (ty, fn)).expect_sig(r'fn %s\(&mut self, drawing: &mut Drawing, %s\)' % (fn, p))
        fr = FRAME.replace('(self)', '(drawing)')
        m.fn(f, 'pub fn %s(&mut self, drawing: &mut Drawing, %s)' % (fn, p), '''ensures final(self).{v}@.len() == old(self).{v}@.len() + 1, final(self).{v}@ == old(self).{v}@.push(({a}, final(self).{v}@.last().1)), final(self).__seqend_handle == old(self).__seqend_handle,
    final(self).{v}@.last().1.0 != 0, nx(*old(drawing)) <= final(self).{v}@.last().1.0 < nx(*final(drawing)), {fr},'''.format(v=v, a=p.split(':')[0], fr=fr), ty)
    m.raw('''
// THEOREM: adding records with fresh handles, removing records, and giving a child a fresh handle keep every handle unique and below the next one
pub proof fn theorem_history(a: Drawing, b: Drawing)
    requires uniq(a), below(a), step(a, b) || (nx(b) == nx(a) && forall|h: u64| #[trigger] cnt(b, h) <= cnt(a, h)),
    ensures uniq(b), below(b),
{
    assert forall|h: u64| 0 < h implies #[trigger] cnt(b, h) <= 1 by { assert(cnt(a, h) <= 1); }
    /*CANARY*/
}
// a loaded record whose handles no other record has keeps them unique
pub proof fn theorem_loaded_entity(a: Drawing, x: Entity, b: Drawing)
    requires uniq(a), below(a), plus_Entity(a, x, b), forall|h: u64| 0 < h < MAXH ==> cnt(a, h) + #[trigger] w_Entity(x, h) <= 1,
    ensures uniq(b), below(b),
{
    assert forall|h: u64| 0 < h implies #[trigger] cnt(b, h) <= 1 by { if h < MAXH { assert(cnt(a, h) + w_Entity(x, h) <= 1); } }
}
fn history(d: &mut Drawing, l: Layer, e: Entity, f: Entity, p: &mut Polyline, v: Vertex)
    requires uniq(*old(d)), below(*old(d)), e.common.handle.0 != 0,
    ensures uniq(*final(d)), below(*final(d)),
{
    broadcast use g_cnt;
    d.add_layer(l);
    proof { theorem_history(*old(d), *d); }
    let ghost d1 = *d;
    d.add_entity(e);
    proof { assert forall|h: u64| 0 < h implies #[trigger] cnt(*d, h) <= 1 by { if h < MAXH { assert(cnt(d1, h) <= 1); } } }
    let ghost d2 = *d;
    d.remove_layer(0);
    proof { theorem_history(d2, *d); }
    let ghost d3 = *d;
    p.add_vertex(d, v);
    proof { assert forall|h: u64| #[trigger] cnt(*d, h) == cnt(d3, h) by {} }
    /*CANARY*/
}
''')


def items(m):
    """DrawingItem / DrawingItemMut and the lookups"""
    src = Source(m.repo + '/src/drawing.rs')
    it = Source(m.repo + '/src/drawing_item.rs')
    kinds = {t: l for l, t in LISTS}
    en = item_text(it, 'enum', 'DrawingItem')
    if set(re.findall(r'(\w+)\(&', en)) != set(kinds):
        raise LostAnchor('variants of DrawingItem')
    enm = item_text(it, 'enum', 'DrawingItemMut')
    m.raw(en + enm)
    h = {t: ('x.common.handle' if t in ('Entity', 'Object') else 'x.handle') for t in kinds}
    m.raw("pub open spec fn ih(i: DrawingItem) -> u64 { match i { %s } }\n" % ' '.join('DrawingItem::%s(x) => %s.0,' % (t, h[t]) for t in kinds))
    m.raw("pub open spec fn ihm(i: DrawingItemMut) -> u64 { match i { %s } }\n" % ' '.join('DrawingItemMut::%s(x) => (*x)%s.0,' % (t, h[t][1:]) for t in kinds))
    m.raw("pub open spec fn in_drawing(d: Drawing, i: DrawingItem) -> bool { match i { %s } }\n" % ' '.join('DrawingItem::%s(x) => d.__%s@.contains(*x),' % (t, kinds[t]) for t in kinds))
    m.raw("pub open spec fn in_drawing_mut(d: Drawing, i: DrawingItemMut) -> bool { match i { %s } }\n" % ' '.join('DrawingItemMut::%s(x) => d.__%s@.contains(*x),' % (t, kinds[t]) for t in kinds))
    m.raw("pub open spec fn nobody(d: Drawing, h: u64) -> bool { %s }\n" % ' && '.join('(forall|i: int| 0 <= i < d.__%s@.len() ==> (#[trigger] d.__%s@[i])%s.0 != h)' % (l, l, h[t][1:]) for l, t in LISTS))
    f = it.fn("DrawingItem<'_>::handle").expect_sig(r'fn handle\(&self\) -> Handle')
    m.fn(f, "pub fn handle(&self) -> (r: Handle)", 'ensures r.0 == ih(*self),', "DrawingItem<'_>")
    f = it.fn("DrawingItemMut<'_>::handle").expect_sig(r'fn handle\(&self\) -> Handle')
    f.rewrite(r'\((ref \w+)\)', lambda mm: '(%s)' % mm.group(1)[4:], 'redundant `ref` in patterns dropped')
    f.rewrite(r'\(&mut (Entity|Object) \{ ref common, \.\. \}\) => common', r'(x) => x.common', 'reference pattern -> field access')
    m.fn(f, "pub fn handle(&self) -> (r: Handle)", 'ensures r.0 == ihm(*self),', "DrawingItemMut<'_>")

    def look(name, sig_rx, sig, mut):
        f = src.fn('Drawing::' + name).expect_sig(sig_rx)
        heq(f)
        loops, lh = [], f.loops()
        seen = []
        for x in lh:
            mm = re.fullmatch(r'for (\w+) in &%sself\.__(\w+)' % ('mut ' if mut else ''), x)
            if not mm or mm.group(2) not in TYPE:
                raise LostAnchor('%s: loop `%s`' % (name, x))
            v, l = mm.group(1), mm.group(2)
            t = TYPE[l]
            inv = 'invariant %s' % ('*self == *old(self), ' if mut else '') + ' '.join('forall|i: int| 0 <= i < self.__%s@.len() ==> (#[trigger] self.__%s@[i])%s.0 != handle.0,' % (q, q, h[TYPE[q]][1:]) for q in seen) + ' forall|i: int| 0 <= i < _i ==> (#[trigger] self.__%s@[i])%s.0 != handle.0,' % (l, h[t][1:])
            st = 'let %s = &self.__%s[_i]; ' % (v, l)
            if mut:
                st = ''
            loops.append((re.escape(x).replace('\\ ', ' '), 'for _i in 0..self.__%s.len()' % l, inv, st, ''))
            seen.append(l)
        f.annotate_loops(loops)
        if mut:
            for l, t in LISTS:
                f.body = re.sub(r'(for _i in 0\.\.self\.__%s\.len\(\).*?\n\{\n)(.*?\n\s*\}\n)' % l, lambda mm: mm.group(1) + re.sub(r'DrawingItemMut::(\w+)\(item\)', r'DrawingItemMut::\1(&mut self.__%s[_i])' % l, mm.group(2)).replace('item.', 'self.__%s[_i].' % l), f.body, count=1, flags=re.S)
            f.log.append('%s: `for item in &mut v` -> index loop, `item` -> `v[i]`' % name)
        return f
    f = look('item_by_handle', r"fn item_by_handle\(&('_ )?self, handle: Handle\) -> Option<DrawingItem<'_>>", '', False)
    m.fn(f, "pub fn item_by_handle(&self, handle: Handle) -> (r: Option<DrawingItem<'_>>)", 'ensures r is None ==> nobody(*self, handle.0), r is Some ==> ih(r->Some_0) == handle.0 && in_drawing(*self, r->Some_0),', 'Drawing')
    f = look('item_by_handle_mut', r"fn item_by_handle_mut\(&('_ )?mut self, handle: Handle\) -> Option<DrawingItemMut<'_>>", '', True)
    m.fn(f, "pub fn item_by_handle_mut(&mut self, handle: Handle) -> (r: Option<DrawingItemMut<'_>>)", 'ensures r is None ==> nobody(*old(self), handle.0) && *final(self) == *old(self), r is Some ==> ihm(r->Some_0) == handle.0 && in_drawing_mut(*old(self), r->Some_0),', 'Drawing')


def owners(m):
    it = Source(m.repo + '/src/drawing_item.rs')
    src = Source(m.repo + '/src/drawing.rs')
    kinds = [t for _, t in LISTS]
    m.raw("pub open spec fn same_item(i: DrawingItemMut, j: DrawingItem) -> bool { match (i, j) { %s _ => false } }\n" % ' '.join('(DrawingItemMut::%s(x), DrawingItem::%s(y)) => *x == *y,' % (t, t) for t in kinds))
    m.raw("pub open spec fn same_rest(i: DrawingItemMut, j: DrawingItemMut) -> bool { match (i, j) { %s _ => false } }\n" % ' '.join(
        '(DrawingItemMut::%s(x), DrawingItemMut::%s(y)) => *y == (%s { %s, ..*x }),' % (t, t, t, ('common: %sCommon { handle: (*y).common.handle, ..(*x).common }' % t) if t in ('Entity', 'Object') else 'handle: (*y).handle') for t in kinds))
    f = it.fn("DrawingItemMut<'_>::set_handle").expect_sig(r'fn set_handle\(&mut self, handle: Handle\)')
    f.rewrite(r'\(ref mut (\w+)\)', r'(\1)', 'redundant `ref mut` in patterns dropped (match ergonomics)')
    f.rewrite(r'\(&mut (Entity|Object) \{ ref mut common, \.\. \}\) => common', r'(x) => x.common', 'reference pattern -> field access')
    m.fn(f, 'pub fn set_handle(&mut self, handle: Handle)', 'ensures ihm(*final(self)) == handle.0, same_rest(*old(self), *final(self)),', "DrawingItemMut<'_>")
    f = it.fn("DrawingItemMut<'_>::to_drawing_item").expect_sig(r"fn to_drawing_item\(&self\) -> DrawingItem(<'_>)?")
    f.rewrite(r'\(ref (\w+)\)', r'(\1)', 'redundant `ref` in patterns dropped')
    m.fn(f, "pub fn to_drawing_item(&self) -> (r: DrawingItem<'_>)", 'ensures same_item(*self, r),', "DrawingItemMut<'_>")
    drawfn(m, src, 'Drawing::next_handle', r'fn next_handle\(&mut self\) -> Handle', 'pub fn next_handle(&mut self) -> (r: Handle)',
           'ensures r.0 != 0, r.0 >= nx(*old(self)), nx(*final(self)) == r.0 + 1, ' + FRAME + ',', lambda f: f.insert_start('assume(self.header.next_available_handle.0 < u64::MAX); // ASSUMPTION: a drawing does not use up all 2^64 handles\n'))
    f = src.fn('Drawing::assign_and_get_handle').expect_sig(r'fn assign_and_get_handle\(&mut self, item: &mut DrawingItemMut\) -> Handle')
    m.fn(f, 'pub fn assign_and_get_handle(&mut self, item: &mut DrawingItemMut) -> (r: Handle)', '''ensures r.0 != 0, r.0 == ihm(*final(item)), same_rest(*old(item), *final(item)), ihm(*old(item)) != 0 ==> r.0 == ihm(*old(item)) && nx(*final(self)) == nx(*old(self)), ihm(*old(item)) == 0 ==> r.0 >= nx(*old(self)) && nx(*final(self)) > r.0, ''' + FRAME + ',', 'Drawing')
    b = Source(m.repo + '/src/block.rs')
    f = b.fn('Block::set_owner').expect_sig(r"fn set_owner<'a>\(&mut self, item: &'a mut DrawingItemMut, drawing: &'a mut Drawing\)")
    m.fn(f, "pub fn set_owner<'a>(&mut self, item: &'a mut DrawingItemMut, drawing: &'a mut Drawing)", 'ensures final(self).__owner_handle.0 == ihm(*final(item)), final(self).__owner_handle.0 != 0, same_rest(*old(item), *final(item)), *final(self) == (Block { __owner_handle: final(self).__owner_handle, ..*old(self) }),', 'Block')
    f = b.fn('Block::owner').expect_sig(r"fn owner<'a>\(&self, drawing: &'a Drawing\) -> Option<DrawingItem<'a>>")
    m.fn(f, "pub fn owner<'a>(&self, drawing: &'a Drawing) -> (r: Option<DrawingItem<'a>>)", 'ensures r is None ==> nobody(*drawing, self.__owner_handle.0), r is Some ==> ih(r->Some_0) == self.__owner_handle.0 && in_drawing(*drawing, r->Some_0),', 'Block')
    for l, t in LISTS:
        m.raw('''pub proof fn lemma_two_{t}(s: Seq<{t}>, i: int, k: int, h: u64) requires 0 <= i < k < s.len(), w_{t}(s[i], h) >= 1, w_{t}(s[k], h) >= 1, ensures c_{t}(s, h) >= 2, decreases s.len(),
{{ if k == s.len() - 1 {{ lemma_pos_{t}(s.drop_last(), i, h); assert(s.drop_last()[i] == s[i]); }} else {{ lemma_two_{t}(s.drop_last(), i, k, h); }} }}
'''.format(t=t))
    hh = {t: ('.common.handle' if t in ('Entity', 'Object') else '.handle') for t in kinds}
    m.raw('pub open spec fn has_at(d: Drawing, kind: int, i: int, h: u64) -> bool { %s }\n' % ' || '.join('(kind == %d && 0 <= i < d.__%s@.len() && d.__%s@[i]%s.0 == h)' % (n, l, l, hh[t]) for n, (l, t) in enumerate(LISTS)))
    m.raw('pub open spec fn kcnt(d: Drawing, kind: int, h: u64) -> nat { %s { 0 } }\n' % ' '.join('if kind == %d { c_%s(d.__%s@, h) } else' % (n, t, l) for n, (l, t) in enumerate(LISTS)))
    m.raw('pub proof fn lemma_has_at(d: Drawing, kind: int, i: int, h: u64) requires has_at(d, kind, i, h), ensures kcnt(d, kind, h) >= 1 { %s }\n' % ' '.join('if kind == %d { lemma_pos_%s(d.__%s@, i, h); }' % (n, t, l) for n, (l, t) in enumerate(LISTS)))
    m.raw('pub proof fn lemma_same_kind(d: Drawing, kind: int, i: int, k: int, h: u64) requires has_at(d, kind, i, h), has_at(d, kind, k, h), i < k, ensures kcnt(d, kind, h) >= 2 { %s }\n' % ' '.join('if kind == %d { lemma_two_%s(d.__%s@, i, k, h); }' % (n, t, l) for n, (l, t) in enumerate(LISTS)))
    m.raw('''
// THEOREM: where handles are unique, the record found for a handle is the only record with it, of any kind
pub proof fn theorem_only_one(d: Drawing, k1: int, i1: int, k2: int, i2: int, h: u64)
    requires uniq(d), h != 0, has_at(d, k1, i1, h), has_at(d, k2, i2, h),
    ensures k1 == k2, i1 == i2,
{
    assert(cnt(d, h) <= 1);
    lemma_has_at(d, k1, i1, h);
    lemma_has_at(d, k2, i2, h);
    if k1 == k2 && i1 < i2 { lemma_same_kind(d, k1, i1, i2, h); }
    if k1 == k2 && i2 < i1 { lemma_same_kind(d, k1, i2, i1, h); }
    /*CANARY*/
}
fn found(d: &mut Drawing, h: Handle) {
    let r = d.item_by_handle(h);
    /*CANARY*/
}
fn found_mut(d: &mut Drawing, h: Handle) {
    let r = d.item_by_handle_mut(h);
    /*CANARY*/
}
''')
