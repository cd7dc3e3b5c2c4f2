"""Drawing::normalize and what it calls (C09)"""
import re
from pieces import Source, LostAnchor
from draw import TABLES, LISTS, TYPE, HDR, only, drawfn

FN = [('default_text_height', '0.2'), ('trace_width', '0.05')]
FS = [('text_style', 'STANDARD'), ('current_layer', '0'), ('current_entity_line_type', 'BYLAYER'), ('dimension_style_name', 'STANDARD'), ('file_name', '.')]
UCS = ['ucs_definition_name', 'ucs_name', 'ortho_ucs_reference', 'paperspace_ucs_definition_name', 'paperspace_ucs_name', 'paperspace_ortho_ucs_reference']
MUST = [('AppId', ['ACAD', 'ACADANNOTATIVE', 'ACAD_NAV_VCDISPLAY', 'ACAD_MLEADERVER']), ('BlockRecord', ['*MODEL_SPACE', '*PAPER_SPACE']), ('DimStyle', ['STANDARD', 'ANNOTATIVE']),
        ('Layer', ['0']), ('LineType', ['BYLAYER', 'BYBLOCK', 'CONTINUOUS']), ('Style', ['STANDARD', 'ANNOTATIVE']), ('ViewPort', ['*ACTIVE'])]
# (type, field path, kind, default) of every value that normalization repairs
VP = [('snap_spacing.x', '1.0'), ('snap_spacing.y', '1.0'), ('snap_spacing.z', '1.0'), ('grid_spacing.x', '1.0'), ('grid_spacing.y', '1.0'), ('grid_spacing.z', '1.0'), ('view_height', '1.0'), ('view_port_aspect_ratio', '1.0'), ('lens_length', '50.0')]


LITS = ' '.join('reveal_strlit("%s");' % x for x in ('CONTINUOUS', '0', 'STANDARD', 'BYLAYER', '.'))


def lists_eq(a, b):
    return ' && '.join('%s.__%s@ == %s.__%s@' % (a, l, b, l) for l, _ in LISTS)


def specs(m):
    o = ['''
pub uninterp spec fn fle(a: f64, b: f64) -> bool;
#[verifier::external_body]
pub fn x_f_le(a: f64, b: f64) -> (r: bool) ensures r == fle(a, b), { a <= b }
#[verifier::external_body]
pub fn x_is_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0), { s.is_empty() }
pub axiom fn axiom_positive() ensures !fle(1.0f64, 0.0f64), !fle(50.0f64, 0.0f64), !fle(0.2f64, 0.0f64), !fle(0.05f64, 0.0f64), fle(0.0f64, 0.0f64);
pub open spec fn pos(a: f64, d: f64) -> f64 { if fle(a, 0.0f64) { d } else { a } }
pub open spec fn posi(a: int, d: int) -> int { if a <= 0 { d } else { a } }
pub open spec fn dfl(a: Seq<char>, d: Seq<char>) -> Seq<char> { if a.len() == 0 { d } else { a } }
// the relation between a record before and after normalization
pub open spec fn n_Layer(a: Layer, b: Layer) -> bool { b.name == a.name && b.handle == a.handle && b.line_type_name@ == dfl(a.line_type_name@, "CONTINUOUS"@) && b.color.raw_value == (if a.color.raw_value == 0 || a.color.raw_value == 256 { 7i16 } else { a.color.raw_value }) && (ok_Layer(a) ==> b == a) }
pub open spec fn ok_Layer(a: Layer) -> bool { a.line_type_name@.len() > 0 && a.color.raw_value != 0 && a.color.raw_value != 256 }
pub open spec fn n_Style(a: Style, b: Style) -> bool { b == (Style { text_height: pos(a.text_height, 0.0f64), width_factor: pos(a.width_factor, 1.0f64), ..a }) }
pub open spec fn ok_Style(a: Style) -> bool { (fle(a.text_height, 0.0f64) ==> a.text_height == 0.0f64) && !fle(a.width_factor, 0.0f64) }
pub open spec fn n_View(a: View, b: View) -> bool { b == (View { view_height: pos(a.view_height, 1.0f64), view_width: pos(a.view_width, 1.0f64), lens_length: pos(a.lens_length, 1.0f64), ..a }) }
pub open spec fn ok_View(a: View) -> bool { !fle(a.view_height, 0.0f64) && !fle(a.view_width, 0.0f64) && !fle(a.lens_length, 0.0f64) }
''']
    o.append('pub open spec fn n_ViewPort(a: ViewPort, b: ViewPort) -> bool { b.name == a.name && b.handle == a.handle && b.ucs_icon == posi(a.ucs_icon as int, 3) && b.circle_sides == posi(a.circle_sides as int, 1000) && %s && (ok_ViewPort(a) ==> b == a) }\n' % ' && '.join('b.%s == pos(a.%s, %sf64)' % (f, f, d) for f, d in VP))
    o.append('pub open spec fn ok_ViewPort(a: ViewPort) -> bool { a.ucs_icon > 0 && a.circle_sides > 0 && %s }\n' % ' && '.join('!fle(a.%s, 0.0f64)' % f for f, d in VP))
    o.append('''
pub open spec fn n_Block(a: Block, b: Block) -> bool { b == (Block { layer: b.layer, ..a }) && b.layer@ == dfl(a.layer@, "0"@) && (ok_Block(a) ==> b == a) }
pub open spec fn ok_Block(a: Block) -> bool { a.layer@.len() > 0 }
pub open spec fn n_Entity(a: Entity, b: Entity) -> bool { b.specific == a.specific && b.common == (EntityCommon { layer: b.common.layer, ..a.common }) && b.common.layer@ == dfl(a.common.layer@, "0"@) && (ok_Entity(a) ==> b == a) }
pub open spec fn ok_Entity(a: Entity) -> bool { a.common.layer@.len() > 0 }
pub open spec fn n_Object(a: Object, b: Object) -> bool { b == a }
pub open spec fn ok_Object(a: Object) -> bool { true }
''')
    for t in ('AppId', 'BlockRecord', 'DimStyle', 'LineType', 'Ucs'):
        o.append('pub open spec fn n_%s(a: %s, b: %s) -> bool { b == a }\npub open spec fn ok_%s(a: %s) -> bool { true }\n' % (t, t, t, t, t))
    unt = [f for f in HDR if f not in dict(FN) and f not in dict(FS)]
    o.append('pub open spec fn ok_Header(a: Header) -> bool { %s && %s }\n' % (' && '.join('!fle(a.%s, 0.0f64)' % f for f, _ in FN), ' && '.join('a.%s@.len() > 0' % f for f, _ in FS)))
    o.append('pub open spec fn n_Header(a: Header, b: Header) -> bool { %s && %s && %s && (ok_Header(a) ==> b == a) }\n' % (' && '.join('b.%s == a.%s' % (f, f) for f in unt), ' && '.join('b.%s == pos(a.%s, %sf64)' % (f, f, d) for f, d in FN), ' && '.join('b.%s@ == dfl(a.%s@, "%s"@)' % (f, f, d) for f, d in FS)))
    for l, t in LISTS:
        o.append('''pub open spec fn nn_{t}(a: Seq<{t}>, b: Seq<{t}>) -> bool {{ a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> n_{t}(a[i], #[trigger] b[i]) }}
pub open spec fn rel_{t}(a: Seq<{t}>, b: Seq<{t}>) -> bool {{ a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> n_{t}(a[i], #[trigger] b[i]) }}
pub open spec fn ext_{t}(a: Seq<{t}>, b: Seq<{t}>) -> bool {{ a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }}
pub proof fn lemma_rel_ext_{t}(o: Seq<{t}>, a: Seq<{t}>, b: Seq<{t}>) requires rel_{t}(o, a), ext_{t}(a, b), ensures rel_{t}(o, b) {{ assert forall|i: int| 0 <= i < o.len() implies n_{t}(o[i], #[trigger] b[i]) by {{ assert(n_{t}(o[i], a[i])); }} }}
pub proof fn lemma_ext_nn_{t}(o: Seq<{t}>, a: Seq<{t}>, b: Seq<{t}>) requires ext_{t}(o, a), nn_{t}(a, b), ensures rel_{t}(o, b) {{ assert forall|i: int| 0 <= i < o.len() implies n_{t}(o[i], #[trigger] b[i]) by {{ assert(n_{t}(a[i], b[i])); assert(a[i] == o[i]); }} }}
pub proof fn lemma_ext_refl_{t}(o: Seq<{t}>) ensures ext_{t}(o, o) {{ }}
pub proof fn lemma_idem_{t}(a: Seq<{t}>, b: Seq<{t}>) requires rel_{t}(a, b), a.len() == b.len(), oks_{t}(a), ensures a == b {{ assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {{ assert(ok_{t}(a[i])); assert(n_{t}(a[i], b[i])); }} assert(a =~= b); }}
pub proof fn lemma_nn_rel_{t}(a: Seq<{t}>, b: Seq<{t}>) requires nn_{t}(a, b), ensures rel_{t}(a, b), a.len() == b.len() {{ }}
pub open spec fn oks_{t}(a: Seq<{t}>) -> bool {{ forall|i: int| 0 <= i < a.len() ==> ok_{t}(#[trigger] a[i]) }}
'''.format(t=t))
    o.append('pub uninterp spec fn sle(a: Seq<char>, b: Seq<char>) -> bool; // order of text (Ord of str)\n')
    for _, t, l in TABLES:
        o.append('''pub open spec fn sorted_{t}(s: Seq<{t}>) -> bool {{ forall|i: int, j: int| 0 <= i < j < s.len() ==> sle((#[trigger] s[i]).name@, (#[trigger] s[j]).name@) }}
pub open spec fn perm_{t}(a: Seq<{t}>, b: Seq<{t}>) -> bool {{ a.len() == b.len() && (forall|x: {t}| a.contains(x) <==> #[trigger] b.contains(x)) && forall|h: u64| #![trigger c_{t}(b, h)] #![trigger c_{t}(a, h)] c_{t}(b, h) == c_{t}(a, h) }}
#[verifier::external_body]
pub fn x_sort_{t}(v: &mut Vec<{t}>) ensures perm_{t}(old(v)@, final(v)@), sorted_{t}(final(v)@), sorted_{t}(old(v)@) ==> final(v)@ == old(v)@, {{ v.sort_by(|a, b| a.name.cmp(&b.name)) }}
pub proof fn lemma_perm_has_{t}(a: Drawing, b: Drawing, n: Seq<char>) requires has_{t}(a, n), perm_{t}(a.__{l}@, b.__{l}@), ensures has_{t}(b, n) {{ let i = choose|i: int| 0 <= i < a.__{l}@.len() && (#[trigger] a.__{l}@[i]).name@ == n; assert(a.__{l}@.contains(a.__{l}@[i])); assert(b.__{l}@.contains(a.__{l}@[i])); let k = choose|k: int| 0 <= k < b.__{l}@.len() && b.__{l}@[k] == a.__{l}@[i]; assert(b.__{l}@[k].name@ == n); }}
// an item of a survives in b, repaired where needed
pub open spec fn keep1_{t}(x: {t}, b: Seq<{t}>) -> bool {{ exists|k: int| 0 <= k < b.len() && n_{t}(x, #[trigger] b[k]) }}
pub open spec fn keeps_{t}(a: Seq<{t}>, b: Seq<{t}>) -> bool {{ forall|i: int| 0 <= i < a.len() ==> keep1_{t}(#[trigger] a[i], b) }}
'''.format(t=t, l=l))
    for _, t, l in TABLES:
        o.append('''pub open spec fn news_{t}(a: Seq<{t}>, b: Seq<{t}>) -> bool {{ forall|i: int| a.len() <= i < b.len() ==> dflt_{t}(#[trigger] b[i]) }}
pub proof fn lemma_oks_ext_{t}(a: Seq<{t}>, b: Seq<{t}>) requires oks_{t}(a), ext_{t}(a, b), news_{t}(a, b), {r} ensures oks_{t}(b) {{ axiom_positive(); assert forall|i: int| 0 <= i < b.len() implies ok_{t}(#[trigger] b[i]) by {{ if i < a.len() {{ assert(ok_{t}(a[i])); }} else {{ assert(dflt_{t}(b[i])); }} }} }}
pub proof fn lemma_ext_has_{t}(a: Drawing, b: Drawing, n: Seq<char>) requires has_{t}(a, n), ext_{t}(a.__{l}@, b.__{l}@), ensures has_{t}(b, n) {{ let i = choose|i: int| 0 <= i < a.__{l}@.len() && (#[trigger] a.__{l}@[i]).name@ == n; assert(b.__{l}@[i] == a.__{l}@[i]); }}
'''.format(t=t, l=l, r='a.len() == b.len(),' if t in ('View', 'ViewPort') else ''))
    mu = ' && '.join('has_%s(d, "%s"@)' % (t, n) for t, ns in MUST for n in ns)
    uc = ' && '.join('(d.header.%s@.len() > 0 ==> has_Ucs(d, d.header.%s@))' % (u, u) for u in UCS)
    o.append('// the records every drawing needs\npub open spec fn complete(d: Drawing) -> bool { %s && has_Layer(d, d.header.current_layer@) && %s }\n' % (mu, uc))
    o.append('pub open spec fn normal(d: Drawing) -> bool { complete(d) && ok_Header(d.header) && %s && %s }\n' % (
        ' && '.join('oks_%s(d.__%s@)' % (t, l) for l, t in LISTS), ' && '.join('sorted_%s(d.__%s@)' % (t, l) for _, t, l in TABLES)))
    o.append('pub open spec fn alike(a: Drawing, b: Drawing) -> bool { a.header == b.header && %s }\n' % lists_eq('a', 'b'))
    m.raw(''.join(o))


def build(m, src):
    specs(m)
    m.raw('''pub proof fn lemma_steps(a: Drawing, b: Drawing, c: Drawing) requires step(a, b), step(b, c), below(a), ensures step(a, c) { }
pub proof fn lemma_same_cnt(a: Drawing, b: Drawing) requires nx(a) == nx(b), forall|h: u64| #[trigger] cnt(b, h) == cnt(a, h), below(a), ensures step(a, b), below(b) { }
pub proof fn lemma_step_refl(a: Drawing) requires below(a), ensures step(a, a) { }
''')
    hf = Source(m.repo + '/src/helper_functions.rs')
    f = hf.fn('default_if_empty').expect_sig(r'fn default_if_empty\(val: &mut String, default: &str\)')
    f.rewrite(r'val\.is_empty\(\)', 'x_is_empty(val)', 'String::is_empty -> assumed contract')
    f.rewrite(r'String::from\(', 'x_string_from(', 'String::from(&str) -> assumed contract')
    m.fn(f, 'fn default_if_empty(val: &mut String, default: &str)', 'ensures final(val)@ == dfl(old(val)@, default@), old(val)@.len() > 0 ==> *final(val) == *old(val),')
    f = hf.fn('ensure_positive_or_default').expect_sig(r'fn ensure_positive_or_default\(val: &mut f64, default: f64\)')
    f.rewrite(r'\*val <= 0\.0', 'x_f_le(*val, 0.0)', 'f64 <= -> assumed comparison')
    m.fn(f, 'fn ensure_positive_or_default(val: &mut f64, default: f64)', 'ensures *final(val) == pos(*old(val), default),')
    for w in ('i32', 'i16'):
        f = hf.fn('ensure_positive_or_default_' + w).expect_sig(r'fn ensure_positive_or_default_%s\(val: &mut %s, default: %s\)' % (w, w, w))
        m.fn(f, 'fn ensure_positive_or_default_%s(val: &mut %s, default: %s)' % (w, w, w), 'ensures *final(val) == posi(*old(val) as int, default as int),')
    cs = Source(m.repo + '/src/color.rs')
    m.fn(cs.fn('Color::raw_value').expect_sig(r'fn raw_value\(&self\) -> i16'), 'pub fn raw_value(&self) -> (r: i16)', 'ensures r == self.raw_value,', 'Color')
    m.fn(cs.fn('Color::from_raw_value').expect_sig(r'fn from_raw_value\(val: i16\) -> Color'), 'pub fn from_raw_value(val: i16) -> (r: Color)', 'ensures r.raw_value == val,', 'Color')
    ts, bs, hs, es, os_ = (Source(m.repo + '/src/%s.rs' % n) for n in ('table', 'block', 'header', 'entity', 'object'))
    for s, t in ((ts, 'Layer'), (ts, 'Style'), (ts, 'View'), (ts, 'ViewPort'), (bs, 'Block'), (hs, 'Header')):
        f = s.fn(t + '::normalize').expect_sig(r'fn normalize\(&mut self\)')
        f.insert_start('proof { %s axiom_positive(); }' % LITS)
        m.fn(f, 'pub fn normalize(&mut self)', 'ensures n_%s(*old(self), *final(self)), %s' % (t, 'ok_%s(*final(self)),' % t), t)
    f = es.fn('EntityCommon::normalize').expect_sig(r'fn normalize\(&mut self\)')
    f.insert_start('proof { reveal_strlit("0"); }')
    m.fn(f, 'pub fn normalize(&mut self)', 'ensures *final(self) == (EntityCommon { layer: final(self).layer, ..*old(self) }), final(self).layer@ == dfl(old(self).layer@, "0"@), old(self).layer@.len() > 0 ==> *final(self) == *old(self),', 'EntityCommon')
    f = es.fn('Entity::normalize').expect_sig(r'fn normalize\(&mut self\)')
    f.insert_start('proof { reveal_strlit("0"); }')
    m.fn(f, 'pub fn normalize(&mut self)', 'ensures n_Entity(*old(self), *final(self)), ok_Entity(*final(self)),', 'Entity')
    m.fn(os_.fn('ObjectCommon::normalize').expect_sig(r'fn normalize\(&mut self\)'), 'pub fn normalize(&mut self)', 'ensures *final(self) == *old(self),', 'ObjectCommon')
    m.fn(os_.fn('Object::normalize').expect_sig(r'fn normalize\(&mut self\)'), 'pub fn normalize(&mut self)', 'ensures n_Object(*old(self), *final(self)),', 'Object')

    # normalize_<list>: every item, nothing else
    def each(name, l, pre='', extra='', before=''):
        t = TYPE[l]
        f = src.fn('Drawing::' + name).expect_sig(r'fn %s\(&mut self\)' % name)
        hd = f.loops()
        mm = re.fullmatch(r'for (\w+) in (self\.%s_mut\(\)|self\.__%s\.iter_mut\(\)|&mut self\.__%s)' % (l, l, l), hd[0]) if len(hd) == 1 else None
        if not mm:
            raise LostAnchor('%s: loops %s' % (name, hd))
        v = mm.group(1)
        inv = '''invariant _n == _s0.len(), self.__{l}@.len() == _s0.len(), forall|j: int| 0 <= j < _i ==> n_{t}(_s0[j], #[trigger] self.__{l}@[j]) && ok_{t}(self.__{l}@[j]), forall|j: int| _i <= j < _s0.len() ==> #[trigger] self.__{l}@[j] == _s0[j], self.header == _d0.header, {o},'''.format(l=l, t=t, o=' && '.join('self.__%s == _d0.__%s' % (q, q) for q, _ in LISTS if q != l))
        f.annotate_loops([(re.escape(hd[0]).replace('\\ ', ' '), 'for _i in 0.._n', inv, 'let %s = &mut self.__%s[_i]; ' % (v, l), '')])
        f.rewrite(r'(for _i in 0\.\._n)', r'let ghost _d0 = *self; let ghost _s0 = self.__%s@; let _n = self.__%s.len(); \1' % (l, l), 'ghost copies', 1)
        return f, t
    for l, t in LISTS:
        m.raw('''pub proof fn lemma_nn_{t}(a: Seq<{t}>, b: Seq<{t}>, h: u64) requires nn_{t}(a, b), ensures c_{t}(a, h) == c_{t}(b, h), decreases a.len(),
{{ if a.len() > 0 {{ assert(n_{t}(a[a.len() - 1], b[a.len() - 1])); assert forall|i: int| 0 <= i < a.len() - 1 implies n_{t}(a.drop_last()[i], #[trigger] b.drop_last()[i]) by {{ assert(n_{t}(a[i], b[i])); }} lemma_nn_{t}(a.drop_last(), b.drop_last(), h); }} }}
'''.format(t=t))
    for name, l in (('normalize_blocks', 'blocks'), ('normalize_entities', 'entities'), ('normalize_objects', 'objects'), ('normalize_text_styles', 'styles'), ('normalize_view_ports', 'view_ports'), ('normalize_views', 'views')):
        f, t = each(name, l)
        f.body = f.body.rstrip()[:-1] + ' proof {{ assert forall|h: u64| #[trigger] c_{t}(self.__{l}@, h) == c_{t}(_s0, h) by {{ lemma_nn_{t}(_s0, self.__{l}@, h); }} assert forall|h: u64| #[trigger] cnt(*self, h) == cnt(_d0, h) by {{}} lemma_same_cnt(_d0, *self); }} }}'.format(t=t, l=l)
        m.fn(f, 'fn %s(&mut self)' % name, 'requires below(*old(self)), ensures below(*final(self)), step(*old(self), *final(self)), nn_%s(old(self).__%s@, final(self).__%s@), oks_%s(final(self).__%s@), final(self).header == old(self).header, %s,' % (t, l, l, t, l, only(l)), 'Drawing')

    # ensure_*: the records that must exist
    STEP = 'requires below(*old(self)),\nensures below(*final(self)), step(*old(self), *final(self)), same_hdr(*old(self), *final(self)), '
    must = dict(MUST)

    def ens(name, t, l, ls):
        f = src.fn('Drawing::' + name).expect_sig(r'fn %s\(&mut self\)' % name)
        # a copy before each call, so that what one call ensured is carried over the next
        k = [0]

        def sub(mm):
            k[0] += 1
            return 'let ghost _p%d = *self; %s proof { %s }' % (k[0], mm.group(0), ' '.join('if has_%s(_p%d, "%s"@) { lemma_has_%s(_p%d, *self, "%s"@); }' % (t, k[0], n, t, k[0], n) for n in must[t]))
        f.body = re.sub(r'self\.ensure_\w+_is_present\("[^"]*"\);', sub, f.body)
        has = ', '.join('has_%s(*final(self), "%s"@)' % (t, n) for n in must[t])
        was = ' && '.join('has_%s(*old(self), "%s"@)' % (t, n) for n in must[t])
        m.fn(f, 'fn %s(&mut self)' % name, STEP + has + ', (%s) ==> *final(self) == *old(self), news_%s(old(self).__%s@, final(self).__%s@), ' % (was, t, l, l) + ''.join('ext_%s(old(self).__%s@, final(self).__%s@), ' % (TYPE[q], q, q) for q in ls) + only(*ls) + ',', 'Drawing')
    for name, t, l, ls in (('normalize_app_ids', 'AppId', 'app_ids', ['app_ids']), ('normalize_block_records', 'BlockRecord', 'block_records', ['block_records']), ('ensure_dimension_styles', 'DimStyle', 'dim_styles', ['dim_styles']),
                           ('ensure_layers', 'Layer', 'layers', ['layers', 'line_types']), ('ensure_line_types', 'LineType', 'line_types', ['line_types']), ('ensure_text_styles', 'Style', 'styles', ['styles']), ('ensure_view_ports', 'ViewPort', 'view_ports', ['view_ports'])):
        ens(name, t, l, ls)
    # normalize_layers: the current layer, then every layer
    f, t = each('normalize_layers', 'layers')
    f.rewrite(r'&self\.header\.current_layer\.clone\(\)', 'x_string_clone(&self.header.current_layer).as_str()', 'String::clone -> assumed contract')
    f.insert_start('let ghost _o = *self;')
    f.body = f.body.rstrip()[:-1] + """ proof { assert forall|h: u64| #[trigger] c_Layer(self.__layers@, h) == c_Layer(_s0, h) by { lemma_nn_Layer(_s0, self.__layers@, h); }
        assert forall|h: u64| #[trigger] cnt(*self, h) == cnt(_d0, h) by {} assert(below(*self)); assert(step(_d0, *self));
        if has_Layer(_d0, _o.header.current_layer@) { let i = choose|i: int| 0 <= i < _d0.__layers@.len() && (#[trigger] _d0.__layers@[i]).name@ == _o.header.current_layer@; assert(self.__layers@[i].name@ == _o.header.current_layer@); }
        assert forall|i: int| 0 <= i < _o.__layers@.len() implies n_Layer(_o.__layers@[i], #[trigger] self.__layers@[i]) by { assert(_d0.__layers@[i] == _o.__layers@[i]); } } }"""
    m.fn(f, 'fn normalize_layers(&mut self)', """requires below(*old(self)),
ensures below(*final(self)), step(*old(self), *final(self)), same_hdr(*old(self), *final(self)), has_Layer(*final(self), old(self).header.current_layer@), oks_Layer(final(self).__layers@),
    rel_Layer(old(self).__layers@, final(self).__layers@), ext_LineType(old(self).__line_types@, final(self).__line_types@),
    has_Layer(*old(self), old(self).header.current_layer@) ==> final(self).header == old(self).header && final(self).__layers@.len() == old(self).__layers@.len() && final(self).__line_types == old(self).__line_types, """ + only('layers', 'line_types') + ',', 'Drawing')
    # ensure_ucs
    m.raw("""
#[verifier::external_body]
pub struct XSet { s: u8 }
impl XSet { pub uninterp spec fn has(self, n: Seq<char>) -> bool; }
#[verifier::external_body]
pub fn x_set_new() -> (r: XSet) ensures forall|n: Seq<char>| !(#[trigger] r.has(n)), { unimplemented!() }
#[verifier::external_body]
pub fn x_set_insert(s: &mut XSet, v: String) ensures forall|n: Seq<char>| #[trigger] final(s).has(n) == (old(s).has(n) || n == v@), { unimplemented!() }
#[verifier::external_body]
pub fn x_set_items(s: &XSet) -> (r: Vec<String>) ensures forall|n: Seq<char>| #[trigger] s.has(n) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == n, forall|i: int| 0 <= i < r@.len() ==> s.has((#[trigger] r@[i])@), { unimplemented!() }
""")
    f = src.fn('Drawing::ensure_ucs').expect_sig(r'fn ensure_ucs\(&mut self\)')
    f.rewrite(r'HashSet::new\(\)', 'x_set_new()', 'HashSet -> assumed set')
    f.rewrite(r'should_exist\.insert\(self\.header\.(\w+)\.clone\(\)\)', r'x_set_insert(&mut should_exist, x_string_clone(&self.header.\1))', 'HashSet::insert -> assumed contract')
    f.rewrite(r'!name\.is_empty\(\)', '!x_is_empty(name)', 'String::is_empty -> assumed contract')
    was = '(forall|j: int| 0 <= j < _v@.len() ==> (#[trigger] _v@[j])@.len() > 0 ==> has_Ucs(*old(self), _v@[j]@)) ==> *self == *old(self)'
    f.annotate_loops([(r'for name in &should_exist', 'for _i in 0.._v.len()', 'invariant below(*self), step(*old(self), *self), grow(*old(self), *self), %s, forall|j: int| 0 <= j < _i ==> (#[trigger] _v@[j])@.len() > 0 ==> has_Ucs(*self, _v@[j]@), %s,' % (only('ucss').replace('final(self)', 'self'), was),
                       'let ghost _d = *self; let name = &_v[_i]; ', ' proof { assert forall|j: int| 0 <= j < _i + 1 && _v@[j]@.len() > 0 implies has_Ucs(*self, (#[trigger] _v@[j])@) by { if j < _i { lemma_has_Ucs(_d, *self, _v@[j]@); } } }')])
    f.rewrite(r'(for _i in 0\.\._v)', r'let _v = x_set_items(&should_exist); \1', 'iteration over the set -> its items in some order', 1)
    oh = ' && '.join('(old(self).header.%s@.len() > 0 ==> has_Ucs(*old(self), old(self).header.%s@))' % (u, u) for u in UCS)
    f.body = f.body.rstrip()[:-1] + ' proof { %s } }' % ' '.join('assert(should_exist.has(old(self).header.%s@));' % u for u in UCS)
    m.fn(f, 'fn ensure_ucs(&mut self)', STEP + ' '.join('old(self).header.%s@.len() > 0 ==> has_Ucs(*final(self), old(self).header.%s@),' % (u, u) for u in UCS) + ' (%s) ==> *final(self) == *old(self), ext_Ucs(old(self).__ucss@, final(self).__ucss@), ' % oh + only('ucss') + ',', 'Drawing')
    # normalize
    for _, t, l in TABLES:
        m.raw('''pub proof fn lemma_sorted_{t}(o: Seq<{t}>, a: Seq<{t}>, b: Seq<{t}>) requires perm_{t}(a, b), rel_{t}(o, a), oks_{t}(a), ensures keeps_{t}(o, b), oks_{t}(b) {{
    assert forall|k: int| 0 <= k < b.len() implies ok_{t}(#[trigger] b[k]) by {{ assert(b.contains(b[k])); assert(a.contains(b[k])); let i = choose|i: int| 0 <= i < a.len() && a[i] == b[k]; assert(ok_{t}(a[i])); }}
    assert forall|i: int| 0 <= i < o.len() implies keep1_{t}(#[trigger] o[i], b) by {{ assert(n_{t}(o[i], a[i])); assert(a.contains(a[i])); assert(b.contains(a[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i]; assert(n_{t}(o[i], b[k])); }}
}}
'''.format(t=t))
    m.raw('pub proof fn lemma_perms(a: Drawing, b: Drawing) requires a.header == b.header, a.__blocks == b.__blocks, a.__entities == b.__entities, a.__objects == b.__objects, %s, below(a), ensures below(b), step(a, b) { assert forall|h: u64| #[trigger] cnt(b, h) == cnt(a, h) by {} lemma_same_cnt(a, b); }\n' % ', '.join('perm_%s(a.__%s@, b.__%s@)' % (t, l, l) for _, t, l in TABLES))
    f = src.fn('Drawing::normalize').expect_sig(r'fn normalize\(&mut self\)')
    f.rewrite(r'self\.__(\w+)\s*\.sort_by\(\|(\w+), (\w+)\| \2\.name\.cmp\(&\3\.name\)\);', lambda mm: 'x_sort_%s(&mut self.__%s);' % (TYPE[mm.group(1)], mm.group(1)), 'v.sort_by(|a, b| a.name.cmp(&b.name)) -> assumed contract (stable sort by name)')
    if f.loops():
        raise LostAnchor('normalize has loops now')
    ND = {'normalize_blocks': 'blocks', 'normalize_entities': 'entities', 'normalize_objects': 'objects', 'normalize_text_styles': 'styles', 'normalize_view_ports': 'view_ports', 'normalize_views': 'views'}
    EN = {'normalize_app_ids': ['app_ids'], 'normalize_block_records': ['block_records'], 'ensure_view_ports': ['view_ports'], 'ensure_dimension_styles': ['dim_styles'], 'ensure_layers': ['layers', 'line_types'], 'ensure_line_types': ['line_types'], 'ensure_text_styles': ['styles'], 'ensure_ucs': ['ucss']}
    must = dict(MUST)
    O = '(*old(self))'

    def snap(mm):
        n = mm.group(1)
        p = ['lemma_steps(_o, _b, *self);']
        if n in ND:
            l = ND[n]
            t = TYPE[l]
            p.append('if ext_{t}(_o.__{l}@, _b.__{l}@) {{ lemma_ext_nn_{t}(_o.__{l}@, _b.__{l}@, self.__{l}@); }} lemma_nn_rel_{t}(_b.__{l}@, self.__{l}@); if oks_{t}(_b.__{l}@) {{ lemma_idem_{t}(_b.__{l}@, self.__{l}@); }}'.format(t=t, l=l))
            if t in must:
                p.append(' '.join('if has_{t}(_b, "{x}"@) {{ lemma_nn_has_{t}(_b, *self, "{x}"@); }}'.format(t=t, x=x) for x in must[t]))
        elif n in EN:
            for l in EN[n]:
                t = TYPE[l]
                p.append('if rel_{t}(_o.__{l}@, _b.__{l}@) {{ lemma_rel_ext_{t}(_o.__{l}@, _b.__{l}@, self.__{l}@); }}'.format(t=t, l=l))
                if t in ('Layer', 'Style'):
                    p.append('if oks_{t}(_b.__{l}@) {{ lemma_oks_ext_{t}(_b.__{l}@, self.__{l}@); }}'.format(t=t, l=l))
                if t in must:
                    p.append(' '.join('if has_{t}(_b, "{x}"@) {{ lemma_ext_has_{t}(_b, *self, "{x}"@); }}'.format(t=t, x=x) for x in must[t]))
                if t == 'Layer':
                    p.append('if has_Layer(_b, _b.header.current_layer@) { lemma_ext_has_Layer(_b, *self, _b.header.current_layer@); }')
        elif n == 'normalize_layers':
            p.append('if ext_Layer(_o.__layers@, _b.__layers@) { lemma_ext_rel_Layer(_o.__layers@, _b.__layers@, self.__layers@); } if oks_Layer(_b.__layers@) && _b.__layers@.len() == self.__layers@.len() { lemma_idem_Layer(_b.__layers@, self.__layers@); } if rel_LineType(_o.__line_types@, _b.__line_types@) { lemma_rel_ext_LineType(_o.__line_types@, _b.__line_types@, self.__line_types@); }')
        else:
            raise LostAnchor('normalize calls ' + n)
        p.append('if _same { assert(alike(_o, *self)); }')
        return 'let ghost _b = *self; %s proof { %s }' % (mm.group(0), '\n '.join(p))
    m.raw('pub proof fn lemma_ext_rel_Layer(o: Seq<Layer>, a: Seq<Layer>, b: Seq<Layer>) requires ext_Layer(o, a), rel_Layer(a, b), ensures rel_Layer(o, b) { assert forall|i: int| 0 <= i < o.len() implies n_Layer(o[i], #[trigger] b[i]) by { assert(n_Layer(a[i], b[i])); assert(a[i] == o[i]); } }\n')
    for t in ('Style', 'ViewPort'):
        l = [q for q, z in LISTS if z == t][0]
        m.raw('pub proof fn lemma_nn_has_{t}(a: Drawing, b: Drawing, n: Seq<char>) requires has_{t}(a, n), nn_{t}(a.__{l}@, b.__{l}@), ensures has_{t}(b, n) {{ let i = choose|i: int| 0 <= i < a.__{l}@.len() && (#[trigger] a.__{l}@[i]).name@ == n; assert(n_{t}(a.__{l}@[i], b.__{l}@[i])); assert(b.__{l}@[i].name@ == n); }}\n'.format(t=t, l=l))
    m.raw('pub proof fn lemma_start(a: Drawing) requires below(a), ensures step(a, a), %s { }\n' % ', '.join('ext_%s(a.__%s@, a.__%s@)' % (t, l, l) for l, t in LISTS) + 'pub proof fn lemma_start2(a: Drawing) ensures %s { }\n' % ', '.join('rel_%s(a.__%s@, a.__%s@), oks_%s(a.__%s@)' % (t, l, l, t, l) for _, t, l in TABLES if t in ('AppId', 'BlockRecord', 'DimStyle', 'LineType', 'Ucs')))
    m.raw('pub proof fn lemma_oks_any(a: Drawing) ensures %s { }\n' % ', '.join('oks_%s(a.__%s@)' % (t, l) for l, t in LISTS if t in ('AppId', 'BlockRecord', 'DimStyle', 'LineType', 'Ucs', 'Object')))
    m.raw('pub proof fn lemma_hdr_step(a: Drawing, b: Drawing) requires below(a), nx(a) == nx(b), %s, ensures below(b), step(a, b) { assert forall|h: u64| #[trigger] cnt(b, h) == cnt(a, h) by {} lemma_same_cnt(a, b); }\n' % ', '.join('a.__%s == b.__%s' % (l, l) for l, _ in LISTS))
    f.body = re.sub(r'self\.((?:normalize|ensure)_\w+)\(\);', snap, f.body)
    f.rewrite(r'self\.header\.normalize\(\);', 'self.header.normalize(); proof { lemma_hdr_step(_o, *self); }', 'proof block', 1)
    i = f.body.find('x_sort_')
    if i < 0:
        raise LostAnchor('normalize does not sort')
    f.body = f.body[:i] + 'let ghost _ps = *self;\n' + f.body[i:]
    post = 'lemma_oks_any(_ps); lemma_oks_any(*self); lemma_perms(_ps, *self); lemma_steps(_o, _ps, *self); ' + ' '.join('lemma_sorted_%s(_o.__%s@, _ps.__%s@, self.__%s@);' % (t, l, l, l) for _, t, l in TABLES)
    post += ' ' + ' '.join('lemma_perm_has_%s(_ps, *self, "%s"@);' % (t, x) for t, ns in MUST for x in ns) + ' lemma_perm_has_Layer(_ps, *self, self.header.current_layer@); ' + ' '.join('if self.header.%s@.len() > 0 { lemma_perm_has_Ucs(_ps, *self, self.header.%s@); }' % (u, u) for u in UCS)
    f.body = f.body.rstrip()[:-1] + ' proof { %s } }' % post
    hid = ['step', 'below', 'grow', 'cnt'] + ['%s_%s' % (p, t) for _, t in LISTS for p in ('nn', 'rel', 'ext', 'oks')] + ['%s_%s' % (p, t) for _, t, _ in TABLES for p in ('hs', 'sorted', 'perm', 'keeps', 'news')]
    f.insert_start(' '.join('hide(%s);' % x for x in hid) + ' let ghost _o = *self; let ghost _same = normal(*self); proof { lemma_start(_o); lemma_start2(_o); lemma_hdr_n(_o.header); }')
    m.raw('pub proof fn lemma_hdr_n(h: Header) ensures true { }\n')
    m.fn(f, '#[verifier::rlimit(80)] pub fn normalize(&mut self)', '''requires below(*old(self)),
ensures below(*final(self)), step(*old(self), *final(self)), normal(*final(self)), normal(*old(self)) ==> alike(*old(self), *final(self)),
    n_Header(old(self).header, Header { next_available_handle: old(self).header.next_available_handle, ..final(self).header }), %s,
    %s,''' % (', '.join('nn_%s(old(self).__%s@, final(self).__%s@)' % (t, l, l) for l, t in LISTS[9:]), ', '.join('keeps_%s(old(self).__%s@, final(self).__%s@)' % (t, l, l) for _, t, l in TABLES)), 'Drawing')
    m.raw('''
// THEOREM: normalizing twice is normalizing once, and keeps handles unique
fn normalize_twice(d: &mut Drawing) requires below(*old(d)), uniq(*old(d)), ensures normal(*final(d)), uniq(*final(d)) {
    d.normalize();
    let ghost d1 = *d;
    proof { assert forall|h: u64| 0 < h implies #[trigger] cnt(*d, h) <= 1 by { assert(cnt(*old(d), h) <= 1); } }
    d.normalize();
    proof { assert(alike(d1, *d)); assert forall|h: u64| 0 < h implies #[trigger] cnt(*d, h) <= 1 by { assert(cnt(d1, h) <= 1); } }
    /*CANARY*/
}
''')
