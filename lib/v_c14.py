from pieces import pairs_base, hex_fns, generated_dir, versions, versioned
from rustx import Source, LostAnchor
from kinds import Kinds
from v_c17 import helpers

OPTS = ['--smt-option', 'smt.case_split=1']
COM = '''
5 h handle
102 spec GROUPS
330 h __owner_handle
67 bool is_in_paper_space
8 str layer
6 str line_type_name
38 f64 elevation
347 h __material_handle
62 color color
370 i16 lineweight_enum_value
48 f64 line_type_scale
60 nbool is_visible
92 i32 image_byte_count
310 +bin preview_image_data
420 i32 color_24_bit
430 str color_name
440 i32 transparency
390 h __plot_style_handle
284 enum ShadowMode.CastsAndReceivesShadows shadow_mode
1001 spec XDATA
'''
LW = '''
10 set vertices x.r.vertices.push(lw_vertex0()) ; f64 vertices.last.x
20 f64 vertices.last.y
40 f64 vertices.last.starting_width
41 f64 vertices.last.ending_width
42 f64 vertices.last.bulge
91 i32 vertices.last.id
39 f64 thickness
43 f64 constant_width
70 int flags
210 f64 extrusion_direction.x
220 f64 extrusion_direction.y
230 f64 extrusion_direction.z
'''
XR = 'x.xr'
ATT = '''
100 xrec @xr
1 str value
2 [{X}] str x_record_tag | str {tag}
{prompt}
7 str text_style_name
10 [{X}] f64 alignment_point.x | f64 location.x
20 [{X}] f64 alignment_point.y | f64 location.y
30 [{X}] f64 alignment_point.z | f64 location.z
11 f64 second_alignment_point.x
21 f64 second_alignment_point.y
31 f64 second_alignment_point.z
39 f64 thickness
40 [{X}] f64 annotation_scale | f64 text_height
41 f64 relative_x_scale_factor
50 f64 rotation
51 f64 oblique_angle
70 [!({X})] int flags | [x.n == 0] enum MTextFlag.MultilineAttribute m_text_flag ; set @n 1 | [x.n == 1] bool is_really_locked ; set @n 2 | [x.n == 2] int __secondary_attribute_count ; set @n 3 | err
71 int text_generation_flags
72 enum HorizontalTextJustification.Left horizontal_text_justification
73 i16 field_length
74 enum VerticalTextJustification.Baseline vertical_text_justification
210 f64 normal.x
220 f64 normal.y
230 f64 normal.z
280 [{X}] bool keep_duplicate_records | [!x.ver] enum Version.R2010 version ; set @ver true | bool is_locked_in_block
340 +h __secondary_attributes_handle
'''
ATTLOC = [('xr', 'bool', '(last_subclass_marker@ == "AcDbXrecord"@)'), ('ver', 'bool', 'is_version_set'), ('n', 'int', 'xrec_code_70_count as int')]
MT = '''
10 f64 insertion_point.x
20 f64 insertion_point.y
30 f64 insertion_point.z
40 f64 initial_text_height
41 f64 reference_rectangle_width
71 enum AttachmentPoint.TopLeft attachment_point
72 enum DrawingDirection.LeftToRight drawing_direction
3 +str extended_text
1 str text
7 str text_style_name
210 f64 extrusion_direction.x
220 f64 extrusion_direction.y
230 f64 extrusion_direction.z
11 f64 x_axis_direction.x
21 f64 x_axis_direction.y
31 f64 x_axis_direction.z
42 f64 horizontal_width
43 f64 vertical_height
50 [!x.col] f64 rotation_angle | [x.cnt] +f64 column_heights | intf column_count ; set @cnt true
73 enum MTextLineSpacingStyle.AtLeast line_spacing_style
44 f64 line_spacing_factor
90 enum32 BackgroundFillSetting.Off background_fill_setting
420 i32 background_color_rgb
430 str background_color_name
45 f64 fill_box_scale
63 color background_fill_color
441 i32 background_fill_color_transparency
75 i16 column_type ; set @col true
76 int column_count
78 bool is_column_flow_reversed
79 bool is_column_auto_height
48 f64 column_width
49 f64 column_gutter
'''


def base(repo, spec):
    m = pairs_base(repo, spec)
    m.s('c20.rs', 'hex.rs')
    m.add(hex_fns(repo))
    m.add(versions(repo))
    helpers(m, repo)
    m.raw('#[verifier::external_body]\npub fn x_msg0() -> (r: String) ensures r@ == Seq::<char>::empty(), { String::new() }\n')
    return m


def start(repo, spec):
    m = base(repo, spec)
    gen = generated_dir()
    k = Kinds(m, repo, [gen + '/entities.rs', repo + '/src/entity.rs'], 'EntityCommon', COM)
    return m, k, Source(repo + '/src/entity.rs'), Source(gen + '/entities.rs')


def build(repo, spec):
    m, k, src, g = start(repo, spec)
    k.struct('LwPolylineVertex')
    m.raw('pub open spec fn lw_vertex0() -> V_LwPolylineVertex { V_LwPolylineVertex { x: 0.0f64, y: 0.0f64, id: 0, starting_width: 0.0f64, ending_width: 0.0f64, bulge: 0.0f64 } }\nimpl LwPolylineVertex {\n#[verifier::external_body]\npub fn default() -> (r: Self) ensures v_LwPolylineVertex(r) == lw_vertex0(), { unimplemented!() }\n}\n')
    m.log.append('LwPolylineVertex::default: derived; assumed all zero')
    k.step('lw', 'LwPolyline', LW)
    k.reader('lw', src, 'Entity', 'apply_custom_reader_lwpolyline', 'poly', 'LwPolyline')
    lw_writer(m, k, g)
    k.step('mt', 'MText', MT, [('col', 'bool', ''), ('cnt', 'bool', '')])
    k.reader('mt', src, 'Entity', 'apply_custom_reader_mtext', 'mtext', 'MText', [('col', 'bool', 'reading_column_data'), ('cnt', 'bool', 'read_column_count')])
    mt_writer(m, k, g)
    return m.done()


def attributes(repo, spec, which):
    m, k, src, g = start(repo, spec)
    w, T, fn, tag, pr = which
    k.step(w, T, ATT.format(X=XR, tag=tag, prompt=pr), ATTLOC)
    k.reader(w, src, 'Entity', fn, 'att', T, ATTLOC, extra='xrecord_text@ == "AcDbXrecord"@, 0 <= xrec_code_70_count <= 3,', pre='proof { reveal_strlit("AcDbXrecord"); assert("AcDbXrecord"@.len() > 0); }')
    E = ['location', 'text_height', 'value', tag, 'field_length', 'text_style_name', 'horizontal_text_justification', 'second_alignment_point'] + (['prompt'] if pr else [])
    N = ['keep_duplicate_records', 'm_text_flag', 'is_really_locked', '__secondary_attributes_handle', 'alignment_point', 'annotation_scale', 'x_record_tag']
    f = k.arm(g, 'EntityType', T)
    HS = 'ent.__secondary_attributes_handle'
    V7, V10 = '(vord(version) >= vord(AcadVersion::R2007))', '(vord(version) >= vord(AcadVersion::R2010))'
    X7 = '_y0.xr == %s, ' % V7
    k.writer(w, f, 'add_%s(ent: &%s, %s)' % (T.lower(), T, ARGS),
             ['psame(y.r.normal, v.normal)', 'y.c == x.c', 'y.r.flags == (v.flags as i16) as i32', 'y.r.text_generation_flags == (v.text_generation_flags as i16) as i32', 'vord(version) >= vord(AcadVersion::R12) ==> y.r.vertical_text_justification == v.vertical_text_justification',
              V10 + ' ==> y.r.version == v.version', V10 + ' ==> y.r.is_locked_in_block == v.is_locked_in_block']
             + ['y.r.%s == v.%s' % (a, a) for a in E] + ['fsame(y.r.%s, v.%s)' % (a, a) for a in ('thickness', 'rotation', 'relative_x_scale_factor', 'oblique_angle')] + ['%s ==> y.r.%s == v.%s' % (V7, a, a) for a in N],
             ['x.r.thickness == 0.0f64', 'x.r.rotation == 0.0f64', 'x.r.relative_x_scale_factor == 1.0f64', 'x.r.oblique_angle == 0.0f64', 'x.r.field_length == 0', 'x.r.text_generation_flags == 0', 'x.r.text_style_name == "STANDARD"@',
              'x.r.horizontal_text_justification == HorizontalTextJustification::Left', 'x.r.vertical_text_justification == VerticalTextJustification::Baseline', 'x.r.normal == ' + Z, 'x.r.__secondary_attributes_handle.len() == 0', '!x.xr', '!x.ver', 'x.n == 0'],
             [(r'for v in &ent\.__secondary_attributes_handle', 'v', HS, '_y == (K_%s { r: V_%s { __secondary_attributes_handle: _y.r.__secondary_attributes_handle, .._y1.r }, .._y1 }), _y1.r.__secondary_attributes_handle.len() == 0 ==> _y.r.__secondary_attributes_handle == s_Handle(%s@.take(_i as int)),' % (w, T, HS),
               'proof { theorem_handle_text(v.0); lemma_s_Handle(%s@.take(_i as int), *v); assert(%s@.take(_i + 1) =~= %s@.take(_i as int).push(*v)); }' % (HS, HS, HS), '')],
             over=[(r'\(100, &x_lit\("AcDb(Text|Attribute|AttributeDefinition)"\)', None, '!_y0.xr, ', '!_z@.xr, '),
                   (r'\(10, ent\.location\.x', ['-', 'r.alignment_point', 'r.annotation_scale', 'r.x_record_tag'], '!_y0.xr, ', ''),
                   (r'\(280, ent\.version', ['r.version', 'ver'], '!_y0.xr, !_y0.ver, ', '_z@.ver == %s, ' % V10),
                   (r'\(70, ent\.flags', ['-', 'r.x_record_tag', 'r.m_text_flag', 'r.is_really_locked', 'r.__secondary_attribute_count', 'n'], '!_y0.xr, ', ''),
                   (r'\(280, as_i16\(ent\.is_locked_in_block', ['r.is_locked_in_block', '~r.version', 'ver'], '!_y0.xr, _y0.ver == %s, ' % V10, '%s ==> _z@.r.version == _y0.r.version, ' % V10),
                   (r'AcDbXrecord', None, '!_y0.xr, ', '_z@.xr == %s, ' % V7),
                   (r'\(280, as_i16\(ent\.keep_dup', ['r.keep_duplicate_records'], X7, ''),
                   (r'\(70, ent\.m_text_flag', ['r.m_text_flag', 'n'], X7 + '_y0.n == 0, ', V7 + ' ==> _z@.n == 1, '),
                   (r'\(70, as_i16\(ent\.is_really', ['r.is_really_locked', 'n'], X7 + V7 + ' ==> _y0.n == 1, ', V7 + ' ==> _z@.n == 2, '),
                   (r'\(70, ent\.__secondary_attributes_handle', ['r.__secondary_attribute_count', 'n'], X7 + V7 + ' ==> _y0.n == 2, ', ''),
                   (r'\(10, ent\.alignment_point', ['r.alignment_point'], X7, ''), (r'\(40, ent\.annotation_scale', ['r.annotation_scale'], X7, ''), (r'\(2, &ent\.x_record_tag', ['r.x_record_tag'], X7, '')],
             T=T, hints='reveal_strlit("AcDbXrecord"); reveal_strlit("AcDbText"); reveal_strlit("AcDbAttribute"); reveal_strlit("AcDbAttributeDefinition"); assert("AcDbText"@.len() == 8 && "AcDbXrecord"@.len() == 11 && "AcDbAttribute"@.len() == 13 && "AcDbAttributeDefinition"@.len() == 23); assert(s_Handle(%s@.take(0)) =~= seq![]); assert(%s@.take(%s@.len() as int) =~= %s@);' % (HS, HS, HS, HS))
    return m.done()


Z = '(P3 { x: 0.0f64, y: 0.0f64, z: 1.0f64 })'
ARGS = 'pairs: &mut Vec<CodePair>, common: &EntityCommon, version: AcadVersion'


def conj(*xs):
    return ' && '.join('(%s)' % x for x in xs)


def lw_writer(m, k, g):
    m.raw("""
pub open spec fn lwv_same(a: V_LwPolylineVertex, b: V_LwPolylineVertex, ver: AcadVersion) -> bool {
    a.x == b.x && a.y == b.y && a.id == (if vord(ver) >= vord(AcadVersion::R2013) { b.id } else { 0i32 }) && fsame(a.starting_width, b.starting_width) && fsame(a.ending_width, b.ending_width) && fsame(a.bulge, b.bulge)
}
""")
    f = k.arm(g, 'EntityType', 'LwPolyline')
    k.writer('lw', f, 'add_lwpolyline(ent: &LwPolyline, %s)' % ARGS,
             ['y.r.flags == (v.flags as i16) as i32', 'fsame(y.r.constant_width, v.constant_width)', 'fsame(y.r.thickness, v.thickness)', 'psame(y.r.extrusion_direction, v.extrusion_direction)',
              'y.r.vertices.len() == v.vertices.len()', 'forall|i: int| 0 <= i < v.vertices.len() ==> lwv_same(#[trigger] y.r.vertices[i], v.vertices[i], version)',
              'y.c == (SCom { elevation: y.c.elevation, ..x.c })', 'fsame(y.c.elevation, common.elevation)'],
             ['x.r.constant_width == 0.0f64', 'x.r.thickness == 0.0f64', 'x.r.vertices.len() == 0', 'x.r.extrusion_direction == ' + Z, 'x.c.elevation == 0.0f64'],
             [(r'for item in &ent\.vertices', 'item', 'ent.vertices', 'ent.vertices@.len() == v_LwPolyline(*ent).vertices.len(), _y == (K_lw { r: V_LwPolyline { vertices: _y.r.vertices, .._y1.r }, .._y1 }), _y1.r.vertices.len() == 0 ==> _y.r.vertices.len() == _i && (forall|i: int| 0 <= i < _i ==> lwv_same(#[trigger] _y.r.vertices[i], v_LwPolyline(*ent).vertices[i], version)), _i > 0 ==> _y.r.vertices.len() > 0,', '', '')], T='LwPolyline')


MTOVER = [(r'new_f64\(50, ent\.rotation_angle', ['-', 'r.column_heights', 'r.column_count', 'cnt'], '!_y0.col, ', ''),
          (r'new_i16\(75,', None, '', '_z@.col, '),
          (r'x_usize_f64\(ent\.column_heights', ['-', 'r.column_heights', 'r.rotation_angle'], '_y0.col, !_y0.cnt, ', '_z@.cnt, '),
          (r'for v in &ent\.column_heights', ['r.column_heights'], '_y0.col, _y0.cnt, ', '')]


def mt_writer(m, k, g):
    E = ['insertion_point', 'initial_text_height', 'reference_rectangle_width', 'attachment_point', 'drawing_direction', 'extended_text', 'text', 'text_style_name', 'x_axis_direction', 'horizontal_width', 'vertical_height', 'rotation_angle',
         'line_spacing_style', 'line_spacing_factor', 'background_fill_setting', 'background_color_rgb', 'background_color_name', 'background_fill_color', 'background_fill_color_transparency', 'column_type', 'is_column_flow_reversed',
         'is_column_auto_height', 'column_width', 'column_gutter', 'column_heights']
    f = k.arm(g, 'EntityType', 'MText')
    k.writer('mt', f, 'add_mtext(ent: &MText, %s)' % ARGS,
             ['psame(y.r.extrusion_direction, v.extrusion_direction)', 'fsame(y.r.fill_box_scale, v.fill_box_scale)', 'y.c == x.c'] + ['y.r.%s == v.%s' % (a, a) for a in E],
             ['x.r.text_style_name == "STANDARD"@', 'x.r.fill_box_scale == 1.0f64', 'x.r.extended_text.len() == 0', 'x.r.column_heights.len() == 0', 'x.r.extrusion_direction == ' + Z, '!x.col', '!x.cnt'],
             [(r'for v in &ent\.extended_text', 'v', 'ent.extended_text', '_y == (K_mt { r: V_MText { extended_text: _y.r.extended_text, .._y1.r }, .._y1 }), _y1.r.extended_text.len() == 0 ==> _y.r.extended_text == s_String(ent.extended_text@.take(_i as int)),',
               'proof { lemma_s_String(ent.extended_text@.take(_i as int), *v); assert(ent.extended_text@.take(_i + 1) =~= ent.extended_text@.take(_i as int).push(*v)); }', ''),
              (r'for v in &ent\.column_heights', 'v', 'ent.column_heights', '_y.col && _y.cnt, _y == (K_mt { r: V_MText { column_heights: _y.r.column_heights, .._y1.r }, .._y1 }), _y1.r.column_heights.len() == 0 ==> _y.r.column_heights == ent.column_heights@.take(_i as int),', 'proof { assert(ent.column_heights@.take(_i + 1) =~= ent.column_heights@.take(_i as int).push(*v)); }', '')],
             over=MTOVER,
             T='MText', opts='#[verifier::rlimit(60)]\n', hints='assert(s_String(ent.extended_text@.take(0)) =~= seq![]); assert(ent.column_heights@.take(0) =~= seq![]); assert(ent.column_heights@.take(ent.column_heights@.len() as int) =~= ent.column_heights@); assert(ent.extended_text@.take(ent.extended_text@.len() as int) =~= ent.extended_text@);')
