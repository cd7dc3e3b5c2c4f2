"""Shared pieces of extracted, contracted code used by several Verus modules.

Each piece returns (text, log, functions).  A piece that a module includes is verified again in that module."""
import re
from rustx import Source, LostAnchor, norm

OPAQUE = [('io::Error', 'XErr'), ('image::ImageError', 'XErr'), ('num::ParseFloatError', 'XErr'), ('num::ParseIntError', 'XErr')]


def item_text(src, kw, name, vis='pub '):
    t = src.item(kw, name)
    # attributes on fields/variants are dropped
    t = re.sub(r'#\[[^\]]*\]\s*', '', t)
    return vis + t + '\n'


def types(repo):
    log = []
    out = ['pub struct XErr;\n']
    e = item_text(Source(repo + '/src/dxf_error.rs'), 'enum', 'DxfError')
    for a, b in OPAQUE:
        e = e.replace(a, b)
    e = e.replace('::XErr', 'XErr')
    log.append('DxfError: payloads io::Error, ImageError, ParseFloatError, ParseIntError replaced by an opaque unit type')
    out.append(e)
    out.append('pub type DxfResult<T> = Result<T, DxfError>;\n')
    out.append(item_text(Source(repo + '/src/code_pair.rs'), 'struct', 'CodePair'))
    out.append(item_text(Source(repo + '/src/code_pair_value.rs'), 'enum', 'CodePairValue'))
    c = item_text(Source(repo + '/src/code_pair_put_back.rs'), 'struct', 'CodePairPutBack')
    if 'Box<dyn CodePairIter>' not in c:
        raise LostAnchor('CodePairPutBack.iter is not a Box<dyn CodePairIter>')
    c = c.replace('Box<dyn CodePairIter>', 'XSource').replace('top:', 'pub top:').replace('iter:', 'pub iter:').replace('pub pub', 'pub')
    log.append('CodePairPutBack: Box<dyn CodePairIter> -> XSource, an assumed source of finitely many results')
    out.append(c)
    return ''.join(out), log


def common_rewrites(f):
    f.rewrite(r'String::from\(("(?:[^"\\]|\\.)*")\)', r'x_msg(\1)', 'String::from(literal) -> assumed contract')
    return f


def put_back(repo):
    """CodePairPutBack::next / put_back: comments are skipped, everything else comes in order, put_back is undone by next"""
    src = Source(repo + '/src/code_pair_put_back.rs')
    pb = src.fn('CodePairPutBack::put_back').expect_sig(r'fn put_back\(&mut self, item: DxfResult<CodePair>\)')
    pb.insert_start('proof { lemma_stream_put_back(self.top@, item, no_comments(src(self.iter))); }')
    # Iterator::next lives in `impl Iterator for CodePairPutBack`
    nx = src.fn('Iterator for CodePairPutBack::next').expect_sig(r'fn next\(&mut self\) -> Option<DxfResult<CodePair>>')
    nx.rewrite(r'self\.iter\.next\(\)', 'x_src_next(&mut self.iter)', 'self.iter.next() -> assumed contract of the source')
    nx.rewrite(r'Some\(self\.top\.pop\(\)\.unwrap\(\)\)', 'self.top.pop()', 'Some(v.pop().unwrap()) on a non-empty vector -> v.pop()')
    if len(nx.loops()) == 1:
        nx.annotate_loops([(r'loop', None,
                            'invariant self.top@.len() == 0, no_comments(src(self.iter)) == stream(*old(self)),\n decreases src(self.iter).len(),',
                            'let ghost _s0 = src(self.iter); proof { if _s0.len() > 0 { if is_comment(_s0[0]) { assert(no_comments(_s0) == no_comments(_s0.skip(1))); } else { assert((seq![rv(_s0[0])] + no_comments(_s0.skip(1))).skip(1) =~= no_comments(_s0.skip(1))); assert((seq![rv(_s0[0])] + no_comments(_s0.skip(1)))[0] == rv(_s0[0])); } } }', '')])
    nx.insert_start('proof { if self.top@.len() == 0 { assert(top_view(self.top@) + no_comments(src(self.iter)) =~= no_comments(src(self.iter))); } else { let t = top_view(self.top@.drop_last()) + no_comments(src(self.iter)); assert(stream(*self) =~= seq![rv(self.top@.last())] + t); assert((seq![rv(self.top@.last())] + t).skip(1) =~= t); } assert forall|x: Seq<Option<SP>>| #[trigger] (Seq::<Option<SP>>::empty() + x) =~= x by {} }')
    out = 'impl CodePairPutBack {\n' + pb.text('pub fn put_back(&mut self, item: DxfResult<CodePair>)', 'ensures stream(*final(self)) == seq![rv(item)] + stream(*old(self)),') \
        + nx.text('pub fn next(&mut self) -> (r: Option<DxfResult<CodePair>>)', '''ensures
        stream(*old(self)).len() == 0 ==> r is None && stream(*final(self)).len() == 0,
        stream(*old(self)).len() > 0 ==> r is Some && rv(r->Some_0) == stream(*old(self))[0] && stream(*final(self)) == stream(*old(self)).skip(1),
''') + '}\n'
    return out, pb.log + nx.log, ['CodePairPutBack::put_back', 'CodePairPutBack::next']


GETTERS = [('bool', 'bool'), ('i64', 'i64'), ('i32', 'i32'), ('f64', 'f64'), ('i16', 'i16')]


def code_pair(repo):
    """CodePair::new*, assert_*"""
    src = Source(repo + '/src/code_pair.rs')
    out, log, fns = ['impl CodePair {\n'], [], []

    def add(f, sig, spec):
        out.append(f.text(sig, spec))
        log.extend(f.log)
        fns.append(f.path)
    f = src.fn('CodePair::new').expect_sig(r'fn new\( ?code: i32, value: CodePairValue, offset: usize ?\) -> Self')
    add(f, 'pub fn new(code: i32, value: CodePairValue, offset: usize) -> (r: Self)', 'ensures pv(r) == (SP { code, v: vv(value) }), r.offset == offset,')
    for nm, ty, sp in [('str', '&str', 'p_str(code, val@)'), ('string', '&str', 'p_str(code, val@)'), ('binary', 'Vec<u8>', 'p_bin(code, val@)'),
                       ('i16', 'i16', 'p_i16(code, val)'), ('f64', 'f64', 'p_f64(code, val)'), ('i64', 'i64', 'p_i64(code, val)'),
                       ('i32', 'i32', 'p_i32(code, val)'), ('bool', 'bool', 'p_bool(code, val)')]:
        f = src.fn('CodePair::new_' + nm).expect_sig(r'fn new_%s\( ?code: i32, val: %s ?\) -> Self' % (nm, re.escape(ty)))
        add(f, 'pub fn new_%s(code: i32, val: %s) -> (r: Self)' % (nm, ty), 'ensures pv(r) == %s,' % sp)
    for nm, ty in GETTERS:
        f = src.fn('CodePair::assert_' + nm).expect_sig(r'fn assert_%s\(&self\) -> DxfResult<%s>' % (nm, ty))
        add(f, 'pub fn assert_%s(&self) -> (r: DxfResult<%s>)' % (nm, ty), 'ensures (r is Ok) == (g_%s(pv(*self)) is Some), r is Ok ==> r->Ok_0 == g_%s(pv(*self))->Some_0,' % (nm, nm))
    for nm, ty, g, cl in [('string', 'String', 'str', 'x_string_clone'), ('binary', 'Vec<u8>', 'bin', 'x_bytes_clone')]:
        f = src.fn('CodePair::assert_' + nm).expect_sig(r'fn assert_%s\(&self\) -> DxfResult<%s>' % (nm, re.escape(ty)))
        f.rewrite(r'\b(\w)\.clone\(\)', cl + r'(\1)', 'clone -> assumed contract')
        add(f, 'pub fn assert_%s(&self) -> (r: DxfResult<%s>)' % (nm, ty), 'ensures (r is Ok) == (g_%s(pv(*self)) is Some), r is Ok ==> r->Ok_0@ == g_%s(pv(*self))->Some_0,' % (g, g))
    out.append('}\n')
    return ''.join(out), log, fns


class Module:
    def __init__(self, repo, spec):
        self.repo, self.spec = repo, spec
        self.out, self.log, self.fns = [], [], []

    def s(self, *names):
        for n in names:
            self.out.append(self.spec(n))

    def add(self, piece):
        t, l = piece[0], piece[1]
        self.out.append(t)
        self.log += l
        if len(piece) > 2:
            self.fns += piece[2]

    def raw(self, t):
        self.out.append(t)

    def fn(self, f, sig, spec, wrap=None):
        t = f.text(sig, spec)
        self.out.append('impl %s {\n%s}\n' % (wrap, t) if wrap else t)
        self.log += f.log
        self.fns.append(f.path)

    def done(self):
        return '\n'.join(self.out), self.log, self.fns


def pairs_base(repo, spec):
    m = Module(repo, spec)
    m.add(types(repo))
    m.s('pairs.rs')
    m.add(put_back(repo))
    m.add(code_pair(repo))
    return m


def hex_fns(repo):
    """parse_hex_string, Handle, CodePair::as_handle"""
    out, log, fns = [], [], []

    def add(f, sig, spec, wrap=None):
        t = f.text(sig, spec)
        out.append('impl %s {\n%s}\n' % (wrap, t) if wrap else t)
        log.extend(f.log)
        fns.append(f.path)
    p = Source(repo + '/src/helper_functions.rs').fn('parse_hex_string').expect_sig(r'fn parse_hex_string\( ?data: &str, bytes: &mut Vec<u8>, offset: usize ?\) -> DxfResult<\(\)>')
    p.rewrite(r'fn char_to_value\(c: char, offset: usize\) -> DxfResult<u8> \{', 'fn char_to_value(c: char, offset: usize) -> (r: DxfResult<u8>) ensures (r is Ok) == (hv(c) >= 0), r is Ok ==> r->Ok_0 == hv(c) && r->Ok_0 < 16 {', 'contract spliced on the nested function')
    p.rewrite(r'data\.len\(\)', 'x_str_len(data)', 'str::len -> assumed contract')
    p.annotate_loops([(r'for c in data\.chars\(\)', 'for c in it: data.chars()',
                       '''invariant
            all_hex(data@) ==> odd0 == (data@.len() % 2 != 0),
            all_hex(data@.take(it.index@)), current_byte < 16,
            (bytes@, complete_byte, current_byte) == (old(bytes)@ + hst(odd0, data@.take(it.index@)).0, hst(odd0, data@.take(it.index@)).1, hst(odd0, data@.take(it.index@)).2),''',
                       'let ghost _i = it.index@; proof { assert(data@.take(_i + 1).drop_last() =~= data@.take(_i)); assert(data@.take(_i + 1).last() == c); lemma_hst(odd0, data@.take(_i)); }\n',
                       ' proof { assert(value == hv(c)); assert forall|k: int| 0 <= k < _i + 1 implies #[trigger] hv(data@.take(_i + 1)[k]) >= 0 by { if k < _i { assert(data@.take(_i + 1)[k] == data@.take(_i)[k]); } } assert(hst(odd0, data@.take(_i + 1)).0 =~= hst(odd0, data@.take(_i + 1)).0); assert(bytes@ =~= old(bytes)@ + hst(odd0, data@.take(_i + 1)).0); }')])
    p.rewrite(r'(let mut complete_byte = [^;]*;)', r'\1\n let ghost odd0 = complete_byte; proof { assert(data@.take(0) =~= seq![]); assert(old(bytes)@ + Seq::<u8>::empty() =~= bytes@); }', 'ghost copy of the initial parity', 1)
    p.insert_before_tail('proof { assert(data@.take(data@.len() as int) =~= data@); }')
    add(p, 'fn parse_hex_string(data: &str, bytes: &mut Vec<u8>, offset: usize) -> (r: DxfResult<()>)',
        'ensures (r is Ok) == all_hex(data@), r is Ok ==> final(bytes)@ == old(bytes)@ + hexs(data@),')
    hs = Source(repo + '/src/handle.rs')
    if not re.search(r'pub struct Handle\(pub u64\);', hs.src):
        raise LostAnchor('struct Handle')
    out.append('#[derive(Clone, Copy)]\npub struct Handle(pub u64);\n')
    a = hs.fn('Handle::as_string').expect_sig(r'fn as_string\( ?self ?\) -> String')
    a.rewrite(r'format!\("\{:X\}", ([\w.]+)\)', r'x_fmt_hex(\1)', 'format!("{:X}") -> assumed contract', 1)
    add(a, 'pub fn as_string(self) -> (r: String)', 'ensures r@ == hexn(self.0 as int),', 'Handle')
    add(hs.fn('Handle::empty').expect_sig(r'fn empty\(\) -> Self'), 'pub fn empty() -> (r: Self)', 'ensures r.0 == 0,', 'Handle')
    add(hs.fn('Handle::is_empty').expect_sig(r'fn is_empty\( ?self ?\) -> bool'), 'pub fn is_empty(self) -> (r: bool)', 'ensures r == (self.0 == 0),', 'Handle')
    n = hs.fn('Handle::next_handle_value').expect_sig(r'fn next_handle_value\( ?self ?\) -> Self')
    n.rewrite(r'([\w.]+)\.checked_add\(1\)\.unwrap_or\(1\)', r'x_succ_or_1(\1)', 'checked_add(1).unwrap_or(1) -> assumed contract')
    out.append('#[verifier::external_body]\npub fn x_succ_or_1(n: u64) -> (r: u64) ensures r == (if n == u64::MAX { 1u64 } else { (n + 1) as u64 }), { n.checked_add(1).unwrap_or(1) }\n')
    add(n, 'pub fn next_handle_value(self) -> (r: Self)', 'ensures r.0 != 0, self.0 < u64::MAX ==> r.0 == self.0 + 1,', 'Handle')
    h = Source(repo + '/src/code_pair.rs').fn('CodePair::as_handle').expect_sig(r'fn as_handle\(&self\) -> DxfResult<Handle>')
    h.rewrite(r'(self\.assert_string\(\)\?)\.trim\(\)', r'x_trim(&\1)', 'str::trim -> assumed contract', 1)
    h.rewrite(r'BigEndian::read_u64\(', 'x_be_u64(', 'byteorder::BigEndian::read_u64 -> assumed contract', 1)
    h.annotate_loops([(r'while bytes\.len\(\) < 8', None, 'invariant be(bytes@) == be(_b0), bytes@.len() <= if _b0.len() > 8 { _b0.len() } else { 8 }, bytes@.len() >= _b0.len(),\n decreases 8 - bytes@.len(),',
                       'let ghost _b = bytes@; proof { lemma_be_pad(_b); assert(bytes@.insert(0, 0u8) =~= seq![0u8] + _b); }', '')])
    h.rewrite(r'(\n\s*)(while )', r'\1let ghost _b0 = bytes@;\1\2', 'ghost copy', 1)
    h.insert_before_tail('proof { if bytes@.len() == 8 { assert(bytes@.take(8) =~= bytes@); } let t = g_str(pv(*self))->Some_0; if all_hex(t) { lemma_hst(t.len() % 2 != 0, t); if t.len() > 0 { assert(hv(t[0]) >= 0 && hv(t.last()) >= 0); axiom_hex_not_white(t[0]); axiom_hex_not_white(t.last()); } assert(Seq::<u8>::empty() + hexs(t) =~= hexs(t)); } }')
    h.insert_start('proof { if g_str(pv(*self)) is Some { let t = g_str(pv(*self))->Some_0; if t.len() > 0 { axiom_hex_not_white(t[0]); axiom_hex_not_white(t.last()); if all_hex(t) { assert(hv(t[0]) >= 0 && hv(t.last()) >= 0); } } } }')
    add(h, 'pub fn as_handle(&self) -> (r: DxfResult<Handle>)', '''ensures g_str(pv(*self)) is None ==> r is Err,
        g_str(pv(*self)) is Some && all_hex(g_str(pv(*self))->Some_0) && g_str(pv(*self))->Some_0.len() <= 16 ==> r is Ok && r->Ok_0.0 == be(hexs(g_str(pv(*self))->Some_0)),''', 'CodePair')
    out.append('''
// THEOREM: the text of a handle is read back as that handle, for every handle
pub proof fn theorem_handle_text(n: u64)
    ensures all_hex(hexn(n as int)), hexn(n as int).len() <= 16, be(hexs(hexn(n as int))) == n,
{
    lemma_hexn(n as int);
    assert(p16(16) == 0x1_0000_0000_0000_0000) by (compute);
    lemma_hexn_len(n as int, 16);
}
fn handle_round_trip(h: Handle) -> (r: DxfResult<Handle>) ensures r is Ok && r->Ok_0 == h {
    proof { theorem_handle_text(h.0); }
    let p = CodePair::new_string(5, h.as_string().as_str());
    let r = p.as_handle();
    /*CANARY*/
    r
}
''')
    return ''.join(out), log, fns


def versions(repo):
    """AcadVersion and its derived order (PartialOrd of a field-less enum is the order of declaration)"""
    src = Source(repo + '/src/enums.rs')
    raw = open(repo + '/src/enums.rs').read()
    if not re.search(r'#\[derive\([^)]*PartialOrd[^)]*\)\]\s*(#\[[^\n]*\n\s*)*pub enum AcadVersion', raw):
        raise LostAnchor('AcadVersion does not derive PartialOrd')
    t = item_text(src, 'enum', 'AcadVersion')
    names = re.findall(r'(\w+)\s*,', t[t.index('{'):])
    if '=' in t or len(names) < 15:
        raise LostAnchor('AcadVersion has explicit discriminants')
    arms = ' '.join('AcadVersion::%s => %d,' % (n, i) for i, n in enumerate(names))
    out = '#[derive(Clone, Copy)]\n#[allow(non_camel_case_types)]\n' + t
    out += 'pub open spec fn vord(v: AcadVersion) -> int { match v { %s } }\n' % arms
    for op, sp in (('ge', '>='), ('le', '<='), ('gt', '>'), ('lt', '<'), ('eq', '=='), ('ne', '!=')):
        out += '#[verifier::external_body]\npub fn x_ver_%s(a: AcadVersion, b: AcadVersion) -> (r: bool) ensures r == (vord(a) %s vord(b)), { unimplemented!() }\n' % (op, sp)
    return out, ['AcadVersion: derived PartialOrd/PartialEq taken as the order of declaration']


def versioned(f):
    for op, nm in (('>=', 'ge'), ('<=', 'le'), ('>', 'gt'), ('<', 'lt'), ('==', 'eq'), ('!=', 'ne')):
        f.rewrite(r'\b((?:[\w.]+\.)?version) %s (AcadVersion::\w+)' % re.escape(op), r'x_ver_%s(\1, \2)' % nm, 'comparison of versions -> derived PartialOrd')
    return f


def generated_dir():
    """the generated sources of the most recent native build of /repo's current tree"""
    import glob
    import os
    import backends
    ds = glob.glob(os.path.join(backends.BUILD, 'native', 'debug', 'build', 'dxf-*', 'out', 'generated'))
    if not ds:
        raise LostAnchor('no generated sources (native build missing)')
    return max(ds, key=lambda d: os.path.getmtime(os.path.join(d, 'entities.rs')))


def project(src, name, fields, rename=None):
    """`struct name` with only the named fields, with the types the source gives them (mechanical projection)"""
    t = re.sub(r'#\[[^\]]*\]\s*', '', src.item('struct', name))
    body = t[t.index('{') + 1:t.rindex('}')]
    got = dict(re.findall(r'(?:pub(?:\([\w ]+\))?\s+)?(\w+)\s*:\s*([^,]+(?:\([^)]*\)[^,]*)?(?:<[^{}]*>)?)\s*,', body + ','))
    for m in re.finditer(r'(\w+)\s*:\s*(Vec<\([^)]*\)>)', body):
        got[m.group(1)] = m.group(2)
    out = []
    for f in fields:
        if f not in got:
            raise LostAnchor('struct %s has no field %s' % (name, f))
        out.append('pub %s: %s' % (f, got[f].strip()))
    return 'pub struct %s { %s }\n' % (name, ', '.join(out))


def project_enum(src, name, keep):
    t = re.sub(r'#\[[^\]]*\]\s*', '', src.item('enum', name))
    got = dict(re.findall(r'(\w+)\((\w+)\)', t))
    for k in keep:
        if k not in got:
            raise LostAnchor('enum %s has no variant %s' % (name, k))
    return 'pub enum %s { %s, XOther }\n' % (name, ', '.join('%s(%s)' % (k, got[k]) for k in keep))


def project_default(src, name, fields):
    """`Default for name` restricted to the fields of the projection, with the expressions of the source"""
    f = src.fn('Default for %s::default' % name).expect_sig(r'fn default\(\) -> (Self|%s)' % name)
    m = re.fullmatch(r'\{\s*%s \{(.*)\}\s*\}' % name, f.body, re.S)
    if not m:
        raise LostAnchor('Default for ' + name)
    got = dict(re.findall(r'(\w+): ([^,]+(?:\([^)]*\))?),', m.group(1)))
    for x in fields:
        if x not in got:
            raise LostAnchor('Default for %s does not set %s' % (name, x))
    e = {k: v.replace('String::from(', 'x_string_from(').replace('String::new()', 'x_string_from("")') for k, v in got.items()}
    return '%s { %s }' % (name, ', '.join('%s: %s' % (x, e[x]) for x in fields))
