from pieces import Module, LostAnchor, Source, versioned
from binio import bin_writer, dispatch, expected
from textio import *
from v_c04 import text_base


def build(repo, spec):
    m = Module(repo, spec)
    text_base(m, repo, spec)
    b = spec('bin.rs')
    m.raw(b[:b.index('pub ghost enum Kind')] + b[b.index('pub proof fn lemma_enc_empty'):])
    expected(m, repo)
    value_text(m, repo)
    s = bin_writer(m, repo)
    text_writer(m, repo, s)
    dispatch(m, s, 'both')
    f = s.fn('CodePairWriter::new').expect_sig(r"fn new\( ?writer: &'a mut T, as_text: bool, text_as_ascii: bool, version: AcadVersion,? ?\) -> Self")
    m.fn(f, "pub fn new(writer: &'a mut XWriter, as_text: bool, text_as_ascii: bool, version: AcadVersion) -> (r: Self)", 'ensures *r.writer == *old(writer), *final(r.writer) == *final(writer), r.as_text == as_text, r.text_as_ascii == text_as_ascii, r.version == version,', "<'a> CodePairWriter<'a>")
    d = Source(repo + '/src/drawing.rs')
    m.s('c24.rs')
    f = d.fn('Drawing::save_internal').expect_sig(r'fn save_internal<T>\(&self, writer: &mut T, as_ascii: bool\) -> DxfResult<\(\)>( where T: Write \+ \?Sized,?)?')
    versioned(f)
    f.rewrite(r'for pair in pairs \{', 'for _i in 0..pairs.len() { let pair = &pairs[_i];', 'for over a Vec -> index loop')
    f.rewrite(r'write_code_pair\(&pair\)', 'write_code_pair(pair)', '&pair of the consumed element -> the reference')
    P = 'pvs(pairs@)'
    f.annotate_loops([(r'for _i in 0\.\.pairs\.len\(\)', None, 'invariant all_writable(%s), code_pair_writer.as_text == as_ascii, code_pair_writer.text_as_ascii == text_as_ascii, code_pair_writer.version == self.header.version, *final(code_pair_writer.writer) == *final(_c0.writer), wr(*code_pair_writer.writer) == _w + bodies(%s.take(_i as int), as_ascii, text_as_ascii, two_bytes(self.header.version)),' % (P, P),
                       'proof { assert(%s.take(_i + 1).drop_last() =~= %s.take(_i as int)); assert(%s[_i as int] == pv(pairs@[_i as int])); assert(writable(%s[_i as int])); lemma_assoc(_w, bodies(%s.take(_i as int), as_ascii, text_as_ascii, two_bytes(self.header.version)), body(pv(pairs@[_i as int]), as_ascii, text_as_ascii, two_bytes(self.header.version))); }' % (P, P, P, P, P), '')])
    f.rewrite(r'(for _i in )', r'let ghost _c0 = code_pair_writer; let ghost _w = wr(*code_pair_writer.writer); proof { assert(%s.take(0) =~= Seq::<SP>::empty()); assert(_w + bodies(%s.take(0), as_ascii, text_as_ascii, two_bytes(self.header.version)) =~= _w); } \1' % (P, P), 'ghost step', 1)
    f.insert_before_tail('proof { assert(%s.take(%s.len() as int) =~= %s); lemma_assoc(wr(*old(writer)), prelude(as_ascii), bodies(%s, as_ascii, text_as_ascii, two_bytes(self.header.version))); }' % (P, P, P, P))
    m.fn(f, 'pub fn save_internal(&self, writer: &mut XWriter, as_ascii: bool) -> (r: DxfResult<()>)', 'ensures r is Ok ==> wr(*final(writer)) == wr(*old(writer)) + file_bytes(*self, as_ascii),', 'Drawing')
    for n, t in (('save', 'true'), ('save_binary', 'false')):
        f = d.fn('Drawing::' + n).expect_sig(r'fn %s<T>\(&self, writer: &mut T\) -> DxfResult<\(\)>( where T: Write \+ \?Sized,?)?' % n)
        m.fn(f, 'pub fn %s(&self, writer: &mut XWriter) -> (r: DxfResult<()>)' % n, 'ensures r is Ok ==> wr(*final(writer)) == wr(*old(writer)) + file_bytes(*self, %s),' % t, 'Drawing')
    f = d.fn('Drawing::save_file_internal').expect_sig(r'fn save_file_internal\(&self, path: impl AsRef<Path>, as_ascii: bool\) -> DxfResult<\(\)>')
    files(f)
    f.insert_before_tail('assert(synced(writer) == file_bytes(*self, as_ascii)) by { assert(Seq::<u8>::empty() + file_bytes(*self, as_ascii) =~= file_bytes(*self, as_ascii)); }')
    m.fn(f, 'pub fn save_file_internal(&self, path: XPath, as_ascii: bool) -> (r: DxfResult<()>)', '', 'Drawing')
    m.raw('''
// THEOREM: the bytes a successful save hands to the writer are the complete file, whatever came before, twice in a row
fn both_complete(d: &Drawing, w: &mut XWriter) -> (r: bool)
    ensures r ==> wr(*final(w)) == wr(*old(w)) + file_bytes(*d, true) + file_bytes(*d, false),
{
    if d.save(w).is_err() { return false; }
    if d.save_binary(w).is_err() { return false; }
    /*CANARY*/
    true
}
''')
    return m.done()


def files(f):
    f.rewrite(r'File::create\(&path\)', 'x_create(&path)', 'File::create -> assumed contract (io::Error -> DxfError folded into ?)', 1)
    f.rewrite(r'BufWriter::new\(file\)', 'x_buf(file)', 'BufWriter::new -> assumed contract', 1)
    f.rewrite(r'(\w+)\.flush\(\)', r'x_flush(&mut \1)', 'flush -> assumed contract (io::Error -> DxfError folded into ?)')
    return f
