"""read_line, parse_*, format_f64, CodePairValue's text, TextCodePairIter, CodePairWriter (text)"""
import re
from pieces import Module, Source, LostAnchor
from binio import expand, lossless


def parse_fns(m, repo):
    hf = Source(repo + '/src/helper_functions.rs')
    for n, t, g in (('i32', 'i32', 'i'), ('i64', 'i64', 'i'), ('f64', 'f64', 'd'), ('i16', 'i16', 'd')):
        f = hf.fn('parse_' + n).expect_sig(r'fn parse_%s\(s: String, offset: usize\) -> DxfResult<%s>' % (n, t))
        f.rewrite(r's\.trim\(\)\.parse::<(\w+)>\(\)', r'x_parse_\1(x_trimmed(s.as_str()))', 'str::trim, str::parse -> assumed contracts', 1)
        f.rewrite(r'\((\w+) as i16\)', r'(x_to_i16(\1))', 'f64 as i16 -> assumed contract')
        en = {'i32': 'ensures r is Ok == (parse_i(trim(s@)) is Some && -2147483648 <= parse_i(trim(s@))->Some_0 <= 2147483647), r is Ok ==> r->Ok_0 == parse_i(trim(s@))->Some_0,',
              'i64': 'ensures r is Ok == (parse_i(trim(s@)) is Some && -9223372036854775808 <= parse_i(trim(s@))->Some_0 <= 9223372036854775807), r is Ok ==> r->Ok_0 == parse_i(trim(s@))->Some_0,',
              'f64': 'ensures r is Ok == parse_d(trim(s@)) is Some, r is Ok ==> r->Ok_0 == parse_d(trim(s@))->Some_0,',
              'i16': 'ensures r is Ok == parse_d(trim(s@)) is Some, r is Ok ==> r->Ok_0 == to_i16(parse_d(trim(s@))->Some_0),'}[n]
        m.fn(f, 'pub fn parse_%s(s: String, offset: usize) -> (r: DxfResult<%s>)' % (n, t), en)
    return hf


def read_line(m, repo):
    hf = Source(repo + '/src/helper_functions.rs')
    f = hf.fn('read_line').expect_sig(r"fn read_line<T>\( ?reader: &mut T, allow_bom: bool, encoding: &'static Encoding,? ?\) -> DxfResult<String>( where T: Read \+ \?Sized,?)?")
    f.rewrite(r'let (\w+) = reader\.bytes\(\);\s*for \((\w+), b\) in \1\.enumerate\(\) \{', r'let mut _i: usize = 0; loop { let b = match x_next_byte(reader) { Some(b) => b, None => break }; let \2 = _i; _i = _i + 1;', 'for over reader.bytes().enumerate() -> a loop that takes the next byte and counts (the assumed contract of Bytes)', 1)
    f.rewrite(r'(\([^()]*\)) \| (\([^()]*\)) if (\w+) => \(\),', r'\1 if \3 => (), \2 if \3 => (),', 'or-pattern with a guard -> two guarded arms')
    f.rewrite(r"b'\\n'", '10u8', "b'\\\\n' -> 10u8")
    f.rewrite(r'match encoding\.decode_without_bom_handling\(&bytes\) \{\s*\((\w+), false\) => String::from\(&\*\1\),', r'match x_decode(encoding, &bytes) { (\1, false) => \1,', 'encoding_rs decode_without_bom_handling -> assumed contract', 1)
    f.rewrite(r"result\.ends_with\('\\r'\)", r"x_ends_with(&result, '\\r')", 'ends_with -> assumed contract')
    f.rewrite(r'result\.pop\(\)', 'x_pop(&mut result)', 'String::pop -> assumed contract')
    f.annotate_loops([(r'loop', None, '''invariant_except_break _i + rest(*reader).len() == _b.len(), rest(*reader) == _b.skip(_i as int), bytes@ == line_bytes(_b.take(_i as int), allow_bom), forall|j: int| 0 <= j < _i ==> #[trigger] _b[j] != 10,
  invariant _b == rest(*old(reader)), _b.len() < usize::MAX, rest(*reader).len() <= _b.len(), sound(*old(reader)) ==> sound(*reader), skipping_bom == (allow_bom && _i > 0 && _b[0] == 0xEF), _i <= _b.len(),
  ensures bytes@ == line_bytes(_b.take(nl_at(_b)), allow_bom), rest(*reader) == after_line(_b),
  decreases rest(*reader).len(),''',
                       '''let ghost _k = _i as int; proof { if _k < _b.len() { assert(_b.take(_k + 1).drop_last() =~= _b.take(_k)); assert(_b.take(_k + 1).last() == _b[_k]); assert(_b.take(_k + 1)[0] == _b[0]); assert(_b.skip(_k)[0] == _b[_k]); assert(_b.skip(_k).skip(1) =~= _b.skip(_k + 1)); if _b[_k] == 10 { lemma_nl(_b, _k); } } else { lemma_nl(_b, _k); assert(_b.skip(_b.len() as int) =~= _b.skip(min_i(_k + 1, _b.len() as int))); } }''', '')])
    f.insert_start('let ghost _b = rest(*reader); proof { assert(_b.take(0) =~= seq![]); assert(_b.skip(0) =~= _b); }')
    m.fn(f, 'pub fn read_line(reader: &mut XReader, allow_bom: bool, encoding: XEnc) -> (r: DxfResult<String>)', '''requires rest(*old(reader)).len() < usize::MAX,
ensures
    sound(*old(reader)) ==> sound(*final(reader)), rest(*final(reader)).len() <= rest(*old(reader)).len(),
    sound(*old(reader)) ==> rest(*final(reader)) == after_line(rest(*old(reader))),
    sound(*old(reader)) ==> r is Ok == line_of(rest(*old(reader)), allow_bom, encoding) is Some,
    r is Ok ==> line_of(rest(*old(reader)), allow_bom, encoding) == Some(r->Ok_0@) && rest(*final(reader)) == after_line(rest(*old(reader))),''')


def show(f):
    """formatting macros of a single argument -> the assumed contract of Display for integers and strings (padded where the format says so)"""
    f.rewrite(r'write!\(f, "\{:\?\}", self\)', 'self.debug_text()', 'write! of self with {:?} -> the Debug function')
    f.rewrite(r'write!\(f, "\{: >(\d+)\}", ([^;]*?)\)(?=\s*[,;}])', r'x_pad((\2).show(), \1)', 'write! {: >N} -> assumed contract of Display, padded')
    f.rewrite(r'write!\(f, "\{\}", ([^;]*?)\)(?=\s*[,;}])', r'(\1).show()', 'write! {} -> assumed contract of Display')
    return f


def value_text(m, repo):
    s = Source(repo + '/src/code_pair_value.rs')
    f = s.fn('format_f64').expect_sig(r'fn format_f64\(val: f64\) -> String')
    f.rewrite(r'format!\("\{:\.12\}", (\w+)\)', r'x_fix12(\1)', 'format!("{:.12}") -> assumed contract', 1)
    f.rewrite(r"(\w+)\.ends_with\(('[^']*')\)", r'x_ends_with(&\1, \2)', 'ends_with -> assumed contract')
    f.rewrite(r'val\.pop\(\)', 'x_pop(&mut val)', 'String::pop -> assumed contract')
    f.annotate_loops([(r"while x_ends_with\(&val, '0'\)", None, 'invariant strip0(val@) == strip0(_s),\n decreases val@.len(),', '', '')])
    f.rewrite(r'(\n\s*)(while )', r'\1let ghost _s = val@;\1\2', 'ghost copy', 1)
    m.fn(f, 'pub fn format_f64(val: f64) -> (r: String)', 'ensures r@ == ftext(val),')
    f = s.fn('Debug for CodePairValue::fmt').expect_sig(r'fn fmt\(&self, f: &mut Formatter(<\'_>)?\) -> fmt::Result')
    f.rewrite(r'&format!\("\{:02X\}", (\w+)\)', r'&x_fmt_hex2(*\1)', 'format!("{:02X}") -> assumed contract', 1)
    f.rewrite(r'line\.push_str\(', 'x_push_str(&mut line, ', 'push_str -> assumed contract')
    show(f)
    f.annotate_loops([(r'for s in b', 'for i in 0..b.len()', 'invariant line@ == hx(b@.take(i as int)),', 'let s = &b[i]; proof { assert(b@.take(i + 1).drop_last() =~= b@.take(i as int)); }\n', '')])
    f.insert_start('proof { if let CodePairValue::Binary(d) = self { assert(d@.take(0) =~= seq![]); assert(d@.take(d@.len() as int) =~= d@); } }')
    m.fn(f, 'pub fn debug_text(&self) -> (r: String)', 'ensures r@ == vtext(vv(*self)),', 'CodePairValue')
    f = s.fn('Display for CodePairValue::fmt').expect_sig(r'fn fmt\(&self, f: &mut Formatter(<\'_>)?\) -> fmt::Result')
    show(f)
    m.fn(f, 'pub fn show(&self) -> (r: String)', 'ensures r@ == vtext(vv(*self)),', 'CodePairValue')
    m.log.append('CodePairValue: fmt(&self, f) -> fmt::Result taken as the function that returns the text it writes to f')


def text_writer(m, repo, s):
    f = s.fn('CodePairWriter::write_ascii_code_pair').expect_sig(r'fn write_ascii_code_pair\(&mut self, pair: &CodePair\) -> DxfResult<\(\)>')
    f.rewrite(r'self\s*\.writer\s*\.write_fmt\(format_args!\("\{: >(\d+)\}\\r\\n", ([^()]*)\)\)', r'x_write_line(&mut *self.writer, &x_pad((\2).show(), \1))', 'write_fmt of one padded number and a line end -> assumed contract')
    f.rewrite(r'self\s*\.writer\s*\.write_fmt\(format_args!\("\{\}\\r\\n", ([^()]*)\)\)', r'x_write_line(&mut *self.writer, &(\1).show())', 'write_fmt of one text and a line end -> assumed contract')
    f.insert_before_tail('proof { lemma_assoc(wr(*old(self).writer), line(code_text(pair.code as int)), line(wtext(vv(pair.value), self.text_as_ascii))); }')
    m.fn(f, 'pub fn write_ascii_code_pair(&mut self, pair: &CodePair) -> (r: DxfResult<()>)', 'ensures same(*final(self), *old(self)), r is Ok ==> wr(*final(self).writer) == wr(*old(self).writer) + pair_text(pv(*pair), old(self).text_as_ascii),', "CodePairWriter<'_>")


def text_reader(m, repo):
    hf = Source(repo + '/src/helper_functions.rs')
    s = Source(repo + '/src/code_pair_iter.rs')
    t = s.item('struct', 'TextCodePairIter')
    for x in (r'reader: T', "string_encoding: &'static Encoding", 'first_line: String', 'read_first_line: bool', 'offset: usize'):
        if not re.search(x, t):
            raise LostAnchor('TextCodePairIter.' + x)
    m.raw('''pub struct TextCodePairIter { pub reader: XReader, pub string_encoding: XEnc, pub first_line: String, pub read_first_line: bool, pub offset: usize }
pub open spec fn enc_ok(e: XEnc, a: bool) -> bool { if a { is_1252(e) } else { is_utf8(e) } }
// the iterator stands in front of the two lines of p
pub open spec fn t_round(it: TextCodePairIter, p: SP, a: bool, tail: Seq<u8>) -> bool {
    &&& sound(it.reader) && typed(p) && enc_ok(it.string_encoding, a)
    &&& if it.read_first_line { rest(it.reader) == pair_text(p, a) + tail } else { it.first_line@ == code_text(p.code as int) && rest(it.reader) == line(wtext(p.v, a)) + tail }
}
''')
    m.log.append('TextCodePairIter: reader: T (T: Read) -> XReader, string_encoding -> XEnc (an encoding of encoding_rs)')
    f = s.fn('TextCodePairIter::read_code_pair').expect_sig(r'fn read_code_pair\(&mut self\) -> Option<DxfResult<CodePair>>')
    expand(f, hf)
    f.rewrite(r'encoding_rs::WINDOWS_1252\)', 'x_w1252())', 'encoding_rs::WINDOWS_1252 -> an encoding with the assumed contract')
    f.rewrite(r'self\.string_encoding == encoding_rs::WINDOWS_1252', 'x_is_1252(self.string_encoding)', 'comparison with WINDOWS_1252 -> assumed contract')
    f.rewrite(r'CodePairValue::un_escape_string\(&(\w+)\)', r'un_escape_string(\1.as_str())', 'Cow<str> taken as the String it stands for')
    f.rewrite(r'(\w+)\.into_owned\(\)', r'\1', 'Cow<str> taken as the String it stands for')
    f.rewrite(r'un_escape_ascii_to_unicode\(&(\w+)\)', r'un_escape_ascii_to_unicode(\1.as_str())', '&String -> &str')
    f.rewrite(r'parse_hex_string\(&(\w+),', r'parse_hex_string(\1.as_str(),', '&String -> &str')
    f.rewrite(r'code_line\.trim\(\)', 'x_trimmed(code_line.as_str())', 'str::trim -> assumed contract')
    f.rewrite(r'code_line\.is_empty\(\)', 'x_empty(code_line)', 'str::is_empty -> assumed contract')
    f.rewrite(r'String::from\(', 'x_string_from(', 'String::from -> assumed contract')
    f.rewrite(r'self\.first_line\.clone\(\)', 'x_string_clone(&self.first_line)', 'String::clone -> assumed contract')
    f.insert_start('''hide(pair_text); hide(wtext); hide(line); hide(kind); hide(dec); hide(unesc); hide(hexs); hide(line_of); hide(after_line); hide(code_text);
        let ghost _g = t_round(*self, p, a, tail); let ghost _r0 = rest(self.reader);
        proof { lemma_trim_empty(); assert forall|w: XEnc| #[trigger] is_1252(w) implies (_r0.len() > 0 ==> after_line(_r0).len() < _r0.len()) && (_r0.len() == 0 ==> line_of(_r0, true, w) == Some(Seq::<char>::empty())) by { lemma_line_progress(_r0, w); } if _g { lemma_any_1252(); let w = any_1252(); assert forall|w: XEnc| #[trigger] is_1252(w) implies line_of(pair_text(p, a) + tail, true, w) == Some(code_text(p.code as int)) by { lemma_pair(p, a, tail, w, self.string_encoding); } lemma_pair(p, a, tail, w, self.string_encoding); lemma_read_value(p.v, a); axiom_decode(self.string_encoding, Seq::<char>::empty()); } assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) =~= s by {} }''')
    f.rewrite(r'(let code_line = x_trimmed)', r'proof { if _g { assert(code_line@ == code_text(p.code as int)); assert(rest(self.reader) == line(wtext(p.v, a)) + tail); } } \1', 'ghost step', 1)
    f.rewrite(r'(let expected_type = )', r'proof { if _g { assert(code == p.code); assert(value_line@ == wtext(p.v, a)); assert(rest(self.reader) == tail); } } \1', 'ghost step', 1)
    m.raw('''#[verifier::external_body]
pub fn x_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0), { s.is_empty() }
pub uninterp spec fn any_1252() -> XEnc;
pub axiom fn lemma_any_1252() ensures is_1252(any_1252());
''')
    m.fn(f, '#[verifier::rlimit(60)] pub fn read_code_pair(&mut self, Ghost(p): Ghost<SP>, Ghost(a): Ghost<bool>, Ghost(tail): Ghost<Seq<u8>>) -> (r: Option<DxfResult<CodePair>>)', '''requires old(self).offset + 2 * rest(old(self).reader).len() + 4 <= usize::MAX,
ensures
    rest(final(self).reader).len() <= rest(old(self).reader).len(), sound(old(self).reader) ==> sound(final(self).reader), final(self).string_encoding == old(self).string_encoding, final(self).read_first_line,
    r is Some && r->Some_0 is Ok && old(self).read_first_line ==> rest(final(self).reader).len() < rest(old(self).reader).len() && final(self).offset + 2 * rest(final(self).reader).len() + 4 <= usize::MAX,
    sound(old(self).reader) && old(self).read_first_line && rest(old(self).reader).len() == 0 ==> r is None,
    t_round(*old(self), p, a, tail) ==> r is Some && r->Some_0 is Ok && r->Some_0->Ok_0.code == p.code && vv(r->Some_0->Ok_0.value) == back(p.v) && rest(final(self).reader) == tail && final(self).offset <= old(self).offset + 2,''', 'TextCodePairIter')
    m.log.append('TextCodePairIter::read_code_pair: three ghost parameters (the pair, the notation of text and the rest of the file the caller expects); erased at run time')
