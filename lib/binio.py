"""helper_functions::read_*, ExpectedType, CodePairWriter (binary) and BinaryCodePairIter"""
import re
from pieces import Module, Source, LostAnchor, item_text, types, versions, versioned
from v_c11 import macro_body
import v_c01

MACROS = ('try_from_option_io_result', 'try_into_option', 'try_from_dxf_result')


def expand(f, hf, names=MACROS):
    """expands the crate's own one-rule macros from their definitions in helper_functions.rs"""
    for n in names:
        while True:
            mm = re.search(r'\b%s!\(' % n, f.body)
            if not mm:
                break
            from rustx import match_close
            e = match_close(f.body, mm.end() - 1)
            params, t = macro_body(hf.src, n)
            if len(params) != 1:
                raise LostAnchor('parameters of %s!' % n)
            arg = f.body[mm.end():e - 1].strip().rstrip(',')
            f.body = f.body[:mm.start()] + '(' + re.sub(r'\$%s\b' % params[0], lambda _: arg, t).strip() + ')' + f.body[e:]
            f.log.append('%s: %s! expanded from its definition' % (f.path, n))
    return f


def lossless(f):
    """`i32::from(x)` between integer types -> `(x) as i32` (From exists only where nothing is lost)"""
    from rustx import match_close
    n = 0
    while True:
        mm = re.search(r'\b(i16|i32|i64|u16|u32|u64|usize|u8)::from\(', f.body)
        if not mm:
            break
        e = match_close(f.body, mm.end() - 1)
        f.body = f.body[:mm.start()] + '((' + f.body[mm.end():e - 1].strip().rstrip(',') + ') as ' + mm.group(1) + ')' + f.body[e:]
        n += 1
    if n:
        f.log.append('%s: lossless T::from(integer) -> as (%d sites)' % (f.path, n))
    return f


def readers(m, repo):
    hf = Source(repo + '/src/helper_functions.rs')
    f = hf.fn('read_u8').expect_sig(r'fn read_u8<T: Read \+ \?Sized>\(reader: &mut T\) -> Option<io::Result<u8>>')
    f.rewrite(r'reader\.read\(&mut (\w+)\)', r'x_read(reader, &mut \1)', 'Read::read into a one-byte buffer -> assumed contract')
    m.fn(f, 'pub fn read_u8(reader: &mut XReader) -> (r: Option<Result<u8, XErr>>)', '''ensures
    sound(*old(reader)) ==> sound(*final(reader)) && (r is Some ==> r->Some_0 is Ok) && (r is None <==> rest(*old(reader)).len() == 0),
    r is None ==> rest(*old(reader)).len() == 0 && rest(*final(reader)) == rest(*old(reader)),
    r is Some && r->Some_0 is Ok ==> rest(*old(reader)).len() > 0 && r->Some_0->Ok_0 == rest(*old(reader))[0] && rest(*final(reader)) == rest(*old(reader)).skip(1),
    r is Some && r->Some_0 is Err ==> rest(*final(reader)).len() <= rest(*old(reader)).len(),''')
    f = hf.fn('read_u8_strict').expect_sig(r'fn read_u8_strict<T: Read>\(reader: &mut T\) -> DxfResult<u8>')
    expand(f, hf)
    SP = '''ensures
    rest(*final(reader)).len() <= rest(*old(reader)).len(), sound(*old(reader)) ==> sound(*final(reader)),
    sound(*old(reader)) && rest(*old(reader)).len() >= %d ==> r is Ok,
    r is Ok ==> rest(*old(reader)).len() >= %d && %s && rest(*final(reader)) == rest(*old(reader)).skip(%d),'''
    m.fn(f, 'pub fn read_u8_strict(reader: &mut XReader) -> (r: DxfResult<u8>)', SP % (1, 1, 'r->Ok_0 == rest(*old(reader))[0]', 1))
    for t, n, v in (('i16', 2, 'n16(r->Ok_0)'), ('i32', 4, 'n32(r->Ok_0)'), ('i64', 8, 'n64(r->Ok_0)'), ('f64', 8, 'bits64(r->Ok_0) as nat'), ('f32', 4, 'bits32(r->Ok_0) as nat')):
        f = hf.fn('read_' + t).expect_sig(r'fn read_%s<T: Read>\(reader: &mut T\) -> DxfResult<%s>' % (t, t))
        expand(f, hf)
        f.rewrite(r'LittleEndian::read_(\w+)\(', r'x_le_\1(', 'byteorder LittleEndian::read_* -> assumed contract')
        f.rewrite(r'(?s)Ok\(x_le_(\w+)\((.*?)\)\)', r'let _a = \2; proof { assert(_a@.take(%d) =~= _o.take(%d)); } Ok(x_le_\1(_a))' % (n, n), 'the array of bytes named for the proof')
        f.insert_start('let ghost _o = rest(*reader); proof { assert forall|i: int| 0 <= i < _o.len() implies #[trigger] _o.skip(i).skip(1) == _o.skip(i + 1) by { assert(_o.skip(i).skip(1) =~= _o.skip(i + 1)); } }')
        m.fn(f, 'pub fn read_%s(reader: &mut XReader) -> (r: DxfResult<%s>)' % (t, t), SP % (n, n, '%s == le_nat(rest(*old(reader)).take(%d))' % (v, n), n))
    return hf


def expected(m, repo):
    s = Source(repo + '/src/expected_type.rs')
    m.raw('#[derive(Clone, Copy)]\n' + item_text(s, 'enum', 'ExpectedType'))
    f = s.fn('ExpectedType::new').expect_sig(r'fn new\(code: i32\) -> (::std::option::)?Option<Self>')
    m.fn(f, 'pub fn new(code: i32) -> (r: Option<Self>)', 'ensures r is Some == kind(code as int) is Some, r is Some ==> kindv(r->Some_0) == kind(code as int)->Some_0,', 'ExpectedType')


def writes(f):
    f.rewrite(r'self\s*\.writer\s*\.write_(\w+)::<LittleEndian>\(', r'x_write_\1(&mut *self.writer, ', 'WriteBytesExt::write_*::<LittleEndian> -> assumed contract (io::Error -> DxfError folded into ?)')
    f.rewrite(r'self\s*\.writer\s*\.write_(u8|all)\(', r'x_write_\1(&mut *self.writer, ', 'write_u8 / write_all -> assumed contract (io::Error -> DxfError folded into ?)')
    return f


def writer_struct(m, repo):
    s = Source(repo + '/src/code_pair_writer.rs')
    t = s.item('struct', 'CodePairWriter')
    for x in (r"writer: &'a mut T", 'as_text: bool', 'text_as_ascii: bool', 'version: AcadVersion'):
        if not re.search(x, t):
            raise LostAnchor('CodePairWriter.' + x)
    m.raw('pub struct CodePairWriter<\'a> { pub writer: &\'a mut XWriter, pub as_text: bool, pub text_as_ascii: bool, pub version: AcadVersion }\n')
    m.raw('#[verifier::prophetic]\npub open spec fn same(a: CodePairWriter, b: CodePairWriter) -> bool { a.as_text == b.as_text && a.text_as_ascii == b.text_as_ascii && a.version == b.version && *final(a.writer) == *final(b.writer) }\n')
    m.log.append("CodePairWriter: writer: &'a mut T (T: Write) -> &'a mut XWriter, a sink that keeps the bytes it accepted")
    return s


def bin_writer(m, repo):
    s = writer_struct(m, repo)
    f = s.fn('CodePairWriter::write_binary_code_pair').expect_sig(r'fn write_binary_code_pair\(&mut self, pair: &CodePair\) -> DxfResult<\(\)>')
    writes(f)
    versioned(f)
    lossless(f)
    f.rewrite(r'escape_control_characters\(s\)\.as_bytes\(\)', 'x_as_bytes(&escape_control_characters(s))', 'String::as_bytes -> assumed contract')
    f.rewrite(r'chunk\.to_vec\(\)', 'x_bytes_clone(chunk)', 'to_vec -> assumed contract')
    f.rewrite(r'for chunk in buf\.chunks\((\w+)\) \{', r'let _ch = x_chunks(buf, \1); for _i in 0.._ch.len() { let chunk = &_ch[_i];', 'for over slice::chunks -> index loop over its chunks (assumed contract)')
    f.rewrite(r'for &b in (x_as_bytes\(.*?\)\)) \{', r'let _bs = \1; for _j in 0.._bs.len() { let b = _bs[_j];', 'for over bytes -> index loop')
    f.rewrite(r'for b in buf \{', r'for _k in 0..buf.len() { let b = &buf[_k];', 'for over &Vec -> index loop')
    P = 'parts(pv(*pair))'
    TW = 'two_bytes(self.version)'
    ann = [(r'for _i in 0\.\._ch\.len\(\)', None,
            'invariant same(*self, *old(self)), writable(pv(*pair)), pair.value is Binary, pair.value->Binary_0@ == buf@, !short(pv(*pair)), _ch@.len() == chunks(buf@, 255).len(), forall|i: int| 0 <= i < _ch@.len() ==> (#[trigger] _ch@[i])@ == chunks(buf@, 255)[i], wr(*self.writer) == wr(*old(self).writer) + enc_all(%s.take(_i as int), %s),' % (P, TW),
            'proof { lemma_chunks(buf@, 255); lemma_enc_step(%s, _i as int, %s); assert(%s[_i as int] == p_bin(pair.code, chunks(buf@, 255)[_i as int])); assert(chunks(buf@, 255)[_i as int].len() <= 255); lemma_one(%s[_i as int], %s); } let ghost _w0 = wr(*self.writer);' % (P, TW, P, P, TW),
            'proof { lemma_assoc(wr(*old(self).writer), enc_all(%s.take(_i as int), %s), enc1(%s[_i as int], %s)); }' % (P, TW, P, TW)),
           (r'for _j in 0\.\._bs\.len\(\)', None, 'invariant same(*self, *old(self)), wr(*self.writer) == _w1 + _bs@.take(_j as int),', 'proof { lemma_take_push(_w1, _bs@, _j as int); }', ''),
           (r'for _k in 0\.\.buf\.len\(\)', None, 'invariant same(*self, *old(self)), wr(*self.writer) == _w2 + buf@.take(_k as int),', 'proof { lemma_take_push(_w2, buf@, _k as int); }', '')]
    present = f.loops()
    f.annotate_loops([a for a in ann if any(re.fullmatch(a[0], h) for h in present)])
    f.rewrite(r'(for _i in 0)', r'proof { lemma_enc_empty(%s.take(0), %s, wr(*self.writer)); } \1' % (P, TW), 'ghost step')
    f.rewrite(r'(for _j in 0)', r'let ghost _w1 = wr(*self.writer); proof { assert(_w1 + _bs@.take(0) =~= _w1); assert(_bs@.take(_bs@.len() as int) =~= _bs@); } \1', 'ghost step')
    f.rewrite(r'(for _k in 0)', r'let ghost _w2 = wr(*self.writer); proof { assert(_w2 + buf@.take(0) =~= _w2); assert(buf@.take(buf@.len() as int) =~= buf@); } \1', 'ghost step')
    f.rewrite(r'return Ok\(\(\)\);', 'proof { assert(%s.take(%s.len() as int) =~= %s); } return Ok(());' % (P, P, P), 'ghost step')
    f.insert_start('hide(le_bytes); hide(le_nat); hide(chunks); hide(enc_all); hide(esc); hide(flat); hide(kind); proof { lemma_kind_range(pair.code as int); }')
    # ghost marks around the code and the value
    f.rewrite(r'(match pair\.value \{)', r'let ghost _c = wr(*self.writer); proof { let _w = wr(*old(self).writer); lemma_single(_w, pair.code as u8); lemma_cons(_w, 255u8, le_bytes(pair.code as nat, 2)); assert(_c == _w + code_bytes(pair.code as int, %s)); } \1' % TW, 'ghost step', 1)
    f.insert_before_tail('''proof { lemma_one(pv(*pair), TW);
        match vv(pair.value) {
            SV::Str(s) => { lemma_push(_c, utf8(esc(s)), 0u8); }
            SV::Binary(b) => { lemma_cons(_c, b.len() as u8, b); }
            SV::Boolean(b) => { lemma_single(_c, b as u8); }
            _ => { }
        }
        assert(wr(*self.writer) == _c + val_bytes(vv(pair.value), TW)); lemma_assoc(wr(*old(self).writer), code_bytes(pair.code as int, TW), val_bytes(vv(pair.value), TW)); }'''.replace('TW', TW))
    m.fn(f, 'pub fn write_binary_code_pair(&mut self, pair: &CodePair) -> (r: DxfResult<()>)',
         'requires writable(pv(*pair)), ensures same(*final(self), *old(self)), r is Ok ==> wr(*final(self).writer) == wr(*old(self).writer) + enc_all(%s, two_bytes(old(self).version)),\n decreases (if short(pv(*pair)) { 0int } else { 1int }),' % P, "CodePairWriter<'_>")
    return s


def bin_reader(m, repo):
    hf = Source(repo + '/src/helper_functions.rs')
    s = Source(repo + '/src/code_pair_iter.rs')
    t = s.item('struct', 'BinaryCodePairIter')
    for x in (r'reader: T', 'code_size_detection_complete: bool', 'codes_are_two_bytes: bool', 'offset: usize'):
        if not re.search(x, t):
            raise LostAnchor('BinaryCodePairIter.' + x)
    m.raw('pub struct BinaryCodePairIter { pub reader: XReader, pub code_size_detection_complete: bool, pub codes_are_two_bytes: bool, pub offset: usize }\n')
    m.log.append('BinaryCodePairIter: reader: T (T: Read) -> XReader, a source of bytes')
    f = s.fn('BinaryCodePairIter::read_string_binary').expect_sig(r'fn read_string_binary\(&mut self\) -> DxfResult<String>')
    f.rewrite(r'String::from_utf8\(bytes\)\s*\.or_else\(\|e\| Ok\(e\.into_bytes\(\)\.iter\(\)\.map\(\|&b\| b as char\)\.collect\(\)\)\)', 'x_text_of(bytes)', 'String::from_utf8, otherwise one character per byte -> assumed contract', 1)
    f.annotate_loops([(r'loop', None, '''invariant_except_break bytes@ == _o.take(bytes@.len() as int), rest(self.reader) == _o.skip(bytes@.len() as int), bytes@.len() <= _o.len(), forall|j: int| 0 <= j < bytes@.len() ==> #[trigger] _o[j] != 0, 
 invariant sound(old(self).reader) ==> sound(self.reader), self.offset == old(self).offset, self.codes_are_two_bytes == old(self).codes_are_two_bytes, self.code_size_detection_complete == old(self).code_size_detection_complete, _o == rest(old(self).reader), rest(self.reader).len() <= _o.len(),
 ensures nul_at(_o) == bytes@.len(), bytes@.len() < _o.len(), bytes@ == _o.take(bytes@.len() as int), rest(self.reader) == _o.skip(bytes@.len() as int + 1),
 decreases rest(self.reader).len(),''',
                       'let ghost _n = bytes@.len() as int; proof { if _n < _o.len() { lemma_nul_step(_o, _n); assert(_o.skip(_n)[0] == _o[_n]); assert(_o.skip(_n).skip(1) =~= _o.skip(_n + 1)); assert(_o.take(_n).push(_o[_n]) =~= _o.take(_n + 1)); } else if _n > 0 { lemma_nul_step(_o, _n - 1); } }', '')])
    f.rewrite(r'^\{', '{ let ghost _o = rest(self.reader); proof { assert(_o.take(0) =~= seq![]); assert(_o.skip(0) =~= _o); lemma_nul_range(_o); }', 'ghost start')
    m.fn(f, 'pub fn read_string_binary(&mut self) -> (r: DxfResult<String>)', '''ensures
    sound(old(self).reader) ==> sound(final(self).reader), final(self).offset == old(self).offset, final(self).codes_are_two_bytes == old(self).codes_are_two_bytes, final(self).code_size_detection_complete == old(self).code_size_detection_complete,
    rest(final(self).reader).len() <= rest(old(self).reader).len(),
    sound(old(self).reader) && nul_at(rest(old(self).reader)) < rest(old(self).reader).len() ==> r is Ok,
    r is Ok ==> nul_at(rest(old(self).reader)) < rest(old(self).reader).len() && rest(final(self).reader) == rest(old(self).reader).skip(nul_at(rest(old(self).reader)) + 1) && blen(r->Ok_0@) <= 2 * nul_at(rest(old(self).reader)) && (forall|s: Seq<char>| rest(old(self).reader).take(nul_at(rest(old(self).reader))) == utf8(s) ==> r->Ok_0@ == s),''', 'BinaryCodePairIter')
    f = s.fn('BinaryCodePairIter::read_code_pair').expect_sig(r'fn read_code_pair\(&mut self\) -> Option<DxfResult<CodePair>>')
    expand(f, hf)
    lossless(f)
    f.rewrite(r'CodePairValue::un_escape_string\(&(\w+)\)\.into_owned\(\)', r'un_escape_string(\1.as_str())', 'Cow<str> taken as the String it stands for')
    f.rewrite(r'(\w+)\.is_empty\(\)', r'x_is_empty(&\1)', 'String::is_empty -> assumed contract')
    f.rewrite(r'value\.len\(\)', r'x_blen(&value)', 'String::len -> assumed contract')
    f.rewrite(r'(\w+) << 8', r'x_shl8(\1)', 'shift by 8 of one byte -> times 256 (proved by bit_vector)')
    G = '_g'
    f.annotate_loops([(r'for _ in 0\.\.length', 'for _q in 0..length', '''invariant _q <= length, data@.len() == _q, _q <= _d0.len(), data@ == _d0.take(_q as int), rest(self.reader) == _d0.skip(_q as int), sound(old(self).reader) ==> sound(self.reader), _g ==> sound(old(self).reader) && _d0.len() >= length, !_first, _g == round(*old(self), p, tail), _first == first_round(*old(self), tail),
  rest(old(self).reader).len() > 0, rest(self.reader).len() <= rest(old(self).reader).len(), self.codes_are_two_bytes == old(self).codes_are_two_bytes, self.offset + 2 * _d0.len() + 2 <= usize::MAX, self.offset == _off,''',
                       'proof { if (_q as int) < _d0.len() { assert(_d0.skip(_q as int)[0] == _d0[_q as int]); assert(_d0.skip(_q as int).skip(1) =~= _d0.skip(_q + 1)); assert(_d0.take(_q as int).push(_d0[_q as int]) =~= _d0.take(_q + 1)); } }', '')])
    f.rewrite(r'(for _q in 0)', r'let ghost _d0 = rest(self.reader); let ghost _off = self.offset; proof { assert(_d0.take(0) =~= seq![]); assert(_d0.skip(0) =~= _d0); } \1', 'ghost step')
    f.rewrite(r'(let expected_type = )', r'''proof {
            if _g { assert(code == p.code); assert(rest(self.reader) == val_bytes(p.v, _two) + tail); }
            if _first { assert(code == 0); assert(rest(self.reader) == seq![0u8] + (utf8(esc("SECTION"@)).push(0u8) + tail)); }
        }
        \1''', 'ghost step', 1)
    f.insert_start('''hide(le_bytes); hide(le_nat); hide(esc); hide(unesc); hide(kind); hide(st); hide(nul_at); hide(code_bytes); hide(val_bytes); hide(enc1); hide(writable); hide(short); hide(round); hide(first_round);
        let ghost _b0 = rest(self.reader); let ghost _two = self.codes_are_two_bytes;
        let ghost _g = round(*self, p, tail); let ghost _first = first_round(*self, tail);
        proof { lemma_skips(_b0); if _g { lemma_prep(*self, p, tail); lemma_val(p.v, _two, tail); lemma_bits_all(); } if _first { lemma_first(*self, tail); } lemma_kind_all(); }''')
    m.raw(''' 
pub fn x_shl8(x: i32) -> (r: i32) requires 0 <= x < 256, ensures r == x * 256, { assert(x << 8 == x * 256) by (bit_vector) requires 0 <= x < 256; x << 8 }
pub open spec fn round(it: BinaryCodePairIter, p: SP, tail: Seq<u8>) -> bool {
    sound(it.reader) && writable(p) && short(p) && (it.code_size_detection_complete || p != p_str(0, seq![])) && rest(it.reader) == enc1(p, it.codes_are_two_bytes) + tail
}
pub open spec fn first_round(it: BinaryCodePairIter, tail: Seq<u8>) -> bool {
    sound(it.reader) && !it.code_size_detection_complete && !it.codes_are_two_bytes && rest(it.reader) == enc1(first_pair(), true) + tail
}
pub proof fn lemma_bits_all() ensures forall|a: f64, b: f64| #[trigger] bits64(a) == #[trigger] bits64(b) ==> a == b,
{ assert forall|a: f64, b: f64| #[trigger] bits64(a) == #[trigger] bits64(b) implies a == b by { axiom_bits64(a, b); } }
pub proof fn lemma_kind_all() ensures forall|c: int| #[trigger] kind(c) is Some ==> 0 <= c <= 1071, kind(0) == Some(Kind::Str), { }
pub proof fn lemma_skips(b: Seq<u8>) ensures b.len() >= 2 ==> b.skip(1).skip(1) == b.skip(2) && b.skip(1)[0] == b[1], b.len() >= 3 ==> b.skip(1).skip(2) == b.skip(3),
{ if b.len() >= 2 { assert(b.skip(1).skip(1) =~= b.skip(2)); } if b.len() >= 3 { assert(b.skip(1).skip(2) =~= b.skip(3)); } }
pub proof fn lemma_prep(it: BinaryCodePairIter, p: SP, tail: Seq<u8>)
    requires round(it, p, tail),
    ensures ({
        let b = rest(it.reader); let c = p.code as int; let vt = val_bytes(p.v, it.codes_are_two_bytes) + tail;
        &&& sound(it.reader) && kind(c) == Some(kind_of(p.v)) && 0 <= c <= 1071 && b.len() > 0
        &&& !it.code_size_detection_complete && c == 0 ==> p.v is Str && esc(p.v->Str_0).len() > 0
        &&& it.codes_are_two_bytes ==> b.len() >= 2 && b[0] + 256 * b[1] == c && b.skip(2) == vt
        &&& !it.codes_are_two_bytes && c < 255 ==> b[0] == c && b.skip(1) == vt
        &&& !it.codes_are_two_bytes && c >= 255 ==> b[0] == 255 && b.len() >= 3 && le_nat(b.skip(1).take(2)) == c && b.skip(3) == vt
        &&& (p.v is Boolean ==> 0 <= p.v->Boolean_0 <= 255) && (p.v is Binary ==> p.v->Binary_0.len() <= 255)
        &&& p.v is Str ==> unesc(esc(p.v->Str_0)) == p.v->Str_0
    }),
{
    let b = rest(it.reader); let c = p.code as int; let two = it.codes_are_two_bytes; let cb = code_bytes(c, two); let vt = val_bytes(p.v, two) + tail;
    lemma_kind_range(c);
    lemma_code_bytes(c, two);
    lemma_assoc(cb, val_bytes(p.v, two), tail);
    assert(b == cb + vt);
    lemma_front(cb, vt);
    if two { assert(b[0] == cb[0] && b[1] == cb[1]); } else if c > 255 { assert(b[0] == cb[0]); assert(b.skip(1).take(2) =~= le_bytes(c as nat, 2)); } else { assert(b[0] == cb[0]); }
    if p.v is Str { theorem_inverse(p.v->Str_0); if p.v->Str_0.len() == 0 { assert(p.v->Str_0 =~= Seq::<char>::empty()); } }
}
pub proof fn lemma_first(it: BinaryCodePairIter, tail: Seq<u8>)
    requires first_round(it, tail),
    ensures ({
        let b = rest(it.reader); let u = utf8(esc("SECTION"@)); let x = u.push(0u8) + tail; let y = seq![0u8] + x;
        &&& sound(it.reader) && !it.code_size_detection_complete && !it.codes_are_two_bytes
        &&& b.len() >= 2 && b[0] == 0 && b.skip(1) == y && first_pair() == p_str(0, "SECTION"@)
        &&& nul_at(y) == 0 && y.len() > 0 && y.take(0) == utf8(seq![]) && y.skip(1) == x
        &&& nul_at(x) == u.len() && u.len() < x.len() && x.take(u.len() as int) == u && x.skip(u.len() as int + 1) == tail
        &&& unesc(esc("SECTION"@)) == "SECTION"@
    }),
{
    lemma_code_bytes(0, true);
    theorem_no_control("SECTION"@); theorem_inverse("SECTION"@); axiom_utf8_zero(esc("SECTION"@)); axiom_utf8_empty();
    let u = utf8(esc("SECTION"@)); let x = u.push(0u8) + tail; let y = seq![0u8] + x;
    lemma_nul(u, tail); lemma_nul(seq![], x);
    assert(Seq::<u8>::empty().push(0u8) + x =~= y);
    assert(enc1(first_pair(), true) + tail =~= seq![0u8, 0u8] + x);
    assert(rest(it.reader).skip(1) =~= y);
    assert(y.take(0) =~= Seq::<u8>::empty());
    assert(y.skip(1) =~= x);
}
''')
    m.fn(f, '#[verifier::rlimit(100)] pub fn read_code_pair(&mut self, Ghost(p): Ghost<SP>, Ghost(tail): Ghost<Seq<u8>>) -> (r: Option<DxfResult<CodePair>>)', '''requires old(self).offset + 2 * rest(old(self).reader).len() <= usize::MAX,
ensures
    rest(final(self).reader).len() <= rest(old(self).reader).len(), sound(old(self).reader) ==> sound(final(self).reader),
    r is None ==> rest(old(self).reader).len() == 0, sound(old(self).reader) && rest(old(self).reader).len() == 0 ==> r is None,
    r is Some && r->Some_0 is Ok ==> rest(final(self).reader).len() < rest(old(self).reader).len() && final(self).offset + 2 * rest(final(self).reader).len() <= usize::MAX && final(self).code_size_detection_complete,
    round(*old(self), p, tail) ==> r is Some && r->Some_0 is Ok && pv(r->Some_0->Ok_0) == p && rest(final(self).reader) == tail && final(self).codes_are_two_bytes == old(self).codes_are_two_bytes,
    first_round(*old(self), tail) ==> r is Some && r->Some_0 is Ok && pv(r->Some_0->Ok_0) == first_pair() && rest(final(self).reader) == tail && final(self).codes_are_two_bytes,''', 'BinaryCodePairIter')
    m.log.append('read_code_pair: two ghost parameters (the pair and the rest of the file the caller expects); erased at run time')
    return s


def dispatch(m, s, stub):
    """write_code_pair; the form that is not under contract in this module is a stub without a promise"""
    if stub == 'ascii':
        m.raw('impl CodePairWriter<\'_> {\n#[verifier::external_body]\npub fn write_ascii_code_pair(&mut self, pair: &CodePair) -> (r: DxfResult<()>) ensures same(*final(self), *old(self)), { unimplemented!() }\n}\n')
    f = s.fn('CodePairWriter::write_prelude').expect_sig(r'fn write_prelude\(&mut self\) -> DxfResult<\(\)>')
    f.rewrite(r'self\s*\.writer\s*\.write_fmt\(format_args!\(("[^"{}]*")\)\)', r'x_write_str(&mut *self.writer, \1)', 'write_fmt of a literal -> assumed contract')
    writes(f)
    f.insert_before_tail('proof { if !self.as_text { let w = wr(*old(self).writer); let a = utf8("AutoCAD Binary DXF\\r\\n"@); assert((w + a).push(0x1Au8).push(0u8) =~= w + (a + seq![0x1Au8, 0u8])); } else { assert(wr(*self.writer) + Seq::<u8>::empty() =~= wr(*self.writer)); } }')
    m.raw('''
#[verifier::external_body]
pub fn x_write_str(w: &mut XWriter, s: &str) -> (r: DxfResult<()>) ensures r is Ok ==> wr(*final(w)) == wr(*old(w)) + utf8(s@), { unimplemented!() }
pub open spec fn prelude(text: bool) -> Seq<u8> { if text { seq![] } else { utf8("AutoCAD Binary DXF\\r\\n"@) + seq![0x1Au8, 0u8] } }
''')
    m.fn(f, 'pub fn write_prelude(&mut self) -> (r: DxfResult<()>)', 'ensures same(*final(self), *old(self)), r is Ok ==> wr(*final(self).writer) == wr(*old(self).writer) + prelude(old(self).as_text),', "CodePairWriter<'_>")
    f = s.fn('CodePairWriter::write_code_pair').expect_sig(r'fn write_code_pair\(&mut self, pair: &CodePair\) -> DxfResult<\(\)>')
    pre, post = {'ascii': ('!old(self).as_text ==> writable(pv(*pair))', '!old(self).as_text && r is Ok ==> wr(*final(self).writer) == wr(*old(self).writer) + enc_all(parts(pv(*pair)), two_bytes(old(self).version))'),
                 'both': ('writable(pv(*pair))', 'r is Ok ==> wr(*final(self).writer) == wr(*old(self).writer) + (if old(self).as_text { pair_text(pv(*pair), old(self).text_as_ascii) } else { enc_all(parts(pv(*pair)), two_bytes(old(self).version)) })')}[stub]
    m.fn(f, 'pub fn write_code_pair(&mut self, pair: &CodePair) -> (r: DxfResult<()>)', 'requires %s, ensures same(*final(self), *old(self)), %s,' % (pre, post), "CodePairWriter<'_>")


BIN_THEOREM = r'''
pub open spec fn fine(ps: Seq<SP>) -> bool { forall|i: int| 0 <= i < ps.len() ==> writable(#[trigger] ps[i]) && short(ps[i]) }
pub proof fn lemma_enc_front(ps: Seq<SP>, two: bool)
    requires ps.len() > 0,
    ensures enc_all(ps, two) == enc1(ps[0], two) + enc_all(ps.skip(1), two),
    decreases ps.len(),
{
    if ps.len() == 1 {
        assert(ps.drop_last() =~= Seq::<SP>::empty()); assert(ps.skip(1) =~= Seq::<SP>::empty());
        assert(enc_all(Seq::<SP>::empty(), two) =~= Seq::<u8>::empty());
        assert(Seq::<u8>::empty() + enc1(ps[0], two) =~= enc1(ps[0], two) + Seq::<u8>::empty());
    } else {
        lemma_enc_front(ps.drop_last(), two);
        assert(ps.drop_last().skip(1) =~= ps.skip(1).drop_last());
        lemma_assoc(enc1(ps[0], two), enc_all(ps.skip(1).drop_last(), two), enc1(ps.last(), two));
    }
}
// THEOREM: the pairs of a file, in either layout, are read back one by one, each exactly, to the end of the file
fn theorem_binary_file(it: &mut BinaryCodePairIter, Ghost(ps): Ghost<Seq<SP>>, n: usize, Ghost(two): Ghost<bool>)
    requires
        n == ps.len(), n > 0, ps[0] == first_pair(), fine(ps), sound(old(it).reader), !old(it).code_size_detection_complete, !old(it).codes_are_two_bytes,
        rest(old(it).reader) == enc_all(ps, two), old(it).offset + 2 * rest(old(it).reader).len() <= usize::MAX,
{
    hide(enc_all); hide(enc1); hide(code_bytes); hide(val_bytes); hide(kind);
    proof { lemma_enc_front(ps, two); assert("SECTION"@.len() == 7) by { reveal_strlit("SECTION"); } assert(first_pair() != p_str(0, seq![])); assert(writable(ps[0]) && short(ps[0])); }
    let r = it.read_code_pair(Ghost(ps[0]), Ghost(enc_all(ps.skip(1), two)));
    assert(r is Some && r->Some_0 is Ok && pv(r->Some_0->Ok_0) == ps[0]);
    for i in 1..n
        invariant n == ps.len(), fine(ps), sound(it.reader), it.code_size_detection_complete, it.codes_are_two_bytes == two, rest(it.reader) == enc_all(ps.skip(i as int), two), it.offset + 2 * rest(it.reader).len() <= usize::MAX,
    {
        proof { lemma_enc_front(ps.skip(i as int), two); assert(ps.skip(i as int)[0] == ps[i as int]); assert(ps.skip(i as int).skip(1) =~= ps.skip(i + 1)); assert(writable(ps[i as int]) && short(ps[i as int])); }
        let r = it.read_code_pair(Ghost(ps[i as int]), Ghost(enc_all(ps.skip(i + 1), two)));
        assert(r is Some && r->Some_0 is Ok && pv(r->Some_0->Ok_0) == ps[i as int]);
    }
    proof { reveal(enc_all); assert(enc_all(ps.skip(n as int), two).len() == 0); }
    let e = it.read_code_pair(Ghost(ps[0]), Ghost(Seq::<u8>::empty()));
    assert(e is None);
    /*CANARY*/
}
// THEOREM: what the writer splits into several pairs is the same data when put together
pub proof fn theorem_chunks(b: Seq<u8>) ensures flat(chunks(b, 255)) == b, { lemma_chunks(b, 255); }
'''
