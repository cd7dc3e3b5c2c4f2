from rustx import Source

FILE = 'src/code_pair_value.rs'


def piece(repo, spec):
    src = Source(repo + '/' + FILE)
    out, log = [spec('c02.rs')], []
    u = src.fn('escaped_code_unit').expect_sig(r'fn escaped_code_unit\( ?chars: &\[char\], index: usize,? ?\) -> Option<u32>')
    u.rewrite(r'chars\[([^\]]*)\]\.to_digit\(16\)', r'x_to_digit16(chars[\1])', 'char::to_digit(16) -> assumed contract')
    u.insert_start('proof { if index < chars@.len() { let t = chars@.skip(index as int); assert(t[0] == chars@[index as int]); if t.len() >= 7 { assert(t[1] == chars@[index + 1] && t[2] == chars@[index + 2] && t[3] == chars@[index + 3] && t[4] == chars@[index + 4] && t[5] == chars@[index + 5] && t[6] == chars@[index + 6]); } } }')
    out.append(u.text('fn escaped_code_unit(chars: &[char], index: usize) -> (r: Option<u32>)', 'requires index <= chars@.len(),\nensures r == unit0(chars@.skip(index as int)),'))
    e = src.fn('escape_unicode_to_ascii').expect_sig(r'fn escape_unicode_to_ascii\( ?val: &str ?\) -> String')
    e.rewrite(r'String::from\(', 'x_string_from(', 'String::from(&str) -> assumed contract')
    e.rewrite(r'result\.push_str\(&format!\("\\\\U\+\{:04X\}", ([^;]*)\)\);', r'x_append(&mut result, &x_fmt_u4(\1));', 'format!("\\\\U+{:04X}") and push_str -> assumed contracts')
    e.annotate_loops([(r'for \(i, &c\) in chars\.iter\(\)\.enumerate\(\)', 'for i in 0..chars.len()',
                       'invariant chars@ == val@, result@ + enc(val@.skip(i as int)) == enc(val@),',
                       'let c = chars[i];\n let ghost _r0 = result@; proof { let t = val@.skip(i as int); assert(t[0] == c); assert(t.skip(1) =~= val@.skip(i + 1)); lemma_char_of(c); assert(_r0 + (uenc1(t) + enc(t.skip(1))) =~= _r0 + uenc1(t) + enc(t.skip(1))); }\n',
                       ' proof { assert(result@ =~= _r0 + uenc1(val@.skip(i as int))); }')])
    e.log.append('escape_unicode_to_ascii: `for (i, &c) in chars.iter().enumerate()` written as the index loop `for i in 0..chars.len()` with `let c = chars[i]`')
    e.insert_start('proof { reveal_strlit(""); assert(""@ =~= seq![]); assert(val@.skip(0) =~= val@); assert(seq![] + enc(val@) =~= enc(val@)); assert(val@.skip(val@.len() as int) =~= seq![]); }')
    e.insert_before_tail('proof { assert(result@ + seq![] =~= result@); }')
    out.append(e.text('fn escape_unicode_to_ascii(val: &str) -> (r: String)', 'ensures r@ == enc(val@),'))
    d = src.fn('un_escape_ascii_to_unicode').expect_sig(r'fn un_escape_ascii_to_unicode\( ?val: &str ?\) -> String')
    d.rewrite(r'String::from\(', 'x_string_from(', 'String::from(&str) -> assumed contract')
    d.rewrite(r'\((0x[0-9A-F]+)\.\.(0x[0-9A-F]+)\)\s*\.contains\(&(\w+)\)', r'x_in(&\3, \1, \2)', 'Range::contains -> its definition')
    d.rewrite(r"(std::char::from_u32\(\w+\))\.unwrap_or\(([^)]*)\)", r'x_unwrap_or(\1, \2)', 'Option::unwrap_or -> its definition')
    d.annotate_loops([(r'while i < chars\.len\(\)', None,
                       'invariant chars@ == val@, 0 <= i <= chars@.len(), result@ + dec(val@.skip(i as int)) == dec(val@),\n decreases chars@.len() - i,',
                       'let ghost _r0 = result@; let ghost _i0 = i; let ghost _t = val@.skip(i as int); proof { assert(_t.len() > 0 && _t[0] == chars@[i as int]); if _t.len() >= 7 { assert(_t.skip(7) =~= val@.skip(i + 7)); } if _t.len() >= 14 { assert(_t.skip(14) =~= val@.skip(i + 14)); } assert(_t.skip(1) =~= val@.skip(i + 1)); assert forall|c: char| #[trigger] to_char(c as u32) == c by { lemma_char_of(c); } assert forall|x: Seq<char>, y: Seq<char>| #[trigger] (_r0 + (x + y)) =~= (_r0 + x) + y by {} assert(!is_scalar(0xD800) ); }\n',
                       ' proof { assert(result@ =~= _r0.push(result@.last())); assert(_r0.push(result@.last()) =~= _r0 + seq![result@.last()]); assert(_r0 + dec(_t) == _r0 + (seq![result@.last()] + dec(val@.skip(i as int)))); }')])
    d.insert_start('proof { reveal_strlit(""); assert(""@ =~= seq![]); assert(val@.skip(0) =~= val@); assert(seq![] + dec(val@) =~= dec(val@)); assert(val@.skip(val@.len() as int) =~= seq![]); }')
    d.insert_before_tail('proof { assert(result@ + seq![] =~= result@); }')
    out.append(d.text('fn un_escape_ascii_to_unicode(val: &str) -> (r: String)', 'ensures r@ == dec(val@),'))
    for x in (u, e, d):
        log += x.log
    return '\n'.join(out), log, ['escaped_code_unit', 'escape_unicode_to_ascii', 'un_escape_ascii_to_unicode']


def build(repo, spec):
    t, log, fns = piece(repo, spec)
    out = [spec('strprelude.rs'), t]
    out.append('''
fn c02_round_trip(s: &str) -> (r: String) ensures r@ == s@ {
    let e = escape_unicode_to_ascii(s);
    proof { theorem_unicode_inverse(s@); theorem_ascii(s@); }
    let r = un_escape_ascii_to_unicode(e.as_str());
    /*CANARY*/
    r
}
''')
    return '\n'.join(out), log, fns
