from rustx import Source

FILE = 'src/code_pair_value.rs'


def piece(repo, spec):
    src = Source(repo + '/' + FILE)
    out, log = [spec('strprelude.rs'), spec('c01.rs')], []
    f = src.fn('escape_control_characters').expect_sig(r'fn escape_control_characters\( ?val: &str ?\) -> String')
    f.rewrite(r'fn needs_escaping\(c: char\) -> bool \{', 'fn needs_escaping(c: char) -> (r: bool) ensures r == ctrl(c) {', 'contract spliced on the nested predicate')
    f.rewrite(r'String::from\(', 'x_string_from(', 'String::from(&str) -> assumed contract')
    f.annotate_loops([(r'for c in val\.chars\(\)', 'for c in it: val.chars()',
                       'invariant result@ == esc(val@.take(it.index@)),',
                       'proof { lemma_take_step(val@, it.index@); }\n let ghost _r0 = result@;\n',
                       ' proof { assert(result@ =~= _r0 + esc1(c)); }')])
    f.insert_before_tail('proof { assert(val@.take(val@.len() as int) =~= val@); }')
    f.insert_start('proof { reveal_strlit(""); assert(""@ =~= seq![]); assert(val@.take(0) =~= seq![]); }')
    out.append(f.text('fn escape_control_characters(val: &str) -> (r: String)', 'ensures r@ == esc(val@),'))
    log += f.log
    g = src.fn('CodePairValue::un_escape_string').expect_sig(r"fn un_escape_string\( ?val: &('_ )?str ?\) -> Cow<('_, )?str>")
    g.rewrite(r'fn needs_un_escaping\(c: char\) -> bool \{', "fn needs_un_escaping(c: char) -> (r: bool) ensures r == (c == '^') {", 'contract spliced on the nested predicate', 1)
    g.rewrite(r'val\.find\(needs_un_escaping\)', 'x_find(val, needs_un_escaping)', 'str::find with a char predicate -> assumed contract x_find', 1)
    g.rewrite(r'&val\[0\.\.first\]', 'x_slice_to(val, first)', 'str slicing by byte offset -> assumed contract', 1)
    g.rewrite(r'val\[first\.\.\]\.chars\(\)', 'x_slice_from(val, first).chars()', 'str slicing by byte offset -> assumed contract', 1)
    g.rewrite(r'result\.reserve\(val\.len\(\) - first\)', 'x_reserve(&mut result, val, first)', 'String::reserve (capacity only) -> assumed contract', 1)
    g.rewrite(r'result\.into\(\)', 'x_string_into(result)', 'Cow::Owned taken as the String it owns', 1)
    g.rewrite(r'val\.into\(\)', 'x_str_into(val)', 'Cow::Borrowed taken as the str it borrows', 1)
    g.rewrite(r'String::from\(', 'x_string_from(', 'String::from(&str) -> assumed contract')
    g.annotate_loops([(r'for c in rest', 'for c in it: rest',
                       'invariant 0 <= k0 <= val@.len(), rest0 == val@.skip(k0), (result@, do_escape) == st(val@.take(k0 + it.index@)), it.seq() == rest0,',
                       'proof { lemma_take_step(val@, k0 + it.index@); assert(c == val@[k0 + it.index@]); lemma_st_push(val@.take(k0 + it.index@), c); assert(val@.take(k0 + it.index@).push(c) =~= val@.take(k0 + it.index@ + 1)); }\n', '')])
    # the ghost offset k0 of the first caret, and the text of `rest`
    g.rewrite(r'let rest = (x_slice_from\(val, first\)\.chars\(\));', r'let rest = \1;\n let ghost k0 = choose|k: int| #[trigger] bdry(val@, first, k) && 0 <= k < val@.len() && val@[k] == caret() && forall|j: int| 0 <= j < k ==> val@[j] != caret();\n let ghost rest0 = val@.skip(k0);\n proof { lemma_st_plain(val@.take(k0)); assert(val@.take(k0 + 0) =~= val@.take(k0)); }', 'ghost offset of the first caret', 1)
    g.rewrite(r'(\}\s*)(if do_escape \{\s*result\.push)', r'\1proof { assert(val@.take(k0 + rest0.len()) =~= val@); }\n \2', 'ghost step after the loop', 1)
    g.rewrite(r'x_str_into\(val\)', 'proof { lemma_st_plain(val@); }\n x_str_into(val)', 'ghost step', 1)
    out.append(g.text('fn un_escape_string(val: &str) -> (r: String)', 'ensures r@ == unesc(val@),'))
    log += g.log
    return '\n'.join(out), log, ['escape_control_characters', 'escape_control_characters::needs_escaping', 'CodePairValue::un_escape_string', 'CodePairValue::un_escape_string::needs_un_escaping']


def build(repo, spec):
    t, log, fns = piece(repo, spec)
    out = [t]
    out.append('''
// THEOREM over the two contracts: what the writer escapes, the reader gives back.
fn c01_round_trip(s: &str) -> (r: String) ensures r@ == s@ {
    let e = escape_control_characters(s);
    proof { theorem_inverse(s@); theorem_no_control(s@); }
    let r = un_escape_string(e.as_str());
    /*CANARY*/
    r
}
''')
    return '\n'.join(out), log, fns
