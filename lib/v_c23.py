from pieces import pairs_base, versions, versioned, project
from rustx import Source, LostAnchor
import re


def build(repo, spec):
    m = pairs_base(repo, spec)
    m.add(versions(repo))
    m.s('c23.rs')
    s = Source(repo + '/src/thumbnail.rs')
    m.raw(''.join('pub const %s: %s = %s;\n' % c for c in re.findall(r'const (\w+): (\w+) = ([^;]+);', s.src)))
    m.log.append('thumbnail.rs: `data: &[u8]` and `&mut [u8]` typed as references to Vec<u8>')
    f = s.fn('read_u32').expect_sig(r'fn read_u32\( ?data: &\[u8\], offset: usize ?\) -> DxfResult<u32>')
    f.insert_start('''proof { assert forall|a: u8, b: u8, c: u8, d: u8| true implies #[trigger] mark4(a, b, c, d) && ((b as u32) << 8) == (b as u32) * 256 && ((c as u32) << 16) == (c as u32) * 65536 && ((d as u32) << 24) == (d as u32) * 16777216 by {
            assert(((b as u32) << 8) == mul(b as u32, 256)) by (bit_vector); assert(((c as u32) << 16) == mul(c as u32, 65536)) by (bit_vector); assert(((d as u32) << 24) == mul(d as u32, 16777216)) by (bit_vector); }
        if offset + 4 <= data@.len() { assert(mark4(data@[offset as int], data@[offset + 1], data@[offset + 2], data@[offset + 3])); } }''')
    m.raw('pub open spec fn mark4(a: u8, b: u8, c: u8, d: u8) -> bool { true }\n')
    m.fn(f, 'fn read_u32(data: &Vec<u8>, offset: usize) -> (r: DxfResult<u32>)', 'requires offset <= 1000,\n ensures (r is Ok) == (offset + 4 <= data@.len()), r is Ok ==> r->Ok_0 == r32(data@, offset as int),')
    f = s.fn('set_i32').expect_sig(r'fn set_i32\( ?data: &mut \[u8\], offset: usize, value: i32 ?\) -> DxfResult<\(\)>')
    f.insert_start('proof { assert(value as u8 == ((value as u32) & 0xff) as u8) by (bit_vector); assert((value >> 8) as u8 == (((value as u32) >> 8) & 0xff) as u8) by (bit_vector); assert((value >> 16) as u8 == (((value as u32) >> 16) & 0xff) as u8) by (bit_vector); assert((value >> 24) as u8 == (((value as u32) >> 24) & 0xff) as u8) by (bit_vector); }')
    m.fn(f, '#[verifier::truncate]\nfn set_i32(data: &mut Vec<u8>, offset: usize, value: i32) -> (r: DxfResult<()>)', 'requires offset <= 1000,\n ensures (r is Ok) == (offset + 4 <= old(data)@.len()), r is Ok ==> final(data)@ =~= w32(old(data)@, offset as int, value as u32), final(data)@.len() == old(data)@.len(),')
    f = s.fn('read_thumbnail_bytes_from_code_pairs').expect_sig(r'fn read_thumbnail_bytes_from_code_pairs\( ?iter: &mut CodePairPutBack ?\) -> DxfResult<Option<Vec<u8>>>')
    f.rewrite(r'Some\(Ok\(pair @ CodePair \{ code: (\d+), \.\. \}\)\) =>', r'Some(Ok(pair)) if pair.code == \1 =>', 'binding pattern written as a guard')
    f.merge_guards()
    f.rewrite(r'for b in line_data \{', 'for _i in 0..line_data.len() { let b = line_data[_i];', 'for over a Vec -> index loop')
    f.annotate_loops([(r'loop', None, '''invariant_except_break t_bytes(_s1) is Some ==> t_bytes(stream(*iter)) is Some && ({ let (w, q) = t_bytes(stream(*iter))->Some_0; q == t_bytes(_s1)->Some_0.1 && data@ + w == no_header() + t_bytes(_s1)->Some_0.0 }),
        invariant stream(*iter).len() <= _s1.len(), data@.len() >= 14, _s0 == stream(*old(iter)), _s0.len() > 0, _s0[0] is Some, _s0[0]->Some_0.code == 90, g_i32(_s0[0]->Some_0) is Some, _s1 == _s0.skip(1),
        ensures t_bytes(_s1) is Some ==> data@ == no_header() + t_bytes(_s1)->Some_0.0 && stream(*iter) == t_bytes(_s1)->Some_0.1, data@.len() >= 14, stream(*iter).len() <= _s1.len(),
        decreases stream(*iter).len(),''',
                       'let ghost _t = stream(*iter); let ghost _d = data@; proof { assert(_d + Seq::<u8>::empty() =~= _d); if _t.len() > 0 { assert(seq![_t[0]] + _t.skip(1) =~= _t); } }\n', ''),
                      (r'for _i in 0\.\.line_data\.len\(\)', None, 'invariant data@ == _d + line_data@.take(_i as int), data@.len() >= 14,', 'proof { assert((_d + line_data@.take(_i as int)).push(line_data@[_i as int]) =~= _d + line_data@.take(_i + 1)); }', ''),
                      ])
    f.rewrite(r'(for _i in 0\.\.line_data)', r'proof { assert(_d + line_data@.take(0) =~= _d); assert(line_data@.take(line_data@.len() as int) =~= line_data@); assert forall|w: Seq<u8>| #[trigger] (_d + (line_data@ + w)) =~= (_d + line_data@) + w by {} } \1', 'ghost step', 1)
    f.rewrite(r'(\n\s*)(loop\b)', r'\1let ghost _s1 = stream(*iter); proof { assert(data@ =~= no_header()); assert forall|w: Seq<u8>| #[trigger] (data@ + w) =~= no_header() + w by {} }\1\2', 'ghost step', 1)
    f.rewrite(r'None => return Ok\(None\)', 'None => { proof { assert(stream(*iter) =~= _s0); } return Ok(None) }', 'ghost step')
    f.rewrite(r'None => break', 'None => { proof { assert(stream(*iter) =~= _t); } break }', 'ghost step')
    f.insert_start('let ghost _s0 = stream(*iter); proof { if _s0.len() > 0 { assert(seq![_s0[0]] + _s0.skip(1) =~= _s0); } }')
    m.fn(f, '#[verifier::truncate]\nfn read_thumbnail_bytes_from_code_pairs(iter: &mut CodePairPutBack) -> (r: DxfResult<Option<Vec<u8>>>)', '''ensures
        ({ let x = t_section(stream(*old(iter))); x is Some && x->Some_0.0.len() < 0x7fff_ffff ==> r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0@ == x->Some_0.0 && stream(*final(iter)) == x->Some_0.1 }),
        t_stop(stream(*old(iter))) ==> r is Ok && r->Ok_0 is None && stream(*final(iter)) == stream(*old(iter)),
        stream(*final(iter)).len() <= stream(*old(iter)).len(),''')
    f = s.fn('update_thumbnail_data_offset_in_situ').expect_sig(r'fn update_thumbnail_data_offset_in_situ\( ?data: &mut \[u8\] ?\) -> DxfResult<bool>')
    f.rewrite(r'\bread_u32\(\s*data,', 'read_u32(&*data,', 'reborrow spelled out')
    f.rewrite(r'(\w+)\.saturating_mul\(', r'x_sat_mul(\1, ', 'saturating_mul -> assumed contract')
    f.rewrite(r'\b(\w+)\s*\.saturating_add\(([\w:]+)\)\s*\.saturating_add\(([\w:]+)\)', r'x_sat_add(x_sat_add(\1, \2), \3)', 'saturating_add -> assumed contract')
    m.fn(f, '#[verifier::truncate]\nfn update_thumbnail_data_offset_in_situ(data: &mut Vec<u8>) -> (r: DxfResult<bool>)', '''ensures
        old(data)@.len() >= 50 && r32(old(data)@, 14) >= 36 ==> r is Ok && r->Ok_0 && (offset_of(old(data)@) < 0x7fff_ffff ==> final(data)@ == w32(old(data)@, 10, offset_of(old(data)@) as u32)),
        old(data)@.len() >= 18 && r32(old(data)@, 14) < 36 ==> r is Ok && !r->Ok_0,
        final(data)@.len() == old(data)@.len(),''')
    f = s.fn('read_thumbnail').expect_sig(r'fn read_thumbnail\( ?iter: &mut CodePairPutBack ?\) -> DxfResult<Option<image::DynamicImage>>')
    g = s.fn('read_thumbnail_from_bytes').expect_sig(r'fn read_thumbnail_from_bytes\( ?data: &\[u8\] ?\) -> DxfResult<Option<image::DynamicImage>>')
    g.rewrite(r'image::load_from_memory\(data\)', 'x_decode(data)', 'image::load_from_memory -> assumed contract', 1)
    m.fn(g, 'fn read_thumbnail_from_bytes(data: &Vec<u8>) -> (r: DxfResult<Option<XImage>>)', 'ensures (r is Ok) == (decoded(data@) is Some), r is Ok ==> r->Ok_0 == decoded(data@),')
    m.fn(f, 'fn read_thumbnail(iter: &mut CodePairPutBack) -> (r: DxfResult<Option<XImage>>)', '''ensures
        ({ let x = t_section(stream(*old(iter))); x is Some && ({ let d = x->Some_0.0; 50 <= d.len() < 0x7fff_ffff && r32(d, 14) >= 36 && offset_of(d) < 0x7fff_ffff }) ==>
            stream(*final(iter)) == x->Some_0.1 && ({ let d = w32(x->Some_0.0, 10, offset_of(x->Some_0.0) as u32); (r is Ok) == (decoded(d) is Some) && (r is Ok ==> r->Ok_0 == decoded(d)) }) }),
        stream(*final(iter)).len() <= stream(*old(iter)).len(),''')
    # writer
    d = Source(repo + '/src/drawing.rs')
    h = Source(repo + '/src/header.rs')
    m.raw('pub struct Header { pub version: AcadVersion }\npub struct Drawing { pub header: Header, pub thumbnail: Option<XImage> }\n')
    m.log.append('Drawing, Header: projected on header.version and thumbnail')
    f = versioned(d.fn('Drawing::add_thumbnail_pairs').expect_sig(r'fn add_thumbnail_pairs\( ?&self, pairs: &mut Vec<CodePair> ?\) -> DxfResult<\(\)>'))
    f.rewrite(r'let mut data = vec!\[\];', 'let mut data: Vec<u8> = vec![];', 'type annotation')
    f.rewrite(r'img\.write_to\(\s*&mut Cursor::new\(&mut data\),\s*image::ImageFormat::Bmp\s*\)', 'x_write_bmp(img, &mut data)', 'DynamicImage::write_to(BMP) -> assumed contract', 1)
    f.rewrite(r'for s in data\[(\d+)\.\.\]\.chunks\((\d+)\) \{', r'let _c = x_chunks(&data, \1, \2); for _i in 0.._c.len() { let s = &_c[_i];', 'slice::chunks -> assumed contract, index loop', 1)
    f.rewrite(r'\bs\.to_vec\(\)', 'x_vec_clone(s)', 'to_vec -> assumed contract', 1)
    f.annotate_loops([(r'for _i in 0\.\._c\.len\(\)', None, 'invariant data@ == bmp(*img), joined(_c@) == data@.skip(14), bmp_ok(data@), self.thumbnail == Some(*img), vord(self.header.version) >= vord(AcadVersion::R2000), pvs(pairs@) == pvs(old(pairs)@) + seq![p_str(0, "SECTION"@), p_str(2, "THUMBNAILIMAGE"@), p_i32(90, (data@.len() - 14) as i32)] + bin_pairs(_c@.take(_i as int)),',
                       'let ghost _p = pairs@; proof { assert(bin_pairs(_c@.take(_i + 1)) =~= bin_pairs(_c@.take(_i as int)).push(p_bin(310, _c@[_i as int]@))); }',
                       'proof { lemma_pvs_push(_p, pairs@.last()); assert(pairs@ =~= _p.push(pairs@.last())); assert(pvs(pairs@) =~= pvs(old(pairs)@) + seq![p_str(0, "SECTION"@), p_str(2, "THUMBNAILIMAGE"@), p_i32(90, (data@.len() - 14) as i32)] + bin_pairs(_c@.take(_i + 1))); }')])
    f.rewrite(r'(for _i in 0)', r'proof { assert(_c@.take(0) =~= seq![]); assert(_c@.take(_c@.len() as int) =~= _c@); assert(pvs(pairs@) =~= pvs(old(pairs)@) + seq![p_str(0, "SECTION"@), p_str(2, "THUMBNAILIMAGE"@), p_i32(90, (data@.len() - 14) as i32)] + bin_pairs(_c@.take(0))); } \1', 'ghost step', 1)
    f.rewrite(r'(pairs\.push\(CodePair::new_str\(0, "ENDSEC"\)\);)', r'\1 proof { assert(pvs(pairs@) =~= pvs(old(pairs)@) + thumb_pairs(data@, _c@)); assert(wrote(pvs(old(pairs)@), pvs(pairs@), data@, _c@)); }', 'ghost step')
    f.insert_start('proof { assert forall|s: Seq<CodePair>, p: CodePair| #[trigger] pvs(s.push(p)) == pvs(s).push(pv(p)) by { lemma_pvs_push(s, p); } }')
    m.raw('pub open spec fn wrote(a: Seq<SP>, b: Seq<SP>, d: Seq<u8>, c: Seq<Vec<u8>>) -> bool { b == a + thumb_pairs(d, c) && joined(c) == d.skip(14) && bmp_ok(d) }\n')
    m.fn(f, '#[verifier::truncate]\npub fn add_thumbnail_pairs(&self, pairs: &mut Vec<CodePair>) -> (r: DxfResult<()>)', '''ensures
        vord(self.header.version) < vord(AcadVersion::R2000) || self.thumbnail is None ==> r is Ok && final(pairs)@ == old(pairs)@,
        r is Ok && vord(self.header.version) >= vord(AcadVersion::R2000) && self.thumbnail is Some ==> exists|c: Seq<Vec<u8>>| #[trigger] wrote(pvs(old(pairs)@), pvs(final(pairs)@), bmp(self.thumbnail->Some_0), c),''', 'Drawing')
    m.raw('''
// THEOREM C23: the pairs written for a thumbnail, without the two that announce the section and followed by anything, give the library exactly the bytes it produced; the pair that ends the section is left
fn c23_round_trip(d: &Drawing, iter: &mut CodePairPutBack, Ghost(c): Ghost<Seq<Vec<u8>>>, Ghost(a): Ghost<Seq<SP>>, Ghost(b): Ghost<Seq<SP>>, Ghost(after): Ghost<Seq<Option<SP>>>) -> (r: DxfResult<Option<XImage>>)
    requires d.thumbnail is Some, wrote(a, b, bmp(d.thumbnail->Some_0), c), stream(*old(iter)) == ok_all(thumb_pairs(bmp(d.thumbnail->Some_0), c)).skip(2) + after,
    ensures (r is Ok) == (decoded(bmp(d.thumbnail->Some_0)) is Some), r is Ok ==> r->Ok_0 == decoded(bmp(d.thumbnail->Some_0)), stream(*final(iter)) == seq![Some(p_str(0, "ENDSEC"@))] + after,
{
    proof {
        let e = bmp(d.thumbnail->Some_0);
        let q = seq![Some(p_str(0, "ENDSEC"@))] + after;
        let s = ok_all(thumb_pairs(e, c)).skip(2) + after;
        assert(q[0] == Some(p_str(0, "ENDSEC"@)));
        assert(thumb_pairs(e, c)[2] == p_i32(90, (e.len() - 14) as i32));
        assert(s[0] == Some(p_i32(90, (e.len() - 14) as i32)));
        assert(s.skip(1) =~= ok_all(bin_pairs(c)) + q);
        lemma_chunks(c, q);
        lemma_rebuilt(e);
        assert(offset_of(with_length(e.skip(14))) == offset_of(e));
    }
    let r = read_thumbnail(iter);
    /*CANARY*/
    r
}
''')
    return m.done()
