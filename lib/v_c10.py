"""Flag accessors, generated and hand-written: each reads and changes its own bit of its own word and no other"""
import json
import os
import re
from pieces import Module, Source, LostAnchor, generated_dir

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs', 'flags.json')


def bits(w):
    """bit-vector facts about one mask: what `|= m` and `&= !m` do to the word `_o`"""
    return ('pub proof fn lemma_bits_{0}(o: {0}, m: {0}) requires m != 0, ensures (o | m) & m == m, (o | m) & m != 0, (o | m) & !m == o & !m, (o & !m) & m == 0, (o & !m) & !m == o & !m, '
            '{{ assert((o | m) & m == m) by (bit_vector); assert((o | m) & !m == o & !m) by (bit_vector); assert((o & !m) & m == 0) by (bit_vector); assert((o & !m) & !m == o & !m) by (bit_vector); }}\n').format(w)


def build(repo, spec):
    m = Module(repo, spec)
    table = json.load(open(TABLE))
    m.raw(''.join(bits(w) for w in ('i16', 'i32')))
    g = generated_dir()
    per = {}
    for k, e in table.items():
        ty, name = k.split('.')
        per.setdefault(ty, []).append((name, e))
    gen = [Source('%s/%s.rs' % (g, n)) for n in ('entities', 'objects', 'header')]
    for ty, acc in per.items():
        e0 = acc[0][1]
        if e0['src'] == 'generated':
            srcs = gen
        else:
            srcs = [Source('%s/src/%s.rs' % (repo, e0['src']))]
        s = None
        for c in srcs:
            try:
                st = re.sub(r'#\[[^\]]*\]\s*', '', c.item('struct', ty))
                s = c
                break
            except LostAnchor:
                continue
        if s is None:
            raise LostAnchor('struct %s' % ty)
        fields = {}
        for name, e in acc:
            fm = re.search(r'\b%s\s*:\s*(i16|i32)\b' % e['field'], st)
            if not fm:
                raise LostAnchor('%s.%s is not an integer field' % (ty, e['field']))
            fields[e['field']] = fm.group(1)
        copy = bool(re.search(r'derive\([^)]*\bCopy\b[^)]*\)[^;{}]*struct %s\b' % ty, s.src))
        m.raw('%spub struct %s { %s, pub other_: u64 }\n' % ('#[derive(Clone, Copy)] ' if copy else '', ty, ', '.join('pub %s: %s' % x for x in sorted(fields.items()))))
        by = '&self'
        if e0['src'] != 'generated':
            by = 'self' if copy else '&self'
            f, w = acc[0][1]['field'], fields[acc[0][1]['field']]
            fl = s.fn('%s::flag' % ty).expect_sig(r'fn flag\(%s, mask: %s\) -> bool' % (by, w))
            m.fn(fl, 'pub fn flag(%s, mask: %s) -> (r: bool)' % (by, w), 'ensures r == (self.%s & mask != 0),' % f, ty)
            sf = s.fn('%s::set_flag' % ty).expect_sig(r'fn set_flag\(&mut self, mask: %s, val: bool\)' % w)
            sf.insert_start('proof { lemma_bits_%s(self.%s, mask); }' % (w, f))
            m.fn(sf, 'pub fn set_flag(&mut self, mask: %s, val: bool)' % w,
                 'requires mask != 0, ensures final(self).{0} & mask == (if val {{ mask }} else {{ 0 }}), final(self).{0} & !mask == old(self).{0} & !mask, final(self).other_ == old(self).other_,'.format(f), ty)
        for name, e in acc:
            f, k = e['field'], e['mask']
            w = fields[f]
            fg = s.fn('%s::%s' % (ty, name)).expect_sig(r'fn %s\(%s\) -> bool' % (name, re.escape(by)))
            fs = s.fn('%s::set_%s' % (ty, name)).expect_sig(r'fn set_%s\(&mut self, val: bool\)' % name)
            m.fn(fg, 'pub fn %s(%s) -> (r: bool)' % (name, by), 'ensures r == (self.%s & (%d as %s) != 0),' % (f, k, w), ty)
            fs.insert_start('proof { lemma_bits_%s(self.%s, %d as %s); }' % (w, f, k, w))
            fr = ', '.join('final(self).%s == old(self).%s' % (x, x) for x in list(sorted(fields)) + ['other_'] if x != f)
            m.fn(fs, 'pub fn set_%s(&mut self, val: bool)' % name,
                 'ensures (final(self).{0} & ({1} as {2}) != 0) == val, final(self).{0} & !({1} as {2}) == old(self).{0} & !({1} as {2}), {3},'.format(f, k, w, fr), ty)
        if ty == 'ViewMode':
            fr = s.fn('ViewMode::from_i16').expect_sig(r'fn from_i16\(val: i16\) -> Self')
            fr.rewrite(r'i32::from\((\w+)\)', r'(\1 as i32)', 'lossless i32::from(i16) -> as')
            fr.rewrite(r'(flags: [^,}]*),?\s*\}', r'\1, other_: 0 }', 'the placeholder for the remaining fields')
            m.fn(fr, 'pub fn from_i16(val: i16) -> (r: ViewMode)', 'ensures r.flags == val,', ty)
            m.fn(s.fn('ViewMode::raw').expect_sig(r'fn raw\(self\) -> i32'), 'pub fn raw(self) -> (r: i32)', 'ensures r == self.flags,', ty)
    for ty, acc in per.items():
        for i, (n, e) in enumerate(acc):
            for n2, e2 in acc[:i]:
                if e['field'] == e2['field'] and e['mask'] & e2['mask']:
                    raise LostAnchor('table: %s.%s and %s share a bit' % (ty, n, n2))
    m.raw(THEOREM)
    return m.done()


THEOREM = '''
// THEOREM: an accessor's write is read back and a flag with another bit keeps its value (from the contracts above, for any two masks without a common bit)
pub proof fn lemma_disjoint_i16(p: i16, q: i16, m: i16, n: i16) requires m & n == 0, p & !m == q & !m, ensures p & n == q & n,
{ assert(m & n == 0 && p & !m == q & !m ==> p & n == q & n) by (bit_vector); }
pub proof fn lemma_disjoint_i32(p: i32, q: i32, m: i32, n: i32) requires m & n == 0, p & !m == q & !m, ensures p & n == q & n,
{ assert(m & n == 0 && p & !m == q & !m ==> p & n == q & n) by (bit_vector); }
fn canary_flags(v: &mut LwPolyline, b: bool) {
    let c0 = v.is_closed();
    let ghost f0 = v.flags;
    v.set_is_pline_gen(b);
    proof { assert((128i32 & 1i32) == 0) by (bit_vector); lemma_disjoint_i32(v.flags, f0, 128, 1); }
    let c1 = v.is_closed();
    let g = v.is_pline_gen();
    assert(c0 == c1 && g == b);
    /*CANARY*/
}
'''
