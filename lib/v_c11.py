"""Enumerations: the number of every value, the value of every number, the default for numbers without a value"""
import glob
import json
import os
import re
from pieces import Module, Source, LostAnchor, item_text, generated_dir
from rustx import find_open, match_close

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs', 'enums.json')


def macro_body(src, name):
    """template of a one-rule macro_rules! definition: (parameters, text)"""
    m = re.search(r'macro_rules! %s \{' % name, src)
    if not m:
        raise LostAnchor('macro ' + name)
    o = src.index('{', m.start())
    t = src[o + 1:match_close(src, o) - 1]
    p = t.index('(')
    pe = match_close(t, p)
    params = re.findall(r'\$(\w+)\s*:\s*\w+', t[p:pe])
    b = find_open(t, pe)
    be = match_close(t, b) - 1
    rest = t[be + 1:].strip(' ;\n\t}')
    if rest:
        raise LostAnchor('macro %s has several rules' % name)
    return params, t[b + 1:be]


def build(repo, spec):
    m = Module(repo, spec)
    table = json.load(open(TABLE))
    es = Source(repo + '/src/enums.rs')
    hf = Source(repo + '/src/helper_functions.rs')
    params, body = macro_body(hf.src, 'enum_from_number')
    if len(params) != 4:
        raise LostAnchor('parameters of enum_from_number!')
    sites = {}
    for f in sorted(glob.glob(repo + '/src/*.rs')) + sorted(glob.glob(generated_dir() + '/*.rs')):
        for e, d, fn in re.findall(r'enum_from_number!\(\s*(\w+),\s*(\w+),\s*(\w+),', open(f).read()):
            sites.setdefault((e, d), set()).add(fn)
    m.log.append('enum_from_primitive! (crate enum_primitive) expanded as its definition does: an if-chain over the variants in order; from_i16/from_i32 of num_traits convert losslessly and call from_i64')
    m.log.append('enum_from_number!: its own template from helper_functions.rs, expanded for every (enumeration, default) that occurs in src/ and the generated code')
    for e, info in table.items():
        t = item_text(es, 'enum', e)
        names = [x.split('=')[0].strip() for x in t[t.index('{') + 1:t.rindex('}')].split(',') if x.strip()]
        m.raw('#[allow(non_camel_case_types)]\n#[derive(Clone, Copy)]\n' + t)
        m.raw('pub open spec fn num_%s(e: %s) -> int { match e { %s } }\n' % (e, e, ' '.join('%s::%s => %dint,' % (e, a, b) for a, b in info['values'].items())))
        m.raw('pub fn %s_number(e: %s) -> (r: i64)\n    ensures r == num_%s(e),\n{ e as i64 }\n' % (e, e, e))
        chain = ''.join('if n == %s::%s as i64 { Some(%s::%s) } else ' % (e, v, e, v) for v in names) + '{ None }'
        m.raw('impl %s {\npub fn from_i64(n: i64) -> (r: Option<%s>)\n    ensures r is Some ==> num_%s(r->Some_0) == n, %s\n{ %s }\n' % (
            e, e, e, ' '.join('n == %d ==> r == Some(%s::%s),' % (b, e, a) for a, b in info['values'].items()), chain))
        for w in ('i16', 'i32'):
            m.raw('pub fn from_%s(n: %s) -> (r: Option<%s>)\n    ensures r is Some ==> num_%s(r->Some_0) == n, %s\n{ %s::from_i64(n as i64) }\n' % (
                w, w, e, e, ' '.join('n == %d ==> r == Some(%s::%s),' % (b, e, a) for a, b in info['values'].items()), e))
        m.raw('}\n')
        m.raw('pub proof fn injective_%s(a: %s, b: %s) requires num_%s(a) == num_%s(b), ensures a == b, { }\n' % (e, e, e, e, e))
        for (se, d), fns in sorted(sites.items()):
            if se != e:
                continue
            if d not in info['defaults']:
                raise LostAnchor('default %s of %s is not in the table' % (d, e))
            for fn in sorted(fns - {'from_f64'}):
                w = fn.replace('from_', '')
                tx = body
                for p, a in zip(params, (e, d, fn, 'n')):
                    tx = re.sub(r'\$%s\b' % p, a, tx)
                m.raw('pub fn site_%s_%s_%s(n: %s) -> (r: %s)\n    ensures num_%s(r) == n || (r == %s::%s && forall|e: %s| num_%s(e) != n),\n{ proof { assert forall|e: %s| num_%s(e) == n implies (%s) by { } }\n %s }\n' % (
                    e, d, fn, w, e, e, e, d, e, e, e, e, ' || '.join('n == %d' % b for b in info['values'].values()), tx))
    m.fns += ['enums.rs::%s (discriminants, enum_from_primitive!)' % e for e in table] + ['helper_functions.rs::enum_from_number!']
    m.raw('''
// THEOREM: value -> number -> value is the identity and number -> value -> number too, over the whole range
fn round_trip(e: AttachmentPoint, n: i64) {
    let a = AttachmentPoint_number(e);
    let b = AttachmentPoint::from_i64(a);
    assert(b == Some(e));
    if let Some(v) = AttachmentPoint::from_i64(n) { let k = AttachmentPoint_number(v); assert(k == n); }
    /*CANARY*/
}
''')
    return m.done()
