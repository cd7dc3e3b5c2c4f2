"""Every call of a CodePair constructor in the record writers meets the precondition `the value has the type of the code`.

The constructors and ExpectedType::new are proved from their source.  Of each calling function the extraction keeps the calls of the
constructors with their code argument; the value argument is replaced by an arbitrary value of its type (the precondition does not
mention it), everything else is dropped.  A code argument that is neither a literal, a constant, nor a local `if` between literals is
reported as not decided here.
"""
import glob
import os
import re
from pieces import Module, Source, types, code_pair, generated_dir
from rustx import match_close
from binio import expected

ARG = {'str': 'x_any_str()', 'string': 'x_any_str()', 'binary': 'x_any_bytes()', 'i16': 'x_any_i16()', 'f64': 'x_any_f64()', 'i64': 'x_any_i64()', 'i32': 'x_any_i32()', 'bool': 'x_any_bool()'}


def consts(repo):
    out = {}
    for p in glob.glob(repo + '/src/*.rs'):
        for m in re.finditer(r'^\s*(?:pub(?:\([^)]*\))? )?const (\w+): i32 = (\d+);', open(p).read(), re.M):
            out[m.group(1)] = m.group(2)
    return out


def sites(path, cs):
    """(enclosing function, constructor, code expression, line, decided) of every constructor call outside tests"""
    s = open(path).read()
    i = re.search(r'#\[cfg\(test\)\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?mod \w+', s)
    t = s if not i else s[:i.start()]
    fns = [(m.start(), m.group(1)) for m in re.finditer(r'\bfn (\w+)', t)]
    for m in re.finditer(r'CodePair::new_(\w+)\(', t):
        e = match_close(t, m.end() - 1)
        args = t[m.end():e - 1]
        d, k = 0, 0
        for k, c in enumerate(args):
            if c in '([{':
                d += 1
            elif c in ')]}':
                d -= 1
            elif c == ',' and d == 0:
                break
        code = ' '.join(args[:k].split())
        fn = next((n for a, n in reversed(fns) if a < m.start()), '?')
        start = next((a for a, n in reversed(fns) if a < m.start()), 0)
        names = re.findall(r'[A-Za-z_]\w*', code)
        ok = m.group(1) in ARG
        if ok and not re.fullmatch(r'[\w\s+]+', code):
            ok = False
        elif ok and any(n not in cs for n in names):
            b = None
            if len(names) == 1:
                for b in re.finditer(r'let %s = if [^{};]* \{\s*(\d+)\s*\} else \{\s*(\d+)\s*\};' % re.escape(names[0]), t[start:m.start()]):
                    pass
            if b:
                code = re.sub(r'\b%s\b' % names[0], '(if x_any_bool() { %si32 } else { %si32 })' % b.groups(), code)
            else:
                ok = False
        yield fn, m.group(1), code, t.count('\n', 0, m.start()) + 1, ok


def build(repo, spec):
    m = Module(repo, spec)
    e = types(repo)
    m.raw(e[0][:e[0].index('pub struct CodePairPutBack')])
    t = spec('pairs.rs')
    m.raw(t[:t.index('// ---- the source behind')] + t[t.index('#[verifier::external_body]\npub fn x_eq'):])
    b = spec('bin.rs')
    m.raw(b[b.index('pub ghost enum Kind'):b.index('pub proof fn lemma_enc_empty')])
    m.raw(b[b.index('// what can stand in a file'):b.index('pub open spec fn short')])
    m.add(code_pair(repo))
    expected(m, repo)
    m.raw('''
pub uninterp spec fn anything() -> bool;
#[verifier::external_body] pub fn x_any_str() -> (r: &'static str) { unimplemented!() }
#[verifier::external_body] pub fn x_any_bytes() -> (r: Vec<u8>) { unimplemented!() }
#[verifier::external_body] pub fn x_any_i16() -> (r: i16) { unimplemented!() }
#[verifier::external_body] pub fn x_any_f64() -> (r: f64) { unimplemented!() }
#[verifier::external_body] pub fn x_any_i64() -> (r: i64) { unimplemented!() }
#[verifier::external_body] pub fn x_any_i32() -> (r: i32) { unimplemented!() }
#[verifier::external_body] pub fn x_any_bool() -> (r: bool) { unimplemented!() }
// the precondition every record writer has to meet
pub fn push_pair(p: CodePair) requires writable(pv(p)), { }
// THEOREM: the reader gives a written pair the type it was written with
fn same_type(p: &CodePair) requires writable(pv(*p)) { let t = ExpectedType::new(p.code); assert(t is Some && kindv(t->Some_0) == kind_of(vv(p.value))); /*CANARY*/ }
''')
    cs = consts(repo)
    for n in sorted(cs):
        m.raw('pub const %s: i32 = %s;\n' % (n, cs[n]))
    total = undecided = 0
    for path in sorted(glob.glob(repo + '/src/*.rs')) + sorted(glob.glob(generated_dir() + '/*.rs')):
        base = os.path.basename(path)
        gen = 'generated_' if 'generated' in path.split(os.sep)[-2] else ''
        per = {}
        for fn, ctor, code, line, ok in sites(path, cs):
            if base == 'code_pair_writer.rs':
                continue        # the code of an existing pair; proved in C03
            total += 1
            if not ok:
                undecided += 1
                m.log.append('not decided here: %s:%d CodePair::new_%s(%s, ..)' % (base, line, ctor, code))
                continue
            per.setdefault(fn, []).append((ctor, code, line))
        for k, (fn, l) in enumerate(per.items()):
            seen, body = set(), []
            for ctor, code, line in l:
                if (ctor, code) in seen:
                    continue
                seen.add((ctor, code))
                body.append('    push_pair(CodePair::new_%s(%s, %s)); // %s:%d' % (ctor, code, ARG[ctor], base, line))
            for j in range(0, len(body), 60):
                m.raw('fn sites_%s%s_%s_%d_%d() {\n%s\n}\n' % (gen, base[:-3], fn, k, j, '\n'.join(body[j:j + 60])))
            m.fns.append('%s%s::%s (constructor calls)' % (gen, base, fn))
    m.log.append('constructor calls: %d, of which %d not decided here' % (total, undecided))
    return m.done()
