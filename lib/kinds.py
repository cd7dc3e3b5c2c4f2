"""Record kinds: views of the structs, and contracts of their hand-written readers from a table of group codes.

The tables (one line per group code) are written by hand; this module turns a table into a specification of one step of the
reader, and puts the reader of /repo under the contract that it is the fold of those steps."""
import re
from pieces import item_text, generated_dir, versioned
from rustx import Source, LostAnchor, norm, match_close, literal_end
from fold import fold
from v_c20 import HEAD

SCALAR = {'f64', 'i16', 'i32', 'i64', 'u8', 'u32', 'bool', 'usize'}
NEXT_PAIR = '($expr : expr) => { match $expr.next() { Some(Ok(pair @ CodePair { code: 0, .. })) => { $expr.put_back(Ok(pair)); return Ok(true); } Some(Ok(pair)) => pair, Some(Err(e)) => return Err(e), None => return Ok(true), } };'
ENUM_FROM = '($enum: ident, $default: ident, $fn: ident, $expr: expr) => { match $enum::$fn($expr) { Some(v) => v, None => $enum::$default, } };'
VEC_LAST = '($expr : expr) => { match $expr.len() { 0 => return Err(DxfError::UnexpectedEmptySet), l => &mut $expr[l - 1], } };'


def macro(src, name):
    m = re.search(r'macro_rules! %s\s*\{' % name, src.src)
    if not m:
        raise LostAnchor('macro ' + name)
    e = match_close(src.src, m.end() - 1)
    return norm(src.src[m.end():e - 1])


def ws(s):
    return re.sub(r'\s+', '', s)


# ps, read from x on, leaves the record as y
ADV = """
#[verifier::opaque]
pub open spec fn %(w)s_adv(x: K_%(w)s, ps: Seq<SP>, y: K_%(w)s) -> bool { forall|s: St| %(w)s_fold(x, #[trigger] (ok_all(ps) + s)) == %(w)s_fold(y, s) }
// the pairs written so far (b) are those there were at the start (a) and pairs that take the record from x to y
#[verifier::opaque]
pub open spec fn %(w)s_st(x: K_%(w)s, a: Seq<CodePair>, b: Seq<CodePair>, y: K_%(w)s) -> bool { b.len() >= a.len() && pvs(b).take(a.len() as int) == pvs(a) && %(w)s_adv(x, pvs(b).skip(a.len() as int), y) }
pub proof fn lemma_%(w)s_st0(x: K_%(w)s, a: Seq<CodePair>) ensures %(w)s_st(x, a, a, x), { reveal(%(w)s_st); reveal(%(w)s_adv); assert(pvs(a).take(a.len() as int) =~= pvs(a)); assert(pvs(a).skip(a.len() as int) =~= seq![]); assert forall|s: St| %(w)s_fold(x, #[trigger] (ok_all(seq![]) + s)) == %(w)s_fold(x, s) by { assert(ok_all(seq![]) + s =~= s); } }
pub proof fn lemma_%(w)s_grow(x: K_%(w)s, a: Seq<CodePair>, b: Seq<CodePair>, y: K_%(w)s, e: CodePair)
    requires %(w)s_st(x, a, b, y), %(w)s_one(pv(e)), %(w)s_step(y, pv(e), seq![]) is Some,
    ensures %(w)s_st(x, a, b.push(e), %(w)s_step(y, pv(e), seq![])->Some_0.0),
{
    hide(%(w)s_step); hide(%(w)s_fold); reveal(%(w)s_adv); reveal(%(w)s_st);
    let p = pv(e); let z = %(w)s_step(y, p, seq![])->Some_0.0; let ps = pvs(b).skip(a.len() as int);
    lemma_pvs_push(b, e); assert(pvs(b.push(e)).skip(a.len() as int) =~= ps.push(p)); assert(pvs(b.push(e)).take(a.len() as int) =~= pvs(b).take(a.len() as int));
    assert forall|s: St| %(w)s_fold(x, #[trigger] (ok_all(ps.push(p)) + s)) == %(w)s_fold(z, s) by {
        let t = seq![Some(p)] + s;
        lemma_ok_push(ps, p, s); assert(t.skip(1) =~= s); assert(t[0] == Some(p)); lemma_%(w)s_unfold(y, t); LEMMA_ONE(y, p, s);
    }
}
"""


class Kinds:
    def __init__(self, m, repo, files, common, com_table):
        self.m, self.repo, self.common = m, repo, common
        self.srcs = [Source(f) for f in files]
        self.done_types = set()
        self.views = {}     # struct -> {field: type}
        h = Source(repo + '/src/helper_functions.rs')
        for n, t in (('next_pair', NEXT_PAIR), ('enum_from_number', ENUM_FROM), ('vec_last', VEC_LAST)):
            if ws(macro(h, n)) != ws(t):
                raise LostAnchor('macro %s has changed' % n)
        self.enums = open(repo + '/src/enums.rs').read()
        self.hints = {}
        self.codes, self.roots, self.kind = {}, {}, {}
        self.default = {}
        m.raw("pub ghost struct P3 { pub x: f64, pub y: f64, pub z: f64 }\n")
        for f, t in (('point', 'Point'), ('vector', 'Vector')):
            s = Source('%s/src/%s.rs' % (repo, f))
            m.raw(item_text(s, 'struct', t))
            m.raw('pub open spec fn v_%s(p: %s) -> P3 { P3 { x: p.x, y: p.y, z: p.z } }\n' % (t, t))
            m.fn(s.fn(t + '::new').expect_sig(r'fn new\( ?x: f64, y: f64, z: f64 ?\) -> (Self|%s)' % t), 'pub fn new(x: f64, y: f64, z: f64) -> (r: %s)' % t, 'ensures r.x == x, r.y == y, r.z == z,', t)
        for n in ('origin',):
            s = Source(repo + '/src/point.rs')
            m.fn(s.fn('Point::' + n).expect_sig(r'fn origin\(\) -> (Self|Point)'), 'pub fn origin() -> (r: Point)', 'ensures v_Point(r) == (P3 { x: 0.0f64, y: 0.0f64, z: 0.0f64 }),', 'Point')
        s = Source(repo + '/src/vector.rs')
        for n, v in (('zero', (0, 0, 0)), ('x_axis', (1, 0, 0)), ('y_axis', (0, 1, 0)), ('z_axis', (0, 0, 1))):
            if re.search(r'fn %s\(' % n, s.src):
                m.fn(s.fn('Vector::' + n).expect_sig(r'fn %s\(\) -> (Self|Vector)' % n), 'pub fn %s() -> (r: Vector)' % n, 'ensures v_Vector(r) == (P3 { x: %d.0f64, y: %d.0f64, z: %d.0f64 }),' % v, 'Vector')
        c = Source(repo + '/src/color.rs')
        m.raw(item_text(c, 'struct', 'Color').replace('raw_value', 'pub raw_value'))
        m.fn(c.fn('Color::from_raw_value').expect_sig(r'fn from_raw_value\(val: i16\) -> Color'), 'pub fn from_raw_value(val: i16) -> (r: Color)', 'ensures r.raw_value == val,', 'Color')
        m.fn(c.fn('Color::raw_value').expect_sig(r'fn raw_value\(&self\) -> i16'), 'pub fn raw_value(&self) -> (r: i16)', 'ensures r == self.raw_value,', 'Color')
        m.raw("""
#[verifier::external_body]
pub struct ExtensionGroup { x: () }
#[verifier::external_body]
pub struct XData { x: () }
// extension groups and extended data: how they are read and written is C18
pub uninterp spec fn gz_take(n: Seq<char>, s: St) -> Option<(ExtensionGroup, St)>;
pub uninterp spec fn xz_take(n: Seq<char>, s: St) -> Option<(XData, St)>;
impl ExtensionGroup {
#[verifier::external_body]
pub fn read_group(application_name: String, iter: &mut CodePairPutBack, offset: usize) -> (r: DxfResult<ExtensionGroup>)
    ensures ({ let x = gz_take(application_name@, stream(*old(iter))); x is Some ==> r is Ok && (r->Ok_0, stream(*final(iter))) == x->Some_0 }), stream(*final(iter)).len() <= stream(*old(iter)).len(),
{ unimplemented!() }
}
impl XData {
#[verifier::external_body]
pub fn read_item(application_name: String, iter: &mut CodePairPutBack) -> (r: DxfResult<XData>)
    ensures ({ let x = xz_take(application_name@, stream(*old(iter))); x is Some ==> r is Ok && (r->Ok_0, stream(*final(iter))) == x->Some_0 }), stream(*final(iter)).len() <= stream(*old(iter)).len(),
{ unimplemented!() }
}
pub uninterp spec fn f64_to_i32(x: f64) -> i32;
#[verifier::external_body]
pub fn x_f64_i32(x: f64) -> (r: i32) ensures r == f64_to_i32(x), { x as i32 }
pub uninterp spec fn usize_to_f64(x: int) -> f64;
#[verifier::external_body]
pub fn x_usize_f64(x: usize) -> (r: f64) ensures r == usize_to_f64(x as int), { x as f64 }
pub open spec fn g_h(p: SP) -> Option<u64> { match g_str(p) { Some(t) => if all_hex(t) && t.len() <= 16 { Some(be(hexs(t)) as u64) } else { None }, None => None } }
#[verifier::external_body]
pub fn x_lit(a: &str) -> (r: String) ensures r@ == a@, { String::from(a) }
// comparison of doubles: feq is the equality of IEEE 754 (0.0 and -0.0 are equal, NaN differs from itself)
pub uninterp spec fn feq(a: f64, b: f64) -> bool;
pub open spec fn fsame(a: f64, b: f64) -> bool { a == b || feq(b, a) }
pub open spec fn psame(a: P3, b: P3) -> bool { a == b || (feq(b.x, a.x) && feq(b.y, a.y) && feq(b.z, a.z)) }
#[verifier::external_body]
pub fn x_fne(a: f64, b: f64) -> (r: bool) ensures r == !feq(a, b), { a != b }
#[verifier::external_body]
pub fn x_vne(a: &Vector, b: &Vector) -> (r: bool) ensures r == !(feq(a.x, b.x) && feq(a.y, b.y) && feq(a.z, b.z)), { unimplemented!() }
pub proof fn lemma_ok_push(a: Seq<SP>, p: SP, s: St) ensures ok_all(a.push(p)) + s == ok_all(a) + (seq![Some(p)] + s), { assert(ok_all(a.push(p)) + s =~= ok_all(a) + (seq![Some(p)] + s)); }
""")
        m.log.append('ExtensionGroup::read_group, XData::read_item: assumed contracts here (proved over the real code in C18); floating-point comparison and conversion: assumed, over uninterpreted functions')
        self.common_reader(common, com_table)

    def common_reader(self, common, table):
        """the fields common to all records: the generated reader, under contract"""
        m = self.m
        self.struct(common)
        T = 'match g_str(p) { None => None, Some(n) => match %s(n, s) { None => None, Some((g, s2)) => Some((K_com { r: V_' + common + ' { %s: x.r.%s.push(g), ..x.r } }, s2)) } }'
        self.step('com', common, table.replace('GROUPS', T % ('gz_take', 'extension_data_groups', 'extension_data_groups')).replace('XDATA', T % ('xz_take', 'x_data', 'x_data')), default='skip', common=False)
        m.raw("""
pub type SCom = V_%(C)s;
pub open spec fn v_com(c: %(C)s) -> SCom { v_%(C)s(c) }
#[verifier::opaque]
pub open spec fn com_pair(c: SCom, p: SP, s: St) -> Option<(SCom, St)> { match com_step(K_com { r: c }, p, s) { None => None, Some((x, s2)) => Some((x.r, s2)) } }
pub proof fn lemma_com_one(c: SCom, p: SP, s: St) requires com_one(p), ensures com_pair(c, p, s) == (match com_pair(c, p, seq![]) { None => None, Some((d, _)) => Some((d, s)) }), { reveal(com_pair); lemma_com_one2(K_com { r: c }, p, s); }
""" % dict(C=common))
        for n in sorted(set(self.codes['com'].values()), key=int) + ['_other']:
            q = ' || '.join('p.code == %d' % c for c, v in self.codes['com'].items() if v == n) or ' && '.join('p.code != %d' % c for c in self.codes['com'])
            m.raw('pub proof fn lemma_comp%s(c: SCom, p: SP, s: St) requires %s, ensures com_pair(c, p, s) == (match com_%s(K_com { r: c }, p, s) { None => None, Some((x, s2)) => Some((x.r, s2)) }), { reveal(com_pair); }\n' % (n, q, 'other' if n == '_other' else 'c' + n))
        gen = self.srcs[0]
        f = gen.fn(common + '::apply_individual_pair').expect_sig(r'fn apply_individual_pair\( ?&mut self, pair: &CodePair, iter: &mut CodePairPutBack ?\) -> DxfResult<\(\)>')
        self.macros(f)
        self.consts(f)
        f.insert_start('proof { reveal(com_pair); %s }' % self.hint(common))
        m.fn(f, 'pub fn apply_individual_pair(&mut self, pair: &CodePair, iter: &mut CodePairPutBack) -> (r: DxfResult<()>)', """
    ensures ({ let x = com_pair(v_com(*old(self)), pv(*pair), stream(*old(iter))); x is Some ==> r is Ok && (v_com(*final(self)), stream(*final(iter))) == x->Some_0 }), stream(*final(iter)).len() <= stream(*old(iter)).len(),""", common)

    def consts(self, f):
        for file, c in (('extension_data', 'EXTENSION_DATA_GROUP'), ('x_data', 'XDATA_APPLICATIONNAME')):
            val = re.search(r'const %s: i32 = (\d+);' % c, Source('%s/src/%s.rs' % (self.repo, file)).src).group(1)
            f.rewrite(r'%s::%s\b' % (file, c), val, 'constant by its value')

    # ---- types and views ----
    def is_enum(self, t):
        return re.search(r'pub enum %s\b' % t, self.enums) is not None

    def vt(self, t):
        """the ghost type of a field type"""
        if t in SCALAR:
            return t
        if t == 'String':
            return 'Seq<char>'
        if t in ('Point', 'Vector'):
            return 'P3'
        if t == 'Handle':
            return 'u64'
        if t == 'Color':
            return 'i16'
        m = re.fullmatch(r'Vec<(.*)>', t)
        if m:
            return 'Seq<%s>' % self.vt(m.group(1))
        if self.is_enum(t):
            self.enum(t)
            return t
        if t in self.views:
            return 'V_' + t
        if self.known_struct(t):
            self.struct(t)
            return 'V_' + t
        self.opaque(t)
        return t

    def ident(self, t):
        return re.sub(r'\W+', '_', t).strip('_')

    def ve(self, e, t):
        """the view of expression e of type t"""
        if t in SCALAR or self.is_enum(t):
            return e
        if t == 'String':
            return e + '@'
        if t in ('Point', 'Vector'):
            return 'v_%s(%s)' % (t, e)
        if t == 'Handle':
            return e + '.0'
        if t == 'Color':
            return e + '.raw_value'
        m = re.fullmatch(r'Vec<(.*)>', t)
        if m:
            i = m.group(1)
            self.vt(i)
            if i in SCALAR or self.is_enum(i) or i in self.done_types:
                return e + '@'
            self.seq(i)
            return 's_%s(%s@)' % (self.ident(i), e)
        if t in self.views:
            return 'v_%s(%s)' % (t, e)
        return e

    def seq(self, t):
        key = 'seq ' + t
        if key in self.done_types:
            return
        self.done_types.add(key)
        w, n = self.vt(t), self.ident(t)
        self.m.raw('pub open spec fn s_{n}(s: Seq<{t}>) -> Seq<{w}> {{ s.map_values(|e: {t}| {v}) }}\n'
                   'pub proof fn lemma_s_{n}(s: Seq<{t}>, e: {t}) ensures s_{n}(s.push(e)) == s_{n}(s).push({v}), forall|i: int| 0 <= i < s.len() ==> s_{n}(#[trigger] s.update(i, e)) == s_{n}(s).update(i, {v}) {{ assert(s_{n}(s.push(e)) =~= s_{n}(s).push({v})); assert forall|i: int| 0 <= i < s.len() implies s_{n}(#[trigger] s.update(i, e)) == s_{n}(s).update(i, {v}) by {{ assert(s_{n}(s.update(i, e)) =~= s_{n}(s).update(i, {v})); }} }}\n'.format(n=n, t=t, w=w, v=self.ve('e', t)))
        self.hints[t] = ('assert forall|s: Seq<{t}>, e: {t}| #[trigger] s_{n}(s.push(e)) == s_{n}(s).push({v}) by {{ lemma_s_{n}(s, e); }} assert forall|s: Seq<{t}>, i: int, e: {t}| 0 <= i < s.len() implies #[trigger] s_{n}(s.update(i, e)) == s_{n}(s).update(i, {v}) by {{ lemma_s_{n}(s, e); }}'.format(n=n, t=t, v=self.ve('e', t)))

    def hint(self, T):
        """lemmas about the lists in a struct"""
        out, seen = [], set()

        def go(t):
            m = re.fullmatch(r'Vec<(.*)>', t)
            if m:
                t = m.group(1)
                if t in self.hints:
                    out.append(self.hints[t])
            if t in self.views and t not in seen:
                seen.add(t)
                for x in self.views[t].values():
                    go(x)
        go(T)
        return ' '.join(dict.fromkeys(out))

    def opaque(self, t):
        if t in self.done_types:
            return
        if t in ('ExtensionGroup', 'XData'):
            self.done_types.add(t)
            return
        if not re.fullmatch(r'\w+', t):
            raise LostAnchor('type ' + t)
        self.done_types.add(t)
        self.m.raw('#[verifier::external_body]\npub struct %s { x: () }\n' % t)
        self.m.log.append('%s: opaque' % t)

    def enum(self, t):
        if t in self.done_types:
            return
        self.done_types.add(t)
        e = item_text(Source(self.repo + '/src/enums.rs'), 'enum', t)
        self.m.raw('#[allow(non_camel_case_types)]\n#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n' + e)
        for i in ('i16', 'i32'):
            self.m.raw('pub uninterp spec fn %s_of_%s(n: %s) -> Option<%s>;\npub open spec fn %s_or_%s(n: %s, d: %s) -> %s { match %s_of_%s(n) { Some(v) => v, None => d } }\nimpl %s {\n#[verifier::external_body]\npub fn from_%s(n: %s) -> (r: Option<%s>) ensures r == %s_of_%s(n), { unimplemented!() }\n}\n#[verifier::external_body]\npub proof fn axiom_%s_%s(e: %s) ensures %s_of_%s(e as %s) == Some(e), { }\n' % (t, i, i, t, t, i, i, t, t, t, i, t, i, i, t, t, i, t, i, t, t, i, i))
        self.m.log.append('%s::from_i16/from_i32: derived by a macro of the enum-primitive crate; assumed a function of the number that gives back the value a number was taken from (C13 executes them)' % t)

    def known_struct(self, t):
        return any(re.search(r'pub struct %s\b' % t, s.src) for s in self.srcs)

    def struct(self, t):
        if t in self.views:
            return
        src = [s for s in self.srcs if re.search(r'pub struct %s\b' % t, s.src)]
        if not src:
            raise LostAnchor('struct ' + t)
        text = item_text(src[0], 'struct', t)
        text = re.sub(r'pub\(crate\)', 'pub', text)
        text = re.sub(r'(?m)^(\s*)(\w+\s*:)', r'\1pub \2', text)
        fields = dict(re.findall(r'pub (?:r#)?(\w+)\s*:\s*([^,\n]+?)\s*,', text))
        self.views[t] = fields
        vts = {f: self.vt(ty) for f, ty in fields.items()}
        for ty in fields.values():
            self.ve('x', ty)
        self.m.raw(text)
        self.m.raw('pub ghost struct V_%s { %s }\n' % (t, ', '.join('pub %s: %s' % x for x in vts.items())))
        self.m.raw('pub open spec fn v_%s(x: %s) -> V_%s { V_%s { %s } }\n' % (t, t, t, t, ', '.join('%s: %s' % (f, self.ve('x.' + f, ty)) for f, ty in fields.items())))

    # ---- tables ----
    GET = {'f64': ('g_f64(p)', 'v'), 'str': ('g_str(p)', 'v'), 'i16': ('g_i16(p)', 'v'), 'i32': ('g_i32(p)', 'v'), 'i64': ('g_i64(p)', 'v'), 'bool': ('g_i16(p)', '(v == 1)'), 'int': ('g_i16(p)', '(v as i32)'),
           'h': ('g_h(p)', 'v'), 'color': ('g_i16(p)', 'v'), 'xrec': ('g_str(p)', '(v == "AcDbXrecord"@)'), 'nbool': ('g_i16(p)', '(v != 1)'), 'flag': ('g_bool(p)', 'v'), 'bin': ('g_bin(p)', 'v'), 'intf': ('g_f64(p)', 'f64_to_i32(v)'), 'short32': ('g_i32(p)', '(v as i16)')}

    def upd(self, base, btype, path, val):
        """base with the field at the path replaced"""
        f = path[0]
        if btype == 'P3':
            return 'P3 { %s: %s, ..%s }' % (f, val, base)
        if f == 'last':
            el = re.fullmatch(r'Vec<(.*)>', btype).group(1)
            return '%s.update(%s.len() - 1, %s)' % (base, base, self.upd('%s.last()' % base, el, path[1:], val) if path[1:] else val)
        if btype in ('Point', 'Vector'):
            return 'P3 { %s: %s, ..%s }' % (f, val, base)
        ft = self.views[btype][f]
        v = val if len(path) == 1 else self.upd('%s.%s' % (base, f), ft, path[1:], val)
        return 'V_%s { %s: %s, ..%s }' % (btype, f, v, base)

    def put(self, K, path, val):
        if path.startswith('@'):
            return '%s { %s: %s, ..x }' % (K['K'], path[1:], val)
        return '%s { r: %s, ..x }' % (K['K'], self.upd('x.r', K['T'], path.split('.'), val))

    def lasts(self, path):
        """lists that must not be empty"""
        ps = path.split('.')
        return ['x.r.' + '.'.join(ps[:i]).replace('.last', '.last()') for i, q in enumerate(ps) if q == 'last']

    def rule(self, K, r, rest):
        r = r.strip()
        if r == 'skip':
            return rest
        if r == 'err':
            return 'None'
        if r == 'common':
            return 'match com_pair(x.c, p, s) { None => None, Some((c2, s2)) => Some((%s { c: c2, ..x }, s2)) }' % K['K']
        a = r.split(None, 1)
        if a[0] == 'set':
            path, e = a[1].split(None, 1)
            guard = ' && '.join('%s.len() > 0' % q for q in self.lasts(path))
            t = '{ let x = %s; %s }' % (self.put(K, path, e), rest)
            return 'if %s %s else { None }' % (guard, t) if guard else t
        if a[0] == 'spec':
            return a[1]
        kind = a[0]
        push = kind.startswith('+')
        kind = kind.lstrip('+')
        if kind.startswith('enum'):
            e, path = a[1].split()
            en, d = e.split('.')
            self.enum(en)
            n = 'i32' if kind == 'enum32' else 'i16'
            g, v = 'g_%s(p)' % n, '%s_or_%s(v, %s::%s)' % (en, n, en, d)
        else:
            g, v = self.GET[kind]
            path = a[1].strip()
        if push:
            sp = 'x.' + path[1:] if path.startswith('@') else 'x.r.' + path.replace('.last', '.last()')
            v = '%s.push(%s)' % (sp, v)
        guard = ' && '.join('%s.len() > 0' % q for q in self.lasts(path))
        t = '{ let x = %s; %s }' % (self.put(K, path, v), rest)
        if guard:
            t = '{ if %s %s else { None } }' % (guard, t)
        return 'match %s { None => None, Some(v) => %s }' % (g, t)

    def rules(self, K, text):
        """`a ; b` in order, `[c] a | [d] b | e` by condition"""
        alts = [x.strip() for x in re.split(r'\s\|\s', ' ' + text + ' ')]
        out = ''
        for alt in alts:
            m = re.match(r'\[(.*?)\]\s+(.*)$', alt, re.S)
            body = m.group(2) if m else alt
            t = 'Some((x, s))'
            for r in reversed(re.split(r'\s;\s', body)):
                t = self.rule(K, r, t)
            out += ('if %s { %s } else ' % (m.group(1), t)) if m else '{ %s }' % t
        if not alts or re.match(r'\[', alts[-1]):
            raise ValueError('last alternative needs no condition: ' + text)
        return out

    def step(self, w, T, table, locals_=(), default='common', common=True):
        K = {'K': 'K_' + w, 'T': T}
        self.default[w] = default
        self.struct(T)
        self.m.raw('pub ghost struct K_%s { pub r: V_%s%s%s }\n' % (w, T, ', pub c: SCom' if common else '', ''.join(', pub %s: %s' % (a, b) for a, b, _ in locals_)))
        arms, cs, codes, roots = '', '', {}, {}
        S = '(x: K_%s, p: SP, s: St) -> Option<(K_%s, St)>' % (w, w)
        for line in table.strip().split('\n'):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            code, r = line.split(None, 1)
            n = re.match(r'\d+', code).group(0)
            cond = ' || '.join('p.code == ' + c if '-' not in c else '%s <= p.code <= %s' % tuple(c.split('-')) for c in code.split(','))
            rt = self.root(r)
            for c in code.split(','):
                lo, hi = (c.split('-') * 2)[:2]
                for v in range(int(lo), int(hi) + 1):
                    codes[v] = n
                    roots[v] = rt
            cs += 'pub open spec fn %s_c%s%s { %s }\npub proof fn lemma_%s_at%s(x: K_%s, p: SP, s: St) requires %s, ensures %s_step(x, p, s) == %s_c%s(x, p, s), { hide(com_pair); }\n' % (w, n, S, self.rules(K, r), w, n, w, cond, w, w, n)
            arms += 'if %s { %s_c%s(x, p, s) }\n    else ' % (cond, w, n)
        self.codes[w] = codes
        self.roots[w], self.kind[w] = roots, T
        cs += 'pub open spec fn %s_other%s { %s }\npub proof fn lemma_%s_at_other(x: K_%s, p: SP, s: St) requires %s, ensures %s_step(x, p, s) == %s_other(x, p, s), { }\n' % (w, S, self.rule(K, default, 'Some((x, s))'), w, w, ' && '.join('p.code != %d' % c for c in codes) or 'true', w, w)
        arms += '{ %s_other(x, p, s) }' % w
        self.m.raw(cs.replace('{ hide(com_pair); }', '{ }'))
        self.m.raw('pub open spec fn %s_one(p: SP) -> bool { p.code != 0 && %s }\npub open spec fn %s_step(x: K_%s, p: SP, s: St) -> Option<(K_%s, St)> {\n    %s\n}\n' % (w, self.ones(table), w, w, w, arms))
        self.m.raw(fold(w, 'K_' + w, end='Some((x, s))', one='lemma_com_one(x.c, p, s);' if common else '', name_one='lemma_com_one2' if w == 'com' else None))
        self.m.raw((ADV % dict(w=w)).replace('LEMMA_ONE', 'lemma_com_one2' if w == 'com' else 'lemma_%s_one' % w))

    def root(self, text):
        """the fields that a rule may change: r.<field>, a local, or c (the common fields); None: any"""
        out = set()
        for alt in re.split(r'\s\|\s', ' ' + text + ' '):
            alt = re.sub(r'^\s*\[.*?\]\s+', '', alt.strip())
            for r in re.split(r'\s;\s', alt):
                a = r.split()
                if a[0] in ('skip', 'err'):
                    continue
                if a[0] == 'common':
                    out.add('c')
                    continue
                if a[0] == 'spec':
                    return None
                q = a[1] if a[0] == 'set' else a[-1]
                out.add(q[1:] if q.startswith('@') else 'r.' + q.split('.')[0])
        return out

    def segments(self, body):
        """the top-level statements of a block, consecutive pushes in groups: (kind, text)"""
        t = body.strip()
        t = t[1:-1]
        out, k = [], 0
        while True:
            k += re.match(r'\s*', t[k:]).end()
            if k >= len(t):
                break
            z = k
            kw = re.match(r'(if|for|while|match|loop)\b', t[k:])
            while z < len(t):
                x = literal_end(t, z)
                if x > z:
                    z = x
                    continue
                if kw and t[z] == '{':
                    z = match_close(t, z)
                    m = re.match(r'\s*else\b', t[z:])
                    if kw.group(1) == 'if' and m:
                        z += m.end()
                        continue
                    break
                if t[z] == ';':
                    z += 1
                    break
                z = match_close(t, z) if t[z] in '([{' else z + 1
            st = t[k:z].strip()
            k = z + (re.match(r'\s*;', t[z:]).end() if kw and re.match(r'\s*;', t[z:]) else 0)
            kind = kw.group(1) if kw else 'push' if st.startswith('pairs.push(') else 'let' if st.startswith('let ') else 'tail' if not st.endswith(';') else 'other'
            if kind == 'push' and out and out[-1][0] == 'push' and out[-1][1].count('pairs.push(') < 5:
                out[-1] = ('push', out[-1][1] + '\n' + st)
            else:
                out.append((kind, st))
        return out

    def touched(self, w, text):
        """fields of the record that the pairs written in a piece of code may set when they are read back"""
        cs = re.findall(r'pairs\.push\(\s*CodePair::new_\w+\(\s*(\d+)\s*,', text)
        if len(cs) != text.count('pairs.push('):
            return None
        rts = set()
        for c in cs:
            x = self.roots[w].get(int(c), {'c'} if self.default[w] == 'common' and int(c) in self.codes['com'] else set())
            if x is None:
                return None
            rts |= x
        return rts

    def ones(self, table):
        """codes that may take further pairs: 102 and 1001 (common), and those with a rule of their own"""
        cs = {'102', '1001'}
        for line in table.strip().split('\n'):
            line = line.strip()
            if line and not line.startswith('#'):
                code, r = line.split(None, 1)
                if ' spec ' in ' ' + r:
                    cs |= set(code.split(','))
                elif not re.search(r'\bcommon\b', r):
                    cs -= set(code.split(','))
        return ' && '.join('p.code != ' + c for c in sorted(cs, key=int)) or 'true'

    # ---- the hand-written readers ----
    def reader(self, w, src, owner, fn, var, T, locals_=(), fix=None, extra='', common='common', pre=''):
        """loop { let pair = next_pair!(iter); match pair.code { ... } }"""
        f = src.fn('%s::%s' % (owner, fn)).expect_sig(r'fn %s\( ?common: &mut %s, %s: &mut %s, iter: &mut CodePairPutBack,? ?\) -> DxfResult<bool>' % (fn, self.common, var, T))
        self.macros(f)
        f.rewrite(r'i32::from\((pair\.assert_i16\(\)\?)\)', r'(\1 as i32)', 'i32::from(i16) -> as')
        f.rewrite(r'(pair\.assert_f64\(\)\?) as i32', r'x_f64_i32(\1)', 'f64 as i32 -> assumed contract')
        if fix:
            fix(f)
        L = ''.join(', %s: %s' % (a, e) for a, _, e in locals_)
        st = 'K_%s { r: v_%s(*%s), c: v_com(*common)%s }' % (w, T, var, L)
        L0 = ''.join(', %s: %s' % (a, {'Seq<char>': 'Seq::<char>::empty()', 'bool': 'false', 'int': '0int', 'nat': '0nat'}[t]) for a, t, _ in locals_)
        st0 = 'K_%s { r: v_%s(*old(%s)), c: v_com(*old(common))%s }' % (w, T, var, L0)
        hid = self.arm_facts(f, w)
        f.rewrite(r'\A\{', '{ hide(%s_fold); %s' % (w, 'hide(%s_step);' % w if hid else ''), 'hide', 1)
        f.annotate_loops([(r'loop', None, """invariant _x0 == (%s), _s0 == stream(*old(iter)), stream(*iter).len() <= _s0.len(), %s_fold(_x0, _s0) is Some ==> %s_fold(%s, stream(*iter)) == %s_fold(_x0, _s0), %s
        decreases stream(*iter).len(),""" % (st0, w, w, st, w, extra), 'let ghost _t = stream(*iter); let ghost _x = %s; proof { lemma_%s_unfold(_x, _t); } ' % (st, w) + HEAD + 'proof { %s }' % self.hint(T), '')])
        f.rewrite(r'(\n\s*)(loop\n)', r'\1let ghost _x0 = %s; let ghost _s0 = stream(*iter); %s\1\2' % (st, pre), 'ghost copies', 1)
        self.m.fn(f, '#[verifier::truncate]\n#[verifier::rlimit(100)]\npub fn %s(common: &mut %s, %s: &mut %s, iter: &mut CodePairPutBack) -> (r: DxfResult<bool>)' % (fn, self.common, var, T), """
    ensures ({ let x = %s_fold(%s, stream(*old(iter))); x is Some ==> r == DxfResult::<bool>::Ok(true) && (v_%s(*final(%s)), v_com(*final(common)), stream(*final(iter))) == (x->Some_0.0.r, x->Some_0.0.c, x->Some_0.1) }),
        stream(*final(iter)).len() <= stream(*old(iter)).len(),""" % (w, st0, T, var))

    def arm_facts(self, f, w):
        """in each arm of `match pair.code`, what the specification says about that code"""
        ms = list(re.finditer(r'\bmatch pair\.code \{', f.body))
        if len(ms) != 1:
            return False
        o = f.body.index('{', ms[0].start())
        arms, e = f._arms(f.body, o)
        out = ''
        for pat, g, body in arms:
            if g or not re.fullmatch(r'\d+(\s*\|\s*\d+)*|_', pat):
                return False
            ns = ['_other'] if pat == '_' else sorted(set(self.codes[w].get(int(c), '_other') for c in re.split(r'\s*\|\s*', pat)))
            t = ' '.join('lemma_%s_at%s(_x, pv(pair), _t.skip(1));' % (w, n) if len(ns) == 1 else 'if %s { lemma_%s_at%s(_x, pv(pair), _t.skip(1)); }' % (' || '.join('pair.code == %d' % c for c, v in self.codes[w].items() if v == n) or 'false', w, n) for n in ns)
            body = body.strip().rstrip(',')
            out += '%s => { proof { %s } %s }\n' % (pat, t, body)
        f.body = f.body[:o] + '{\n' + out + '}' + f.body[e:]
        return True

    def macros(self, f):
        f.rewrite(r'next_pair!\((\w+)\)', r'match \1.next() { Some(Ok(pair)) => { if pair.code == 0 { \1.put_back(Ok(pair)); return Ok(true); } pair } Some(Err(e)) => return Err(e), None => return Ok(true), }', 'macro next_pair! expanded, its binding pattern written as an if')
        f.rewrite(r'enum_from_number!\(\s*(\w+),\s*(\w+),\s*(\w+),\s*((?:[^()]|\([^()]*\))*?),?\s*\)', r'(match \1::\3(\4) { Some(v) => v, None => \1::\2 })', 'macro enum_from_number! expanded')
        f.rewrite(r'vec_last!\(([\w.]+)\)', r'(match \1.len() { 0 => return Err(DxfError::UnexpectedEmptySet), l => &mut \1[l - 1] })', 'macro vec_last! expanded')
        f.rewrite(r'String::new\(\)', 'x_msg0()', 'String::new -> assumed contract')
        f.rewrite(r'(\b\w+) == (xrecord_text)\b', r'x_eq(&\1, \2)', 'String == &str -> assumed contract')
        return f

    # ---- writers ----
    def arm(self, src, enum, kind, fn='add_code_pairs'):
        """the arm of a generated `match *self` for one kind, as a function body"""
        f = src.fn('%s::%s' % (enum, fn))
        m = [x for x in re.finditer(r'%s::%s\(ref (?:mut )?ent\) => \{' % (enum, kind), f.body)]
        if len(m) != 1:
            raise LostAnchor('%s: arm %s' % (f.path, kind))
        e = match_close(f.body, m[0].end() - 1)
        f.body = f.body[m[0].end() - 1:e]
        f.path += '(%s)' % kind
        return f

    def at(self, w, E):
        """what the reader does with a pair of this code"""
        m = re.match(r'CodePair::new_\w+\(\s*(\d+)\s*,', E)
        if not m:
            return 'reveal(%s_step); reveal(com_pair);' % w
        c = int(m.group(1))
        t = 'lemma_%s_at%s(_y, pv(_e), seq![]);' % (w, self.codes[w].get(c, '_other'))
        if c not in self.codes[w] and self.default[w] == 'common':
            t += ' lemma_comp%s(_y.c, pv(_e), seq![]);' % self.codes['com'].get(c, '_other')
        return t

    def pushes(self, f, w):
        out, i = '', 0
        for m in list(re.finditer(r'\bpairs\.push\(', f.body)):
            e = match_close(f.body, m.end() - 1)
            if f.body[e] != ';' or m.start() < i:
                raise LostAnchor('%s: a push that is not a statement' % f.path)
            E = f.body[m.end():e - 1].strip().rstrip(',')
            out += f.body[i:m.start()] + 'let _e = %s; let ghost _b = pairs@; proof { %s lemma_%s_grow(_x0, _a, _b, _y, _e); _y = %s_step(_y, pv(_e), seq![])->Some_0.0; } pairs.push(_e);' % (E, self.at(w, E), w, w)
            i = e + 1
        f.body = out + f.body[i:]
        f.log.append('%s: ghost steps at each push' % f.path)

    def writes(self, f):
        """expressions of the writers that the verifier does not take"""
        versioned(f)
        f.rewrite(r'&String::from\(("[^"]*")\)', r'&x_lit(\1)', 'String::from(literal) -> assumed contract')
        f.rewrite(r'([\w.]+) != (\d+\.\d+)\b', r'x_fne(\1, \2)', 'comparison of doubles -> assumed contract')
        f.rewrite(r'([\w.]+) != (Vector::\w+\(\))', r'x_vne(&\1, &\2)', 'derived PartialEq of Vector -> assumed contract')
        f.rewrite(r'([\w.]+) != ("[^"]*")', r'!x_eq(&\1, \2)', 'String != &str -> assumed contract')
        f.rewrite(r'([\w.]+\.len\(\)) as f64', r'x_usize_f64(\1)', 'usize as f64 -> assumed contract')
        f.rewrite(r'!([\w.]+)\.is_empty\(\)', r'(\1.len() != 0)', 'Vec::is_empty -> its definition')
        f.rewrite(r'([\w.]+)\.is_empty\(\)', r'(\1.len() == 0)', 'Vec::is_empty -> its definition')

    def writer(self, w, f, sig, goal, req=(), loops=(), owner=None, opts='', hints='', ent='ent', T='', over=(), lets=None, args=None):
        """goal, req: lists of expressions over y (the record as read back), x (before) and v (what was written).
        Every top-level statement becomes a function of its own, with the fields it may touch as its frame and the conjuncts of the goal about them as its postcondition.
        over: (regex, fields, extra requires, extra ensures) for statements whose codes have several meanings; loops: (header regex, variable, list, invariant, body-start, body-end)"""
        for a, t in self.views.get(T, {}).items():
            if self.is_enum(t):
                hints += ' axiom_%s_i16(%s.%s); axiom_%s_i32(%s.%s);' % (t, ent, a, t, ent, a)
        self.writes(f)
        name, params = re.match(r'(\w+)\((.*)\)( -> .*)?$', sig, re.S).group(1, 2)
        ret = re.match(r'.*\)( -> .*)?$', sig, re.S).group(1) or ''
        names = args or ', '.join(re.findall(r'(\w+):', params))
        V = 'let v = v_%s(*%s); ' % (T, ent)
        I = '%s_st(_x0, _a, pairs@, _y), ' % w
        segs = self.segments(f.body)
        tail = segs.pop()[1] if segs and segs[-1][0] == 'tail' else ''
        main = []
        for n, (kind, text) in enumerate(segs):
            if kind == 'let':
                if not lets or not any(re.match(x, text) for x in lets):
                    raise LostAnchor('%s: %s' % (f.path, text[:60]))
                main.append(text)
                continue
            if 'pairs.push(' not in text:
                raise LostAnchor('%s: %s' % (f.path, text[:60]))
            rts, xr, xe = self.touched(w, text), '', ''
            for rx, fields, r_, e_ in over:
                if re.search(rx, text):
                    rts, xr, xe = ((rts or set()) - set(fields[1:]) if fields and fields[0] == '-' else set(fields)) if fields is not None else rts, xr + r_, xe + e_
            quiet = {x[1:] for x in rts or () if x.startswith('~')}     # in the frame, but nothing of the goal to prove
            rts = rts and {x.lstrip('~') for x in rts}
            if rts is None:
                raise LostAnchor('%s: a pair whose code is not a literal' % f.path)
            rf = sorted(x[2:] for x in rts if x.startswith('r.'))
            kf = sorted(x for x in rts if not x.startswith('r.'))
            parts = ['%s: _z@.%s' % (x, x) for x in kf]
            if rf:
                parts.insert(0, 'r: V_%s { %s, .._y0.r }' % (self.kind[w], ', '.join('%s: _z@.r.%s' % (x, x) for x in rf)))
            facts = []
            for g in goal:
                fs = re.findall(r'\by\.(r\.\w+|\w+)', g)
                if any(x in rts and x not in quiet for x in fs):
                    if not all(x in rts for x in fs):
                        raise ValueError('a conjunct over several fields: ' + g)
                    pre = ' && '.join('(%s)' % q for q in req if any(re.search(r'\bx\.%s\b' % re.escape(x), q) for x in fs))
                    facts.append('({ let x = _y0; let y = _z@; %s%s(%s) })' % (V, '(%s) ==> ' % pre if pre else '', g))
            q = type(f)(f.path, f.sig, '{ ' + text + ' }', f.file)
            self.pushes(q, w)
            q.annotate_loops([(h, 'for _i in 0..%s.len()' % vec, 'invariant %s%s' % (I, inv), 'let %s = &%s[_i]; %s' % (var, vec, a), b) for h, var, vec, inv, a, b in loops if re.search(h, text)])
            q.body = re.sub(r'\bfor _i in', 'let ghost _y1 = _y; for _i in', q.body)
            lp = ''.join(', %s' % x for x in (lets or {}).values())
            q.insert_start('hide(%s_step); let ghost mut _y = _y0; proof { %s %s }' % (w, self.hint(T), hints))
            q.body = q.body.rstrip()[:-1] + ' Ghost(_y) }'
            seg = '%s_%d' % (name, n)
            self.m.raw(q.text('#[verifier::truncate]\n%spub fn %s(%s%s, Ghost(_x0): Ghost<K_%s>, Ghost(_a): Ghost<Seq<CodePair>>, Ghost(_y0): Ghost<K_%s>) -> (_z: Ghost<K_%s>)' % (opts, seg, params, lp, w, w, w),
                              'requires %s_st(_x0, _a, old(pairs)@, _y0), %s\n    ensures %s_st(_x0, _a, final(pairs)@, _z@), _z@ == (K_%s { %s.._y0 }), %s' % (w, xr, w, w, ''.join(x + ', ' for x in parts), ''.join(x + ', ' for x in facts) + xe)))
            main.append('let Ghost(_y) = %s(%s%s, Ghost(_x0), Ghost(old(pairs)@), Ghost(_y));' % (seg, names, ''.join(', ' + re.match(r'\w+', x).group(0) for x in (lets or {}).values())))
        self.m.log.append('%s: each top-level statement is a function of its own (same text, a ghost step at each push, `for x in &v` as an index loop)' % f.path)
        f.body = '{ let ghost _y = _x0; proof { lemma_%s_st0(_x0, pairs@); } %s %s }' % (w, '\n'.join(main), tail)
        self.m.fn(f, '#[verifier::truncate]\n%spub fn %s(%s, Ghost(_x0): Ghost<K_%s>)%s' % (opts, name, params, w, ret), """requires ({ let x = _x0; %s }),
    ensures exists|y: K_%s| #[trigger] %s_st(_x0, old(pairs)@, final(pairs)@, y) && ({ let x = _x0; %s%s }),""" % (' && '.join('(%s)' % q for q in req) or 'true', w, w, V, ' && '.join('(%s)' % q for q in goal)), owner)
