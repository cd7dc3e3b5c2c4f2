"""TransformationMatrix values both ways, as_bool/as_i16, durations, dates (to the second), UUID text, combine_points_2/3"""
import re
from pieces import Module, Source, LostAnchor, item_text

MS = ['m%d%d' % (i, j) for i in range(1, 5) for j in range(1, 5)]


def arith(f):
    """the double operations of the date functions, each one the correctly rounded IEEE operation (assumed contract)"""
    f.rewrite(r'\b([\d_]+)(?:\.0|f64)\b', lambda m: 'x_lit(%s)' % m.group(1).strip('_'), 'double literal -> assumed contract (an integer below 2^53 is exact)')
    f.rewrite(r'\((\w+) as f64\)|\b(secs_per_day|[\w.]+\(\)) as f64\b', lambda m: 'x_of_int(%s)' % (m.group(1) or m.group(2)), 'integer as f64 -> assumed contract (exact below 2^53)')
    f.insert_start('broadcast use group_f;')
    return f


def pushes(q):
    xs = [x.strip() for x in q.group(1).split(',') if x.strip()]
    return '{ let mut _v = Vec::new(); %s _v }' % ' '.join('_v.push(%s);' % x for x in xs)


def lits(f):
    f.rewrite(r'(?<![\w.])0\.0\b', 'x_f0()', 'literal 0.0 -> named constant')
    f.rewrite(r'(?<![\w.])1\.0\b', 'x_f1()', 'literal 1.0 -> named constant')


def build(repo, spec):
    m = Module(repo, spec)
    t = Source(repo + '/src/transformation_matrix.rs')
    h = Source(repo + '/src/helper_functions.rs')
    m.s('c25.rs')
    st = item_text(t, 'struct', 'TransformationMatrix')
    raw = open(repo + '/src/transformation_matrix.rs').read()
    if not re.search(r'#\[derive\([^)]*Default[^)]*\)\]\s*(#\[[^\n]*\n\s*)*pub struct TransformationMatrix', raw):
        raise LostAnchor('TransformationMatrix does not derive Default')
    if not re.fullmatch(r'\s*pub struct TransformationMatrix \{(\s*pub m\d\d: f64,)*\s*\}\s*', st):
        raise LostAnchor('struct TransformationMatrix')
    m.raw('#[derive(Clone, Copy)]\n' + st.replace('f64', 'F'))
    m.log.append('matrix cells: f64 -> F, a copyable type of which nothing is known (cells are only moved)')
    m.raw('#[verifier::external_body]\npub fn x_default_matrix() -> (r: TransformationMatrix) ensures %s { unimplemented!() }\n' % ', '.join('r.%s == f0()' % x for x in MS))
    def is_seq(v, xs):
        return '%s.len() == %d && ' % (v, len(xs)) + ' && '.join('%s[%d] == %s' % (v, i, x) for i, x in enumerate(xs))
    m.raw('pub open spec fn cells(m: TransformationMatrix, s: Seq<F>) -> bool { %s }\n' % is_seq('s', ['m.' + x for x in MS]))
    m.raw('pub open spec fn row_major(m: TransformationMatrix, s: Seq<F>) -> bool { %s }\n' % is_seq('s', ['m.m%d%d' % (i, j) for j in range(1, 5) for i in range(1, 4)]))
    T = 'TransformationMatrix'
    f = t.fn(T + '::value_or_default').expect_sig(r'fn value_or_default\(values: &\[f64\], index: usize\) -> f64')
    lits(f)
    m.fn(f, 'fn value_or_default(values: &[F], index: usize) -> (r: F)', 'ensures r == at(values@, index as int),', T)
    f = t.fn(T + '::from_vec').expect_sig(r'fn from_vec\(values: &\[f64\]\) -> Self')
    m.fn(f, 'pub fn from_vec(values: &[F]) -> (r: Self)', 'ensures %s' % ', '.join('r.%s == at(values@, %d)' % (x, i) for i, x in enumerate(MS)) + ',', T)
    for n, sp in (('values', 'cells(*self, r@)'), ('values_row_major_4x3', 'row_major(*self, r@)')):
        f = t.fn(T + '::' + n).expect_sig(r'fn %s\(&self\) -> Vec<f64>' % n)
        f.rewrite(r'vec!\[([^\[\]]*)\]', pushes, 'vec! -> pushes in order')
        m.fn(f, 'pub fn %s(&self) -> (r: Vec<F>)' % n, 'ensures %s,' % sp, T)
    f = t.fn(T + '::identity').expect_sig(r'fn identity\(\) -> Self')
    lits(f)
    f.rewrite(r'\.\.Default::default\(\)', '..x_default_matrix()', 'derived Default of the matrix: all cells 0.0')
    m.fn(f, 'pub fn identity() -> (r: Self)', 'ensures %s,' % ', '.join('r.%s == %s' % (x, 'f1()' if x[1] == x[2] else 'f0()') for x in MS), T)
    m.fn(h.fn('as_bool').expect_sig(r'fn as_bool\(v: i16\) -> bool'), 'pub fn as_bool(v: i16) -> (r: bool)', 'ensures v == 0 ==> !r, v == 1 ==> r,')
    m.fn(h.fn('as_i16').expect_sig(r'fn as_i16\(b: bool\) -> i16'), 'pub fn as_i16(b: bool) -> (r: i16)', 'ensures r == (if b { 1i16 } else { 0i16 }),')
    f = h.fn('duration_as_double').expect_sig(r'fn duration_as_double\(duration: StdDuration\) -> f64')
    f.rewrite(r'duration\.as_secs\(\) as f64', 'x_u64_f64(duration.as_secs())', 'u64 as f64 -> assumed contract (exact below 2^53)')
    f.insert_start('broadcast use group_f;')
    m.fn(f, 'pub fn duration_as_double(duration: StdDuration) -> (r: F)', 'ensures duration.s < 0x20_0000_0000_0000 ==> mark(duration.s as int) && is_n(rr(r), duration.s as int),')
    f = h.fn('as_duration').expect_sig(r'fn as_duration\(d: f64\) -> StdDuration')
    f.rewrite(r'\bd as u64\b', 'x_f64_u64(d)', 'f64 as u64 -> assumed contract (exact for whole numbers)')
    m.fn(f, 'pub fn as_duration(d: F) -> (r: StdDuration)', 'ensures forall|n: int| 0 <= n < 0x20_0000_0000_0000 && #[trigger] mark(n) && is_n(rr(d), n) ==> r.s == n,')
    # dates
    f = h.fn('epoch').expect_sig(r'fn epoch<T>\(timezone: &T\) -> DateTime<T> where T: TimeZone,?')
    f.rewrite(r'timezone\.with_ymd_and_hms\(([\d, ]+)\)\.unwrap\(\)', r'x_ymd(timezone, \1)', 'TimeZone::with_ymd_and_hms(..).unwrap() -> assumed contract (the instant of the date)')
    m.fn(f, 'fn epoch<T>(timezone: &T) -> (r: DateTime)', 'ensures r.s == ymd(1900, 1, 1, 0, 0, 0),')
    f = arith(h.fn('as_double').expect_sig(r'fn as_double<T>\(timezone: &T, date: DateTime<T>\) -> f64 where T: TimeZone,?'))
    m.fn(f, '#[verifier::spinoff_prover]\nfn as_double<T>(timezone: &T, date: DateTime) -> (r: F)', '''ensures in_range(date.s - ymd(1900, 1, 1, 0, 0, 0)) ==> near(rr(r), date.s - ymd(1900, 1, 1, 0, 0, 0)),''')
    f = arith(h.fn('f64_to_adjusted_duration').expect_sig(r'fn f64_to_adjusted_duration\(f: f64\) -> ChronoDuration'))
    f.rewrite(r'ChronoDuration::try_seconds\((\w+) as i64\)\.unwrap_or_default\(\)', r'x_try_seconds(x_f64_i64(\1))', 'try_seconds(..).unwrap_or_default() -> assumed contract')
    m.fn(f, '#[verifier::spinoff_prover]\nfn f64_to_adjusted_duration(f: F) -> (r: ChronoDuration)', 'ensures forall|n: int| in_range(n) && #[trigger] near(rr(f), n) ==> r.s == n,')
    f = h.fn('as_datetime').expect_sig(r'fn as_datetime<T>\(timezone: &T, date: f64\) -> DateTime<T> where T: TimeZone,?')
    f.rewrite(r'date == 0\.0', 'x_is_zero(date)', 'comparison with 0.0 -> assumed contract')
    f.rewrite(r'match ChronoDuration::seconds\(0\)\.cmp\(&duration\) \{\s*Ordering::Less => duration,\s*_ => ChronoDuration::seconds\(0\),\s*\}', 'if x_positive(&duration) { duration } else { ChronoDuration::seconds(0) }', 'match on Ordering::Less -> if')
    f.rewrite(r'epoch\.clone\(\)\.checked_add_signed\(duration\)\.unwrap_or\(epoch\)', 'x_add_or(epoch, duration)', 'checked_add_signed(..).unwrap_or(..) -> assumed contract')
    m.fn(f, 'fn as_datetime<T>(timezone: &T, date: F) -> (r: DateTime)', '''ensures
    forall|n: int| in_range(n) && #[trigger] near(rr(date), n) ==> r.s == ymd(1900, 1, 1, 0, 0, 0) + n,
    r.s >= ymd(1900, 1, 1, 0, 0, 0),''')
    for z in ('local', 'utc'):
        Z = z.capitalize()
        f = h.fn('as_datetime_' + z).expect_sig(r'fn as_datetime_%s\(date: f64\) -> DateTime<%s>' % (z, Z))
        m.fn(f, 'pub fn as_datetime_%s(date: F) -> (r: DateTime)' % z, 'ensures forall|n: int| in_range(n) && #[trigger] near(rr(date), n) ==> r.s == ymd(1900, 1, 1, 0, 0, 0) + n,')
        f = h.fn('as_double_' + z).expect_sig(r'fn as_double_%s\(date: DateTime<%s>\) -> f64' % (z, Z))
        m.fn(f, 'pub fn as_double_%s(date: DateTime) -> (r: F)' % z, 'ensures in_range(date.s - ymd(1900, 1, 1, 0, 0, 0)) ==> near(rr(r), date.s - ymd(1900, 1, 1, 0, 0, 0)),')
    m.raw('''
// THEOREM: a matrix is rebuilt from its sixteen values, cell by cell
fn matrix_round_trip(a: TransformationMatrix) {
    let v = a.values();
    let b = TransformationMatrix::from_vec(v.as_slice());
    assert(b == a);
    /*CANARY*/
}
// THEOREM: every boolean survives its 16-bit form
fn bool_round_trip(b: bool) {
    let c = as_bool(as_i16(b));
    assert(c == b);
    /*CANARY*/
}
// THEOREM: whole seconds below 2^53 survive
fn duration_round_trip(d: StdDuration) requires d.s < 0x20_0000_0000_0000 {
    let e = as_duration(duration_as_double(d));
    assert(e.s == d.s);
    /*CANARY*/
}
// THEOREM: every date from 1900 for over 9000 years survives to the second, in both time zones
fn date_round_trip(d: DateTime) requires in_range(d.s - ymd(1900, 1, 1, 0, 0, 0)) {
    let a = as_datetime_local(as_double_local(d));
    let b = as_datetime_utc(as_double_utc(d));
    assert(a.s == d.s);
    assert(b.s == d.s);
    /*CANARY*/
}
''')
    return m.done()

