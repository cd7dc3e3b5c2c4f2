"""AcadVersion: names, order"""
import re
from pieces import Module, Source, LostAnchor, types, versions

ORDER = 'Version_1_0 Version_1_2 Version_1_40 Version_2_05 Version_2_10 Version_2_21 Version_2_22 Version_2_5 Version_2_6 R9 R10 R11 R12 R13 R14 R2000 R2004 R2007 R2010 R2013 R2018'.split()
NAMES = dict(zip(ORDER, 'MC0.0 AC1.2 AC1.40 AC1.50 AC2.10 AC2.21 AC2.22 AC1002 AC1003 AC1004 AC1006 AC1009 AC1009 AC1012 AC1014 AC1015 AC1018 AC1021 AC1024 AC1027 AC1032'.split()))
ALIASES = {'AC1001': 'Version_2_22', 'AC1011': 'R13', '14': 'R14', '14.01': 'R14', '15.0': 'R2000', '15.05': 'R2000', '15.06': 'R2000',
           '16.0': 'R2004', '16.1': 'R2004', '16.2': 'R2004', '17.0': 'R2007', '17.1': 'R2007', '17.2': 'R2007', '18.0': 'R2010', '18.1': 'R2010',
           '18.2': 'R2010', '19.0': 'R2013', '19.1': 'R2013', '19.2': 'R2013', '19.3': 'R2013'}


def build(repo, spec):
    m = Module(repo, spec)
    e = types(repo)
    m.raw(e[0][:e[0].index('pub struct CodePairPutBack')])
    m.add(versions(repo))
    read = {n: v for v, n in NAMES.items() if v != 'R11'}
    read.update(ALIASES)
    lits = ' '.join('reveal_strlit("%s"); axiom_str_ext(_v, "%s");' % (n, n) for n in read)
    m.raw('''
#[verifier::external_body]
pub proof fn axiom_str_ext(a: &str, b: &str) ensures a@ == b@ ==> a == b, { }
#[verifier::external_body]
pub fn x_as_str(s: &String) -> (r: &str) ensures r@ == s@, { s }
// release order and code names of the versions
pub open spec fn released(v: AcadVersion) -> int { match v { %s } }
pub open spec fn code_name(v: AcadVersion) -> Seq<char> { match v { %s } }
pub proof fn order_is_release_order(a: AcadVersion, b: AcadVersion) ensures vord(a) < vord(b) <==> released(a) < released(b), vord(a) == vord(b) <==> a == b, { }
''' % (' '.join('AcadVersion::%s => %dint,' % (n, i) for i, n in enumerate(ORDER)), ' '.join('AcadVersion::%s => "%s"@,' % (n, NAMES[n]) for n in ORDER)))
    src = Source(repo + '/src/enums.rs')
    f = src.fn('AcadVersion::from').expect_sig(r'fn from\(val: String\) -> DxfResult<AcadVersion>')
    f.rewrite(r'match &\*val \{', 'match _v {', '&*String -> &str', 1)
    f.insert_start('let _v = x_as_str(&val); proof { %s }' % lits)
    m.fn(f, 'pub fn from(val: String) -> (r: DxfResult<AcadVersion>)', 'ensures %s r is Ok ==> (%s),' % (
        ' '.join('val@ == "%s"@ ==> r == DxfResult::<AcadVersion>::Ok(AcadVersion::%s),' % x for x in read.items()),
        ' || '.join('val@ == "%s"@' % n for n in read)), 'AcadVersion')
    f = src.fn('AcadVersion::from_safe').expect_sig(r'fn from_safe\(val: String\) -> AcadVersion')
    m.fn(f, 'pub fn from_safe(val: String) -> (r: AcadVersion)', 'ensures %s (%s) ==> r == AcadVersion::R12,' % (
        ' '.join('val@ == "%s"@ ==> r == AcadVersion::%s,' % x for x in read.items()),
        ' && '.join('val@ != "%s"@' % n for n in read)), 'AcadVersion')
    f = src.fn('fmt::Display for AcadVersion::fmt').expect_sig(r"fn fmt\(&self, f: &mut fmt::Formatter<'_>\) -> fmt::Result")
    f.rewrite(r'write!\(f, "\{\}", (\w+)\)', r'\1', 'write!(f, "{}", text) -> the text written', 1)
    m.fn(f, "pub fn fmt(&self) -> (r: &'static str)", 'ensures r@ == code_name(*self),', 'AcadVersion')
    m.raw('''
#[verifier::external_body]
pub fn x_to_string(s: &str) -> (r: String) ensures r@ == s@, { s.to_string() }
// THEOREM: every version is written under its own name and read back as itself (R11 shares the file format and name of R12)
fn names_round_trip(v: AcadVersion, w: AcadVersion) {
    let n = v.fmt();
    let r = AcadVersion::from(x_to_string(n));
    assert(r == DxfResult::<AcadVersion>::Ok(if v == AcadVersion::R11 { AcadVersion::R12 } else { v }));
    let n2 = w.fmt();
    let r2 = AcadVersion::from(x_to_string(n2));
    assert(n@ == n2@ ==> r == r2);
    /*CANARY*/
}
''')
    return m.done()
