from pieces import Module
from binio import *
from pieces import code_pair
import v_c01


def build(repo, spec):
    m = Module(repo, spec)
    e = types(repo)
    m.raw(e[0][:e[0].index('pub struct CodePairPutBack')])
    t = spec('pairs.rs')
    m.raw(t[:t.index('// ---- the source behind')] + t[t.index('#[verifier::external_body]\npub fn x_eq'):])
    m.add(versions(repo))
    m.s('bytes.rs', 'bin.rs')
    m.add(code_pair(repo))
    m.add(v_c01.piece(repo, spec))
    readers(m, repo)
    expected(m, repo)
    dispatch(m, bin_writer(m, repo), 'ascii')
    bin_reader(m, repo)
    m.raw(BIN_THEOREM)
    return m.done()
