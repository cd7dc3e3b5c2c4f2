from pieces import pairs_base, hex_fns


def build(repo, spec):
    m = pairs_base(repo, spec)
    m.s('hex.rs')
    m.add(hex_fns(repo))
    return m.done()
