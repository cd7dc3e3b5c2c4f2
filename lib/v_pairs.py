from pieces import pairs_base


def build(repo, spec):
    return pairs_base(repo, spec).done()
