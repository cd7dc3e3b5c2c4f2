USES = "use vstd::view::View as _;\n"
import draw
from pieces import Module


def build(repo, spec):
    m = Module(repo, spec)
    draw.types(m)
    draw.specs(m)
    draw.handle_fns(m)
    draw.items(m)
    draw.owners(m)
    return m.done()
