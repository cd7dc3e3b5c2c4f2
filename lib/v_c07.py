USES = "use vstd::view::View as _;\n"
import draw
from pieces import Module


def build(repo, spec):
    m = Module(repo, spec)
    draw.types(m)
    draw.specs(m)
    src, STEP = draw.core(m)
    draw.kid_fns(m, src)
    draw.entity_fns(m, src, STEP)
    draw.histories(m, src)
    return m.done()
