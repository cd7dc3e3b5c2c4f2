USES = "use vstd::view::View as _;\n"
import draw
import norm
from pieces import Module


def build(repo, spec):
    m = Module(repo, spec)
    draw.types(m)
    draw.specs(m)
    src, STEP = draw.core(m)
    norm.build(m, src)
    return m.done()
