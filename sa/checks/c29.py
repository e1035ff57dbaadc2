"""C29: reported dimensions and typical distances."""
import math

from ..manobl import *
from .. import fixedrank
from .. import opt_common as oc

RULE = (
    "The constructors are executed with symbolic sizes; the value of the dim property is compared with the "
    "polynomial counting tangent directions, num_values with the number of array entries, and typical_dist "
    "with the documented formula."
)
FLOOR = 60


def run(rep, tier):
    program = load(oc.ROOT)
    each_space(rep, program, body)
    fixedrank.fixed_rank(rep, program, fixedrank.dimensions)


def expected(typ, dim):
    kind, *a = typ
    pi = const(math.pi)
    return {
        "sqrtdim": lambda: sqrt(dim),
        "dim8": lambda: div(dim, 8),
        "pi": lambda: pi,
        "sqrt": lambda: sqrt(a[0]),
        "pisqrt": lambda: mul(pi, sqrt(a[0])),
        "term": lambda: a[0],
    }[kind]()


def body(o):
    rep = o.rep
    s = o.s
    dim = None
    for what in ("dim", "typical_dist"):
        try:
            v, st = o.r.get(what)
        except Exception as e:
            v = None
        if v is None:
            o.rep.unk(o.key(what, what), "no value")
            continue
        t = o.r.it.term(v, st)
        if what == "dim":
            o.poly("dim", what, t, s.dimension())
            dim = t
        else:
            # stated relative to the reported dimension
            o.eq(what, what, t, expected(s.typical(), dim))
