"""C19: inner products are the documented metrics."""
from ..manobl import *
from .. import fixedrank
from .. import opt_common as oc

RULE = (
    "Each manifold's inner_product and norm are executed on symbolic points and "
    "tangent vectors of symbolic size; the value graphs are brought to an "
    "index-notation normal form modulo the manifold's defining equations. "
    "Obligations: equality with the documented metric, symmetry, bilinearity over "
    "the reals, vanishing imaginary part, norm = sqrt(inner_product(u, u))."
    " FixedRankEmbedded is analysed on triples; the vector operations of its tangent vectors act component by component."
)
FLOOR = 300


def run(rep, tier):
    program = load(oc.ROOT)
    each_space(rep, program, body)
    fixedrank.fixed_rank(rep, program, fixedrank.metric)


def body(o):
    rep = o.rep
    s = o.s
    m = "inner_product"
    a = o.get("metric", m, X, U, V)
    if a is not None:
        o.eq("metric", m, a, s.ip(X, U, V))
        o.eq("real", m, np_("imag", a), mul(0, s.ip(X, U, V)))
        b = o.get("symmetric", m, X, V, U)
        if b is not None:
            o.eq("symmetric", m, a, b)
        vv, uu = o.call(m, X, V, V), o.call(m, X, U, U)
        l1 = o.get("linear-first", m, X, lin(U, V), V)
        if l1 is not None and vv is not None:
            o.eq("linear-first", m, l1, lin(a, vv))
        l2 = o.get("linear-second", m, X, U, lin(V, U))
        if l2 is not None and uu is not None:
            o.eq("linear-second", m, l2, lin(a, uu))
    nn = o.get("norm", "norm", X, U)
    if nn is not None:
        o.eq("norm", "norm", nn, sqrt(s.ip(X, U, U)))
        # the same array passed twice takes the identity shortcuts of the code
        uu = o.call(m, X, U, U)
        if uu is not None:
            o.eq("norm-squared", "norm", mul(nn, nn), uu)
