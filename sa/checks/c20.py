"""C20: projections are the orthogonal projections onto the tangent spaces."""
from ..manobl import *
from .. import fixedrank
from .. import opt_common as oc

RULE = (
    "projection and to_tangent_space are executed on symbolic points, ambient vectors and "
    "tangent vectors; obligations on the normal forms of the value graphs: the result "
    "satisfies the tangency equations, tangent vectors are fixed, the map is real-linear, "
    "the defect is orthogonal to every tangent vector, and to_tangent_space gives a "
    "tangent vector and fixes tangent vectors."
    " FixedRankEmbedded is analysed on triples, ambient matrices and ambient matrices in factored form."
)
FLOOR = 300


def run(rep, tier):
    program = load(oc.ROOT)
    each_space(rep, program, body)
    fixedrank.fixed_rank(rep, program, fixedrank.projections)


def body(o):
    rep = o.rep
    s = o.s
    m = "projection"
    p = o.get("tangent", m, X, W)
    if p is not None:
        o.pairs("tangent", m, s.tang(X, p))
        q = o.get("fixes-tangent", m, X, s.emb(X, U))
        if q is not None:
            o.eq("fixes-tangent", m, q, U)
        p2, p3 = o.call(m, X, W2), o.get("linear", m, X, lin(W, W2))
        if p2 is not None and p3 is not None:
            o.eq("linear", m, p3, lin(p, p2))
        o.eq("orthogonal", m, s.reip(X, sub(W, s.emb(X, p)), s.emb(X, U)), const(0))
    m = "to_tangent_space"
    p = o.get("tangent", m, X, W)
    if p is not None:
        o.pairs("tangent", m, s.tang(X, p))
        q = o.get("fixes-tangent", m, X, U)
        if q is not None:
            o.eq("fixes-tangent", m, q, U)
        p2, p3 = o.call(m, X, W2), o.get("linear", m, X, lin(W, W2))
        if p2 is not None and p3 is not None:
            o.eq("linear", m, p3, lin(p, p2))
    m = "embedding"
    e = o.call(m, X, U)
    if e is not None:
        o.eq("embedding", m, e, s.emb(X, U))
