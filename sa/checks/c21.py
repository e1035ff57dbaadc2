"""C21: Euclidean gradients are converted to Riemannian gradients."""
from ..manobl import *
from .. import fixedrank
from .. import opt_common as oc

RULE = (
    "euclidean_to_riemannian_gradient is executed on a symbolic point and a symbolic Euclidean "
    "gradient (of an invariant cost on quotient manifolds); obligations on the normal forms: the "
    "result is tangent and its inner product (the code's own) with every tangent vector equals the "
    "real Frobenius product of the Euclidean gradient with the embedded tangent vector."
    " On FixedRankEmbedded the derivative of the factors (u, s, vt) along a tangent vector is the one of the singular value decomposition."
)
FLOOR = 80


def run(rep, tier):
    program = load(oc.ROOT)
    each_space(rep, program, body)
    fixedrank.fixed_rank(rep, program, fixedrank.gradient)


def body(o):
    rep = o.rep
    s = o.s
    m = "euclidean_to_riemannian_gradient"
    g = o.get("tangent", m, X, G)
    if g is None:
        return
    o.pairs("tangent", m, s.tang(X, g))
    a = o.call("inner_product", X, g, U)
    b = o.call("inner_product", X, U, g)
    e = o.call("embedding", X, U)
    want = eip(G, s.emb(X, U))
    if a is not None:
        o.eq("represents-derivative", m, a, want)
    if b is not None:
        o.eq("represents-derivative-second", m, b, want)
