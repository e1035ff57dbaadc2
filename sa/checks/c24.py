"""C24: transport is a linear map into the target's tangent space fixing equal points."""
from ..manobl import *
from .. import fixedrank
from .. import opt_common as oc

RULE = (
    "transport(X, Y, U) is executed on symbolic points and vectors; obligations on the normal forms: "
    "the result satisfies the tangency equations at Y, is real-linear in U, has the shape and number "
    "type of tangent vectors, and transport(X, X, U) is U.  Where parallel transport is selected it is "
    "an isometry that maps log(X, Y) to -log(Y, X)."
    " On FixedRankEmbedded the transport is the orthogonal projection of the embedded vector."
)
FLOOR = 90


def run(rep, tier):
    program = load(oc.ROOT)
    each_space(rep, program, body)
    fixedrank.fixed_rank(rep, program, fixedrank.transports)


def body(o):
    rep = o.rep
    s = o.s
    m = "transport"
    a = o.get("tangent", m, X, Y, U)
    if a is None:
        return
    o.same_array("array", m, a)
    o.pairs("tangent", m, s.tang(Y, a))
    b = o.call(m, X, Y, V)
    c = o.get("linear", m, X, Y, lin(U, V))
    if b is not None and c is not None:
        o.eq("linear", m, c, lin(a, b))
    e = o.get("identity", m, X, X, U)
    if e is not None:
        o.eq("identity", m, e, U)
    if s.parallel:
        # parallel transport along the geodesic: an isometry that carries the
        # velocity of the geodesic along
        if b is not None:
            o.eq("isometric", m, s.ip(Y, a, b), s.ip(X, U, V))
        l, back = o.call("log", X, Y), o.call("log", Y, X)
        if l is not None and back is not None:
            t = o.get("velocity", m, X, Y, l)
            if t is not None:
                o.eq("velocity", m, t, neg(back))
