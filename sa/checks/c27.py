"""C27: distances are symmetric, vanish at equal points and match the logarithm."""
from ..manobl import *
from .. import opt_common as oc

RULE = (
    "dist and log are executed on symbolic points; obligations on the normal forms: dist(X, Y) is a real "
    "number equal to the documented distance and to dist(Y, X), dist(X, X) = 0, log(X, Y) is tangent at X "
    "and equal to the documented logarithm, log(X, X) = 0, and dist(X, Y) = norm(X, log(X, Y))."
)
FLOOR = 90


def run(rep, tier):
    each_space(rep, load(oc.ROOT), body)


def body(o):
    rep = o.rep
    s = o.s
    m = "dist"
    a = o.get("distance", m, X, Y)
    if a is not None:
        ref = s.ref_dist(X, Y) if s.ref_dist is not None else None
        if ref is not None:
            o.eq("distance", m, a, ref)
        b = o.call(m, Y, X)
        if b is not None:
            o.eq("symmetric", m, b, a)
        z = o.get("zero", m, X, X)
        if z is not None:
            o.eq("zero", m, z, const(0))
    m = "log"
    l = o.get("logarithm", m, X, Y)
    if l is not None:
        ref = s.ref_log(X, Y) if s.ref_log is not None else None
        if ref is not None:
            o.eq("logarithm", m, l, ref)
        if o.same_array("array", m, l):
            o.pairs("tangent", m, s.tang(X, l))
        z = o.get("zero", m, X, X)
        if z is not None:
            o.eq("zero", m, z, mul(0, U))
        if a is not None:
            q = o.call("norm", X, l)
            if q is not None:
                o.eq("norm-of-log", m, q, a)
