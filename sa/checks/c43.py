"""C43: the mean of two points is the midpoint of the geodesic joining them."""
from ..manobl import *
from .. import opt_common as oc

RULE = (
    "pair_mean is executed on symbolic points; its normal form must equal the documented midpoint: the normalised sum on "
    "spheres, the average on flat spaces, and the exponential of half the logarithm elsewhere (both from the documented "
    "formulas).  The midpoint satisfies the equations of a point, keeps shape and number type, and does not depend on the "
    "order of the points where the formula is symmetric."
)
FLOOR = 30


def run(rep, tier):
    each_space(rep, load(oc.ROOT), body)


def body(o):
    s = o.s
    m = "pair_mean"
    t = o.get("midpoint", m, X, Y)
    if t is None:
        return
    half = const(Fraction(1, 2))
    ref = None
    sym = False
    if s.mean is not None:
        ref, sym = s.mean(X, Y), True
    elif s.ref_exp is not None and s.ref_log is not None:
        ref = s.ref_exp(X, mul(half, s.ref_log(X, Y)))
    else:
        l = o.call("log", X, Y)
        ref = o.call("exp", X, mul(half, l)) if l is not None else None
    l = o.call("log", X, Y)
    if l is not None and any(o.call("exp", X, h) is t for h in (mul(half, l), div(l, 2))):
        o.rep.ok(o.key("midpoint", m), "the exponential of half the logarithm", o.r.where(m))
        ref = t
    if ref is None:
        o.rep.unk(o.key("midpoint", m), "no exponential and logarithm to compare with", o.r.where(m))
        return
    if ref is not t:
        o.eq("midpoint", m, t, ref)
    if o.same_array("array", m, t):
        o.pairs("on-manifold", m, s.pt(t))
    if sym:
        q = o.call(m, Y, X)
        if q is not None:
            o.eq("symmetric", m, q, t)
    z = o.call(m, X, X)
    if z is not None:
        o.eq("same-point", m, z, X)
