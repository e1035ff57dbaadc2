"""C22: Euclidean Hessians are converted to Riemannian Hessians."""
from ..manobl import *
from .. import opt_common as oc

RULE = (
    "The code's own gradient conversion is differentiated formally: it is executed at "
    "X + eps U with Euclidean gradient G + eps H and the first-order coefficient of the "
    "normal form's expansion in eps is corrected by the manifold's connection (projection of the "
    "embedded derivative, or the Christoffel term of the documented metric). "
    "euclidean_to_riemannian_hessian(X, G, H, U) must have that normal form and be tangent.  Where a "
    "Weingarten map is provided it is the tangential derivative of the projection along the tangent "
    "vector applied to a normal vector, tangent, linear and self-adjoint."
)
FLOOR = 60
DGRAD = sym("dgrad")
DPROJ = sym("dproj")


def run(rep, tier):
    each_space(rep, load(oc.ROOT), body)


def weingarten(o):
    """The Weingarten map: the tangential derivative of the projection applied to a normal vector."""
    s = o.s
    m = "weingarten"
    c = o.r.call(m, X, U, W)
    if c.value is None:
        return
    pw = o.call("projection", X, W)
    if pw is None:
        return
    N = sub(W, pw)
    a = o.get("shape-operator", m, X, U, N)
    if a is None:
        return
    o.pairs("weingarten-tangent", m, s.tang(X, a))
    b = o.call(m, X, V, N)
    c = o.call(m, X, lin(U, V), N)
    if b is not None and c is not None:
        o.eq("weingarten-linear", m, c, lin(a, b))
        o.eq("self-adjoint", m, s.ip(X, a, V), s.ip(X, U, b))
    pe = o.call("projection", add(X, mul(EPS, s.emb(X, U))), N)
    p0 = o.call("projection", X, N)
    if pe is None or p0 is None:
        return
    want = derivative(o, pe, p0, DPROJ)
    if want is None:
        o.rep.unk(o.key("shape-operator", m), "the projection's derivative is not representable", o.r.where(m))
        return
    t = o.call("projection", X, want[0])
    v, why = decide_bound(s, a, t, want[0], pe)
    o.rep.verdict(o.key("shape-operator", m), v, why, o.r.where(m))


def body(o):
    weingarten(o)
    rep = o.rep
    s = o.s
    m = "euclidean_to_riemannian_hessian"
    h = o.get("tangent", m, X, G, Hh, U)
    if h is None:
        return
    o.pairs("tangent", m, s.tang(X, h))
    g = o.call("euclidean_to_riemannian_gradient", X, G)
    E = s.emb(X, U)
    ge = o.call("euclidean_to_riemannian_gradient", add(X, mul(EPS, E)), add(G, mul(EPS, Hh)))
    if g is None or ge is None:
        return
    want = derivative(o, ge, g)
    if want is None:
        o.rep.unk(o.key("covariant-derivative", m), "the gradient's derivative is not representable", o.r.where(m))
        return
    D, nd = want
    c = s.covd(X, U, D, g, o)
    if c is None:
        o.rep.unk(o.key("covariant-derivative", m), "no projection")
        return
    v, why = decide_bound(s, h, c, D, ge)
    rep.verdict(o.key("covariant-derivative", m), v, why, o.r.where(m))


def derivative(o, ge, g, at=DGRAD):
    """Bind the symbol ``at`` to the first-order coefficient of ge."""
    s = o.s
    tn.reset_budget()
    try:
        v = nf(s, ge)
        ser = tn.series(v.p, tn.F1, s.model.ctx)
        d = s.model.ctx.simp(ser.get(tn.F1, ZERO))
    except TNError as e:
        return None
    s.tr.env[at] = TV(v.axes, d, v.dt)
    return at, d


def decide_bound(s, l, r, D, ge):
    v, why = prove(s, l, r)
    if v is True:
        return True, why
    import numpy as np

    from ..tnum import Num, NumError

    worst = 0.0
    try:
        for rng, sz in witnesses(s):
            env = s.numenv(rng, sz)

            def at(e):
                x = dict(env)
                x[EPS] = e
                return np.asarray(Num(x, rng)(ge))

            step = 1e-5
            env[D] = (at(step) - at(-step)) / (2 * step)
            ev = Num(env, rng)
            a, b = np.asarray(ev(l)), np.asarray(ev(r))
            if a.shape != b.shape:
                return (False if v is False else None), "shapes %s %s" % (a.shape, b.shape)
            if not np.all(np.isfinite(b)):
                continue
            e = float(np.max(np.abs(a - b)) / (1 + np.max(np.abs(a)) + np.max(np.abs(b))))
            if not np.isfinite(e):
                e = 1.0
            worst = max(worst, e)
    except (NumError, Exception) as e:
        return None, f"{why}; witness: {e}"
    if worst > FDTOL and v is False:
        return False, "relative difference %.2g at a witness; %s" % (worst, why)
    return None, "%s; witness difference %.2g" % (why, worst)
