"""C23: retractions and exponential maps stay on the manifold and fix the point."""
from ..manobl import *
from .. import fixedrank
from .. import opt_common as oc

RULE = (
    "retraction and exp are executed on symbolic points and tangent vectors; obligations on the "
    "normal forms (orthonormality of factors, trigonometric identities, series in eps): the result "
    "satisfies the manifold's equations, the zero vector gives the point itself, and the first-order "
    "coefficient along eps U is the (embedded) tangent vector; where a closed form is documented the "
    "value graph equals it.  Retractions documented as second-order: the second-order coefficient, "
    "corrected by the connection, has no tangential part."
    " The retraction of FixedRankEmbedded equals the truncated singular value decomposition."
)
FLOOR = 150


def run(rep, tier):
    program = load(oc.ROOT)
    each_space(rep, program, body)
    fixedrank.fixed_rank(rep, program, fixedrank.retractions)


def body(o):
    rep = o.rep
    s = o.s
    for m in ("retraction", "exp"):
        a = o.get("on-manifold", m, X, U)
        if a is None:
            continue
        ref = s.ref_exp if m == "exp" else s.ref_retraction
        ref = ref(X, U) if ref is not None else None
        if ref is not None and o.eq("closed-form", m, a, ref):
            # the closed form has the remaining properties
            for r in ("on-manifold", "zero-vector", "first-order"):
                o.rep.ok(o.key(r, m), "by the closed form", o.r.where(m))
            continue
        o.pairs("on-manifold", m, s.pt(a))
        ez = o.get("first-order", m, X, mul(EPS, U))
        if ez is not None:
            o.eq("zero-vector", m, ez, X, order=0)
            o.eq("first-order", m, ez, s.emb(X, U), order=1)
            if m == "retraction" and s.second_order:
                acceleration(o, m, ez)


ACC = sym("acceleration")


def acceleration(o, m, ez):
    """The curve has no tangential acceleration at the point."""
    s = o.s
    key, where = o.key("second-order", m), o.r.where(m)
    why = ""
    try:
        tn.reset_budget()
        v = nf(s, ez)
        ser = tn.series(v.p, 2, s.model.ctx)
        d = s.model.ctx.simp(tn.scale_by(ser.get(2, ZERO), 2))
        s.tr.env[ACC] = TV(v.axes, d, v.dt)
        t = along(o)
        v2, why = prove(s, t, mul(0, W))
        if v2 is True:
            o.rep.ok(key, why, where)
            return
    except Exception as e:
        v2, why = None, "not representable: %s" % e
        t = along(o)
    worst = numeric_acceleration(s, ez, t)
    if worst is not None and worst > 1e-2:
        o.rep.bad(key, "tangential acceleration %.2g relative to the tangent vector at a witness; %s" % (worst, why[:160]), where)
    else:
        o.rep.unk(key, "%s; witness: %s" % (why[:200], worst), where)


def along(o):
    """Covariant derivative of the velocity from the plain second derivative."""
    s = o.s
    return o.call("projection", X, ACC) if s.lie else s.covd(X, U, ACC, s.emb(X, U), o)


def numeric_acceleration(s, ez, t):
    import numpy as np

    from ..tnum import Num, NumError

    worst = None
    try:
        for rng, sz in witnesses(s):
            env = s.numenv(rng, sz)

            def at(e):
                return np.asarray(Num(dict(env, **{}) | {EPS: e}, rng)(ez))

            h = 1e-3
            env[ACC] = (at(h) - 2 * at(0.0) + at(-h)) / h ** 2
            a = np.asarray(Num(env, rng)(t))
            u = float(np.max(np.abs(np.asarray(env[U]))))
            e = float(np.max(np.abs(a))) / (1 + u ** 2)
            worst = max(worst or 0.0, e)
    except Exception:
        return None
    return worst
