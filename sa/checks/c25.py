"""C25: random points, random tangent vectors and zero vectors are valid."""
from ..manobl import *
from .. import fixedrank
from .. import opt_common as oc
from ..terms import subst, subterms

RULE = (
    "random_point, random_tangent_vector(X) and zero_vector(X) are executed with every random draw as "
    "a fresh symbolic array of the requested shape; obligations on the normal forms: shape and number "
    "type of points, the manifold's defining equations, tangency and unit norm, zero entries.  Random "
    "elements of the orthogonal and unitary groups, documented as Haar distributed, are a function of "
    "one standard Gaussian matrix that commutes with the group (its QR factor with positive diagonal, "
    "or its polar factor)."
)
FLOOR = 150


def run(rep, tier):
    program = load(oc.ROOT)
    each_space(rep, program, body)
    fixedrank.fixed_rank(rep, program, fixedrank.randoms)


def body(o):
    rep = o.rep
    s = o.s
    m = "random_point"
    a = o.get("valid", m)
    if a is not None:
        if o.same_array("array", m, a):
            o.pairs("valid", m, s.pt(a))
            for i, (t, matrix) in enumerate(s.ineq(a)):
                o.positive("positive", m, t, matrix)
        if s.lie:
            haar(o, m, a)
    m = "random_tangent_vector"
    # a manifold of dimension zero has no tangent vector of unit norm
    a = o.get("tangent", m, X) if s.dimension() is None or s.dimension().t else None
    if a is not None:
        if o.same_array("array", m, a):
            o.pairs("tangent", m, s.tang(X, a))
            q = o.call("norm", X, a)
            if q is not None:
                o.eq("unit-norm", m, q, const(1))
    m = "zero_vector"
    a = o.get("zero", m, X)
    if a is not None:
        if o.same_array("array", m, a):
            o.eq("zero", m, a, mul(0, U))


def haar(o, m, a):
    """The random point is Haar distributed: an equivariant function of a Gaussian matrix."""
    s = o.s
    key, where = o.key("haar", m), o.r.where(m)
    draws = list(dict.fromkeys(t for t in subterms(a) if t.op == "random"))
    dimension = s.dimension()
    if not draws:
        if not dimension.t:
            o.rep.ok(key, "the group has one element", where)
        else:
            o.rep.bad(key, "no random draw determines the point", where)
        return
    odd = [t.args[0] for t in draws if not gaussian(t)]
    need = 2 if s.dt == "c" else 1
    try:
        p = nf(s, a).p
        shape = factor_of_gaussian(o, p, draws)
    except Exception as e:
        p, shape = None, None
    if shape and odd:
        o.rep.bad(key, "a factor of a matrix of draws that are not standard normal (%s) is not Haar distributed" % ", ".join(odd), where)
        return
    if shape:
        o.rep.ok(key, shape, where)
        return
    if odd or len(draws) != need:
        o.rep.unk(key, "draws: %s" % ", ".join(t.args[0] for t in draws), where)
        return
    orders = [draws, draws[::-1]] if need == 2 else [draws]
    if s.tags and need == 2:
        for d in orders:
            z = add(d[0], mul(const(1j), d[1]))
            z = mk("select", z, const(0)) if str(s.K) == "1" else z
            v, why = prove(s, a, div(z, np_("abs", z)))
            if v is True:
                o.rep.ok(key, "a Gaussian number divided by its modulus", where)
                return
    how = []
    for d in orders:
        z = add(d[0], mul(const(1j), d[1])) if need == 2 else d[0]
        for zx in (mm(X, z), mm(z, X)):
            if need == 2:
                new = {d[0]: np_("real", zx), d[1]: np_("imag", zx)}
            else:
                new = {d[0]: zx}
            b = subst(a, new)
            for want in (mm(X, a), mm(a, X), mm(H(X), a), mm(a, H(X))):
                v, why = differ(s, b, want)
                how.append(v)
                if v is not True:
                    o.rep.unk(key, "equivariance at the witnesses: %s; %s" % (why, "" if p is None else tn.show(p)[:160]), where)
                    return
    if s.tags:
        # powers of a uniform phase are uniform as well
        o.rep.unk(key, "not equivariant", where)
        return
    o.rep.bad(key, "the function of the Gaussian matrix does not commute with the group: %s" % ("" if p is None else tn.show(p)[:160]), where)


def gaussian(t):
    """Draws from the standard normal distribution (up to a common scale)."""
    name, _, args, kw = t.args
    kw = dict(kw)
    if name.endswith((".randn", ".standard_normal")):
        return True
    if not name.endswith(".normal"):
        return False
    loc = args[0] if args else kw.get("loc", const(0))
    scale = args[1] if len(args) > 1 else kw.get("scale", const(1))
    return loc.op == scale.op == "const" and loc.args[0] == 0 and scale.args[0] == 1


def factor_of_gaussian(o, p, draws):
    """The normal form is the orthogonal factor of one full matrix of independent draws."""
    s = o.s
    rnd = {}
    for t in draws:
        (mono, c), = s.tr.randoms[t.args[1]].p.t.items()
        rnd[mono[0][0]] = t

    def one(q):
        if len(q.t) != 1:
            return None
        (mono, c), = q.t.items()
        if len(mono) != 1 or mono[0][2] != 1:
            return None
        return tn._BYID[mono[0][0]], mono[0][1], c

    g = one(p)
    if g is None or g[2] != 1:
        return None
    a = g[0]
    flip = ""
    if a.name in ("swapP", "swapN") and s.dt != "c":
        g = one(a.args[0])
        if g is None or g[2] != 1 or g[1] != tuple(range(len(g[1]))):
            return None
        a, flip = g[0], ", two columns exchanged for the determinant"
    if a.name not in ("cqrQ", "polar"):
        return None
    q = a.args[0]
    parts = []
    for mono, c in q.t.items():
        unit = [f for f in mono if tn._BYID[f[0]] is tn.IUNIT]
        rest = [f for f in mono if f not in unit]
        if len(rest) != 1 or rest[0][0] not in rnd or rest[0][2] != 1 or rest[0][1] != tuple(range(len(a.axes))):
            return None
        if tuple(tn._BYID[rest[0][0]].axes) != tuple(a.axes):
            return None
        parts.append((rest[0][0], bool(unit), abs(c)))
    if len({x for x, u, c in parts}) != len(parts) or len({c for x, u, c in parts}) != 1:
        return None
    if sorted(u for x, u, c in parts) != ([False, True] if s.dt == "c" else [False]):
        return None
    return "the %s factor of a Gaussian matrix%s" % ("positive-diagonal QR" if a.name == "cqrQ" else "polar", flip)
