"""Obligations of FixedRankEmbedded: points (u, s, vt), tangent vectors (Up, M, Vp).

The ambient matrix of a point is u diag(s) vt, that of a tangent vector
u M vt + Up vt + u Vp^T; every specification is stated on these factors.
"""
import os

from .manobl import *
from .man import flatten_value
from .interp import Dead
from .opt import entry_node
from .values import Val, Ref, Tup
from .vectors import scalars, in_place

CLS = "FixedRankEmbedded"
NODE = entry_node("fr")


def triple(a, names):
    return tuple(sym(a + x) for x in names)


def point(a):
    """u, s and v (columns) of a point."""
    u, s_, v = triple(a, ("u", "s", "v"))
    return (u, s_, T(v))


PX, PY = point("x"), point("y")
# free parameters of tangent vectors, and the tangent vectors
TU0, TV0 = triple("t", ("a", "b", "c")), triple("q", ("a", "b", "c"))
TU, TV_ = triple("u", ("Up", "M", "Vp")), triple("v", ("Up", "M", "Vp"))
TY0, TY = triple("r", ("a", "b", "c")), triple("w", ("Up", "M", "Vp"))  # tangent at the second point
GE = triple("g", ("u", "s", "v"))
LR = triple("z", ("l", "c", "r"))  # an ambient matrix in factored form l c r^T
k, r = sym("k"), sym("r")


class FRSpace(Space):
    cls = CLS

    def slack(self):
        return {"k": sl(1, "k"), "m": sl(2, "m", "k"), "n": sl(2, "n", "k"), "r": sl(1, "r")}

    def args(self):
        return [m, n, k]

    def shape(self):
        return (m, n)

    def sizes(self):
        return [{"m": 5, "n": 4, "k": 2, "r": 3}, {"m": 4, "n": 6, "k": 3, "r": 2}, {"m": 3, "n": 3, "k": 1, "r": 1}]

    def tparams(self, x, a):
        u, s_, vt = x
        v = T(vt)
        return (sub(a[0], mm(u, mm(T(u), a[0]))), a[1], sub(a[2], mm(v, mm(T(v), a[2]))))

    def setup(self):
        env = self.tr.env
        d = {q: self.tr.dimof(w(q)) for q in (m, n, k, r)}
        shapes = {"u": (m, k), "s": (k,), "v": (n, k), "a": (m, k), "b": (k, k), "c": (n, k)}
        self.shapes = {}

        def put(t, shp, flags=()):
            env[t] = symv(t.args[0], tuple(d[q] for q in shp), "f", flags)
            self.shapes[t] = shp

        for a in "xy":
            for q in ("u", "s", "v"):
                put(sym(a + q), shapes[q], ("pos",) if q == "s" else ())
            for q in ("u", "v"):
                (mono, c), = env[sym(a + q)].p.t.items()
                at = tn._BYID[mono[0][0]]
                self.model.ctx.bases.append(at)
                self.model.ctx.add([(at, (-1, 0), 1), (at, (-1, 1), 1)], tn.from_atom(tn.delta(at.axes[-1]), (0, 1)), "orthonormal columns")
        for t in (TU0, TV0, TY0):
            for x, q in zip(t, "abc"):
                put(x, shapes[q])
        put(GE[0], (m, k))
        put(GE[1], (k,))
        put(GE[2], (k, n))
        for x, shp in zip(LR, ((m, r), (r, r), (n, r))):
            put(x, shp)
        put(W, (m, n))
        put(W2, (m, n))
        env[ALPHA] = symv("alpha", (), "f")
        env[BETA] = symv("beta", (), "f")
        for t, x, q in ((TU, PX, TU0), (TV_, PX, TV0), (TY, PY, TY0)):
            for a, b in zip(t, self.tparams(x, q)):
                env[a] = self.tr.tv(b)

    def numenv(self, rng, sizes):
        import numpy as np
        from .tnum import Num

        env = {sym(a): b for a, b in sizes.items()}
        for t, shp in self.shapes.items():
            env[t] = rng.standard_normal(tuple(sizes[q.args[0]] for q in shp))
        for a in "xy":
            for q in ("u", "v"):
                env[sym(a + q)] = np.linalg.qr(env[sym(a + q)])[0]
            env[sym(a + "s")] = np.sort(0.5 + rng.uniform(size=sizes["k"]) + np.arange(sizes["k"]))[::-1].copy()
        env[ALPHA], env[BETA] = float(rng.standard_normal()), float(rng.standard_normal())
        ev = Num(env, rng)
        for t, x, q in ((TU, PX, TU0), (TV_, PX, TV0), (TY, PY, TY0)):
            for a, b in zip(t, self.tparams(x, q)):
                env[a] = ev(b)
        return env

    def positive_quantities(self):
        return []


def full(x):
    """Ambient matrix of a point."""
    return mm(mul(x[0], np_("expand_dims", x[1], 0)), x[2])


def ambient(x, v):
    """Ambient matrix of a tangent vector."""
    u, s_, vt = x
    return add(mm(u, mm(v[1], vt)), mm(v[0], vt), mm(u, T(v[2])))


def factored(z):
    return mm(z[0], mm(z[1], T(z[2])))


def ip(a, b):
    return add(*[tsum(mul(x, y)) for x, y in zip(a, b)])


def tlin(a, b):
    return tuple(lin(x, y) for x, y in zip(a, b))


class FR(Ob):
    def __init__(self, rep, program):
        super().__init__(rep, FRSpace(program))
        if self.failed:
            return
        it, st = self.r.it, self.r.st
        self.base = st
        # the classes of points and tangent vectors are those the manifold uses
        self.pcls = self.cls_of("random_point")
        self.tcls = self.cls_of("zero_vector", PX)

    def label(self):
        return CLS

    def cls_of(self, name, *args):
        c = self.invoke(name, *[Tup([Val(t) for t in a]) for a in args])
        if c is None:
            return None
        v = self.r.it.resolve(c[0], c[1])
        if isinstance(v, Ref):
            return c[1].heap[v.addr].cls
        return None

    def lift(self, v, st, cls=None):
        """A triple as an instance of the manifold's own class."""
        if isinstance(v, Term):
            return Val(v)
        if cls is None:
            return Tup([Val(t) for t in v])
        c = self.r.it.instantiate(cls, [Val(t) for t in v], {}, st, NODE)
        return c

    def invoke(self, name, *vals, st=None):
        """Execute an operation: (value, state) or None."""
        it = self.r.it
        st = st or self.base.copy()
        it.sinks.append([])
        value = None
        try:
            f = it.getattr(self.r.ref, name, st, NODE)
            value = it.call(f, list(vals), {}, st, NODE)
        except Dead:
            pass
        self.kinds = sorted({str(q[0]) for q in it.sinks.pop()})
        self.rep.count("operations executed symbolically")
        return None if value is None else (value, st)

    def args(self, spec, vals, st):
        """spec: one letter per argument: p point, t tangent vector, a ambient matrix, s sequence."""
        return [self.lift(v, st, {"p": self.pcls, "t": self.tcls}.get(q)) for q, v in zip(spec, vals)]

    def run_(self, rule, name, spec, *vals):
        """Result of an operation as terms; an operation that cannot return is reported."""
        st = self.base.copy()
        c = self.invoke(name, *self.args(spec, vals, st), st=st)
        if c is None:
            if self.kinds and "?" not in self.kinds and self.kinds != ["NotImplementedError"]:
                self.rep.bad(self.key(rule, name), "raises %s on every path" % ", ".join(self.kinds), self.r.where(name))
            else:
                self.rep.unk(self.key(rule, name), "no value", self.r.where(name))
            return None
        t = flatten_value(self.r.it, *c)
        for x in t if isinstance(t, tuple) else (t,):
            why = self.rejected(x) if isinstance(x, Term) else None
            if why:
                self.rep.bad(self.key(rule, name), why, self.r.where(name))
                return None
        return t

    def tri(self, rule, name, spec, *vals, n=3):
        t = self.run_(rule, name, spec, *vals)
        if t is None:
            return None
        if not isinstance(t, tuple):
            self.rep.unk(self.key(rule, name), "not a literal sequence", self.r.where(name))
            return None
        if len(t) != n:
            self.rep.bad(self.key(rule, name), "%d components" % len(t), self.r.where(name))
            return None
        if not all(isinstance(x, Term) for x in t):
            self.rep.unk(self.key(rule, name), "components are not arrays", self.r.where(name))
            return None
        return t

    def same(self, rule, name, a, b):
        if a is None or b is None:
            return
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq("%s.%d" % (rule, i), name, x, y)

    def tangent(self, rule, name, x, v):
        """Gauge conditions of a tangent vector at x."""
        if v is None:
            return
        zero = mul(0, mm(T(v[1]), v[1]))
        self.eq(rule + ".Up", name, mm(T(x[0]), v[0]), zero)
        self.eq(rule + ".Vp", name, mm(x[2], v[2]), zero)
        self.shape(rule, name, v, ((m, k), (k, k), (n, k)))

    def shape(self, rule, name, v, shapes):
        s = self.s
        for i, (t, shp) in enumerate(zip(v, shapes)):
            self.same_array("%s.shape%d" % (rule, i), name, t, tuple(s.tr.dimof(w(q)) for q in shp), "f")

    def onmanifold(self, rule, name, y, sizes=True):
        if y is None:
            return
        one = np_("eye", k)
        self.eq(rule + ".u", name, mm(T(y[0]), y[0]), one)
        self.eq(rule + ".v", name, mm(y[2], T(y[2])), one)
        if sizes:
            self.shape(rule, name, y, ((m, k), (k,), (k, n)))
        self.positive(rule + ".s", name, y[1])


def fixed_rank(rep, program, body):
    try:
        o = FR(rep, program)
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        rep.unk("configuration@" + CLS, "analysis failed: %r" % e)
        return
    if o.failed or o.pcls is None or o.tcls is None:
        rep.unk("configuration@" + CLS, o.failed or "the classes of points and tangent vectors are not known")
        return
    try:
        body(o)
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        rep.unk("analysis@" + CLS, "analysis failed: %r" % e)


# ------------------------------------------------------------------ the bodies


def metric(o):
    """C19."""
    name = "inner_product"
    a = o.run_("metric", name, "ptt", PX, TU, TV_)
    if not isinstance(a, Term):
        return
    want = tsum(mul(ambient(PX, TU), ambient(PX, TV_)))
    o.eq("metric", name, a, want)
    b = o.run_("symmetric", name, "ptt", PX, TV_, TU)
    o.eq("symmetric", name, a, b)
    vv, uu = o.run_("linear-first", name, "ptt", PX, TV_, TV_), o.run_("linear-second", name, "ptt", PX, TU, TU)
    o.eq("linear-first", name, o.run_("linear-first", name, "ptt", PX, tlin(TU, TV_), TV_), lin(a, vv))
    o.eq("linear-second", name, o.run_("linear-second", name, "ptt", PX, TU, tlin(TV_, TU)), lin(a, uu))
    nn = o.run_("norm", "norm", "pt", PX, TU)
    if isinstance(nn, Term):
        o.eq("norm", "norm", mul(nn, nn), uu)
        o.eq("norm", "norm", nn, sqrt(ip(TU, TU)))
    algebra(o)


def algebra(o):
    """Vector operations of tangent vectors act on every component."""
    it = o.r.it
    Add, Ng = add, neg
    al = ALPHA
    cases = {
        "add": (lambda a, b, s: it.binop("add", a, b, s, NODE), lambda x, y: add(x, y)),
        "sub": (lambda a, b, s: it.binop("sub", a, b, s, NODE), lambda x, y: sub(x, y)),
        "mul": (lambda a, b, s: it.binop("mul", a, Val(al), s, NODE), lambda x, y: mul(al, x)),
        "rmul": (lambda a, b, s: it.binop("mul", Val(al), a, s, NODE), lambda x, y: mul(al, x)),
        "truediv": (lambda a, b, s: it.binop("div", a, Val(al), s, NODE), lambda x, y: div(x, al)),
        "neg": (lambda a, b, s: it.call(it.getattr(a, "__neg__", s, NODE), [], {}, s, NODE), lambda x, y: neg(x)),
    }
    scalars(o.rep, o.key, o.tcls, o.r.where("zero_vector"))
    for op in ("add", "mul"):
        h = in_place(o.tcls, op)
        if h is None:
            o.rep.ok(o.key("vector.i" + op, "tangent vector"), "falls back to the plain operator", o.r.where("zero_vector"))
        elif isinstance(h, str):
            o.rep.bad(o.key("vector.i" + op, "tangent vector"), "augmented operator of %s" % h, o.r.where("zero_vector"))
        else:
            cases["i" + op] = (lambda a, b, s, n="__i%s__" % op, x=op: it.call(it.getattr(a, n, s, NODE), [b if x == "add" else Val(al)], {}, s, NODE), cases[op][1])
    for op, (f, want) in cases.items():
        st = o.base.copy()
        name = "zero_vector"
        try:
            a, b = o.lift(TU, st, o.tcls), o.lift(TV_, st, o.tcls)
            it.sinks.append([])
            try:
                v = f(a, b, st)
            except Dead:
                v = None
            kinds = sorted({str(q[0]) for q in it.sinks.pop()})
        except Exception as e:
            o.rep.unk(o.key("vector." + op, "tangent vector"), repr(e))
            continue
        key = o.key("vector." + op, "tangent vector")
        if v is None:
            o.rep.verdict(key, False if kinds and "?" not in kinds else None, "raises %s" % ", ".join(kinds), o.r.where(name))
            continue
        t = flatten_value(it, v, st)
        if not isinstance(t, tuple) or len(t) != 3:
            o.rep.verdict(key, False if isinstance(t, tuple) else None, "not three components", o.r.where(name))
            continue
        q = it.resolve(v, st)
        c = st.heap[q.addr].cls if isinstance(q, Ref) else None
        if c is None or not (c is o.tcls or o.tcls in getattr(c, "mro", ())):
            o.rep.verdict(o.key("vector-class." + op, "tangent vector"), None if c is None else False, "not a tangent vector", o.r.where(name))
        for i in range(3):
            o.eq("vector.%s.%d" % (op, i), "zero_vector", t[i], want(TU[i], TV_[i]))


def projections(o):
    """C20."""
    name = "projection"
    for tag, z, z2 in (("", W, W2), ("-factored", LR, None)):
        spec = "pa" if z2 is not None else "ps"
        p = o.tri("tangent" + tag, name, spec, PX, z)
        if p is None:
            continue
        o.tangent("tangent" + tag, name, PX, p)
        amb = z if z2 is not None else factored(z)
        o.eq("orthogonal" + tag, name, tsum(mul(sub(amb, ambient(PX, p)), ambient(PX, TU))), const(0))
        if z2 is not None:
            p2 = o.tri("linear", name, spec, PX, z2)
            p3 = o.tri("linear", name, spec, PX, lin(z, z2))
            if p2 and p3:
                o.same("linear", name, p3, tlin(p, p2))
            q = o.tri("fixes-tangent", name, spec, PX, ambient(PX, TU))
            o.same("fixes-tangent", name, q, TU)
    e = o.tri("embedding", "embedding", "pt", PX, TU)
    if e is not None:
        o.eq("embedding", "embedding", mm(e[0], mm(e[1], T(e[2]))), ambient(PX, TU))
        q = o.tri("fixes-tangent-embedded", name, "ps", PX, e)
        o.same("fixes-tangent-embedded", name, q, TU)
    name = "to_tangent_space"
    t = o.tri("tangent", name, "pt", PX, TU0)
    if t is not None:
        o.tangent("tangent", name, PX, t)
        o.same("value", name, t, TU)
        o.same("fixes-tangent", name, o.tri("fixes-tangent", name, "pt", PX, TU), TU)
        t2, t3 = o.tri("linear", name, "pt", PX, TV0), o.tri("linear", name, "pt", PX, tlin(TU0, TV0))
        if t2 and t3:
            o.same("linear", name, t3, tlin(t, t2))


def gradient(o):
    """C21."""
    name = "euclidean_to_riemannian_gradient"
    g = o.tri("tangent", name, "ps", PX, GE)
    if g is None:
        return
    o.tangent("tangent", name, PX, g)
    u, s_, vt = PX
    du, ds, dvt = GE
    a = o.run_("represents-derivative", "inner_product", "ptt", PX, g, TU)
    b = o.run_("represents-derivative", "inner_product", "ptt", PX, TU, g)
    # variation of the factors along the tangent vector (Up, M, Vp)
    row, colm = np_("expand_dims", s_, 0), np_("expand_dims", s_, 1)
    f = div(1, add(sub(mul(row, row), mul(colm, colm)), eye(k)))
    M = TU[1]
    Mt = T(M)
    # f is antisymmetric off the diagonal
    om = sub(mul(f, mul(M, row)), mul(T(f), mul(colm, Mt)))
    ps = sub(mul(f, mul(colm, M)), mul(T(f), mul(Mt, row)))
    vu = add(div(TU[0], row), mm(u, om))
    vs = np_("diagonal", M)
    vv = add(div(TU[2], row), mm(T(vt), ps))
    want = add(tsum(mul(du, vu)), tsum(mul(ds, vs)), tsum(mul(T(dvt), vv)))
    for t in (a, b):
        if isinstance(t, Term):
            o.eq("represents-derivative", name, t, want)


def retractions(o):
    """C23."""
    name = "retraction"
    y = o.tri("on-manifold", name, "pt", PX, TU)
    if y is None:
        return
    o.onmanifold("on-manifold", name, y)
    # the best approximation of rank k of the ambient sum
    f = np_("linalg.svd", add(full(PX), ambient(PX, TU)), full_matrices=False)
    kk = lambda t, i: mk("getitem", mk("select", f, const(i)), t)
    cut = mk("slice_obj", const(None), k, const(None))
    u_, s_, v_ = kk(tup(const(Ellipsis), cut), 0), kk(cut, 1), kk(tup(cut, const(Ellipsis)), 2)
    o.eq("truncation", name, full(y), mm(mul(u_, np_("expand_dims", s_, 0)), v_))
    y0 = o.tri("first-order", name, "pt", PX, tuple(mul(EPS, x) for x in TU))
    if y0 is not None:
        o.eq("zero-vector", name, full(y0), full(PX), order=0)
        o.eq("first-order", name, full(y0), ambient(PX, TU), order=1)


def transports(o):
    """C24."""
    name = "transport"
    a = o.tri("tangent", name, "ppt", PX, PY, TU)
    if a is None:
        return
    o.tangent("tangent", name, PY, a)
    b, c = o.tri("linear", name, "ppt", PX, PY, TV_), o.tri("linear", name, "ppt", PX, PY, tlin(TU, TV_))
    if b and c:
        o.same("linear", name, c, tlin(a, b))
    o.same("identity", name, o.tri("identity", name, "ppt", PX, PX, TU), TU)
    # the orthogonal projection of the same ambient matrix
    o.eq("projection", name, tsum(mul(sub(ambient(PX, TU), ambient(PY, a)), ambient(PY, TY))), const(0))


def randoms(o):
    """C25."""
    x = o.tri("valid", "random_point", "")
    if x is not None:
        o.onmanifold("valid", "random_point", x)
    t = o.tri("tangent", "random_tangent_vector", "p", PX)
    if t is not None:
        o.tangent("tangent", "random_tangent_vector", PX, t)
        q = o.run_("unit-norm", "norm", "pt", PX, t)
        if isinstance(q, Term):
            o.eq("unit-norm", "random_tangent_vector", q, const(1))
    z = o.tri("zero", "zero_vector", "p", PX)
    if z is not None:
        o.shape("zero", "zero_vector", z, ((m, k), (k, k), (n, k)))
        o.same("zero", "zero_vector", z, tuple(mul(0, q) for q in TU))


def dimensions(o):
    """C29."""
    v, st = o.r.get("dim")
    dim = o.r.it.term(v, st)
    d = {q: tn.dim(q) for q in "mnk"}
    o.poly("dim", "dim", dim, tn.mul(d["k"], tn.sub(tn.add(d["m"], d["n"]), d["k"])))
    v, st = o.r.get("typical_dist")
    o.eq("typical_dist", "typical_dist", o.r.it.term(v, st), dim)
